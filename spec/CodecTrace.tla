------------------------------ MODULE CodecTrace ------------------------------
(* Conformance of the dialect's codec (C37), stream parser (C38) and of a     *)
(* receiver on a signed link (C40).                                          *)
EXTENDS Mavlink, TraceBase
VARIABLES l, st, viol

\* ---- frames ------------------------------------------------------------------
LE2(c) == <<c % 256, c \div 256>>
\* vals: the wire bytes of every field, in declaration order
Declared(m) == [d \in 1..Len(m.fields) |-> CHOOSE i \in 1..Len(m.fields) : m.fields[i].d = d]
\* strings are padded with zero bytes to the length of the field
Pad(v, size) == [k \in 1..size |-> IF k <= Len(v) THEN v[k] ELSE 0]
PayloadOf(m, vals) == FlattenSeq([i \in 1..Len(m.fields) |-> Pad(vals[m.fields[i].d], m.fields[i].size)])
FrameOf(id, vals, seq, sys, comp) == LET m == Msg(id)
      body == <<m.len, seq, sys, comp, id>> \o PayloadOf(m, vals)
   IN <<STX>> \o body \o LE2(Crc(body \o <<m.crc>>))

\* ---- frames of both protocol versions in the stream -------------------------------
V2 == 253
SIGNED == 1
HLen(u) == IF u[1] = V2 THEN 10 ELSE 6
SLen(u) == IF u[1] = V2 /\ u[3] % 2 = SIGNED THEN 13 ELSE 0
PStarts(x) == x \in {STX, V2}
PLen(b) == b[2] + HLen(b) + 2 + SLen(b)
\* ids of version 2 have three bytes; -1: not a dialect id
IdIn(u) == IF u[1] = V2 THEN (IF u[9] = 0 /\ u[10] = 0 THEN u[8] ELSE -1) ELSE u[6]
PAccept(u) == LET e == Len(u) - SLen(u) IN
   /\ (u[1] = V2 => u[3] \div 2 = 0)
   /\ IdIn(u) \in Ids
   /\ SubSeq(u, e - 1, e) = LE2(Crc(SubSeq(u, 2, e - 2) \o <<CrcExtra[IdIn(u)]>>))
P == INSTANCE Stream WITH Starts <- PStarts, Peek <- 3, UnitLen <- PLen, Accept <- PAccept
\* payload on the wire, completed with zeros / cut to the length of the message
BodyOf(u) == LET b == SubSeq(u, HLen(u) + 1, Len(u) - SLen(u) - 2) IN [k \in 1..WireLen[IdIn(u)] |-> IF k <= Len(b) THEN b[k] ELSE 0]
\* strings end at their first zero byte
UpToZero(s) == LET z == {k \in 1..Len(s) : s[k] = 0} IN IF z = {} THEN s ELSE SubSeq(s, 1, Min(z) - 1)
\* field values carried by accepted frame u, in declaration order
ValsIn(u) == LET m == Msg(IdIn(u))  b == BodyOf(u)  D == Declared(m) IN
   [d \in 1..Len(m.fields) |-> LET f == m.fields[D[d]]  w == SubSeq(b, f.off + 1, f.off + f.size) IN IF f.t = "char" THEN UpToZero(w) ELSE w]
Names(m) == LET D == Declared(m) IN [d \in 1..Len(m.fields) |-> m.fields[D[d]].n]
\* o: a decoded message
MsgIs(o, u) == LET i == IF u[1] = V2 THEN 5 ELSE 3  id == IdIn(u) IN
   /\ o.id = id /\ o.name = Msg(id).name /\ o.seq = u[i] /\ o.sys = u[i + 1] /\ o.comp = u[i + 2]
   /\ o.names = Names(Msg(id)) /\ o.vals = ValsIn(u) /\ o.dict = o.vals
   /\ o.buf = u /\ o.payload = SubSeq(u, HLen(u) + 1, Len(u) - SLen(u) - 2)
   /\ LE2(o.crc) = SubSeq(u, Len(u) - SLen(u) - 1, Len(u) - SLen(u))
   \* length and flags of the header as received; the JSON rendering says what the dictionary says
   /\ o.hdr = (IF u[1] = V2 THEN <<u[2], u[3], u[4]>> ELSE <<u[2], 0, 0>>) /\ o.js

WellFormed(f) == Len(f) >= 8 /\ PStarts(f[1]) /\ Len(f) >= HLen(f) + 2 /\ Len(f) = PLen(f) /\ PAccept(f)

\* ---- C37: a sender --------------------------------------------------------------
\* state s: [seq, sys, comp, pk, by]: sequence number, ids, packets and bytes sent
Seq256(x) == x % 256
JSender(s, e) == Verdict([s EXCEPT !.seq = e.seq, !.sys = e.sys, !.comp = e.comp, !.pk = 0, !.by = 0], Returned(e))
\* the message is sent: exactly its frame is written, the next one gets the next number
JSend(s, e) ==
   LET f == FrameOf(e.id, e.vals, s.seq, s.sys, s.comp)
       n == [s EXCEPT !.seq = Seq256(@ + 1), !.pk = @ + 1, !.by = @ + Len(f)] IN
   Verdict(n, Returned(e) \cup (IF ~e.ok THEN {} ELSE
      NeedI(e.out = f, "SentFrame", e.id)
      \cup Need(e.seq = n.seq /\ e.pk = n.pk /\ e.by = n.by, "SendCounters")
      \cup Need(e.cb \in {1, -1}, "SendCallbackOnce")))
\* packing alone writes nothing and takes no number
JPack(s, e) ==
   LET f == FrameOf(e.id, e.vals, s.seq, s.sys, s.comp) IN
   Verdict(s, Returned(e) \cup (IF ~e.ok THEN {} ELSE
      NeedI(e.packed = f, "PackedFrame", e.id)
      \cup Need(e.out = <<>> /\ e.seq = s.seq /\ e.pk = s.pk /\ e.by = s.by, "PackingHasNoEffect")
      \cup Need(e.hdr = <<e.id, s.seq, s.sys, s.comp>> /\ e.payload = PayloadOf(Msg(e.id), e.vals) /\ e.buf = f
                /\ LE2(e.crc) = SubSeq(f, Len(f) - 1, Len(f)), "PackedMessageAccessors")))
\* values that do not fit their field are refused, nothing is sent
NotSent(s, e) == e.out = <<>> /\ e.cb < 1 /\ e.seq = s.seq /\ e.pk = s.pk /\ e.by = s.by
JRefuse(s, e) == Verdict(s, Need(~e.ok, "RefuseUnfitting") \cup Need(NotSent(s, e), "RefusedSendHasNoEffect"))
\* the writer raised: the sender learns of it, and the message counts as not sent
JLost(s, e) == Verdict(s, NeedI(~e.ok /\ e.exc = "OSError", "WriteErrorReachesSender", e.exc) \cup Need(NotSent(s, e), "LostSendHasNoEffect"))
\* a frame given to decode(): e.f bytes
JDecode(s, e) == Verdict(s,
   IF WellFormed(e.f)
   THEN Returned(e) \cup (IF e.ok THEN NeedI(MsgIs(e.o, e.f), "DecodedMessage", e.f) ELSE {})
   ELSE NeedI(~e.ok /\ e.exc = "MAVError", "DecodeRefuses", <<e.exc, e.f>>))
\* equality of two messages: same kind, header ids and values
JMsgEq(s, e) == Verdict(s, Returned(e) \cup (IF e.ok THEN Need(e.res = e.same /\ e.nres = ~e.same, "MessageEquality") ELSE {}))

\* ---- C38: a receiver ----------------------------------------------------------------
\* s.rb: bytes held; s.rob: robust parsing; s.perr: last unit was a bad prefix; counters of packets, bytes, errors
JReceiver(s, e) == Verdict([s EXCEPT !.rb = <<>>, !.rob = e.rob, !.perr = FALSE, !.rp = 0, !.rn = 0, !.re = 0], Returned(e))
OutIs(o, w) == IF w.k = "msg" THEN o.k = "msg" /\ MsgIs(o, w.d) ELSE o.k = "bad" /\ o.buf = w.d
Counters(n, e) == Need(e.rp = n.rp /\ e.rn = n.rn /\ e.re = n.re, "ReceiveCounters")
\* bytes to ask for next, holding b: what the frame at the front still misses, once its length is known; when a unit was
\* just handed out and b not looked at yet, no more than a shortest frame
NeedIs(b, fresh, need) == IF ~fresh /\ Len(b) >= 3 THEN need = PLen(b) - Len(b) ELSE need >= 1 /\ need <= MaxOf(1, 12 - Len(b))
\* parse_buffer in robust mode: everything that can be consumed
JBuffer(s, e) ==
   LET w == P!DrainAll(s.rb \o e.chunk)  outs == w[1]
       n == [s EXCEPT !.rb = w[2], !.rp = @ + Len(outs), !.rn = @ + Len(e.chunk),
                      !.re = @ + Len(SelectSeq(outs, LAMBDA x : x.k # "msg"))] IN
   Verdict(n, Returned(e) \cup (IF ~e.ok THEN {} ELSE
      NeedI(Len(e.outs) = Len(outs) /\ \A i \in 1..Len(outs) : OutIs(e.outs[i], outs[i]), "ParsedUnits", [want |-> outs])
      \cup Need(e.none = (outs = <<>>), "NoneWhenNothing")
      \cup Need(e.cbs = Len(outs), "CallbackPerUnit")
      \cup Counters(n, e)
      \cup Need(NeedIs(w[2], FALSE, e.need), "BytesNeeded")))
\* parse_char: at most one unit
JChar(s, e) ==
   LET b == s.rb \o e.chunk  has == P!HasUnit(b)  k == P!Kind(b)
       rest == IF has THEN P!Rest(b) ELSE b
       msg == has /\ k = "msg"
       n == [s EXCEPT !.rb = rest, !.rn = @ + Len(e.chunk),
                      !.rp = @ + (IF has /\ (s.rob \/ msg) THEN 1 ELSE 0),
                      !.perr = IF has /\ k = "prefix" THEN TRUE ELSE IF b # <<>> THEN FALSE ELSE @,
                      !.re = @ + (IF has /\ k # "msg" /\ s.rob THEN 1 ELSE 0)] IN
   Verdict(n,
     IF ~has THEN Returned(e) \cup (IF e.ok THEN Need(e.outs = <<>> /\ e.cbs = 0, "NothingYet") \cup Need(NeedIs(b, FALSE, e.need), "BytesNeeded") ELSE {})
     ELSE IF s.rob \/ msg
     THEN Returned(e) \cup (IF e.ok THEN NeedI(Len(e.outs) = 1 /\ OutIs(e.outs[1], [k |-> k, d |-> P!Unit(b)]), "ParsedUnit", P!Unit(b))
                                         \cup Need(e.cbs = 1, "CallbackPerUnit") \cup Need(NeedIs(rest, TRUE, e.need), "BytesNeeded") \cup (IF s.rob THEN Counters(n, e) ELSE Need(e.rp = n.rp /\ e.rn = n.rn, "ReceiveCounters")) ELSE {})
     ELSE IF k = "prefix" /\ s.perr
     THEN Returned(e) \cup (IF e.ok THEN Need(e.outs = <<>> /\ e.cbs = 0, "FurtherJunkIsSilent") ELSE {})
     ELSE NeedI(~e.ok /\ e.exc = "MAVError", "StrictParserRaises", e.exc))

\* ---- C40: a receiver on a signed link ------------------------------------------------
\* s.key: holds the secret key; s.cb: answer to frames it cannot trust ("none": nobody to ask); s.r: receiver of Signing;
\* s.n = [sig, good, bad, uns, rej]: frames carrying a signature, found good, bad, let in by the callback, turned away by it
Sg == INSTANCE Signing WITH Base <- 16777216, Slack <- <<0, 6000000>>
NoCounts == [sig |-> 0, good |-> 0, bad |-> 0, uns |-> 0, rej |-> 0]
JLink(s, e) == Verdict([s EXCEPT !.key = e.key, !.cb = e.cb, !.r = Sg!NewReceiver(e.t), !.n = NoCounts], Returned(e))
StreamOf(u) == <<u[Len(u) - 12], u[6], u[7]>>
StampOf(u) == LET k == Len(u) - 12 IN <<u[k + 4] + 256 * u[k + 5] + 65536 * u[k + 6], u[k + 1] + 256 * u[k + 2] + 65536 * u[k + 3]>>
\* e.auth: the last six bytes are those the key gives for all bytes before them
JFrame(s, e) ==
   LET u == e.f  ok == WellFormed(u)  sg == ok /\ SLen(u) > 0
       good == s.key /\ sg /\ Sg!Genuine(s.r, StreamOf(u), StampOf(u), e.auth)
       asked == s.key /\ ok /\ ~good /\ s.cb # "none"
       acc == ok /\ (~s.key \/ good \/ (asked /\ s.cb = "yes"))
       c == s.n
       n == [s EXCEPT !.r = IF s.key /\ sg THEN Sg!After(@, StreamOf(u), StampOf(u), e.auth) ELSE @,
                      !.n = [sig |-> c.sig + (IF sg THEN 1 ELSE 0), good |-> c.good + (IF good THEN 1 ELSE 0),
                             bad |-> c.bad + (IF s.key /\ sg /\ ~good THEN 1 ELSE 0),
                             uns |-> c.uns + (IF asked /\ s.cb = "yes" THEN 1 ELSE 0), rej |-> c.rej + (IF asked /\ s.cb = "no" THEN 1 ELSE 0)]] IN
   Verdict(n, Returned(e) \cup (IF ~e.ok THEN {} ELSE
      NeedI(~e.acc \/ acc, "OnlyTrustedFramesAccepted", [u |-> u, auth |-> e.auth])
      \cup NeedI(~acc \/ e.acc, "TrustedFrameAccepted", [u |-> u, auth |-> e.auth, why |-> e.why])
      \cup (IF ~e.acc \/ ~acc THEN {} ELSE
             Need(MsgIs(e.o, u), "SignedFrameContent")
             \cup NeedI(e.signed = good /\ (good => e.link = StreamOf(u)[1]), "SignedMark", [good |-> good]))
      \cup NeedI(e.t = n.r.ts, "ReceiverClock", n.r.ts)
      \cup NeedI(e.asked = (IF asked THEN <<IdIn(u)>> ELSE <<>>), "AskedOnceAboutUntrusted", e.asked)
      \cup NeedI(e.n = n.n, "SignatureCounters", <<e.n, n.n>>)))

Judge(s, e) ==
  CASE e.ev = "Sender" -> JSender(s, e) [] e.ev = "Send" -> JSend(s, e) [] e.ev = "Pack" -> JPack(s, e) [] e.ev = "Refuse" -> JRefuse(s, e) [] e.ev = "Lost" -> JLost(s, e)
    [] e.ev = "Decode" -> JDecode(s, e) [] e.ev = "MsgEq" -> JMsgEq(s, e)
    [] e.ev = "Receiver" -> JReceiver(s, e) [] e.ev = "Buffer" -> JBuffer(s, e) [] e.ev = "Char" -> JChar(s, e)
    [] e.ev = "Link" -> JLink(s, e) [] e.ev = "Frame" -> JFrame(s, e)
T == INSTANCE TraceLoop WITH InitState <- [seq |-> 0, sys |-> 0, comp |-> 0, pk |-> 0, by |-> 0,
                                           rb |-> <<>>, rob |-> TRUE, perr |-> FALSE, rp |-> 0, rn |-> 0, re |-> 0,
                                           key |-> FALSE, cb |-> "none", r |-> Sg!NewReceiver(<<0, 0>>), n |-> NoCounts]
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
