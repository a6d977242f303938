----------------------------- MODULE MavDecoder -----------------------------
(* Decoders that rectify with a model of MAVLink fields: the rectifying        *)
(* decoder ("mav"), and the two combined with per-label bit models             *)
(* ("comb", "uni").  Log likelihoods are integers in 1e-3.                      *)
(*  c.kind, c.k info bits, c.m model bits, c.vt / c.it thresholds in 1e-6,      *)
(*  c.f10 / c.g10 factors in tenths, c.learn, c.passes, c.flip, and the bit     *)
(*  model parameters of ClassifyDecoder                                         *)
EXTENDS ClassifyDecoder, BufferModel
NOSTRUCT == [k |-> FALSE, s |-> <<>>]
\* IEEE single bytes of v/32
RECURSIVE Log2(_)
Log2(v) == IF v < 2 THEN 0 ELSE 1 + Log2(v \div 2)
FloatBytes(v) ==
  LET a == Abs(v)  e == Log2(a)  ex == 127 + e - 5  man == (a - 2 ^ e) * (2 ^ (23 - e)) IN
  IF v = 0 THEN <<0, 0, 0, 0>>
  ELSE <<man % 256, (man \div 256) % 256, (ex % 2) * 128 + (man \div 65536), (IF v < 0 THEN 128 ELSE 0) + ex \div 2>>
\* ---- what the field model says of one field: bracket of its probability, and whether it never varied -----
FieldP(m, row, buf) ==
  LET s == Finite([w |-> 0, xs |-> m.f[row.n].xs])  n == Len(s)  x == ValueOf(row, buf) IN
  IF NVar(s) = 0 THEN LET same == x.fin /\ x.v * n = SumSeq(s) IN [lo |-> IF same THEN 1000000 ELSE 0, hi |-> IF same THEN 1000000 ELSE 0, const |-> TRUE]
  ELSE IF ~x.fin THEN [lo |-> 0, hi |-> 0, const |-> FALSE]
  ELSE IF x.v * n = SumSeq(s) THEN [lo |-> 1000000, hi |-> 1000000, const |-> FALSE]
  ELSE LET i == ZFloor(s, x.v) IN
       IF i >= 400 THEN [lo |-> 0, hi |-> 2, const |-> FALSE] ELSE [lo |-> Tab.erfc[i + 2] - 2, hi |-> Tab.erfc[i + 1] + 2, const |-> FALSE]
\* the value a constant field always had
ConstBits(m, row) == LET s == m.f[row.n].xs IN
  BitsOfBytes(IF row.t = "float" THEN FloatBytes(s[1].v) ELSE LEBytes(s[1].v, row.size))
Opinion(c, m, lay, buf) ==
  LET K == {k \in 1..Len(lay) : lay[k].n \in DOMAIN m.f}
      P == [k \in K |-> FieldP(m, lay[k], buf)] IN
  [k |-> K, p |-> P,
   good |-> {k \in K : P[k].lo > 1000000 - c.vt}, maygood |-> {k \in K : P[k].hi > 1000000 - c.vt},
   bad |-> {k \in K : P[k].hi < c.it}, maybad |-> {k \in K : P[k].lo < c.it}]
\* factors in 1e-4
Factor(c, m, f10) == IF c.learn THEN 10000 + ((f10 - 10) * Confidence(m.n, c.cc, c.s20)) \div 10 ELSE f10 * 1000
Times(x, f) == (x * f) \div 10000
SgnBit(b) == IF b = 1 THEN -1 ELSE 1
HardN(x, n) == [i \in 1..n |-> IF x[i] < 0 THEN 1 ELSE 0]
\* rectification of obs for fields taken as good (G) and bad (B); bm the own bit model
Rectify(c, m, lay, fmap, op, G, B, bm, obs) ==
  LET n == Len(obs)
      F == Factor(c, m, c.f10)   D == Factor(c, m, c.g10)
      fr == IF c.kind = "uni" THEN Fr(c, bm) ELSE <<>>
      low == IF c.kind = "uni" THEN Struct(fr, c.thr) ELSE {}
      use == c.kind # "uni" \/ Size(bm) > c.cc
      sub(i) == use /\ (c.kind # "uni" \/ i \in low)
      differs(i) == c.kind # "uni" \/ (IF 2 * fr[i][1] > fr[i][2] THEN 1 ELSE 0) # (IF obs[i] < 0 THEN 1 ELSE 0)
      mx == Times(MaxAbs(obs), MaxOf(F, 10000))
      cb == [k \in {k \in op.k : op.p[k].const} |-> ConstBits(m, lay[k])]
      forced(k) == k \in DOMAIN cb /\ ((c.kind = "uni" /\ ~c.learn) \/ op.p[k].hi = 0)
      m1 == [i \in 1..n |->
              LET k == fmap[i] + 1 IN
              IF k = 0 THEN obs[i]
              ELSE IF forced(k) THEN SgnBit(cb[k][i - 8 * lay[k].off]) * mx
              ELSE IF k \in G /\ sub(i) THEN Times(obs[i], F)
              ELSE IF k \in B /\ sub(i) /\ differs(i) THEN Times(obs[i], D) * (IF c.kind = "uni" /\ c.flip THEN -1 ELSE 1)
              ELSE obs[i]]
      v1 == ValidBits(HardN(obs, c.k))
      found == \E i \in 1..Len(v1) : v1[i]
      v2 == ValidBits(HardN(m1, c.k))
      at(v, i) == i <= Len(v) /\ v[i]
  IN IF found THEN [llr |-> [i \in 1..n |-> IF at(v1, i) THEN 2 * Times(obs[i], F) ELSE m1[i]], seg |-> [i \in 1..n |-> at(v1, i)]]
     ELSE [llr |-> [i \in 1..n |-> IF at(v2, i) THEN 2 * m1[i] ELSE m1[i]], seg |-> [i \in 1..n |-> at(v2, i)]]
\* admissible rectifications: one per resolution of the fields too close to a threshold to call
NOOP == [G |-> {}, B |-> {}, seg |-> <<>>]
Rectified(c, m, struct, bm, obs) ==
  IF ~struct.k THEN {[llr |-> obs, G |-> {}, B |-> {}, seg |-> <<>>]}
  ELSE LET lay == Layout(struct.s)  nb == Len(obs) \div 8
           buf == BytesOfBits(HardN(obs, 8 * nb))
           op == Opinion(c, m, lay, buf)
           fmap == BitMap(lay, nb)
       IN UNION {{LET r == Rectify(c, m, lay, fmap, op, G, B, bm, obs) IN [llr |-> r.llr, G |-> G, B |-> B, seg |-> r.seg]
                   : G \in {op.good \cup a : a \in SUBSET (op.maygood \ op.good)}}
                   : B \in {op.bad \cup a : a \in SUBSET (op.maybad \ op.bad)}}
\* the bit model's contribution of the combined decoders
PlusBits(c, bm, llr, chan) ==
  IF c.kind = "mav" THEN llr
  ELSE LET ml == ModelLlr(c, bm, Len(llr))  cl == (c.clip8 * MaxAbs(chan)) \div 8 IN
       [i \in 1..Len(llr) |-> llr[i] + Clip(ml[i], -cl, cl)]
\* ---- learning: x = [c, g, ss, m, ms]; lab 0-based; r the inner result ------------------------------
LearnPass(c, x, lab, chan, r) ==
  LET hb == HardN(chan, Len(chan))
      ss == IF c.learn /\ r.ok /\ ~x.ss[lab + 1].k
            THEN [x.ss EXCEPT ![lab + 1] = [k |-> TRUE, s |-> StructureOf(SubSeq(r.est, 1, c.k))]] ELSE x.ss
      m == IF c.learn /\ (r.ok \/ x.ss[lab + 1].k) THEN AddBuffer(x.m, ss[lab + 1].s, BytesOfBits(IF r.ok THEN r.est ELSE hb)) ELSE x.m
      ms == IF c.kind = "mav" THEN x.ms
            ELSE [x.ms EXCEPT ![lab + 1] = LearnBits(@, SubSeq(IF r.ok THEN r.est ELSE hb, 1, c.m))]
  IN [x EXCEPT !.ss = ss, !.m = m, !.ms = ms]
\* ---- analysis against the true error positions (0-based bits) --------------------------------------
Damaged(struct, err, nbytes) == LET bm == BitMap(Layout(struct), nbytes) IN {bm[b + 1] : b \in {b \in err : b < Len(bm) /\ bm[b + 1] >= 0}}
\* true positives, false positives, true negatives, false negatives, positives, negatives
Table6(P, A, neg) == <<Cardinality(P \cap A), Cardinality(P \ A), neg - Cardinality(P \ A), Cardinality(A \ P), Cardinality(A), neg>>
FieldTables(struct, n, nf, good, bad, err) ==
  LET D == IF struct.k THEN Damaged(struct.s, err, n \div 8) ELSE {} IN
  IF D = {} THEN <<>>
  ELSE <<nf, Cardinality(D)>> \o Table6(good, (0..(nf - 1)) \ D, Cardinality(D)) \o Table6(bad, D, nf - Cardinality(D))
\* what the model takes a bit to be: set of admissible values
ModelBit(m, lay, bm, i) ==
  IF i >= Len(bm) \/ bm[i + 1] = -1 \/ ~(lay[bm[i + 1] + 1].n \in DOMAIN m.f) THEN {0}
  ELSE LET row == lay[bm[i + 1] + 1]  at == i - 8 * row.off + 1  s == Finite([w |-> 0, xs |-> m.f[row.n].xs]) IN
       IF NVar(s) = 0 THEN {ConstBits(m, row)[at]} ELSE IF row.t = "float" THEN {0, 1} ELSE {BitsOfBytes(bs)[at] : bs \in MeanBytes(m, row)}
\* forced bits a sequence of 0-based positions, mb the bits they were forced to, rx the received bits; last entry in 1e-5
ForceTables(n, forced, mb, err, rx) ==
  LET F == {forced[j] : j \in 1..Len(forced)}
      flipped == {forced[j] : j \in {j \in 1..Len(forced) : mb[j] # rx[forced[j] + 1]}}
      wrong == Cardinality({j \in 1..Len(forced) : (mb[j] = rx[forced[j] + 1]) = (forced[j] \in err)})
      t == Table6(flipped, err, n - Cardinality(err))
  IN Table6(F, err, n - Cardinality(err)) \o t \o <<Cardinality(err), Len(forced), Cardinality(flipped), t[1], t[2], IF Len(forced) = 0 THEN 0 ELSE RoundDiv(100000 * wrong, Len(forced))>>
NearLast(a, b) == Len(a) = Len(b) /\ (a = b \/ (a # <<>> /\ SubSeq(a, 1, Len(a) - 1) = SubSeq(b, 1, Len(b) - 1) /\ Abs(a[Len(a)] - b[Len(b)]) <= 1))
\* the bits a rectification of obs forces
ForcedBits(c, m, struct, obs) ==
  LET lay == Layout(struct.s)  nb == Len(obs) \div 8  bm == BitMap(lay, nb)
      op == Opinion(c, m, lay, BytesOfBits(HardN(obs, 8 * nb)))
      K == {k \in op.k : op.p[k].const /\ op.p[k].hi = 0} IN
  SetToSortSeq({i \in 0..(8 * nb - 1) : bm[i + 1] + 1 \in K}, LAMBDA a, b : a < b)
SoftOf(r) == [i \in 1..Len(r.est) |-> (IF r.est[i] = 1 THEN -1 ELSE 1) * (r.tag + 1) * 250]
=============================================================================
