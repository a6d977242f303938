----------------------------- MODULE BufferModel -----------------------------
(* Telemetry buffers as sequences of typed fields, and the per-field model   *)
(* learned from them.  A structure is a sequence of <<byte offset, msg id>>.  *)
EXTENDS Mavlink, FieldModel, TLC

\* ---- layout: one record per field, in buffer order --------------------------
FieldRows(off, id) ==
  LET m == Msg(id)
      hn == <<"magic", m.name \o "_mlen", "seq", "srcSystem", m.name \o "_srcComponent", m.name \o "_msgId">>
  IN [k \in 1..6 |-> [n |-> hn[k], t |-> "uint8_t", off |-> off + k - 1, size |-> 1]]
     \o [k \in 1..Len(m.fields) |-> [n |-> m.name \o "_" \o m.fields[k].n, t |-> m.fields[k].t,
                                     off |-> off + HLEN + m.fields[k].off, size |-> m.fields[k].size]]
Layout(struct) == FlattenSeq([j \in 1..Len(struct) |-> FieldRows(struct[j][1], struct[j][2])])
\* bit (0-based) -> field index (0-based) or -1
BitMap(lay, nbytes) ==
  LET byteMap == [b \in 0..(nbytes - 1) |->
        LET K == {k \in 1..Len(lay) : b >= lay[k].off /\ b < lay[k].off + lay[k].size}
        IN IF K = {} THEN -1 ELSE (CHOOSE k \in K : TRUE) - 1]
  IN [i \in 1..(8 * nbytes) |-> byteMap[(i - 1) \div 8]]

\* ---- values -------------------------------------------------------------------
BIG == 1048576
Signed(t) == t \in {"int8_t", "int16_t", "int32_t", "int64_t"}
\* integer value of little-endian bytes, saturated at +-BIG
IntVal(bs, t) ==
  LET n == Len(bs)  neg == Signed(t) /\ bs[n] >= 128
      c(k) == IF k > n THEN 0 ELSE IF neg THEN 255 - bs[k] ELSE bs[k]
      high == \E k \in 4..n : c(k) # 0
      low == c(1) + 256 * c(2) + 65536 * c(3)
  IN IF high \/ low >= BIG THEN (IF neg THEN -BIG ELSE BIG) ELSE IF neg THEN -low - 1 ELSE low
\* IEEE single in units of 1/32, saturated; tiny values round toward zero
FloatVal(bs) ==
  LET sg == IF bs[4] >= 128 THEN -1 ELSE 1
      ex == (bs[4] % 128) * 2 + (bs[3] \div 128)
      man == (bs[3] % 128) * 65536 + bs[2] * 256 + bs[1]
      full == 8388608 + man
  IN IF ex = 255 THEN [v |-> 0, fin |-> FALSE]
     ELSE IF ex >= 145 - 3 THEN Val(sg * BIG)
     ELSE IF ex <= 145 - 30 THEN Val(0)
     ELSE Val(sg * (full \div (2 ^ (145 - ex))))
ValueOf(row, buf) == LET bs == SubSeq(buf, row.off + 1, row.off + row.size) IN
   IF row.t = "float" THEN FloatVal(bs) ELSE Val(IntVal(bs, row.t))
Values(struct, buf) == LET lay == Layout(struct) IN [k \in 1..Len(lay) |-> ValueOf(lay[k], buf)]

\* ---- model: [w, n, f] with f : field name -> [t, w, xs] -----------------------
NewModel(w) == [w |-> w, n |-> 0, f |-> <<>>]
FieldOf(m, name, t) == IF name \in DOMAIN m.f THEN m.f[name] ELSE [w |-> m.w, xs |-> <<>>, t |-> t]
AddOne(m, name, t, v) ==
  LET g == FieldOf(m, name, t)
      a == AddSamples([w |-> g.w, xs |-> g.xs], <<v>>)
  IN [m EXCEPT !.f = (name :> [w |-> g.w, xs |-> a.xs, t |-> g.t]) @@ m.f]
\* samples of a single field; a field model installed by the caller (own window)
AddMany(m, name, t, vs) == FoldLeft(LAMBDA acc, v : AddOne(acc, name, t, v), m, vs)
Install(m, name, t, w, vs) == AddMany([m EXCEPT !.f = (name :> [w |-> w, xs |-> <<>>, t |-> t]) @@ m.f], name, t, vs)
AddBuffer(m, struct, buf) ==
  LET lay == Layout(struct)
      grown == FoldLeft(LAMBDA acc, k : AddOne(acc, lay[k].n, lay[k].t, ValueOf(lay[k], buf)), m, [k \in 1..Len(lay) |-> k])
  IN [grown EXCEPT !.n = IF m.w = 0 \/ m.n < m.w THEN m.n + 1 ELSE m.w]
\* classification of one field of a buffer, as an admissible-result predicate
PredictIs(m, row, buf, p6, d100) == ClassifyIs([w |-> 0, xs |-> m.f[row.n].xs], ValueOf(row, buf), p6, d100)
\* admissible byte representations of the mean of an integer field
MeanBytes(m, row) ==
  LET s == Finite([w |-> 0, xs |-> m.f[row.n].xs])  n == Len(s)
      r == RoundDiv(SumSeq(s), n)
      cand == {q \in {r, r - 1} : 2 * Abs(q * n - SumSeq(s)) <= n}
  IN {LEBytes(IF ~Signed(row.t) /\ q < 0 THEN 0 ELSE q, row.size) : q \in cand}
=============================================================================
