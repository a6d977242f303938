---------------------------- MODULE ClassifyDecoder ----------------------------
(* The classifying entropy decoder: a classifier labels the channel's hard     *)
(* bits; each label has a bit model of its own, which rectifies and then       *)
(* learns the buffers with that label, and no others.                          *)
EXTENDS BitModel, Recovery
C == INSTANCE Classifier
Params(c) == [min |-> c.min, k |-> c.kc, cd |-> "LL", md |-> "Hellinger", ws |-> "linear"]
HardOf(llr, m) == [i \in 1..m |-> IF llr[i] < 0 THEN 1 ELSE 0]
Hard(llr) == HardOf(llr, Len(llr))
\* ---- labels: [cls |-> set of possible classifier states, rr |-> last round robin label] ---------
NewLabels == [cls |-> {C!New}, rr |-> -1]
Mode(c) == IF c.kc = 1 THEN "one" ELSE IF c.cluster THEN "cluster" ELSE "turns"
LabelStep(c, g, x, lab) ==
  CASE Mode(c) = "one" -> [good |-> lab = 0, g |-> g]
    [] Mode(c) = "turns" -> [good |-> lab = (g.rr + 1) % c.kc, g |-> [g EXCEPT !.rr = (g.rr + 1) % c.kc]]
    [] OTHER -> LET nx == UNION {C!Classified(Params(c), s, x, lab) : s \in g.cls} IN
                [good |-> nx # {}, g |-> [g EXCEPT !.cls = IF nx # {} THEN nx ELSE g.cls]]
\* ---- the model of one label --------------------------------------------------------------------
Fr(c, m) == IF c.pre # <<>> THEN c.pre ELSE IF Size(m) = 0 THEN <<>> ELSE Corrected(Freq(m, c.m), c.q)
St(c, m) == Struct(Fr(c, m), c.thr)
Conf(c, m) == IF c.pre # <<>> THEN 10000 ELSE Confidence(Size(m), c.cc, c.s20)
\* model llr in 1e-3
ModelLlr(c, m, n) == LET fr == Fr(c, m)  st == Struct(fr, c.thr)  cf == Conf(c, m) IN
  [i \in 1..n |-> IF i \in st THEN (cf * Lln(fr[i])) \div 10000 ELSE 0]
Milli(llr) == [i \in 1..Len(llr) |-> llr[i] * 125]
Close(xs, ys, tol) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : Abs(xs[i] - ys[i]) <= tol
Soft(c, m, llr) == LET ml == ModelLlr(c, m, Len(llr))  cl == (c.clip8 * MaxAbs(llr) * 125) \div 8 IN
  [i \in 1..Len(llr) |-> Clip(llr[i] * 125 + ml[i], -cl, cl)]
\* sum of the two, each at most as strong as the channel, rescaled to the channel's strength
Balanced(c, m, llr) ==
  LET ml == ModelLlr(c, m, Len(llr))  mm == MaxAbs(ml)  mx == MaxAbs(llr) * 125
      s == [i \in 1..Len(llr) |-> llr[i] * 125 + (IF mm > mx THEN (ml[i] * mx) \div mm ELSE ml[i])]
      ms == MaxAbs(s)
  IN IF mm = 0 \/ ms = 0 THEN Milli(llr) ELSE [i \in 1..Len(llr) |-> (s[i] * mx) \div ms]
\* hard bits: sign of the balanced sum (either value where it is numerically zero), or forced structural bits
GalOk(c, m, llr, got) ==
  LET fr == Fr(c, m)  st == Struct(fr, c.thr)  hb == Hard(llr)
      active == MaxAbs(ModelLlr(c, m, Len(llr))) > 0 IN
  IF c.meth = 3
  THEN LET force == active /\ c.pre = <<>> /\ Size(m) >= c.w IN
       got = [i \in 1..Len(llr) |-> IF force /\ i \in st THEN (IF 2 * fr[i][1] > fr[i][2] THEN 1 ELSE 0) ELSE hb[i]]
  \* a confidence too small for the tables still decides bits of which the channel says nothing
  ELSE IF ~active THEN Len(got) = Len(hb) /\ \A i \in 1..Len(hb) : got[i] = hb[i] \/ (llr[i] = 0 /\ i \in st /\ c.pre = <<>> /\ Size(m) > 1 /\ got[i] = 1)
  ELSE LET b == Balanced(c, m, llr) IN
       Len(got) = Len(b) /\ \A i \in 1..Len(b) : IF i \notin st THEN got[i] = hb[i] ELSE (Abs(b[i]) <= 12 /\ got[i] \in {0, 1}) \/ got[i] = (IF b[i] < 0 THEN 1 ELSE 0)
LearnLabel(c, ms, lab, llr, r) ==
  IF lab < 0 \/ lab >= Len(ms) \/ c.pre # <<>> THEN ms
  ELSE [ms EXCEPT ![lab + 1] = LearnBits(@, IF r.ok THEN SubSeq(r.est, 1, c.m) ELSE HardOf(llr, c.m))]
=============================================================================
