---------------------------- MODULE EntropyDecoder ----------------------------
(* The bitwise entropy decoders as deterministic machines.  llr values are    *)
(* integers in units of 1/8; everything handed to the inner decoder is judged *)
(* in units of 1e-3 with a tolerance.                                         *)
(* c = [m, thr, clip8, min, w, pre, q, ...] configuration:                    *)
(*   m bits of model, thr entropy threshold (1e-6), clip8 clipping factor * 8,*)
(*   min buffers before rectifying, w window, pre predefined frequencies,     *)
(*   q flip probability in eighths (only if the distribution is corrected)    *)
EXTENDS BitModel, Recovery
Milli(llr) == [i \in 1..Len(llr) |-> llr[i] * 125]
ModelBits(c, est) == SubSeq(est, 1, c.m)
HardBits(llr) == [i \in 1..Len(llr) |-> IF llr[i] < 0 THEN 1 ELSE 0]
MaxMilli(llr) == MaxAbs(llr) * 125
Close(xs, ys, tol) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : Abs(xs[i] - ys[i]) <= tol

\* --- EntropyBitwiseDecoder ----------------------------------------------------
Frequencies(c, s) == IF c.pre # <<>> THEN c.pre ELSE Freq(s, c.m)
UseModel(c, s) == c.pre # <<>> \/ (Size(s) > 0 /\ Size(s) >= c.min)
Rectify(c, s, llr) ==
  IF ~UseModel(c, s) THEN Milli(llr)
  ELSE LET fr == Frequencies(c, s)  st == Struct(fr, c.thr)  cl == (c.clip8 * MaxMilli(llr)) \div 8
       IN [i \in 1..Len(llr) |-> llr[i] * 125 + (IF i \in st THEN Clip(Lln(fr[i]), -cl, cl) ELSE 0)]
Flip(c, s, bits) ==
  IF ~UseModel(c, s) THEN bits
  ELSE LET fr == Frequencies(c, s)  st == Struct(fr, c.thr)
       IN [i \in 1..Len(bits) |-> IF i \in st THEN (IF 2 * fr[i][1] > fr[i][2] THEN 1 ELSE 0) ELSE bits[i]]
\* one decode: r = results the inner decoder gave.  Final result and learned state.
Final(r) == IF r[1].ok THEN r[1] ELSE r[2]
LearnFull(c, s, est) == IF c.pre # <<>> THEN s
                        ELSE IF FullyRecovered(ModelBits(c, est)) THEN LearnBits(s, ModelBits(c, est)) ELSE s

\* --- EntropyBitwiseWeightedDecoder (maximum likelihood models) ------------------
\* s = [a |-> bits model of verified buffers, b |-> bits model of all buffers]
LearnWeighted(c, s, llr, r) ==
  LET mb == ModelBits(c, Final(r).est)  full == FullyRecovered(mb)
      na == IF full THEN LearnBits(s.a, mb) ELSE s.a
      nb == IF r[1].ok \/ full THEN LearnBits(s.b, mb) ELSE LearnBits(s.b, SubSeq(HardBits(llr), 1, c.m))
  IN [a |-> na, b |-> nb]
\* twice the mean of p(1-p), as an index into vfac (units of 1/20000): 40000/m * sum k(n-k)/n^2
VarIdx(fr) == LET m == Len(fr)
                  t == FoldLeft(LAMBDA acc, x : acc + ((10000 * x[1] * (x[2] - x[1])) \div (x[2] * x[2])), 0, fr)
              IN MinOf((4 * t) \div m, 10000)
Confs(c, s) ==
  LET a == Confidence(Size(s.a), c.ca, c.s20)
      b == Confidence(Size(s.b), c.cb, c.sb20)
  IN CASE c.scheme = 0 -> <<a, b>>
       [] c.scheme = 1 -> IF a + b = 0 THEN <<a, b>> ELSE <<(a * a) \div (a + b), (b * b) \div (a + b)>>
       [] c.scheme = 2 -> IF 2 * a + b = 0 THEN <<a, b>> ELSE <<(2 * a * a) \div (2 * a + b), (b * b) \div (2 * a + b)>>
       [] c.scheme = 3 -> <<a, 0>>
       [] c.scheme = 4 -> <<IF a = 0 THEN 0 ELSE (a * Tab.vfac[VarIdx(Corrected(Freq(s.a, c.m), c.q)) + 1]) \div 10000,
                            IF b = 0 THEN 0 ELSE (b * Tab.vfac[VarIdx(Corrected(Freq(s.b, c.m), c.q)) + 1]) \div 10000>>
       [] c.scheme = 5 -> <<0, b>>
       [] OTHER -> <<a, b>>
FreqOf(c, m) == IF Size(m) = 0 THEN <<>> ELSE Corrected(Freq(m, c.m), c.q)
StructOf(c, m) == Struct(FreqOf(c, m), c.thr)
\* in 1e-3; conf (1e-4) * ln (1e-3)
Part(conf, ln) == (conf * ln) \div 10000
RectifyWeighted(c, s, llr) ==
  LET fa == FreqOf(c, s.a)  fb == FreqOf(c, s.b)  sa == Struct(fa, c.thr)  sb == Struct(fb, c.thr)
      cf == Confs(c, s)  cl == (c.clip8 * MaxMilli(llr)) \div 8
  IN IF sa = {} /\ sb = {} THEN Milli(llr)
     ELSE [i \in 1..Len(llr) |-> Clip(llr[i] * 125 + (IF i \in sa THEN Part(cf[1], Lln(fa[i])) ELSE 0)
                                                   + (IF i \in sb THEN Part(cf[2], Lln(fb[i])) ELSE 0), -cl, cl)]
=============================================================================
