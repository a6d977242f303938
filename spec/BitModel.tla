------------------------------- MODULE BitModel -------------------------------
(* Per-bit models learned from buffers: a sliding window of bit vectors, the  *)
(* per-bit probability of a one (optionally corrected for a channel flip      *)
(* probability of 1/4), its entropy, its log likelihood ratio, and the set of *)
(* structural (low entropy) bits.                                             *)
EXTENDS Num
\* m = [w |-> window (0: all), d |-> the bit vectors of the window, oldest first (not kept when all are),
\*      n |-> how many vectors count, o |-> per bit, how many of them have a one]
\* MCBits checks that n and o are what counting over the last w vectors of the whole history gives
NewBits(w) == [w |-> w, d |-> <<>>, n |-> 0, o |-> <<>>]
LearnBits(m, bits) ==
  LET full == m.w > 0 /\ m.n = m.w IN
  [w |-> m.w, d |-> IF m.w = 0 THEN <<>> ELSE LastN(Append(m.d, bits), m.w), n |-> IF full THEN m.n ELSE m.n + 1,
   o |-> IF m.n = 0 THEN bits ELSE IF full THEN [i \in 1..Len(bits) |-> m.o[i] + bits[i] - m.d[1][i]] ELSE [i \in 1..Len(bits) |-> m.o[i] + bits[i]]]
Size(m) == m.n
\* frequencies as <<k, n>>: k/n = probability of a one
Freq(m, nbits) == [i \in 1..nbits |-> <<m.o[i], m.n>>]
\* corrected for a flip probability of q/8 (q = 0, 1, 2): clip((k/n - q/8)/(1 - q/4), 0, 1) = clip(8k - qn, 0, (8-2q)n) / ((8-2q)n)
Corrected(fr, q) == IF q = 0 THEN fr
                    ELSE IF q = 2 THEN [i \in 1..Len(fr) |-> LET k == fr[i][1] n == fr[i][2] IN <<Clip(4 * k - n, 0, 2 * n), 2 * n>>]
                    ELSE [i \in 1..Len(fr) |-> LET k == fr[i][1] n == fr[i][2] IN <<Clip(8 * k - q * n, 0, (8 - 2 * q) * n), (8 - 2 * q) * n>>]
Ent(x) == Tab.ent[x[2]][x[1] + 1]         \* 1e-6
Lln(x) == Tab.ln[x[2]][x[1] + 1]          \* 1e-3
\* structural positions of a frequency vector for a threshold in 1e-6
Struct(fr, thr) == {i \in 1..Len(fr) : Ent(fr[i]) < thr}
\* 1/(1 + exp(-x)), x = (size - center) * s20 / 20, in 1e-4; zero for models of at most one buffer
Sigmoid(i) == IF i >= 0 THEN Tab.sig[MinOf(i, 400) + 1] ELSE 10000 - Tab.sig[MinOf(-i, 400) + 1]
Confidence(size, center, s20) == IF size <= 1 THEN 0 ELSE Sigmoid((size - center) * s20)
=============================================================================
