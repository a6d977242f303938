---------------------------- MODULE MarkovSource ----------------------------
(* A stationary source over 0..S-1 whose next symbol depends on the last `o`  *)
(* symbols, oldest first.  P[ctx + 1][s + 1] in eighths.                       *)
EXTENDS Common
CtxIndex(S, w) == FoldLeft(LAMBDA a, x : a * S + x, 0, w)
Row(S, P, w) == P[CtxIndex(S, w) + 1]
MayEmit(S, P, w, s) == Row(S, P, w)[s + 1] > 0
Shift(w, s) == Append(Tail(w), s)
\* positions of xs (1-based) not explained by the chain
Unsupported(S, o, P, xs) == {t \in (o + 1)..Len(xs) : ~MayEmit(S, P, SubSeq(xs, t - o, t - 1), xs[t])}
\* next-symbol counts per context
Counts(S, o, P, xs) ==
  LET zero == [c \in 1..Len(P) |-> [s \in 1..S |-> 0]]
      step(a, t) == LET c == CtxIndex(S, SubSeq(xs, t - o, t - 1)) + 1 IN [a EXCEPT ![c][xs[t] + 1] = @ + 1]
  IN FoldLeft(step, zero, [i \in 1..(Len(xs) - o) |-> i + o])
\* six standard deviations of a binomial count
Plausible(cnt, n, k) == LET d == 8 * cnt - n * k IN d * d <= 36 * n * k * (8 - k)
=============================================================================
