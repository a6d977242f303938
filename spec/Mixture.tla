------------------------------- MODULE Mixture -------------------------------
(* Mixture of independent bits with parameters in eighths: pi a sequence of   *)
(* K weights with sum 8, mu[k] a sequence of D values in 0..8.  Joint weights  *)
(* of (component, word) are exact integers out of 8^(D+1).                     *)
EXTENDS Num
Joint(pi, mu, k, x) == FoldLeft(LAMBDA a, d : a * (IF x[d] = 1 THEN mu[k][d] ELSE 8 - mu[k][d]), pi[k], [d \in 1..Len(x) |-> d])
Weight(pi, mu, x) == SumSeq([k \in 1..Len(pi) |-> Joint(pi, mu, k, x)])
Likeliest(pi, mu, x) == {k \in 1..Len(pi) : \A j \in 1..Len(pi) : Joint(pi, mu, k, x) >= Joint(pi, mu, j, x)}
\* 1e-3 ln P(x)
LogP(pi, mu, x) == Tab.lnint[Weight(pi, mu, x)] - (207944 * (Len(x) + 1)) \div 100
\* ---- a fitted mixture: mu, pi, gamma in 1e-4, sample rows xs ----------------
Neff(g, k) == SumSeq([i \in 1..Len(g) |-> g[i][k]])
Unit(v) == v >= 0 /\ v <= 10000
Fitted(f, xs) ==
  LET n == Len(xs)  D == Len(xs[1])  K == Len(f.pi) IN
  /\ \A k \in 1..K : Unit(f.pi[k]) /\ \A d \in 1..D : Unit(f.mu[k][d])
  /\ Abs(SumSeq(f.pi) - 10000) <= K
  /\ \A i \in 1..n : (\A k \in 1..K : Unit(f.g[i][k])) /\ Abs(SumSeq(f.g[i]) - 10000) <= K
  /\ \A k \in 1..K : Abs(f.pi[k] * n - Neff(f.g, k)) <= 2 * n
  /\ \A k \in 1..K, d \in 1..D : Abs(f.mu[k][d] * (Neff(f.g, k) \div 10) - 1000 * SumSeq([i \in 1..n |-> xs[i][d] * f.g[i][k]])) <= 4000 * (n + 2)
=============================================================================
