------------------------------- MODULE MCUtil -------------------------------
(* Laws of the measures, for every small instance: entropy bounds, Hellinger  *)
(* is a bounded metric, accuracy is a weighted mean of recalls, F1 lies        *)
(* between precision and recall, mixture probabilities sum to one, the Markov  *)
(* source never leaves its support, Hamming distance is a metric.              *)
EXTENDS Info, MarkovSource, Metrics, Mixture
CONSTANTS N, M
VARIABLES kind, x, w
vars == <<kind, x, w>>
Pmf == {p \in [1..3 -> 0..N] : SumSeq(p) \in 1..N}
Cm == [1..2 -> [1..2 -> 0..N]]
Words == [1..3 -> {0, 1}]
P4 == <<<<0, 8>>, <<3, 5>>, <<8, 0>>, <<1, 7>>>>
Init ==
  /\ w = <<>>
  /\ \/ kind = "pmf" /\ x \in Pmf \X Pmf
     \/ kind = "cm" /\ x \in {c \in Cm : Truth(c, 1) > 0 /\ Truth(c, 2) > 0}
     \/ kind = "ham" /\ x \in Words \X Words \X Words
     \/ kind = "mix" /\ x \in [1..2 -> [1..3 -> 0..8]] /\ x[1][1] = 3 /\ x[2][3] = 4
     \/ kind = "rel" /\ x \in [1..3 -> [1..3 -> 0..M]]
     \/ kind = "src" /\ x \in {<<a, b>> : a \in {0, 1}, b \in {0, 1}}
Next == kind = "src" /\ Len(w) < N + 3 /\ \E s \in {0, 1} :
   /\ MayEmit(2, P4, x, s) /\ x' = Shift(x, s) /\ w' = Append(w, x) /\ UNCHANGED kind
Dist(s, t) == HamBits(s, t)
Laws ==
  /\ kind = "pmf" => LET h == Entropy(x[1]) IN
       /\ h >= 0 /\ h <= 1584963 + 3
       /\ (h = 0) = (\E j \in 1..3 : x[1][j] = SumSeq(x[1]))
       /\ HellSq(x[1], x[2]) = HellSq(x[2], x[1]) /\ HellSq(x[1], x[2]) <= 10000 /\ HellSq(x[1], x[2]) >= -2
       /\ SamePmf(x[1], x[2]) => HellSq(x[1], x[2]) \in -2..2
       /\ HellSq(x[1], x[2]) = 10000 => \A j \in 1..3 : x[1][j] * x[2][j] = 0
  /\ kind = "cm" => \A c \in 1..2 :
       /\ FracLeq(Accuracy(x), IF FracLeq(Recall(x, 1), Recall(x, 2)) THEN Recall(x, 2) ELSE Recall(x, 1))
       /\ FracLeq(F1(x, c), <<1, 1>>)
       /\ FracLeq(F1(x, c), IF FracLeq(Precision(x, c), Recall(x, c)) THEN Recall(x, c) ELSE Precision(x, c))
       /\ FracLeq(IF FracLeq(Precision(x, c), Recall(x, c)) THEN Precision(x, c) ELSE Recall(x, c), F1(x, c))
  /\ kind = "ham" =>
       /\ (Dist(x[1], x[2]) = 0) = (x[1] = x[2]) /\ Dist(x[1], x[2]) = Dist(x[2], x[1])
       /\ Dist(x[1], x[3]) <= Dist(x[1], x[2]) + Dist(x[2], x[3])
  /\ kind = "mix" => LET pi == <<3, 5>> IN
       SumSeq([i \in 1..8 |-> Weight(pi, x, [d \in 1..3 |-> ((i - 1) \div (2 ^ (d - 1))) % 2])]) = 4096
  /\ kind = "rel" => LET G == {[c \in 1..3 |-> m[c]] : m \in GreedyMaps(x, 1..3, 1..3)}
                         B == {m \in [1..3 -> 1..3] : OneToOne(m, 3) /\ Unblocked(m, x, 3)} IN G # {} /\ G = B
  /\ kind = "src" => \A i \in 1..(Len(w) - 1) : MayEmit(2, P4, w[i], w[i + 1][2])
=============================================================================
