------------------------------ MODULE UtilTrace ------------------------------
(* C31 information measures, C32 Markov source, C33 quality figures, C34       *)
(* Bernoulli mixture, C36 Hamming distance.                                     *)
EXTENDS Info, MarkovSource, Metrics, Mixture, Mavlink, TraceBase
VARIABLES l, st, viol
\* ---- C31 ---------------------------------------------------------------------
JProb(e) ==
  LET alpha == IF e.given = <<>> THEN AlphabetOf(e.rows) ELSE e.given IN
  IF \E i \in 1..Len(e.rows) : ~(ToSet(e.rows[i]) \subseteq ToSet(alpha)) THEN Need(~e.ok, "UnknownSymbolRejected")
  ELSE IF ~e.ok THEN Returned(e)
  ELSE NeedI(e.alpha = alpha, "Alphabet", e.alpha)
    \cup NeedI(Len(e.pr) = Len(e.rows) /\ \A i \in 1..Len(e.rows) : Len(e.pr[i]) = Len(alpha) /\
               \A j \in 1..Len(alpha) : IsFrac(e.pr[i][j], Count(e.rows[i], alpha[j]), Len(e.rows[i]), 100000, 1), "RelativeFrequencies", e.pr)
JEnt(e) == IF ~e.ok THEN Returned(e)
  ELSE NeedI(Len(e.ent) = Len(e.pk) /\ \A i \in 1..Len(e.pk) : Abs(e.ent[i]) < 10000000 /\ Abs(e.ent[i] * e.lb - Entropy(e.pk[i])) <= 2 * Len(e.pk[i]) + 2 * e.lb, "Entropy", e.ent)
JHel(e) == IF ~e.ok THEN Returned(e)
  ELSE NeedI(Len(e.h) = Len(e.pk) /\ \A i \in 1..Len(e.pk) : IsHellinger(e.h[i], e.pk[i], e.qk[i]), "HellingerDistance", e.h)
    \cup NeedI(e.h = e.back, "Symmetric", <<e.h, e.back>>)
JTyp(e) == IF ~e.ok THEN Returned(e)
  ELSE NeedI(Abs(e.ub - TypicalUpper(e.n, e.t, e.j)) <= MaxOf(1, e.ub \div 100000), "UpperBound", e.ub)
    \cup NeedI(Abs(e.lb - TypicalLower1024(e.n, e.t, e.j)) <= MaxOf(2, e.lb \div 100000), "LowerBound", e.lb)
\* ---- C32 ---------------------------------------------------------------------
\* the default slack 1e-5, entropy 0 and 100000 k symbols: 2^k and 2^-k
JTypDefault(e) == IF ~e.ok THEN Returned(e) ELSE NeedI(e.ub = 2 ^ e.k /\ Abs(e.lb - (2 ^ 20) \div (2 ^ e.k)) <= 15, "DefaultSlack", <<e.lb, e.ub>>)
\* ---- C41: random test data, counted over many draws ------------------------------
\* e.ids: values drawn, e.cnt: how often each; n draws in all, from Want
JDraws(e) == LET W == IF e.what = "msg" THEN Ids ELSE 0..255  n == SumSeq(e.cnt)  m == Cardinality(W) IN
  IF ~e.ok THEN Returned(e)
  ELSE NeedI(ToSet(e.ids) \subseteq W, "DrawnFromTheRange", SetToSeq(ToSet(e.ids) \ W))
    \cup NeedI(W \subseteq ToSet(e.ids), "EveryValueDrawn", SetToSeq(W \ ToSet(e.ids)))
    \* six standard deviations of a uniform draw, and a bit
    \cup NeedI(\A i \in 1..Len(e.cnt) : (e.cnt[i] - n \div m) * (e.cnt[i] - n \div m) <= 49 * (n \div m), "EvenlyDrawn", e.cnt)
\* words of n bits: e.ones[i] of e.draws had bit i set, e.lens the lengths seen, e.agree: of how many two of the bits agree, pair by pair
JBits(e) == IF ~e.ok THEN Returned(e)
  ELSE NeedI(ToSet(e.lens) = {e.n} /\ Len(e.ones) = e.n, "AsManyBitsAsAsked", e.lens)
    \cup NeedI(\A i \in 1..Len(e.ones) : 4 * (2 * e.ones[i] - e.draws) * (2 * e.ones[i] - e.draws) <= 196 * e.draws, "BitsEvenlyDrawn", e.ones)
    \cup NeedI(\A i \in 1..Len(e.agree) : 4 * (2 * e.agree[i] - e.draws) * (2 * e.agree[i] - e.draws) <= 196 * e.draws, "BitsIndependent", e.agree)
JChain(e) == IF ~e.ok THEN Returned(e)
  ELSE NeedI(Len(e.xs) = e.n, "RequestedLength", Len(e.xs))
    \cup NeedI(\A i \in 1..Len(e.xs) : e.xs[i] \in 0..(e.S - 1), "StatesOfTheChain", "")
    \cup (IF Len(e.xs) # e.n \/ \E i \in 1..Len(e.xs) : e.xs[i] \notin 0..(e.S - 1) THEN {}
          ELSE NeedI(SubSeq(e.xs, 1, e.o) = e.init, "StartsAtTheGivenState", SubSeq(e.xs, 1, e.o))
            \cup LET U == Unsupported(e.S, e.o, e.P, e.xs) IN NeedI(U = {}, "OnlyPossibleTransitions", IF U = {} THEN 0 ELSE Min(U))
            \cup LET C == Counts(e.S, e.o, e.P, e.xs) IN
                 NeedI(\A c \in 1..Len(e.P) : LET n == SumSeq(C[c]) IN n >= 40 => \A s \in 1..e.S : Plausible(C[c][s], n, e.P[c][s]), "TransitionFrequencies", C))
\* ---- C33 ---------------------------------------------------------------------
Q == 100000
JStats(e) == IF ~e.ok THEN Returned(e)
  ELSE LET cm == IF e.from = "cm" THEN e.cm ELSE Confusion(e.a, e.p) IN
    IF e.rcm # cm THEN {FailI("ConfusionMatrix", "", e.rcm)}
    ELSE LET K == Len(cm)  In == {c \in 1..K : Truth(cm, c) > 0} IN
      NeedI(Len(e.rec) = K /\ \A c \in In : IsFrac(e.rec[c], Recall(cm, c)[1], Recall(cm, c)[2], Q, 1), "Recall", e.rec)
      \cup NeedI(Len(e.pre) = K /\ \A c \in 1..K : IsFrac(e.pre[c], Precision(cm, c)[1], Precision(cm, c)[2], Q, 1), "Precision", e.pre)
      \cup NeedI(Len(e.f1) = K /\ \A c \in {c \in 1..K : c \in In \/ Predicted(cm, c) = 0} : IsFrac(e.f1[c], F1(cm, c)[1], F1(cm, c)[2], Q, 1), "F1", e.f1)
      \cup NeedI(IsFrac(e.acc, Accuracy(cm)[1], Accuracy(cm)[2], Q, 1), "Accuracy", e.acc)
JBer(e) == Returned(e) \cup (IF e.ok THEN NeedI(IsFrac(e.b, HamBits(e.a, e.p), Len(e.a), Q, 1), "FractionOfWrongBits", e.b) ELSE {})
\* ---- C39: e.m[c] the true label given to predicted label c - 1; e.out the relabelled sequence ----
JRelabel(e) == IF ~e.ok THEN Returned(e)
  ELSE LET m == [c \in 1..Len(e.m) |-> e.m[c] + 1] IN
    IF Len(e.m) # e.K \/ ~OneToOne(m, e.K) THEN {FailI("OneToOneRenaming", "", e.m)}
    ELSE NeedI(Unblocked(m, Overlap(e.a, e.p, e.K), e.K), "LargestOverlapFirst", e.m)
      \cup NeedI(e.out = [i \in 1..Len(e.p) |-> e.m[e.p[i] + 1]], "EveryLabelRenamed", e.out)
\* ---- C34 ---------------------------------------------------------------------
JMix(e) == IF ~e.ok THEN Returned(e)
  ELSE NeedI(Len(e.lab) = Len(e.xs) /\ \A i \in 1..Len(e.xs) : e.lab[i] + 1 \in Likeliest(e.pi, e.mu, e.xs[i]), "LikeliestComponent", e.lab)
    \cup NeedI(Len(e.ll) = Len(e.xs) /\ \A i \in 1..Len(e.xs) : Abs(e.ll[i] - LogP(e.pi, e.mu, e.xs[i])) <= 4, "SampleLogLikelihood", e.ll)
    \cup NeedI(Abs(e.score) < 1000000 /\ Abs(e.score * Len(e.xs) - SumSeq([i \in 1..Len(e.xs) |-> LogP(e.pi, e.mu, e.xs[i])])) <= 4 * Len(e.xs), "MeanLogLikelihood", e.score)
\* words which every component excludes: as good as impossible
JMixNever(e) == IF ~e.ok THEN Returned(e)
  ELSE IF \E i \in 1..Len(e.xs) : Weight(e.pi, e.mu, e.xs[i]) # 0 THEN {FailI("DriverWord", "", e.xs)}
  ELSE NeedI(Len(e.ll) = Len(e.xs) /\ \A i \in 1..Len(e.xs) : e.ll[i] <= -30000, "ExcludedWordIsImpossible", e.ll)
    \cup NeedI(e.score <= -30000, "ExcludedWordIsImpossible", e.score)
JFit(e) == IF ~e.ok THEN Returned(e)
  ELSE NeedI(Fitted(e.f, e.xs), "ValidFittedMixture", e.f)
    \cup NeedI(e.new >= e.old - 3, "LikelihoodNeverDecreases", <<e.old, e.new>>)
    \cup NeedI(Abs(e.new - e.score) <= 2, "ScoreIsTheFittedLikelihood", <<e.new, e.score>>)
    \cup NeedI(\A i \in 1..Len(e.lab) : e.lab[i] \in 0..(Len(e.f.pi) - 1), "LabelsAreComponents", e.lab)
\* ---- C36: an operand is [k kind, v bytes / bits / <<integer>>] --------------------
NOBITS == <<2>>
OpBits(o, n) == CASE o.k = "bytes" -> BitsOfBytes(o.v)
                  [] o.k = "int" -> IF o.v[1] < 0 \/ o.v[1] >= 2 ^ n THEN NOBITS ELSE [i \in 1..n |-> (o.v[1] \div (2 ^ (n - i))) % 2]
                  [] o.k \in {"bits", "array"} -> o.v
JHam(e) ==
  IF e.a.k = "other" \/ e.b.k = "other" THEN Need(~e.ok /\ e.exc = "TypeError", "WrongTypeRejected")
  ELSE LET x == OpBits(e.a, e.n)  y == OpBits(e.b, e.n) IN
       IF x = NOBITS \/ y = NOBITS THEN Need(~e.ok, "UnrepresentableIntegerRejected")
       ELSE IF Len(x) # Len(y) THEN Need(~e.ok, "DifferentLengthsRejected")
       ELSE IF ~e.ok THEN Returned(e) ELSE NeedI(e.d = HamBits(x, y), "NumberOfDifferingBits", e.d)
Judge(x, e) == Verdict(x,
  CASE e.ev = "Prob" -> JProb(e)
    [] e.ev = "Entropy" -> JEnt(e)
    [] e.ev = "Hellinger" -> JHel(e)
    [] e.ev = "Typical" -> JTyp(e)
    [] e.ev = "Refused" -> NeedI(~e.ok /\ e.exc = e.want, "BadArgumentsRejected", <<e.what, e.exc>>)
    [] e.ev = "TypicalDefault" -> JTypDefault(e)
    [] e.ev = "Draws" -> JDraws(e)
    [] e.ev = "Bits" -> JBits(e)
    [] e.ev = "Chain" -> JChain(e)
    [] e.ev = "Stats" -> JStats(e)
    [] e.ev = "Relabel" -> JRelabel(e)
    [] e.ev = "Ber" -> JBer(e)
    [] e.ev = "Mix" -> JMix(e)
    [] e.ev = "MixNever" -> JMixNever(e)
    [] e.ev = "Fit" -> JFit(e)
    [] e.ev = "Ham" -> JHam(e))
T == INSTANCE TraceLoop WITH InitState <- 0
TraceInit == T!LoopInit
TraceNext == T!LoopNext
=============================================================================
