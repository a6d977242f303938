-------------------------------- MODULE MCBits --------------------------------
(* Design check of the incremental bit model: after any history the counts are *)
(* those of the last w buffers of that history, and of nothing else.           *)
EXTENDS BitModel
CONSTANTS W, MaxT, NBits
VARIABLES m, hist
vars == <<m, hist>>
Init == m = NewBits(W) /\ hist = <<>>
Next == /\ Len(hist) < MaxT
        /\ \E bits \in [1..NBits -> {0, 1}] : m' = LearnBits(m, bits) /\ hist' = Append(hist, bits)
Spec == Init /\ [][Next]_vars
Window == IF W = 0 THEN hist ELSE LastN(hist, W)
CountsAreOfTheWindow == /\ Size(m) = Len(Window)
                        /\ hist # <<>> => \A i \in 1..NBits : Freq(m, NBits)[i] = <<FoldLeft(LAMBDA a, v : a + v[i], 0, Window), Len(Window)>>
\* a corrected frequency stays a probability, keeps certain bits certain and the majority where it was
CorrectedIsFrequency == hist # <<>> => \A q \in 0..2 : LET f == Freq(m, NBits)  c == Corrected(f, q) IN
  \A i \in 1..NBits : /\ c[i][1] >= 0 /\ c[i][1] <= c[i][2]
                      /\ f[i][1] = f[i][2] => c[i][1] = c[i][2]
                      /\ f[i][1] = 0 => c[i][1] = 0
                      /\ (2 * f[i][1] > f[i][2]) = (2 * c[i][1] > c[i][2])
\* a bit is structural for a threshold iff it is for every higher one
Monotone == hist # <<>> => LET f == Freq(m, NBits) IN Struct(f, 206908) \subseteq Struct(f, 787741) /\ Struct(f, 1100000) = 1..NBits
=============================================================================
