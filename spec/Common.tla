------------------------------- MODULE Common -------------------------------
(* Arithmetic and sequence helpers shared by every specification.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Bitwise

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxAbs(s) == FoldLeft(LAMBDA a, b : MaxOf(a, Abs(b)), 0, s)
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Count(s, v) == Len(SelectSeq(s, LAMBDA x : x = v))
CountTrue(s) == Len(SelectSeq(s, LAMBDA x : x))

\* bits of a byte, most significant first; bits of a byte sequence
BitsOfByte(b) == [i \in 1..8 |-> (b \div (2 ^ (8 - i))) % 2]
BitsOfBytes(bs) == [i \in 1..(8 * Len(bs)) |->
                      (bs[((i - 1) \div 8) + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2]
ByteAt(bits, k) == LET o == 8 * (k - 1) IN   \* k-th byte, 1-based
   bits[o+1]*128 + bits[o+2]*64 + bits[o+3]*32 + bits[o+4]*16 + bits[o+5]*8 + bits[o+6]*4 + bits[o+7]*2 + bits[o+8]
BytesOfBits(bits) == [k \in 1..(Len(bits) \div 8) |-> ByteAt(bits, k)]
PopTable == [b \in 0..255 |-> SumSeq(BitsOfByte(b))]
Pop(b) == PopTable[b]
\* Hamming distance of two bytes / byte sequences
HamByte(a, b) == PopTable[a ^^ b]
HamBytes(s, t) == FoldLeft(LAMBDA acc, i : acc + HamByte(s[i], t[i]), 0, [i \in 1..Len(s) |-> i])
HamBits(s, t) == Cardinality({i \in 1..Len(s) : s[i] # t[i]})

\* floor division that is exact about sign for positive divisors (TLA+'s \div floors)
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
\* |a/b - c/d| <= tol where all are integers, b, d > 0 (cross-multiplied)
Near(x, y, tol) == Abs(x - y) <= tol
=============================================================================
