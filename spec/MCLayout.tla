------------------------------- MODULE MCLayout -------------------------------
(* Over every scalar message of the dialect: the field rows tile header and  *)
(* payload exactly, every bit of the message belongs to exactly one field,   *)
(* checksum bits to none, and integers survive encode/decode.                *)
EXTENDS BufferModel
VARIABLES id, off, k, pos
vars == <<id, off, k, pos>>
Init == id \in ScalarIds /\ off \in {0, 3} /\ k = 1 /\ pos = off
Rows == FieldRows(off, id)
Next == k <= Len(Rows) /\ pos' = pos + Rows[k].size /\ k' = k + 1 /\ UNCHANGED <<id, off>>
Spec == Init /\ [][Next]_vars
Tiles == k <= Len(Rows) => Rows[k].off = pos
Ends == k = Len(Rows) + 1 => /\ pos = off + HLEN + WireLen[id]
                             /\ LET bm == BitMap(Rows, pos + CLEN) IN
                                  /\ \A i \in 1..Len(bm) : (bm[i] = -1) = (i <= 8 * off \/ i > 8 * pos)
                                  /\ \A j \in 1..Len(Rows) : Cardinality({i \in 1..Len(bm) : bm[i] = j - 1}) = 8 * Rows[j].size
Codec == \A t \in {"int8_t", "int16_t", "int32_t", "int64_t"} :
  LET z == CASE t = "int8_t" -> 1 [] t = "int16_t" -> 2 [] t = "int32_t" -> 4 [] OTHER -> 8 IN
  \A v \in {-128, -50, -1, 0, 1, 77, 127} : IntVal(LEBytes(v, z), t) = v
=============================================================================
