------------------------------- MODULE Mavlink -------------------------------
(* The MAVLink v1 wire format of a dialect: the committed tables            *)
(* dialect.json (HC_dialect.xml) and dialect_min.json (minimal_dialect.xml) *)
(* are derived from the xml alone (tools/mkdialect.py), never from the      *)
(* code under test.                                                         *)
EXTENDS Common, Json, IOUtils

STX == 254
HLEN == 6
CLEN == 2
OVERHEAD == HLEN + CLEN

Dialect == JsonDeserialize(IOEnv.SPECDIR \o "/" \o IOEnv.DIALECT)
Ids == {Dialect[i].id : i \in 1..Len(Dialect)}
IdxOf == [id \in Ids |-> CHOOSE i \in 1..Len(Dialect) : Dialect[i].id = id]
Msg(id) == Dialect[IdxOf[id]]
\* payload length on the wire
WireLen == [id \in Ids |-> Msg(id).len]
\* payload length the library publishes: differs for messages with array fields (known finding of C03)
MetaLen == [id \in Ids |-> Msg(id).scalar]
ScalarIds == {id \in Ids : WireLen[id] = MetaLen[id]}
CrcExtra == [id \in Ids |-> Msg(id).crc]

\* CRC-16/MCRF4XX (X.25 as used by MAVLink)
CrcStep(c, b) ==
  LET t0 == b ^^ (c % 256)
      t == (t0 ^^ ((t0 * 16) % 256))
  IN ((c \div 256) ^^ (t * 256)) ^^ ((t * 8) ^^ (t \div 16))
Crc(bytes) == FoldLeft(LAMBDA c, b : CrcStep(c, b), 65535, bytes)

\* --- header level --------------------------------------------------------
ValidHeader(h) ==
  /\ Len(h) = HLEN
  /\ h[1] = STX
  /\ h[6] \in Ids
  /\ h[2] = MetaLen[h[6]]

\* distance of one header to the closest valid header carrying message id
HeaderDist(h, id) == HamByte(STX, h[1]) + HamByte(MetaLen[id], h[2]) + HamByte(id, h[6])
Allowed(maxlen) == IF maxlen < 0 THEN Ids ELSE {id \in Ids : MetaLen[id] <= maxlen}
MinHeaderDist(h, maxlen) == Min({HeaderDist(h, id) : id \in Allowed(maxlen)})

\* --- frame level ---------------------------------------------------------
\* does a complete frame with a correct header and checksum start at byte i (1-based)?
FrameLen(buf, i) == MetaLen[buf[i + 5]] + OVERHEAD
ValidFrameAt(buf, i) ==
  /\ i + OVERHEAD - 1 <= Len(buf)
  /\ buf[i] = STX
  /\ buf[i + 5] \in Ids
  /\ buf[i + 1] = MetaLen[buf[i + 5]]
  /\ i + FrameLen(buf, i) - 1 <= Len(buf)
  /\ LET n == FrameLen(buf, i)
         c == Crc(SubSeq(buf, i + 1, i + n - 3) \o <<CrcExtra[buf[i + 5]]>>)
     IN /\ buf[i + n - 2] = c % 256
        /\ buf[i + n - 1] = c \div 256
=============================================================================
