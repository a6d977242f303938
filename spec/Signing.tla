-------------------------------- MODULE Signing --------------------------------
(* Packet signing: what a receiver that holds a secret key may believe.      *)
(* A stamp is <<hi, lo>>, compared lexicographically, lo < Base (48 bits on  *)
(* the wire, two digits of 24 bits here).  A signed frame carries a stream   *)
(* (link, system, component) and a stamp; auth says whether its signature    *)
(* was made with the key over exactly these bytes.                           *)
EXTENDS Integers, Sequences
CONSTANTS Base, Slack       \* Slack: how far behind the receiver a new stream may start (a stamp)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Later(a, b) == IF Less(a, b) THEN b ELSE a
Plus(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + lo \div Base, lo % Base>>
\* receiver r = [ts |-> stamp, seen |-> stream -> stamp of the last frame accepted on it]
NewReceiver(ts) == [ts |-> ts, seen |-> [x \in {} |-> <<0, 0>>]]
Fresh(r, stream, ts) == IF stream \in DOMAIN r.seen THEN Less(r.seen[stream], ts) ELSE ~Less(Plus(ts, Slack), r.ts)
Genuine(r, stream, ts, auth) == auth /\ Fresh(r, stream, ts)
After(r, stream, ts, auth) ==
   IF Genuine(r, stream, ts, auth)
   THEN [ts |-> Later(r.ts, ts), seen |-> [x \in DOMAIN r.seen \cup {stream} |-> IF x = stream THEN ts ELSE r.seen[x]]]
   ELSE r
=============================================================================
