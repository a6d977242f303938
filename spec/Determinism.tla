------------------------------ MODULE Determinism ------------------------------
(* A learning component is a function of what it was constructed with and of   *)
(* the values it was given, in order.  memo maps <<configuration, history of    *)
(* input values>> to the value returned for the last of them.                    *)
EXTENDS Sequences, TLC
NewMemo == [j \in {} |-> ""]
Key(cfg, hist) == <<cfg, hist>>
Agrees(memo, cfg, hist, out) == Key(cfg, hist) \in DOMAIN memo => memo[Key(cfg, hist)] = out
Record(memo, cfg, hist, out) == IF Key(cfg, hist) \in DOMAIN memo THEN memo ELSE (Key(cfg, hist) :> out) @@ memo
=============================================================================
