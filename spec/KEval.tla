---------------------------------- MODULE KEval ----------------------------------
(* Evaluation of one operator on known operands: the table of results recorded   *)
(* from the library must be the table of the specification.  Input: a sequence   *)
(* of tables [id, ar (1, 2 or 3 operands), op, w, sg, rw (result width),         *)
(* rows |-> <<[a, b, c, r]>>].  One state per table and row.                     *)
EXTENDS KCore, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)
VARIABLES t, n
vars == <<t, n>>
Row == Raw[t].rows[n]
(* a power with a negative exponent is the integer part of the fraction *)
Pow(a, b, w, sg) ==
    LET one == WNat(1, w)  neg1 == WNot(WZero(w), w)
    IN IF sg /\ WSLt(b, WZero(w), w)
       THEN IF a = neg1 THEN (IF WIsTrue(WSlice(b, 0, 1)) THEN neg1 ELSE one)
            ELSE IF a = one THEN one ELSE WZero(w)
       ELSE WPow(a, b, w, w)
Want ==
    LET T == Raw[t]
    IN CASE T.ar = 1 -> UnOp(T.op, Row.a, T.w)
         [] T.ar = 3 -> IF WIsTrue(Row.c) THEN Row.a ELSE Row.b
         [] T.op = "**" -> Pow(Row.a, Row.b, T.w, T.sg)
         [] OTHER -> BinOp(T.op, Row.a, Row.b, T.w, T.sg)
(* results the specification leaves open *)
Open == LET T == Raw[t]
        IN T.ar = 2 /\ \/ T.op \in {"/", "%"} /\ ~WIsTrue(Row.b)
                       \/ T.op = "**" /\ T.sg /\ ~WIsTrue(Row.a) /\ WSLt(Row.b, WZero(T.w), T.w)
Init == t \in 1..Len(Raw) /\ n = 1
Next == n < Len(Raw[t].rows) /\ n' = n + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
(* the recorded result has 64 bits; it must be the word, zero extended *)
Check == \/ Open
         \/ WExt(Want, Raw[t].rw, Raw[t].ow, FALSE) = Row.r
         \/ PrintT(<<"MISMATCH", Raw[t].id, ToJson([n |-> n, want |-> ToString(Want), got |-> ToString(Row.r)])>>)
================================================================================
