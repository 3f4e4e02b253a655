-------------------------------- MODULE KCover --------------------------------
(* When code runs.                                                             *)
(*                                                                             *)
(* The statements under conditions form a forest; node k has a parent p (0: a  *)
(* process runs it always), the conditional node above it is taken in branch   *)
(* b: a then branch needs its condition, an else branch its negation, a case   *)
(* its label, the default none of the labels.  Conditions are kept as probes:  *)
(* variables of the reference design that carry the value of each condition.   *)
(*   Runs(k)    node k is executed under the valuation                         *)
(*   Enable     the enable condition reported for k is true (under the rules   *)
(*              of SystemVerilog) exactly when Runs(k)                         *)
(*   Covered    the branches reported for a run are those that hold in one of  *)
(*              its valuations; the faults those of failing runs in no passing *)
(*              one                                                            *)
EXTENDS KType, SvType, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)
DA == [i \in 1..Len(Raw) |-> KElab(Raw[i].a)]
DB == [i \in 1..Len(Raw) |-> SElab(Raw[i].b)]
Start(D, ins) == Settle(D, FoldLeft(LAMBDA acc, x : [acc EXCEPT ![x.i] = x.v], InitState(D), ins))
InsA(d, v) == [j \in 1..Len(Raw[d].ins) |-> [i |-> Raw[d].ins[j].a, v |-> v[j]]]
InsB(d, v) == [j \in 1..Len(Raw[d].ins) |-> [i |-> Raw[d].ins[j].b, v |-> v[j]]]

Taken(d, br, a) ==          \* branch br of d, as probes
    LET B == Raw[d].br[br]
    IN CASE B.k = "th" -> WIsTrue(a[B.c[1]])
         [] B.k = "el" -> ~WIsTrue(a[B.c[1]])
         [] B.k = "cs" -> WIsTrue(a[B.c[1]])
         [] B.k = "df" -> \A j \in 1..Len(B.c) : ~WIsTrue(a[B.c[j]])
RECURSIVE Reached(_, _, _)
Reached(d, br, a) == IF br = 0 THEN TRUE ELSE Taken(d, br, a) /\ Reached(d, Raw[d].br[br].up, a)

VARIABLES d, n, cov, a, b     \* a, b: the reference design and the texts under the n-th valuation
vars == <<d, n, cov, a, b>>
Init == d \in 1..Len(Raw) /\ n = 0 /\ cov = [r \in 1..Len(Raw[d].runs) |-> {}] /\ a = <<>> /\ b = <<>>
Evaluate ==
    /\ n < Len(Raw[d].vec)
    /\ n' = n + 1 /\ UNCHANGED <<d, cov>>
    /\ a = <<>>
    /\ a' = Start(DA[d], InsA(d, Raw[d].vec[n + 1]))
    /\ b' = Start(DB[d], InsB(d, Raw[d].vec[n + 1]))
(* enable conditions are compared, and the branches that hold are added to the *)
(* runs the valuation belongs to                                               *)
Compare ==
    /\ a # <<>> /\ a' = <<>> /\ b' = <<>> /\ UNCHANGED <<d, n>>
    /\ cov' = LET hit == {br \in 1..Len(Raw[d].br) : Reached(d, br, a)}
              IN [r \in 1..Len(cov) |-> IF \E j \in 1..Len(Raw[d].runs[r].v) : Raw[d].runs[r].v[j] = n THEN cov[r] \cup hit ELSE cov[r]]
Enable == a = <<>> \/
    LET bad == {k \in 1..Len(Raw[d].nodes) : LET x == Raw[d].nodes[k] IN x.en > 0 /\ WIsTrue(b[x.en]) # Reached(d, x.up, a)}
    IN IF bad = {} THEN TRUE
       ELSE LET k == CHOOSE k \in bad : TRUE
            IN PrintT(<<"MISMATCH", Raw[d].id, ToJson([what |-> "enable", node |-> k, vec |-> n, runs |-> Reached(d, Raw[d].nodes[k].up, a)])>>)
Step == Evaluate \/ Compare
Spec == Init /\ [][Step]_vars
Fault == UNION {cov[r] : r \in {r \in 1..Len(cov) : Raw[d].runs[r].wrong}} \ UNION {cov[r] : r \in {r \in 1..Len(cov) : ~Raw[d].runs[r].wrong}}
Set(q) == {q[j] : j \in 1..Len(q)}
Say(what, x, y) == PrintT(<<"MISMATCH", Raw[d].id, ToJson([what |-> what, spec |-> x, seen |-> y])>>)
Check == (n = Len(Raw[d].vec) /\ a = <<>>) =>
    /\ \A r \in 1..Len(cov) : (Set(Raw[d].runs[r].seen) = cov[r] \/ Say("coverage", cov[r], Raw[d].runs[r].seen))
    /\ (Raw[d].runs = <<>> \/ Set(Raw[d].fault) = Fault \/ Say("fault", Fault, Raw[d].fault))
================================================================================
