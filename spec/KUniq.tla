-------------------------------- MODULE KUniq --------------------------------
(* Module names.                                                              *)
(*                                                                            *)
(* A generator has a requested name, declarations (ports, variables,          *)
(* parameters, functions), statements in order and children.  Two generators  *)
(* are interchangeable when the requested names, the declarations, the        *)
(* statements and, instance by instance, the children are.  Choosing names    *)
(* (one state per way of choosing them) must give interchangeable generators  *)
(* one name and all others different ones.                                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)
Set(q) == {q[j] : j \in 1..Len(q)}
VARIABLES d, n, cls     \* design, number of generators classified, class of each: the first interchangeable one
vars == <<d, n, cls>>
G(k) == Raw[d].g[k]
(* generators are listed children first, so that the classes of the children are known *)
Same(a, b) ==
    /\ G(a).base = G(b).base
    /\ Set(G(a).decl) = Set(G(b).decl)
    /\ G(a).st = G(b).st
    /\ {<<G(a).ch[j].i, cls[G(a).ch[j].g]>> : j \in 1..Len(G(a).ch)} = {<<G(b).ch[j].i, cls[G(b).ch[j].g]>> : j \in 1..Len(G(b).ch)}
Init == d \in 1..Len(Raw) /\ n = 0 /\ cls = <<>>
Classify ==
    /\ n < Len(Raw[d].g)
    /\ n' = n + 1 /\ d' = d
    /\ LET like == {k \in 1..n : Same(k, n + 1)}
       IN cls' = Append(cls, IF like = {} THEN n + 1 ELSE cls[CHOOSE k \in like : TRUE])
Spec == Init /\ [][Classify]_vars
(* the names chosen, compared when everything is classified *)
Bad(how) == {p \in (1..n) \X (1..n) : p[1] < p[2] /\ (how[p[1]] = how[p[2]]) # (cls[p[1]] = cls[p[2]])}
Check ==
    n = Len(Raw[d].g) =>
    \A w \in 1..Len(Raw[d].names) :
        LET bad == Bad(Raw[d].names[w].a)
        IN \/ bad = {}
           \/ LET p == CHOOSE p \in bad : TRUE
              IN PrintT(<<"MISMATCH", Raw[d].id, ToJson([how |-> Raw[d].names[w].how, a |-> p[1], b |-> p[2], same |-> cls[p[1]] = cls[p[2]]])>>)
================================================================================
