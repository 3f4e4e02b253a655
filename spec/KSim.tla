---------------------------------- MODULE KSim ----------------------------------
(* The simulator built into the library, as a state machine, and validation of  *)
(* its recorded traces.  A step of a trace writes bits of some variables (whole *)
(* variables, slices or array elements) and lets the design react: the logic    *)
(* settles, clocked processes fire on the edges this causes, their updates are  *)
(* applied together and the logic settles again (Drive of KCore).  The recorded *)
(* observation of the step must be the state the specification reaches.         *)
(*                                                                              *)
(* Input: a sequence of traces [id, a (design), steps]; a step is               *)
(* [set |-> <<[i, lo, w, v]>>, init |-> BOOLEAN, obs |-> <<[i, v]>>]; init      *)
(* steps define the state instead of being checked for edges.                   *)
EXTENDS KType, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)
D == [i \in 1..Len(Raw) |-> KElab(Raw[i].a)]
VARIABLES t,  \* which trace
          l,  \* steps taken
          s   \* state of the specified design
vars == <<t, l, s>>

Put(st, x) == [st EXCEPT ![x.i] = WInsert(@, D[t].vw[x.i], x.lo, x.w, x.v)]
Step == Raw[t].steps[l + 1]
React(st) ==
    LET s1 == FoldLeft(Put, s, st.set)
    IN IF st.init THEN Settle(D[t], s1) ELSE Propagate(D[t], s, Settle(D[t], s1), 6)

Init == t \in 1..Len(Raw) /\ l = 0 /\ s = InitState(D[t])
Next == l < Len(Raw[t].steps) /\ s' = React(Step) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

Obs == Raw[t].steps[l].obs
Bad == SelectInSeq(Obs, LAMBDA o : s[o.i] # o.v)
Check == l = 0 \/ IF ~Stable(D[t], s) THEN PrintT(<<"UNSTABLE", Raw[t].id, ToString(l)>>) /\ FALSE
         ELSE IF Bad = 0 THEN TRUE
         ELSE /\ PrintT(<<"MISMATCH", Raw[t].id, ToJson([step |-> l, ob |-> Bad, var |-> Obs[Bad].i,
                             want |-> ToString(s[Obs[Bad].i]), got |-> ToString(Obs[Bad].v)])>>)
              /\ FALSE
================================================================================
