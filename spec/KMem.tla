---------------------------------- MODULE KMem ----------------------------------
(* Generated memories.                                                          *)
(*                                                                              *)
(* A memory has `words' words; an operation of one clock cycle is enabled or    *)
(* not, reads or writes, at an address, under a mask (a mask bit of 0 is        *)
(* written).  Reading puts the word on the output from the next clock edge on,  *)
(* where it stays until the next enabled operation; what the output shows after *)
(* a write is left open for a composed memory and is the old word for a single  *)
(* one.  The design made by kratos (its IR given meaning by KType or its text   *)
(* by SvType) runs beside this memory; in every state its output is the one     *)
(* the memory shows.                                                            *)
EXTENDS KType, SvType, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)
D == [i \in 1..Len(Raw) |-> IF Raw[i].d.kind = "k" THEN KElab(Raw[i].d) ELSE SElab(Raw[i].d)]
VARIABLES d,        \* which design
          s,        \* its state
          mem, out, def,    \* the memory, its output and whether that is determined
          ph,       \* "lo": clock low, inputs at rest; "in": inputs driven; "hi": clock high
          op,       \* the operation of this cycle
          n         \* operations of a fixed walk done
vars == <<d, s, mem, out, def, ph, op, n>>
Op(k) == Raw[d].ops[k]
P == Raw[d].p
In(v) == [j \in 1..Len(P.ins) |-> [i |-> P.ins[j], v |-> v[j]]]
Clk(x) == <<[i |-> P.clk, v |-> WBool(x)]>>
Rest == [j \in 1..Len(P.ins) |-> [i |-> P.ins[j], v |-> WZero(D[d].vw[P.ins[j]])]]
Init == /\ d \in 1..Len(Raw)
        /\ s = Drive(D[d], Settle(D[d], InitState(D[d])), <<>>)
        /\ mem = [a \in 0..(Raw[d].words - 1) |-> WZero(Raw[d].dw)]
        /\ out = WZero(Raw[d].dw) /\ def = FALSE
        /\ ph = "lo" /\ op = 0 /\ n = 0
Choose == /\ ph = "lo"
          /\ IF Raw[d].walk THEN n < Len(Raw[d].ops) /\ op' = n + 1 /\ n' = n + 1
             ELSE op' \in 1..Len(Raw[d].ops) /\ n' = n
          /\ s' = Drive(D[d], s, In(Op(op').v))
          /\ ph' = "in" /\ UNCHANGED <<d, mem, out, def>>
(* the memory *)
Disabled == ~Op(op).en /\ UNCHANGED <<mem, out, def>>
Read == /\ Op(op).en /\ ~Op(op).wr
        /\ out' = mem[Op(op).a] /\ def' = TRUE /\ UNCHANGED mem
Write0(old) == WOr(WAnd(old, Op(op).m, Raw[d].dw), WAnd(Op(op).x, WNot(Op(op).m, Raw[d].dw), Raw[d].dw), Raw[d].dw)
Store == /\ Op(op).en /\ Op(op).wr
         /\ mem' = [mem EXCEPT ![Op(op).a] = Write0(@)]
         /\ IF Raw[d].single THEN out' = mem[Op(op).a] /\ def' = TRUE ELSE out' = WZero(Raw[d].dw) /\ def' = FALSE
Edge == /\ ph = "in"
        /\ Disabled \/ Read \/ Store
        /\ s' = Drive(D[d], s, Clk(TRUE))
        /\ ph' = "hi" /\ UNCHANGED <<d, op, n>>
Fall == /\ ph = "hi"
        /\ s' = Drive(D[d], s, Rest \o Clk(FALSE))
        /\ ph' = "lo" /\ op' = 0 /\ UNCHANGED <<d, mem, out, def, n>>
Next == Choose \/ Edge \/ Fall
Spec == Init /\ [][Next]_vars
Shows == IF ~def \/ s[P.q] = out THEN TRUE
         ELSE /\ PrintT(<<"MISMATCH", Raw[d].id, ToJson([ph |-> ph, n |-> n, op |-> op, want |-> ToString(out), shows |-> ToString(s[P.q])])>>)
              /\ FALSE
=================================================================================
