--------------------------------- MODULE Equiv ---------------------------------
(* Product machine: two designs driven by the same inputs.  Every entry of the  *)
(* input file is a pair (reference design a, observed design b) with the        *)
(* correspondence of their inputs and outputs and a set of input vectors.       *)
(* Both are kratos IR ("k", given meaning by KType) or SystemVerilog text       *)
(* ("s", given meaning by SvType).  TLC explores every sequence of vectors up   *)
(* to depth K; each sequence step is: drive the data inputs (phase "in"), raise *)
(* the clock ("hi"), lower it ("lo").  Same == outputs are equal in every state.*)
EXTENDS KType, SvType, KInsert, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)
Elab(x) == IF x.kind = "k" THEN KElab(x) ELSE SElab(x)
(* the reference may be a design to which something is to be inserted *)
DA == [i \in 1..Len(Raw) |-> IF "chg" \in DOMAIN Raw[i] THEN Change(Elab(Raw[i].a), Raw[i].chg) ELSE Elab(Raw[i].a)]
DB == [i \in 1..Len(Raw) |-> Elab(Raw[i].b)]
VARIABLES d,      \* which pair
          a, b,   \* states of the two designs
          ph,     \* phase within the step
          h       \* history: vectors chosen so far (not part of the view)
vars == <<d, a, b, ph, h>>
View == <<d, a, b, ph>>

Init == /\ d \in 1..Len(Raw)
        /\ a = Settle(DA[d], InitState(DA[d]))
        /\ b = Settle(DB[d], InitState(DB[d]))
        /\ ph = "lo" /\ h = <<>>

InsA(v) == [j \in 1..Len(Raw[d].ins) |-> [i |-> Raw[d].ins[j].a, v |-> v[j]]]
InsB(v) == [j \in 1..Len(Raw[d].ins) |-> [i |-> Raw[d].ins[j].b, v |-> v[j]]]
ClkA(x) == [j \in 1..Len(Raw[d].clk) |-> [i |-> Raw[d].clk[j].a, v |-> WBool(x)]]
ClkB(x) == [j \in 1..Len(Raw[d].clk) |-> [i |-> Raw[d].clk[j].b, v |-> WBool(x)]]

Data == /\ ph = "lo" /\ Len(h) < Raw[d].K
        /\ \E n \in 1..Len(Raw[d].vec) :
              LET v == Raw[d].vec[n]
              IN /\ a' = Drive(DA[d], a, InsA(v))
                 /\ b' = Drive(DB[d], b, InsB(v))
                 /\ h' = Append(h, n)
        /\ ph' = IF Raw[d].clk = <<>> THEN "lo" ELSE "in"
        /\ UNCHANGED d
Rise == /\ ph = "in"
        /\ a' = Drive(DA[d], a, ClkA(TRUE))
        /\ b' = Drive(DB[d], b, ClkB(TRUE))
        /\ ph' = "hi" /\ UNCHANGED <<d, h>>
Fall == /\ ph = "hi"
        /\ a' = Drive(DA[d], a, ClkA(FALSE))
        /\ b' = Drive(DB[d], b, ClkB(FALSE))
        /\ ph' = "lo" /\ UNCHANGED <<d, h>>
Next == Data \/ Rise \/ Fall
Spec == Init /\ [][Next]_vars

(* outputs agree; mask lists, per output, the bits that are compared (0 = all) *)
Out(s, i) == s[i]
Same == \A j \in 1..Len(Raw[d].outs) : a[Raw[d].outs[j].a] = b[Raw[d].outs[j].b]
Settled == Stable(DA[d], a) => Stable(DB[d], b)
BadOut == SelectInSeq(Raw[d].outs, LAMBDA o : a[o.a] # b[o.b])
(* a mismatch is printed and ends the exploration of this pair *)
Check == IF ~Stable(DA[d], a) THEN PrintT(<<"UNSTABLE", Raw[d].id, ToJson(h)>>) /\ FALSE
         ELSE IF Same /\ Stable(DB[d], b) THEN TRUE
         ELSE /\ PrintT(<<"MISMATCH", Raw[d].id, ToJson([h |-> h, ph |-> ph, out |-> BadOut,
                                  va |-> IF BadOut = 0 THEN "-" ELSE ToString(a[Raw[d].outs[BadOut].a]),
                                  vb |-> IF BadOut = 0 THEN "-" ELSE ToString(b[Raw[d].outs[BadOut].b])])>>)
              /\ FALSE
================================================================================
