---------------------------------- MODULE KFsm ----------------------------------
(* State machines.  The abstract machine is the state diagram; the observed design   *)
(* (kratos IR after realization, "k", or the emitted SystemVerilog, "s") runs next   *)
(* to it.  Guards and output values of the diagram are read from monitor outputs     *)
(* that the design computes from the same inputs.                                    *)
(* Entry: [id, b, clk, rst, high (reset polarity), ins, vec,                         *)
(*   m: <<machine>>]; machine: [moore, start, outs: <<variable>>,                    *)
(*   st: <<[tr: <<[g (monitor, 0 = always), t (state)]>>, v: <<monitor, 0 = keeps>>]>>] *)
(* The reachable product is explored completely: every history of vectors, clock     *)
(* edges and resets.                                                                 *)
EXTENDS KType, SvType, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)
Elab(x) == IF x.kind = "k" THEN KElab(x) ELSE SElab(x)
DB == [i \in 1..Len(Raw) |-> Elab(Raw[i].b)]
VARIABLES d,   \* entry
          b,   \* state of the observed design
          s,   \* state of every machine of the diagram (0: not reset yet)
          o,   \* last value (as <<value>>, <<>>: not known) driven on every output of every machine
          ph,  \* "lo" | "in" | "hi"
          h    \* history, for the report
vars == <<d, b, s, o, ph, h>>
View == <<d, b, s, o, ph>>
R == Raw[d]
None == <<>>
(* the transition taken from state x under the guards of the design state c *)
Taken(m, x, c) == SelectInSeq(m.st[x].tr, LAMBDA t : t.g = 0 \/ WIsTrue(c[t.g]))
Succ(m, x, c) == IF x = 0 THEN 0 ELSE LET k == Taken(m, x, c) IN IF k = 0 THEN x ELSE m.st[x].tr[k].t
(* whose outputs are driven: of the state (Moore), of the state entered next (Mealy); 0: none *)
Src(m, x, c) == IF x = 0 THEN 0 ELSE IF m.moore THEN x ELSE LET k == Taken(m, x, c) IN IF k = 0 THEN 0 ELSE m.st[x].tr[k].t
OutOf(m, x, c, old) ==
    LET y == Src(m, x, c)
    IN [j \in 1..Len(m.outs) |-> IF y = 0 THEN old[j] ELSE IF m.st[y].v[j] = 0 THEN old[j] ELSE <<c[m.st[y].v[j]]>>]
InReset(c) == LET v == WIsTrue(c[R.rst]) IN IF R.high THEN v ELSE ~v
M == 1..Len(R.m)
Go(c, nx, what) ==
    /\ b' = c
    /\ s' = nx
    /\ o' = [j \in M |-> OutOf(R.m[j], nx[j], c, o[j])]
    /\ h' = Append(h, what)
    /\ UNCHANGED d

RstVal(on) == WBool(IF R.high THEN on ELSE ~on)
Init == /\ d \in 1..Len(Raw)
        /\ b = Drive(DB[d], Settle(DB[d], InitState(DB[d])), <<[i |-> Raw[d].rst, v |-> WBool(~Raw[d].high)]>>)
        /\ s = [j \in 1..Len(Raw[d].m) |-> 0]
        /\ o = [j \in 1..Len(Raw[d].m) |-> [k \in 1..Len(Raw[d].m[j].outs) |-> None]]
        /\ ph = "lo" /\ h = <<>>
(* the clock falls (or is low) and new inputs come *)
Data == /\ ph # "in"
        /\ \E n \in 1..Len(R.vec) :
              Go(Drive(DB[d], b, <<[i |-> R.clk, v |-> WBool(FALSE)]>> \o [j \in 1..Len(R.ins) |-> [i |-> R.ins[j], v |-> R.vec[n][j]]]), s, n)
        /\ ph' = "in"
Rise == /\ ph = "in"
        /\ LET nx == IF InReset(b) THEN [j \in M |-> R.m[j].start] ELSE [j \in M |-> Succ(R.m[j], s[j], b)]
           IN Go(Drive(DB[d], b, <<[i |-> R.clk, v |-> WBool(TRUE)]>>), nx, "rise")
        /\ ph' = "hi"
(* reset takes effect without a clock edge; releasing it changes nothing *)
Reset == /\ ph = "in"
         /\ LET on == ~InReset(b)
            IN Go(Drive(DB[d], b, <<[i |-> R.rst, v |-> RstVal(on)]>>), IF on THEN [j \in M |-> R.m[j].start] ELSE s, "reset")
         /\ UNCHANGED ph
Next == Data \/ Rise \/ Reset
Spec == Init /\ [][Next]_vars
Bad == {jk \in {<<j, k>> : j \in M, k \in 1..40} : jk[2] <= Len(R.m[jk[1]].outs) /\ o[jk[1]][jk[2]] # None /\ o[jk[1]][jk[2]] # <<b[R.m[jk[1]].outs[jk[2]]]>>}
Check == IF Bad = {} /\ Stable(DB[d], b) THEN TRUE
         ELSE LET x == IF Bad = {} THEN <<0, 0>> ELSE CHOOSE y \in Bad : TRUE
              IN /\ PrintT(<<"MISMATCH", R.id, ToJson([machine |-> x[1], out |-> x[2], s |-> s, h |-> h,
                             want |-> IF Bad = {} THEN "stable" ELSE ToString(o[x[1]][x[2]]),
                             got |-> IF Bad = {} THEN "-" ELSE ToString(b[R.m[x[1]].outs[x[2]]])])>>)
                 /\ FALSE
================================================================================
