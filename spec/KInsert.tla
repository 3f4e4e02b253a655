------------------------------- MODULE KInsert -------------------------------
(* What inserted hardware does to a design.  Each operator takes an            *)
(* elaborated design and gives the design that is promised.                    *)
(*   pipe    n registers between a module's computation of an output and the   *)
(*           output itself; everything inside the module keeps the value       *)
(*           without the delay                                                 *)
(*   en      registers keep their value while the enable is low; what an       *)
(*           active reset does is not affected                                 *)
(*   sreset  on a clock edge with the synchronous reset active the registers   *)
(*           get the values of their asynchronous reset; without over_clk_en   *)
(*           only when the enable allows it                                    *)
EXTENDS KCore
RECURSIVE VarsOf(_)
Un(q) == UNION {q[j] : j \in 1..Len(q)}
VarsOf(e) ==
    CASE e.k = "v"   -> {e.i}
      [] e.k = "c"   -> {}
      [] e.k = "sl"  -> VarsOf(e.p)
      [] e.k = "dx"  -> VarsOf(e.p) \cup VarsOf(e.i)
      [] e.k = "b"   -> VarsOf(e.a) \cup VarsOf(e.b)
      [] e.k = "u"   -> VarsOf(e.a)
      [] e.k = "x"   -> VarsOf(e.p)
      [] e.k = "?"   -> VarsOf(e.c) \cup VarsOf(e.a) \cup VarsOf(e.b)
      [] e.k = "cat" -> Un([j \in 1..Len(e.a) |-> VarsOf(e.a[j])])
      [] e.k = "call" -> Un([j \in 1..Len(e.a) |-> VarsOf(e.a[j])])
      [] OTHER -> {}
Among(e, S) == VarsOf(e) # {} /\ VarsOf(e) \subseteq S
RV(i) == [k |-> "v", i |-> i, w |-> 1, sg |-> FALSE]
If(i, t, e) == [k |-> "if", c |-> RV(i), t |-> t, e |-> e]

(* ---- clock enable: rst is the set of reset signals *)
Gate(b, en, rst) ==
    IF Len(b) = 1 /\ b[1].k = "if" /\ Among(b[1].c, rst)
    THEN <<[b[1] EXCEPT !.e = <<If(en, @, <<>>)>>]>>
    ELSE <<If(en, b, <<>>)>>

(* ---- synchronous reset *)
FirstIf(b, S) == b # <<>> /\ b[1].k = "if" /\ Among(b[1].c, S)
Flush(b, r, arst, srst, ce, over) ==
    IF ~(Len(b) = 1 /\ FirstIf(b, arst)) THEN b
    ELSE LET A == b[1].t
             B == b[1].e
         IN IF Len(B) = 1 /\ FirstIf(B, ce) /\ ~over
            THEN IF FirstIf(B[1].t, srst) THEN b
                 ELSE <<[b[1] EXCEPT !.e = <<[B[1] EXCEPT !.t = <<If(r, A, @)>>]>>]>>
            ELSE IF Len(B) = 1 /\ FirstIf(B, srst) THEN b
            ELSE <<[b[1] EXCEPT !.e = <<If(r, A, B)>>]>>

(* ---- pipeline: q is a sequence of <<computed, output, width>> *)
Copy(to, from, w) == [k |-> "a", nb |-> TRUE, r |-> [k |-> "v", i |-> from, w |-> w, sg |-> FALSE],
                      l |-> [w |-> w, g |-> <<[i |-> to, lo |-> 0, w |-> w, tw |-> w, dy |-> <<>>]>>]]
Pipe(D, n, clk, q) ==
    FoldLeft(LAMBDA acc, o :
        LET base == Len(acc.vw)
            src(s) == IF s = 1 THEN o[1] ELSE base + s - 1
            dst(s) == IF s = n THEN o[2] ELSE base + s
        IN [acc EXCEPT !.vw = @ \o [s \in 1..(n - 1) |-> o[3]],
                       !.seq = Append(@, [ev |-> <<[pos |-> TRUE, e |-> RV(clk)]>>,
                                          b |-> [s \in 1..n |-> Copy(dst(s), src(s), o[3])]])],
        D, q)

Ids(q) == {q[j] : j \in 1..Len(q)}
One(D, c) ==
    CASE c.op = "pipe" -> Pipe(D, c.n, c.clk, c.q)
      [] c.op = "en"   -> [D EXCEPT !.seq = [j \in 1..Len(@) |->
                              IF \E m \in 1..Len(c.s) : c.s[m].i = j
                              THEN LET m == CHOOSE m \in 1..Len(c.s) : c.s[m].i = j
                                   IN [@[j] EXCEPT !.b = Gate(@, c.s[m].en, Ids(c.rst))]
                              ELSE @[j]]]
      [] c.op = "sreset" -> [D EXCEPT !.seq = [j \in 1..Len(@) |->
                              IF \E m \in 1..Len(c.s) : c.s[m].i = j
                              THEN LET m == CHOOSE m \in 1..Len(c.s) : c.s[m].i = j
                                   IN [@[j] EXCEPT !.b = Flush(@, c.s[m].r, Ids(c.arst), Ids(c.srst), Ids(c.ce), c.over)]
                              ELSE @[j]]]
Change(D, chg) == FoldLeft(One, D, chg)
==============================================================================
