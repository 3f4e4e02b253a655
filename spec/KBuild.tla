--------------------------------- MODULE KBuild ---------------------------------
(* Building expressions and assignments, one call after another.  The state holds *)
(* what every handle denotes (its type), the assignments that were accepted and   *)
(* the drivers they give to every variable.  A call either is accepted and has    *)
(* the type given here, or is rejected and changes nothing.                       *)
(* Input: <<[id, ops |-> <<[o (operation), h (handle), ..., obs |-> observation]>>]>>;  *)
(* obs: [ok] and for an accepted expression [w, sz, sg, hi, lo].                  *)
(* A type: [w, d (dimensions), ew, sg, pk, x (explicit array of one element),     *)
(*          k \in {"var", "sel", "const", "expr", "cat", "scat" (of signed operands)}, root, lo, hi (range of  *)
(*          bits it may be; open if dy: part of an element selected by a variable), v, *)
(*          el (such an element)]                                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, SequencesExt, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)     \* ceiling
(* a value that fits (values are kept small; 2^w is not computed for large w) *)
Fits(v, w, sg) == IF sg THEN (w > 29 \/ (v >= 0 - 2^(w - 1) /\ v < 2^(w - 1)))
                  ELSE v >= 0 /\ (w > 29 \/ v < 2^w)
Rej == [k |-> "rejected"]
Bad(t) == t.k = "rejected"
Array(t) == t.d # <<>>
Arr(t) == t.d \notin {<<>>, <<1>>}      \* one element of one dimension counts as a vector
Vec(w, sg) == [w |-> w, d |-> <<>>, ew |-> w, sg |-> sg, pk |-> TRUE, x |-> FALSE, k |-> "expr", root |-> 0, lo |-> 0, hi |-> w - 1, v |-> 0, dy |-> FALSE, el |-> FALSE]
Selectable(t) == t.k \in {"var", "sel"}

Rel == {"==", "!=", "<", ">", "<=", ">=", "&&", "||"}
Red == {"!", "ror", "rand", "rxor"}
Shift == {"<<", ">>", ">>>"}

(* selection of elements h..l of the outermost dimension, or of bits *)
Slice(p, h, l) ==
    LET n  == IF p.x THEN 1 ELSE IF Array(p) THEN p.d[1] ELSE p.ew
        st == IF p.x THEN p.w ELSE IF Array(p) THEN Prod(Tail(p.d)) * p.ew ELSE 1
        c  == h - l + 1
    IN IF h < l \/ h >= n THEN Rej
       ELSE [w |-> c * st,
             d |-> IF ~Array(p) THEN <<>> ELSE IF c = 1 THEN Tail(p.d) ELSE <<c>> \o Tail(p.d),
             ew |-> IF Array(p) \/ p.x THEN p.ew ELSE c,
             sg |-> FALSE,
             pk |-> p.pk \/ ~Array(p) \/ (c = 1 /\ Len(p.d) = 1),
             x |-> FALSE, k |-> "sel", root |-> p.root, lo |-> p.lo + l * st, hi |-> p.lo + (h + 1) * st - 1, v |-> 0, dy |-> p.dy \/ p.el, el |-> FALSE]
(* one element selected by a variable: it may be any of them *)
Elem(p, i) ==
    LET n  == IF p.x THEN 1 ELSE IF Array(p) THEN p.d[1] ELSE p.ew
        st == IF p.x THEN p.w ELSE IF Array(p) THEN Prod(Tail(p.d)) * p.ew ELSE 1
    IN IF i.w > (IF n <= 2 THEN 1 ELSE Log2(n)) THEN Rej
       ELSE [w |-> st, d |-> IF Array(p) THEN Tail(p.d) ELSE <<>>, ew |-> IF Array(p) \/ p.x THEN p.ew ELSE 1, sg |-> FALSE,
             pk |-> p.pk \/ ~Array(p) \/ Len(p.d) = 1, x |-> FALSE, k |-> "sel", root |-> p.root, lo |-> p.lo, hi |-> p.hi, v |-> 0, dy |-> p.dy \/ p.el, el |-> TRUE]

(* operands of different widths: a constant takes the width of the other one if   *)
(* its value fits, otherwise the narrower one is extended; nothing is truncated    *)
Grow(t, w) == IF Arr(t) THEN Rej ELSE [t EXCEPT !.w = w, !.ew = w, !.d = <<>>]
FitC(t, w) == t.k = "const" /\ (w >= t.w \/ Fits(t.v, w, t.sg))
Common(a, b) ==
    CASE a.w = b.w -> <<a, b>>
      [] FitC(b, a.w) -> <<a, Grow(b, a.w)>>
      [] FitC(a, b.w) -> <<Grow(a, b.w), b>>
      [] a.w < b.w -> <<Grow(a, b.w), b>>
      [] OTHER -> <<a, Grow(b, a.w)>>
(* the left operand of a shift gives the width: a narrower amount is extended      *)
Bin(op, a, b) ==
    LET ab == IF op \in Shift /\ a.w > b.w THEN <<a, Grow(b, a.w)>> ELSE Common(a, b)  x == ab[1]  y == ab[2]
    IN IF Bad(x) \/ Bad(y) THEN Rej
       ELSE IF Arr(a) /\ a.pk # b.pk THEN Rej
       ELSE IF op \in Rel THEN Vec(1, FALSE)
       ELSE [Vec(x.w, IF op \in Shift THEN a.sg ELSE a.sg /\ b.sg) EXCEPT !.d = x.d, !.ew = x.ew, !.pk = x.pk]
Un(op, a) == IF op \in Red THEN Vec(1, FALSE) ELSE [Vec(a.w, a.sg) EXCEPT !.d = a.d, !.ew = a.ew, !.pk = a.pk]
(* operands have one sign (joining to a concatenation: that of its operands)       *)
Cat(ts) == LET sg == IF ts[1].k = "scat" THEN TRUE ELSE ts[1].sg
           IN IF \E j \in 2..Len(ts) : ts[j].sg # sg THEN Rej
              ELSE [Vec(FoldLeft(LAMBDA s, t : s + t.w, 0, ts), FALSE) EXCEPT !.k = IF sg THEN "scat" ELSE "cat"]
Type(o, E) ==
    CASE o.o = "var" -> [w |-> Prod(o.d) * o.ew, d |-> o.d, ew |-> o.ew, sg |-> o.sg, pk |-> o.pk, x |-> o.x, k |-> "var", root |-> o.h,
                         lo |-> 0, hi |-> Prod(o.d) * o.ew - 1, v |-> 0, dy |-> FALSE, el |-> FALSE]
      [] o.o = "c" -> IF Fits(o.v, o.w, o.sg) THEN [Vec(o.w, o.sg) EXCEPT !.k = "const", !.v = o.v] ELSE Rej
      [] o.o = "sl" -> Slice(E[o.a[1]], o.n[1], o.n[2])
      [] o.o = "vx" -> Elem(E[o.a[1]], E[o.a[2]])
      [] o.o = "cat" -> Cat([j \in 1..Len(o.a) |-> E[o.a[j]]])
      [] o.o = "ext" -> LET p == E[o.a[1]] IN IF o.n[1] < p.w \/ Arr(p) \/ p.x THEN Rej ELSE Vec(o.n[1], p.sg)
      [] o.o = "dup" -> Vec(E[o.a[1]].w * o.n[1], FALSE)
      [] o.o = "signed" -> LET p == E[o.a[1]] IN IF p.sg THEN p ELSE [p EXCEPT !.k = "expr", !.sg = TRUE, !.x = FALSE]
      [] o.o = "unsigned" -> [E[o.a[1]] EXCEPT !.k = "expr", !.sg = FALSE, !.x = FALSE]
      [] o.o = "resize" -> LET p == E[o.a[1]] IN IF Arr(p) THEN Rej ELSE Vec(o.n[1], p.sg)
      [] o.o = "?" -> IF E[o.a[1]].w # 1 THEN Rej ELSE Bin("?", E[o.a[2]], E[o.a[3]])
      [] o.o = "op" /\ Len(o.a) = 1 -> Un(o.p, E[o.a[1]])
      [] o.o = "op" /\ Len(o.a) = 2 -> Bin(o.p, E[o.a[1]], E[o.a[2]])
(* an assignment: same sign and width; a constant that fits takes the width *)
AssignOk(l, r) == /\ l.sg = r.sg
                  /\ l.w = r.w \/ (r.k = "const" /\ Fits(r.v, l.w, r.sg))
                  /\ ((Arr(l) \/ Arr(r) \/ l.x \/ r.x) => l.pk = r.pk)
Roots(o, E, ops) == IF E[o].k \in {"cat", "scat"} THEN UNION {{E[x].root : x \in ToSet(ops[j].a)} : j \in {j \in 1..Len(ops) : ops[j].h = o}}
                    ELSE {E[o].root}

VARIABLES t, n, E, asg
vars == <<t, n, E, asg>>
Ops == Raw[t].ops
Shape(ty) == IF ty.d = <<>> THEN <<1>> ELSE ty.d
Seen(ty, obs) == /\ obs.w = ty.w /\ obs.sg = ty.sg /\ obs.sz = Shape(ty)
                 /\ (ty.k \in {"var", "sel"} /\ ~ty.dy => obs.hi = ty.hi /\ obs.lo = ty.lo)
                 /\ (ty.pk = obs.pk)
Say(what, j, x) == PrintT(<<"MISMATCH", Raw[t].id, ToJson([step |-> j, what |-> what, spec |-> x, seen |-> Ops[j].obs])>>)
Init == t \in 1..Len(Raw) /\ n = 0 /\ E = <<>> /\ asg = <<>>
Step ==
    /\ n < Len(Ops)
    /\ UNCHANGED t
    /\ LET o == Ops[n + 1]
       IN IF o.o = "="
          THEN LET ok == AssignOk(E[o.a[1]], E[o.a[2]])
               IN /\ IF ok # o.obs.ok THEN Say("verdict", n + 1, ok) /\ n' = Len(Ops) + 1 ELSE n' = n + 1
                  /\ asg' = IF ok THEN Append(asg, o.a) ELSE asg
                  /\ UNCHANGED E
          ELSE LET ty == Type(o, E)
               IN /\ IF Bad(ty) = o.obs.ok THEN Say("verdict", n + 1, ty) /\ n' = Len(Ops) + 1 ELSE n' = n + 1
                  /\ (IF ~Bad(ty) /\ o.obs.ok /\ ~Seen(ty, o.obs) THEN Say("type", n + 1, ty) ELSE TRUE)
                  /\ E' = IF Bad(ty) THEN E ELSE (o.h :> ty) @@ E
                  /\ UNCHANGED asg
(* at the end: every handle still is what it was, and the design holds exactly the *)
(* accepted assignments                                                            *)
Fin == Raw[t].fin
Check == n = Len(Ops) =>
    /\ \A j \in 1..Len(Fin.ty) : LET f == Fin.ty[j] IN f.h \in DOMAIN E =>
            (Seen(E[f.h], f) \/ PrintT(<<"MISMATCH", Raw[t].id, ToJson([what |-> "changed later", spec |-> E[f.h], seen |-> f])>>))
    /\ (Fin.asg = [j \in 1..Len(asg) |-> [lw |-> E[asg[j][1]].w, rw |-> E[asg[j][1]].w, ls |-> E[asg[j][1]].sg, rs |-> E[asg[j][1]].sg]]
        \/ PrintT(<<"MISMATCH", Raw[t].id, ToJson([what |-> "statements", spec |-> asg, seen |-> Fin.asg])>>))
    /\ \A j \in 1..Len(Fin.drv) : LET f == Fin.drv[j] IN
            (f.n = Cardinality({k \in 1..Len(asg) : f.h \in Roots(asg[k][1], E, Ops)})
             \/ PrintT(<<"MISMATCH", Raw[t].id, ToJson([what |-> "drivers", seen |-> f])>>))
Next == Step
Spec == Init /\ [][Next]_vars
================================================================================
