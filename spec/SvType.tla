-------------------------------- MODULE SvType --------------------------------
(* Meaning of the SystemVerilog subset kratos emits (IEEE 1800-2017 clause 11: *)
(* self-determined and context-determined width and sign), as an elaboration   *)
(* of the parsed text into the core of KCore.                                  *)
(*                                                                             *)
(* S.vars[i] = [dims |-> <<[n, l, dn, up]...>>, sg]: ranges from the outermost;  *)
(* unpacked ranges come first.  n elements; l lowest index; dn TRUE if the     *)
(* range is written high:low; up TRUE if unpacked.                             *)
(* Member selects carry the list ms of member widths in declaration order      *)
(* (first member in the most significant bits).                                *)
EXTENDS KCore

Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SProd(_)
SProd(ds) == IF ds = <<>> THEN 1 ELSE ds[1].n * SProd(Tail(ds))
RECURSIVE SSum(_)
SSum(ms) == IF ms = <<>> THEN 0 ELSE ms[1] + SSum(Tail(ms))

SRel == {"==", "!=", "<", ">", "<=", ">="}
SLog == {"&&", "||"}
SRed == {"!", "ror", "rand", "rxor"}
SShift == {"<<", ">>", ">>>", "**"}

(* position of element x of range d, counted from the least significant end *)
Pos(d, x) == IF d.dn THEN x - d.l ELSE d.l + d.n - 1 - x
IsLit(e, env) == e.t = "num" \/ (e.t = "it")
Lit(e, env) == IF e.t = "num" THEN e.n ELSE env[e.nm]

(* A primary (variable with selects): [i, dims, lo, w, dy, sg] *)
RECURSIVE Prim(_, _, _), SW(_, _, _), SS(_, _, _), SE(_, _, _, _, _), SIxNorm(_, _, _, _)
SSelf(S, e, env) == SE(S, e, env, SW(S, e, env), SS(S, e, env))
(* dynamic index normalised to a position *)
SIxNorm(S, d, ie, env) ==
    LET c == SSelf(S, ie, env)
    IN IF d.dn /\ d.l = 0 THEN c
       ELSE LET w == Max2(c.w, 12)
                x == [k |-> "x", p |-> c, w |-> w, sg |-> FALSE]
                m == [k |-> "c", v |-> WNat(IF d.dn THEN d.l ELSE d.l + d.n - 1, w), w |-> w]
            IN IF d.dn THEN [k |-> "b", op |-> "-", a |-> x, b |-> m, aw |-> w, sg |-> FALSE, w |-> w]
               ELSE [k |-> "b", op |-> "-", a |-> m, b |-> x, aw |-> w, sg |-> FALSE, w |-> w]
Prim(S, e, env) ==
    CASE e.t = "id" ->
            LET v == S.vars[e.i]
            IN [i |-> e.i, dims |-> v.dims, lo |-> 0, w |-> SProd(v.dims), dy |-> <<>>, sg |-> v.sg]
      [] e.t = "sel" ->
            LET p  == Prim(S, e.p, env)
                d  == p.dims[1]
                st == SProd(Tail(p.dims))
            IN IF IsLit(e.ix, env)
               THEN [p EXCEPT !.dims = Tail(@), !.w = st, !.lo = @ + Pos(d, Lit(e.ix, env)) * st,
                              !.sg = IF d.up THEN @ ELSE FALSE]
               ELSE [p EXCEPT !.dims = Tail(@), !.w = st, !.sg = IF d.up THEN @ ELSE FALSE,
                              !.dy = Append(@, [i |-> SIxNorm(S, d, e.ix, env), n |-> d.n, st |-> st])]
      [] e.t = "rng" ->
            LET p  == Prim(S, e.p, env)
                d  == p.dims[1]
                st == SProd(Tail(p.dims))
                a  == Pos(d, e.h)  b == Pos(d, e.l)
                n  == a - b + 1
            IN [p EXCEPT !.dims = <<[n |-> n, l |-> 0, dn |-> TRUE, up |-> d.up]>> \o Tail(@),
                         !.w = n * st, !.lo = @ + b * st, !.sg = FALSE]
      [] e.t = "mem" ->
            LET p  == Prim(S, e.p, env)
                lo == SSum(SubSeq(e.ms, e.mi + 1, Len(e.ms)))
            IN [p EXCEPT !.dims = <<[n |-> e.ms[e.mi], l |-> 0, dn |-> TRUE, up |-> FALSE]>>,
                         !.w = e.ms[e.mi], !.lo = @ + lo, !.sg = e.sg]
      [] e.t = "pcast" -> [Prim(S, e.p, env) EXCEPT !.sg = e.sg]
IsPrim(e) == e.t \in {"id", "sel", "rng", "mem"}

(* self-determined width and sign *)
SW(S, e, env) ==
    CASE e.t = "num" -> e.w
      [] e.t = "it"  -> 32
      [] IsPrim(e)   -> Prim(S, e, env).w
      [] e.t = "un"  -> IF e.op \in SRed THEN 1 ELSE SW(S, e.a, env)
      [] e.t = "bin" -> IF e.op \in SRel \cup SLog THEN 1
                        ELSE IF e.op \in SShift THEN SW(S, e.a, env)
                        ELSE Max2(SW(S, e.a, env), SW(S, e.b, env))
      [] e.t = "tern" -> Max2(SW(S, e.a, env), SW(S, e.b, env))
      [] e.t = "cat" -> SSum([j \in 1..Len(e.a) |-> SW(S, e.a[j], env)])
      [] e.t = "rep" -> e.n * SW(S, e.p, env)
      [] e.t = "size" -> e.w
      [] e.t = "sign" -> SW(S, e.p, env)
      [] e.t = "call" -> SProd(S.vars[S.fn[e.f].ret].dims)
SS(S, e, env) ==
    CASE e.t = "num" -> e.sg
      [] e.t = "it"  -> TRUE
      [] IsPrim(e)   -> Prim(S, e, env).sg
      [] e.t = "un"  -> IF e.op \in SRed THEN FALSE ELSE SS(S, e.a, env)
      [] e.t = "bin" -> IF e.op \in SRel \cup SLog THEN FALSE
                        ELSE IF e.op \in SShift THEN SS(S, e.a, env)
                        ELSE SS(S, e.a, env) /\ SS(S, e.b, env)
      [] e.t = "tern" -> SS(S, e.a, env) /\ SS(S, e.b, env)
      [] e.t \in {"cat", "rep"} -> FALSE
      [] e.t = "size" -> SS(S, e.p, env)
      [] e.t = "sign" -> e.sg
      [] e.t = "call" -> S.vars[S.fn[e.f].ret].sg

SExt(c, w, sg) == IF c.w = w THEN c ELSE [k |-> "x", p |-> c, w |-> w, sg |-> sg]
PrimCore(S, e, env) ==
    LET p == Prim(S, e, env)
        b == [k |-> "v", i |-> p.i, w |-> SProd(S.vars[p.i].dims)]
        mx == FoldLeft(LAMBDA acc, d : acc + (d.n - 1) * d.st, 0, p.dy)
    IN IF p.dy = <<>> THEN (IF p.w = b.w THEN b ELSE [k |-> "sl", p |-> b, lo |-> p.lo, w |-> p.w])
       ELSE (* static offset first, then one dynamic index after the other *)
            LET b0 == IF p.lo = 0 THEN b ELSE [k |-> "sl", p |-> b, lo |-> p.lo, w |-> b.w - p.lo]
            IN FoldLeft(LAMBDA acc, j :
                          LET d == p.dy[j]
                              rest == FoldLeft(LAMBDA a2, q : a2 + (q.n - 1) * q.st, 0, SubSeq(p.dy, j + 1, Len(p.dy)))
                          IN [k |-> "dx", p |-> acc, i |-> d.i, n |-> d.n, st |-> d.st, w |-> rest + p.w],
                        b0, [j \in 1..Len(p.dy) |-> j])

(* context-determined translation to width w, sign sg *)
SE(S, e, env, w, sg) ==
    CASE e.t = "num" -> SExt([k |-> "c", v |-> WRaw(e.v), w |-> e.w], w, sg)
      [] e.t = "it"  -> SExt([k |-> "c", v |-> WNat(env[e.nm], 32), w |-> 32], w, sg)
      [] IsPrim(e)   -> SExt(PrimCore(S, e, env), w, sg)
      [] e.t = "un"  ->
            IF e.op \in SRed
            THEN LET a == SSelf(S, e.a, env)
                 IN SExt([k |-> "u", op |-> e.op, a |-> a, aw |-> a.w, w |-> 1], w, sg)
            ELSE [k |-> "u", op |-> e.op, a |-> SE(S, e.a, env, w, sg), aw |-> w, w |-> w]
      [] e.t = "bin" /\ e.op \in SRel ->
            LET ww == Max2(SW(S, e.a, env), SW(S, e.b, env))
                ss == SS(S, e.a, env) /\ SS(S, e.b, env)
            IN SExt([k |-> "b", op |-> e.op, a |-> SE(S, e.a, env, ww, ss), b |-> SE(S, e.b, env, ww, ss),
                     aw |-> ww, sg |-> ss, w |-> 1], w, sg)
      [] e.t = "bin" /\ e.op \in SLog ->
            SExt([k |-> "b", op |-> e.op, a |-> SSelf(S, e.a, env), b |-> SSelf(S, e.b, env),
                  aw |-> 1, sg |-> FALSE, w |-> 1], w, sg)
      [] e.t = "bin" /\ e.op \in SShift ->
            [k |-> "b", op |-> e.op, a |-> SE(S, e.a, env, w, sg), b |-> SSelf(S, e.b, env), aw |-> w, sg |-> sg,
             w |-> w]
      [] e.t = "bin" -> [k |-> "b", op |-> e.op, a |-> SE(S, e.a, env, w, sg), b |-> SE(S, e.b, env, w, sg),
                         aw |-> w, sg |-> sg, w |-> w]
      [] e.t = "tern" -> [k |-> "?", c |-> SSelf(S, e.c, env), a |-> SE(S, e.a, env, w, sg),
                          b |-> SE(S, e.b, env, w, sg), w |-> w]
      [] e.t = "cat" ->
            LET as == [j \in 1..Len(e.a) |-> SSelf(S, e.a[j], env)]
            IN SExt([k |-> "cat", a |-> as, w |-> SSum([j \in 1..Len(as) |-> as[j].w])], w, sg)
      [] e.t = "rep" ->
            LET a == SSelf(S, e.p, env)
            IN SExt([k |-> "cat", a |-> [j \in 1..e.n |-> a], w |-> a.w * e.n], w, sg)
      [] e.t = "size" -> SExt(SExt(SSelf(S, e.p, env), e.w, SS(S, e.p, env)), w, sg)
      [] e.t = "sign" -> SExt(SSelf(S, e.p, env), w, sg)
      [] e.t = "call" ->
            LET f == S.fn[e.f]
                arg(j) == LET ww == SProd(S.vars[f.args[j]].dims)
                              w2 == Max2(ww, SW(S, e.a[j], env))
                          IN SExt(SE(S, e.a[j], env, w2, SS(S, e.a[j], env)), ww, FALSE)
            IN SExt([k |-> "call", f |-> e.f, a |-> [j \in 1..Len(e.a) |-> arg(j)],
                     w |-> SProd(S.vars[f.ret].dims)], w, sg)

SSeg(S, e, env) == LET p == Prim(S, e, env)
                   IN [i |-> p.i, tw |-> SProd(S.vars[p.i].dims), lo |-> p.lo, w |-> p.w, dy |-> p.dy]
STgt(S, e, env) ==
    LET gs == IF e.t = "cat" THEN [j \in 1..Len(e.a) |-> SSeg(S, e.a[j], env)] ELSE <<SSeg(S, e, env)>>
    IN [w |-> SSum([j \in 1..Len(gs) |-> gs[j].w]), g |-> gs]
(* right-hand side in an assignment to lw bits *)
SRhs(S, e, env, lw) == SExt(SE(S, e, env, Max2(lw, SW(S, e, env)), SS(S, e, env)), lw, FALSE)

RECURSIVE SSt(_, _, _), SSts(_, _, _), SForU(_, _, _, _)
SSt(S, t, env) ==
    CASE t.t = "as" -> LET l == STgt(S, t.l, env)
                       IN <<[k |-> "a", l |-> l, r |-> SRhs(S, t.r, env, l.w), nb |-> t.nb]>>
      [] t.t = "if" -> <<[k |-> "if", c |-> SSelf(S, t.c, env), t |-> SSts(S, t.th, env), e |-> SSts(S, t.el, env)]>>
      [] t.t = "sw" ->
            LET ws == FlattenSeq([j \in 1..Len(t.cs) |-> [m \in 1..Len(t.cs[j].v) |-> SW(S, t.cs[j].v[m], env)]])
                ss == FlattenSeq([j \in 1..Len(t.cs) |-> [m \in 1..Len(t.cs[j].v) |-> SS(S, t.cs[j].v[m], env)]])
                w  == FoldLeft(Max2, SW(S, t.c, env), ws)
                sg == SS(S, t.c, env) /\ \A j \in 1..Len(ss) : ss[j]
            IN <<[k |-> "sw", c |-> SE(S, t.c, env, w, sg),
                  cs |-> [j \in 1..Len(t.cs) |->
                            [v |-> [m \in 1..Len(t.cs[j].v) |-> SE(S, t.cs[j].v[m], env, w, sg)],
                             b |-> SSts(S, t.cs[j].b, env)]],
                  d |-> SSts(S, t.d, env)]>>
      [] t.t = "blk" -> SSts(S, t.b, env)
      [] t.t = "for" -> SForU(S, t, env, t.st)
      [] t.t = "ret" -> <<[k |-> "ret", r |-> SRhs(S, t.e, env, SProd(S.vars[S.fn[t.f].ret].dims))]>>
      [] t.t = "call" ->
            LET f == S.fn[t.f]
                bind(j) == LET ww == SProd(S.vars[f.args[j]].dims)
                           IN [k |-> "a", l |-> STgt(S, [t |-> "id", i |-> f.args[j]], env),
                               r |-> SRhs(S, t.a[j], env, ww), nb |-> FALSE]
            IN <<[k |-> "blk", b |-> [j \in 1..Len(f.args) |-> bind(j)] \o SSts(S, f.b, env)]>>
      [] OTHER -> <<>>
SSts(S, ts, env) == FlattenSeq([j \in 1..Len(ts) |-> SSt(S, ts[j], env)])
SForU(S, t, env, i) ==
    LET go == CASE t.cmp = "<" -> i < t.en [] t.cmp = ">" -> i > t.en
                [] t.cmp = "<=" -> i <= t.en [] t.cmp = ">=" -> i >= t.en
    IN IF ~go \/ t.inc = 0 THEN <<>>
       ELSE SSts(S, t.b, [n \in DOMAIN env \cup {t.nm} |-> IF n = t.nm THEN i ELSE env[n]]) \o SForU(S, t, env, i + t.inc)

SNoEnv == [n \in {} |-> 0]
SElab(S) ==
    [vw   |-> [i \in 1..Len(S.vars) |-> SProd(S.vars[i].dims)],
     comb |-> [j \in 1..Len(S.comb) |-> SSts(S, S.comb[j], SNoEnv)],
     seq  |-> [j \in 1..Len(S.seq) |->
                 [ev |-> [m \in 1..Len(S.seq[j].ev) |-> [pos |-> S.seq[j].ev[m].pos, e |-> SSelf(S, S.seq[j].ev[m].v, SNoEnv)]],
                  b  |-> SSts(S, S.seq[j].b, SNoEnv)]],
     fn   |-> [j \in 1..Len(S.fn) |->
                 [args |-> S.fn[j].args, ret |-> S.fn[j].ret, fl |-> S.fn[j].fl, b |-> SSts(S, S.fn[j].b, SNoEnv)]]]
==============================================================================
