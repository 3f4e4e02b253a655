-------------------------------- MODULE KType --------------------------------
(* Typing and elaboration of kratos IR: from a design over typed variables    *)
(* (as the generator API builds it) to the core of KCore.  This module is the *)
(* specification of what a kratos expression, slice, target and loop *mean*:  *)
(* shapes, bit offsets, widths and signs are all derived here from the        *)
(* declared variables, never from the numbers the library computes.           *)
(*                                                                            *)
(* R.vars[i] = [dims |-> <<...>>, ew |-> Nat, sg |-> BOOLEAN]                  *)
EXTENDS KCore

RECURSIVE Prod(_)
Prod(ds) == IF ds = <<>> THEN 1 ELSE ds[1] * Prod(Tail(ds))
RECURSIVE SumW(_)
SumW(ms) == IF ms = <<>> THEN 0 ELSE ms[1] + SumW(Tail(ms))
ShW(sh) == Prod(sh.dims) * sh.ew

KRel == {"==", "!=", "<", ">", "<=", ">=", "&&", "||"}
KRed == {"!", "ror", "rand", "rxor"}
KBitInv == {"~", "neg", "plus"}

(* env: loop variable name -> integer *)
RECURSIVE LitIx(_, _, _)
LitIx(R, e, env) == IF e.t = "it" THEN env[e.n]
                    ELSE IF e.t \in {"cast", "ext"} THEN LitIx(R, e.p, env)
                    ELSE -1

RECURSIVE KT(_, _, _)
(* typed translation: [c, dims, ew, sg] *)
KT(R, e, env) ==
    CASE e.t = "v" ->
            LET v == R.vars[e.i]
            IN [c |-> [k |-> "v", i |-> e.i, w |-> ShW(v)], dims |-> v.dims, ew |-> v.ew, sg |-> v.sg]
      [] e.t = "c" ->
            [c |-> [k |-> "c", v |-> WRaw(e.v), w |-> e.w], dims |-> <<>>, ew |-> e.w, sg |-> e.sg]
      [] e.t = "it" ->
            [c |-> [k |-> "c", v |-> (IF env[e.n] < 0 THEN WNeg(WNat(0 - env[e.n], e.w), e.w) ELSE WNat(env[e.n], e.w)),
                    w |-> e.w], dims |-> <<>>, ew |-> e.w, sg |-> e.sg]
      [] e.t = "sl" ->      \* constant range h..l of the outermost dimension
            LET p == KT(R, e.p, env)
                st == IF p.dims = <<>> THEN 1 ELSE Prod(Tail(p.dims)) * p.ew
                n  == e.h - e.l + 1
                nd == IF p.dims = <<>> THEN <<>>
                      ELSE IF n = 1 THEN Tail(p.dims) ELSE <<n>> \o Tail(p.dims)
            IN [c |-> [k |-> "sl", p |-> p.c, lo |-> e.l * st, w |-> n * st], dims |-> nd,
                ew |-> (IF p.dims = <<>> THEN n ELSE p.ew), sg |-> FALSE]
      [] e.t = "fld" ->     \* member mi of a packed struct, first member in the low bits
            LET p == KT(R, e.p, env)
                lo == SumW(SubSeq(e.ms, 1, e.mi - 1))
            IN [c |-> [k |-> "sl", p |-> p.c, lo |-> lo, w |-> e.ms[e.mi]], dims |-> <<>>,
                ew |-> e.ms[e.mi], sg |-> e.sg]
      [] e.t = "vx" ->      \* element selected by a variable
            LET p == KT(R, e.p, env)
                ar == p.dims # <<>>
                st == IF ar THEN Prod(Tail(p.dims)) * p.ew ELSE 1
                n  == IF ar THEN p.dims[1] ELSE p.ew
                nd == IF ar THEN Tail(p.dims) ELSE <<>>
                li == LitIx(R, e.i, env)
            IN [c |-> IF li >= 0 THEN [k |-> "sl", p |-> p.c, lo |-> li * st, w |-> st]
                      ELSE [k |-> "dx", p |-> p.c, i |-> KT(R, e.i, env).c, n |-> n, st |-> st, w |-> st],
                dims |-> nd, ew |-> (IF ar THEN p.ew ELSE 1), sg |-> FALSE]
      [] e.t = "cat" ->
            LET as == [j \in 1..Len(e.a) |-> KT(R, e.a[j], env).c]
                w  == SumW([j \in 1..Len(as) |-> as[j].w])
            IN [c |-> [k |-> "cat", a |-> as, w |-> w], dims |-> <<>>, ew |-> w, sg |-> FALSE]
      [] e.t = "dup" ->
            LET a == KT(R, e.p, env).c
            IN [c |-> [k |-> "cat", a |-> [j \in 1..e.n |-> a], w |-> a.w * e.n], dims |-> <<>>,
                ew |-> a.w * e.n, sg |-> FALSE]
      [] e.t = "ext" ->
            LET p == KT(R, e.p, env)
            IN [c |-> [k |-> "x", p |-> p.c, w |-> e.w, sg |-> p.sg], dims |-> <<>>, ew |-> e.w, sg |-> p.sg]
      [] e.t = "cast" ->
            LET p == KT(R, e.p, env)
            IN CASE e.ct = "signed"   -> [p EXCEPT !.sg = TRUE]
                 [] e.ct = "unsigned" -> [p EXCEPT !.sg = FALSE]
                 [] e.ct = "resize"   -> [c |-> [k |-> "x", p |-> p.c, w |-> e.w, sg |-> p.sg],
                                          dims |-> <<>>, ew |-> e.w, sg |-> p.sg]
                 [] OTHER             -> p
      [] e.t = "call" ->
            LET f == R.fn[e.f]
                r == R.vars[f.ret]
            IN [c |-> [k |-> "call", f |-> e.f, a |-> [j \in 1..Len(e.a) |-> KT(R, e.a[j], env).c],
                       w |-> ShW(r)], dims |-> <<>>, ew |-> r.ew, sg |-> r.sg]
      [] e.t = "o" /\ e.op = "?" ->
            LET a == KT(R, e.a[2], env)  b == KT(R, e.a[3], env)
            IN [c |-> [k |-> "?", c |-> KT(R, e.a[1], env).c, a |-> a.c, b |-> b.c, w |-> a.c.w],
                dims |-> a.dims, ew |-> a.ew, sg |-> a.sg /\ b.sg]
      [] e.t = "o" /\ Len(e.a) = 1 ->
            LET a == KT(R, e.a[1], env)
            IN IF e.op \in KRed
               THEN [c |-> [k |-> "u", op |-> e.op, a |-> a.c, aw |-> a.c.w, w |-> 1], dims |-> <<>>,
                     ew |-> 1, sg |-> FALSE]
               ELSE [c |-> [k |-> "u", op |-> e.op, a |-> a.c, aw |-> a.c.w, w |-> a.c.w], dims |-> a.dims,
                     ew |-> a.ew, sg |-> a.sg]
      [] e.t = "o" /\ Len(e.a) = 2 ->
            LET a == KT(R, e.a[1], env)  b == KT(R, e.a[2], env)
                sg == a.sg /\ b.sg
                sh == e.op \in {"<<", ">>", ">>>"}
            IN IF e.op \in KRel
               THEN [c |-> [k |-> "b", op |-> e.op, a |-> a.c, b |-> b.c, aw |-> a.c.w, sg |-> sg, w |-> 1],
                     dims |-> <<>>, ew |-> 1, sg |-> FALSE]
               ELSE [c |-> [k |-> "b", op |-> e.op, a |-> a.c, b |-> b.c, aw |-> a.c.w,
                            sg |-> (IF sh THEN a.sg ELSE sg), w |-> a.c.w],
                     dims |-> a.dims, ew |-> a.ew, sg |-> (IF sh THEN a.sg ELSE sg)]

(* targets: a sequence of segments, most significant first *)
RECURSIVE KSeg(_, _, _)
(* [i, tw, lo, w, dy, dims, ew, pre]; pre is the longest static prefix if dy # <<>> *)
KSeg(R, e, env) ==
    CASE e.t = "v" ->
            LET v == R.vars[e.i]
            IN [i |-> e.i, tw |-> ShW(v), lo |-> 0, w |-> ShW(v), dy |-> <<>>, dims |-> v.dims, ew |-> v.ew, pre |-> <<0, 0>>]
      [] e.t = "sl" ->
            LET p == KSeg(R, e.p, env)
                st == IF p.dims = <<>> THEN 1 ELSE Prod(Tail(p.dims)) * p.ew
                n  == e.h - e.l + 1
            IN [p EXCEPT !.lo = @ + e.l * st, !.w = n * st,
                         !.dims = IF @ = <<>> THEN <<>> ELSE IF n = 1 THEN Tail(@) ELSE <<n>> \o Tail(@),
                         !.ew = IF p.dims = <<>> THEN n ELSE @]
      [] e.t = "fld" ->
            LET p == KSeg(R, e.p, env)
            IN [p EXCEPT !.lo = @ + SumW(SubSeq(e.ms, 1, e.mi - 1)), !.w = e.ms[e.mi], !.dims = <<>>,
                         !.ew = e.ms[e.mi]]
      [] e.t = "vx" ->
            LET p == KSeg(R, e.p, env)
                ar == p.dims # <<>>
                st == IF ar THEN Prod(Tail(p.dims)) * p.ew ELSE 1
                n  == IF ar THEN p.dims[1] ELSE p.ew
                li == LitIx(R, e.i, env)
            IN [p EXCEPT !.lo = IF li >= 0 THEN @ + li * st ELSE @,
                         !.dy = IF li >= 0 THEN @ ELSE Append(@, [i |-> KT(R, e.i, env).c, n |-> n, st |-> st]),
                         !.pre = IF li >= 0 \/ p.dy # <<>> THEN @ ELSE <<p.lo, p.w>>,
                         !.w = st, !.dims = IF ar THEN Tail(@) ELSE <<>>, !.ew = IF ar THEN @ ELSE 1]
      [] e.t = "cast" -> KSeg(R, e.p, env)
KTgt(R, e, env) ==
    LET gs == IF e.t = "cat" THEN [j \in 1..Len(e.a) |-> KSeg(R, e.a[j], env)] ELSE <<KSeg(R, e, env)>>
    IN [w |-> SumW([j \in 1..Len(gs) |-> gs[j].w]), g |-> gs]

(* an assignment whose kind was never fixed is non-blocking in a clocked process, *)
(* blocking everywhere else                                                      *)
InSeq(env) == "#seq" \in DOMAIN env
RECURSIVE KS(_, _, _), KSs(_, _, _), KFor(_, _, _, _)
(* statement to a sequence of core statements *)
KS(R, t, env) ==
    CASE t.t = "as" -> <<[k |-> "a", l |-> KTgt(R, t.l, env), r |-> KT(R, t.r, env).c, nb |-> IF t.k = "u" THEN InSeq(env) ELSE t.k = "n"]>>
      [] t.t = "if" -> <<[k |-> "if", c |-> KT(R, t.c, env).c, t |-> KSs(R, t.th, env), e |-> KSs(R, t.el, env)]>>
      [] t.t = "sw" -> <<[k |-> "sw", c |-> KT(R, t.c, env).c,
                          cs |-> [j \in 1..Len(t.cs) |-> [v |-> <<KT(R, t.cs[j].v, env).c>>, b |-> KSs(R, t.cs[j].b, env)]],
                          d |-> KSs(R, t.d, env), en |-> [j \in 1..Len(t.en) |-> WRaw(t.en[j])]]>>
      [] t.t = "scope" -> KSs(R, t.b, env)
      [] t.t = "for" -> KFor(R, t, env, t.st)
      [] t.t = "ret" -> <<[k |-> "ret", r |-> KT(R, t.e, env).c]>>
      [] t.t = "call" ->       \* call statement: bind the arguments, run the body
            LET f == R.fn[t.e.f]
                bind(j) == [k |-> "a", l |-> KTgt(R, [t |-> "v", i |-> f.args[j]], env),
                            r |-> KT(R, t.e.a[j], env).c, nb |-> FALSE]
            IN <<[k |-> "blk", b |-> [j \in 1..Len(f.args) |-> bind(j)] \o KSs(R, f.b, env)]>>
      [] OTHER -> <<>>
KSs(R, ts, env) == FlattenSeq([j \in 1..Len(ts) |-> KS(R, ts[j], env)])
KFor(R, t, env, i) ==
    IF (t.inc > 0 /\ i >= t.en) \/ (t.inc < 0 /\ i <= t.en) \/ t.inc = 0 THEN <<>>
    ELSE KSs(R, t.b, [n \in DOMAIN env \cup {t.n} |-> IF n = t.n THEN i ELSE env[n]]) \o KFor(R, t, env, i + t.inc)

NoEnv == [n \in {} |-> 0]
SeqEnv == [n \in {"#seq"} |-> 0]
KElab(R) ==
    [vw   |-> [i \in 1..Len(R.vars) |-> ShW(R.vars[i])],
     comb |-> [j \in 1..Len(R.comb) |-> KSs(R, R.comb[j], NoEnv)],
     seq  |-> [j \in 1..Len(R.seq) |->
                 [ev |-> [m \in 1..Len(R.seq[j].ev) |-> [pos |-> R.seq[j].ev[m].pos, e |-> KT(R, R.seq[j].ev[m].v, NoEnv).c]],
                  b  |-> KSs(R, R.seq[j].b, SeqEnv)]],
     fn   |-> [j \in 1..Len(R.fn) |->
                 [args |-> R.fn[j].args, ret |-> R.fn[j].ret, fl |-> R.fn[j].fl, b |-> KSs(R, R.fn[j].b, NoEnv)]]]
==============================================================================
