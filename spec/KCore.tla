------------------------------- MODULE KCore -------------------------------
(* Semantics of a flat synchronous design: typed expressions, statements,    *)
(* processes, settling, edges and non-blocking updates.                      *)
(*                                                                           *)
(* A state is a sequence of words, one per variable.  Typed ("core")         *)
(* expressions are produced from kratos IR by KType and from SystemVerilog   *)
(* text by SvType; both are given meaning here, once.                        *)
EXTENDS KWord, SequencesExt, TLC

RECURSIVE WPow(_, _, _, _)
WPow(a, b, w, n) ==        \* square and multiply over the low n bits of b
    IF n = 0 THEN WNat(1, w)
    ELSE LET h  == WPow(a, WLshr(b, 1, w), w, n - 1)
             sq == WMul(h, h, w)
         IN IF WIsTrue(WSlice(b, 0, 1)) THEN WMul(sq, a, w) ELSE sq

UnOp(op, a, w) ==
    CASE op = "~"    -> WNot(a, w)
      [] op = "-"    -> WNeg(a, w)
      [] op = "+"    -> a
      [] op = "neg"  -> WNeg(a, w)
      [] op = "plus" -> a
      [] op = "!"    -> WBool(~WIsTrue(a))
      [] op = "ror"  -> WBool(WIsTrue(a))
      [] op = "rand" -> WBool(WRedAnd(a, w))
      [] op = "rxor" -> WBool(WRedXor(a, w))
      [] OTHER -> Assert(FALSE, <<"unary operator", op>>)

(* w is the width of the operands, sg whether they are compared signed *)
BinOp(op, a, b, w, sg) ==
    CASE op = "+"   -> WAdd(a, b, w)
      [] op = "-"   -> WSub(a, b, w)
      [] op = "&"   -> WAnd(a, b, w)
      [] op = "|"   -> WOr(a, b, w)
      [] op = "^"   -> WXor(a, b, w)
      [] op = "=="  -> WBool(WEq(a, b))
      [] op = "!="  -> WBool(~WEq(a, b))
      [] op = "<"   -> WBool(IF sg THEN WSLt(a, b, w) ELSE WULt(a, b, w))
      [] op = ">"   -> WBool(IF sg THEN WSLt(b, a, w) ELSE WULt(b, a, w))
      [] op = "<="  -> WBool(~(IF sg THEN WSLt(b, a, w) ELSE WULt(b, a, w)))
      [] op = ">="  -> WBool(~(IF sg THEN WSLt(a, b, w) ELSE WULt(a, b, w)))
      [] op = "*"   -> WMul(a, b, w)
      [] op = "/"   -> IF sg THEN WSDiv(a, b, w) ELSE WUDiv(a, b, w)
      [] op = "%"   -> IF sg THEN WSMod(a, b, w) ELSE WUMod(a, b, w)
      [] op = "<<"  -> WShl(a, WToNat(b), w)
      [] op = ">>"  -> WLshr(a, WToNat(b), w)
      [] op = ">>>" -> IF sg THEN WAshr(a, WToNat(b), w) ELSE WLshr(a, WToNat(b), w)
      [] op = "**"  -> WPow(a, b, w, w)
      [] op = "&&"  -> WBool(WIsTrue(a) /\ WIsTrue(b))
      [] op = "||"  -> WBool(WIsTrue(a) \/ WIsTrue(b))

(* ------------------------------------------------------------- evaluation *)
(* D is the elaborated design: D.fn is its table of functions.              *)
RECURSIVE EV(_, _, _), Exec(_, _, _), ExecF(_, _, _, _)

EV(D, e, s) ==
    CASE e.k = "v"   -> s[e.i]
      [] e.k = "c"   -> e.v
      [] e.k = "sl"  -> WSlice(EV(D, e.p, s), e.lo, e.w)
      [] e.k = "b"   -> BinOp(e.op, EV(D, e.a, s), EV(D, e.b, s), e.aw, e.sg)
      [] e.k = "u"   -> UnOp(e.op, EV(D, e.a, s), e.aw)
      [] e.k = "?"   -> IF WIsTrue(EV(D, e.c, s)) THEN EV(D, e.a, s) ELSE EV(D, e.b, s)
      [] e.k = "cat" -> LET r == FoldLeft(LAMBDA acc, x : [v |-> WCat(acc.v, acc.w, EV(D, x, s), x.w),
                                                            w |-> acc.w + x.w],
                                          [v |-> EV(D, e.a[1], s), w |-> e.a[1].w], Tail(e.a))
                        IN r.v
      [] e.k = "x"   -> WExt(EV(D, e.p, s), e.p.w, e.w, e.sg)
      [] e.k = "dx"  -> LET n == WToNat(EV(D, e.i, s))
                        IN IF n >= e.n THEN WZero(e.w) ELSE WSlice(EV(D, e.p, s), n * e.st, e.w)
      [] e.k = "call" ->
            LET f  == D.fn[e.f]
                s1 == FoldLeftDomain(LAMBDA acc, j : [acc EXCEPT ![f.args[j]] = EV(D, e.a[j], s)], s, e.a)
                s2 == FoldLeft(LAMBDA acc, t : ExecF(D, t, acc, f), [s1 EXCEPT ![f.fl] = WZero(1)], f.b)
            IN s2[f.ret]

(* a target is a sequence of segments, most significant first *)
SegOff(D, g, s) ==          \* static offset plus dynamic index offsets; -1 if out of range
    FoldLeft(LAMBDA acc, d : LET n == WToNat(EV(D, d.i, s))
                             IN IF acc < 0 \/ n >= d.n THEN -1 ELSE acc + n * d.st,
             g.lo, g.dy)
WriteSeg(D, g, s, rd, val) ==
    LET off == SegOff(D, g, rd)
    IN IF off < 0 THEN s
       ELSE [s EXCEPT ![g.i] = WInsert(@, g.tw, off, g.w, val)]
(* index expressions are read in rd, the result is written into s *)
Write(D, tgt, s, rd, val) ==
    IF Len(tgt.g) = 1 THEN WriteSeg(D, tgt.g[1], s, rd, val)
    ELSE FoldLeft(LAMBDA acc, g : [s |-> WriteSeg(D, g, acc.s, rd, WSlice(val, acc.hi - g.w, g.w)),
                                   hi |-> acc.hi - g.w],
                  [s |-> s, hi |-> tgt.w], tgt.g).s

CaseHit(D, st, s) ==        \* index of the first matching case item, 0 if none
    LET v == EV(D, st.c, s)
        hits == SelectInSeq(st.cs, LAMBDA c : \E j \in 1..Len(c.v) : EV(D, c.v[j], s) = v)
    IN hits

(* blocking execution in state s *)
Exec(D, st, s) ==
    CASE st.k = "a"  -> Write(D, st.l, s, s, EV(D, st.r, s))
      [] st.k = "if" -> IF WIsTrue(EV(D, st.c, s))
                        THEN FoldLeft(LAMBDA acc, t : Exec(D, t, acc), s, st.t)
                        ELSE FoldLeft(LAMBDA acc, t : Exec(D, t, acc), s, st.e)
      [] st.k = "sw" -> LET h == CaseHit(D, st, s)
                        IN FoldLeft(LAMBDA acc, t : Exec(D, t, acc), s,
                                    IF h = 0 THEN st.d ELSE st.cs[h].b)
      [] st.k = "call" -> s
      [] st.k = "blk" -> FoldLeft(LAMBDA acc, t : Exec(D, t, acc), s, st.b)
(* function bodies: stop after return; nested assignments to globals persist *)
ExecF(D, st, s, f) ==
    IF WIsTrue(s[f.fl]) THEN s
    ELSE CASE st.k = "ret" -> [s EXCEPT ![f.ret] = EV(D, st.r, s), ![f.fl] = WNat(1, 1)]
           [] st.k = "if" -> IF WIsTrue(EV(D, st.c, s))
                             THEN FoldLeft(LAMBDA acc, t : ExecF(D, t, acc, f), s, st.t)
                             ELSE FoldLeft(LAMBDA acc, t : ExecF(D, t, acc, f), s, st.e)
           [] st.k = "sw" -> LET h == CaseHit(D, st, s)
                             IN FoldLeft(LAMBDA acc, t : ExecF(D, t, acc, f), s,
                                         IF h = 0 THEN st.d ELSE st.cs[h].b)
           [] OTHER -> Exec(D, st, s)

(* clocked execution: reads r, writes n (the state after the edge); blocking *)
(* assignments are visible to later statements of the same process           *)
RECURSIVE ExecS(_, _, _)
ExecS(D, st, p) ==
    CASE st.k = "a"  -> IF st.nb THEN [r |-> p.r, n |-> Write(D, st.l, p.n, p.r, EV(D, st.r, p.r))]
                        ELSE LET v == EV(D, st.r, p.r)
                             IN [r |-> Write(D, st.l, p.r, p.r, v), n |-> Write(D, st.l, p.n, p.r, v)]
      [] st.k = "if" -> FoldLeft(LAMBDA acc, t : ExecS(D, t, acc), p,
                                 IF WIsTrue(EV(D, st.c, p.r)) THEN st.t ELSE st.e)
      [] st.k = "sw" -> LET h == CaseHit(D, st, p.r)
                        IN FoldLeft(LAMBDA acc, t : ExecS(D, t, acc), p,
                                    IF h = 0 THEN st.d ELSE st.cs[h].b)
      [] st.k = "call" -> p
      [] st.k = "blk" -> FoldLeft(LAMBDA acc, t : ExecS(D, t, acc), p, st.b)

(* ---------------------------------------------------------------- designs *)
(* D.comb: sequence of processes (each a sequence of statements)             *)
(* D.seq:  sequence of [ev |-> <<[pos |-> BOOLEAN, e |-> core expr]>>, b]    *)
(* calls of functions that assign module variables (tasks) are inlined by    *)
(* elaboration.                                                              *)
Sweep(D, s) == FoldLeft(LAMBDA acc, b : FoldLeft(LAMBDA a2, t : Exec(D, t, a2), acc, b), s, D.comb)
RECURSIVE SettleN(_, _, _)
SettleN(D, s, n) == LET s1 == Sweep(D, s)
                    IN IF s1 = s \/ n = 0 THEN s1 ELSE SettleN(D, s1, n - 1)
Settle(D, s) == SettleN(D, s, Len(D.comb) + 1)
Stable(D, s) == Sweep(D, s) = s

Fired(D, q, old, new) ==
    \E j \in 1..Len(q.ev) :
        LET a == WIsTrue(EV(D, q.ev[j].e, old))  b == WIsTrue(EV(D, q.ev[j].e, new))
        IN IF q.ev[j].pos THEN ~a /\ b ELSE a /\ ~b
Clocked(D, old, new) ==
    FoldLeft(LAMBDA acc, q : IF Fired(D, q, old, new)
                             THEN FoldLeft(LAMBDA p, t : ExecS(D, t, p), [r |-> new, n |-> acc], q.b).n
                             ELSE acc,
             new, D.seq)
RECURSIVE Propagate(_, _, _, _)
Propagate(D, old, new, n) ==
    IF n = 0 \/ ~\E j \in 1..Len(D.seq) : Fired(D, D.seq[j], old, new) THEN new
    ELSE Propagate(D, new, Settle(D, Clocked(D, old, new)), n - 1)
(* drive some inputs: <<var, value>> pairs, then let everything happen *)
Drive(D, s, ins) ==
    LET s1 == FoldLeft(LAMBDA acc, x : [acc EXCEPT ![x.i] = x.v], s, ins)
    IN Propagate(D, s, Settle(D, s1), 4)
InitState(D) == [i \in 1..Len(D.vw) |-> WZero(D.vw[i])]
=============================================================================
