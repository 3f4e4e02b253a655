-------------------------------- MODULE KVerdict --------------------------------
(* Which designs the structural checks must reject.  For every design TLC        *)
(* explores all candidate witnesses: every pair of assignment sites (drivers),   *)
(* every execution path through every combinational process, every clocked       *)
(* process and every conditional in it, every continuous assignment and every    *)
(* bit of every checked port.  A witness found is printed; a design must be      *)
(* rejected by a check exactly when a witness of that kind exists.               *)
(*                                                                               *)
(* Input: sequence of [id, a |-> flat design with procs, ports |-> <<[i, chk]>>] *)
EXTENDS KType, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)
R(d) == Raw[d].a
VW == [d \in 1..Len(Raw) |-> [i \in 1..Len(R(d).vars) |-> ShW(R(d).vars[i])]]

(* ------------------------------------------------- bits an expression touches *)
(* longest static prefix of a selection: a variable index may select anything    *)
RECURSIVE KPre(_, _)
KPre(r, e) ==
    CASE e.t = "v" -> LET v == r.vars[e.i]
                      IN [i |-> e.i, lo |-> 0, w |-> ShW(v), dims |-> v.dims, ew |-> v.ew, dyn |-> FALSE]
      [] e.t = "sl" ->
            LET p == KPre(r, e.p)
                st == IF p.dims = <<>> THEN 1 ELSE Prod(Tail(p.dims)) * p.ew
                n  == e.h - e.l + 1
            IN IF p.dyn THEN p
               ELSE [p EXCEPT !.lo = @ + e.l * st, !.w = n * st,
                              !.dims = IF @ = <<>> THEN <<>> ELSE IF n = 1 THEN Tail(@) ELSE <<n>> \o Tail(@),
                              !.ew = IF p.dims = <<>> THEN n ELSE @]
      [] e.t = "fld" ->
            LET p == KPre(r, e.p)
            IN IF p.dyn THEN p
               ELSE [p EXCEPT !.lo = @ + SumW(SubSeq(e.ms, 1, e.mi - 1)), !.w = e.ms[e.mi], !.dims = <<>>, !.ew = e.ms[e.mi]]
      [] e.t = "vx" -> [KPre(r, e.p) EXCEPT !.dyn = TRUE]
      [] e.t = "cast" -> KPre(r, e.p)
Segs(r, e) == IF e.t = "cat" THEN {KPre(r, e.a[j]) : j \in 1..Len(e.a)} ELSE {KPre(r, e)}

RECURSIVE Root(_)
Root(e) == IF e.t \in {"sl", "vx", "fld"} THEN Root(e.p) ELSE e
RECURSIVE Reads(_, _), IxReads(_, _)
IxReads(r, e) == CASE e.t = "vx" -> Reads(r, e.i) \cup IxReads(r, e.p)
                   [] e.t \in {"sl", "fld"} -> IxReads(r, e.p)
                   [] OTHER -> {}
Reads(r, e) ==
    CASE e.t = "v" -> {[i |-> e.i, lo |-> 0, w |-> ShW(r.vars[e.i])]}
      [] e.t \in {"c", "it"} -> {}
      [] e.t \in {"sl", "vx", "fld"} ->
            IxReads(r, e) \cup
            (IF Root(e).t = "v" THEN LET p == KPre(r, e) IN {[i |-> p.i, lo |-> p.lo, w |-> p.w]} ELSE Reads(r, Root(e)))
      [] e.t \in {"ext", "dup", "cast"} -> Reads(r, e.p)
      [] e.t \in {"o", "cat", "call"} -> UNION {Reads(r, e.a[j]) : j \in 1..Len(e.a)}
Overlap(a, b) == a.i = b.i /\ a.lo < b.lo + b.w /\ b.lo < a.lo + a.w

(* --------------------------------------------------------- assignment sites *)
(* [p (process), path, seg, for (inside a loop), k (kind as written)]          *)
RECURSIVE Sites(_, _, _, _, _)
Sites(r, p, ts, path, for) ==
    UNION {LET t == ts[j]  pp == Append(path, j)
           IN CASE t.t = "as" -> {[p |-> p, path |-> pp, seg |-> s, for |-> for, k |-> t.k] : s \in Segs(r, t.l)}
                [] t.t = "if" -> Sites(r, p, t.th, Append(pp, 1), for) \cup Sites(r, p, t.el, Append(pp, 2), for)
                [] t.t = "sw" -> Sites(r, p, t.d, Append(pp, 0), for) \cup
                                 UNION {Sites(r, p, t.cs[m].b, Append(pp, m), for) : m \in 1..Len(t.cs)}
                [] t.t = "for" -> Sites(r, p, t.b, Append(pp, 1), TRUE)
                [] t.t = "scope" -> Sites(r, p, t.b, Append(pp, 1), for)
                [] OTHER -> {}
           : j \in 1..Len(ts)}
AllSites == [d \in 1..Len(Raw) |-> UNION {Sites(R(d), p, R(d).procs[p].b, <<>>, FALSE) : p \in 1..Len(R(d).procs)}]

(* Two assignments to a common bit are conflicting drivers unless one process    *)
(* decides which of them takes effect: anything goes within a combinational      *)
(* process; in a clocked one they must be in different blocks of one statement;  *)
(* elements chosen by a variable are assumed to differ within a process.         *)
Dyn(s) == s.seg.dyn \/ s.for
Conflict(d, x, y) ==
    /\ Overlap(x.seg, y.seg)
    /\ \/ x.p # y.p
       \/ /\ ~Dyn(x) /\ ~Dyn(y)
          /\ R(d).procs[x.p].k = "seq"
          /\ \/ Front(x.path) = Front(y.path)
             \/ x.path[1] # y.path[1]
       \/ R(d).procs[x.p].k = "wire"

PKinds(d, p) == {s.k : s \in {x \in AllSites[d] : x.p = p}}
(* the kind of assignment a statement without explicit kind becomes *)
Default(d, p) == LET k == R(d).procs[p].k
                 IN IF k = "seq" \/ (k = "latch" /\ "n" \in PKinds(d, p)) THEN "n" ELSE "b"
Kind(d, s) == IF s.k # "u" THEN s.k ELSE Default(d, s.p)
Wrong(d, s) == R(d).procs[s.p].k \in {"seq", "comb", "latch"} /\ Kind(d, s) # Default(d, s.p)

(* ------------------------------------------------------- paths through a process *)
Body == [d \in 1..Len(Raw) |-> [p \in 1..Len(R(d).procs) |->
            IF R(d).procs[p].k = "comb" THEN KSs(R(d), R(d).procs[p].b, NoEnv) ELSE <<>>]]
SegBits(g) == {<<g.i, b>> : b \in (g.lo)..(g.lo + g.w - 1)}
PreBits(g) == {<<g.i, b>> : b \in (g.pre[1])..(g.pre[1] + g.pre[2] - 1)}
RECURSIVE Touched(_)
Touched(ts) ==
    UNION {LET t == ts[j]
           IN CASE t.k = "a" -> UNION {LET g == t.l.g[m] IN IF g.dy = <<>> THEN SegBits(g) ELSE PreBits(g) : m \in 1..Len(t.l.g)}
                [] t.k = "if" -> Touched(t.t) \cup Touched(t.e)
                [] t.k = "sw" -> Touched(t.d) \cup UNION {Touched(t.cs[m].b) : m \in 1..Len(t.cs)}
                [] t.k = "blk" -> Touched(t.b)
                [] OTHER -> {}
           : j \in 1..Len(ts)}
(* an assignment certainly assigns the bits it selects statically; if a variable  *)
(* selects, it assigns none of them for certain                                   *)
Sure(t) == UNION {LET g == t.l.g[m] IN IF g.dy = <<>> THEN SegBits(g) ELSE {} : m \in 1..Len(t.l.g)}
CaseVals(t) == UNION {{t.cs[m].v[n].v : n \in 1..Len(t.cs[m].v)} : m \in 1..Len(t.cs)}
AllCases(t) == IF t.en # <<>> THEN {t.en[j] : j \in 1..Len(t.en)} \subseteq CaseVals(t)
               ELSE t.c.w < 20 /\ Cardinality(CaseVals(t)) = 2^(t.c.w)

RECURSIVE Ifs(_)
Ifs(ts) == UNION {LET t == ts[j]
                  IN CASE t.t = "if" -> {t} \cup Ifs(t.th) \cup Ifs(t.el)
                       [] t.t = "sw" -> Ifs(t.d) \cup UNION {Ifs(t.cs[m].b) : m \in 1..Len(t.cs)}
                       [] t.t \in {"for", "scope"} -> Ifs(t.b)
                       [] OTHER -> {}
                  : j \in 1..Len(ts)}
Assigned(r, ts) == {s.seg.i : s \in Sites(r, 1, ts, <<>>, FALSE)}

(* ---------------------------------------------------------------- exploration *)
VARIABLES d, w
vars == <<d, w>>
Init == d \in 1..Len(Raw) /\ w = [k |-> "design"]
Pick(x) == w.k = "design" /\ w' = x /\ UNCHANGED d
Pairs == \E x, y \in AllSites[d] : x # y /\ x.seg.i = y.seg.i /\ Pick([k |-> "pair", x |-> x, y |-> y])
OneSite == \E x \in AllSites[d] : Pick([k |-> "site", x |-> x])
Wire == \E p \in 1..Len(R(d).procs) : R(d).procs[p].k = "wire" /\ Pick([k |-> "wire", p |-> p])
Clocked1 == \E p \in 1..Len(R(d).procs) : R(d).procs[p].k = "seq" /\ Pick([k |-> "seq", p |-> p])
ResetIf == \E p \in 1..Len(R(d).procs) : \E x \in Ifs(R(d).procs[p].b) :
               R(d).procs[p].k = "seq" /\ Pick([k |-> "rif", p |-> p, x |-> x])
PortBit == \E j \in 1..Len(Raw[d].ports) : \E b \in 0..(VW[d][Raw[d].ports[j].i] - 1) :
               Raw[d].ports[j].chk /\ Pick([k |-> "port", i |-> Raw[d].ports[j].i, b |-> b])
Enter == \E p \in 1..Len(R(d).procs) : R(d).procs[p].k = "comb" /\ Pick([k |-> "path", p |-> p, st |-> Body[d][p], as |-> {}])
(* execute one statement; conditions may go either way *)
Go(b) == w' = [w EXCEPT !.st = b \o Tail(w.st)] /\ UNCHANGED d
Step == /\ w.k = "path" /\ w.st # <<>>
        /\ LET t == w.st[1]
           IN CASE t.k = "a"   -> w' = [w EXCEPT !.st = Tail(@), !.as = @ \cup Sure(t)] /\ UNCHANGED d
                [] t.k = "if"  -> Go(t.t) \/ Go(t.e)
                [] t.k = "sw"  -> \/ \E m \in 1..Len(t.cs) : Go(t.cs[m].b)
                                  \/ ~(t.d = <<>> /\ AllCases(t)) /\ Go(t.d)
                [] t.k = "blk" -> Go(t.b)
                [] OTHER       -> Go(<<>>)
Next == Pairs \/ OneSite \/ Wire \/ Clocked1 \/ ResetIf \/ PortBit \/ Enter \/ Step
Spec == Init /\ [][Next]_vars

Kinds == {"multi", "mixed", "kind", "loop", "latch", "reset", "ff", "float"}
Witness(k) ==
    CASE k = "multi" -> w.k = "pair" /\ Conflict(d, w.x, w.y)
      [] k = "mixed" -> w.k = "pair" /\ Kind(d, w.x) # Kind(d, w.y)
      [] k = "kind"  -> w.k = "site" /\ Wrong(d, w.x)
      [] k = "loop"  -> w.k = "wire" /\ LET t == R(d).procs[w.p].b[1]
                                        IN \E x \in Segs(R(d), t.l) : \E y \in Reads(R(d), t.r) : Overlap(x, y)
      [] k = "latch" -> w.k = "path" /\ w.st = <<>> /\ ~(Touched(Body[d][w.p]) \subseteq w.as)
      [] k = "reset" -> w.k = "rif" /\ {x.i : x \in Reads(R(d), w.x.c)} \cap ToSet(R(d).procs[w.p].rst) # {}
                                    /\ ~(Assigned(R(d), w.x.th) \subseteq Assigned(R(d), w.x.el))
      [] k = "ff"    -> w.k = "seq" /\ R(d).procs[w.p].n > 1 /\ \E j \in 1..Len(R(d).procs[w.p].b) : R(d).procs[w.p].b[j].t = "if"
      [] k = "float" -> w.k = "port" /\ ~\E x \in AllSites[d] : x.seg.i = w.i /\ x.seg.lo <= w.b /\ w.b < x.seg.lo + x.seg.w
Report == \A k \in Kinds : Witness(k) => PrintT(<<"WITNESS", Raw[d].id, k>>)
================================================================================
