------------------------------- MODULE KBooks --------------------------------
(* Statements and the books the variables keep about them.                    *)
(*                                                                            *)
(* The design is a forest of statements: containers (a generator's body, a    *)
(* block, a branch, a case) hold sequences of statement ids, and every        *)
(* statement has a target root l and the set r of the variables it reads (the *)
(* condition, for a branch).  A history of calls changes the forest as        *)
(* Apply says; a call that fails changes nothing.  After every call           *)
(*   - the statements found in the real design are exactly Form(state), and   *)
(*   - for every variable, the recorded drivers are exactly the assignments   *)
(*     in the design with that target, and the recorded loads exactly those   *)
(*     that read it (Books).                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Raw == JsonDeserialize(IOEnv.KV_IN)

VARIABLES t, n, cont, nd
vars == <<t, n, cont, nd>>
Ops == Raw[t].ops
Key(x) == <<x[1], x[2]>>
At(c, k) == IF k \in DOMAIN c THEN c[k] ELSE <<>>
Put(c, k, v) == (k :> v) @@ c
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
KeysOf(c, s) == {k \in DOMAIN c : k[1] = s}
RECURSIVE Below(_, _)
Below(c, s) == {s} \cup UNION {UNION {Below(c, c[k][i]) : i \in 1..Len(c[k])} : k \in KeysOf(c, s)}
Present(c) == UNION {UNION {Below(c, c[k][i]) : i \in 1..Len(c[k])} : k \in {k \in DOMAIN c : k[2] = "top"}}
InCont(c, s) == CHOOSE k \in DOMAIN c : \E i \in 1..Len(c[k]) : c[k][i] = s

(* ---------------------------------------------------------------- the calls *)
Del(c, s) == LET dead == Below(c, s)
             IN [k \in DOMAIN c |-> IF k[1] \in dead THEN <<>> ELSE Without(c[k], s)]
RECURSIVE CopyC(_, _, _, _)
CopyC(c, keys, new, of) ==         \* containers below a cloned statement
    IF keys = {} THEN c
    ELSE LET k == CHOOSE k \in keys : TRUE
             nn(x) == IF x = of THEN new ELSE new \o "." \o x
         IN CopyC(Put(c, <<nn(k[1]), k[2]>>, [i \in 1..Len(c[k]) |-> nn(c[k][i])]), keys \ {k}, new, of)
Touch(m, c, P(_), F(_)) == [s \in DOMAIN m |-> IF s \in Present(c) /\ P(m[s]) THEN F(m[s]) ELSE m[s]]
Node(o) == [k |-> o.k, h |-> o.h, l |-> o.l, r |-> ToSet(o.r)]

Apply(o, c, m) ==
    CASE o.o = "add"   -> <<Put(c, Key(o.to), Append(At(c, Key(o.to)), o.s)), (o.s :> Node(o)) @@ m>>
      [] o.o = "radd"  -> <<Put(c, Key(o.to), Append(At(c, Key(o.to)), o.s)), m>>
      [] o.o = "del"   -> <<Del(c, o.s), m>>
      [] o.o = "cond"  -> <<c, [m EXCEPT ![o.s].r = ToSet(o.r)]>>
      [] o.o = "clone" -> <<Put(CopyC(c, {k \in DOMAIN c : k[1] \in Below(c, o.of)}, o.s, o.of), Key(o.to), Append(At(c, Key(o.to)), o.s)),
                            [x \in {IF y = o.of THEN o.s ELSE o.s \o "." \o y : y \in Below(c, o.of)} |->
                                LET y == CHOOSE y \in Below(c, o.of) : x = (IF y = o.of THEN o.s ELSE o.s \o "." \o y)
                                IN [m[y] EXCEPT !.h = IF y = o.of THEN o.s ELSE ""]] @@ m>>
      [] o.o = "msrc"  -> LET m1 == Touch(m, c, LAMBDA x : x.k = "as" /\ x.l = o.a, LAMBDA x : [x EXCEPT !.l = o.b])
                          IN IF o.keep THEN <<Put(c, <<"", "top">>, Append(At(c, <<"", "top">>), o.s)),
                                              (o.s :> [k |-> "as", h |-> "", l |-> o.a, r |-> {o.b}]) @@ m1>>
                             ELSE <<c, m1>>
      [] o.o = "msnk"  -> LET m1 == Touch(m, c, LAMBDA x : o.a \in x.r, LAMBDA x : [x EXCEPT !.r = (@ \ {o.a}) \cup {o.b}])
                          IN IF o.keep THEN <<Put(c, <<"", "top">>, Append(At(c, <<"", "top">>), o.s)),
                                              (o.s :> [k |-> "as", h |-> "", l |-> o.b, r |-> {o.a}]) @@ m1>>
                             ELSE <<c, m1>>
      [] o.o = "rmch"  -> LET P == ToSet(o.p)
                              dead == {s \in Present(c) : m[s].k = "as" /\ (m[s].l \in P \/ m[s].r \cap P # {}) /\ InCont(c, s)[1] # o.inst}
                          IN <<[k \in DOMAIN c |-> IF k = <<o.inst, "top">> THEN <<>> ELSE SelectSeq(c[k], LAMBDA x : x \notin dead)], m>>
      [] o.o = "nop"   -> <<c, m>>

(* ------------------------------------------------- what must be in the design *)
CaseKeys == <<"0", "1", "2", "3", "default">>
RECURSIVE Form(_, _, _)
Form(c, m, k) == [i \in 1..Len(At(c, k)) |->
    LET s == c[k][i]
        x == m[s]
        B(b) == Form(c, m, <<s, b>>)
    IN CASE x.k = "as" -> [k |-> "as", h |-> x.h, l |-> x.l, r |-> x.r]
         [] x.k = "if" -> [k |-> "if", h |-> x.h, l |-> "", r |-> x.r, b |-> <<B("t"), B("e")>>]
         [] x.k = "sw" -> [k |-> "sw", h |-> x.h, l |-> "", r |-> x.r, b |-> [j \in 1..Len(CaseKeys) |-> B(CaseKeys[j])]]
         [] OTHER -> [k |-> x.k, h |-> x.h, l |-> "", r |-> {}, b |-> <<B("b")>>]]
RECURSIVE Norm(_)
Norm(f) == [i \in 1..Len(f) |-> IF f[i].k = "as" THEN [k |-> "as", h |-> f[i].h, l |-> f[i].l, r |-> ToSet(f[i].r)]
                                ELSE [k |-> f[i].k, h |-> f[i].h, l |-> "", r |-> ToSet(f[i].r), b |-> [j \in 1..Len(f[i].b) |-> Norm(f[i].b[j])]]]

(* ------------------------------------- the books that follow from a design d: *)
(* d.as = <<[id, l, r]>> its assignments (ids are identities of the objects),  *)
(* d.cond = <<r>> the conditions.  bk = <<[v, src, snk, nc]>>                  *)
Same(q, S) == Len(q) = Cardinality(S) /\ ToSet(q) = S
BookOk(b, d) ==
    /\ Same(b.src, {d.as[j].id : j \in {j \in 1..Len(d.as) : d.as[j].l = b.v}})
    /\ Same(b.snk, {d.as[j].id : j \in {j \in 1..Len(d.as) : \E i \in 1..Len(d.as[j].r) : d.as[j].r[i] = b.v}})
    /\ b.nc = Cardinality({j \in 1..Len(d.cond) : \E i \in 1..Len(d.cond[j]) : d.cond[j][i] = b.v})

Say(what, j, x, y) == PrintT(<<"MISMATCH", Raw[t].id, ToJson([step |-> j, what |-> what, spec |-> x, seen |-> y])>>)
Init == t \in 1..Len(Raw) /\ n = 0 /\ cont = <<>> /\ nd = <<>>
Step ==
    /\ n < Len(Ops)
    /\ UNCHANGED t
    /\ LET o == Ops[n + 1]
           X == IF o.ok THEN Apply(o, cont, nd) ELSE <<cont, nd>>
           bad == {j \in 1..Len(o.books) : ~BookOk(o.books[j], o.d)}
           wrong == {j \in 1..Len(o.form) : Form(X[1], X[2], Key(o.form[j].k)) # Norm(o.form[j].f)}
       IN /\ cont' = X[1] /\ nd' = X[2]
          /\ IF o.ok # o.legal THEN Say("verdict", n + 1, o.legal, o.ok) /\ n' = Len(Ops) + 1
             ELSE IF o.seen /\ bad # {} THEN Say("books", n + 1, "", {o.books[j].v : j \in bad}) /\ n' = Len(Ops) + 1
             ELSE IF o.seen /\ wrong # {} THEN Say("design", n + 1, {Form(X[1], X[2], Key(o.form[j].k)) : j \in wrong}, {o.form[j] : j \in wrong}) /\ n' = Len(Ops) + 1
             ELSE n' = n + 1
Spec == Init /\ [][Step]_vars
================================================================================
