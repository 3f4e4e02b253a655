------------------------------- MODULE KOrder -------------------------------
(* Order: the hierarchy under a history of adding, removing and renaming      *)
(* children, the traversals of it, the pass manager, and the order in which   *)
(* struct definitions are emitted.                                            *)
(*                                                                            *)
(* A history is a list of calls, each with what the code answered.  The state *)
(* is what the calls before imply; every answer is compared with it.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)
Set(q) == {q[j] : j \in 1..Len(q)}
NoDup(q) == \A a, b \in 1..Len(q) : a # b => q[a] # q[b]
VARIABLES
  d, i,       \* history, calls made
  kids,       \* generator -> sequence of [n |-> instance name, g |-> generator]
  ext,        \* external generators
  reg, pass,  \* registered passes, passes in order
  r           \* does the last answer differ from the one implied
vars == <<d, i, kids, ext, reg, pass, r>>
H == Raw[d]
Op == H.ops[i + 1]
Gens == 1..H.n
Names(p) == {kids[p][j].n : j \in 1..Len(kids[p])}
Has(p, c) == \E j \in 1..Len(kids[p]) : kids[p][j].g = c
KidSet(p) == {kids[p][j].g : j \in 1..Len(kids[p])}
RECURSIVE Reach(_)
Reach(S) == LET T == S \union UNION {KidSet(p) : p \in S} IN IF T = S THEN S ELSE Reach(T)
Under(top) == Reach({top})
InCount(c, S) == Cardinality({<<p, j>> \in S \X (1..H.n) : j <= Len(kids[p]) /\ kids[p][j].g = c})
(* every generator below top is used once *)
Tree(top) == LET S == Under(top) IN \A c \in S : InCount(c, S) = (IF c = top THEN 0 ELSE 1)
Parent(c, S) == CHOOSE p \in S : c \in KidSet(p)
Pos(q, x) == CHOOSE j \in 1..Len(q) : q[j] = x
Perm(q, S) == Set(q) = S /\ NoDup(q)
DownOrder(q, S) == \A c \in Set(q) : \A k \in KidSet(c) \cap Set(q) : Pos(q, c) < Pos(q, k)
UpOrder(q, S) == \A c \in Set(q) : \A k \in KidSet(c) \cap Set(q) : Pos(q, k) < Pos(q, c)
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)
NStmt(S) == Sum(S, H.ns)
Stmts(o, S) == o.ns = NStmt(S) /\ o.dup = 0
(* what is wrong with an answer: "" when it is right *)
Visit(o) ==
    LET S == Under(o.top) IN
    CASE ~Tree(o.top) -> IF o.k \in {"gen", "root"} \/ o.err THEN "" ELSE "shared generator accepted"
      [] o.err -> "rejected"
      [] o.k = "gen" -> IF Perm(o.log, S) /\ DownOrder(o.log, S) THEN "" ELSE "visit_generator_root"
      [] o.k = "root" -> IF Perm(o.log, S \ ext) /\ DownOrder(o.log, S) /\ Stmts(o, S \ ext) THEN "" ELSE "visit_root"
      [] o.k = "genp" -> IF Perm(o.log, S) /\ UpOrder(o.log, S) THEN "" ELSE "visit_generator_root_p"
      [] o.k = "gentp" -> IF Perm(o.log, S) THEN "" ELSE "visit_generator_root_tp"
      [] o.k = "roottp" -> IF Perm(o.log, S \ ext) /\ Stmts(o, S \ ext) THEN "" ELSE "visit_root_tp"
Graph(o) ==
    LET S == Under(o.top) IN
    IF ~Tree(o.top) THEN (IF o.err THEN "" ELSE "shared generator accepted")
    ELSE IF o.err THEN "rejected"
    ELSE IF ~(Perm(o.sorted, S) /\ UpOrder(o.sorted, S)) THEN "sorted"
    ELSE IF ~Perm(o.nodes, S) THEN "nodes"
    ELSE IF \/ o.levels[1] # <<o.top>>
            \/ UNION {Set(o.levels[k]) : k \in 1..Len(o.levels)} # S
            \/ \E k \in 1..Len(o.levels) : o.levels[k] = <<>> \/ ~NoDup(o.levels[k])
            \/ \E k \in 2..Len(o.levels) : \E c \in Set(o.levels[k]) : Parent(c, S) \notin Set(o.levels[k - 1])
         THEN "levels" ELSE ""
(* members of a struct are defined before it *)
Structs(o) ==
    IF ~NoDup(o.a) THEN "struct emitted twice"
    ELSE IF Set(o.a) # Set(o.want) THEN "structs emitted"
    ELSE IF \E m \in Set(o.mem) : Pos(o.a, m.c) > Pos(o.a, m.s) THEN "struct order" ELSE ""
Answer(o) ==
    CASE o.o = "add" -> IF o.err = (o.n \in Names(o.p)) THEN "" ELSE "add_child_generator"
      [] o.o = "rm" -> IF o.err THEN "remove_child_generator" ELSE ""
      [] o.o = "ren" -> IF o.err = (~Has(o.p, o.c) \/ o.n \in Names(o.p)) THEN "" ELSE "rename_child_generator"
      [] o.o = "visit" -> Visit(o)
      [] o.o = "graph" -> Graph(o)
      [] o.o = "structs" -> Structs(o)
      [] o.o = "reg" -> IF o.err = (o.n \in reg) THEN "" ELSE "register_pass"
      [] o.o = "addp" -> IF o.err = (o.n \notin reg) THEN "" ELSE "add_pass"
      [] o.o = "run" -> IF ~o.err /\ o.log = [j \in 1..Len(pass) |-> <<pass[j], o.top>>] THEN "" ELSE "run_passes"
      [] o.o = "num" -> IF o.v = Len(pass) THEN "" ELSE "num_passes"
      [] o.o = "has" -> IF o.v = (o.n \in reg) THEN "" ELSE "has_pass"
      [] OTHER -> ""
Init == /\ d \in 1..Len(Raw) /\ i = 0 /\ r = ""
        /\ kids = [g \in 1..Raw[d].n |-> <<>>] /\ ext = {} /\ reg = {} /\ pass = <<>>
Next ==
    /\ i < Len(H.ops) /\ r = ""
    /\ LET o == Op IN
       /\ r' = Answer(o)
       /\ kids' = CASE o.o = "add" /\ o.n \notin Names(o.p) -> [kids EXCEPT ![o.p] = Append(@, [n |-> o.n, g |-> o.c])]
                    [] o.o = "rm" -> [kids EXCEPT ![o.p] = SelectSeq(@, LAMBDA e : e.g # o.c)]
                    [] o.o = "ren" /\ Has(o.p, o.c) /\ o.n \notin Names(o.p) -> [kids EXCEPT ![o.p] = [j \in 1..Len(@) |-> IF @[j].g = o.c THEN [@[j] EXCEPT !.n = o.n] ELSE @[j]]]
                    [] OTHER -> kids
       /\ ext' = IF o.o = "ext" THEN ext \union {o.c} ELSE ext
       /\ reg' = IF o.o = "reg" THEN reg \union {o.n} ELSE reg
       /\ pass' = IF o.o = "addp" /\ o.n \in reg THEN Append(pass, o.n) ELSE pass
    /\ i' = i + 1 /\ d' = d
Spec == Init /\ [][Next]_vars
Check == IF r = "" THEN TRUE ELSE PrintT(<<"MISMATCH", H.id, ToJson([at |-> i, what |-> r])>>)
================================================================================
