--------------------------------- MODULE KParam ---------------------------------
(* Parameters, what is linked to them, and clones.                              *)
(*                                                                              *)
(* A generator has parameters with a value, and variables whose width and       *)
(* dimensions are numbers or follow an expression over parameters.  A parameter *)
(* may take its value from another one.  Every recorded call of the API is a    *)
(* transition: it is accepted or rejected as the rules say (a rejected call     *)
(* changes nothing), and afterwards every width, dimension and value observed   *)
(* is the one the current values imply.  A clone has the parameters and ports   *)
(* of its origin at that time and a life of its own from then on.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils
Raw == JsonDeserialize(IOEnv.KV_IN)
VARIABLES d,     \* which history
          n,     \* calls done
          ok,    \* the last call was to be accepted
          par,   \* parameter -> [g, v, w, sg, up]   (up: the parameter its value comes from, "" if none)
          var    \* variable  -> [g, w, size, wl, sl, port, rest, used]
vars == <<d, n, ok, par, var>>
None == [k |-> "none"]
RECURSIVE Val(_, _)
Val(e, p) == CASE e.k = "c" -> e.v
               [] e.k = "p" -> p[e.n].v
               [] e.k = "+" -> Val(e.a, p) + Val(e.b, p)
               [] e.k = "*" -> Val(e.a, p) * Val(e.b, p)
RECURSIVE Over(_)
Over(e) == CASE e.k = "c" -> {} [] e.k = "p" -> {e.n} [] e.k = "none" -> {} [] OTHER -> Over(e.a) \cup Over(e.b)
RECURSIVE Move(_, _)
Move(e, to) == CASE e.k = "p" -> [e EXCEPT !.n = to[e.n]]
                 [] e.k \in {"c", "none"} -> e
                 [] OTHER -> [e EXCEPT !.a = Move(e.a, to), !.b = Move(e.b, to)]
Fits(v, w, sg) == IF sg THEN -(2 ^ (w - 1)) <= v /\ v < 2 ^ (w - 1) ELSE 0 <= v /\ v < 2 ^ w
(* all parameters whose value comes from k, directly or not, and k itself *)
RECURSIVE Below(_, _)
Below(ks, p) == LET more == ks \cup {q \in DOMAIN p : p[q].up \in ks}
                IN IF more = ks THEN ks ELSE Below(more, p)
(* everything linked follows *)
Follow(p, v) == [x \in DOMAIN v |->
    [v[x] EXCEPT !.w = IF v[x].wl = None THEN @ ELSE Val(v[x].wl, p),
                 !.size = [i \in 1..Len(@) |-> IF v[x].sl[i] = None THEN @[i] ELSE Val(v[x].sl[i], p)]]]
Possible(v) == \A x \in DOMAIN v : v[x].w > 0 /\ (\A i \in 1..Len(v[x].size) : v[x].size[i] > 0) /\ v[x].size[1] > v[x].used
Set(p, k, x) == [q \in DOMAIN p |-> IF q \in Below({k}, p) THEN [p[q] EXCEPT !.v = x] ELSE p[q]]
Ev == Raw[d].ev[n + 1]
(* the outcome of a call: [ok, p, v] *)
No == [ok |-> FALSE, p |-> par, v |-> var]
Try(p, v) == IF Possible(Follow(p, v)) THEN [ok |-> TRUE, p |-> p, v |-> Follow(p, v)] ELSE No
Assign(k, x) == LET ps == Set(par, k, x)
                IN IF \A q \in Below({k}, par) : Fits(x, par[q].w, par[q].sg) THEN ps ELSE <<>>
Outcome(e) ==
    CASE e.o = "param" -> [ok |-> TRUE, v |-> var, p |-> (e.k :> [g |-> e.g, v |-> e.v, w |-> e.w, sg |-> e.sg, up |-> ""]) @@ par]
      [] e.o = "decl"  -> [ok |-> TRUE, p |-> par,
                           v |-> (e.k :> [g |-> e.g, w |-> e.w, size |-> e.size, wl |-> None, sl |-> [i \in 1..Len(e.size) |-> None],
                                          port |-> e.port, rest |-> e.rest, used |-> -1]) @@ var]
      [] e.o = "set"   -> LET ps == Assign(e.k, e.v)
                          IN IF ps = <<>> THEN No ELSE Try([ps EXCEPT ![e.k].up = ""], var)
      [] e.o = "link"  -> IF e.to \in Below({e.k}, par) THEN No
                          ELSE LET ps == Assign(e.k, par[e.to].v)
                               IN IF ps = <<>> THEN No ELSE Try([ps EXCEPT ![e.k].up = e.to], var)
      [] e.o = "wlink" -> Try(par, [var EXCEPT ![e.k].wl = e.e])
      [] e.o = "wcut"  -> Try(par, [var EXCEPT ![e.k].wl = None])
      [] e.o = "slink" -> IF e.i >= Len(var[e.k].size) THEN No ELSE Try(par, [var EXCEPT ![e.k].sl[e.i + 1] = e.e])
      [] e.o = "scut"  -> IF e.i >= Len(var[e.k].size) THEN No ELSE Try(par, [var EXCEPT ![e.k].sl[e.i + 1] = None])
      [] e.o = "use"   -> IF e.i >= var[e.k].size[1] THEN No
                          ELSE [ok |-> TRUE, p |-> par, v |-> [var EXCEPT ![e.k].used = IF e.i > @ THEN e.i ELSE @]]
      [] e.o = "clone" -> LET to == [q \in DOMAIN par |-> IF par[q].g = e.from THEN e.ren[q] ELSE q]
                              np == [q \in {e.ren[q0] : q0 \in {q1 \in DOMAIN par : par[q1].g = e.from}} |->
                                        LET q0 == CHOOSE q0 \in DOMAIN par : par[q0].g = e.from /\ e.ren[q0] = q
                                        IN [par[q0] EXCEPT !.g = e.g, !.up = ""]]
                              nv == [x \in {e.ren[x0] : x0 \in {x1 \in DOMAIN var : var[x1].g = e.from /\ var[x1].port}} |->
                                        LET x0 == CHOOSE x0 \in DOMAIN var : var[x0].g = e.from /\ e.ren[x0] = x
                                        IN [var[x0] EXCEPT !.g = e.g, !.wl = Move(@, to), !.used = -1, !.sl = [i \in 1..Len(@) |-> Move(@[i], to)]]]
                          IN [ok |-> TRUE, p |-> np @@ par, v |-> nv @@ var]
Init == d \in 1..Len(Raw) /\ n = 0 /\ ok = TRUE /\ par = <<>> /\ var = <<>>
Call == /\ n < Len(Raw[d].ev)
        /\ LET r == Outcome(Ev) IN par' = r.p /\ var' = r.v /\ ok' = r.ok
        /\ n' = n + 1 /\ d' = d
Spec == Init /\ [][Call]_vars
(* what was observed after the last call *)
SetOf(q) == {q[j] : j \in 1..Len(q)}
WantPar == {[k |-> k, v |-> par[k].v, w |-> par[k].w, sg |-> par[k].sg] : k \in DOMAIN par}
WantVar == {[k |-> k, w |-> var[k].w, size |-> var[k].size, rest |-> var[k].rest] : k \in DOMAIN var}
Check ==
    IF n = 0 THEN TRUE
    ELSE LET e  == Raw[d].ev[n]
             xp == (SetOf(e.par) \ WantPar) \cup (WantPar \ SetOf(e.par))
             xv == (SetOf(e.var) \ WantVar) \cup (WantVar \ SetOf(e.var))
         IN IF e.acc = ok /\ xp = {} /\ xv = {} THEN TRUE
            ELSE PrintT(<<"MISMATCH", Raw[d].id, ToJson([call |-> n, o |-> e.o, accepted |-> e.acc, should |-> ok, params |-> SetToSeq(xp), vars |-> SetToSeq(xv)])>>) /\ FALSE
=================================================================================
