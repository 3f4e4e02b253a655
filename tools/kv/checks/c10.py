"""C10: realized state machines walk and drive what their diagrams say."""
import json
import random

from .. import eq, flat, pairs, sv

import os
NQ = int(os.environ.get("NQ", "34"))
PIPE = ["realize_fsm", "remove_pass_through_modules", "merge_if_block", "transform_if_to_case", "?dead_code_elimination", "zero_out_stubs",
        "remove_fanout_one_wires", "zero_generator_inputs", "merge_const_port_assignment", "decouple_generator_ports", "fix_assignment_type",
        "remove_unused_vars", "remove_unused_stmts", "?merge_wire_assignments", "?sort_stmts"]
SHORT = ["realize_fsm", "decouple_generator_ports", "fix_assignment_type"]
TAIL = ["verify_assignments", "create_module_instantiation"]


class Fsm:
    """one root state machine with the machines nested in it"""

    def __init__(self, D, name, r):
        self.D, self.name, self.r = D, name, r
        self.moore = r.random() < 0.65
        self.fs = [(name, None)]            # (machine, parent)
        if r.random() < 0.45:
            kids = r.choice([1, 1, 2, 3])
            for k in range(kids):
                self.fs.append(("%s%s" % (name, "_xyz"[k + 1] if r.random() < 0.5 else "k%d" % k), r.choice([f for f, _ in self.fs])))
        self.outs = [("%so%d" % (name, k), r.choice([1, 2, 3])) for k in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]
        self.states = []                    # (machine, state)
        for f, p in self.fs:
            names = r.sample([("" if name == "F" else "g") + n for n in ("A", "B", "C", "D", "E", "S0", "idle", "y_A", "x_B")], r.choice([1, 2, 3, 3, 4, 5]) if p is None else r.choice([1, 1, 2, 3]))
            self.states += [(f, n) for n in names]
        self.start = r.choice([s for s in self.states if s[0] == name])

    def script(self):
        r, D = self.r, self.D
        sub = {f: list(self.outs) for f, _ in self.fs}
        if self.moore and len(self.outs) > 1:        # a nested machine may leave outputs alone: they keep their value
            for f, p in self.fs:
                if p and r.random() < 0.3:
                    sub[f].remove(r.choice(sub[f]))
        c = []
        how = D.fsm_args
        for f, p in self.fs:
            c.append("(fsm %s%s)" % (f, how))
        for o, w in self.outs:
            D.decl.append("(port out %s %d)" % (o, w))
        dflt = {}
        for f, _ in self.fs:
            for o, w in sub[f]:
                if r.random() < 0.35:
                    e = D.value(w)
                    dflt[f, o] = e
                    c.append("(fsmout %s %s %s)" % (f, o, e[0]))
                else:
                    c.append("(fsmout %s %s)" % (f, o))
        c += ["(state %s %s)" % s for s in self.states]
        c += ["(childfsm %s %s)" % (p, f) for f, p in self.fs if p]
        body = []
        self.tr, self.val = {}, {}
        for s in self.states:
            tr = []
            for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
                tr.append((D.guard(), r.choice(self.states)))
            k = r.random()
            if k < 0.3:
                tr.append((None, r.choice(self.states)))
            elif k < 0.45:
                tr = [(None, r.choice(self.states))]
            self.tr[s] = tr
            for g, t in tr:
                body.append(("t", s, "(next %s %s %s %s%s)" % (s[0], s[1], t[0], t[1], "" if g is None else " " + g[0])))
            self.val[s] = {}
            for o, w in sub[s[0]]:
                if (s[0], o) in dflt and r.random() < 0.6:
                    self.val[s][o] = dflt[s[0], o]
                    continue
                e = D.value(w)
                if self.moore and r.random() < 0.08:
                    body.append(("o", s, "(sout %s %s %s %s)" % (s[0], s[1], o, o)))      # keeps its value
                    continue
                self.val[s][o] = e
                body.append(("o", s, "(sout %s %s %s %s)" % (s[0], s[1], o, e[2] if e[2] is not None and r.random() < 0.6 else e[0])))
        # any order of calls, except that the transitions of one state keep theirs
        keys = [r.random() for _ in body]
        for s in self.states:
            ix = [i for i, b in enumerate(body) if b[0] == "t" and b[1] == s]
            for i, k in zip(ix, sorted(keys[i] for i in ix)):
                keys[i] = k
        body = [b[2] for _, b in sorted(zip(keys, body), key=lambda x: x[0])]
        body.insert(r.randint(0, len(body)), "(fsmstart %s %s)" % self.start)
        if not self.moore:
            body.insert(r.randint(0, len(body)), "(moore %s 0)" % self.name)
        if D.fsm_low:
            body.insert(r.randint(0, len(body)), "(resethigh %s 0)" % self.name)
        return c + body

    def model(self, ix):
        n = {s: k + 1 for k, s in enumerate(self.states)}
        return {"moore": self.moore, "start": n[self.start], "outs": [ix[o] for o, _ in self.outs],
                "st": [{"tr": [{"g": 0 if g is None else ix[g[1]], "t": n[t]} for g, t in self.tr[s]],
                        "v": [ix[self.val[s][o][1]] if o in self.val[s] else 0 for o, _ in self.outs]} for s in self.states]}


class Case:
    def __init__(self, r, cid):
        self.r, self.id = r, cid
        self.decl = ["(port in clk 1 clk)", "(port in rst 1 arst)"]
        self.ins = [("i1", 1), ("i2", 2)] + ([("j1", 1)] if r.random() < 0.5 else [])
        self.decl += ["(port in %s %d)" % x for x in self.ins]
        k = r.random()
        self.low = k < 0.4
        self.fsm_low = k < 0.25
        self.fsm_args = r.choice(["", "", " clk rst"])
        if self.low == self.fsm_low and r.random() < 0.12:        # a reset that is not a port
            self.decl += ["(var irst 1)", "(add (= irst rst))", "(let ir (cast irst arst))"]
            self.fsm_args = " clk ir"
        elif self.low and (not self.fsm_low or r.random() < 0.3):
            self.decl.append("(activehigh rst 0)")
        elif not self.low and r.random() < 0.3:
            self.decl.append("(activehigh rst 1)")
        self.mon = {}
        self.body = []
        self.rd = list(self.ins)
        if r.random() < 0.25:       # a counter the guards may read
            self.decl.append("(var cnt 2)")
            self.rd.append(("cnt", 2))
            e = "rst" if not self.low else "(~ rst)"
            self.body.append("(add (seq ((pos clk) (%s rst)) (if %s ((=n cnt (c 0 2))) ((=n cnt (+ cnt (c 1 2)))))))" % ("neg" if self.low else "pos", e))
        self.fsms = [Fsm(self, n, r) for n in (["F"] if r.random() < 0.8 else ["F", "G"])]
        self.fs = [c for f in self.fsms for c in f.script()]
        mon = []
        for e, n in self.mon.items():
            mon += ["(port out %s %d)" % (n[0], n[1]), "(add (= %s %s))" % (n[0], e)]
        self.mode = r.choice(["short", "pipe", "pipe"])
        passes = SHORT if self.mode == "short" else [p.strip("?") for p in PIPE if p[0] != "?" or r.random() < 0.5]
        self.cmds = ["(strict)", "(gen top top)"] + self.decl + self.body + mon + self.fs
        if r.random() < 0.2:
            self.cmds += ["(fsmrealize F)"]
        self.cmds += ["(pass %s top)" % p for p in passes]
        self.cmds += ["(dump top a)"] + ["(pass %s top)" % p for p in TAIL] + ["(sv top s)"]

    def monitor(self, e, w):
        if e not in self.mon:
            self.mon[e] = ("mon%d" % len(self.mon), w)
        return self.mon[e][0]

    def guard(self):
        r = self.r
        v, w = r.choice(self.rd)
        k = r.random()
        if w == 1:
            e = v if k < 0.5 else "(! %s)" % v if k < 0.7 else "(&& %s (== i2 (c %d 2)))" % (v, r.randint(0, 3))
        else:
            e = "(== %s (c %d %d))" % (v, r.randint(0, 3), w) if k < 0.7 else "(%s %s (c %d %d))" % (r.choice([">", "<", "!=", ">="]), v, r.randint(0, 3), w)
        if e in ("i1", "j1"):       # the same object twice is rejected: select a fresh one
            e = "(|| %s %s)" % (e, e) if r.random() < 0.5 else "(== %s (c 1 1))" % e
        return (e, self.monitor(e, 1))

    def value(self, w):
        r = self.r
        if r.random() < 0.7:
            n = r.randint(0, (1 << w) - 1)
            e = "(c %d %d)" % (n, w)
            return (e, self.monitor(e, w), str(n))
        c = [v for v, x in self.ins if x == w]
        if c and r.random() < 0.5:
            v = r.choice(c)
            return (v, self.monitor(v, w), None)
        e = "(ext i1 %d)" % w if w > 1 else "(~ i1)"
        if w == 2 and r.random() < 0.5:
            e = "(+ i2 (c 1 2))"
        return (e, self.monitor(e, w), None)

    def item(self, fl, kind, dom, vec):
        ix = fl.ix
        conv = lambda v, w: v if dom == "wint" else flat.bits(v, w)
        return {"id": self.id + kind, "b": flat.shape_consts(fl.design(), dom), "clk": ix["clk"], "rst": ix["rst"], "high": not self.low,
                "ins": [ix[n] for n, _ in self.ins], "vec": [[conv(x, w) for x, (_, w) in zip(v, self.ins)] for v in vec],
                "m": [f.model(ix) for f in self.fsms]}


def vectors(ins):
    vs = [[]]
    for _, w in ins:
        vs = [v + [x] for v in vs for x in range(1 << w)]
    return vs


def check(E):
    for rnd in range(1 if not E.thorough else 20):
        if rnd and E.elapsed() > 600:
            break
        run(E, rnd, NQ if not E.thorough else 300)
    reject(E)
    E.assumptions += ["guards and values are expressions over small inputs and a counter; all input vectors, histories and resets are explored",
                      "in Mealy style outputs keep their value while no transition is taken (documented golden behaviour)",
                      "every state has at least one transition (others are rejected by the builder)"]


def run(E, rnd, n):
    cs = {}
    for i in range(n):
        cid = "f%d_%d" % (rnd, i)
        cs[cid] = Case(random.Random("c10-%d-%d-%d" % (E.seed, rnd, i)), cid)
    res = E.drive([(c, x.cmds) for c, x in cs.items()])
    items = []
    st = E.cov.setdefault("diagrams", {"moore": 0, "mealy": 0, "nested": 0, "states": 0, "low_reset": 0})
    for c, x in cs.items():
        err = eq.first_error(res[c])
        if err:
            E.violation("rejected", "%s: a legal state machine is rejected: %s" % (c, eq.err_text(err, x.cmds)), x.cmds)
            continue
        d = [e for e in res[c] if e["ev"] == "dump"][0]
        s = [e for e in res[c] if e["ev"] == "sv"][0]
        vec = vectors(x.ins)
        vec = x.r.sample(vec, min(len(vec), 5 if not E.thorough else 16))
        try:
            items.append(x.item(pairs.from_dump(d), "k", "wint", vec))
        except (flat.FlatError, KeyError) as ex:
            E.violation("flat", "%s: design not closed: %r" % (c, ex), x.cmds)
        try:
            items.append(x.item(pairs.sv_flat(s), "s", "wint", vec))
        except (sv.SvError, KeyError, IndexError, ValueError) as ex:
            E.violation("sv", "%s: generated SystemVerilog is not legal: %r" % (c, ex), x.cmds)
        for f in x.fsms:
            st["moore" if f.moore else "mealy"] += 1
            st["nested"] += len(f.fs) > 1
            st["states"] += len(f.states)
        st["low_reset"] += x.low
    bad = {}
    for t in E.tlc("KFsm", items):
        if t[0] == "MISMATCH":
            bad.setdefault(t[1], t[2])
    byid = {i["id"]: i for i in items}
    for k, what in bad.items():
        if any(t[0] == "MISMATCH" for t in E.tlc("KFsm", [byid[k]])):
            E.violation("fsm", "%s: %s" % (k, what), {"script": cs[k[:-1]].cmds, "what": what})
    E.traces += len(items)
    if rnd == 0:
        E.samples += [{"case": c, "script": x.cmds} for c, x in list(cs.items())[:3]]


BASE = ["(gen top top)", "(port in clk 1 clk)", "(port in rst 1 arst)", "(port in i 1)", "(port out o 2)", "(port out q 2)", "(fsm F)", "(fsm G)",
        "(state F A)", "(state F B)", "(state G A)"]
ILLEGAL = [
    (["(fsmout F o)", "(next F A F B i)", "(next F B F A)", "(sout F A o 1)", "(fsmstart F A)", "(fsmrealize F)"], "an output without value and default"),
    (["(fsmout F o)", "(next F A F B i)", "(next F B F A)", "(sout F A o 1)", "(sout F B o 1)", "(sout F B q 1)", "(fsmstart F A)", "(fsmrealize F)"], "a value for an undeclared output"),
    (["(fsmout F o)", "(next F A F B i)", "(next F B F A)", "(sout F A o 1)", "(sout F B o 1)", "(fsmrealize F)"], "no start state"),
    (["(fsmout F o)", "(next F A G A i)"], "a transition into an unrelated machine"),
    (["(next F A F B)", "(next F A F B i)"], "a transition after the unconditional one"),
    (["(next F A F B)", "(next F A F A)"], "two unconditional transitions"),
    (["(next F A F B (c 1 2))"], "a condition of two bits"),
    (["(next F A F B i)", "(next F A F A i)"], "the same condition twice"),
    (["(fsmout F o)", "(sout F A o 1)", "(sout F A o 2)"], "two values for an output"),
    (["(state F A)"], "a state name twice"),
    (["(fsm F)"], "a machine name twice"),
    (["(fsmstart F C)"], "an unknown start state"),
]


def reject(E):
    cases = [("r%d" % i, BASE + c) for i, (c, _) in enumerate(ILLEGAL)]
    res = E.drive(cases)
    for (c, cmds), (bad, why) in zip(cases, ILLEGAL):
        err = eq.first_error(res[c])
        if err is None or err["ev"] == "crash" or err["cmd"] != len(cmds):
            E.violation("illegal " + why, "%s is %s" % (why, "accepted" if err is None else "answered by %s" % err), cmds)
