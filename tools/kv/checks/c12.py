"""C12: the drivers and loads recorded for the variables, after any history."""
import json
import random

from .. import optgen
from . import c02

V4 = ["a", "b", "x", "y", "o", "p", "q", "u"]          # width 4 (a, b inputs, o output)
V1 = ["c", "s", "w", "z"]
MOV = ["p", "q", "u"]                                   # only ever used whole: can be moved
INST = ["c0", "c1", "c2"]


def check(E):
    n, ln = (700, 22) if not E.thorough else (4000, 40)
    for rnd in range(1 if not E.thorough else 8):
        if rnd and E.elapsed() > 600:
            break
        cases = {"h%d_%d" % (rnd, i): History(random.Random("c12-%d-%d-%d" % (E.seed, rnd, i)), [8, 14, ln, 2 * ln][i % 4]) for i in range(n)}
        run(E, {k: (h.cmds, h.ops) for k, h in cases.items()})
        if rnd == 0:
            E.samples += [{"case": k, "script": h.cmds[9:]} for k, h in list(cases.items())[:3]]
    passes(E)
    recorded(E)
    E.assumptions += ["a statement leaves the design by being taken out of the place it is in and cleared, or unwired, or unassigned; one that is only taken out stays registered (known finding)",
                      "variables that are moved as a whole are not sliced"]


PRE = ["(gen c c)", "(port in ci 4)", "(port out co 4)", "(var n 4)", "(add (= n (~ ci)))", "(add (= co n))",
       "(gen top top)", "(port in a 4)", "(port in b 4)", "(port in c 1)", "(port in clk 1 clk)", "(port out o 4)",
       "(var x 4)", "(var y 4)", "(var p 4)", "(var q 4)", "(var u 4)", "(var s 1)", "(var w 1)", "(var z 1)", "(var m 4 (dims 2))"]


class History:
    def __init__(self, r, n):
        self.r = r
        self.cmds = list(PRE)
        self.ops = []
        self.k = 0
        self.cont = {("", "top"): []}      # mirror, to choose from
        self.kind = {}                     # id -> kind
        self.lr = {}
        self.text = {}
        self.out = []                      # cleared statements that can be added again
        self.inst = []
        self.conns = {}
        self.bare = set()
        for _ in range(n):
            getattr(self, r.choices(["add", "delete", "readd", "cond", "clone", "move", "wire", "unwire", "child", "rmchild", "bad", "unassign"],
                                    [30, 10, 6, 5, 5, 5, 6, 4, 4, 2, 5, 3])[0])()

    def new(self):
        self.k += 1
        return "s%d" % self.k

    # ----------------------------------------------------------- expressions
    def e4(self, d=2):
        r = self.r
        t = r.randrange(8 if d else 2)
        if t < 2:
            v = r.choice(V4)
            return v, {v}
        if t == 2:
            e, s = self.e4(d - 1)
            return "(~ %s)" % e, s
        if t in (3, 4):
            (e, s), (f, g) = self.e4(d - 1), self.e4(d - 1)
            return "(%s %s %s)" % (r.choice("+ - & | ^".split()), e, f), s | g
        if t == 5:
            a, b = r.choice("abxyo"), r.choice("abxyo")
            return "(cat (sl %s 1 0) (sl %s 3 2))" % (a, b), {a, b}
        if t == 6:
            (c, g), (e, s), (f, h) = self.e1(), self.e4(d - 1), self.e4(d - 1)
            return "(? %s %s %s)" % (c, e, f), g | s | h
        i = r.choice(V1)
        return ("(vx m %s)" % i, {"m", i}) if r.random() < 0.6 else ("(ext %s 4)" % i, {i})

    def e1(self):
        r = self.r
        t = r.randrange(5)
        if t < 2:
            v = r.choice(V1)
            return v, {v}
        if t == 2:
            v = r.choice("abxyo")
            return "(ix %s %d)" % (v, r.randrange(4)), {v}
        if t == 3:
            (e, s), (f, g) = self.e4(0), self.e4(0)
            return "(%s %s %s)" % (r.choice("== <".split()), e, f), s | g
        v = r.choice(V1)
        return "(~ %s)" % v, {v}

    def asg(self):
        r = self.r
        t = r.randrange(7)
        if t < 3:
            l = r.choice(V4[2:])
            e, s = self.e4()
            return "(= %s %s)" % (l, e), l, s
        if t == 3:
            l, v = r.choice("xyo"), r.choice("abxy")
            return "(= (sl %s %d %d) (sl %s 2 1))" % ((l,) + r.choice([(1, 0), (3, 2), (2, 1)]) + (v,)), l, {v}
        if t == 4:
            l = r.choice("swz")
            e, s = self.e1()
            return "(= %s %s)" % (l, e), l, s
        if t == 5:
            l = r.choice("xyo")
            e, s = self.e1()
            return "(= (ix %s %d) %s)" % (l, r.randrange(4), e), l, s
        e, s = self.e4()
        return "(= (ix m %d) %s)" % (r.randrange(2), e), "m", s

    # ----------------------------------------------------------------- places
    def places(self, top):
        """(key, adder format) of the containers in the design"""
        res = [(("", "top"), "(add %s)")] if top else []

        def rec(key):
            for s in self.cont.get(key, ()):
                k = self.kind[s]
                if s not in self.text:
                    continue
                if k in ("comb", "seq"):
                    res.append(((s, "b"), "(addto %s %%s)" % s))
                    rec((s, "b"))
                elif k == "if":
                    res.append(((s, "t"), "(addthen %s %%s)" % s))
                    res.append(((s, "e"), "(addelse %s %%s)" % s))
                    rec((s, "t"))
                    rec((s, "e"))
                elif k == "sw":
                    for c in self.cases[s]:
                        res.append(((s, c), "(addcase %s %s %%s)" % (s, c if c == "default" else "(c %s 4)" % c)))
                        rec((s, c))
        rec(("", "top"))
        return res

    cases = {}

    def emit(self, do, **op):
        """the commands of one call; the last of them is the call itself"""
        self.cmds += do
        op.update(at=len(self.cmds), legal=op.get("legal", True))
        self.cmds += ["(books top)", "(dump top x)"]
        self.ops.append(op)

    def add(self):
        r = self.r
        s = self.new()
        P = self.places(True)
        key, how = r.choice(P)
        if key[1] == "top":
            k = r.choices(["as", "comb", "seq"], [3, 4, 2])[0]
        else:
            k = r.choices(["as", "if", "sw"], [6, 3, 2])[0]
        l, rd = "", set()
        if k == "as":
            e, l, rd = self.asg()
        elif k == "comb":
            e = "(comb)"
        elif k == "seq":
            e = "(seq ((pos clk)))"
        elif k == "if":
            c, rd = self.e1()
            e = "(if %s () ())" % c
        else:
            v = r.choice("abxyo")
            e, rd = "(switch %s)" % v, {v}
            self.cases = dict(self.cases)
            self.cases[s] = r.sample(["0", "1", "2", "3", "default"], r.randint(1, 4))
        self.kind[s], self.lr[s], self.text[s] = k, (l, rd), e
        self.emit(["(def %s %s)" % (s, e), how % s], o="add", s=s, h=s, k=k, l=l, r=sorted(rd), to=list(key))
        self.cont.setdefault(key, []).append(s)

    def present(self):
        return [(k, s) for k in [x for x, _ in self.places(True)] for s in self.cont.get(k, ())]

    def below(self, s):
        res = [s]
        for k in [k for k in self.cont if k[0] == s]:
            for x in self.cont[k]:
                res += self.below(x)
        return res

    def delete(self):
        P = [x for x in self.present() if x[1] in self.text]
        if not P:
            return
        key, s = self.r.choice(P)
        out = {"top": "(rm %s)" % s, "t": "(rmthen %s %s)" % (key[0], s), "e": "(rmelse %s %s)" % (key[0], s)}.get(key[1], "(rmfrom %s %s)" % (key[0], s))
        if self.r.random() < 0.3:
            out = "(rmp %s)" % s
        self.emit([out, "(clear %s)" % s], o="del", s=s)
        self.gone(key, s)

    def gone(self, key, s):
        dead = self.below(s)
        self.cont[key].remove(s)
        for k in list(self.cont):
            if k[0] in dead:
                self.cont[k] = []
        self.out += [x for x in dead if x in self.text]

    def readd(self):
        if not self.out:
            return
        s = self.out.pop(self.r.randrange(len(self.out)))
        k = self.kind[s]
        P = [p for p in self.places(True) if k == "as" or (k in ("comb", "seq")) == (p[0][1] == "top")]
        if not P:
            return
        key, how = self.r.choice(P)
        self.emit([how % s], o="radd", s=s, to=list(key))
        self.cont.setdefault(key, []).append(s)

    def cond(self):
        P = [s for _, s in self.present() if self.kind[s] in ("if", "sw") and s in self.text]
        if not P:
            return
        s = self.r.choice(P)
        if self.kind[s] == "if":
            e, rd = self.e1()
            self.emit(["(setpred %s %s)" % (s, e)], o="cond", s=s, r=sorted(rd))
        else:
            v = self.r.choice("abxyo")
            rd = {v}
            self.emit(["(settarget %s %s)" % (s, v)], o="cond", s=s, r=[v])
        self.lr[s] = ("", rd)

    def clone(self):
        P = [s for _, s in self.present() if s in self.text]
        if not P:
            return
        of = self.r.choice(P)
        s = self.new()
        k = self.kind[of]
        top = k in ("comb", "seq")
        B = set(self.below(of))
        Q = [p for p in self.places(top) if top == (p[0][1] == "top") and p[0][0] not in B]
        if not Q:
            return
        key, how = self.r.choice(Q)
        self.emit(["(clonestmt %s %s)" % (s, of), how % s], o="clone", s=s, of=of, to=list(key))
        # nested statements have no handles: not chosen later on
        self.copy(of, s)
        self.text[s] = self.text[of]
        self.cont.setdefault(key, []).append(s)

    def copy(self, of, s):
        self.kind[s], self.lr[s] = self.kind[of], self.lr[of]
        if self.kind[of] == "sw":
            self.cases = dict(self.cases)
            self.cases[s] = self.cases[of]
        for k in [k for k in self.cont if k[0] == of]:
            self.cont[(s, k[1])] = []
            for x in self.cont[k]:
                nn = s + "." + x
                self.copy(x, nn)
                self.cont[(s, k[1])].append(nn)

    def places_h(self):
        return self.places(True)

    def move(self):
        a, b = self.r.sample(MOV, 2)
        keep = self.r.random() < 0.3
        s = self.new()
        k = self.r.choice(["msrc", "msnk"])
        self.emit(["(%s %s %s %d)" % ("movesrc" if k == "msrc" else "movesink", a, b, keep)], o=k, a=a, b=b, keep=keep, s=s)
        self.out = []                      # statements outside the design keep what they had: not followed
        if keep:
            self.cont[("", "top")].append(s)
            self.kind[s], self.lr[s] = "as", ((a, {b}) if k == "msrc" else (b, {a}))
        for _, x in self.present():
            l, rd = self.lr[x]
            if x != s or not keep:
                if k == "msrc" and l == a:
                    self.lr[x] = (b, rd)
                elif k == "msnk" and a in rd:
                    self.lr[x] = (l, (rd - {a}) | {b})
        self.wires = [w for w in self.wires if not {a, b} & ({w[1], w[2]})]

    wires = []

    def wire(self):
        r = self.r
        s = self.new()
        if self.inst and r.random() < 0.6:
            i = r.choice(self.inst)
            l, e = ("%s/ci" % i, r.choice(V4)) if r.random() < 0.5 else (r.choice(V4[2:]), "%s/co" % i)
        else:
            l, e = r.choice(V4[2:]), r.choice(V4)
        self.emit(["(wire %s %s)" % (l, e)], o="add", s=s, h="", k="as", l=l.replace("/", "."), r=[e.replace("/", ".")], to=["", "top"])
        self.cont[("", "top")].append(s)
        self.kind[s], self.lr[s] = "as", (l.replace("/", "."), {e.replace("/", ".")})
        self.wires = self.wires + [(s, l, e)]

    def unwire(self):
        if self.r.random() < 0.3 or not self.wires:
            l, e = self.r.sample(V4, 2)
            T = self.find(l, e)
            if T:
                return
            self.emit(["(unwire %s %s)" % (l, e)], o="nop")
            return
        s, l, e = self.r.choice(self.wires)
        T = self.find(l, e)
        if s not in T:
            return
        s = T[0]
        self.emit(["(unwire %s %s)" % ((l, e) if self.r.random() < 0.6 else (e, l))], o="del", s=s)
        self.cont[("", "top")].remove(s)
        if s in self.text:
            self.out.append(s)
        self.wires = [w for w in self.wires if w[0] != s]

    def find(self, l, e):
        """the assignments between exactly these two, in order"""
        res = []
        for s in self.cont[("", "top")]:
            if self.kind[s] != "as":
                continue
            x, rd = self.lr[s]
            L, R = l.replace("/", "."), e.replace("/", ".")
            plain = s not in self.text or self.plain(s)
            if plain and ((x == L and rd == {R}) or (x == R and rd == {L})):
                res.append(s)
        return res

    def plain(self, s):
        f = self.text[s].strip("()").split()
        return len(f) == 3 and not any("(" in x for x in f)

    def unassign(self):
        P = [s for _, s in self.present() if self.kind[s] == "as" and s in self.text and self.plain(s)]
        if not P:
            return
        s = self.r.choice(P)
        key = [k for k, x in self.present() if x == s][0]
        self.emit(["(unassign %s %s)" % (self.lr[s][0].replace(".", "/"), s)], o="del", s=s)
        self.gone(key, s)

    def child(self):
        F = [i for i in INST if i not in self.inst and i not in self.bare]
        if not F:
            return
        i = F[0]
        # each instance has a generator of its own
        self.bare.add(i)
        self.inst.append(i)
        base, s1, s2 = "g%s" % i, self.new(), self.new()
        self.cmds += ["(gen %s c)" % base, "(port in ci 4)", "(port out co 4)", "(var n 4)", "(def %s (= n (~ ci)))" % s1, "(add %s)" % s1,
                      "(def %s (= co n))" % s2, "(add %s)" % s2, "(at top)"]
        self.emit(["(child %s %s)" % (i, base)], o="add", s=s1, h=s1, k="as", l=i + ".n", r=[i + ".ci"], to=[i, "top"])
        self.ops[-1]["more"] = dict(o="add", s=s2, h=s2, k="as", l=i + ".co", r=[i + ".n"], to=[i, "top"])

    def rmchild(self):
        if not self.inst:
            return
        i = self.r.choice(self.inst)
        self.inst.remove(i)
        self.emit(["(rmchild g%s)" % i], o="rmch", inst=i, p=[i + ".ci", i + ".co"])
        P = {i + ".ci", i + ".co"}
        dead = [s for s in self.cont[("", "top")] if self.kind[s] == "as" and (self.lr[s][0] in P or self.lr[s][1] & P)]
        self.cont[("", "top")] = [s for s in self.cont[("", "top")] if s not in dead]
        self.wires = [w for w in self.wires if w[0] not in dead]

    def bad(self):
        """calls that have to fail, and change nothing"""
        r = self.r
        s = self.new()
        t = r.randrange(6)
        P = [x for x in self.present() if x[1] in self.text]
        blk = [p for p in self.places(False)]
        if t == 0 and P:
            key, x = r.choice(P)
            how = dict(self.places(True))[key]
            if key[1] == "top" or self.cases.get(key[0]):
                return
            self.emit([how % x], o="nop", legal=False)
        elif t == 1 and blk:
            self.emit(["(def %s (comb))" % s, r.choice([b for b in blk])[1] % s], o="nop", legal=False) if not any(self.cases.get(b[0][0]) for b in blk) else None
        elif t == 2:
            self.emit(["(wire %s %s)" % r.choice([("x", "c"), ("s", "a"), ("x", "m"), ("(sl x 1 0)", "a")])], o="nop", legal=False)
        elif t == 3:
            Q = [x for _, x in P if self.kind[x] in ("comb", "seq")]
            if Q:
                x = r.choice(Q)
                self.emit(["(def %s (%s x a))" % (s, "=n" if self.kind[x] == "comb" else "=b"), "(addto %s %s)" % (x, s)], o="nop", legal=False)
        elif t == 4:
            self.emit(["(movesrc (+ p q) u 0)" if r.random() < 0.5 else "(movesink (+ p q) u 0)"], o="nop", legal=False)
        elif t == 5:
            self.emit(["(unwire %s %s)" % r.choice([("x", "(+ a b)"), ("c", "(~ s)")])], o="nop")


# ------------------------------------------------------------------- recording
def reads(e, s):
    if isinstance(e, dict):
        if e.get("t") == "v":
            s.add(e["n"])
        for v in e.values():
            reads(v, s)
    elif isinstance(e, list):
        for v in e:
            reads(v, s)
    return s


def root(e):
    while e["t"] != "v":
        e = e["p"]
    return e["n"]


def form(stmts, d):
    res = []
    for s in stmts:
        t, h = s["t"], s.get("h", "")
        if t == "as":
            rd = sorted(reads(s["r"], set()))
            targets = [root(x) for x in s["l"]["a"]] if s["l"]["t"] == "cat" else [root(s["l"])]
            for l in sorted(set(targets)):
                d["as"].append({"id": s["n"], "l": l, "r": rd if l == sorted(set(targets))[0] else []})
            # the index of a target is read
            li = sorted(reads(s["l"], set()) - set(targets))
            res.append({"k": "as", "h": h, "l": targets[0], "r": rd})
            d["lidx"] += [(s["n"], x) for x in li]
        elif t == "if":
            rd = sorted(reads(s["c"], set()))
            d["cond"].append(rd)
            res.append({"k": "if", "h": h, "l": "", "r": rd, "b": [form(s["th"], d), form(s["el"], d)]})
        elif t in ("sw", "switch"):
            rd = sorted(reads(s["c"], set()))
            d["cond"].append(rd)
            b = {k: [] for k in ("0", "1", "2", "3", "default")}
            for c in s["cs"]:
                b[str(c["v"]["v"] if isinstance(c["v"], dict) else c["v"])] = form(c["b"], d)
            b["default"] = form(s["d"], d)
            res.append({"k": "sw", "h": h, "l": "", "r": rd, "b": [b[k] for k in ("0", "1", "2", "3", "default")]})
        elif "b" in s:
            res.append({"k": t, "h": h, "l": "", "r": [], "b": [form(s["b"], d)]})
    return res


def observe(books, dump):
    d = {"as": [], "cond": [], "lidx": []}
    forms = []
    for g in dump["d"]:
        forms.append({"k": [g["path"].rstrip("."), "top"], "f": form(g["stmts"], d)})
        for f in g["fn"]:
            form(f.get("b", []), d)
    bk = [{"v": b["v"], "src": sorted(int(x) for x in b["srcn"]), "snk": sorted(int(x) for x in b["snkn"]), "nc": b["nc"]} for b in books if b["root"]]
    d.pop("lidx")
    d["as"].sort(key=lambda a: a["id"])
    return bk, d, forms


def item(cid, cmds, ops, ev):
    """the trace of one history; None: driver misuse or crash"""
    err = {e["cmd"]: e for e in ev if e["ev"] in ("err", "drverr", "crash")}
    by = {}
    for e in ev:
        if e["ev"] in ("book", "dump"):
            by.setdefault(e["cmd"], []).append(e)
    its = []
    for o in ops:
        at = o["at"]
        for k in range((its and its[-1]["at"] or 0) + 3, at):
            if k in err and o["o"] != "del":
                raise RuntimeError("preparation failed: %s in %s" % (err[k], cid))
        ok = at not in err and not (o["o"] == "del" and at - 1 in err)
        if at in err and err[at]["ev"] == "crash":
            return None, err[at]
        bk = [e for e in by.get(at + 1, []) if e["ev"] == "book"]
        dp = [e for e in by.get(at + 2, []) if e["ev"] == "dump"]
        if not dp or at + 1 in err:
            return None, err.get(at + 2) or err.get(at + 1)
        b, d, f = observe(bk, dp[0])
        base = {"o": "", "s": "", "h": "", "k": "", "l": "", "r": [], "to": ["", ""], "of": "", "a": "", "b": "", "keep": False, "inst": "", "p": []}
        x = dict(base, **{k: v for k, v in o.items() if k != "more"})
        x.update(ok=ok, seen=not o.get("more"), books=b, d=d, form=f)
        its.append(x)
        if o.get("more"):
            y = dict(base, **o["more"])
            y.update(at=at, legal=True, ok=ok, seen=True, books=b, d=d, form=f)
            its.append(y)
    return {"id": cid, "ops": its}, None


def run(E, cases):
    res = E.drive([(c, x[0]) for c, x in cases.items()], lax=True)
    items = []
    cnt = E.cov.setdefault("calls", {})
    for c, (cmds, ops) in cases.items():
        it, crash = item(c, cmds, ops, res[c])
        if it is None:
            E.violation("crash", "%s: the design cannot be examined: %s" % (c, crash), cmds)
            continue
        items.append(it)
        for o in it["ops"]:
            k = o["o"] + ("" if o["legal"] else " rejected")
            cnt[k] = cnt.get(k, 0) + 1
    bad = {}
    for t in tlc(E, items):
        bad.setdefault(t[1], t[2])
    for c, what in bad.items():
        cmds, ops = cases[c]
        it, crash = item(c, cmds, ops, E.drive([(c, cmds)], lax=True)[c])
        if it is None or tlc(E, [it]):
            E.violation("books", "%s: %s" % (c, what), cmds)
    E.traces += len(items)


def tlc(E, items):
    res = []
    for k in range(0, len(items), 400):
        res += [t for t in E.tlc("KBooks", items[k:k + 400]) if t[0] == "MISMATCH"]
    return res


def recorded(E):
    """the recorded finding: a statement that is taken out without clearing it"""
    for key, out in (("removed-not-cleared", "(rm s1)"), ("replaced-child", "(setchild b1 0 s2)")):
        body = ["(def s1 (= x a))", "(def s2 (= y a))", "(def b1 (comb))", "(add b1)", "(addto b1 s1)" if "child" in key else "(add s1)"]
        cmds = PRE + body + [out, "(books top)", "(dump top x)"]
        it = pass_item(key, [(len(cmds) - 3, key)], E.drive([(key, cmds)])[key])
        if tlc(E, [it]):
            E.violation(key, "%s: after %s the statement is still a driver of x and a load of a" % (key, out), cmds)


def passes(E):
    """the passes are histories as well: the books follow from the design after each of them"""
    n = 60 if not E.thorough else 500
    cases = {}
    for i in range(n):
        r = random.Random("c12p-%d-%d" % (E.seed, i))
        cfg = dict(c02.CFG, focus=r.choice(["", "if", "wires", "merge", "inst"]))
        if cfg["focus"] == "inst":
            cfg.update(nkids=[1, 2])
        if r.random() < 0.6:
            seq = [p.strip("?") for p in c02.PIPE if p[0] != "?" or r.random() < 0.5]
            seq = seq[:seq.index("create_module_instantiation")]
        else:
            seq = []
            for p in sorted(r.sample(sorted(c02.PASSES), 4), key=lambda p: p not in c02.EARLY):
                seq += [q for q in c02.PASSES[p] if q not in seq] + [p]
        cmds, at = optgen.design(r, cfg).script() + ["(books top)", "(dump top x)"], []
        for p in seq:
            at.append((len(cmds), p))
            cmds += [c02.run_pass(p), "(books top)", "(dump top x)"]
        cases["p%d" % i] = (cmds, [(at[0][0] - 2, "build")] + at if at else at)
    res = E.drive([(c, x[0]) for c, x in cases.items()])
    items = []
    for c, (cmds, at) in cases.items():
        it = pass_item(c, at, res[c])
        items.append(it)
        for o in it["ops"]:
            k = "pass " + o["pass"]
            E.cov["calls"][k] = E.cov["calls"].get(k, 0) + 1
    for t in tlc(E, items):
        c = t[1]
        step = json.loads(t[2])["step"]
        it = [x for x in items if x["id"] == c][0]
        E.violation("pass " + it["ops"][step - 1]["pass"], "%s: after %s: %s" % (c, it["ops"][step - 1]["pass"], t[2]), cases[c][0])
    E.traces += len(items)


def pass_item(c, at, ev):
    its = []
    for k, p in at:
        bk = [e for e in ev if e["ev"] == "book" and e["cmd"] == k + 2 - (p == "build") * 1]
        dp = [e for e in ev if e["ev"] == "dump" and e["cmd"] == k + 3 - (p == "build") * 1]
        if not dp:
            break
        b, d, f = observe(bk, dp[0])
        its.append({"o": "nop", "pass": p, "ok": True, "legal": True, "seen": True, "books": b, "d": d, "form": []})
    return {"id": c, "ops": its}
