"""Designs that give every clean-up pass something to do (patterns injected in random designs)."""
from . import gen
from .gen import V, log2


class Opt(gen.Design):
    def __init__(self, r, cfg, handle, name=None, level=0):
        gen.Design.__init__(self, r, cfg, handle, name, level)
        self.attrs = []
        self.npat = 0

    # ---- statements: if/else chains over one target (if -> case)
    def chain(self, pieces, op, total):
        r = self.r
        w = r.randint(1, 2) if self.c(0.8) else 3
        l = [x for x in self.leaf_candidates(w, False) if not x.startswith("$")]
        if not l:
            return None
        t = r.choice(l)
        n = r.randint(2, min(5, 1 << w) if self.c(0.8) else 4)
        vals = self.case_consts(w, n)
        while len(vals) < n:
            vals.append(r.randrange(1 << w))
        if self.c(0.25):
            vals[-1] = vals[0]
        stmt = lambda: "(%s %s %s)" % (lambda q: (op, q[0], self.expr(q[1], 1, q[2])))(r.choice(pieces))
        # most chains are proper, the others miss one of the conditions of the rewrite
        near = r.choice(["pre", "post", "both", "op", "target", "nonconst", "swap"]) if self.c(0.4) else ""
        odd = r.randrange(len(vals))
        t2 = r.choice(l)
        th = lambda: "(%s)" % " ".join("(%s %s %s)" % (op, e, self.expr(ww, 1, sg)) for e, ww, sg in (pieces if total else [r.choice(pieces)]))
        els = th() if total or self.c(0.6) else None
        s = ""
        for i, v in reversed(list(enumerate(vals))):
            cond = "(== %s (c %d %d))" % (t, v, w)
            if i == odd:
                cond = {"op": "(%s %s (c %d %d))" % (r.choice(["!=", "<=", ">="]), t, v, w), "target": "(== %s (c %d %d))" % (t2, v, w),
                        "nonconst": "(== %s %s)" % (t, t2), "swap": "(== (c %d %d) %s)" % (v, w, t)}.get(near, cond)
            s = "(if %s %s%s)" % (cond, th(), " " + els if els else "")
            els = "(%s)" % s
            if i == odd and i and not total:
                els = {"pre": "(%s %s)" % (stmt(), s), "post": "(%s %s)" % (s, stmt()), "both": "(%s %s %s)" % (stmt(), s, stmt())}.get(near, els)
        return s

    def nested(self, pieces, op, depth, total=False):
        if self.c({"if": 0.8}.get(self.cfg.get("focus"), 0.3)):
            s = self.chain(pieces, op, total)
            if s:
                return [s]
        if self.c(0.12) and not total and depth > 0:
            # empty branches
            k = self.r.random()
            c = self.expr(self.r.choice([1, 1, 2]), 1, noconst=True)
            b = " ".join(gen.Design.nested(self, pieces, op, 0))
            if k < 0.4:
                return ["(if %s () (%s))" % (c, b)]
            if k < 0.6:
                return ["(if %s () ())" % c]
            if not self.cfg.get("empty_case", True):
                return ["(if %s () (%s))" % (self.expr(1, 0, noconst=True), b)]
            return ["(switch %s ((c 0 2)) ((c 1 2) %s) (default))" % (self.expr(2, 0, noconst=True), b) if k < 0.8 else
                    "(switch %s ((c 2 2)) (default %s))" % (self.expr(2, 0, noconst=True), b)]
        return gen.Design.nested(self, pieces, op, depth, total)

    def drive_comb(self, vs):
        r = self.r
        f = self.cfg.get("focus")
        if len(vs) == 1 and not vs[0].dims and not vs[0].sg and self.c(0.9 if f in ("wires", "merge") else 0.5):
            v = vs[0]
            k = r.choice({"wires": ["chain", "bits"], "merge": ["merge"]}.get(f, ["chain", "bits", "bits", "merge", "copy"]))
            src = [x for x in self.readable if not x.dims and not x.sg and x.w == v.w and "/" not in x.name]
            if k == "chain" and src:
                s = r.choice(src).name
                for _ in range(r.randint(1, 3)):
                    n = self.decl(V(self.fresh("k"), v.w), "var")
                    self.body.append("(= %s %s)" % (n.name, s))
                    s = n.name
                    if self.c(0.15):
                        self.readable.append(n)
                self.body.append("(= %s %s)" % (v.name, s))
                self.npat += 1
                return
            if k == "bits" and src and v.w > 1:
                s = r.choice(src).name
                order = list(range(v.w))
                m = list(order)
                if self.c(0.4):
                    r.shuffle(m)
                r.shuffle(order)
                st = ["(= (ix %s %d) (ix %s %d))" % (v.name, i, s, m[i]) for i in order]
                q = r.random()
                if q < 0.45:
                    self.body += st
                elif q < 0.7:
                    self.body.append("(comb %s)" % " ".join(st))
                else:
                    ps = [("(ix %s %d)" % (v.name, i), 1, False) for i in range(v.w)]
                    extra = gen.Design.nested(self, ps, "=", 1)
                    if self.c(0.3):
                        st.append(st[r.randrange(len(st))])
                    self.body.append("(comb %s)" % " ".join(st + extra))
                self.npat += 1
                return
            if k == "merge":
                w = r.randint(1, 2)
                l = [x for x in self.leaf_candidates(w, False) if not x.startswith("$") and not x.startswith(v.name)]
                if l:
                    t = r.choice(l)
                    st = ["(= %s %s)" % (v.name, self.expr(v.w, 1))]
                    tw = self.decl(V(self.fresh("w"), v.w), "var")
                    st.append("(= %s %s)" % (tw.name, self.expr(v.w, 1)))
                    for _ in range(r.randint(2, 4)):
                        x = r.choice([v, tw])
                        c = "(== %s (c %d %d))" % (t, r.randrange(1 << w), w)
                        th = "(= %s %s)" % (x.name, self.expr(v.w, 1))
                        el = " ((= %s %s))" % (r.choice([v, tw]).name, self.expr(v.w, 1)) if self.c(0.35) else ""
                        st.append("(if %s (%s)%s)" % (c, th, el))
                        if self.c(0.2):
                            st.append("(= %s (+ %s %s))" % (x.name, x.name, self.const(v.w)))
                    self.readable.append(tw)
                    if self.c(0.85):
                        h = self.fresh(self.h + "_blk")
                        self.body.append("!def %s (comb %s)" % (h, " ".join(st)))
                        self.attrs.append("(attr %s merge_if_block merge_if_block)" % h)
                    else:
                        self.body.append("(comb %s)" % " ".join(st))
                    self.npat += 1
                    return
        return gen.Design.drive_comb(self, vs)

    def drive_seq(self, vs):
        r = self.r
        if len(vs) == 1 and not vs[0].dims and not vs[0].sg and vs[0].w > 1 and self.c(0.3):
            v = vs[0]
            src = [x for x in self.readable if not x.dims and not x.sg and x.w == v.w and "/" not in x.name]
            if src:
                s = r.choice(src).name
                st = ["(= (ix %s %d) (ix %s %d))" % (v.name, i, s, i) for i in range(v.w)]
                if self.c(0.5):
                    st += gen.Design.nested(self, [(v.name, v.w, False)], "=", 1)
                self.body.append("(seq ((pos %s)) %s)" % (self.clk, " ".join(st)))
                self.npat += 1
                return
        return gen.Design.drive_seq(self, vs)

    def instance(self):
        r = self.r
        k = r.random() * {"inst": 0.3}.get(self.cfg.get("focus"), 1)
        if k < 0.18:
            self.passthrough()
        elif k < 0.45:
            self.array()
        else:
            n = len(self.kids)
            gen.Design.instance(self)
            d, inst = self.kids[n]
            if not d.kids and self.c(0.4):
                self.attrs.append("(attr %s inline inline)" % d.h)
            self.npat += 1

    def passthrough(self):
        """a child that only forwards its inputs"""
        r = self.r
        d = Opt(r, self.cfg, "%s_%s" % (self.h, self.fresh("p")), level=self.level + 1)
        inst = "u" + self.fresh("")
        n = r.randint(1, 2)
        ws = [r.randint(1, self.cfg["maxw"]) for _ in range(n)]
        src = list(range(n))
        r.shuffle(src)
        if n == 2 and ws[0] != ws[1]:
            src = [0, 1]
        for i, w in enumerate(ws):
            d.ins.append(d.decl(V("i%d" % i, w), "in"))
            d.outs.append(d.decl(V("o%d" % i, ws[src[i]]), "out"))
        near = r.choice(["slice", "slice", "expr", "cast", "const", "seq", "comb", "cross"]) if self.c(0.5) else ""
        body = ["(= o%d i%d)" % (i, src[i]) for i in range(n)]
        k = r.randrange(n)
        wk = ws[src[k]]
        if near == "slice":
            big = "i%d" % src[k]
            lo = r.randint(0, 1)
            d.ins[src[k]].w = ws[src[k]] = wk + lo + r.randint(0 if lo else 1, 1)
            d.cmds = [c if not c.startswith("(port in %s " % big) else "(port in %s %d)" % (big, ws[src[k]]) for c in d.cmds]
            body[k] = "(= o%d (sl %s %d %d))" % (k, big, lo + wk - 1, lo)
        elif near == "expr":
            body[k] = "(= o%d (%s i%d))" % (k, r.choice(["~", "neg"]), src[k])
        elif near == "cast":
            body[k] = "(= o%d (cast (cast i%d signed) unsigned))" % (k, src[k])
        elif near == "const":
            body[k] = "(= o%d (c %d %d))" % (k, r.randrange(1 << wk), wk)
        elif near == "comb":
            body[k] = "(comb %s)" % body[k]
        elif near == "cross" and n == 2:
            body[1] = "(= o1 (^ i%d %s))" % (src[1], "i%d" % src[0] if ws[src[0]] == wk == ws[src[1]] else "i%d" % src[1])
        d.body += body
        ows = [ws[src[i]] for i in range(n)]
        ows[k] = wk
        self.kids.append((d, inst))
        self.body.append("!child %s %s" % (inst, d.h))
        for i, w in enumerate(ws):
            self.body.append("(= %s/i%d %s)" % (inst, i, self.expr(w, 1)))
        for i in range(n):
            w = self.decl(V(self.fresh("c"), ows[i]), "var")
            self.body.append("(= %s %s/o%d)" % (w.name, inst, i))
            self.readable.append(w)
        self.npat += 1

    def array(self):
        """several instances of the same module on the elements of an array (generate loop)"""
        r = self.r
        n, w = r.randint(2, 3), r.randint(1, 3)
        a = self.decl(V(self.fresh("a"), w, (n,)), "var")
        o = self.decl(V(self.fresh("b"), w, (n,)), "var")
        for i in range(n):
            self.body.append("(= (ix %s %d) %s)" % (a.name, i, self.expr(w, 1)))
        m = list(range(n))
        if self.c(0.35):
            r.shuffle(m)
        shared = None
        if self.c(0.5):
            shared = self.decl(V(self.fresh("w"), w), "var")
            self.body.append("(= %s %s)" % (shared.name, self.expr(w, 1)))
        body = r.choice(["(+ x y)", "(^ x y)", "(- x y)"])
        h = "%s_%s" % (self.h, self.fresh("e"))
        for i in range(n):
            d = Opt(r, self.cfg, "%s_%d" % (h, i), h, level=self.level + 1)
            d.decl(V("x", w), "in")
            d.decl(V("y", w), "in")
            d.decl(V("z", w), "out")
            d.body.append("(= z %s)" % body)
            inst = "%s_%d" % (h.replace("top", "t"), i)
            self.kids.append((d, inst))
            self.body.append("!child %s %s" % (inst, d.h))
            self.body.append("(= %s/x (ix %s %d))" % (inst, a.name, i))
            self.body.append("(= %s/y %s)" % (inst, shared.name if shared else "(ix %s %d)" % (a.name, m[i])))
            self.body.append("(= (ix %s %d) %s/z)" % (o.name, m[i] if self.c(0.8) else i, inst))
        # avoid double drivers from the coin above
        ix = [b for b in self.body[-(4 * n):] if b.startswith("(= (ix %s" % o.name)]
        used = set()
        free = set(range(n)) - set(int(b.split()[3][:-1]) for b in ix)
        for k in range(len(self.body) - 4 * n, len(self.body)):
            b = self.body[k]
            if b.startswith("(= (ix %s" % o.name):
                t = b.split()
                i = int(t[3][:-1])
                if i in used:
                    j = free.pop()
                    self.body[k] = "(= (ix %s %d) %s" % (o.name, j, t[4])
                    i = j
                used.add(i)
        self.readable.append(o)
        self.npat += 1

    def build(self, **kw):
        r = self.r
        gen.Design.build(self, **kw)
        # unused variables, dangling drivers, constant into a child port, empty blocks
        if self.c(0.4):
            self.decl(V(self.fresh("z"), 3), "var")
        if self.c(0.4):
            z = self.decl(V(self.fresh("z"), 3), "var")
            self.body.append("(= %s %s)" % (z.name, self.expr(3, 1)))
        if self.c(0.3):
            self.body.append("(comb)")
        return self

    def stmts(self):
        return gen.Design.stmts(self) + self.attrs


def design(r, cfg, handle="top"):
    return Opt(r, cfg, handle).build()
