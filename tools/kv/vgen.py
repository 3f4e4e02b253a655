"""Random arrangements of drivers, processes and connections for the structural
checks (KVerdict).  Nothing here decides a verdict."""
import random

# name, width of an element, dimensions, unpacked, struct member list
SHAPES = [("b", 1, (), False), ("v", 4, (), False), ("a", 2, (3,), False), ("m", 2, (2, 2), False), ("u", 2, (3,), True), ("sg", 3, (), False)]


class G:
    def __init__(self, r, h="top"):
        self.r, self.h = r, h
        self.decl, self.body, self.vars = [], [], {}
        self.n = 0
        self.inputs()

    def inputs(self):
        self.decl += ["(port in x 16)", "(port in c1 1)", "(port in c2 1)", "(port in i1 1)", "(port in i2 2)", "(port in s2 2)", "(port in s3 3)",
                      "(port in clk 1 clk)", "(port in rst_n 1 arst)", "(port in srst 1 rst)"]

    def var(self, shape=None, port=None):
        nm, w, dims, up = shape or self.r.choice(SHAPES)
        self.n += 1
        n = "%s%d" % (nm, self.n)
        o = (" (dims %s)" % " ".join(map(str, dims)) if dims else "") + (" up" if up else "") + (" s" if nm == "sg" else "")
        self.decl.append("(%s%s %d%s)" % ("port %s " % port if port else "var ", n, w, o))
        self.vars[n] = (w, dims, up, nm == "sg")
        return n

    def data(self, w, sg=False):
        """some value of width w that depends on inputs only"""
        if w > 16:
            e = "(dup (sl x 1 0) %d)" % (w // 2)
        else:
            lo = self.r.randint(0, 16 - w)
            e = "(sl x %d %d)" % (lo + w - 1, lo)
        return "(cast %s signed)" % e if sg else e

    def target(self, n, dyn=True, iters=(), whole=0.35):
        """a selection of n: (text, width, signed)"""
        r = self.r
        w, dims, up, sg = self.vars[n]
        tot = w
        for d in dims:
            tot *= d
        if not up and r.random() < whole:
            return n, tot, sg
        e, dims = n, list(dims)
        while dims:
            if not up and len(dims) == 1 and e != n and r.random() < 0.15:
                break
            if dims[0] > 2 and not up and r.random() < 0.2:      # range of elements
                a = r.randint(0, dims[0] - 2)
                b = r.randint(a + 1, dims[0] - 1)
                e = "(sl %s %d %d)" % (e, b, a)
                t = (b - a + 1) * w
                for d in dims[1:]:
                    t *= d
                return e, t, False
            it = [x for x in iters if x[1] <= dims[0]]
            if it and r.random() < 0.75:
                e = "(vx %s %%%s)" % (e, r.choice(it)[0])
            elif dyn and r.random() < 0.3:
                e = "(vx %s %s)" % (e, "i1" if dims[0] == 2 else "i2")
            else:
                e = "(ix %s %d)" % (e, r.randrange(dims[0]))
            dims = dims[1:]
        t = w
        for d in dims:
            t *= d
        if not dims and w > 1 and r.random() < 0.5:
            if dyn and w in (2, 4) and "vx" not in e and r.random() < 0.25:
                return "(vx %s %s)" % (e, "i1" if w == 2 else "i2"), 1, False
            a = r.randint(0, w - 1)
            b = r.randint(a, w - 1)
            if (a, b) == (0, w - 1):
                return e, t, sg and e == n
            e = "(ix %s %d)" % (e, a) if a == b and r.random() < 0.5 else "(sl %s %d %d)" % (e, b, a)
            return e, b - a + 1, False
        return e, t, sg and e == n

    def assign(self, n, op="=", cat=0.06, **kw):
        e, w, sg = self.target(n, **kw)
        others = [m for m in self.vars if m != n and not self.vars[m][2]]
        if not kw.get("iters") and others and not sg and self.r.random() < cat:
            e2, w2, sg2 = self.target(self.r.choice(others), dyn=kw.get("dyn", True))
            if not sg2:
                return "(%s (cat %s %s) %s)" % (op, e, e2, self.data(w + w2))
        return "(%s %s %s)" % (op, e, self.data(w, sg))

    def cond(self):
        return self.r.choice(["c1", "c2", "(! c1)", "(& c1 c2)", "(== s2 (c 1 2))"])

    def script(self):
        return ["(gen %s %s)" % (self.h, self.h)] + self.decl + self.body


# ------------------------------------------------------------------ C05: drivers
def place(r, stmt, depth):
    """nest a statement in conditionals"""
    for _ in range(depth):
        k = r.random()
        if k < 0.4:
            stmt = "(if %s (%s))" % (r.choice(["c1", "c2"]), stmt)
        elif k < 0.6:
            stmt = "(if %s () (%s))" % (r.choice(["c1", "c2"]), stmt)
        else:
            stmt = "(switch s2 ((c %d 2) %s)%s)" % (r.randint(0, 3), stmt, "")
    return stmt


def merge(r, sts):
    """several statements of one process; possibly sharing a conditional"""
    out = []
    while sts:
        if len(sts) >= 2 and r.random() < 0.5:
            a, b = sts[0], sts[1]
            sts = sts[2:]
            k = r.random()
            if k < 0.35:
                out.append("(if c1 (%s) (%s))" % (a, b))
            elif k < 0.5:
                out.append("(if c1 (%s %s))" % (a, b))
            elif k < 0.65:
                out.append("(if c1 (%s (if c2 (%s))))" % (a, b))
            elif k < 0.9:
                out.append("(switch s2 ((c 0 2) %s) ((c 1 2) %s))" % (a, b))
            else:
                out.append("(switch s2 ((c 0 2) %s) (default (if c2 (%s))))" % (a, b))
        else:
            out.append(place(r, sts[0], r.choice([0, 0, 1, 2])))
            sts = sts[1:]
    return out


def drivers(r):
    g = G(r)
    for _ in range(r.randint(1, 2)):
        g.var(port=r.choice([None, None, "out"]))
    names = list(g.vars)
    nd = r.choice([1, 2, 2, 2, 3, 3, 4, 5])
    nproc = r.randint(1, 3)
    kinds = [r.choice(["wire", "comb", "seq", "seq", "seqr", "latch"]) for _ in range(nproc)]
    style = r.random()
    if style < 0.3:
        kinds = [kinds[0]] * nproc
    body = [[] for _ in kinds]
    whole = r.choice([0.1, 0.5])
    dyn = r.random() < 0.35
    for _ in range(nd):
        k = r.randrange(nproc)
        n = r.choice(names)
        op = "="
        if r.random() < 0.12:
            op = r.choice(["=b", "=n"])
        if kinds[k] == "wire":
            body[k].append(g.assign(n, "=" if op == "=n" else op, dyn=dyn, whole=whole))
        elif r.random() < 0.08:
            g.n += 1
            it = "k%d" % g.n
            body[k].append("(for %s 0 %d 1 %s)" % (it, 2, g.assign(n, op, dyn=dyn, whole=whole, iters=((it, 2),))))
        else:
            body[k].append(g.assign(n, op, dyn=dyn, whole=whole))
    st = []
    for k, b in zip(kinds, body):
        if not b:
            continue
        if k == "wire":
            st += ["(add %s)" % x for x in b]
        elif k == "seq":
            st.append("(add (seq ((pos clk)) %s))" % " ".join(merge(r, b)))
        elif k == "seqr":
            st.append("(add (seq ((pos clk) (neg rst_n)) %s))" % " ".join(merge(r, b)))
        else:
            st.append("(add (%s %s))" % (k, " ".join(merge(r, b))))
    r.shuffle(st)
    pre = []
    if r.random() < 0.25:      # a child instance drives part of a variable
        n = r.choice(names)
        e, w, sg = g.target(n, dyn=False)
        pre = ["(gen kid kid)", "(port out y %d%s)" % (w, " s" if sg else ""), "(add (= y %s))" % ("(c 1 %d%s)" % (max(w, 2) if sg else w, " s" if sg else ""))]
        st.insert(r.randrange(len(st) + 1), "(add (= %s u_kid/y))" % e)
        g.decl.append("(child u_kid kid)")
    g.body = st
    return pre + g.script()


# ------------------------------------------------------------- C07: latches, registers
def branchy(g, names, depth, op="=", iters=(), **kw):
    r = g.r
    n = r.choice([1, 1, 2, 2, 3]) if depth else 1
    out = []
    for _ in range(n):
        k = r.random()
        if depth == 0 or k < 0.35:
            out.append(g.assign(r.choice(names), op, iters=iters, **kw))
        elif k < 0.62:
            a = branchy(g, names, depth - 1, op, iters, **kw)
            b = branchy(g, names, depth - 1, op, iters, **kw) if r.random() < 0.75 else []
            out.append("(if %s (%s) (%s))" % (g.cond(), " ".join(a), " ".join(b)))
        elif k < 0.9:
            sel, w = r.choice([("s2", 2), ("s2", 2), ("c1", 1), ("s3", 3), ("en1", 2)])
            vals = list(range(1 << w)) if sel != "en1" else [0, 1, 2]
            m = r.choice([len(vals), len(vals), len(vals) - 1, r.randint(1, len(vals))])
            if sel == "en1" and r.random() < 0.2:
                vals = [0, 1, 3]
            vs = r.sample(vals, m)
            same = branchy(g, names, max(0, depth - 2), op, iters, **kw)
            cs = []
            for v in vs:
                b = same if r.random() < 0.6 else branchy(g, names, depth - 1, op, iters, **kw)
                cs.append("((c %d %d) %s)" % (v, w, " ".join(b)))
            if r.random() < 0.3:
                b = same if r.random() < 0.6 else branchy(g, names, depth - 1, op, iters, **kw)
                cs.append("(default %s)" % " ".join(b))
            out.append("(switch %s %s)" % (sel, " ".join(cs)))
        else:
            g.n += 1
            it = "k%d" % g.n
            end = r.choice([2, 3, 3, 1])
            out.append("(for %s 0 %d 1 %s)" % (it, end, " ".join(branchy(g, names, min(1, depth - 1), op, iters + ((it, end),), **kw))))
    return out


def latches(r):
    g = G(r)
    g.decl.insert(0, "(enum E1 2 (A 0) (B 1) (C 2))")
    g.decl.append("(enumvar en1 E1)")
    for _ in range(r.randint(1, 3)):
        g.var()
    names = list(g.vars)
    kw = {"dyn": r.random() < 0.3, "whole": r.choice([0.9, 0.9, 0.3]), "cat": 0.03}
    b = branchy(g, names, r.choice([1, 2, 2, 3]), **kw)
    if r.random() < 0.35:        # defaults first
        for n in names:
            w, dims, up, sg = g.vars[n]
            if not up and r.random() < 0.6:
                b.insert(0, "(= %s %s)" % (n, "(c 0 %d s)" % w if sg else "(c 0 %d)" % (w * (dims[0] if dims else 1) * (dims[1] if len(dims) > 1 else 1))))
    g.body = ["(add (comb %s))" % " ".join(b)]
    return g.script()


def registers(r):
    g = G(r)
    g.decl.insert(0, "(enum E1 2 (A 0) (B 1) (C 2))")
    g.decl.append("(enumvar en1 E1)")
    for _ in range(r.randint(1, 3)):
        g.var()
    names = list(g.vars)
    kw = {"dyn": r.random() < 0.2, "whole": r.choice([0.9, 0.4]), "cat": 0.03}
    ev = r.choice(["(pos clk) (neg rst_n)", "(pos clk) (neg rst_n)", "(pos clk) (pos rst_n)", "(neg clk)", "(pos clk)"])
    rs = r.choice(["(! rst_n)", "(~ rst_n)", "rst_n", "srst", "c1", "(? c1 rst_n c2)", "(&& rst_n c1)", "(== (cat c1 rst_n) (c 1 2))", "(! (ror rst_n))"])
    a = branchy(g, r.sample(names, r.randint(1, len(names))), r.choice([0, 1]), **kw)
    b = branchy(g, names, r.choice([0, 1, 2]), **kw) if r.random() < 0.85 else []
    if r.random() < 0.3:
        b = [x for n in names for x in ["(= %s %s)" % ((lambda t: (t[0], g.data(t[1], t[2])))(g.target(n, dyn=False)))]]
    st = ["(if %s (%s) (%s))" % (rs, " ".join(a), " ".join(b))]
    if r.random() < 0.2:
        st = ["(if c2 (%s))" % st[0]]
    if r.random() < 0.2:
        st.insert(r.randrange(2), g.assign(r.choice(names), **kw))
    if r.random() < 0.1:
        st = branchy(g, names, 1, **kw)
    g.body = ["(add (seq (%s) %s))" % (ev, " ".join(st))]
    return g.script()


# -------------------------------------------------------------------- C09: loops
def loops(r):
    g = G(r)
    for _ in range(r.randint(1, 2)):
        g.var(SHAPES[r.choice([0, 1, 1, 2, 3, 4])], port=r.choice([None, None, "out"]))
    names = list(g.vars)

    def scalar(n, e):
        """e selects no array of elements (those cannot be operands)"""
        return not g.vars[n][1] or e.count("(ix ") + e.count("(vx ") >= len(g.vars[n][1])

    def leaf(w):
        """expression of width w, reading selections of the variables (or inputs)"""
        if r.random() < 0.25:
            return g.data(w)
        for _ in range(8):
            n = r.choice(names)
            e, t, sg = g.target(n, dyn=r.random() < 0.3, whole=0.15)
            if sg or not scalar(n, e):
                continue
            if t == w:
                return e
            if t < w and r.random() < 0.3:
                return "(ext %s %d)" % (e, w)
            if t < w and r.random() < 0.4:
                k = w - t
                parts = [e, expr(k, 0)]
                if k > 1 and r.random() < 0.5:
                    parts = [expr(1, 0), expr(k - 1, 0), e]
                r.shuffle(parts)
                return "(cat %s)" % " ".join(parts)
            if w == 1 and r.random() < 0.3:
                return "(%s %s)" % (r.choice(["ror", "rand", "rxor"]), e)
            if w % t == 0 and r.random() < 0.5:
                return "(dup %s %d)" % (e, w // t)
        return g.data(w)

    def expr(w, d):
        k = r.random()
        if d == 0 or k < 0.4:
            return leaf(w)
        if k < 0.6:
            return "(%s %s %s)" % (r.choice(["&", "|", "^", "+"]), expr(w, d - 1), expr(w, d - 1))
        if k < 0.7:
            return "(~ %s)" % expr(w, d - 1)
        if k < 0.85:
            return "(? %s %s %s)" % (expr(1, d - 1), expr(w, d - 1), expr(w, d - 1))
        if k < 0.9 and w == 4:
            return "(cast (cast %s signed) unsigned)" % expr(w, d - 1)
        if w == 1:
            return "(== %s %s)" % (expr(2, d - 1), expr(2, d - 1))
        return "(cast (cast %s signed) unsigned)" % expr(w, d - 1)

    st = []
    for _ in range(r.choice([1, 1, 2])):
        n = r.choice(names)
        e, w, sg = g.target(n, dyn=r.random() < 0.2)
        v = expr(w, r.choice([0, 1, 1, 2]) if scalar(n, e) else 0)
        if r.random() < 0.12:      # arrays are copied as they are
            e, w, sg = n, None, None
            v = "%s" % r.choice([n, "(? c1 %s %s)" % (n, n)])
            if g.vars[n][1] == () or g.vars[n][2]:
                v = n
        k = r.random()
        if k < 0.8:
            st.append("(add (= %s %s))" % (e, v))
        elif k < 0.9:
            st.append("(add (seq ((pos clk)) (= %s %s)))" % (e, v))
        else:
            st.append("(add (comb (= %s %s)))" % (e, v))
    g.body = st
    return g.script()


# ---------------------------------------------------------------- C08: connectivity
def hierarchy(r):
    out = []
    level = [0]

    def module(name, depth):
        g = G(r, name)
        if depth:
            g.decl = ["(port in x 16)", "(port in i1 1)", "(port in i2 2)"]
        pre, kids = [], []
        for j in range(r.choice([0, 1, 2]) if depth else r.choice([1, 1, 2])):
            if depth == 2:
                break
            kn = "%sk%d" % (name if depth else "m", j)
            sub, ports = module(kn, depth + 1)
            pre += sub
            kids.append((kn, "u%d" % j, ports))
        style = r.choice(["all", "most", "most", "some"])
        for kn, inst, _ in kids:
            g.decl.append("(child %s %s)" % (inst, kn))
        outs = []
        for _ in range(r.randint(1, 2)):
            outs.append(g.var(port="out"))
        ext = depth and not kids and r.random() < 0.12
        stub = depth and not kids and not ext and r.random() < 0.12

        def drive(lhs_name, key):
            g.vars[key] = g.vars.get(key) or lhs_name
            st = []
            w, dims, up, sg = g.vars[key]
            if style != "some" and r.random() < (0.9 if style == "all" else 0.6):
                # cover everything, in one or several pieces
                if not up and r.random() < 0.5:
                    t = w
                    for d in dims:
                        t *= d
                    return ["(= %s %s)" % (key, g.data(t, sg))]
                els = [key]
                for d in dims:
                    els = ["(ix %s %d)" % (e, k) for e in els for k in range(d)]
                if not dims and w > 1:
                    c = r.randint(1, w - 1)
                    return ["(= (sl %s %d %d) %s)" % (key, w - 1, c, g.data(w - c)), "(= (sl %s %d 0) %s)" % (key, c - 1, g.data(c))]
                if r.random() < 0.25:
                    els = r.sample(els, len(els) - 1)
                return ["(= %s %s)" % (e, g.data(w, sg and e == key)) for e in els]
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                st.append(g.assign(key, dyn=r.random() < 0.3, cat=0))
            return st
        st = []
        if not ext and not stub:
            for o in outs:
                own = {k: v for k, v in g.vars.items()}
                b = drive(None, o)
                if b and r.random() < 0.25 and len(set(x.split()[1] for x in b)) == len(b):
                    st.append("(comb %s)" % " ".join(b))
                else:
                    st += b
                g.vars = own
        for kn, inst, ports in kids:
            for p, sh in ports.items():
                key = inst + "/" + p
                save = dict(g.vars)
                g.vars = {key: sh}
                b = drive(sh, key)
                g.vars = save
                st += b
            if r.random() < 0.4:      # x is connected as well, or not
                st.append("(= %s/x x)" % inst)
            elif r.random() < 0.5:
                st.append("(= (sl %s/x 7 2) (sl x 5 0))" % inst)
            for p in ("i1", "i2"):
                if r.random() < 0.7:
                    st.append("(= %s/%s %s)" % (inst, p, p))
        r.shuffle(st)
        ins = {}
        if depth:
            for _ in range(r.randint(1, 2)):
                n = g.var(port="in")
                ins[n] = g.vars.pop(n)
        g.body = ["(add %s)" % s for s in st]
        if ext:
            g.body.append("(external)")
        if stub:
            g.body.append("(stub)")
        if kids and r.random() < 0.5:
            g.body.append('(attr %s zero_inputs "")' % name)
        return pre + g.script(), ins
    return module("top", 0)[0]
