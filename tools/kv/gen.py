"""Seeded random designs, as driver scripts (s-expression commands)."""


def log2(n):
    w = 0
    while (1 << w) < n:
        w += 1
    return w


class V:
    def __init__(self, name, w, dims=(), sg=False, up=False, st=None):
        self.name, self.w, self.dims, self.sg, self.up, self.st = name, w, tuple(dims), sg, up, st

    @property
    def width(self):
        n = self.w
        for d in self.dims:
            n *= d
        return n


DEFAULT = dict(
    maxw=6, arrays=True, signed=True, division=True, shift=True, mul=True, dyn=True, cat=True, dup=True, ext=True,
    cond=True, func=True, forloop=True, children=True, seq=True, slices_drive=True, switch=True, power=False,
    ninputs=(2, 4), nwires=(2, 5), nouts=(1, 3), depth=3, bits_limit=24, cast=True, dynw=True, sgconst=True, upk=True,
    slice_expr=False, scope=False, negclk=False, const_case_big=False, logical=True, catlhs=False, syncreset=False, decfor=False)


class Design:
    """one module under construction"""
    KID = None          # class of child modules

    def __init__(self, r, cfg, handle, name=None, level=0):
        self.r, self.cfg, self.h, self.name, self.level = r, dict(DEFAULT, **cfg), handle, name or handle, level
        self.cmds = []            # declarations
        self.body = []            # statements
        self.ins, self.outs, self.wires, self.regs = [], [], [], []
        self.readable = []        # variables expressions may use (in dependency order)
        self.kids = []            # (Design, inst)
        self.fns = []             # (name, args [(n,w)], ret w)
        self.n = 0
        self.clk = self.rst = None
        self.defs = 0
        self.iters = []

    # --------------------------------------------------------- small helpers
    def c(self, p):
        return self.r.random() < p

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def decl(self, v, kind):
        o = ""
        if v.dims:
            o += " (dims %s)" % " ".join(map(str, v.dims))
            if v.dims == (1,):
                o += " xa"
        if v.sg:
            o += " s"
        if v.up:
            o += " up"
        if kind in ("in", "out"):
            self.cmds.append("(port %s %s %d%s)" % (kind, v.name, v.w, o))
        else:
            self.cmds.append("(var %s %d%s)" % (v.name, v.w, o))
        return v

    def shape(self, for_input=False):
        r, cf = self.r, self.cfg
        if cf["arrays"] and self.c(0.22):
            n = r.choice([2, 2, 4, 3, 2, 4, 3, 2, 1])
            w = r.randint(1, max(1, min(cf["maxw"], 4)))
            dims = [n]
            if self.c(0.3) and n * w * 2 <= 16:
                dims.append(2)
            return (w, dims, False, cf["upk"] and self.c(0.35))
        sg = cf["signed"] and self.c(0.2)
        return (r.randint(2 if sg else 1, cf["maxw"]) if self.c(0.8) else (2 if sg else 1), [], sg, False)

    # ------------------------------------------------------------ expressions
    def leaf_candidates(self, w, sg):
        res = []
        for v in self.readable:
            if sg:
                if v.sg and not v.dims and v.w == w:
                    res.append(v.name)
                continue
            if v.dims:
                if v.width == w and not v.up and False:
                    res.append(v.name)
                if v.w == w or v.w > w:
                    ix = [self.r.randrange(d) for d in v.dims]
                    e = v.name
                    for i in ix:
                        e = "(ix %s %d)" % (e, i)
                    if v.w == w:
                        res.append(e)
                    else:
                        lo = self.r.randint(0, v.w - w)
                        res.append("(sl %s %d %d)" % (e, lo + w - 1, lo))
            elif v.w == w and not v.sg:
                res.append(v.name)
                res.append(v.name)
            elif v.w > w:
                lo = self.r.randint(0, v.w - w)
                res.append("(sl %s %d %d)" % (v.name, lo + w - 1, lo))
        return res

    def const(self, w, sg=False):
        r = self.r
        if w > 62:      # constants are 64-bit integers in the API
            v = r.choice([0, 1, (1 << 62) - 1, r.getrandbits(62)])
            return "(c %d %d%s)" % (-v if sg and self.c(0.5) else v, w, " s" if sg else "")
        if sg:
            v = r.choice([0, 1, -1, (1 << (w - 1)) - 1, -(1 << (w - 1)), r.randint(-(1 << (w - 1)), (1 << (w - 1)) - 1)])
            return "(c %d %d s)" % (v, w)
        v = r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), r.randint(0, (1 << w) - 1)])
        v &= (1 << w) - 1
        return "(c %d %d)" % (v, w)

    def expr(self, w, depth, sg=False, noconst=False):
        r, cf = self.r, self.cfg
        if depth <= 0 or self.c(0.12):
            l = self.leaf_candidates(w, sg)
            if l and (noconst or self.c(0.85)):
                return r.choice(l)
            if sg:
                if not cf["sgconst"] or noconst:
                    u = self.leaf_candidates(w, False)
                    if u:
                        return "(cast %s signed)" % r.choice(u)
                return self.const(w, True)
            if noconst or self.c(0.4):
                # widen a narrower variable
                for ww in range(w - 1, 0, -1):
                    l = self.leaf_candidates(ww, False)
                    if l:
                        return "(ext %s %d)" % (r.choice(l), w)
            return self.const(w)
        d = depth - 1
        if sg:
            k = r.choice(["+", "-", "&", "|", "^", "~", "neg", "?", "ext", "cast", "*", ">>>", "/", "%"])
            if k in ("/", "%") and not cf["division"]:
                k = "-"
            if k == "*" and not cf["mul"]:
                k = "+"
            if k in ("~", "neg"):
                return "(%s %s)" % (k, self.expr(w, d, True, True))
            if k == "?":
                return "(? %s %s %s)" % (self.expr(1, d, noconst=True), self.expr(w, d, True), self.expr(w, d, True))
            if k == "ext":
                if w > 2 and cf["ext"]:
                    return "(ext %s %d)" % (self.expr(r.randint(2, w - 1), d, True, True), w)
                k = "cast"
            if k == "cast":
                if cf["cast"]:
                    return "(cast %s signed)" % self.expr(w, d, False, True)
                k = "+"
            if k == ">>>":
                if not cf["shift"]:
                    k = "-"
                else:
                    return "(>>> %s %s)" % (self.expr(w, d, True, True), self.expr(w, 0, True, True))
            return "(%s %s %s)" % (k, self.expr(w, d, True, True), self.expr(w, d, True))
        if w == 1 and self.c(0.6):
            k = r.choice(["cmp", "cmp", "red", "log", "not", "bit", "scmp"])
            if k == "cmp":
                ww = r.randint(1, cf["maxw"])
                return "(%s %s %s)" % (r.choice(["==", "!=", "<", ">", "<=", ">="]), self.expr(ww, d, noconst=True), self.expr(ww, d))
            if k == "scmp" and cf["signed"]:
                ww = r.randint(2, cf["maxw"])
                return "(%s %s %s)" % (r.choice(["==", "!=", "<", ">", "<=", ">="]), self.expr(ww, d, True, True), self.expr(ww, d, True))
            if k == "red":
                return "(%s %s)" % (r.choice(["ror", "rand", "rxor"]), self.expr(r.randint(1, cf["maxw"]), d, noconst=True))
            if k == "log" and cf["logical"]:
                ww = r.choice([1, 1, 2, 3])
                return "(%s %s %s)" % (r.choice(["&&", "||"]), self.expr(ww, d, noconst=True), self.expr(ww, d, noconst=True))
            if k == "bit" and cf["dyn"]:
                c = [v for v in self.readable if not v.dims and v.w in (2, 4, 8) and not v.sg]
                if c:
                    v = r.choice(c)
                    ii = self.leaf_candidates(log2(v.w), False)
                    if ii:
                        return "(vx %s %s)" % (v.name, r.choice(ii))
            return "(! %s)" % self.expr(r.randint(1, cf["maxw"]), d, noconst=True)
        opts = ["+", "-", "&", "|", "^", "~", "neg"]
        if cf["mul"]:
            opts.append("*")
        if cf["division"]:
            opts += ["/", "%"]
        if cf["shift"]:
            opts += ["<<", ">>", ">>>"]
        if cf["cond"]:
            opts += ["?", "?"]
        if cf["cat"] and w > 1:
            opts += ["cat", "cat"]
        if cf["ext"] and w > 1:
            opts.append("ext")
        if cf["dup"] and w > 1:
            opts.append("dup")
        if cf["cast"] and cf["signed"] and w > 1:
            opts.append("cast")
        if self.fns:
            opts += ["call"]
        if cf["dyn"]:
            opts += ["dyn"]
        if cf["power"]:
            opts += ["**"]
        k = r.choice(opts)
        if k in ("~", "neg"):
            return "(%s %s)" % (k, self.expr(w, d, noconst=True))
        if k in ("<<", ">>", ">>>"):
            ws = w if self.c(0.7) or w == 1 else r.randint(1, w - 1)
            sh = self.expr(ws, d, noconst=True) if self.c(0.6) else "(c %d %d)" % (r.randint(0, min((1 << w) - 1, w + 1)), w)
            return "(%s %s %s)" % (k, self.expr(w, d, noconst=True), sh)
        if k == "?":
            return "(? %s %s %s)" % (self.expr(1, d, noconst=True), self.expr(w, d), self.expr(w, d))
        if k == "cat":
            n = r.randint(2, min(3, w))
            cuts = sorted(r.sample(range(1, w), n - 1))
            ws = [b - a for a, b in zip([0] + cuts, cuts + [w])]
            return "(cat %s)" % " ".join(self.expr(x, d if x > 1 else 0) for x in ws)
        if k == "ext":
            return "(ext %s %d)" % (self.expr(r.randint(1, w - 1), d, noconst=True), w)
        if k == "dup":
            fs = [f for f in range(1, w) if w % f == 0]
            f = r.choice(fs)
            return "(dup %s %d)" % (self.expr(f, d, noconst=True), w // f)
        if k == "cast":
            return "(cast %s unsigned)" % self.expr(w, d, True, True)
        if k == "call":
            fs = [f for f in self.fns if f[2] == w]
            if fs:
                f = r.choice(fs)
                return "(call %s %s)" % (f[0], " ".join("(%s %s)" % (n, self.expr(ww, min(d, 1))) for n, ww in f[1]))
            k = "+"
        if k == "dyn":
            c = [v for v in self.readable if v.dims and len(v.dims) == 1 and v.w == w and v.dims[0] in (2, 4) and not v.sg]
            if c:
                v = r.choice(c)
                ii = self.leaf_candidates(log2(v.dims[0]), False)
                if ii:
                    return "(vx %s %s)" % (v.name, r.choice(ii))
            k = "+"
        return "(%s %s %s)" % (k, self.expr(w, d, noconst=True), self.expr(w, d))

    # ------------------------------------------------------------- statements
    def targets(self, v):
        """disjoint assignable pieces covering v: (sexp, width, sg)"""
        if not v.dims:
            if v.w > 1 and self.cfg["slices_drive"] and not v.sg and self.c(0.3):
                cut = self.r.randint(1, v.w - 1)
                return [("(sl %s %d 0)" % (v.name, cut - 1), cut, False), ("(sl %s %d %d)" % (v.name, v.w - 1, cut), v.w - cut, False)]
            return [(v.name, v.w, v.sg)]
        res = []

        def rec(e, dims):
            if not dims:
                res.append((e, v.w, False))
                return
            for i in range(dims[0]):
                rec("(ix %s %d)" % (e, i), dims[1:])
        rec(v.name, v.dims)
        return res

    def case_consts(self, w, n):
        vals = list(range(1 << w)) if w <= 4 else self.r.sample(range(1 << w), 16)
        self.r.shuffle(vals)
        return vals[:n]

    def nested(self, pieces, op, depth, total=False):
        """list of statements assigning some of the pieces; total => every path assigns all"""
        r = self.r
        out = []
        k = r.random()
        if depth > 0 and k < 0.45:
            c = self.expr(r.randint(2, 4) if self.c(0.15) else 1, self.cfg["depth"] - 1, noconst=True)
            th = self.nested(pieces, op, depth - 1, total)
            el = self.nested(pieces, op, depth - 1, total) if total or self.c(0.6) else []
            if el:
                out.append("(if %s (%s) (%s))" % (c, " ".join(th), " ".join(el)))
            else:
                out.append("(if %s (%s))" % (c, " ".join(th)))
        elif depth > 0 and k < 0.7 and self.cfg["switch"]:
            w = r.randint(1, min(3, self.cfg["maxw"]))
            t = self.expr(w, 0 if self.c(0.7) else 1, noconst=True)
            n = r.randint(1, min(4, 1 << w))
            cs = []
            for x in self.case_consts(w, n):
                b = self.nested(pieces, op, depth - 1, total)
                cs.append("((c %d %d) %s)" % (x, w, " ".join(b)))
            if total or self.c(0.5):
                cs.append("(default %s)" % " ".join(self.nested(pieces, op, depth - 1, total)))
            out.append("(switch %s %s)" % (t, " ".join(cs)))
        else:
            ps = list(pieces) if total else ([p for p in pieces if self.c(0.7)] or [r.choice(pieces)])
            for e, w, sg in ps:
                out.append("(%s %s %s)" % (op, e, self.expr(w, self.cfg["depth"], sg)))
        return out

    def drive_comb(self, vs):
        """drive the variables vs (one process or assigns); reads only self.readable"""
        r = self.r
        if len(vs) == 1 and self.c(0.45):
            v = vs[0]
            for e, w, sg in self.targets(v):
                self.body.append("(= %s %s)" % (e, self.expr(w, self.cfg["depth"], sg)))
            return
        if len(vs) == 1 and vs[0].dims and len(vs[0].dims) == 1 and self.cfg["forloop"] and self.c(0.6):
            v = vs[0]
            it = self.fresh("i")
            src = [x for x in self.readable if x.dims and len(x.dims) == 1 and x.dims[0] >= v.dims[0] and x.w == v.w]
            if src and self.c(0.7):
                rhs = "(%s (vx %s %%%s) %s)" % (r.choice(["+", "^", "&"]), r.choice(src).name, it, self.expr(v.w, 1))
            else:
                rhs = self.expr(v.w, 2)
            lo, hi, inc = 0, v.dims[0], 1
            if self.c(0.25) and self.cfg["decfor"]:
                lo, hi, inc = v.dims[0] - 1, -1, -1
            self.body.append("(comb (for %s %d %d %d (= (vx %s %%%s) %s)))" % (it, lo, hi, inc, v.name, it, rhs))
            return
        pieces = [p for v in vs for p in self.targets(v)]
        b = []
        if self.c(0.5):
            for e, w, sg in pieces:
                b.append("(= %s %s)" % (e, self.expr(w, 1, sg)))
            saved = list(self.readable)
            if self.c(0.35):
                self.readable = self.readable + [v for v in vs]
            for _ in range(r.randint(1, 2)):
                b += self.nested(pieces, "=", 2)
            self.readable = saved
        else:
            b += self.nested(pieces, "=", 2, total=True)
        self.body.append("(comb %s)" % " ".join(b))

    def drive_seq(self, vs):
        r = self.r
        pieces = [p for v in vs for p in self.targets(v)]
        edge = "neg" if self.cfg["negclk"] and self.c(0.3) else "pos"
        if self.rst and self.c(0.7):
            rs = ["(= %s %s)" % (e, self.const(w, sg)) for e, w, sg in pieces]
            el = []
            for _ in range(r.randint(1, 2)):
                el += self.nested(pieces, "=", 2)
            rst_e = r.choice(["(! %s)" % self.rst, "(~ %s)" % self.rst])
            if self.cfg["syncreset"] and self.c(0.4):
                ev = "((%s %s))" % (edge, self.clk)
            else:
                ev = "((%s %s) (neg %s))" % (edge, self.clk, self.rst)
            self.body.append("(seq %s (if %s (%s) (%s)))" % (ev, rst_e, " ".join(rs), " ".join(el)))
        else:
            b = []
            for _ in range(r.randint(1, 2)):
                b += self.nested(pieces, "=", 2)
            self.body.append("(seq ((%s %s)) %s)" % (edge, self.clk, " ".join(b)))

    def function(self):
        r = self.r
        n = self.fresh("fn")
        args = [("x%d" % i, r.randint(1, self.cfg["maxw"])) for i in range(r.randint(1, 2))]
        w = r.randint(1, self.cfg["maxw"])
        saved, self.readable = self.readable, [V("$" + a, ww) for a, ww in args]
        fns, self.fns = self.fns, []
        if self.c(0.5):
            body = "(if %s ((retn %s)) ((retn %s)))" % (self.expr(1, 1, noconst=True), self.expr(w, 2), self.expr(w, 2))
        else:
            body = "(retn %s)" % self.expr(w, 2)
        self.readable, self.fns = saved, fns
        self.body.append("!func %s (inputs %s) (ret %d) %s" % (n, " ".join("(%s %d)" % a for a in args), w, body))
        self.fns.append((n, args, w))

    # ----------------------------------------------------------------- build
    def build(self, ins=None, outs=None, need_clk=None):
        r, cf = self.r, self.cfg
        use_clk = cf["seq"] and (self.c(0.75) if need_clk is None else need_clk)
        tot = 0
        for _ in range(r.randint(*cf["ninputs"])):
            w, dims, sg, up = self.shape(True)
            v = V(self.fresh("in"), w, dims, sg, up)
            if tot + v.width > cf["bits_limit"]:
                continue
            tot += v.width
            self.decl(v, "in")
            self.ins.append(v)
            self.readable.append(v)
        if not any(not v.dims and not v.sg for v in self.ins):
            v = self.decl(V(self.fresh("in"), r.randint(1, cf["maxw"])), "in")
            self.ins.append(v)
            self.readable.append(v)
        if use_clk:
            self.clk = "clk"
            self.cmds.append("(port in clk 1 clk)")
            if self.c(0.7):
                self.rst = "rst_n"
                self.cmds.append("(port in rst_n 1 arst)")
        if cf["func"] and self.c(0.35):
            self.function()
        # registers are readable everywhere
        if use_clk:
            for _ in range(r.randint(1, 3)):
                w, dims, sg, up = self.shape()
                v = self.decl(V(self.fresh("r"), w, dims, sg, up), "var")
                self.regs.append(v)
                self.readable.append(v)
        # children
        nk = 0
        if cf["children"] and self.level < 2:
            nk = r.randint(*cf["nkids"]) if self.level == 0 and cf.get("nkids") else r.choice([0, 0, 1, 1, 2]) if self.level == 0 else r.choice([0, 0, 1])
        plan = ["w"] * r.randint(*cf["nwires"]) + ["k"] * nk
        r.shuffle(plan)
        pend = []
        for p in plan:
            if p == "w":
                w, dims, sg, up = self.shape()
                v = self.decl(V(self.fresh("w"), w, dims, sg, up), "var")
                self.wires.append(v)
                pend.append(v)
                if self.c(0.6):
                    self.drive_comb(pend)
                    self.readable += pend
                    pend = []
            else:
                if pend:
                    self.drive_comb(pend)
                    self.readable += pend
                    pend = []
                self.instance()
        if pend:
            self.drive_comb(pend)
            self.readable += pend
        # outputs
        for _ in range(r.randint(*cf["nouts"])):
            w, dims, sg, up = self.shape()
            v = self.decl(V(self.fresh("o"), w, dims, sg, up), "out")
            self.outs.append(v)
            if use_clk and self.c(0.25):
                self.drive_seq([v])
            else:
                same = [x for x in self.readable if x.dims == v.dims and x.w == v.w and x.sg == v.sg and x.up == v.up]
                if same and self.c(0.35):
                    self.body.append("(= %s %s)" % (v.name, r.choice(same).name))
                else:
                    self.drive_comb([v])
        regs = list(self.regs)
        while regs:
            k = r.randint(1, min(2, len(regs)))
            self.drive_seq(regs[:k])
            regs = regs[k:]
        return self

    def instance(self):
        r = self.r
        if self.kids and self.c(0.25) and False:
            pass
        d = (self.KID or Design)(r, dict(self.cfg, ninputs=(1, 3), nwires=(0, 2), nouts=(1, 2), children=self.cfg["children"] and self.level == 0 and self.c(0.3)),
                   "%s_%s" % (self.h, self.fresh("m")), level=self.level + 1)
        d.build(need_clk=None if self.clk else False)
        if d.rst and not self.rst:
            self.rst_missing = True
        inst = "u" + self.fresh("")
        self.kids.append((d, inst))
        self.body.append("!child %s %s" % (inst, d.h))
        for v in d.ins:
            src = [x for x in self.readable if x.dims == v.dims and x.w == v.w and x.sg == v.sg and x.up == v.up]
            if v.dims:
                if src:
                    self.body.append("(= %s/%s %s)" % (inst, v.name, r.choice(src).name))
                else:
                    w = self.decl(V(self.fresh("w"), v.w, v.dims, v.sg, v.up), "var")
                    self.drive_comb([w])
                    self.readable.append(w)
                    self.body.append("(= %s/%s %s)" % (inst, v.name, w.name))
            elif src and self.c(0.5):
                self.body.append("(= %s/%s %s)" % (inst, v.name, r.choice(src).name))
            else:
                self.body.append("(= %s/%s %s)" % (inst, v.name, self.expr(v.w, 2, v.sg)))
        if d.clk:
            self.body.append("(= %s/clk clk)" % inst)
            if d.rst:
                if self.rst:
                    self.body.append("(= %s/rst_n rst_n)" % inst)
                else:
                    self.cmds.append("(port in rst_n 1 arst)")
                    self.rst = "rst_n"
                    self.body.append("(= %s/rst_n rst_n)" % inst)
        for v in d.outs:
            if self.c(0.7) or v.dims:
                w = self.decl(V(self.fresh("c"), v.w, v.dims, v.sg, v.up), "var")
                self.body.append("(= %s %s/%s)" % (w.name, inst, v.name))
                self.readable.append(w)
                self.wires.append(w)
            else:
                # read the child's port directly in expressions
                self.readable.append(V("%s/%s" % (inst, v.name), v.w, v.dims, v.sg, v.up))

    def script(self):
        """list of driver commands building this module: children first, or (late) their bodies after they are attached"""
        late = self.level == 0 and self.kids and self.c(0.3)
        if late:
            return self.head(True) + self.bodies()
        return self.head(False)

    def head(self, late):
        res = []
        for d, _ in self.kids:
            res += d.head(late)
        res.append("(gen %s %s)" % (self.h, self.name))
        res += self.cmds
        return res if late else res + self.stmts()

    def bodies(self):
        res = ["(at %s)" % self.h] + self.stmts()
        for d, _ in self.kids:
            res += d.bodies()
        return res

    def stmts(self):
        res = []
        for b in self.body:
            if b.startswith("!func"):
                res.append("(func" + b[5:] + ")")
            elif b.startswith("!child"):
                res.append("(child" + b[6:] + ")")
            elif b.startswith("!def"):
                _, h, rest = b.split(" ", 2)
                res += ["(def %s %s)" % (h, rest), "(add %s)" % h]
            else:
                res.append("(add %s)" % b)
        return res


def design(r, cfg, handle="top"):
    return Design(r, cfg, handle).build()


def vectors(r, widths, n):
    """n input vectors for inputs of the given widths; corner values first"""
    tot = sum(widths)
    if tot <= 4 and (1 << tot) <= max(n, 8):
        res = []
        for x in range(1 << tot):
            v = []
            for w in widths:
                v.append(x & ((1 << w) - 1))
                x >>= w
            res.append(v)
        return res
    res = [[0] * len(widths), [(1 << w) - 1 for w in widths]]
    while len(res) < n:
        res.append([r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), r.getrandbits(w), r.getrandbits(w), r.getrandbits(w)]) & ((1 << w) - 1) for w in widths])
    return res[:n] if n >= 2 else res[:2]
