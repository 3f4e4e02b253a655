"""Flattening: hierarchical designs (kratos IR dump, or parsed SystemVerilog) to
index-based flat designs for the TLA+ modules KType / SvType.  Only names are
resolved here; widths, shapes, signs and behaviour are the specification's."""


class FlatError(Exception):
    pass


def order_procs(procs, reads, writes):
    """heuristic evaluation order (the fixpoint does not depend on it)"""
    n = len(procs)
    wr = {}
    for i in range(n):
        for v in writes[i]:
            wr.setdefault(v, []).append(i)
    seen, out = [0] * n, []

    def dfs(i):
        stack = [(i, iter([j for v in sorted(reads[i]) for j in wr.get(v, [])]))]
        seen[i] = 1
        while stack:
            k, it = stack[-1]
            for j in it:
                if not seen[j]:
                    seen[j] = 1
                    stack.append((j, iter([m for v in sorted(reads[j]) for m in wr.get(v, [])])))
                    break
            else:
                stack.pop()
                out.append(k)
    for i in range(n):
        if not seen[i]:
            dfs(i)
    return out


def with_clones(dump):
    """a clone has the contents of its definition: its variables, its statements and its children"""
    if not any(r.get("cloned") and not r["stmts"] for r in dump):
        return dump
    recs = [dict(r, vars=list(r["vars"])) for r in dump]
    by = {r["path"]: r for r in recs}
    more = True
    while more:
        more = False
        for r in list(recs):
            d = by.get(r.get("def")) if r.get("cloned") and not r["stmts"] else None
            if d is None or d is r:
                continue
            have = set(v["n"] for v in r["vars"])
            r["vars"] += [v for v in d["vars"] if v["n"] not in have]
            for q in list(recs):
                n = r["path"] + q["path"][len(d["path"]):]
                if q is not d and q["path"].startswith(d["path"]) and n not in by and d["path"] and not n.startswith(d["path"]):
                    by[n] = dict(q, path=n, vars=list(q["vars"]), stmts=[], cloned=True, **{"def": q.get("def") if q.get("cloned") and not q["stmts"] else q["path"]})
                    recs.append(by[n])
                    more = True
    return recs


class KFlat:
    """kratos IR dump -> flat design. dump: list of generator records."""

    def __init__(self, dump, uninit=None):
        dump = with_clones(dump)
        self.g = {r["path"]: r for r in dump}
        self.vars, self.names, self.ix = [], [], {}
        self.comb, self.seq, self.fn = [], [], []
        self.procs = []         # all processes in order, as {"k": kind, "b": statements, "rst": variables of non-clock events}
        self.rd, self.wr = [], []
        self.fnix = {}
        self.seqinfo = []       # per sequential process: path of its generator, attribute values
        self.rec = {}
        for r in dump:
            body = self.body_of(r)
            for v in r["vars"]:
                self.add(r["path"] + v["n"], v)
        for r in dump:
            body = self.body_of(r)
            self.prefix = (body["path"], r["path"])
            self.localfn = None
            for f in body["fn"]:
                self.decl_fn(r, f)
        for r in dump:
            body = self.body_of(r)
            self.prefix = (body["path"], r["path"])
            for f in body["fn"]:
                self.def_fn(r, f)
            for s in body["stmts"]:
                self.top_stmt(s)
        o = order_procs(self.comb, self.rd, self.wr)
        self.comb = [self.comb[i] for i in o]

    def body_of(self, r):
        if r.get("cloned") and not r["stmts"] and r.get("def") in self.g:
            return self.g[r["def"]]
        return r

    def add(self, name, v):
        sz = list(v["size"])
        dims = [] if (sz == [1] and not v.get("xa")) else sz
        self.vars.append({"dims": dims, "ew": v["w"], "sg": bool(v["sg"])})
        self.names.append(name)
        self.ix[name] = len(self.vars)
        self.rec[name] = v
        return len(self.vars)

    def idx(self, n):
        if self.localfn and n in self.localfn:
            return self.localfn[n]
        a, b = self.prefix
        if a != b and n.startswith(a):
            n = b + n[len(a):]
        if n not in self.ix:
            raise FlatError("unknown variable " + n)
        return self.ix[n]

    def rec_of(self, n):
        return self.rec[self.names[self.idx(n) - 1]]

    # -- functions
    def decl_fn(self, r, f):
        p = self.prefix[1]
        args = sorted(f["p"], key=lambda q: (q["o"], q["n"]))
        a = []
        loc = {}
        for q in args:
            i = self.add("%s%s#%s" % (p, f["n"], q["n"]), {"n": q["n"], "w": q["w"], "size": [1], "sg": q["sg"]})
            a.append(i)
            loc[self.prefix[0] + q["n"]] = i
        ret = self.add("%s%s#" % (p, f["n"]), {"n": "", "w": max(1, f["rw"]), "size": [1], "sg": f["rs"]})
        fl = self.add("%s%s#fl" % (p, f["n"]), {"n": "", "w": 1, "size": [1], "sg": False})
        rec = {"args": a, "ret": ret, "fl": fl, "b": [], "names": [q["n"] for q in args], "loc": loc}
        self.fn.append(rec)
        self.fnix[p + f["n"]] = len(self.fn)

    def def_fn(self, r, f):
        rec = self.fn[self.fnix[self.prefix[1] + f["n"]] - 1]
        self.localfn = rec["loc"]
        self.R, self.W = set(), set()
        rec["b"] = self.stmts(f["b"])
        rec["R"] = self.R - set(rec["args"])
        rec["Wr"] = self.W
        self.localfn = None

    # -- statements
    def top_stmt(self, s):
        t = s["t"]
        self.R, self.W = set(), set()
        if t == "as":
            self.push([self.st(s)])
            self.procs.append({"k": "wire", "b": self.comb[-1], "rst": [], "n": 1})
        elif t in ("comb", "latch"):
            b = self.stmts(s["b"])
            self.push(b)
            self.procs.append({"k": t, "b": b, "rst": [], "n": len(s["b"])})
        elif t == "initial":
            self.procs.append({"k": t, "b": self.stmts(s["b"]), "rst": [], "n": len(s["b"])})
        elif t == "seq":
            ev = [{"pos": e["e"] == "pos", "v": self.ex(e["v"])} for e in s["ev"]]
            self.seq.append({"ev": ev, "b": self.stmts(s["b"])})
            self.seqinfo.append((self.prefix[1], s.get("at", [])))
            self.procs.append({"k": "seq", "b": self.seq[-1]["b"], "n": len(s["b"]),
                               "rst": [self.idx(e["v"]["n"]) for e in s["ev"] if e["v"]["t"] == "v" and self.rec_of(e["v"]["n"]).get("pt") != "clk"]})
        elif t == "inst":
            for m in s["p"]:
                # the name of the child's port in the instance the mapping belongs to
                pv, e = m["pv"], m["e"]
                if e["t"] == "null":
                    continue
                self.R, self.W = set(), set()
                if m["d"] == "in":
                    self.push([{"t": "as", "k": "u", "l": self.ex(pv, True), "r": self.ex(e)}])
                elif m["d"] == "out":
                    self.push([{"t": "as", "k": "u", "l": self.ex(e, True), "r": self.ex(pv)}])
        elif t in ("comment", "raw", "aux", "assert", "final", "iinst", "func", "null", "scope"):
            if t in ("iinst",):
                raise FlatError("interface instance")
        elif t == "call":
            self.push([self.st(s)])
        elif t in ("if", "sw", "for"):
            self.push([self.st(s)])
        else:
            raise FlatError("top-level statement " + t)

    def push(self, b):
        self.comb.append(b)
        self.rd.append(self.R)
        self.wr.append(self.W)

    def stmts(self, l):
        return [x for x in (self.st(s) for s in l) if x is not None]

    def st(self, s):
        t = s["t"]
        if t == "as":
            return {"t": "as", "k": s["k"], "l": self.ex(s["l"], True), "r": self.ex(s["r"])}
        if t == "if":
            return {"t": "if", "c": self.ex(s["c"]), "th": self.stmts(s["th"]), "el": self.stmts(s["el"])}
        if t == "sw":
            return {"t": "sw", "c": self.ex(s["c"]), "cs": [{"v": self.ex(c["v"]), "b": self.stmts(c["b"])} for c in s["cs"]],
                    "d": self.stmts(s["d"]), "en": [("K", v, s["c"]["w"]) for v in s.get("en", [])]}
        if t == "for":
            return {"t": "for", "n": s["n"], "st": s["st"], "en": s["en"], "inc": s["inc"], "b": self.stmts(s["b"])}
        if t in ("scope", "comb", "seq"):
            return {"t": "scope", "b": self.stmts(s["b"])}
        if t == "ret":
            return {"t": "ret", "e": self.ex(s["e"])}
        if t == "call":
            e = self.ex(s["e"])
            return {"t": "call", "e": e}
        if t in ("comment", "raw", "aux", "assert", "null"):
            return None
        raise FlatError("statement " + t)

    # -- expressions
    def ex(self, e, lhs=False):
        t = e["t"]
        if t == "v":
            i = self.idx(e["n"])
            (self.W if lhs else self.R).add(i)
            return {"t": "v", "i": i}
        if t in ("c", "param"):
            return {"t": "c", "v": ("K", int(e["v"]), e["w"]), "w": e["w"], "sg": e["sg"]}
        if t == "sl":
            return {"t": "sl", "p": self.ex(e["p"], lhs), "h": e["h"], "l": e["l"]}
        if t == "vx":
            return {"t": "vx", "p": self.ex(e["p"], lhs), "i": self.ex(e["i"])}
        if t == "fld":
            ms, mi, sg = self.members(e)
            return {"t": "fld", "p": self.ex(e["p"], lhs), "ms": ms, "mi": mi, "sg": sg}
        if t == "o":
            return {"t": "o", "op": e["op"], "a": [self.ex(x) for x in e["a"]]}
        if t == "cat":
            return {"t": "cat", "a": [self.ex(x, lhs) for x in e["a"]]}
        if t == "ext":
            return {"t": "ext", "p": self.ex(e["p"]), "w": e["w"]}
        if t == "dup":
            return {"t": "dup", "p": self.ex(e["p"]), "n": int(e["c"]["v"])}
        if t == "cast":
            return {"t": "cast", "ct": e["ct"], "p": self.ex(e["p"], lhs), "w": e["w"]}
        if t == "call":
            f = self.fnix.get(self.prefix[1] + e["f"])
            if f is None:
                raise FlatError("function " + e["f"])
            rec = self.fn[f - 1]
            self.R |= rec.get("R", set())
            self.W |= rec.get("Wr", set()) if False else set()
            by = {a["n"]: a["e"] for a in e["a"]}
            if set(by) != set(rec["names"]):
                raise FlatError("arguments of " + e["f"])
            return {"t": "call", "f": f, "a": [self.ex(by[n]) for n in rec["names"]]}
        if t == "it":
            return {"t": "it", "n": e["n"], "w": e["w"], "sg": e["sg"]}
        raise FlatError("expression " + t)

    def struct_of(self, e):
        """struct definition of a (possibly nested) struct-typed expression"""
        if e["t"] == "v":
            n = e["n"]
            a, b = self.prefix
            if a != b and n.startswith(a):
                n = b + n[len(a):]
            return self.rec[n].get("st")
        if e["t"] == "fld":
            st = self.struct_of(e["p"])
            for m in st["a"]:
                if m["n"] == e["m"]:
                    return m.get("st")
        if e["t"] in ("sl", "vx"):
            return self.struct_of(e["p"])
        return None

    def members(self, e):
        st = self.struct_of(e["p"])
        if not st:
            raise FlatError("field of non-struct")
        ms = [m["w"] for m in st["a"]]
        for k, m in enumerate(st["a"]):
            if m["n"] == e["m"]:
                return ms, k + 1, m["sg"]
        raise FlatError("no member " + e["m"])

    def design(self):
        fn = [{"args": f["args"], "ret": f["ret"], "fl": f["fl"], "b": f["b"]} for f in self.fn]
        return {"kind": "k", "vars": self.vars, "comb": self.comb, "seq": self.seq, "fn": fn}

    def ports(self):
        top = self.g[""]
        r = []
        for v in top["vars"]:
            if v["n"] in top["ports"]:
                w = v["w"]
                for s in v["size"]:
                    w *= s
                r.append((v["n"], v["dir"], v["pt"], w, self.ix[v["n"]]))
        return r


def bits(v, w):
    v &= (1 << w) - 1
    return [(v >> i) & 1 for i in range(w)]


def shape_consts(x, dom):
    """replace ("K", value, width) by an int or a bit list"""
    if isinstance(x, tuple):
        v = x[1] & ((1 << x[2]) - 1)
        if dom == "wint":
            if x[2] > 30 and v >= 1 << 30:
                raise FlatError("constant too wide for the integer domain")
            return v
        return bits(v, x[2])
    if isinstance(x, list):
        return [shape_consts(y, dom) for y in x]
    if isinstance(x, dict):
        return {k: shape_consts(y, dom) for k, y in x.items()}
    return x


def max_width(x):
    """largest word width mentioned in a flat design"""
    m = 0
    if isinstance(x, tuple):
        return x[2]
    if isinstance(x, list):
        for y in x:
            m = max(m, max_width(y))
    elif isinstance(x, dict):
        if "ew" in x:
            w = x["ew"]
            for d in x["dims"]:
                w *= d
            return w
        if x.get("t") in ("it",):
            return 32
        if x.get("t") in ("ext", "size") or (x.get("t") == "cast"):
            m = x["w"]
        for y in x.values():
            m = max(m, max_width(y))
        if "dims" in x and isinstance(x.get("dims"), list) and x["dims"] and isinstance(x["dims"][0], dict):
            w = 1
            for d in x["dims"]:
                w *= d["n"]
            return w
    return m
