"""Random sequences of expression-building calls (KBuild).  The generator keeps a rough
idea of shapes only to aim at the border between legal and illegal calls; what is legal
is decided by the specification."""


class Build:
    def __init__(self, r):
        self.r, self.ops, self.cmds, self.t = r, [], [], []    # t: handle -> rough type
        self.n = 0

    def put(self, op, text, ty):
        """declare handle number n (from 1); ty None for assignments"""
        if ty is not None:
            self.n += 1
            op["h"] = self.n
            self.t.append(dict(ty, h=self.n))
        op.setdefault("h", 0)
        op.setdefault("a", [])
        op.setdefault("n", [])
        op["cmd"] = text
        self.ops.append(op)

    def name(self, t):
        return t.get("name") or "e%d" % t["h"]

    def var(self):
        r = self.r
        k = r.random()
        dims, up, sg, x = [], False, False, False
        ew = r.choice([1, 1, 2, 3, 4, 4, 5, 8, 8, 12, 16, 33, 64, 70])
        if k < 0.3:
            ew = r.choice([1, 2, 4])
            dims = r.choice([[2], [3], [4], [2, 2], [3, 2], [2, 3], [4, 1], [2, 2, 2], [3, 1]])
            up = r.random() < 0.3
        elif k < 0.35:
            x = True
            up = r.random() < 0.3
        elif k < 0.6:
            sg = True
        nm = "x%d" % (self.n + 1)
        port = r.random() < 0.2
        text = "(%s %s %d%s%s%s)" % ("port out" if port else "var", nm, ew, " s" if sg else "", " (dims %s)" % " ".join(map(str, dims)) if dims else "",
                                     (" up" if up else "") + (" xa" if x else ""))
        w = ew
        for d in dims:
            w *= d
        self.put({"o": "var", "d": dims, "ew": ew, "sg": sg, "pk": not up, "x": x}, text,
                 {"name": nm, "w": w, "d": dims, "ew": ew, "sg": sg, "pk": not up, "k": "var", "x": x})

    def const(self, w=None, sg=None):
        r = self.r
        w = w or r.choice([1, 2, 3, 4, 4, 5, 8, 8, 12, 16, 33, 64])
        sg = r.random() < 0.3 if sg is None else sg
        c = [0, 1, 3, 7, 8, 15, 16, 30]
        if w < 28:
            c += [(1 << w) - 1, 1 << w, (1 << (w - 1)) - 1, 1 << (w - 1)]
        v = r.choice(c)
        if sg and r.random() < 0.5:
            v = -v - r.choice([0, 1])
        self.let({"o": "c", "v": v, "w": w, "sg": sg}, "(c %d %d%s)" % (v, w, " s" if sg else ""), {"w": w, "d": [], "ew": w, "sg": sg, "pk": True, "k": "const"})

    def let(self, op, e, ty):
        self.put(op, None, ty)
        op["cmd"] = "(let e%d %s)" % (self.n, e)

    def pick(self, f=lambda t: True):
        c = [t for t in self.t if f(t)]
        return self.r.choice(c) if c else None

    def mate(self, a):
        """an operand for a: usually of the same width, else close"""
        r = self.r
        k = r.random()
        usable = lambda t: self.usable(t)
        if k < 0.55:
            b = self.pick(lambda t: t["w"] == a["w"] and usable(t) and (t["sg"] == a["sg"] or r.random() < 0.3))
            if b:
                return b
        if k < 0.75:
            b = self.pick(lambda t: t["k"] == "const")
            if b:
                return b
        return self.pick(usable)

    def usable(self, t):
        return t["pk"]

    def step(self):
        r = self.r
        k = r.random()
        if k < 0.08 or self.n < 3:
            return self.var()
        if k < 0.2:
            return self.const()
        if k < 0.42:        # selections
            p = self.pick(lambda t: t["k"] in ("var", "sel"))
            n = 1 if p["x"] else p["d"][0] if p["d"] else p["ew"]
            st = p["w"] // n
            if r.random() < 0.75:
                l = r.randint(0, n - 1)
                h = r.choice([l, l, r.randint(l, n - 1), n - 1])
                if r.random() < 0.12:
                    h, l = r.choice([(n, l), (n, n), (l - 1, l) if l else (n, l), (n + 1, n)])
                c = max(1, h - l + 1)
                d = p["d"]
                ty = {"w": max(1, c * st), "d": ([] if not d else d[1:] if c == 1 else [c] + d[1:]), "ew": p["ew"] if d or p["x"] else max(1, c), "sg": False,
                      "pk": p["pk"] or not d or (c == 1 and len(d) == 1), "k": "sel", "x": False}
                e = "(ix %s %d)" % (self.name(p), h) if h == l and r.random() < 0.6 else "(sl %s %d %d)" % (self.name(p), h, l)
                self.let({"o": "sl", "a": [p["h"]], "n": [h, l]}, e, ty)
            else:
                need = (n - 1).bit_length()
                i = self.pick(lambda t: t["w"] <= need and t["k"] != "const" and not t["d"] and self.usable(t)) if r.random() < 0.85 else self.pick(lambda t: t["k"] == "var" and not t["d"])
                if not i or i["k"] == "cat":
                    return self.const()
                d = p["d"]
                ty = {"w": st, "d": d[1:], "ew": p["ew"] if d or p["x"] else 1, "sg": False, "pk": p["pk"] or len(d) <= 1, "k": "sel", "x": False, "dyn": True}
                self.let({"o": "vx", "a": [p["h"], i["h"]]}, "(vx %s %s)" % (self.name(p), self.name(i)), ty)
            return
        a = self.pick(self.usable)
        if not a:
            return self.const()
        vec = lambda w, sg, k="expr": {"w": w, "d": [], "ew": w, "sg": sg, "pk": True, "k": k, "x": False}
        if k < 0.5:
            xs = [a] + [self.pick(lambda t: self.usable(t) and (t["sg"] == a["sg"] or r.random() < 0.1)) or a for _ in range(r.choice([1, 1, 2]))]
            if any(t["k"] == "cat" for t in xs):
                xs = [t for t in xs if t["k"] != "cat"]
            if len(xs) < 2 or sum(t["w"] for t in xs) > 400:
                return self.const()
            self.let({"o": "cat", "a": [t["h"] for t in xs]}, "(cat %s)" % " ".join(map(self.name, xs)), vec(sum(t["w"] for t in xs), False, "cat" if all(t["k"] in ("var", "sel") for t in xs) else "expr"))
        elif k < 0.55:
            w = max(1, a["w"] + r.choice([-1, 0, 1, 4, 30]))
            self.let({"o": "ext", "a": [a["h"]], "n": [w]}, "(ext %s %d)" % (self.name(a), w), vec(w, a["sg"]))
        elif k < 0.58:
            if a["w"] > 100:
                return self.const()
            n = r.choice([1, 2, 3])
            self.let({"o": "dup", "a": [a["h"]], "n": [n]}, "(dup %s %d)" % (self.name(a), n), vec(a["w"] * n, False))
        elif k < 0.65:
            ct = r.choice(["signed", "unsigned", "resize"])
            w = r.choice([a["w"], a["w"] + 2, max(1, a["w"] - 1), 8])
            self.let({"o": ct, "a": [a["h"]], "n": [w]}, "(cast %s %s%s)" % (self.name(a), ct, " %d" % w if ct == "resize" else ""),
                     dict(a, k="const" if ct == "signed" and a["sg"] and a["k"] == "const" else "expr", sg=ct == "signed" or ct == "resize" and a["sg"], name=None, x=a.get("x", False), **({"w": w, "ew": w, "d": []} if ct == "resize" else {})))
        elif k < 0.69:
            op = r.choice(["~", "neg", "plus", "!", "ror", "rand", "rxor"])
            red = op in ("!", "ror", "rand", "rxor")
            self.let({"o": "op", "p": op, "a": [a["h"]]}, "(%s %s)" % (op, self.name(a)), vec(1, False) if red else dict(a, k="expr", name=None, x=False))
        elif k < 0.82:
            b = self.mate(a)
            if r.random() < 0.3:
                a, b = b, a
            op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"])
            rel = op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||")
            w = max(a["w"], b["w"])
            self.let({"o": "op", "p": op, "a": [a["h"], b["h"]]}, "(%s %s %s)" % (op, self.name(a), self.name(b)), vec(1, False) if rel else vec(w, a["sg"] and b["sg"]) if a["w"] != w else dict(a, k="expr", sg=a["sg"] and (b["sg"] or op in ("<<", ">>", ">>>")), name=None, x=False))
        elif k < 0.87:
            b = self.mate(a)
            c = self.pick(lambda t: t["w"] == 1 and self.usable(t)) if r.random() < 0.85 else self.pick(self.usable)
            if not c:
                return self.const(1, False)
            self.let({"o": "?", "a": [c["h"], a["h"], b["h"]]}, "(? %s %s %s)" % (self.name(c), self.name(a), self.name(b)), dict(vec(max(a["w"], b["w"]), a["sg"] and b["sg"])))
        else:
            l = self.pick(lambda t: t["k"] in ("var", "sel", "cat"))
            m = r.random()
            b = self.pick(lambda t: t["w"] == l["w"] and t["sg"] == l["sg"]) if m < 0.75 else self.pick(lambda t: t["k"] == "const" and t["sg"] == l["sg"]) if m < 0.9 else self.pick()
            b = b or self.pick()
            self.put({"o": "=", "a": [l["h"], b["h"]]}, "(add (= %s %s))" % (self.name(l), self.name(b)), None)


def sequence(r, n):
    b = Build(r)
    while len(b.ops) < n:
        b.step()
    return b.ops
