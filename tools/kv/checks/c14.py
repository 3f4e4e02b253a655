"""C14: inserted pipelines, clock enables and synchronous resets."""
import copy
import random

from .. import eq, flat, gen, pairs, sv

CFG = {"nwires": [1, 2], "nouts": [1, 2], "ninputs": [2, 3], "depth": 1, "maxw": 4, "nkids": [0, 2], "bits_limit": 14, "func": True, "forloop": False}
EN, FL = "clk_en", "flush"


class Ins(gen.Design):
    """modules whose registers are reset, enabled and opted out in every way the passes distinguish"""

    def __init__(self, *a, **k):
        gen.Design.__init__(self, *a, **k)
        self.en = self.fl = False
        self.attrs = []
        self.mode = self.cfg["mode"]

    def build(self, **kw):
        kw["need_clk"] = True
        top = self.level == 0
        if self.mode != "pipe":
            if top or self.c(0.35):
                self.en = self.mode == "en" or self.c(0.5)
                if self.en:
                    self.cmds.append("(port in %s 1 clken)" % EN)
            if self.mode == "sreset" and self.c(0.4):
                self.fl = self.r.choice(["rst", "data"])
                self.cmds.append("(port in %s 1 %s)" % (FL, self.fl))
        gen.Design.build(self, **kw)
        if self.mode == "en" and self.c((0.4 if self.kids else 0.12) if self.level else 0.05):
            self.attrs.append("(attr %s x dont_touch)" % self.h)
        if self.mode == "pipe" and self.c(0.7 if self.level else 0.6):
            self.attrs.append("(attr %s pipeline %d)" % (self.h, self.r.randint(1, 3)))
            if self.c(0.3):
                self.attrs.append("(attr %s pipeline_clk clk)" % self.h)
        return self

    def drive_seq(self, vs):
        r = self.r
        if self.mode == "pipe":
            return gen.Design.drive_seq(self, vs)
        pieces = [p for v in vs for p in self.targets(v)]
        rs = " ".join("(= %s %s)" % (e, self.const(w, sg)) for e, w, sg in pieces)

        def body():
            b = []
            for _ in range(r.randint(1, 2)):
                b += self.nested(pieces, "=", 2)
            return b
        b = body()
        if self.en and self.c(0.3):
            b = ["(if %s (%s))" % (EN, " ".join(b))]
            if self.c(0.25):
                b += body()
        if self.mode == "sreset" and self.fl and self.c(0.2):
            # a synchronous reset already, inside or outside the enable
            if b[0].startswith("(if " + EN) and len(b) == 1 and self.c(0.5):
                b = ["(if %s ((if %s (%s) (%s))))" % (EN, FL, rs, " ".join(body()))]
            else:
                b = ["(if %s (%s) (%s))" % (FL, rs, " ".join(b))]
        ev = "(pos clk)"
        if self.rst and self.c(0.7):
            cond = r.choice(["(! rst_n)", "(~ rst_n)", "(== rst_n (c 0 1))", "(== (c 0 1) rst_n)"])
            b = ["(if %s (%s) (%s))" % (cond, rs, " ".join(b))]
            ev += " (neg rst_n)"
        h = self.h + self.fresh("q")
        self.body.append("!def %s (seq (%s) %s)" % (h, ev, " ".join(b)))
        if self.mode == "en" and self.c(0.12):
            self.attrs.append("(attr %s x dont_touch)" % h)

    def instance(self):
        gen.Design.instance(self)
        d, inst = self.kids[-1]
        for have, n in ((d.en, EN), (d.fl, FL)):
            mine = self.en if n == EN else self.fl
            if not have:
                continue
            k = self.r.random()
            if self.mode == "sreset" and n == EN:
                k = 0.5 + k / 2 if not mine else k * 0.7      # only the reset is wired by this pass
            if k < 0.35 and mine:
                self.body.append("(= %s/%s %s)" % (inst, n, n))
            elif k < 0.7 or (self.mode == "sreset" and n == EN):
                e = self.expr(1, 1, noconst=True)
                pt = "clken" if n == EN else d.fl
                self.body.append("(= %s/%s %s)" % (inst, n, e if pt == "data" else "(cast %s %s)" % (e, pt)))
            elif k < 0.85:
                self.body.append("(= %s/%s (c %d 1))" % (inst, n, self.r.randint(0, 1)))

    def stmts(self):
        return gen.Design.stmts(self) + self.attrs


Ins.KID = Ins


# ------------------------------------------------------------------ what is promised, in terms of the design before
def rename(x, m):
    if isinstance(x, dict):
        if x.get("t") == "v" and x.get("n") in m:
            x["n"] = m[x["n"]]
        for v in x.values():
            rename(v, m)
    elif isinstance(x, list):
        for v in x:
            rename(v, m)


def parent(path):
    q = path.rstrip(".").rsplit(".", 1)
    return "" if len(q) == 1 else q[0] + "."


def pipes(d):
    """outputs of the pipelined modules are opened: <<computed, output, width>>"""
    todo = []
    for g in d:
        n = [int(v) for t, v in g["attrs"] if t == "pipeline"]
        if not n:
            continue
        outs = [v for v in g["vars"] if v.get("dir") == "out"]
        m = {g["path"] + v["n"]: g["path"] + v["n"] + "@pre" for v in outs}
        for s in g["stmts"]:
            rename(s, m)
        for f in g["fn"]:
            rename(f, m)
        g["vars"] += [dict(v, n=v["n"] + "@pre", dir="", pt="") for v in outs]
        todo.append((g["path"], n[0], [v["n"] for v in outs]))
    fa = flat.KFlat(d)
    chg = []
    for p, n, outs in todo:
        q = []
        for o in outs:
            w = 1
            v = fa.vars[fa.ix[p + o] - 1]
            for x in v["dims"] + [v["ew"]]:
                w *= x
            q.append([fa.ix[p + o + "@pre"], fa.ix[p + o], w])
        if q:
            chg.append({"op": "pipe", "n": n, "clk": fa.ix[p + "clk"], "q": q})
    return fa, chg


def wires(d, name, skip):
    """connect the port of every child that has it, where nothing but a constant does; path -> path whose port is meant"""
    use = {}
    by = {g["path"]: g for g in d}
    for g in sorted(d, key=lambda g: g["path"].count(".")):
        p = g["path"]
        have = any(v["n"] == name for v in g["vars"])
        if p == "":
            use[p] = "" if have or name == FL else None
            continue
        up = by[parent(p)]
        if skip(g) and not have:
            use[p] = None
        elif have:
            use[p] = p
            drv = [s for s in up["stmts"] if s["t"] == "as" and s["l"]["t"] == "v" and s["l"]["n"] == p + name]
            if not skip(g) and use[up["path"]] is not None and (not drv or drv[0]["r"]["t"] in ("c", "param")):
                up["stmts"] = [s for s in up["stmts"] if s not in drv] + [
                    {"t": "as", "k": "b", "l": {"t": "v", "n": p + name}, "r": {"t": "v", "n": use[up["path"]] + name}}]
        else:
            use[p] = use[up["path"]]
    return use


def of_type(d, fa, *pts):
    return [fa.ix[g["path"] + v["n"]] for g in d for v in g["vars"] if v.get("pt") in pts]


def enables(d):
    off = lambda g: any(v == "dont_touch" for _, v in g["attrs"])
    use = wires(d, EN, off)
    fa = flat.KFlat(d)
    att = {g["path"]: off(g) for g in d}
    s = [{"i": j + 1, "en": fa.ix[use[p] + EN]} for j, (p, at) in enumerate(fa.seqinfo)
         if not att[p] and "dont_touch" not in at and use[p] is not None]
    return fa, [{"op": "en", "rst": of_type(d, fa, "arst", "rst"), "s": s}]


def sresets(d, over):
    use = wires(d, FL, lambda g: False)
    if not any(v["n"] == FL for v in d[0]["vars"]):
        d[0]["vars"].append({"n": FL, "w": 1, "size": [1], "sg": False, "dir": "in", "pt": "rst"})
    fa = flat.KFlat(d)
    s = [{"i": j + 1, "r": fa.ix[use[p] + FL]} for j, (p, at) in enumerate(fa.seqinfo)]
    # a port of that name is a synchronous reset whatever it was declared as
    srst = sorted(set(of_type(d, fa, "rst") + [fa.ix[g["path"] + FL] for g in d if g["path"] + FL in fa.ix]))
    return fa, [{"op": "sreset", "arst": of_type(d, fa, "arst"), "srst": srst, "ce": of_type(d, fa, "clken"), "over": over, "s": s}]


PASS = {"pipe": "insert_pipeline_stages", "en": "auto_insert_clock_enable", "sreset": "auto_insert_sync_reset"}
LATER = ["fix_assignment_type", "create_module_instantiation"]


def check(E):
    E.cov["designs"] = {}
    for rnd in range(1 if not E.thorough else 10):
        if rnd and E.elapsed() > 600:
            break
        cases, info = [], {}
        for i in range(126 if not E.thorough else 300):
            sd = E.seed * 100003 + rnd * 1009 + i
            r = random.Random("c14-%d" % sd)
            mode = ["pipe", "en", "sreset"][i % 3]
            d = Ins(r, dict(CFG, mode=mode, syncreset=True), "top").build()
            over = r.choice([None, False, True])
            s = ["(strict)"] + d.script()
            if mode == "sreset":
                val = "sync-reset=" + FL + ("" if over is None else ";over_clk_en=" + ("true" if over else "false"))
                s.append('(attr top x "%s")' % val)
            twice = mode != "pipe" and r.random() < 0.15
            s += ["(dump top a)"] + ["(pass %s top)" % PASS[mode]] * (2 if twice else 1)
            full = r.random() < 0.4
            if full:
                s += ["(pass decouple_generator_ports top)"] + ["(pass %s top)" % p for p in LATER]
            s += ["(dump top b)"] + (["(sv top s)"] if full else [])
            cid = "%s%d_%d" % (mode[0], rnd, i)
            cases.append((cid, s))
            info[cid] = (mode, bool(over), sd)
            E.cov["designs"][mode] = E.cov["designs"].get(mode, 0) + 1
        res = E.drive(cases)
        B = eq.Batch(E, nvec=5, K=3 if not E.thorough else 5, internals=False)
        B.key = lambda kind, script: kind
        for cid, cmds in cases:
            mode, over, sd = info[cid]
            ev = res[cid]
            err = eq.first_error(ev)
            if err:
                E.violation("rejected-" + mode, "%s: %s fails on a legal design: %s" % (cid, PASS[mode], eq.err_text(err, cmds)), cmds)
                continue
            da, db = [[e for e in ev if e["ev"] == "dump" and e["tag"] == t][0] for t in "ab"]
            d = copy.deepcopy(da["d"])
            fa, chg = pipes(d) if mode == "pipe" else enables(d) if mode == "en" else sresets(d, over)
            try:
                fb = pairs.from_dump(db)
            except flat.FlatError as x:
                E.violation("flat-" + mode, "%s: the design after %s refers to what is not there: %s" % (cid, PASS[mode], x), cmds)
                continue
            ports, before = pairs.ports_of_dump(db), pairs.ports_of_dump(da)
            extra = [p for p in ports if p[:2] + p[3:] not in [q[:2] + q[3:] for q in before]]
            if [p[0] for p in extra] not in ([], [FL] if mode == "sreset" else []) or len(ports) != len(before) + len(extra):
                E.violation("ports-" + mode, "%s: %s changed the ports of the top module: %s -> %s" % (cid, PASS[mode], before, ports), cmds)
                continue
            outs = [p for p in ports if p[1] == "out"]
            # registers keep their names and can be compared as well
            if mode != "pipe":
                have = set(p[0] for p in ports)
                outs += [(n, "out", "data", 0) for n in fa.ix if n in fb.ix and n not in have and "#" not in n and not n.endswith((EN, FL, "clk", "rst_n"))
                         and fa.rec[n].get("dir") is None]
            mw = max(pairs.ir_maxw(da), pairs.ir_maxw(db))
            B.add(cid, fa, fb, ports, mw, {"mode": mode, "script": cmds}, sd, outs=outs, key="eq-" + mode, extra={"chg": chg})
            for s in ev:
                if s["ev"] == "sv":
                    try:
                        fs = pairs.sv_flat(s)
                    except (sv.SvError, KeyError, IndexError, ValueError) as x:
                        E.violation("sv-illegal-" + mode, "%s: generated SystemVerilog is not legal after %s: %r" % (cid, PASS[mode], x),
                                    {"script": cmds, "sv": [m["s"] for m in s["mods"]]})
                        continue
                    B.add(cid + "_sv", fa, fs, ports, max(mw, fs.maxw), {"mode": mode, "script": cmds}, sd, outs=[p for p in ports if p[1] == "out"],
                          key="sv-" + mode, extra={"chg": chg})
            if len(E.samples) < 6:
                E.samples.append({"case": cid, "mode": mode, "processes": len(fa.seqinfo)})
        B.run()
    E.assumptions += ["two-valued semantics, registers start at zero; one clock per module",
                      "modules that are opted out and have no enable port keep their whole subtree without one"]
