"""Batches of equivalence obligations: (reference, observed) pairs explored by spec/Equiv.tla."""
import random

from . import pairs, flat, sv


class Batch:
    def __init__(self, env, nvec=6, K=3, internals=True):
        self.env, self.nvec, self.K, self.internals = env, nvec, K, internals
        self.items = {"wint": [], "wbits": []}
        self.meta = {}
        self.n = self.unstable = 0

    def fail(self, key, what, replay):
        self.env.violation(key, what, replay)

    def add_ir_sv(self, pid, dump, svev, script, seed=0, **kw):
        try:
            fa = pairs.from_dump(dump)
        except flat.FlatError as x:
            return self.fail(self.key("flat", script), "%s: design not closed: %s" % (pid, x), script)
        try:
            fb = pairs.sv_flat(svev)
        except (sv.SvError, KeyError, IndexError, ValueError) as x:
            return self.fail(self.key("sv", script), "%s: generated SystemVerilog is not legal: %r" % (pid, x),
                             {"script": script, "sv": [m["s"] for m in svev["mods"]]})
        self.add(pid, fa, fb, pairs.ports_of_dump(dump), max(pairs.ir_maxw(dump), fb.maxw), script, seed, **kw)

    def add_ir_ir(self, pid, da, db, script, seed=0, **kw):
        try:
            fa = pairs.from_dump(da)
        except flat.FlatError as x:
            return self.fail(self.key("flat", script), "%s: design not closed: %s" % (pid, x), script)
        try:
            fb = pairs.from_dump(db)
        except flat.FlatError as x:
            return self.fail(self.key("flat", script), "%s: design after the passes refers to what is not there: %s" % (pid, x), script)
        pa, pb = pairs.ports_of_dump(da), pairs.ports_of_dump(db)
        if kw.pop("same_ports", True) and [(p[0], p[1], p[3]) for p in pa] != [(p[0], p[1], p[3]) for p in pb]:
            return self.fail(self.key("ports", script), "%s: top ports changed: %s -> %s" % (pid, pa, pb), script)
        kw.setdefault("internals", False)
        self.add(pid, fa, fb, pa, max(pairs.ir_maxw(da), pairs.ir_maxw(db)), script, seed, **kw)

    def key(self, kind, script):
        return kind

    def add(self, pid, fa, fb, ports, maxw, script, seed=0, nvec=None, K=None, internals=None, outs=None, key="eq", word=None, extra=None):
        r = random.Random(seed * 7919 + 17)
        if outs is None:
            outs = [p for p in ports if p[1] == "out"]
            if self.internals if internals is None else internals:
                have = set(p[0] for p in outs)
                pin = set(p[0] for p in ports)
                for n in fa.ix:
                    if n in fb.ix and "#" not in n and n not in have and n not in pin:
                        outs.append((n, "out", "data", 0))
        dom, p = pairs.make(pid, fa, fb, ports, r, nvec or self.nvec, K or self.K, maxw, outs=outs, word=word, extra=extra)
        self.items[dom].append(p)
        self.meta[pid] = (script, [o[0] for o in outs], key, p, dom)
        self.n += 1

    def tlc(self, dom, items):
        return self.env.tlc("Equiv", items, dom)

    def run(self):
        bad = {}
        for dom in ("wint", "wbits"):
            if not self.items[dom]:
                continue
            for t in self.tlc(dom, self.items[dom]):
                if t[0] == "MISMATCH":
                    bad.setdefault(t[1], t)
                elif t[0] == "UNSTABLE":
                    self.unstable += 1
        for pid, t in bad.items():
            script, outs, key, p, dom = self.meta[pid]
            # believe it only when it repeats
            again = [x for x in self.tlc(dom, [p]) if x[0] == "MISMATCH" and x[1] == pid]
            if not again:
                continue
            import json
            try:
                d = json.loads(t[2])
                k = [o["a"] for o in p["outs"]].index(p["outs"][d["out"] - 1]["a"]) if isinstance(d["out"], int) and d["out"] else -1
                where = outs[k] if k >= 0 else "?"
                vec = [p["vec"][n - 1] for n in d["h"]]
            except Exception:
                d, where, vec = t[2], "?", []
            self.env.violation(key, "%s: behaviours differ at %s: %s" % (pid, where, d),
                               {"script": script, "input_vectors": vec, "detail": d, "where": where})
        self.env.traces += self.n
        if self.unstable * 4 > self.n and self.n > 8:
            from .run import CheckError
            raise CheckError("too many unstable designs (%d of %d)" % (self.unstable, self.n))
        return bad


def first_error(ev):
    for e in ev:
        if e["ev"] in ("err", "crash"):
            return e
    return None


def err_text(e, cmds):
    i = e.get("cmd", 0)
    c = cmds[i - 1] if 0 < i <= len(cmds) else ""
    return "%s in %s" % (e.get("msg", "crash (signal %s)" % e.get("sig")), c[:300])
