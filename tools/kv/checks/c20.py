"""C20: enable conditions, coverage of simulated runs, faults."""
import copy
import random
import re

from .. import eq, flat, gen, pairs, sv

CFG = {"func": False, "forloop": False, "nwires": [1, 3], "nouts": [1, 2], "ninputs": [2, 3], "depth": 2, "maxw": 5, "nkids": [0, 1], "bits_limit": 40}


def check(E):
    n = int(__import__("os").environ.get("NQ", 90)) if not E.thorough else 500
    for rnd in range(1 if not E.thorough else 4):
        if rnd and E.elapsed() > 600:
            break
        run(E, rnd, n)
    E.assumptions += ["the valuation is that of the design's variables while the statement's process runs: conditions that read a variable assigned earlier in the same process are judged with the valuation, not with the intermediate value",
                      "statements in loops and functions have no computed condition; coverage is that of states in which every variable is known"]


def build(E, rnd, i):
    r = random.Random("c20-%d-%d-%d" % (E.seed, rnd, i))
    cfg = dict(CFG, arrays=i % 2 == 0)
    if r.random() < 0.5:
        cfg.update(nwires=[0, 1], nouts=[1, 1], nkids=[0, 0])
    return r, gen.design(r, cfg).script()


def run(E, rnd, n):
    first, dz = [], {}
    for i in range(n):
        c = "k%d_%d" % (rnd, i)
        r, s = build(E, rnd, i)
        dz[c] = (r, s, i)
        first.append((c, ["(strict)"] + s + ["(pass fix_assignment_type top)", "(dump top a)", "(enable top)"]))
    res = E.drive(first)
    todo, pr = [], {}
    for c, cmds in first:
        e = eq.first_error(res[c])
        if e:
            E.violation("enable-fails", "%s: no enable conditions for a legal design: %s" % (c, eq.err_text(e, cmds)), cmds)
            continue
        r, s, i = dz[c]
        p = Probe(c, [x for x in res[c] if x["ev"] == "dump"][0], r, 12 if not E.thorough else 24)
        pr[c] = p
        if i % 2:
            p.runs = plan(r, len(p.vecs))
            todo.append((c, cmds + [p.fault(p.runs)]))
    res2 = E.drive(todo)
    items = {"wint": [], "wbits": []}
    scripts = {}
    for c, p in pr.items():
        cmds = dict(first)[c]
        ev = res2.get(c) or res[c]
        e = eq.first_error(ev)
        if e:
            E.violation("coverage-fails", "%s: no coverage for a legal design: %s" % (c, eq.err_text(e, dict(todo)[c])), dict(todo)[c])
            continue
        it = p.item(ev, E, cmds)
        if it:
            items[p.dom].append(it)
            scripts[c] = dict(todo).get(c, cmds)
            x = E.cov.setdefault("checked", {"statements": 0, "branches": 0, "runs": 0, "valuations": 0})
            x["statements"] += len(it["nodes"])
            x["branches"] += len(it["br"])
            x["runs"] += len(it["runs"])
            x["valuations"] += len(it["vec"])
    for dom, its in items.items():
        if not its:
            continue
        bad = {}
        for t in E.tlc("KCover", its, word=dom):
            if t[0] == "MISMATCH":
                bad.setdefault((t[1], t[2].split('"what":"')[1].split('"')[0]), t[2])
        # rejections are repeated before they are reported
        ids = sorted({c for c, _ in bad})[:20]
        again = {(t[1], t[2].split('"what":"')[1].split('"')[0]) for t in (E.tlc("KCover", [x for x in its if x["id"] in ids], word=dom) if ids else []) if t[0] == "MISMATCH"}
        for (c, k), what in bad.items():
            if (c, k) in again:
                E.violation(k, "%s: %s" % (c, describe([x for x in its if x["id"] == c][0], what, pr[c])), scripts[c])
        E.traces += len(its)
    if rnd == 0:
        E.samples += [{"case": c, "script": s} for c, s in list(scripts.items())[:3]]


def describe(it, what, p):
    m = re.search(r'"node":(\d+)', what)
    if m:
        k = it["nodes"][int(m.group(1)) - 1]
        return what + " condition: " + str(p.text.get(k["n"]))
    return what + " branches: " + str([(b["n"], b["k"]) for b in it["br"]])[:300]


def plan(r, n):
    return [{"wrong": r.random() < 0.5, "v": sorted(r.sample(range(1, n + 1), r.randint(1, 3)))} for _ in range(r.randint(2, 4))]


class Probe:
    def __init__(self, cid, dump, r, nvec):
        self.cid, self.dump = cid, dump
        d = copy.deepcopy(dump)
        self.nodes, self.br, self.vn, self.vars = [], [], {}, []
        for g in d["d"]:
            self.vars += [(g["path"], v) for v in g["vars"]]
        for g in d["d"]:
            g["kv"] = []
            for s in g["stmts"]:
                self.walk(g, s, 0)
            g["stmts"], g["fn"] = g.pop("kv"), []
        self.fa = flat.KFlat(d["d"])
        self.maxw = pairs.ir_maxw(d)
        self.names = [p + v["n"] for p, v in self.vars]
        ws = []
        for _, v in self.vars:
            w = v["w"]
            for s in v["size"]:
                w *= s
            ws.append(w)
        self.ws = ws
        self.vecs = gen.vectors(r, ws, nvec)
        self.runs = []

    # ------------------------------------------------------------- the tree
    def probe(self, g, e):
        nm = "kv_p%d" % len(self.vn)
        w = e["w"]
        g["vars"].append({"n": nm, "w": w, "size": [1], "tw": w, "sg": False})
        g["kv"].append({"t": "as", "k": "b", "l": {"t": "v", "n": g["path"] + nm, "w": w, "sg": False}, "r": e})
        self.vn[g["path"] + nm] = 1
        return g["path"] + nm

    def walk(self, g, s, up):
        t = s["t"]
        if up and "n" in s:
            self.nodes.append({"n": s["n"], "up": up, "g": g["path"]})
        if t == "if":
            p = self.probe(g, s["c"])
            for k, b in (("th", s["th"]), ("el", s["el"])):
                self.branch(g, s, k, k, [p], up, b)
        elif t == "sw":
            ps = [self.probe(g, {"t": "o", "op": "==", "a": [s["c"], c["v"]], "w": 1, "sg": False}) for c in s["cs"]]
            for p, c in zip(ps, s["cs"]):
                self.branch(g, s, "cs", str(c["v"]["v"]), [p], up, c["b"])
            if s["hd"]:
                self.branch(g, s, "df", "df", ps, up, s["d"])
        elif isinstance(s.get("b"), list) and t != "for":
            for x in s["b"]:
                self.walk(g, x, up)

    def branch(self, g, s, k, nm, ps, up, body):
        self.br.append({"n": s["n"], "k": k, "nm": nm, "c": ps, "up": up})
        me = len(self.br)
        for x in body:
            self.walk(g, x, me)

    # ------------------------------------------------------------ the texts
    def ident(self, name):
        return name.replace(".", "__")

    def sv(self, en):
        ports, body = [], []
        for p, v in self.vars:
            sz = "" if v["size"] == [1] and not v.get("xa") else "".join("[%d:0]" % (s - 1) for s in v["size"])
            up = v.get("pk") is False
            w = "[%d:0]" % (v["w"] - 1) if v["w"] > 1 or (sz and not up) else ""
            ports.append("input logic %s%s%s %s%s" % ("signed " if v["sg"] else "", "" if up else sz, w, self.ident(p + v["n"]), " " + sz if up else ""))
        for k, x in enumerate(self.nodes):
            if x["n"] in en:
                ports.append("output logic kv_e%d" % k)
                body.append("assign kv_e%d = (%s) ? 1'b1 : 1'b0;" % (k, self.qualify(x["g"], en[x["n"]])))
        return "module kvp (\n  %s\n);\n%s\nendmodule\n" % (",\n  ".join(ports), "\n".join(body))

    def qualify(self, path, text):
        """names in a condition are relative to the module the statement is in"""
        def f(m):
            n = m.group(0)
            return self.ident(path + n) if path + n in self.known else n
        self.known = set(self.names)
        return re.sub(r"(?<![\w'])[A-Za-z_]\w*(?:\.[A-Za-z_]\w*)*", f, text)

    def fault(self, runs):
        res = []
        for x in runs:
            st = []
            for v in x["v"]:
                vals = []
                for (p, d), val, w in zip(self.vars, self.vecs[v - 1], self.ws):
                    if d["sg"] and val >> (w - 1):
                        val -= 1 << w
                    vals.append("(top.%s%s %d)" % (p, d["n"], val))
                st.append("(state %s)" % " ".join(vals))
            if x["wrong"]:
                st.append("(wrong top.%s)" % self.names[0])
            res.append("(run %s)" % " ".join(st))
        return "(fault top %s)" % " ".join(res)

    # ------------------------------------------------------------ for the spec
    def item(self, ev, E, cmds):
        en = {x["n"]: x["c"] for x in ev if x["ev"] == "enable"}
        self.text = en
        miss = [x for x in self.nodes if x["n"] not in en]
        if miss:
            E.violation("enable-missing", "%s: no condition for a statement under a condition: %s" % (self.cid, miss[0]), cmds)
            return None
        have = {x["n"] for x in self.nodes}
        text = self.sv(en)
        try:
            fb = sv.SvFlat({"kvp": text}, "kvp", [], [])
        except (sv.SvError, KeyError, IndexError, ValueError) as x:
            E.violation("enable-text", "%s: an enable condition cannot be read: %r" % (self.cid, x), {"script": cmds, "sv": text})
            return None
        self.dom = "wint" if max(self.maxw, fb.maxw) <= 28 else "wbits"
        cv = lambda v, w: v if self.dom == "wint" else flat.bits(v, w)
        runs, ix = [], {(b["n"], b["nm"]): j + 1 for j, b in enumerate(self.br)}
        cov = {x["k"]: x for x in ev if x["ev"] == "cov"}

        def hits(x):
            if x["other"] or [y for y in x["a"] if tuple(y) not in ix]:
                E.violation("coverage-alien", "%s: something covered that is no branch: %s" % (self.cid, x), cmds)
            return sorted(ix[tuple(y)] for y in x["a"] if tuple(y) in ix)
        for k, x in enumerate(self.runs):
            runs.append({"v": x["v"], "wrong": x["wrong"], "seen": hits(cov["run%d" % k])})
        return {"id": self.cid, "a": flat.shape_consts(self.fa.design(), self.dom), "b": flat.shape_consts(fb.design(), self.dom),
                "ins": [{"a": self.fa.ix[n], "b": fb.ix[self.ident(n)]} for n in self.names],
                "vec": [[cv(x, w) for x, w in zip(v, self.ws)] for v in self.vecs],
                "br": [{"k": b["k"], "c": [self.fa.ix[p] for p in b["c"]], "up": b["up"], "n": b["n"]} for b in self.br],
                "nodes": [{"n": x["n"], "up": x["up"], "en": fb.ix["kv_e%d" % k]} for k, x in enumerate(self.nodes)],
                "runs": runs, "fault": hits(cov["fault"]) if runs else []}
