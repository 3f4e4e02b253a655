"""C01: the emitted SystemVerilog behaves like the design it was generated from."""
import random

from .. import eq, gen, sv

TAIL = ["(dump top a)", "(pass decouple_generator_ports top)", "(pass fix_assignment_type top)", "(pass verify_assignments top)",
        "(pass create_module_instantiation top)", "(sv top s)"]
SMALL = {"nwires": [1, 2], "nouts": [1, 1], "ninputs": [2, 3], "depth": 2, "children": False}
CFGS = [
    ("def", {}, 22, 300),
    ("small", SMALL, 70, 900),
    ("tree", {"nwires": [0, 1], "nouts": [1, 1], "ninputs": [1, 2], "depth": 1, "maxw": 4, "func": False, "nkids": [1, 3]}, 24, 300),
    ("edges", {"nwires": [0, 1], "nouts": [1, 2], "ninputs": [1, 2], "depth": 2, "children": False, "negclk": True, "syncreset": True, "maxw": 4}, 24, 300),
    ("deep", {"nwires": [0, 1], "nouts": [1, 1], "ninputs": [2, 3], "depth": 5, "children": False, "seq": False, "maxw": 5}, 10, 120),
    ("wide", {"nwires": [1, 1], "nouts": [1, 1], "ninputs": [1, 2], "depth": 2, "children": False, "maxw": 70, "bits_limit": 200, "division": False, "mul": False}, 10, 120),
]


def nests():
    """every nest of two operators, one output each (reference: the design; observed: the text)"""
    bi = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>"]
    rel = ["<", ">", "<=", ">=", "==", "!=", "&&", "||"]
    un = ["~", "neg", "!", "rand", "ror", "rxor"]
    W = 3
    for sg in (False, True):
        a, b, c = [("(cast %s signed)" % x if sg else x) for x in "abc"]
        def red(x, w):        # a W-bit operand out of a w-bit expression
            return x if w == W else "(cast (ext %s %d) signed)" % (x, W) if sg else "(ext %s %d)" % (x, W)
        es = []
        for o in bi + rel:
            ow = W if o in bi else 1
            for p in bi + rel:
                pw = W if p in bi else 1
                inner = "(%s %s %s)" % (p, a, b)
                if pw == W:
                    es.append(("(%s %s %s)" % (o, inner, c), ow))
                    es.append(("(%s %s (%s %s %s))" % (o, a, p, b, c), ow))
                elif o in rel + ["+", "-", "&", "|", "^"] and not sg:
                    es.append(("(%s %s d)" % (o, inner), 1))
                    es.append(("(%s d %s)" % (o, inner), 1))
                elif o in ("&&", "||", "&", "==") and sg:
                    es.append(("(%s %s d)" % (o, inner), 1))
        for u in un:
            uw = W if u in ("~", "neg") else 1
            for p in bi + rel:
                pw = W if p in bi else 1
                if pw == W or u not in ("neg",):
                    es.append(("(%s (%s %s %s))" % (u, p, a, b), pw if uw == W else 1))
                if uw == W:
                    es.append(("(%s (%s %s) %s)" % (p, u, a, b), pw))
                    es.append(("(%s %s (%s %s))" % (p, a, u, b), pw))
            for v in un:
                vw = W if v in ("~", "neg") else 1
                if vw == W or (u not in ("neg",)):
                    es.append(("(%s (%s %s))" % (u, v, a), vw if uw == W else 1))
        tern = ["(? d %s %s)" % (x, y) for x in (a, "(+ %s %s)" % (a, b)) for y in (b, "(? (rand %s) %s %s)" % (b, c, a))]
        for t in tern:
            es.append((t, W))
            for o in bi + rel:
                es.append(("(%s %s %s)" % (o, t, c), W if o in bi else 1))
                es.append(("(%s %s %s)" % (o, c, t), W if o in bi else 1))
            es.append(("(? (%s %s %s) %s %s)" % ("<", t, c, b, t), W))
        if not sg:
            for e, w in list(es)[:60]:
                if w == W:
                    es.append(("(cat %s d %s)" % (e, "b"), 2 * W + 1))
                    es.append(("(ext %s %d)" % (e, W + 2), W + 2))
                    es.append(("(dup %s 2)" % e, 2 * W))
        yield "nest_%s" % ("s" if sg else "u"), es, sg


def nest_script(es, sg):
    s = ["(strict)", "(gen top top)"] + ["(port in %s 3)" % x for x in "abc"] + ["(port in d 1)"]
    for i, (e, w) in enumerate(es):
        s.append("(let e%d %s)" % (i, e))
        s.append("(port out o%d %d)" % (i, w))
        # the sign of the result is what the design says it is; outputs are unsigned
        s.append("(add (= o%d (cast e%d unsigned)))" % (i, i))
    return s


def structure(E, cid, dump, svev, script):
    """every reachable module exactly once, with every declared port and variable"""
    mods = {}
    for m in svev["mods"]:
        if m["m"] in mods:
            E.violation("structure", "%s: module %s emitted twice" % (cid, m["m"]), script)
        try:
            ms, _ = sv.parse_modules(m["s"])
        except Exception as x:
            E.violation("sv", "%s: illegal text for module %s: %r" % (cid, m["m"], x), {"script": script, "sv": m["s"]})
            return
        mods[m["m"]] = ms[0] if ms else None
    want = {}
    for g in dump["d"]:
        want.setdefault(g["name"], g)
    if set(want) != set(mods):
        E.violation("structure", "%s: modules in the design %s, modules emitted %s" % (cid, sorted(want), sorted(mods)), script)
        return
    for n, g in want.items():
        dirs = {v["n"]: v["dir"] for v in g["vars"] if v["n"] in g["ports"]}
        got = {p[0]: {"input": "in", "output": "out", "inout": "inout"}.get(p[1], p[1]) for p in mods[n]["ports"]}
        if dirs != got:
            E.violation("structure", "%s: ports of %s: design %s, text %s" % (cid, n, dirs, got), script)
        kids = [x["path"][:-1].rsplit(".", 1)[-1] for x in dump["d"] if x["path"] and parent(x["path"]) == g["path"]]
        insts = sorted(it[3] for it in mods[n]["items"] if it[0] == "inst")
        if sorted(kids) != insts:
            E.violation("structure", "%s: instances in %s: design %s, text %s" % (cid, n, sorted(kids), insts), script)


def parent(path):
    p = path[:-1].rsplit(".", 1)
    return p[0] + "." if len(p) == 2 else ""


def check(E):
    rounds = 1 if not E.thorough else 6
    tot = {}
    for rnd in range(rounds):
        if rnd and E.elapsed() > 560:
            break
        cases, seeds = [], {}
        for nm, cfg, q, th in CFGS:
            for i in range(q):
                sd = E.seed * 100003 + rnd * 1009 + i
                r = random.Random("%s-%d" % (nm, sd))
                d = gen.design(r, cfg)
                cid = "%s%d_%d" % (nm, rnd, i)
                cases.append((cid, ["(strict)"] + d.script() + TAIL))
                seeds[cid] = sd
                tot[nm] = tot.get(nm, 0) + 1
        if rnd == 0:
            for nm, es, sg in nests():
                for k in range(0, len(es), 120):
                    cases.append(("%s%d" % (nm, k), nest_script(es[k:k + 120], sg) + TAIL))
                tot[nm] = len(es)
        res = E.drive(cases)
        B = eq.Batch(E, nvec=5, K=3)
        for cid, cmds in cases:
            ev = res[cid]
            err = eq.first_error(ev)
            if err:
                E.violation("rejected", "%s: a legal design cannot be generated: %s" % (cid, eq.err_text(err, cmds)), cmds)
                continue
            da = [e for e in ev if e["ev"] == "dump"][0]
            s = [e for e in ev if e["ev"] == "sv"][0]
            structure(E, cid, da, s, cmds)
            if cid.startswith("nest"):
                B.add_ir_sv(cid, da, s, cmds, 1, nvec=40 if not E.thorough else 400, K=1)
            else:
                B.add_ir_sv(cid, da, s, cmds, seeds[cid])
            if len(E.samples) < 6:
                E.samples.append({"case": cid, "script": cmds[:12]})
        B.run()
    E.cov["designs"] = tot
    E.assumptions += ["two-valued semantics (no X/Z); division by zero yields 0 on both sides", "designs without combinational loops, latches or out-of-range dynamic indices"]
