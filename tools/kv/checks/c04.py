"""C04: evaluation of expressions is bit-exact for every operator, width and sign."""
import json
import random

from .. import eq, flat, gen, simtrace

BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "**"]
UN = ["~", "neg", "plus", "!", "rand", "ror", "rxor"]
ONE = {"<", ">", "<=", ">=", "==", "!=", "&&", "||", "!", "rand", "ror", "rxor"}
TREES = [
    ("tree", {"nwires": [1, 3], "nouts": [1, 2], "ninputs": [2, 4], "depth": 4, "maxw": 12, "power": False}, 24),
    ("tree64", {"nwires": [1, 2], "nouts": [1, 1], "ninputs": [2, 3], "depth": 2, "maxw": 64, "bits_limit": 600, "mul": False, "division": False,
                "cat": False, "dup": False, "ext": False, "arrays": False}, 14),
]


def corner(w):
    m = (1 << w) - 1
    return sorted({0, 1, m, m - 1, 1 << (w - 1), ((1 << (w - 1)) - 1) & m, ((1 << (w - 1)) + 1) & m, 2 & m, w & m, (w - 1) & m, m // 3})


def rows_for(r, w, ar, op, n, exhaustive):
    if exhaustive:
        if ar == 1:
            return [(a, 0, 0) for a in range(1 << w)]
        return [(a, b, 0) for a in range(1 << w) for b in range(1 << w)]
    cs = corner(w)
    res = []
    # equal operands, operands one apart, both signs
    pool = []
    for _ in range(n * 4):
        a = r.choice(cs + [r.getrandbits(w)] * 4)
        x = r.random()
        b = a if x < 0.15 else (a + r.choice([1, -1])) & ((1 << w) - 1) if x < 0.3 else r.choice(cs + [r.getrandbits(w)] * 4)
        if op in ("<<", ">>", ">>>") and x < 0.75:
            b = r.randrange(0, w + 2) & ((1 << w) - 1)
        pool.append((a, b, r.randint(0, 1)))
    for p in pool:
        if len(res) >= n:
            break
        if p not in res:
            res.append(p)
    return res


def check(E):
    r = E.rng
    tabs, cases = [], []
    widths = list(range(1, 65))
    for w in widths:
        ex = w <= (3 if not E.thorough else 5)
        for ar, ops in ((2, BIN), (1, UN), (3, ["?"])):
            for op in ops:
                if op == "**" and w > 12:
                    n = 1 if w in (16, 32, 63, 64) else 0
                elif op in ("*", "/", "%"):
                    n = 3 if w > 28 else 6
                else:
                    n = 5 if ar == 2 else 4
                if E.thorough:
                    n *= 4
                if not n:
                    continue
                for sg in (False, True):
                    if ar == 1 and sg and op in ("plus", "!"):
                        continue
                    rows = rows_for(r, w, ar, op, n, ex and ar < 3)
                    tabs.append({"ar": ar, "op": op, "w": w, "sg": sg, "rows": rows, "rw": 1 if op in ONE else w})
    for k, t in enumerate(tabs):
        t["id"] = "t%d_%s_%d_%s" % (k, t["ar"], t["w"], "s" if t["sg"] else "u")
        w, op, s = t["w"], t["op"], "s" if t["sg"] else "u"
        cmds = ["(strict)", "(gen top top)"]
        for x in "ab":
            cmds.append("(var %s %d%s)" % (x, w, " s" if t["sg"] else ""))
        cmds.append("(var c 1)")
        e = {2: "(%s a b)" % op, 1: "(%s a)" % op, 3: "(? c a b)"}[t["ar"]]
        cmds.append("(let e %s)" % e)
        cmds.append("(sim S top)")
        for a, b, c in t["rows"]:
            if t["ar"] == 2:
                cmds.append("(evalbin %s %d %d %d %s)" % (op, a, b, w, s))
            elif t["ar"] == 1:
                cmds.append("(evalun %s %d %d)" % (op, a, w))
            else:
                cmds.append("(evaltern %d %d %d %d)" % (c, a, b, w))
            cmds += ["(setn S a %d)" % a, "(setn S b %d)" % b, "(setn S c %d)" % c, "(getx S e)"]
        cases.append((t["id"], cmds))
    res = E.drive(cases)
    data = {"wint": [], "wbits": []}
    byid = {}
    for t, (cid, cmds) in zip(tabs, cases):
        ev = res[cid]
        err = eq.first_error(ev)
        what = "%s operator %s, %d bits, %s" % (cid, t["op"], t["w"], "signed" if t["sg"] else "unsigned")
        if err:
            E.violation("fail", "%s: evaluation fails: %s" % (what, eq.err_text(err, cmds)), cmds)
            continue
        d = [int(e["v"]) for e in ev if e["ev"] == "eval"]
        x = []
        for e in ev:
            if e["ev"] == "getx":
                v = e["v"]
                x.append(None if v is None else int(v[0]) if len(v) == 1 else -1)
        dom = "wint" if t["w"] <= 24 else "wbits"
        conv = (lambda v, w: v) if dom == "wint" else flat.bits
        ow = 30 if dom == "wint" else 64
        rows = []
        for (a, b, c), dv, xv in zip(t["rows"], d, x):
            for v in (dv, xv):
                if v is None or v < 0 or v >> ow:
                    E.violation("range", "%s: operands %d %d give %s" % (what, a, b, v), cmds)
                    v = 0
                rows.append({"a": conv(a, t["w"]), "b": conv(b, t["w"]), "c": conv(c, 1), "r": conv(v, ow)})
        rec = {"id": cid, "ar": t["ar"], "op": t["op"], "w": t["w"], "sg": t["sg"], "rw": t["rw"], "ow": ow, "rows": rows}
        data[dom].append(rec)
        byid[cid] = (rec, cmds, what, t)
    n = 0
    for dom in data:
        n += sum(len(t["rows"]) for t in data[dom])
        bad = {}
        for x in E.tlc("KEval", data[dom], dom):
            if x[0] == "MISMATCH":
                bad.setdefault(x[1], x)
        for cid, x in bad.items():
            rec, cmds, what, t = byid[cid]
            if not [y for y in E.tlc("KEval", [rec], dom) if y[0] == "MISMATCH"]:
                continue
            j = json.loads(x[2])
            row = t["rows"][(j["n"] - 1) // 2]
            E.violation("op", "%s: operands %s: %s, specified %s" % (what, row, "eval function" if j["n"] % 2 else "expression", j), {"script": cmds, "row": row})
            if len(E.viol) > 4:
                break
    E.cov["operator_tables"] = len(tabs)
    E.cov["operator_rows"] = n
    E.traces += len(tabs)
    E.samples.append({"table": tabs[40]["id"], "op": tabs[40]["op"], "rows": tabs[40]["rows"][:4]})
    # whole expressions: trees over inputs of every width, corner values
    tr = {}
    for nm, cfg, q in TREES:
        for i in range(q * (6 if E.thorough else 1)):
            rr = random.Random("ev-%s-%d-%d" % (nm, E.seed, i))
            cid = "%s_%d" % (nm, i)
            base = {"func": False, "forloop": False, "children": False, "seq": False}
            tr[cid] = simtrace.Trace(cid, gen.design(rr, dict(base, **cfg)).script(), "top", E.seed)
    probes = [t.probe() for t in tr.values()]
    res = E.drive(probes)
    cases = []
    for cid, cmds in probes:
        e = eq.first_error(res[cid])
        if e:
            E.violation("simerr", "%s: the simulator cannot be built: %s" % (cid, eq.err_text(e, cmds)), cmds)
            continue
        cases.append(tr[cid].plan([x for x in res[cid] if x["ev"] == "dump"][0], 12))
    simtrace.validate(E, tr, cases, E.drive(cases), "tree")
    E.cov["trees"] = len(tr)
    E.assumptions += ["division by zero and zero to a negative power are only required not to fail"]
