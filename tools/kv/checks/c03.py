"""C03: the built-in simulator follows the hardware semantics of the design."""
import random

from .. import gen, simtrace

BASE = {"func": False, "forloop": False, "upk": True}
CFGS = [
    ("def", {}, 40, 300),
    ("small", {"nwires": [1, 2], "nouts": [1, 1], "ninputs": [2, 3], "depth": 2, "children": False}, 50, 400),
    ("tree", {"nwires": [0, 1], "nouts": [1, 1], "ninputs": [1, 2], "depth": 1, "maxw": 4, "nkids": [1, 3]}, 30, 200),
    ("edges", {"nwires": [0, 2], "nouts": [1, 2], "ninputs": [1, 2], "depth": 2, "children": False, "negclk": True, "syncreset": True, "maxw": 4}, 30, 200),
    ("wide", {"nwires": [1, 2], "nouts": [1, 1], "ninputs": [1, 3], "depth": 2, "children": False, "maxw": 32, "bits_limit": 200, "division": False, "mul": False,
              "cat": False, "dup": False, "ext": False}, 16, 100),
    ("w64", {"nwires": [1, 2], "nouts": [1, 1], "ninputs": [1, 3], "depth": 1, "children": False, "maxw": 64, "bits_limit": 400, "division": False, "mul": False,
             "cat": False, "dup": False, "ext": False, "arrays": False}, 14, 60),
]


def check(E):
    tot = {}
    for rnd in range(1 if not E.thorough else 6):
        if rnd and E.elapsed() > 560:
            break
        tr = {}
        for nm, cfg, q, th in CFGS:
            for i in range(q if not E.thorough else th // 2):
                sd = E.seed * 100003 + rnd * 1009 + i
                r = random.Random("sim-%s-%d" % (nm, sd))
                d = gen.design(r, dict(BASE, **cfg))
                cid = "%s%d_%d" % (nm, rnd, i)
                tr[cid] = simtrace.Trace(cid, d.script(), "top", sd)
                tot[nm] = tot.get(nm, 0) + 1
        probes = [t.probe() for t in tr.values()]
        res = E.drive(probes)
        cases = []
        for cid, cmds in probes:
            e = simtrace.eq.first_error(res[cid])
            if e:
                E.violation("simerr", "%s: the simulator cannot be built: %s" % (cid, simtrace.eq.err_text(e, cmds)), cmds)
                continue
            dump = [x for x in res[cid] if x["ev"] == "dump"][0]
            cases.append(tr[cid].plan(dump, 24 if not E.thorough else 60))
        simtrace.validate(E, tr, cases, E.drive(cases))
        if rnd == 0:
            for cid, cmds in cases[:2]:
                E.samples.append({"case": cid, "script": cmds[-8:]})
    E.cov["designs"] = tot
    E.assumptions += ["every input and register is given a value before values are compared (the simulator has unknown values, the specification has not)",
                      "division by zero yields 0", "no functions, loops or initial blocks: the simulator rejects them"]
