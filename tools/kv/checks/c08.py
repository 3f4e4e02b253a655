"""C08: connectivity check and zero-fill passes."""
import random

from .. import eq, flat, verdict, vgen

WHAT = {"verify_generator_connectivity": "a floating bit at a port it has to check"}
ZERO = ["zero_generator_inputs", "zero_out_stubs"]


def parent(path):
    return path[:path[:-1].rfind(".") + 1]


def check(E):
    for rnd in range(1 if not E.thorough else 12):
        if rnd and E.elapsed() > 600:
            break
        cases = {}
        for i in range(420 if not E.thorough else 1500):
            cases["h%d_%d" % (rnd, i)] = vgen.hierarchy(random.Random("c08-%d-%d-%d" % (E.seed, rnd, i)))
        verdict.run(E, cases, [[("verify_generator_connectivity", ["float"])]], WHAT)
        filled(E, {c: s for j, (c, s) in enumerate(cases.items()) if j % 2 == 0 or E.thorough}, rnd)
        if rnd == 0:
            E.samples += [{"case": k, "script": v} for k, v in list(cases.items())[:3]]
    E.assumptions += ["a port bit is connected when an assignment in the design selects it (a variable index selects its whole range)",
                      "an undriven bit reads as 0 when the designs before and after the fill are compared"]


def filled(E, cases, rnd):
    todo = [(c, ["(strict)"] + s + ["(dump top a)"] + ["(pass %s top)" % p for p in ZERO] +
             ["(dump top b)", "(check verify_generator_connectivity top)", "(check check_multiple_driver top)"]) for c, s in cases.items()]
    res = E.drive(todo)
    B = eq.Batch(E, nvec=4, K=2)
    full, want = [], []
    for c, cmds in todo:
        ev = res[c]
        e = eq.first_error(ev)
        if e:
            E.violation("zero-error", "%s: %s" % (c, eq.err_text(e, cmds)), cmds)
            continue
        da, db = [x for x in ev if x["ev"] == "dump"]
        try:
            must, everything = fill_input(c, db)
            before = dict(verdict.verdict_input(c, da), id="b" + c, ports=[])
        except flat.FlatError as x:
            E.violation("flat", "%s: design is not closed after the fill: %s" % (c, x), cmds)
            continue
        want.append(must)
        full.append((c, everything, before, cmds, ev))
        B.add_ir_ir(c, da, db, cmds, seed=rnd, internals=True, key="zero-values")
    w = verdict.witnesses(E, want + [dict(x, id="v" + x["id"]) for _, x, _, _, _ in full] + [x for _, _, x, _, _ in full])
    n = E.cov.setdefault("zero_fill", {"instances_filled": 0, "designs": 0})
    for c, _, _, cmds, ev in full:
        n["designs"] += 1
        ck = {x["n"]: x["ok"] for x in ev if x["ev"] == "check"}
        if "float" in w[c]:
            E.violation("zero-missing", "%s: a bit that the zero-fill passes have to drive still floats" % c, cmds)
        if ("multi" in w[c] or not ck["check_multiple_driver"]) and "multi" not in w["b" + c]:
            E.violation("zero-multi", "%s: a bit is driven twice after the zero-fill passes" % c, cmds)
        if ck["verify_generator_connectivity"] == ("float" in w["v" + c]):
            E.violation("zero-verdict", "%s: wrong verdict of verify_generator_connectivity after the zero-fill passes" % c, cmds)
        E.traces += 1
    B.run()


def fill_input(cid, dump):
    """(ports that have to be driven after the fill, ports the connectivity check looks at)"""
    x = verdict.verdict_input(cid, dump)
    f = {}
    zero = {g["path"] for g in dump["d"] if any(a[0] == "zero_inputs" for a in g["attrs"])}
    k = 0
    must = []
    for g in dump["d"]:
        for v in g["vars"]:
            if v["n"] in g["ports"]:
                p = x["ports"][k]
                k += 1
                chk = v["dir"] == "in" and g["path"] != "" and parent(g["path"]) in zero or v["dir"] == "out" and g["stub"]
                must.append(dict(p, chk=bool(chk)))
    return dict(x, ports=must), x
