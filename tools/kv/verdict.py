"""Verdicts of the structural checks against the specification (KVerdict)."""
from . import flat, pairs
from .eq import first_error, err_text


def verdict_input(cid, dump):
    f = pairs.from_dump(dump)
    a = flat.shape_consts(dict(f.design(), procs=f.procs), "wbits")
    ports = []
    for g in dump["d"]:
        for v in g["vars"]:
            if v["n"] in g["ports"]:
                chk = not (g["ext"] or g["stub"]) and not (g["path"] == "" and v["dir"] == "in")
                ports.append({"i": f.ix[g["path"] + v["n"]], "chk": chk})
    return {"id": cid, "a": a, "ports": ports}


def witnesses(E, items):
    """items: verdict inputs -> {id: set of kinds}"""
    w = {i["id"]: set() for i in items}
    for t in E.tlc("KVerdict", items, word="wbits"):
        if t[0] == "WITNESS":
            w[t[1]].add(t[2])
    return w


def run(E, cases, groups, what, pre=()):
    """cases: {id: script}; groups: [[(pass name, kinds that make it reject)]]; in a group, after
    a rejecting check the later ones are not compared; pre: passes to run first.  Compares verdicts, reports differences.
    Returns {id: (witness kinds, events)} of the designs that could be built."""
    checks = [c for g in groups for c in g]
    todo = [(cid, ["(strict)", "(latekinds)"] + s + ["(applykinds)"] + ["(pass %s top)" % x for x in pre] + ["(dump top a)"] + ["(check %s top)" % c for c, _ in checks])
            for cid, s in cases.items()]
    res = E.drive(todo)
    items, built = [], {}
    for cid, cmds in todo:
        ev = res[cid]
        e = first_error(ev)
        if e:
            E.violation("build", "%s: a legal design cannot be built: %s" % (cid, err_text(e, cmds)), cmds)
            continue
        d = [x for x in ev if x["ev"] == "dump"][0]
        try:
            items.append(verdict_input(cid, d))
        except flat.FlatError as x:
            E.violation("flat", "%s: design is not closed: %s" % (cid, x), cmds)
            continue
        built[cid] = (cmds, {x["n"]: x for x in ev if x["ev"] == "check"})
    w = witnesses(E, items)
    n = E.cov.setdefault("verdicts", {})
    for cid, (cmds, vs) in built.items():
        for g in groups:
            for c, kinds in g:
                want, v = bool(w[cid] & set(kinds)), vs[c]
                x = n.setdefault(c, {"accepted": 0, "rejected": 0})
                x["rejected" if want else "accepted"] += 1
                if want == v["ok"] and len(E.viol) < 20:
                    again = [x for x in E.drive([(cid, cmds)])[cid] if x["ev"] == "check" and x["n"] == c][0]
                    if again["ok"] == want:
                        E.violation("%s-%s" % (c, "accepts" if want else "rejects"), "%s: %s %s a design that has %s%s (%s)" % (
                            cid, c, "accepts" if want else "rejects", "" if want else "not ", what[c], v["msg"]), cmds)
                if want or not v["ok"]:
                    break
        E.traces += 1
    return {cid: (w[cid], res[cid]) for cid in built}
