"""C06: types of expressions, legality of calls, no effect of rejected ones."""
import random

from .. import bgen


def check(E):
    for rnd in range(1 if not E.thorough else 12):
        if rnd and E.elapsed() > 600:
            break
        run(E, rnd, 900 if not E.thorough else 3000)
    E.assumptions += ["values of constants are below 2^28; arrays of one element (explicit arrays) and dimensions of size one are included",
                      "loop variables as operands are covered by C01"]


def script(ops):
    """the commands, and for each command what it belongs to"""
    cmds, who = ["(gen top top)"], [None]
    for j, o in enumerate(ops):
        cmds.append(o["cmd"])
        who.append((j, "do"))
        if o["o"] != "=":
            nm = "x%d" % o["h"] if o["o"] == "var" else "e%d" % o["h"]
            cmds.append("(ex %s %s)" % (nm, nm))
            who.append((j, "ex"))
    return cmds, who


def run(E, rnd, n):
    cases = {"b%d_%d" % (rnd, i): bgen.sequence(random.Random("c06-%d-%d-%d" % (E.seed, rnd, i)), [8, 14, 22, 30][i % 4]) for i in range(n)}
    # calls that are rejected have no handle: drop what uses it, until nothing is dropped
    live = dict(cases)
    for _ in range(4):
        res = E.drive([(c, script(o)[0]) for c, o in live.items()], lax=True)
        again = {}
        for c, ops in live.items():
            cmds, who = script(ops)
            bad = {who[e["cmd"] - 1] for e in res[c] if e["ev"] in ("err", "drverr", "crash")}
            gone = {ops[j]["h"] for j, k in (b for b in bad if b) if k == "do" and ops[j]["o"] != "="}
            keep = []
            for o in ops:
                if set(o["a"]) & gone:
                    if o["o"] != "=":
                        gone.add(o["h"])
                else:
                    keep.append(o)
            if len(keep) < len(ops):
                again[c] = keep
                cases[c] = keep
        live = again
        if not live:
            break
    todo = []
    for c, ops in cases.items():
        cmds, who = script(ops)
        cmds += ["(ex %s %s)" % ((("x%d" if o["o"] == "var" else "e%d") % o["h"],) * 2) for o in ops if o["o"] != "="]
        cmds += ["(dump top a)", "(books top)"]
        todo.append((c, cmds))
    res = E.drive(todo, lax=True)
    items, scr = [], {}
    cnt = E.cov.setdefault("calls", {"accepted": 0, "rejected": 0, "by_kind": {}})
    for c, cmds in todo:
        it = item(c, cases[c], cmds, res[c], E, cnt)
        if it:
            items.append(it)
            scr[c] = cmds
    bad = {}
    for t in E.tlc("KBuild", items):
        if t[0] == "MISMATCH":
            bad.setdefault(t[1], t[2])
    for c, what in bad.items():
        again = E.drive([(c, scr[c])], lax=True)[c]
        it = item(c, cases[c], scr[c], again, E, None)
        if it is None or [t for t in E.tlc("KBuild", [it]) if t[0] == "MISMATCH"]:
            E.violation("build", "%s: %s" % (c, what), scr[c])
    E.traces += len(items)
    if rnd == 0:
        E.samples += [{"case": k, "script": v} for k, v in list(scr.items())[:3]]


def item(c, ops, cmds, ev, E, cnt):
    _, who = script(ops)
    nd = len(who)
    vars_ = [o for o in ops if o["o"] == "var"]
    lets = [o for o in ops if o["o"] != "="]
    err = {e["cmd"] - 1: e for e in ev if e["ev"] in ("err", "crash")}
    exs = {e["cmd"] - 1: e for e in ev if e["ev"] == "ex"}
    for e in ev:
        if e["ev"] == "drverr" and e["cmd"] - 1 < nd and who[e["cmd"] - 1][1] == "do":
            raise RuntimeError("driver misuse: " + e["msg"])
    for k, e in err.items():
        if e["ev"] == "crash" or k >= nd + len(lets):
            E.violation("crash", "%s: crash or failure: %s" % (c, e), cmds)
            return None
    out = [None] * len(ops)
    for k, w in enumerate(who):
        if not w:
            continue
        j, kind = w
        if kind == "do":
            out[j] = {"ok": k not in err}
        elif out[j]["ok"]:
            if k not in exs:
                E.violation("type", "%s: an accepted expression cannot be examined: %s" % (c, cmds[k]), cmds)
                return None
            out[j].update(seen(exs[k]))
    its = []
    for o, b in zip(ops, out):
        b = dict({"w": 0, "sz": [], "sg": False, "pk": True, "hi": 0, "lo": 0}, **b)
        its.append(dict({k: v for k, v in o.items() if k != "cmd"}, obs=b))
        if cnt is not None:
            cnt["accepted" if b["ok"] else "rejected"] += 1
            x = cnt["by_kind"].setdefault(o["o"], [0, 0])
            x[0 if b["ok"] else 1] += 1
    fin = []
    for m, o in enumerate(lets):
        e = exs.get(nd + m)
        if e:
            fin.append(dict(seen(e), h=o["h"]))
    d = [e for e in ev if e["ev"] == "dump"]
    if not d:
        E.violation("dump", "%s: the design cannot be examined after a rejected call" % c, cmds)
        return None
    asg = [{"lw": width(s["l"]), "rw": width(s["r"]), "ls": s["l"].get("sg", False), "rs": s["r"].get("sg", False)} for s in d[0]["d"][0]["stmts"]]
    drv = [{"h": o["h"], "n": len([e for e in ev if e["ev"] == "book" and e["v"] == "x%d" % o["h"]][0]["src"])} for o in vars_]
    return {"id": c, "ops": its, "fin": {"ty": fin, "asg": asg, "drv": drv}}


def width(e):
    return e.get("tw", e["w"])


def seen(e):
    return {"w": e["w"], "sz": e["size"], "sg": e["sg"], "pk": e["pk"], "hi": e["vh"], "lo": e["vl"]}
