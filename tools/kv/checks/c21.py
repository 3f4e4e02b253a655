"""C21: traversals, passes and struct definitions in order."""
import json
import random

from .. import eq


def hierarchy(r, E):
    """a history over the hierarchy, with traversals in between: (commands, operations with the command each answers)"""
    n = r.randint(2, 9)
    s, ops, ns = [], [], []
    for g in range(1, n + 1):
        s += ["(gen g%d m%d)" % (g, g), "(port in i 1)", "(port out o 1)"]
        k = r.randint(0, 3)
        c = 0
        for j in range(k):
            s.append("(var w%d 1)" % j)
            if r.random() < 0.6:
                s.append("(add (= w%d i))" % j)
                c += 1
            else:
                s.append("(add (comb (=b w%d i) (if i ((=b w%d (~ i))) ((=b w%d i)))))" % (j, j, j))
                c += 3
        ns.append(c)
    kids = {g: [] for g in range(1, n + 1)}
    shared = r.random() < 0.2
    cyc = shared and r.random() < 0.5
    ext = set()

    def op(cmd, p=None, **o):
        if p is not None:
            s.append("(at g%d)" % p)
            o["p"] = p
        s.append(cmd)
        o["cmd"] = len(s)
        ops.append(o)

    def below(g):
        seen, todo = set(), [g]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += [c for _, c in kids[x]]
        return seen

    def observe():
        top = 1 if r.random() < 0.7 else r.randint(1, n)
        looped = any(g in below(c) for g in below(top) for _, c in kids[g])
        ks = ["graph", "genp", "gentp", "roottp"] + ([] if looped else ["gen", "root"])
        for k in r.sample(ks, r.randint(1, len(ks))):
            if k == "graph":
                op("(graphn g%d)" % top, o="graph", top=top)
            else:
                op("(visitn %s g%d)" % (k, top), o="visit", k=k, top=top)

    for step in range(r.randint(n, 3 * n)):
        x = r.random()
        if x < 0.62 or step < n - 1:
            c = step + 2 if step < n - 1 else r.randint(2, n)
            p = r.randint(1, c - 1) if step < n - 1 or not cyc else r.randint(1, n)
            if p in ext or c == p:
                continue
            used = any(c == k for g in kids for _, k in kids[g])
            if used and not shared:
                continue
            if not cyc and p in below(c):
                continue
            nm = r.choice(["a", "b"]) if r.random() < 0.25 else "n%d" % c
            if not used or r.random() < 0.5:
                op("(child %s g%d)" % (nm, c), p, o="add", c=c, n=nm)
                if nm not in [a for a, _ in kids[p]]:
                    kids[p].append((nm, c))
        elif x < 0.72:         # the instance name of a child of two generators is that of the last one
            if shared:
                continue
            p = r.randint(1, n)
            c = r.choice([k for _, k in kids[p]]) if kids[p] and r.random() < 0.7 else r.randint(1, n)
            op("(rmchild g%d)" % c, p, o="rm", c=c)
            kids[p] = [e for e in kids[p] if e[1] != c]
        elif x < 0.82:
            if shared:
                continue
            p = r.randint(1, n)
            c = r.choice([k for _, k in kids[p]]) if kids[p] and r.random() < 0.7 else r.randint(1, n)
            nm = r.choice(["a", "b", "c", "n%d" % c])
            op("(renchild g%d %s)" % (c, nm), p, o="ren", c=c, n=nm)
            if c in [k for _, k in kids[p]] and nm not in [a for a, _ in kids[p]]:
                kids[p] = [(nm, k) if k == c else (a, k) for a, k in kids[p]]
        elif x < 0.86:
            g = r.randint(1, n)
            if not kids[g] and g != 1:
                s.append("(at g%d)" % g)
                op("(external)", o="ext", c=g)
                ext.add(g)
        else:
            observe()
    observe()
    return n, ns, s, ops


def passes(r, E):
    s, ops = ["(gen g1 m1)", "(gen g2 m2)"], []
    s.append("(pm new P)")
    names = ["p%d" % k for k in range(r.randint(1, 6))] + ["q"]

    def op(cmd, **o):
        s.append(cmd)
        o["cmd"] = len(s)
        ops.append(o)
    for _ in range(r.randint(4, 30)):
        x, nm = r.random(), r.choice(names)
        if x < 0.35:
            op("(pm reg P %s)" % nm, o="reg", n=nm)
        elif x < 0.75:
            op("(pm add P %s)" % nm, o="addp", n=nm)
        elif x < 0.87:
            g = r.randint(1, 2)
            op("(pm run P g%d)" % g, o="run", top="m%d" % g)
        elif x < 0.93:
            op("(pm num P)", o="num")
        else:
            op("(pm has P %s)" % nm, o="has", n=nm)
    op("(pm run P g1)", o="run", top="m1")
    return 1, [0], s, ops


def structs(r, E):
    n = r.randint(2, 8)
    names = r.sample(["s%d_t" % k for k in range(20)], n)
    s, ops = ["(gen g1 m1)"], []
    inner = {}
    for k, nm in enumerate(names):
        ms, inner[nm] = [], []
        for j in range(r.randint(1, 3)):
            if k and r.random() < 0.6:
                c = r.choice(names[:k])
                inner[nm].append(c)
                ms.append("(f%d st %s)" % (j, c))
            else:
                ms.append("(f%d %d%s)" % (j, r.randint(1, 4), " s" if r.random() < 0.2 else ""))
        s.append("(struct %s %s)" % (nm, " ".join(ms)))
    used, todo = set(), []
    gens = r.randint(1, 3)
    for g in range(1, gens + 1):
        if g > 1:
            s.append("(gen g%d m%d)" % (g, g))
        for j in range(r.randint(0 if g > 1 else 1, 3)):
            nm = r.choice(names)
            todo.append(nm)
            s.append("(pvar v%d %s)" % (j, nm) if r.random() < 0.5 else "(pport %s p%d %s)" % (r.choice(["in", "out"]), j, nm))
    while todo:
        x = todo.pop()
        if x not in used:
            used.add(x)
            todo += inner[x]
    s.append("(at g1)")
    s += ["(child i%d g%d)" % (g, g) for g in range(2, gens + 1)]
    s.append("(structinfo g1)")
    ops.append({"o": "structs", "cmd": len(s), "want": sorted(used), "mem": [{"s": a, "c": b} for a in sorted(used) for b in inner[a]]})
    return 1, [0], s, ops


def item(E, c, n, ns, s, ops, ev):
    by = {}
    for e in ev:
        by.setdefault(e.get("cmd"), []).append(e)
    if ev[-1]["ev"] != "end":
        E.violation("crash", "%s: %s" % (c, json.dumps(ev[-1])[:200]), s)
        return None
    num = lambda m: int(m[1:])
    res = []
    for o in ops:
        o = dict(o)
        es = by.get(o.pop("cmd"), [])
        o["err"] = any(e["ev"] == "err" for e in es)
        for e in es:
            if e["ev"] == "graph":
                o.update(sorted=[num(m) for m in e["sorted"]], nodes=[num(m) for m in e["nodes"]], levels=[[num(m) for m in l] for l in e["levels"]])
            elif e["ev"] == "visit":
                o.update(log=[num(m) for m in e["log"]], ns=e["ns"], dup=e["dup"])
            elif e["ev"] == "structinfo":
                o["a"] = e["a"]
            elif e["ev"] in ("pmnum", "pmhas"):
                o["v"] = e["v"]
        if o["o"] == "run":
            o["log"] = [[e["n"], e["g"]] for e in es if e["ev"] == "ran"]
        if o["o"] == "structs" and "a" not in o:
            o["a"] = []
        k = E.cov.setdefault("answers compared", {})
        w = o["o"] + ("-" + o["k"] if o["o"] == "visit" else "") + (" rejected" if o["err"] else "")
        k[w] = k.get(w, 0) + 1
        res.append(o)
    return {"id": c, "n": n, "ns": ns, "ops": res}


def verdict(E, items):
    bad = {}
    for t in E.tlc("KOrder", items):
        if t[0] == "MISMATCH":
            bad.setdefault(t[1], t[2])
    return bad


def check(E):
    n = 1200 if not E.thorough else 3000
    for rnd in range(1 if not E.thorough else 10):
        if rnd and E.elapsed() > 600:
            break
        made, cases = {}, []
        for i in range(n):
            r = random.Random("c21-%d-%d-%d" % (E.seed, rnd, i))
            kind = ["hierarchy", "hierarchy", "hierarchy", "passes", "structs"][i % 5]
            c = "%s%d_%d" % (kind[0], rnd, i)
            made[c] = {"hierarchy": hierarchy, "passes": passes, "structs": structs}[kind](r, E)
            cases.append((c, made[c][2]))
        res = E.drive(cases)
        items, by = [], {}
        for c, s in cases:
            m = made[c]
            it = item(E, c, m[0], m[1], s, m[3], res[c])
            if it:
                items.append(it)
                by[c] = it
        bad = verdict(E, items)
        again = verdict(E, [by[c] for c in bad]) if bad else {}
        for c in bad:
            if c in again:
                x = json.loads(bad[c])
                E.violation(x["what"], "%s: call %d, %s: %s" % (c, x["at"], json.dumps(by[c]["ops"][x["at"] - 1])[:300], x["what"]), made[c][2])
        E.traces += len(items)
        if rnd == 0:
            E.samples += [{"case": c, "script": s} for c, s in cases[:2]]
