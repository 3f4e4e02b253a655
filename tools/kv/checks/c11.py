"""C11: modules share a name exactly when they are interchangeable."""
import json
import random
import re

from .. import eq, gen, pairs

CFG = {"nwires": [0, 2], "nouts": [1, 2], "ninputs": [2, 3], "depth": 2, "maxw": 5, "nkids": [0, 1], "bits_limit": 40, "func": True, "arrays": True}
OPS = [["+", "-"], ["&", "|", "^"], ["<", ">", "<=", ">="], ["==", "!="], ["<<", ">>"], ["*", "+"], ["rand", "ror", "rxor"], ["&&", "||"], ["pos", "neg"], ["~", "neg"]]


def parse(s):
    st = [[]]
    for t in re.findall(r"[()]|[^\s()]+", s):
        if t == "(":
            st.append([])
        elif t == ")":
            x = st.pop()
            st[-1].append(x)
        else:
            st[-1].append(t)
    return st[0][0]


def show(x):
    return x if isinstance(x, str) else "(" + " ".join(map(show, x)) + ")"


def mutate(r, cmds):
    """one small change somewhere in the commands that build a module"""
    cmds = [parse(show(c)) for c in cmds]
    sites = []
    names = [c[1] for c in cmds if c[0] == "var"] + [c[2] for c in cmds if c[0] == "port"]
    dirs = {c[2]: c[1] for c in cmds if c[0] == "port"}

    def rec(x, top):
        if not isinstance(x, list):
            return
        for k, t in enumerate(x):
            if isinstance(t, list):
                rec(t, top)
                continue
            if k and t.lstrip("-").isdigit():
                for dlt in (1, -1):
                    sites.append(("num", x, k, str(int(t) + dlt)))
            for o in OPS:
                if t in o and (k == 0 or t in ("pos", "neg")):
                    for y in o:
                        if y != t:
                            sites.append(("op", x, k, y))
            if k and t in names and x[0] not in ("port", "var"):
                y = r.choice(names)
                if y != t:
                    sites.append(("name", x, k, y))
        h = x[0] if x and isinstance(x[0], str) else ""
        if h in ("-", "<<", ">>", "+", "&", "|", "<", "==", "%", "/") and len(x) == 3:
            sites.append(("swap", x, 1, 2))
        if h == "?":
            sites.append(("swap", x, 2, 3))
        if h == "cat" and len(x) > 2:
            sites.append(("swap", x, 1, 2))
        if h == "if":
            if len(x) > 3:
                sites.append(("swap", x, 2, 3))
                sites.append(("drop", x, 3, None))
            for b in x[2:]:
                if len(b) > 1:
                    sites.append(("drop", b, r.randrange(len(b)), None))
                    sites.append(("swap", b, 0, 1))
        if h == "switch" and len(x) > 3:
            sites.append(("drop", x, len(x) - 1, None))
            c = [k for k in range(2, len(x)) if isinstance(x[k][0], list)]
            if len(c) > 1:
                a, b = r.sample(c, 2)
                sites.append(("swap2", x[a], x[b], 0))
        if h in ("comb", "seq"):
            k0 = 1 if h == "comb" else 2
            if len(x) > k0 + 1:
                sites.append(("drop", x, len(x) - 1, None))
                sites.append(("swap", x, k0, k0 + 1))
            if h == "seq" and len(x[1]) > 1:
                sites.append(("drop", x[1], 1, None))
        if h in ("=", "=b", "=n") and isinstance(x[2], list) and x[2][0] == "?":
            pass
    for c in cmds:
        if c[0] in ("add", "port", "var", "func"):
            rec(c, c)
            if c[0] == "var":
                sites.append(("flag", c, None, "s"))
                sites.append(("flag", c, None, "up"))
            if c[0] == "port":
                sites.append(("flag", c, None, "s"))
    gens = [k for k, c in enumerate(cmds) if c[0] == "gen"]
    sites.append(("extra", cmds, None, ["var", "zz", str(r.randint(1, 3))]))
    adds = [k for k in range(len(cmds) - 1) if cmds[k][0] == "add" and cmds[k + 1][0] == "add"]
    if adds:
        sites.append(("swap", cmds, r.choice(adds), None))
    kinds = sorted({s[0] for s in sites})
    w = r.choice(kinds + ["num", "num", "op", "name"])
    sites = [s for s in sites if s[0] == w]
    if not sites:
        return None
    k, x, a, b = r.choice(sites)
    if k in ("num", "op", "name"):
        x[a] = b
    elif k == "swap":
        b = b if b is not None else a + 1
        x[a], x[b] = x[b], x[a]
    elif k == "swap2":
        x[0], a[0] = a[0], x[0]
    elif k == "drop":
        del x[a]
    elif k == "flag":
        if [b] in x or b in x:
            x[:] = [y for y in x if y != b]
        else:
            x.append(b)
    elif k == "extra":
        cmds.append(b)
    return k, cmds


def rename(cmds, handles, sfx):
    """a second copy: other handles, the same module names"""
    res = []
    for c in cmds:
        c = list(c)
        if c[0] == "gen":
            c[1] += sfx
        if c[0] == "child":
            c[2] += sfx
        res.append(c)
    return res


def variants(r):
    base = [parse(c) for c in gen.Design(r, CFG, "b", name="m", level=1 if r.random() < 0.6 else 0).build(need_clk=r.random() < 0.5).script()]
    vs = [("same", base)]
    nv = r.randint(3, 8)
    while len(vs) < nv:
        m = mutate(r, r.choice(vs)[1])
        if m:
            vs.append(m)
    return vs


def build(r, vs, E):
    """a design with an instance of every variant"""
    base = vs[0][1]
    handles = [c[1] for c in base if c[0] == "gen"]
    vs = vs[:5] + [("copy", r.choice(vs)[1]) for _ in range(r.randint(0, 2))]
    s = []
    for k, (kind, cmds) in enumerate(vs):
        s += [show(c) for c in rename(cmds, handles, "v%d" % k)]
    tops = ["bv%d" % k for k in range(len(vs))]
    if r.random() < 0.35:          # one more level, nothing but an instance in it
        for k in range(len(vs)):
            s += ["(gen w%d w)" % k, "(child i bv%d)" % k]
        tops = ["w%d" % k for k in range(len(vs))]
    elif r.random() < 0.4:         # the names chosen for others are taken
        nm = r.choice(["m_unq0", "m_unq1"])
        s += ["(gen t%d %s)" % (k, nm) for k in range(2)] + ["(var q %d)" % r.randint(1, 2), "(at t0)", "(var q 1)"]
        tops += ["t0", "t1"]
    s += ["(gen top top)", "(port in clk 1 clk)", "(port in rst_n 1 arst)"]
    r.shuffle(tops)
    for j, t in enumerate(tops):
        s.append("(child n%d %s)" % (j, t))
        if t[0] != "b":
            continue
        cmds = vs[int(t[2:])][1]
        for c in cmds[max(k for k, c in enumerate(cmds) if c[0] == "gen"):]:
            if c[0] == "port" and c[1] == "in":
                if c[2] in ("clk", "rst_n"):
                    s.append("(add (= n%d/%s %s))" % (j, c[2], c[2]))
                else:
                    s += [show(["var", "q%d_%s" % (j, c[2])] + c[3:]), "(add (= n%d/%s q%d_%s))" % (j, c[2], j, c[2])]
    E.cov.setdefault("changes", {})
    for kind, _ in vs:
        E.cov["changes"][kind] = E.cov["changes"].get(kind, 0) + 1
    return s


ORDER = [["create_module_instantiation"], [], ["decouple_generator_ports"], ["decouple_generator_ports", "create_module_instantiation"]]


def check(E):
    n = 130 if not E.thorough else 800
    for rnd in range(1 if not E.thorough else 6):
        if rnd and E.elapsed() > 600:
            break
        cases, rs, first = [], {}, []
        for i in range(n):
            r = random.Random("c11-%d-%d-%d" % (E.seed, rnd, i))
            rs[i] = r, variants(r)
            first += [("v%d_%d" % (i, k), ["(strict)"] + [show(c) for c in cmds]) for k, (_, cmds) in enumerate(rs[i][1])]
        res = E.drive(first, lax=True)
        for i in range(n):
            r, vs = rs[i]
            vs = [v for k, v in enumerate(vs) if res["v%d_%d" % (i, k)][-1]["ev"] == "end" and not [e for e in res["v%d_%d" % (i, k)] if e["ev"] in ("err", "drverr")]]   # the builder rejects some
            s = build(r, vs, E)
            pre = ["(pass fix_assignment_type top)"] + ["(pass %s top)" % p for p in r.choice(ORDER)]
            for how in ("par", "seq"):
                cases.append(("h%d_%d_%s" % (rnd, i, how), s + pre + ["(dump top a)", "(hash top %s)" % how, "(pass uniquify_generators top)", "(dump top b)"]))
        res = E.drive(cases, lax=True)
        items, by = [], {}
        for c, cmds in cases:
            it = item(E, c, cmds, res[c])
            if it:
                items.append(it)
                by[c] = (it, cmds)
        bad = verdict(E, items)
        again = verdict(E, [by[c][0] for c in bad]) if bad else {}
        for c in bad:
            if c in again:
                it, cmds = by[c]
                E.violation("merged" if '"same":false' in bad[c] else "split", "%s: %s %s" % (c, bad[c], explain(it, bad[c])), cmds)
        E.traces += len(items)
        x = E.cov.setdefault("checked", {"designs": 0, "generators": 0, "names": 0})
        x["designs"] += len(items)
        x["generators"] += sum(len(i["g"]) for i in items)
        x["names"] += sum(len(set(i["names"][0]["a"])) for i in items)
        if rnd == 0:
            E.samples += [{"case": c, "script": s} for c, s in cases[:2]]


def verdict(E, items):
    bad = {}
    for t in E.tlc("KUniq", items):
        if t[0] == "MISMATCH":
            bad.setdefault(t[1], t[2])
    return bad


def explain(it, what):
    x = json.loads(what)
    a, b = it["g"][x["a"] - 1], it["g"][x["b"] - 1]
    d = sorted(set(a["decl"]) ^ set(b["decl"]))[:2] + [p for p in zip(a["st"], b["st"]) if p[0] != p[1]][:1]
    return ("%s/%s: " % (a["path"], b["path"]) + str(d))[:400]


def canon(x, path):
    if isinstance(x, dict):
        r = {}
        for k, v in x.items():
            if k in ("h", "m") or (k == "n" and isinstance(v, int)):
                continue
            if k == "n" and isinstance(v, str) and path and v.startswith(path):
                v = v[len(path):]
            r[k] = canon(v, path)
        return r
    return [canon(y, path) for y in x] if isinstance(x, list) else x


def item(E, c, cmds, ev):
    errs = [e for e in ev if e["ev"] == "err" and "(pass uniq" in cmds[e["cmd"] - 1] or e["ev"] == "err" and "(hash" in cmds[e["cmd"] - 1]]
    d = {e["tag"]: e for e in ev if e["ev"] == "dump"}
    if errs or "b" not in d:
        if not errs and ev[-1]["ev"] == "end" and [e for e in ev if e["ev"] == "err"]:
            E.cov["not built"] = E.cov.get("not built", 0) + 1
            return None
        E.violation("fail", "%s: %s" % (c, eq.err_text(errs[0], cmds) if errs else "no answer"), cmds)
        return None
    names = {g["path"]: g["name"] for g in d["b"]["d"]}
    g = sorted(d["a"]["d"], key=lambda g: (-g["path"].count("."), g["path"]))
    ix = {x["path"]: k + 1 for k, x in enumerate(g)}
    dumps = lambda x, p: json.dumps(canon(x, p), sort_keys=True)
    out = []
    for x in g:
        p = x["path"]
        out.append({"path": p, "base": x["name"], "decl": [dumps(v, p) for v in x["vars"]] + [dumps(v, p) for v in x["params"]] + [dumps(f, p) for f in x["fn"]],
                    "st": [dumps(s, p) for s in x["stmts"]], "ch": [{"i": i, "g": ix[p + i + "."]} for i in x["ch"]]})
    return {"id": c, "g": out, "names": [{"how": c.split("_")[-1], "a": [names[x["path"]] for x in g]}]}
