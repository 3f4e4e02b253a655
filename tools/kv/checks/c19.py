"""C19: memories, single and composed from banks, against the memory of spec/KMem.tla."""
import itertools
import random

from .. import eq, flat, pairs, sv

NAMES = {"clk": ["CLK", "ck"], "q": ["Q", "dout", "DO"], "ceb": ["CEB", "cen"], "web": ["WEB", "we_n"], "a": ["A", "addr"], "d": ["D", "din"], "mask": ["BWEB", "bm"]}


def make(r, tiny):
    """script, words, data width, mask?, number of the levels of composition"""
    mask = r.random() < 0.5
    if tiny:
        aw, dw, n, mask = tiny
    else:
        # arrays of at most 28 bits: words are numbers in the specification then
        aw, dw, n = r.choice([t for t in itertools.product((1, 2, 3), (1, 2, 3, 4, 5, 7), (1, 2, 2, 3, 4, 5, 6, 7)) if (t[1] << t[0]) <= 28 and t[1] * t[2] <= 28])
    cmds = ["(strict)", "(sram s0 %s %d %d %d)" % (r.choice(["ram", "sram_stub"]), aw, dw, mask)]
    top, words, levels = "s0", 1 << aw, 0

    def rename(h, p):
        for k, v in NAMES.items():
            if r.random() < p and (k != "mask" or mask):
                cmds.append("(sramname %s %s %s)" % (h, k, r.choice(v)))
    if r.random() < 0.6:
        rename("s0", 0.4)
    if n:
        words *= n
        cmds.append("(sramx s1 bank %d s0)" % (words * dw))
        top, levels = "s1", 1
        if r.random() < 0.4:
            rename("s1", 0.3)
        if not tiny and n & (n - 1) == 0 and r.random() < 0.3:
            m = r.choice([2, 3])
            words *= m
            cmds.append("(sramx s2 outer %d s1)" % (words * dw))
            top, levels = "s2", 2
            if r.random() < 0.4:
                rename("s2", 0.3)
    cmds += ["(sraminfo %s)" % top, "(pass fix_assignment_type %s)" % top, "(pass create_module_instantiation %s)" % top, "(dump %s x)" % top, "(sv %s x)" % top]
    return cmds, words, dw, mask, levels


def ops(r, words, dw, mask, walk):
    full = (1 << dw) - 1
    if not walk:
        return [o for o in itertools.product((0, 1), (0, 1), range(words), range(full + 1), range(full + 1) if mask else (0,))
                if (not o[0] or (o[2] in (0, words - 1) and o[3] in (0, full))) and (not (o[0] or o[1]) or o[4] in (0, full))]
    t, hot = [], [r.randrange(words) for _ in range(2)]
    for k in range(walk):
        a = r.randrange(words) if r.random() < 0.6 else r.choice(hot + [0, words - 1])
        t.append((r.random() < 0.2, r.random() < 0.5, a, r.randint(0, full), r.choice([0, 0, full, r.randint(0, full)]) if mask else 0))
    # every word is written with a value of its own and read again
    order = list(range(words))
    r.shuffle(order)
    t += [(0, 0, a, (a * 5 + 3) & full, 0) for a in order]
    r.shuffle(order)
    t += [(0, 1, a, r.randint(0, full), 0) for a in order]
    return t


def item(c, cmds, info, kind, f, maxw, words, dw, mask, levels, r, walk):
    dom = "wint" if maxw <= 28 else "wbits"
    conv = (lambda v, w: int(v)) if dom == "wint" else (lambda v, w: flat.bits(int(v), w))
    clk, q, ceb, web, a, d, m = info["names"]
    ins = [ceb, web, a, d] + ([m] if mask else [])
    missing = [n for n in ins + [clk, q] if n not in f.ix]
    if missing:
        return None, "there is no port %s" % missing
    ws = [1, 1, info["aw"], dw, dw]
    o = [{"v": [conv(x, w) for x, w in zip(t, ws)][:len(ins)], "en": not t[0], "wr": not t[1], "a": t[2], "x": conv(t[3], dw), "m": conv(t[4], dw)}
         for t in ops(r, words, dw, mask, walk)]
    return dom, {"id": c + kind, "d": flat.shape_consts(f.design(), dom), "p": {"ins": [f.ix[n] for n in ins], "clk": f.ix[clk], "q": f.ix[q]},
                 "words": words, "dw": dw, "single": levels == 0, "walk": bool(walk), "ops": o}


def check(E):
    n = E.cov.setdefault("memories", {"to_closure": 0, "walks": 0, "levels": {}, "masked": 0, "operations": 0})
    tinies = [(1, 1, 0, 1), (1, 2, 0, 0), (1, 1, 1, 1), (1, 1, 2, 0)]
    if E.thorough:
        tinies += [(2, 1, 0, 1), (2, 1, 1, 0), (1, 2, 1, 1), (1, 1, 2, 1), (1, 1, 3, 0)]
    for rnd in range(1 if not E.thorough else 10):
        if rnd and E.elapsed() > 500:
            break
        plan = {}
        if rnd == 0:
            for j, t in enumerate(tinies):
                plan["t%d" % j] = (random.Random("c19-%d-t%d" % (E.seed, j)), t)
        for i in range(28 if not E.thorough else 80):
            plan["w%d_%d" % (rnd, i)] = (random.Random("c19-%d-%d-%d" % (E.seed, rnd, i)), None)
        made = {c: make(r, t) for c, (r, t) in plan.items()}
        res = E.drive([(c, m[0]) for c, m in made.items()])
        items, meta = {"wint": [], "wbits": []}, {}
        for c, (cmds, words, dw, mask, levels) in made.items():
            r, t = plan[c]
            ev = res[c]
            e = eq.first_error(ev)
            if e:
                E.violation("error", "%s: %s" % (c, eq.err_text(e, cmds)), cmds)
                continue
            info = [x for x in ev if x["ev"] == "sraminfo"][0]
            if info["cap"] != words * dw or info["dw"] != dw or (1 << info["aw"]) < words:
                E.violation("capacity", "%s: %d words of %d bits, but capacity() is %d, the data width %d and the address width %d" % (
                    c, words, dw, info["cap"], info["dw"], info["aw"]), cmds)
                continue
            # the state space of a masked tiny memory is the same, its operations are many
            walk = 0 if t else (30 if not E.thorough else 150)
            dump = [x for x in ev if x["ev"] == "dump"][0]
            svev = [x for x in ev if x["ev"] == "sv"][0]
            try:
                fa = pairs.from_dump(dump)
            except flat.FlatError as x:
                E.violation("flat", "%s: design not closed: %s" % (c, x), cmds)
                continue
            try:
                fb = pairs.sv_flat(svev)
            except (sv.SvError, KeyError, IndexError, ValueError) as x:
                E.violation("sv", "%s: generated SystemVerilog is not legal: %r" % (c, x), {"script": cmds, "sv": [m["s"] for m in svev["mods"]]})
                continue
            mw = max(pairs.ir_maxw(dump), fb.maxw)
            for kind, f in (("k", fa), ("s", fb)):
                dom, it = item(c, cmds, info, kind, f, mw, words, dw, mask, levels, random.Random("%s%d" % (c, E.seed)), walk)
                if dom is None:
                    E.violation("ports", "%s: %s" % (c, it), cmds)
                    continue
                items[dom].append(it)
                meta[c + kind] = (cmds, it, dom)
                n["operations"] += len(it["ops"])
            n["walks" if walk else "to_closure"] += 1
            n["masked"] += mask
            n["levels"][str(levels)] = n["levels"].get(str(levels), 0) + 1
            E.traces += 1
        bad = {}
        for dom in items:
            if items[dom]:
                for t in E.tlc("KMem", items[dom], dom):
                    if t[0] == "MISMATCH":
                        bad.setdefault(t[1], t[2])
        if bad:
            again = {}
            for dom in items:
                sub = [i for i in items[dom] if i["id"] in bad]
                if sub:
                    for t in E.tlc("KMem", sub, dom):
                        if t[0] == "MISMATCH":
                            again.setdefault(t[1], t[2])
            for k, d in again.items():
                cmds, it, dom = meta[k]
                E.violation("memory", "%s: the memory shows another word than it stores: %s" % (k, d), {"script": cmds, "detail": d, "ops": it["ops"] if it["walk"] else "all"})
        if rnd == 0:
            E.samples += [{"case": c, "script": m[0]} for c, m in list(made.items())[-3:]]
    E.assumptions += ["enables, write enables and masks are low when they are active; the memory starts as zeros",
                      "what a composed memory shows after an enabled write is left open until the next read"]
