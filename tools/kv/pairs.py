"""Building Equiv inputs: pairs of designs with port correspondence and vectors."""
from . import flat, sv, gen


def from_dump(ev):
    return flat.KFlat(ev["d"])


def ports_of_dump(ev):
    top = [g for g in ev["d"] if g["path"] == ""][0]
    r = []
    for v in top["vars"]:
        if v["n"] in top["ports"]:
            w = v["w"]
            for s in v["size"]:
                w *= s
            r.append((v["n"], v["dir"], v["pt"], w))
    return r


def sv_flat(ev):
    return sv.SvFlat({m["m"]: m["s"] for m in ev["mods"]}, ev["top"], [s["s"] for s in ev["structs"]] + [s["s"] for s in ev["enums"]],
                     [s["s"] for s in ev["ifs"]])


def ir_maxw(ev):
    m = 1

    def rec(x):
        nonlocal m
        if isinstance(x, dict):
            w = x.get("w")
            if isinstance(w, int) and "t" in x:
                m = max(m, w)
            if "tw" in x:
                m = max(m, x["tw"])
            for k, y in x.items():
                if not (x.get("t") == "dup" and k == "c"):
                    rec(y)
        elif isinstance(x, list):
            for y in x:
                rec(y)
    rec(ev["d"])
    return m


def make(pid, fa, fb, ports, r, nvec, K, maxw, clkname="clk", rstvals=None, outs=None, word=None, extra=None):
    """fa, fb: flattened designs having .ix (name->index) and .design()"""
    dom = word or ("wint" if maxw <= 28 else "wbits")
    ins = [p for p in ports if p[1] == "in" and p[0] != clkname]
    oo = [p for p in ports if p[1] == "out"] if outs is None else outs
    clk = [p for p in ports if p[0] == clkname]
    ws = [p[3] for p in ins]
    vs = gen.vectors(r, ws, nvec)
    # resets mostly inactive
    for j, p in enumerate(ins):
        if p[2] in ("arst", "rst"):
            for k, v in enumerate(vs):
                v[j] = 0 if k == 0 else (1 if r.random() < 0.85 else 0)
    conv = lambda v, w: v if dom == "wint" else flat.bits(v, w)
    a = flat.shape_consts(fa.design(), dom)
    b = flat.shape_consts(fb.design(), dom)
    return dom, {**(extra or {}), "id": pid, "a": a, "b": b, "ins": [{"a": fa.ix[p[0]], "b": fb.ix[p[0]]} for p in ins],
                 "clk": [{"a": fa.ix[p[0]], "b": fb.ix[p[0]]} for p in clk],
                 "outs": [{"a": fa.ix[p[0]], "b": fb.ix[p[0]]} for p in oo],
                 "vec": [[conv(x, w) for x, w in zip(v, ws)] for v in vs], "K": K}
