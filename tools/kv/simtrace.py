"""Traces of the built-in simulator: generation, recording and validation by spec/KSim.tla."""
import json
import random

from . import eq, flat, gen, pairs


class Trace:
    """one design and a schedule of writes; two driver runs: the first finds the variables"""

    def __init__(self, cid, script, top, seed):
        self.cid, self.script, self.top, self.seed = cid, script, top, seed

    def probe(self):
        return (self.cid, ["(strict)"] + self.script + ["(sim S %s)" % self.top, "(dump %s a)" % self.top])

    def plan(self, dump, nsteps, focus=None):
        r = random.Random("%s-%d" % (self.cid, self.seed))
        f = self.flat = pairs.from_dump(dump)
        self.maxw = pairs.ir_maxw(dump)
        # variables by their path; the driver finds them through the instances
        self.vars = [n for n in f.ix if "#" not in n]
        ports = pairs.ports_of_dump(dump)
        self.topin = set(p[0] for p in ports if p[1] == "in")
        self.cmds, self.steps = [], []
        ref = lambda n: "%s:%s" % (self.top, n.replace(".", "/"))
        wid = {}
        for i, n in enumerate(f.names):
            v = f.vars[i]
            w = v["ew"]
            for d in v["dims"]:
                w *= d
            wid[n] = (w, v["dims"], v["ew"])
        clks = [p[0] for p in ports if p[1] == "in" and p[2] == "clk"]
        rsts = [p[0] for p in ports if p[1] == "in" and p[2] in ("arst", "rst")]
        ins = [p[0] for p in ports if p[1] == "in" and p[0] not in clks]
        regs = sorted(self.regs_of(f))
        look = [n for n in self.vars if n in wid]

        def setcmd(n, lo, w, val, expr=None):
            tw, dims, ew = wid[n]
            if expr is None and dims:
                self.cmds.append("(seta S %s %s)" % (ref(n), " ".join(str((val >> (k * ew)) & ((1 << ew) - 1)) for k in range(tw // ew))))
            else:
                self.cmds.append("(set S %s %d)" % (expr or ref(n), val))

        def step(sets, obs, init=False):
            if obs:
                self.cmds.append("(getall S %s)" % " ".join(ref(n) for n in look))
            self.steps.append((sets, obs, init))
        # define the state: clocks and resets low, inputs and registers zero
        first = []
        for n in clks + rsts + [x for x in ins if x not in rsts] + regs:
            setcmd(n, 0, wid[n][0], 0)
            first.append((n, 0, wid[n][0], 0))
        step(first, True, True)
        vals = {n: 0 for n in clks + ins}
        k = 0
        while k < nsteps:
            x = r.random()
            data = [n for n in ins if n not in rsts] or ins
            if clks and x < 0.45:
                c = r.choice(clks)
                vals[c] ^= 1
                setcmd(c, 0, 1, vals[c])
                step([(c, 0, 1, vals[c])], True)
            elif rsts and x < 0.55:
                c = r.choice(rsts)
                vals[c] ^= 1
                setcmd(c, 0, 1, vals[c])
                step([(c, 0, 1, vals[c])], True)
            elif not data:
                k += 1
                continue
            elif x < 0.7:
                # part of an input
                n = r.choice(data)
                tw, dims, ew = wid[n]
                e, lo, w = ref(n), 0, tw
                dd = list(dims)
                while dd and r.random() < 0.85:
                    i = r.randrange(dd[0])
                    w = w // dd[0]
                    e = "(ix %s %d)" % (e, i)
                    lo += i * w
                    dd = dd[1:]
                if not dd and w > 1 and r.random() < 0.8:
                    hi = r.randrange(w)
                    l = r.randrange(hi + 1)
                    if hi - l + 1 < w:
                        e = "(ix %s %d)" % (e, l) if hi == l else "(sl %s %d %d)" % (e, hi, l)
                        lo, w = lo + l, hi - l + 1
                if dd:
                    sub = w
                    v = r.getrandbits(sub)
                    self.cmds.append("(seta S %s %s)" % (e, " ".join(str((v >> (j * ew)) & ((1 << ew) - 1)) for j in range(sub // ew))))
                else:
                    v = self.value(r, w)
                    setcmd(n, lo, w, v, e)
                vals[n] = 0
                step([(n, lo, w, v)], True)
            elif x < 0.85 or len(data) < 2:
                n = r.choice(data)
                v = self.value(r, wid[n][0])
                setcmd(n, 0, wid[n][0], v)
                step([(n, 0, wid[n][0], v)], True)
            else:
                # several inputs before anything reacts, in any order
                ch = [n for n in data if not wid[n][1]]
                r.shuffle(ch)
                sets = []
                for n in ch:
                    v = self.value(r, wid[n][0])
                    self.cmds.append("(setn S %s %d)" % (ref(n), v))
                    sets.append((n, 0, wid[n][0], v))
                if not sets:
                    continue
                self.cmds.append("(evalsim S)")
                step(sets, True)
            k += 1
        self.look, self.wid = look, wid
        return (self.cid, self.probe()[1] + self.cmds)

    def value(self, r, w):
        return r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, r.getrandbits(w), r.getrandbits(w)]) & ((1 << w) - 1)

    def regs_of(self, f):
        """whatever is not driven by combinational logic: registers and undriven variables"""
        comb = set()
        for w in f.wr:
            comb |= w
        top = set(n for n in self.vars if "." not in n)
        return set(n for n in self.vars if f.ix[n] not in comb and not (n in top and n in self.topin))

    def record(self, events):
        """observations of a run -> trace for the specification; returns (domain, trace) or an error text"""
        obs = [e["a"] for e in events if e["ev"] == "getall"]
        dom = "wint" if self.maxw <= 28 else "wbits"
        conv = lambda v, w: v if dom == "wint" else flat.bits(v, w)
        steps = []
        k = 0
        for j, (sets, ob, init) in enumerate(self.steps):
            o = []
            if ob:
                for n, v in zip(self.look, obs[k]):
                    w, dims, ew = self.wid[n]
                    if v is None:
                        return "step %d: %s has no value" % (j, n), None
                    if isinstance(v, list):
                        if len(v) != w // ew:
                            return "step %d: %s has %d elements" % (j, n, len(v)), None
                        for y in v:
                            if int(y) >> ew:
                                return "step %d: an element of %s has the value %s" % (j, n, y), None
                        v = sum(int(y) << (i * ew) for i, y in enumerate(v))
                    v = int(v)
                    if v >> w:
                        return "step %d: %s (%d bits) has the value %d" % (j, n, w, v), None
                    o.append({"i": self.flat.ix[n], "v": conv(v, w)})
                k += 1
            steps.append({"set": [{"i": self.flat.ix[n], "lo": lo, "w": w, "v": conv(v, w)} for n, lo, w, v in sets], "init": init, "obs": o})
        return dom, {"id": self.cid, "a": flat.shape_consts(self.flat.design(), dom), "steps": steps}


def validate(E, traces, cases, res, key="sim"):
    """traces: {cid: Trace}; res: driver events"""
    sets = {"wint": [], "wbits": []}
    byid = {}
    for cid, cmds in cases:
        ev = res[cid]
        e = eq.first_error(ev)
        if e:
            E.violation("simerr", "%s: the simulator fails: %s" % (cid, eq.err_text(e, cmds)), cmds)
            continue
        dom, t = traces[cid].record(ev)
        if t is None:
            E.violation("simval", "%s: %s" % (cid, dom), cmds)
            continue
        sets[dom].append(t)
        byid[cid] = (dom, t, cmds)
    unstable = set()
    for dom in sets:
        if not sets[dom]:
            continue
        bad = {}
        for x in E.tlc("KSim", sets[dom], dom):
            if x[0] == "MISMATCH":
                bad.setdefault(x[1], x)
            elif x[0] == "UNSTABLE":
                unstable.add(x[1])
        for cid, x in bad.items():
            _, t, cmds = byid[cid]
            again = [y for y in E.tlc("KSim", [t], dom) if y[0] == "MISMATCH"]
            if not again:
                continue
            d = json.loads(x[2])
            n = traces[cid].flat.names[d["var"] - 1]
            E.violation(key, "%s: step %s: %s is %s, the design gives %s" % (cid, d["step"], n, d["got"], d["want"]), {"script": cmds, "detail": d})
    E.traces += len(byid)
    E.cov["sim_steps"] = E.cov.get("sim_steps", 0) + sum(len(t["steps"]) for s in sets.values() for t in s)
    E.cov["unstable"] = E.cov.get("unstable", 0) + len(unstable)
    return byid, unstable
