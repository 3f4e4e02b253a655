"""Running things: build the driver from /repo, run scripts, run TLC, evidence."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("KV_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = int(os.environ.get("KV_JOBS", "8"))


class CheckError(Exception):
    pass


class Env:
    """one run of one check: scratch directory, built driver, statistics"""

    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix="kv_%s_" % prop)
        self.t0 = time.time()
        self.states = self.distinct = self.tlc_runs = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.viol = []
        self.known = []
        self.assumptions = []
        self.rng = random.Random(self.seed)
        self.nrun = 0
        self.drv = None

    def elapsed(self):
        return time.time() - self.t0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def build(self):
        if os.environ.get("KV_DRV"):
            self.drv = os.environ["KV_DRV"]
            return
        out = os.path.join(self.dir, "build")
        os.mkdir(out)
        r = subprocess.run(["make", "-s", "-j%d" % JOBS, "-f", os.path.join(VERIF, "harness/Makefile"), "OUT=" + out, "REPO=" + REPO],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-3000:])
        self.drv = os.path.join(out, "kdrv")

    # --------------------------------------------------------------- driver
    def drive(self, cases, nproc=JOBS, lax=False):
        """cases: list of (id, [command strings]); returns {id: [events]}"""
        if not cases:
            return {}
        nproc = max(1, min(nproc, len(cases)))
        procs = []
        for k in range(nproc):
            self.nrun += 1
            fn = os.path.join(self.dir, "s%d.k" % self.nrun)
            with open(fn, "w") as f:
                for cid, cmds in cases[k::nproc]:
                    f.write("(case %s\n %s)\n" % (cid, "\n ".join(cmds)))
            of = open(fn + ".out", "w")
            procs.append((subprocess.Popen([self.drv, fn], stdout=of, stderr=subprocess.DEVNULL), fn, of))
        res = {str(c[0]): [] for c in cases}
        for p, fn, of in procs:
            try:
                p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                raise CheckError("driver timeout")
            of.close()
            if p.returncode:
                raise CheckError("driver exit %d" % p.returncode)
            with open(fn + ".out", errors="replace") as f:
                for line in f:
                    line = line.strip()
                    if not line:
                        continue
                    try:
                        e = json.loads(line)
                    except ValueError:
                        # output cut by a crash of the case
                        continue
                    res[e["case"]].append(e)
            os.unlink(fn + ".out")
        for c in cases:
            ev = res[str(c[0])]
            if not ev or ev[-1]["ev"] not in ("end", "crash"):
                raise CheckError("driver produced no result for case %s" % c[0])
            for e in ev:
                if e["ev"] == "drverr" and not lax:
                    raise CheckError("driver misuse in case %s: %s" % (c[0], e["msg"]))
        return res

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, data, word="wint", cfg=None, workers=JOBS, heap="6g", extra=(), timeout=800, simulate=None, env=None, consts=None):
        """run TLC on spec/<module>.tla; data (JSON value) goes to KV_IN.
        returns list of printed tuples [tag, id, payload]"""
        self.nrun += 1
        d = os.path.join(self.dir, "tlc%d" % self.nrun)
        os.mkdir(d)
        inp = os.path.join(d, "in.json")
        if data is not None:
            with open(inp, "w") as f:
                json.dump(data, f)
        e = dict(os.environ, KV_IN=inp)
        if env:
            e.update(env)
        spec = os.path.join(VERIF, "spec")
        cfgf = os.path.join(spec, (cfg or module) + ".cfg")
        if consts:
            t = open(cfgf).read()
            for k, v in consts.items():
                t = re.sub(r"(?m)^(\s*%s\s*=).*$" % k, r"\1 %s" % v, t)
            cfgf = os.path.join(d, "run.cfg")
            open(cfgf, "w").write(t)
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-DTLA-Library=%s:%s/%s" % (spec, spec, word), "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cfgf, "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += list(extra) + [os.path.join(spec, module + ".tla")]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on " + module)
        out = r.stdout
        self.last_tlc = out
        self.tlc_runs += 1
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.states += int(m[-1][0])
            self.distinct += int(m[-1][1])
        if simulate:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.states += int(m[-1])
        if r.returncode not in (0,) or ("Error:" in out and "Model checking completed. No error" not in out):
            if not (r.returncode in (10, 11, 12, 13) and "KEEP" in extra):
                raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, out[max(0, out.find("Error:")):][:1500] + "\n...\n" + out[-1500:]))
        res = []
        # printed tuples may be wrapped over lines: join continuation lines
        for t in tuples(out):
            res.append(t)
        shutil.rmtree(d, ignore_errors=True)
        return res

    # ------------------------------------------------------------- verdicts
    def violation(self, key, what, replay):
        """key: stable identity of the failing input/site (matched against known findings)"""
        for k, text in known_findings(self.prop):
            if re.fullmatch(k, key):
                if (k, text) not in self.known:
                    self.known.append((k, text))
                return False
        self.viol.append((key, what, replay))
        return True

    def finish(self, level="model_checking", extra=None):
        vdir = os.path.join(VERIF, "evidence", "replay")
        cov = {"states": self.states, "transitions": self.states, "distinct_states": self.distinct,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:12] or ["-"]}
        cov.update(self.cov)
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": []}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for _, t in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        rc = 0
        for n, (key, what, replay) in enumerate(self.viol[:5]):
            os.makedirs(vdir, exist_ok=True)
            fn = os.path.join(vdir, "%s-%d.json" % (self.prop, n))
            with open(fn, "w") as f:
                json.dump({"property": self.prop, "key": key, "what": what, "replay": replay}, f, indent=1, default=str)
            ev["violations"].append({"what": str(what)[:400], "replay": fn})
            print("VIOLATION property=%s replay=%s" % (self.prop, fn))
            print("  " + str(what)[:1500])
            rc = 1
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %s, %d states, %d traces, %.1fs" % (self.prop, "VIOLATED" if rc else "held", self.states, self.traces, time.time() - self.t0))
        return rc


def known_findings(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    r = []
    if os.path.exists(fn):
        for k in json.load(open(fn))["findings"]:
            if k["property"] == prop and k.get("status") == "open":
                r.append((k["key"], k["text"]))
    return r


def tuples(out):
    """parse TLC PrintT output of <<"TAG", "id", "payload">> (strings / ints only)"""
    res = []
    i = 0
    while True:
        i = out.find('<<"', i)
        if i < 0:
            return res
        # only at line start
        if i and out[i - 1] != "\n":
            i += 3
            continue
        j = i + 2
        items, ok = [], True
        while True:
            while j < len(out) and out[j] in " \n\t,":
                j += 1
            if out.startswith(">>", j):
                break
            if j < len(out) and out[j] == '"':
                k = j + 1
                s = ""
                while out[k] != '"':
                    if out[k] == "\\":
                        k += 1
                        s += {"n": "\n", "t": "\t"}.get(out[k], out[k])
                    else:
                        s += out[k]
                    k += 1
                items.append(s)
                j = k + 1
            else:
                m = re.compile(r"-?\d+|TRUE|FALSE").match(out, j)
                if not m:
                    ok = False
                    break
                items.append(m.group(0))
                j = m.end()
        if ok:
            res.append(items)
        i = max(j, i + 3)
