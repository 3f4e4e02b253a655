"""writes MANIFEST.json from properties.jsonl and the table of built checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("TLA+ reference semantics (spec/KCore, Equiv) checked with TLC: the product of the design built and the emitted SystemVerilog (parsed back) is explored over input histories; a mismatch state is the counterexample",
        "model_checking", "designs are generated (random, seed-dependent); per design the histories are chosen vectors to depth K"),
"C02": ("TLA+ reference semantics (spec/KCore, Equiv) checked with TLC: the product of the design before and after the pass (or pipeline, and the emitted text) is explored over input histories",
        "model_checking", "designs, pass choices and orders are generated; histories are chosen vectors to depth K"),
"C03": ("TLA+ state machine of the simulator (spec/KSim over KCore); traces recorded from Simulator are validated by TLC step by step",
        "model_checking", "designs and schedules of writes are generated; one trace per design"),
"C04": ("TLA+ definition of every operator (spec/KEval over KCore and the word modules); recorded result tables and evaluated expression trees are validated by TLC",
        "model_checking", "operands: exhaustive for widths up to 3 (quick) or 5 (thorough), corner and random values up to 64 bits"),
"C05": ("TLA+ specification of the rule (spec/KVerdict over KCore/KType), explored by TLC for every pair of drivers of every design; verdicts of the real checks must agree with the existence of a witness state",
        "model_checking", "designs are generated (random, seed-dependent); per design the exploration is exhaustive"),
"C06": ("TLA+ state machine of expression-building calls (spec/KBuild); recorded sequences of calls with the observed types, rejections, statements and drivers are validated by TLC step by step",
        "model_checking", "call sequences are generated (random, seed-dependent) and end with a re-observation of everything built"),
"C07": ("TLA+ exploration of every execution path of every process (spec/KVerdict); verdicts of the real checks must agree with the existence of a witness path",
        "model_checking", "designs are generated (random, seed-dependent); per design the exploration is exhaustive"),
"C08": ("TLA+ specification of floating bits (spec/KVerdict) against the real check and the designs the zero-fill passes leave; equivalence before/after by spec/Equiv",
        "model_checking", "hierarchies are generated (random, seed-dependent); per design every port bit is explored"),
"C09": ("TLA+ specification of bit-level self-dependence (spec/KVerdict) against the verdict of the real check",
        "model_checking", "designs are generated (random, seed-dependent); per design every assignment is explored"),
"C10": ("TLA+ specification of state diagrams (spec/KFsm over KCore/KType/SvType); TLC explores the product of diagram and realized design (and emitted text) over all histories of inputs, clock edges and resets",
        "model_checking", "diagrams are generated (random, seed-dependent); per diagram the product is explored to its fixpoint"),
"C12": ("TLA+ state machine of statement containers and the drivers and loads that follow from them (spec/KBooks); recorded histories of calls and passes are validated by TLC after every call",
        "model_checking", "histories are generated (random, seed-dependent); statements and books are observed after every call and every pass"),
"C19": ("TLA+ state machine of a memory (spec/KMem) in product with the elaborated IR and text of the generated one: tiny memories over all histories to the fixpoint, larger ones over recorded walks",
        "model_checking", "configurations are generated (random, seed-dependent); the larger memories are explored along walks that write and read every word"),
"C20": ("TLA+ specification of when a statement under nested conditions runs (spec/KCover over KCore); reported enable conditions, coverage sets and fault sets are compared by TLC under every chosen valuation",
        "model_checking", "designs and valuations are generated (random, seed-dependent); every statement and branch of a design is judged"),
"C11": ("TLA+ specification of which generators are interchangeable (spec/KUniq); names chosen by the real hashing and uniquification of variants that differ in one detail are compared with its classes by TLC",
        "model_checking", "variants are generated (random, seed-dependent) by one-token changes of random modules; all pairs of a design are judged"),
"C14": ("TLA+ operators that describe the inserted hardware (spec/KInsert over KCore); TLC explores the product of the changed reference and the design (and text) the pass produced over input histories",
        "model_checking", "designs, opt-outs and existing enables/resets are generated (random, seed-dependent); histories are chosen vectors to depth K"),
"C21": ("TLA+ state machine of the instance hierarchy, the pass list and the orders that follow from them (spec/KOrder); recorded histories of calls and traversals are validated by TLC answer by answer",
        "model_checking", "histories are generated (random, seed-dependent); scheduling inside a level is the one the thread pool happens to produce"),
}
NOT_BUILT = {}
NA = {}
def main():
    ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": {"guard": "KRATOS_VERIF", "enable": "no hooks are needed: the driver (harness/) uses the public API; it is compiled with -DKRATOS_VERIF", "source_commits": []},
         "checks": [], "not_applicable": []}
    for i in ids:
        if i in T and os.path.exists(V + "/tools/kv/checks/%s.py" % i.lower()):
            m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                                "technique": T[i][0], "level": T[i][1], "level_note": T[i][2]})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "the check for this property is not built yet")})
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
main()
