"""C02: optimization and clean-up passes preserve what the design computes."""
import random

from .. import eq, gen, optgen

PRE = ["decouple_generator_ports", "fix_assignment_type"]
# pass -> passes it is documented to run after
PASSES = {
    "transform_if_to_case": [], "merge_if_block": [], "remove_fanout_one_wires": [], "remove_pass_through_modules": [],
    "merge_wire_assignments": PRE, "merge_const_port_assignment": PRE, "remove_unused_vars": PRE, "remove_unused_stmts": [],
    "dead_code_elimination": PRE, "remove_empty_block": PRE, "inline_instance": PRE, "decouple_generator_ports": [], "fix_assignment_type": [],
    "port_legality_fix": PRE, "sort_stmts": PRE, "propagate_scope_variable": [], "zero_generator_inputs": [], "zero_out_stubs": [],
}
EARLY = {"remove_pass_through_modules", "remove_fanout_one_wires", "zero_generator_inputs", "zero_out_stubs"}
PIPE = ["realize_fsm", "remove_pass_through_modules", "merge_if_block", "transform_if_to_case", "?dead_code_elimination", "zero_out_stubs",
        "remove_fanout_one_wires", "zero_generator_inputs", "change_port_bundle_struct", "merge_const_port_assignment",
        "decouple_generator_ports", "fix_assignment_type", "remove_unused_vars", "remove_unused_stmts", "verify_assignments",
        "check_mixed_assignment", "merge_wire_assignments", "hash_generators_parallel", "?inline_instance", "uniquify_generators",
        "create_module_instantiation", "?sort_stmts", "?port_legality_fix"]
CFG = {"nwires": [1, 3], "nouts": [1, 2], "ninputs": [2, 3], "depth": 2, "func": False, "maxw": 4, "nkids": [0, 2], "bits_limit": 16}


FOCUS = {"": ["dead_code_elimination", "remove_empty_block", "decouple_generator_ports"], "if": ["transform_if_to_case"],
         "wires": ["remove_fanout_one_wires", "merge_wire_assignments"], "merge": ["merge_if_block"],
         "inst": ["remove_pass_through_modules", "inline_instance", "merge_const_port_assignment"]}


def run_pass(p):
    return "(pass %s top)" % p


def check(E):
    rounds = 1 if not E.thorough else 8
    names = sorted(PASSES)
    E.cov["passes"] = {}
    for rnd in range(rounds):
        if rnd and E.elapsed() > 600:
            break
        cases, seeds, kinds = [], {}, {}
        for i in range(120 if not E.thorough else 260):
            sd = E.seed * 100003 + rnd * 1009 + i
            r = random.Random("c02-%d" % sd)
            cfg = dict(CFG)
            if r.random() < 0.3:
                cfg.update(nkids=[0, 0], nwires=[1, 1])
            pipe = r.random() < 0.4
            cfg["focus"] = r.choice(["", "if", "wires", "merge", "inst"])
            if cfg["focus"] == "inst":
                cfg.update(nkids=[1, 2], nwires=[0, 1], nouts=[1, 1])
            elif cfg["focus"]:
                cfg.update(nkids=[0, 1], nwires=[1, 2], nouts=[1, 2])
            cfg["empty_case"] = not pipe        # an empty case cannot be printed
            d = optgen.design(r, cfg)
            s = ["(strict)"] + d.script()
            # several single passes per design, in random order, each checked against the state before it
            # (passes that rewire instances are documented to run before the instances are decoupled)
            ps = set(r.sample(FOCUS[cfg["focus"]], min(2, len(FOCUS[cfg["focus"]]))) + r.sample(names, 2))
            ps = sorted(sorted(ps), key=lambda p: p not in EARLY)
            # the passes of one chain are compared to the start
            if not pipe:
                seq = []
                for p in ps:
                    seq += [q for q in PASSES[p] if q not in seq] + [p]
                if r.random() < 0.5:
                    seq.append(seq[-1])          # a second time changes nothing
            else:
                seq = [p.strip("?") for p in PIPE if p[0] != "?" or r.random() < 0.5]
            cmds = s + ["(dump top a)"] + [run_pass(p) for p in seq] + ["(dump top b)"]
            if "create_module_instantiation" in seq:
                cmds += ["(sv top s)"]
            cid = "o%d_%d" % (rnd, i)
            cases.append((cid, cmds))
            seeds[cid], kinds[cid] = sd, seq
            for p in seq:
                E.cov["passes"][p] = E.cov["passes"].get(p, 0) + 1
        res = E.drive(cases)
        B = eq.Batch(E, nvec=5, K=3, internals=False)
        for cid, cmds in cases:
            ev = res[cid]
            err = eq.first_error(ev)
            if err:
                E.violation("rejected", "%s: a pass fails on a legal design: %s (passes %s)" % (cid, eq.err_text(err, cmds), kinds[cid]), cmds)
                continue
            da, db = [[e for e in ev if e["ev"] == "dump" and e["tag"] == t][0] for t in "ab"]
            B.key = lambda kind, script: "pass"
            s = [e for e in ev if e["ev"] == "sv"]
            B.add_ir_ir(cid, da, db, {"passes": kinds[cid], "script": cmds}, seeds[cid])
            if s:
                B.add_ir_sv(cid + "_sv", da, s[0], {"passes": kinds[cid], "script": cmds}, seeds[cid])
            if len(E.samples) < 6:
                E.samples.append({"case": cid, "passes": kinds[cid]})
        B.run()
    E.assumptions += ["two-valued semantics; legal designs (no latches, loops or multiple drivers)"]
