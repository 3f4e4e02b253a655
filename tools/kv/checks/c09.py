"""C09: combinational loops through one assignment."""
import random

from .. import verdict, vgen

WHAT = {"check_combinational_loop": "an assignment that reads a bit it drives"}


def check(E):
    for rnd in range(1 if not E.thorough else 12):
        if rnd and E.elapsed() > 600:
            break
        cases = {}
        for i in range(2200 if not E.thorough else 4000):
            cases["p%d_%d" % (rnd, i)] = vgen.loops(random.Random("c09-%d-%d-%d" % (E.seed, rnd, i)))
        verdict.run(E, cases, [[("check_combinational_loop", ["loop"])]], WHAT, pre=["fix_assignment_type"])
        if rnd == 0:
            E.samples += [{"case": k, "script": v[12:]} for k, v in list(cases.items())[:3]]
    E.assumptions += ["an element selected by a variable may be any element", "variables read inside a function are not followed"]
