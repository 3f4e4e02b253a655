"""C05: multiple and mixed drivers."""
import random

from .. import eq, verdict, vgen

CHECKS = [("check_multiple_driver", ["multi"]), ("fix_assignment_type", ["kind"]), ("check_mixed_assignment", ["mixed"])]
WHAT = {"check_multiple_driver": "a bit driven from two places", "fix_assignment_type": "an assignment of the wrong kind in a process",
        "check_mixed_assignment": "a variable with both kinds of assignments"}


def check(E):
    for rnd in range(1 if not E.thorough else 12):
        if rnd and E.elapsed() > 600:
            break
        cases = {}
        for i in range(1500 if not E.thorough else 3000):
            r = random.Random("c05-%d-%d-%d" % (E.seed, rnd, i))
            cases["d%d_%d" % (rnd, i)] = vgen.drivers(r)
        res = verdict.run(E, cases, [CHECKS[:1], CHECKS[1:]], WHAT)
        # kinds given when the statements are made: rejected at the latest by these checks
        direct = [(c, s + ["(check %s top)" % k for k, _ in CHECKS[1:]]) for c, s in cases.items() if c in res and ("(=n" in str(s) or "(=b" in str(s))]
        dres = E.drive(direct)
        for c, cmds in direct:
            ev = dres[c]
            rej = eq.first_error(ev) is not None or any(x["ev"] == "check" and not x["ok"] for x in ev)
            want = bool(res[c][0] & {"kind", "mixed"})
            E.traces += 1
            if rej != want:
                E.violation("mixed-" + ("accepts" if want else "rejects"), "%s: mixed kinds of assignments are %s although the design has %s" % (
                    c, "accepted" if want else "rejected", sorted(res[c][0])), cmds)
        if rnd == 0:
            E.samples += [{"case": k, "script": v[12:]} for k, v in list(cases.items())[:3]]
    E.assumptions += ["elements selected by a variable, and assignments inside loops, are assumed to differ within one process (not across processes)",
                      "assignments made inside functions are not drivers in this specification"]
