"""C07: latches in combinational processes, structure of clocked processes."""
import random

from .. import verdict, vgen

WHAT = {"check_inferred_latch": "a path on which an assigned bit gets no value, or a register that only reset assigns",
        "check_flip_flop_always_ff": "a conditional next to other statements at the top of a clocked process"}


def check(E):
    for rnd in range(1 if not E.thorough else 12):
        if rnd and E.elapsed() > 600:
            break
        n = 1 if not E.thorough else 2
        comb, seq = {}, {}
        for i in range(650 * n):
            comb["l%d_%d" % (rnd, i)] = vgen.latches(random.Random("c07l-%d-%d-%d" % (E.seed, rnd, i)))
        for i in range(500 * n):
            seq["r%d_%d" % (rnd, i)] = vgen.registers(random.Random("c07r-%d-%d-%d" % (E.seed, rnd, i)))
        comb.update(seq)
        verdict.run(E, comb, [[("check_inferred_latch", ["latch", "reset"])], [("check_flip_flop_always_ff", ["ff"])]], WHAT)
        if rnd == 0:
            E.samples += [{"case": k, "script": v[12:]} for k, v in list(comb.items())[:2] + list(seq.items())[:2]]
    E.assumptions += ["every branch of a conditional can be taken, whatever the conditions say",
                      "a register is a whole variable in the reset rule"]
