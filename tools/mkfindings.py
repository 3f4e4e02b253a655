"""known_findings.json: repaired defects (by the subject of their commit in /repo) and recorded ones"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
("C06", "logical and/or expressions are one bit wide", "a && b of 4-bit operands reported width 4"),
("C06", "relational and reduction expressions are unsigned", "a < b of signed operands was a signed one-bit value"),
("C06", "the sign of a shift is that of its left operand", "unsigned >> signed took the wrong sign"),
("C01", "keep the parentheses of nested non-associative", "a - (b - c) was printed as a - b - c"),
("C01", "parenthesize a negative constant under a unary operator", "-(-1) was printed as --4'sh1"),
("C06", "a range slice of a multi-dimensional array", "width and dimensions of a[h:l] of an array"),
("C01", "print the sign of a function's return type", "signed function results were read as unsigned"),
("C01", "print signed constants in expressions as signed literals", "an unsigned literal made the expression unsigned"),
("C01", "replacing a variable updates casts", "connected ports under casts, extensions, concatenations, indices and predicates kept the old variable"),
("C01", "constants of 64 bits and more", "shift by the width of the type while checking or printing a constant"),
("C12", "a switch case can be added without statements", "empty case dropped, so the default ran for its value"),
("C02", "if-else chains that compare with the same value twice", "the second comparison replaced the first case"),
("C02", "remove_empty_block keeps the meaning", "an if without then-branch lost its else-branch or changed its condition"),
("C02", "merge_const_port_assignment only merges wires that are the constant", "a wire assigned a constant in a slice or conditionally"),
("C02", "merge_if_block keeps the order", "statements between the two ifs or else branches were dropped or reordered"),
("C02", "merge_wire_assignments only merges slices that form a plain copy", "y[0]=x[1], y[1]=x[0] became y=x"),
("C12", "moving and removing variables keeps", "stale slices, sinks and sources after a variable is moved"),
("C02", "fan-out, dead code, case and inline passes keep", "drivers of sliced or clocked variables removed"),
("C12", "statements of a for loop can be removed", "removing a statement of a for loop did not find it"),
("C02", "inlining keeps the statements that read an output", "an output read in its module lost its readers"),
("C16", "dead code elimination does not visit siblings in parallel", "two threads erase statements of the same parent (data race, crash)"),
("C16", "inline_instance does not visit generators while removing them", "a thread visits a generator another thread frees (data race)"),
("C21", "leveled traversal does not read a popped queue entry", "levels computed from a freed queue entry"),
("C02", "empty switch cases that stay can be printed", "a case emptied by dead code elimination makes code generation fail"),
("C02", "inlining keeps a variable tied to an expression", "inlining an instance whose input is an expression makes code generation fail"),
("C12", "moving the connections of a port keeps the statements", "decoupling an output that is read inside its module dropped the readers"),
("C04", "inverting a 64-bit value", "~ at width 64 shifted by 64"),
("C04", "reduction operators evaluate all 64 bits", "&a of 0x1_0000_0000 counted 32 bits only"),
("C04", "signed comparison of two equal negative", "-3 <= -3 was false; equality of negatives inverted"),
("C04", "evaluating a division by zero", "a / 0 killed the process"),
("C04", "evaluate %, !=, &&, || and <<", "threw Not implemented"),
("C04", "right shifts of negative values", "-8 >>> 1 and shifts by the width or more"),
("C04", "** is evaluated with integers", "3 ** 40 rounded through double"),
("C04", "the and-reduction is a unary operator", "&a had no value"),
("C03", "simulated switch compares case values", "negative case values never matched, 64-bit target shifted by 64"),
("C03", "simulation uses a queue entry after removing it", "use after free in eval()"),
("C03", "Simulator::set_i with a list of values", "values were dereferenced as addresses"),
("C16", "building the simulation dependencies from several threads", "visitor with one map visited in parallel"),
("C04", "negative constants are evaluated at their width", "-1 of 4 bits had 64 bits set"),
("C03", "the simulator reads, writes and reacts to slices", "a[3:1], 64-bit slices, constant slices, slices of one bit watched by two readers, index variables"),
("C04", "simulated expressions use the width and the sign", "comparisons at width 1, signed extension, casts, duplication, conditionals"),
("C04", "simulated expressions of packed arrays", "no value"),
("C03", "simulated non-blocking assignments take effect", "two clocked blocks that swap values; last assignment wins; index evaluated late"),
("C03", "simulated clocked blocks run on the edges", "sliced or cast clocks never fired; clock and reset together fired twice"),
("C03", "simulated logic that reads only constants", "comb block or expression of constants never evaluated"),
("C04", "simulated negation has a value", "-a had no value"),
("C09", "combinational loops through selections", "a loop through a cast, extension, index, condition or argument was accepted"),
("C05", "every pair of drivers of a variable is checked", "only neighbouring drivers were compared; variable indices were ignored"),
("C08", "a port is connected if all its bits are driven", "pieces counted twice or not at all"),
("C08", "zero-fill passes drive exactly the undriven bits", "driven bits were driven again, pieces of arrays missed, driver placed in the wrong module"),
("C07", "latches are found for every bit and every path", "partially assigned variables, enum and full case coverage"),
("C07", "reset and sensitivity errors are reported with the right message", "accesses a statement that is not there"),
("C05", "both kinds of assignments in a latch are rejected", "latch blocks were not checked"),
("C05", "mixed assignments are found through concatenations", "targets in a concatenation were not checked"),
("C06", "an element of an unpacked array selected by a variable", "legal assignments and operators were rejected as mixing packed and unpacked"),
("C06", "concatenations, repetitions and comparisons of arrays are vectors", "concatenations and comparisons of arrays kept the dimensions, signed concatenations were signed"),
("C06", "the range of an element selected by a variable in a slice", "the range started at bit 0 of the variable"),
("C06", "a cast of an array has the width of the array", "width of one element; a resize lost the sign"),
("C06", "operands are never truncated and constants are not resized", "a wider operand was truncated, a constant used twice changed its width for its other users"),
("C06", "a selection from a dimension of size one", "x[2][1:0] of a [4][1] array was accepted, x[2][i] selected a bit"),
("C10", "Mealy outputs of unconditional and default transitions", "outputs of the default transition were driven on the last conditional one, those of an unconditional one never"),
("C10", "a second unconditional transition is rejected", "crash when realized"),
("C10", "an active low reset that is not a port", "active low ignored for a reset that is not a port; the error for a repeated output was a format error"),
("C10", "a state that keeps every output", "such a state got the outputs of the default case (the start state's)"),
("C12", "unassign removes the statement from where it is", "unassign of a nested statement, or of one with slices or expressions, left it in the block or in the books; so did removing an instance"),
("C12", "a switch statement that is cleared and added again", "target of the switch without load afterwards"),
("C12", "an unwired assignment can be added again", "not registered when added again"),
("C20", "the enable condition of a default case", "crash, or the default's condition ignored the labels"),
("C20", "coverage follows switch statements", "branches of a switch were never covered"),
("C20", "the index of a dynamic slice has its own handle", "in1[inst.o] was printed as in1[o] in conditions"),
("C20", "signed constants and nested conditions in hierarchical names", "conditions lost the sign of constants and the parentheses of ternaries"),
("C11", "modules that differ are hashed differently", "modules that differ in operand order, branches, case labels, ports, widths, children or connections got one name (and one definition)"),
("C21", "children of other generators with the same instance name are not touched", "remove_child_generator and has_child_generator looked up by instance name only, so removing (or renaming) a generator that is not a child removed its namesake; a failed add_child_generator renamed the generator"),
("C14", "pipeline stages of unpacked output arrays", "pipelining a module with an unpacked output array failed"),
("C14", "outputs read inside a pipelined generator are not delayed", "a module that reads its own output (o <= o + 1) read the delayed value after pipelining"),
("C14", "resets compared with constants are recognized as resets", "under if (rst == 0) the reset branch was disabled by the inserted enable, and no synchronous reset was inserted"),
("C14", "an instance whose reset is already driven is not wired", "an instance whose reset port was driven by the user got a second driver"),
("C14", "statements next to an enabled one are enabled as well", "if (clk_en) a <= x; b <= y: b was not frozen"),
("C14", "constants inside an instance do not move to its parent", "an assignment of a constant added to an attached instance made expressions print hierarchical names of the parent"),
("C14", "clock enables are not inserted below generators", "crash when an opted-out module has instances"),
("C13", "renaming a variable keeps the port table", "rename_var replaced another variable of the new name and left the port table with the old name"),
("C19", "renamed memory ports are found", "a memory whose port was renamed could not be composed: lookups used the old name"),
("C19", "capacity of a memory whose bank count", "a memory of 3 banks reported the capacity of 4"),
("C19", "a memory can be composed from a single bank", "composing a memory of the capacity of its basis failed with a width of 0"),
("C15", "a clone keeps parameter values", "a clone of a parametrized module had 1-bit ports; struct, enum and array ports became plain vectors"),
("C15", "function call statements can be cloned", "cloning a block with a function call threw Not implemented"),
("C15", "cloned statements keep their attributes", "attributes such as check_assignment were lost"),
("C15", "a rejected replacement leaves the instance connected", "replacing an instance by an incompatible one moved the connections of the ports checked so far"),
("C17", "variables follow the parameter they were linked to last", "after linking to another parameter or unlinking, setting the former one still changed the width"),
("C17", "parameter values reach linked widths", "a width linked to P * 2 became P; a parameter set to a number kept its former parent; a rejected value changed what was visited first"),
]
OPEN = [
("C12", "removed-not-cleared|replaced-child", "Generator::remove_stmt, StmtBlock::remove_stmt and set_child take a statement out of the design but it stays a registered driver and load until clear() is called on it (passes rely on this)"),
]
def main():
    log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
    out = []
    for p, s, t in FIXED:
        h = [c for c, m in log if s in m]
        assert len(h) == 1, (s, h)
        out.append({"property": p, "status": "fixed", "commit": h[0], "text": "fixed: property=%s %s %s" % (p, h[0], t)})
    used = {f["commit"] for f in out}
    for c, m in log:
        if m.startswith("fix:") and c not in used: print("not listed:", c, m)
    for p, k, t in OPEN:
        out.append({"property": p, "status": "open", "key": k, "text": t})
    json.dump({"findings": out}, open(V + "/known_findings.json", "w"), indent=1)
main()
