import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None,**({"state":state} if state else {}))))
p("C01","Generated SystemVerilog behaves exactly like the design that was built",
"For every design built from typed variables, expressions, combinational/clocked processes, loops, functions and child instances, the emitted SystemVerilog computes, for every input sequence, the same outputs as the design itself, cycle for cycle. Every reachable module is emitted exactly once, with every declared port, and every instance connects each port to the net the design connects it to. Any two expressions that mean different things are never printed as the same text.",
["programs","inputs"],"All designs expressible in the builder API's synthesizable subset and all input histories (bounded: generated designs, all inputs exhaustively or by chosen vectors to a depth).",
"Tests compare a few golden files; they cannot enumerate operator nestings, precedence, widths, slice/array shapes and hierarchy combinations, nor evaluate the text.",
["src/codegen.cc","src/expr.cc","src/stmt.cc","src/transform.cc","src/util.cc"],
[("text emission of expressions/statements","src/codegen.cc SystemVerilogCodeGen::stmt_code; src/expr.cc to_string"),("port mapping of instances","src/stmt.cc InstantiationStmt::process_port"),("lowering passes","src/transform.cc")],
["text returned by code generation"])
p("C02","Optimization and clean-up passes never change what a design computes",
"Running any of the behaviour-preserving passes (if-to-case, block merging, fan-out-one wire removal, pass-through module removal, wire-assignment merging, constant port propagation, unused variable/statement removal, dead-code and empty-block elimination, inlining, port decoupling and legality fixes, statement sorting, generate-loop lifting, bundle-to-struct) leaves the top-level outputs unchanged for every input sequence. Running a pass a second time changes nothing further in behaviour, and an ordering of several passes preserves behaviour too.",
["programs","inputs","configurations"],"All designs, all subsets/orders of passes, all input histories.",
"Unit tests apply one pass to one or two shapes and compare structure, not function.",
["src/optimize.cc","src/transform.cc","src/analysis.cc"],
[("optimization passes","src/optimize.cc"),("lowering passes","src/transform.cc")],["design after the pass"])
p("C03","The built-in simulator follows the design's hardware semantics",
"After any sequence of input changes, the value the simulator reports for every variable equals the settled hardware value: combinational logic holds at a fixpoint, clocked blocks fire exactly on their edges, non-blocking updates all read pre-edge values with the last assignment winning, and slice or array-element writes change exactly the addressed bits. This holds for every width the simulator accepts, and the result does not depend on the order in which independent inputs are set.",
["programs","inputs","histories"],"All simulatable designs of widths 1..64 and all histories of set/get calls.",
"Tests poke a handful of tiny designs with a handful of values.",
["src/sim.cc","src/eval.cc","src/util.cc"],
[("event queue","src/sim.cc Simulator::eval"),("partial update","src/sim.cc set_value_, trigger_event"),("NBA commit","src/sim.cc process_stmt(SequentialStmtBlock)")],["simulator get/get_array"])
p("C04","Expression evaluation is bit-exact for every operator, width and sign",
"For every supported operator, operand width from 1 to 64 bits, and signedness, evaluating an expression over known operand values yields exactly the two's-complement result the hardware expression would, truncated to the expression's width. Comparisons and reductions are decided on the operands' full width and sign, and no operand combination (other than division by zero) makes evaluation crash or fail.",
["inputs"],"All operators x widths 1..64 x signedness x operand values (boundary and random).",
"Tests evaluate about a dozen small constants; width 64, sign and boundary interactions are untouched.",
["src/eval.cc","src/sim.cc"],
[("operator evaluation","src/eval.cc eval_bin_op, eval_unary_op, eval_ternary_op"),("constant folding entry","src/sim.cc static_evaluate_expr")],["eval functions' results"])
p("C05","Driver-conflict checks accept exactly the conflict-free designs",
"A design is rejected for multiple drivers exactly when some bit of some variable is driven from two different places that are neither in one combinational process nor in exclusive or nested positions of one statement of one clocked process, and accepted otherwise; within one process, elements selected by a variable are taken to differ. A design that mixes blocking and non-blocking assignments to one variable, or in one process, or uses the wrong kind for its process, is always rejected, and one that does not is accepted.",
["programs"],"All arrangements of whole, slice and array-element drivers over continuous assignments, processes and instances.",
"Tests have a couple of overlapping/non-overlapping slices; the space of slice pairs and driver kinds is combinatorial.",
["src/analysis.cc","src/transform.cc"],
[("bit occupancy check","src/analysis.cc MultipleDriverVisitor"),("mixed assignment","src/analysis.cc check_mixed_assignment")],["exception or success of the check"])
p("C06","Every expression has the right width, range and sign, or is rejected",
"The width, dimensions, bit range and sign reported for every expression, selection, concatenation, extension, cast and array element are those the hardware type rules give for its operands: selections stay in the bits of what they select from and are unsigned, concatenations and comparisons are unsigned, a result is signed if its operands are, a constant operand takes the width of the other one if its value fits, otherwise the narrower operand is extended, and nothing is ever truncated. Calls that break a rule (index out of range or wider than needed, constants that do not fit, concatenated operands of different signs, mixed packed and unpacked arrays, assignments of a different width or sign) are rejected, every legal one is accepted, and neither a rejected nor a later call changes any other expression, the statements or the drivers of the design.",
["programs","inputs"],"All operand shapes (widths, dimensions, signs, packing), operators and slice indices.",
"Tests check a few widths; interactions of dimensions, ranges and nested slices are not sampled.",
["src/expr.cc","src/util.cc","src/stmt.cc"],
[("expression constructors","src/expr.cc Expr::Expr"),("slice ranges","src/util.cc compute_var_high_low; src/expr.cc VarSlice"),("assignment checks","src/stmt.cc AssignStmt::AssignStmt")],["width/high/low/sign accessors, thrown errors"])
p("C07","Latch and register-process checks are exact",
"A combinational process is rejected exactly when some execution path through it, whatever the conditions say, leaves a bit it assigns elsewhere without a value; a case that covers every value (or every enum member) is complete with or without a default. A clocked process is rejected exactly when a conditional on one of its non-clock events assigns a register in its reset branch that the other branch never assigns, or when a conditional stands next to other statements at its top. Accepting a combinational process therefore guarantees that it implies no storage.",
["programs"],"All nestings of conditionals and case statements, partial or complete, with slices.",
"Tests have a few if/switch shapes.",
["src/analysis.cc"],[("latch visitor","src/analysis.cc check_inferred_latch"),("ff visitor","src/analysis.cc check_flip_flop_always_ff")],["exception or success of the check"])
p("C08","Undriven or floating ports never survive the connectivity check",
"The connectivity check rejects a hierarchy exactly when some bit of an instance input, or of an output of a generator that has a body, is selected by no driver (a variable index counts as selecting its whole range), and accepts it otherwise; stubs, external modules and top inputs are exempt. The zero-fill passes drive every such undriven input bit (in generators that ask for it) and every stub output bit to zero, leave every already driven bit as it was, and drive nothing twice.",
["programs"],"All hierarchies with fully, partially or not connected ports.",
"Tests connect whole ports only in a few shapes.",
["src/analysis.cc","src/transform.cc"],[("connectivity","src/analysis.cc verify_generator_connectivity"),("zero filling","src/transform.cc zero_generator_inputs, zero_out_stubs")],["exception, design after the pass"])
p("C09","A design with a zero-delay cycle through one assignment is rejected",
"A continuous assignment whose right-hand side reads, directly or through operators, conditions, concatenations, extensions, casts or selections, a bit that the same assignment drives is rejected as a combinational loop; an element selected by a variable may be any element. Designs without such an assignment are accepted, whatever registers or processes feed back.",
["programs"],"All expression shapes and slice pairs on both sides of an assignment.",
"Only one looping shape is tested.",
["src/analysis.cc"],[("loop check","src/analysis.cc check_combinational_loop")],["exception or success of the check"])
p("C10","A realized state machine walks and outputs as its state diagram says",
"For every state diagram, the logic generated for it starts in the start state on reset, on every clock edge takes the first declared transition whose condition holds (or the unconditional one, or stays), and drives for each state exactly the declared outputs with declared defaults otherwise. This holds in both Moore and Mealy styles, for nested machines entering and leaving sub-states, for either reset polarity, for every input sequence.",
["programs","inputs"],"All diagrams (states, guards, outputs, nesting) and input histories.",
"Tests compare a few golden files and never run the machine.",
["src/fsm.cc"],[("realization","src/fsm.cc FSM::realize"),("transition logic","src/fsm.cc generate_state_transition"),("output logic","src/fsm.cc generate_output")],["behaviour of the realized design"])
p("C11","Modules share one definition only if they are interchangeable",
"Two generators that end up with the same module name after uniquification have identical interfaces and bodies, so that emitting either gives the same behaviour for every instance. Generators that differ in any port, variable, constant, operator order, statement, branch, edge or child are given different names, and identical ones share a name.",
["programs"],"All pairs of same-named generators differing in any single structural detail.",
"Tests try two or three differing pairs.",
["src/hash.cc","src/context.cc"],[("structural hash","src/hash.cc"),("uniquify","src/hash.cc uniquify_generators")],["module names and emitted texts after the pass"])
p("C12","Drivers and loads recorded for a variable always match the design",
"After any history of adding, removing, moving, clearing and rebuilding statements, connections and variables, the drivers (loads) recorded for each variable are exactly the assignments present in the design whose target (source or condition) mentions it. A failed call changes nothing.",
["histories"],"All histories of editing calls.",
"Tests check source/sink sets after one or two edits.",
["src/expr.cc","src/stmt.cc","src/generator.cc"],[("source/sink registration","src/stmt.cc set_parent, clear, remove_stmt; src/expr.cc add_sink/remove_sink")],["sources()/sinks() of every variable"])
p("C13","Names are unique, legal and resolvable",
"Within any generator, variables, ports, parameters, children and named blocks have pairwise distinct identifiers after any history of declare, rename, remove and unique-name requests, and lookups by name return the object last given that name. Names that are keywords or not identifiers are rejected at code generation, and hierarchical paths identify objects uniquely.",
["histories"],"All histories of declare/rename/remove/merge calls.",
"Tests cover a single rename or clash.",
["src/generator.cc","src/context.cc","src/syntax.cc","src/util.cc"],[("name tables","src/generator.cc var, port, rename_var, get_unique_variable_name"),("context table","src/context.cc")],["lookups and exceptions"])
p("C14","Inserted pipelines, clock enables and resets do what they promise",
"Requesting n pipeline stages delays each output by exactly n clocks and otherwise leaves its function unchanged; inserting a clock enable freezes every register while the enable is low and is invisible while it is high; inserting a synchronous reset forces registers to their reset values on a clock with reset active and is invisible otherwise. Blocks or children opted out are untouched.",
["programs","inputs"],"All designs, stage counts and input histories.",
"Tests compare one golden file each.",
["src/optimize.cc"],[("pipeline","src/optimize.cc insert_pipeline_stages"),("clock enable","src/optimize.cc auto_insert_clock_enable"),("sync reset","src/optimize.cc auto_insert_sync_reset")],["behaviour of the design after the pass"])
p("C15","Cloned and replaced instances are equivalent to their originals",
"A clone has exactly the ports and parameters of its origin, with the same widths, signs, dimensions and types, and replacing an instance with a compatible one keeps every connection. Cloned statements behave as the originals and are independent of later edits to them.",
["programs","histories"],"All generators/statements cloned; all compatible replacements.",
"Tests clone one tiny generator.",
["src/generator.cc","src/stmt.cc","src/port.cc"],[("clone","src/generator.cc clone, replace; src/stmt.cc clone")],["design after cloning"])
p("C16","Output is deterministic and independent of threads and build order",
"Building and generating the same design twice, in the same or another process and with any number of worker threads, yields identical text for every module. Exactly the same module names are chosen by the parallel and the sequential structural comparison.",
["schedules","programs","configurations"],"All designs and thread schedules.",
"Tests generate once, with one thread count.",
["src/hash.cc","src/ir.cc","src/util.cc","src/context.cc"],[("parallel visitors","src/ir.cc visit_generator_root_p"),("parallel hash","src/hash.cc")],["generated text"])
p("C17","Parameters give every dependent width and value consistently",
"After any history of setting parameter values and linking widths, sizes or other parameters to them, the width and dimensions of every linked variable and the value of every linked parameter are those implied by the current values. The emitted declarations are parametrized so that each instance, with the overrides it is given, has the same widths and behaviour as the design.",
["histories","programs"],"All link topologies and histories of value changes.",
"Tests set one value once.",
["src/expr.cc","src/codegen.cc"],[("propagation","src/expr.cc Param::set_value, set_width_param")],["widths/values, generated text"])
p("C18","Bundles, interfaces and packed structs keep members apart",
"Every member of a packed struct, port bundle or interface occupies the bits, direction and width its definition gives it, disjoint from other members, whichever way it is reached. Wiring two of them connects each member to its namesake and to nothing else, in the right direction, and illegal connections are rejected.",
["programs","inputs"],"All member lists, nestings, flips and connections.",
"Tests use two-member definitions.",
["src/port.cc","src/interface.cc","src/expr.cc","src/generator.cc"],[("packed slices","src/expr.cc PackedSlice"),("bundles","src/port.cc PortBundle*"),("interfaces","src/interface.cc; src/generator.cc wire_interface")],["behaviour and structure of the design"])
p("C19","A generated memory bank behaves as one memory of its capacity",
"A memory composed from smaller banks stores, for every address below its capacity, the value last written there and returns it on a later read, for every sequence of enabled and disabled reads and writes. No two addresses alias and disabled cycles change nothing.",
["inputs","histories"],"All bank counts, address/data widths and access histories.",
"One test compares text.",
["src/lib.cc"],[("bank composition","src/lib.cc SinglePortSRAM")],["behaviour of the composed design"])
p("C20","Computed enable conditions and coverage say exactly when code runs",
"The enable condition computed for a statement is true, for a given valuation of the design's variables, exactly when the statement is executed under that valuation. The coverage computed for a simulated run contains exactly the branches whose conditions held, and the fault set is the set covered in failing runs but in no passing one.",
["programs","inputs"],"All nestings of conditionals and cases and all valuations.",
"Tests check a couple of strings.",
["src/analysis.cc","src/fault.cc"],[("enable conditions","src/analysis.cc compute_enable_condition"),("coverage","src/fault.cc")],["condition strings, coverage sets"])
p("C21","Passes run in order and visit every generator in dependency order",
"Passes run in exactly the order they were added, every time; every generator reachable in the current hierarchy is visited exactly once per traversal, and a generator used twice is rejected by the ordering ones. Top-down traversals visit parents before children, the sorted order and the level-parallel traversal children before parents, and struct definitions are emitted with members before containers. Level grouping puts every instance exactly one level below its parent, and adding, removing and renaming children changes exactly the hierarchy asked for.",
["programs","schedules"],"All hierarchies (shared definitions, deep, wide).",
"Tests use two-level trees.",
["src/graph.cc","src/ir.cc","src/pass.cc"],[("topological sort","src/graph.cc"),("visitors","src/ir.cc"),("pass manager","src/pass.cc")],["visit order"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
