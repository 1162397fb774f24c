#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = [observe]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

N, X, S, B, I, T, G, SC, ST, U, L, CLI, BU, LS = ["tealish/" + f for f in (
    "nodes.py", "expression_nodes.py", "stdlib.py", "base.py", "__init__.py", "types.py",
    "tealish_expressions.tx", "scope.py", "tealish_builtins.py", "utils.py", "errors.py",
    "cli.py", "build.py", "langspec.py")]

prop("C01", "Expressions evaluate to what the source says",
     "For every expression the compiler accepts, executing the emitted TEAL yields exactly the value the source expression denotes: each operator is applied to its left and right operand in source order, grouping is respected, and the operands of an operator, call or opcode are each evaluated once, left to right, without short circuiting. This holds wherever the expression stands (assignment, declaration, argument, condition, switch, assert, return, exit, index, inner transaction field) and for every run-time value of its inputs, failing exactly when an operation of the source fails.",
     ["programs", "inputs"],
     "all expression trees over the operators, groups, calls, fields, literals and variables, in every position, for all run-time operand values",
     "The unit tests compare the TEAL text of a handful of fixed expressions; no test executes the output, none varies operand values, and most operators and positions are never combined.",
     [X, G, N], [("infix/group/unary code generation", "expression_nodes.py: UnaryOp, BinaryOp, Group"), ("expression grammar", "tealish_expressions.tx"), ("positions of expressions", "nodes.py: write_teal of statements")],
     observe="TEAL returned by compile_program, executed")
prop("C02", "Structured control flow executes exactly the statements the source says",
     "For every program built from if/elif/else (with or without not), while, for, for _, break, assert and exit in any nesting, execution of the emitted TEAL performs exactly the source statements in source order along every path: the first true branch and only it runs, loops run their body once per iteration of the source loop, break leaves exactly the innermost while, and execution continues at the statement after the construct.",
     ["programs", "schedules"],
     "all nestings of control constructs and all sequences of condition outcomes and loop bounds",
     "Tests compile each construct once, at most one level deep, and compare text; nesting interactions and paths (label numbering, fall-through, break out of nested loops) are exponential in number.",
     [N], [("labels and branches of conditionals", "nodes.py: IfStatement, Elif, Else"), ("loops", "nodes.py: WhileStatement, ForStatement, For_Statement, Break")],
     [("conditional_count", "number used to keep generated labels distinct", "__init__.py: TealishCompiler")])
prop("C03", "Calls pass arguments and multiple results by position",
     "A call of a program-defined function binds the i-th argument value to the i-th parameter, and the i-th returned expression is the value received by the i-th name of the assignment (or discarded for _), for every number and mix of parameters and results, from any call site and through any chain of calls. Operations returning several values are received in the documented order, every return statement of a function returns from that function only, and a caller's other pending values are unaffected by the call.",
     ["programs", "inputs"],
     "all functions with up to k parameters and results, all call sites (nested, as arguments, in conditions, statements) and argument values",
     "Tests check text for one or two functions; the argument/result order convention is split across call, parameter and return code which only agree by convention.",
     [N, X, LS], [("parameter stores", "nodes.py: Func.write_teal"), ("return order", "nodes.py: Return"), ("assignment order", "nodes.py: Assignment.write_teal"), ("multi-result opcode order", "langspec.py: Op.returns_types")])
prop("C04", "A variable keeps its value until the program assigns it",
     "Reading a variable in scope always yields the value most recently assigned to that variable by the source program: no other declaration, loop counter, function parameter, function local, struct, box reference, or compiler-internal flag ever shares its storage while it is live. When a program needs more storage than the machine has, compilation is refused instead of storage being reused.",
     ["programs", "histories"],
     "all interleavings of declarations, assignments, nested scopes, loops, calls and reads, up to and past the number of storage slots",
     "Slot allocation depends on the whole history of declarations in nested scopes; the tests check slot numbers for a few straight-line programs.",
     [B, SC, N], [("slot choice", "scope.py: Scope.find_slot; base.py: declare_scratch_var"), ("scope end", "base.py: del_var; nodes.py: new_scope")],
     [("max_slot", "highest slot used so far", "__init__.py: TealishCompiler.max_slot"), ("slots", "variables of a scope", "scope.py: Scope.slots")])
prop("C05", "Jumps and switches reach exactly the named block; nothing falls through",
     "A jump transfers control to the block of that name visible at that point, and a switch compares its value with the options in order and transfers to the first match, to the else block if given when none matches, and otherwise fails. Control never enters a block or function body other than by such a transfer or a call: programs whose layout would let control run into one (missing exit statement, definition before an exit statement or inside a conditional or loop) are refused.",
     ["programs", "inputs"],
     "all layouts of main code, nested blocks, functions, jumps and switches up to a bound, and all values of the switched expressions",
     "Tests cover single blocks and a couple of parse errors; nested visibility, option order and layout combinations are not enumerated and nothing executes the jumps.",
     [N, SC, B], [("layout rules", "nodes.py: Program.consume, Block.consume"), ("block lookup", "base.py: get_blocks"), ("dispatch code", "nodes.py: Switch.write_teal, Jump.write_teal")])
prop("C06", "The router calls exactly the named public method with decoded arguments",
     "A router runs the one listed public function whose name equals the first application argument, provided the transaction's on-completion action is the declared one (for creation: provided the application does not exist yet), with every further application argument decoded to the declared parameter type, then logs the ARC-4 return prefix followed by the encoded results in order (nothing when there are none) and approves. Any other first argument, on-completion action, or argument that does not fit its type (bytes of another length than a fixed-size type, integers of more than eight bytes or beyond the declared width) is rejected, and functions not declared public or not listed are unreachable.",
     ["programs", "inputs"],
     "all routers over functions with up to k parameters/results of every parameter type and every on-completion attribute, and all application calls over a finite argument domain",
     "One router program is compared as text; the cross product of types, completion actions and calls is never executed.",
     [N], [("dispatch", "nodes.py: Router.write_teal"), ("argument decoding", "nodes.py: Route.process"), ("attributes", "nodes.py: DecoratedFunc.set_func")])
prop("C07", "Struct and box fields read back what was written and never disturb others",
     "For every struct layout, reading a field of a struct variable or of a box yields the last value assigned to that field, assigning a field changes no other field and no other variable or box, and the stored bytes have the declared layout: fields consecutive in declaration order, integers big-endian at their declared width, total size as reported. Opening a box fails unless it exists with the struct's size, creating one fails if it already exists, and a layout the target cannot address is refused or handled, never silently mis-addressed.",
     ["programs", "histories", "inputs"],
     "all struct layouts up to k fields over all field types, all sequences of field reads and writes on struct variables and boxes, and all prior box states",
     "Tests compile single accesses and compare text; offsets/sizes are never executed, and layouts with uint8, addr, arrays or large offsets are not covered.",
     [N, X, T], [("layout", "types.py: StructType.add_field"), ("field write", "nodes.py: StructOrBoxAssignment"), ("field read", "expression_nodes.py: StructOrBoxField"), ("box open/create", "nodes.py: BoxDeclaration")])
prop("C08", "Inner transactions are submitted exactly as written, singly or grouped",
     "Executing an inner transaction statement submits exactly one inner transaction with exactly the listed fields and values, array fields in index order, immediately; an inner group submits all inner transactions executed within it, including those in loops, conditionals and called functions, as one group in execution order, and nothing else. After the statement no inner transaction is left open, and grouping state never leaks from one group to a later single transaction or group.",
     ["programs", "histories"],
     "all programs with single and grouped inner transactions in any control structure, and all paths through them",
     "The group tests only compare text (and three fail at this commit); the group protocol is a run-time state machine spread over shared subroutines.",
     [N], [("inner transaction code", "nodes.py: InnerTxn, InnerGroup"), ("group protocol subroutines", "nodes.py: Program.write_teal")],
     [("inner_group_flag", "run-time slot holding the group protocol state", "nodes.py: Program.process")])
prop("C09", "Assignments, arguments and returns are accepted exactly when types agree",
     "A value is accepted for a variable, parameter, struct field, return value, constant or opcode operand exactly when the declared types are compatible under one rule: integers with integers, of no larger width when the target is narrower; byte strings with byte strings, of equal length when the target has a fixed length; untyped opcode results only with unsized targets. Everything else, and every wrong number of arguments, results or names, is refused with a compile-time error identifying the line, in every such position alike.",
     ["programs"],
     "all ordered pairs of (target type, value type) in every typed position, and all small arity mismatches",
     "Tests try about a dozen pairs in one or two positions; the compatibility relation is implemented per type class and invoked separately by each position.",
     [T, N, X, B], [("compatibility relation", "types.py: can_hold of each type"), ("checks per position", "nodes.py/expression_nodes.py process methods; base.py: check_arg_types")])
prop("C10", "Sized conversions either give a value of the stated size or fail",
     "At run time Cast, Convert and EnsureType succeed exactly when the value fits the named type and then return it unchanged (converted between integer and big-endian bytes for Convert); ToBytes, FromBytes, Lpad, Rpad, Concat, SizeOf, Address and ARC28Event return exactly the documented bytes or fail, never a silently truncated or mis-sized value. Consequently a variable, parameter or field of a fixed-size type never holds a value of another size unless an unchecked cast or inline TEAL put it there.",
     ["programs", "inputs"],
     "all conversions x source types x target types x run-time values at and around every size boundary",
     "Tests compare emitted text for one size each; no boundary value is ever executed.",
     [S, T], [("conversions", "stdlib.py: Convert, Cast, EnsureType and wrappers"), ("padding/encoding", "stdlib.py: ToBytes, Rpad, Lpad, Concat, ARC28Event")])
prop("C11", "Literals and constants denote exactly the written value",
     "Every integer and string literal and every declared constant accepted by the compiler denotes, wherever it is used, exactly the written value in the executed program, byte for byte, including escape sequences, quotes, comment-like characters, separators, non-ASCII text, leading zeros and extreme integers; values the target cannot represent are refused. The compile-time size of a literal equals its run-time length.",
     ["programs", "inputs"],
     "all string literals up to length n over an alphabet of special and ordinary characters, all integers around representation limits, in every literal position",
     "Tests use plain short ASCII strings and small integers; literals pass through three text layers (line scanner, grammar, TEAL writer) whose special characters interact.",
     [I, X, N, G], [("line scanner", "__init__.py: consume_line"), ("comment alignment", "__init__.py: TealWriter.write"), ("literal nodes", "expression_nodes.py: Integer, Bytes; nodes.py: Const, Literal*")])
prop("C12", "Formatting preserves meaning and comments and is idempotent",
     "Reformatting any valid program gives a valid program that compiles to TEAL with the same behaviour, keeps every statement and whole-line comment in order, and formatting the result again changes nothing.",
     ["programs"],
     "all programs built from every statement and expression form, with arbitrary indentation, comments and blank lines",
     "Tests reformat a few lines; each syntax node has its own printer, so every construct and nesting needs checking.",
     [N, X, S, I], [("printers", "_tealish methods of all nodes"), ("entry point", "__init__.py: reformat_program")])
prop("C13", "Source maps lead from every instruction and failure to its source line",
     "For every compiled program the returned map sends each emitted TEAL line holding an instruction to the source line of the statement that produced it, forward and backward lookups agree, a failing assertion's program counter leads to the line and message of that assertion, and serialising and reloading the map preserves every answer.",
     ["programs", "inputs"],
     "all programs up to a bound, every instruction of each, every failing execution, and all lookups of the map",
     "Tests look at error messages of one or two asserts; which source line an instruction belongs to is tracked by writer state that any nesting can leave stale.",
     [I, U, N], [("map construction", "__init__.py: TealWriter.write, get_map"), ("lookups", "utils.py: TealishMap"), ("assert messages", "nodes.py: Assert.process")],
     [("source_map", "TEAL line to source line", "__init__.py: TealWriter.source_map")])
prop("C14", "Minifying or stripping TEAL preserves the program",
     "Minifying a TEAL program or stripping its comments yields a program with the same behaviour, and the minifier's line map sends every output line to the input line it came from.",
     ["programs", "inputs"],
     "all TEAL programs up to n lines over an alphabet of labels, branches, strings, comments and separators, and all compiler outputs explored by the other properties",
     "No test touches the minifier; label merging is textual and its effect depends on which labels are prefixes of other tokens.",
     [U], [("label merging and map", "utils.py: minify_teal"), ("comment removal", "utils.py: strip_comments")])
prop("C15", "Output depends only on the source text, never on history",
     "Compiling, formatting or inspecting a program gives the same result whatever programs, successful or failing, were handled before in the same process, in whatever order or interleaving of steps, including repeated calls on the same compiler; inspection reports exactly the structures of the given program with correct field types, offsets and sizes.",
     ["histories", "schedules"],
     "all sequences of API calls up to length k over a set of interfering programs, and all interleavings of the steps of two compilers",
     "Each test uses a fresh or unrelated program and one call; shared registries only matter for specific pairs and orders.",
     [I, T, N], [("struct registry", "types.py: define_struct, get_struct"), ("compiler object", "__init__.py: TealishCompiler"), ("inspection", "__init__.py: inspect_program")],
     [("_structs", "process-wide registry of struct types", "types.py")])
prop("C16", "Every input is either compiled or refused with a compiler error",
     "For every input text, compiling, formatting and inspecting terminate, and either succeed or raise one of the two documented error types; they never hang, crash with an internal error, or print to standard output.",
     ["inputs"],
     "all texts reachable from a corpus covering every construct by single edits (truncation at every point, deletion, duplication, swap or replacement of any line or token) and all short token sequences",
     "Tests try a few malformed programs; the recursive-descent consumers each have their own end conditions.",
     [I, N, X, B, SC], [("statement consumers", "nodes.py: consume methods"), ("error types", "errors.py"), ("line reader", "__init__.py: consume_line, peek")])
prop("C17", "Accepted programs always yield TEAL the assembler accepts",
     "Whenever compilation succeeds, the emitted TEAL is well formed: every branch target is defined exactly once, every mnemonic exists with the right number of immediates, and every immediate, slot, offset and constant is within the range the assembler allows, whatever names, numbers, sizes and nesting the source uses.",
     ["programs", "inputs"],
     "all placements of names from a set of potentially colliding identifiers, all numeric parameters around immediate limits, all construct nestings up to a bound",
     "Tests never assemble the output; collisions and overflows depend on specific names and sizes.",
     [N, X, S, SC], [("label naming", "nodes.py: Block, Func, Route, IfStatement, loops"), ("immediates", "expression_nodes.py: OpCall; nodes.py: StructOrBoxAssignment")])
prop("C18", "Opcode calls follow the language specification",
     "For every callable opcode of the active language specification, a call with the specified immediates and operands is accepted and emits that opcode exactly once with the immediates in order after its operands in order, its result has the specified types in the documented order, and a call with a wrong number of operands, a wrong operand type or an unknown name is refused.",
     ["configurations", "programs"],
     "every opcode of the language specification, every named immediate, every operand type assignment, every single-operand perturbation",
     "Tests call a handful of opcodes; the table has 170+ entries whose arities, types and immediates drive generic code.",
     [X, LS, B], [("generic opcode call", "expression_nodes.py: OpCall"), ("specification decoding", "langspec.py: Op"), ("operand check", "base.py: check_arg_types")])
prop("C19", "Command line tools have exactly their documented effects, also on failure",
     "The compile command writes, for each source file, exactly the library's output to the build folder and touches nothing else; format rewrites the file to exactly the formatted text; inspect and stats only print. When a source is invalid or an input/output step fails, the command reports an error with a non-zero status and leaves the user's source file intact and no misleading output for the failed source.",
     ["fault_sequences", "configurations", "crash_points"],
     "all commands x file/directory layouts x valid and invalid sources x every single failing input/output step",
     "No test runs the command line at all.",
     [CLI], [("compile/build", "cli.py: _build"), ("format", "cli.py: format"), ("inspect", "cli.py: inspect")])
prop("C20", "Emitted code is stack safe and stack neutral on every path",
     "On every path through the emitted TEAL of a program that does not itself manipulate the stack (inline TEAL, push, pop), no instruction finds too few or wrongly typed operands left by the compiler, every statement leaves the stack as it found it (only a `for _` loop outside functions may leave its finished counter below everything that follows, and only where it runs once: the stack never grows however often a block is entered again), and every function returns with exactly its declared results above the caller's values.",
     ["programs", "schedules"],
     "all programs up to a bound and all abstract paths (both outcomes of every branch) with all calling contexts",
     "Stack effects are only observable by executing paths; the tests compare text.",
     [N, X], [("statement code", "nodes.py: write_teal methods"), ("for _ loop counter", "nodes.py: For_Statement.write_teal")])
prop("C21", "Names resolve to the nearest enclosing declaration in scope",
     "A use of a variable, constant, function or block refers to the declaration in the nearest enclosing scope that has one, names are invisible outside the scope of their declaration, and an undeclared name or a conflicting redeclaration in the same scope is refused. A function may read variables of enclosing scopes but cannot assign to them.",
     ["programs"],
     "all placements of declarations and uses of equal and different names over nested scopes (program, blocks, functions, loops)",
     "Tests declare each name once; shadowing and leakage need specific placements in nested scopes.",
     [B, SC, N, X], [("scope merging", "base.py: get_scope, get_slots, get_blocks"), ("lookups", "scope.py")])
prop("C22", "A local language specification extends the compiler consistently",
     "With a language specification file in the working directory the compiler accepts exactly the opcodes of that file, with their arities and types, without one it uses the packaged specification, and the reported difference between two specifications is exactly the set of opcodes in one and not in the other. Fetching stores a specification equivalent to the fetched one; a failed fetch leaves the previous file intact.",
     ["configurations", "fault_sequences"],
     "all small specifications obtained by adding, removing and changing opcodes, present or absent as local file, and all failures of a fetch",
     "Tests never run with a local specification and never compare two.",
     [LS, CLI], [("selection", "langspec.py: get_active_langspec"), ("difference", "langspec.py: compare_langspecs"), ("fetch", "langspec.py: fetch_langspec; cli.py: langspec_fetch")])
prop("C23", "Field accesses read exactly the named field of the named transaction",
     "Every field expression on the current, another, or the last inner transaction or the global namespace reads exactly that field, from the transaction selected by the index (absolute, computed, or relative to the current position) and for array fields from the selected element, whether indices are literals, constants or expressions, and its static type is the one the specification gives the field.",
     ["programs", "inputs"],
     "every field of every namespace x every index form x group positions and index values",
     "Tests read about ten field forms; each index form selects a different opcode with a different operand order.",
     [X, G, LS], [("field code", "expression_nodes.py: TxnField ... InnerTxnField"), ("field types", "langspec.py: get_field_type")])
prop("C24", "Building never leaves wrong bytecode or maps after assembler faults",
     "The build command writes the compiled TEAL, the assembler's bytecode unchanged and a source map combining the assembler's and the compiler's maps so that program counters lead to source lines and assertion messages; if the assembler is missing, unreachable or reports an error, the command fails with a message and no bytecode or map from that run is written.",
     ["fault_sequences", "configurations"],
     "all assembler choices x every assembler outcome (success, error, missing, malformed answer) x every failing output step, over single files and directories",
     "No test runs build; assembler failures need a stand-in.",
     [CLI, BU, U], [("build", "cli.py: _build"), ("assemblers", "build.py"), ("map merge", "utils.py: TealishMap.update_from_teal_sourcemap")])
prop("C25", "No part of an accepted program's text is silently ignored",
     "When compilation succeeds, every word of the source text (apart from comments after code, spacing and leading zeros) belongs to the program that was compiled: statement, block and function headers, parameter and return type lists, field lists and expressions contain nothing the compiler skipped, and the formatted program has exactly the words of the source in the same order. Text the compiler cannot interpret makes it refuse the program instead.",
     ["programs", "inputs"],
     "all insertions, deletions, repetitions and exchanges of tokens in every line of programs that hold every form of statement",
     "Tests compile well-formed lines and a few malformed ones; ignored text only shows for the malformed line whose rest happens to match an unanchored pattern.",
     [N, X, T, G], [("line patterns", "nodes.py: pattern of every node class"), ("parameter and return lists", "nodes.py: ArgsList, Func"), ("type names", "types.py: get_type_instance")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
