MIR = "crates/compiler/mir/src"
CG = "crates/compiler/codegen/src"
RUN = "crates/runner/src"
PIPE = "The whole toolchain is driven: parse, check, lower, optimise, generate, load, run; M31 arithmetic and JSON come from stand-ins (see DESIGN.md)."
prop("P01", "Every operator computes its documented value, however it is compiled",
  "For each operator and cast, the compiled program returns the documented value - field arithmetic modulo 2^31-1, wrapping 32-bit arithmetic, comparisons, logic - for all operand values, whether operands are parameters, literals, constants, fields or call results and wherever the result goes. Division by zero and casts out of range fail instead of giving a value. Optimised and unoptimised builds agree.",
  ["inputs", "programs", "configurations"], "all operand values, operand forms and places of the result, both optimisation levels",
  "Tests run a few values per operator, mostly through one code path; each operator has separate code for registers, immediates, branches and constant folding.",
  [CG + "/builder/felt.rs", CG + "/builder/u32_ops.rs", CG + "/builder/ctrlflow.rs", MIR + "/passes/const_eval.rs", MIR + "/passes/arithmetic_simplify.rs", MIR + "/passes/fuse_cmp.rs"],
  [("operator lowering", CG + "/builder/u32_ops.rs"), ("constant evaluation", MIR + "/passes/const_eval.rs"), ("branch fusion", MIR + "/passes/fuse_cmp.rs")],
  EXH,
  "Every operator with eight operand forms on each side, ten result places and all pairs of boundary values, at both optimisation levels, against reference arithmetic. " + PIPE,
  ["return values of run_cairo_program"])
prop("P02", "Nested expressions have the value of their tree in every place",
  "An expression of any nesting evaluates to the value that its tree has under the language rules, in a return, a variable, an argument, a field, an element, an assignment or a condition, at both optimisation levels. Unsuffixed literals in it have the type of the operand or place that gives them their context. Operations that can fail are carried out although their result is not used.",
  ["programs", "inputs", "configurations"], "all expression trees in all places, both optimisation levels",
  "Tests hold some dozens of expressions; simplification, folding and literal typing depend on the combination of operators, operands and place.",
  [SEM + "/type_resolution.rs", MIR + "/lowering/expr.rs", MIR + "/passes/arithmetic_simplify.rs", MIR + "/passes/constant_folding.rs", MIR + "/passes/local_cse.rs", MIR + "/passes/simplify_branches.rs"],
  [("context of literals", SEM + "/type_resolution.rs context_from_origin"), ("lower_binary_op", MIR + "/lowering/expr.rs"), ("pass pipeline", MIR + "/passes.rs")],
  EXH,
  "Every tree of up to two operators (three over fewer leaves; more places in the thorough tier) in twelve places, every condition of up to two connectives in up to six control-flow forms, on boundary inputs. " + PIPE,
  ["return values of run_cairo_program"])
prop("P03", "Variables and control flow run as written",
  "Every function made of let, assignment, shadowing, blocks, if/else, while, loop, for, break, continue and return compiles at both optimisation levels and returns what executing its statements in order gives. Inner scopes see and update outer variables, a shadowing variable ends with its block, and exchanging variables in a loop loses none. A program that does not end keeps running.",
  ["programs", "inputs", "configurations"], "all statement sequences and nestings, both optimisation levels",
  "Tests hold a few dozen loops and branches; SSA construction, copy sequencing and block removal depend on which variables each path through the statements writes.",
  [MIR + "/lowering/stmt.rs", MIR + "/function.rs", MIR + "/passes/phi_elimination.rs", MIR + "/passes/dead_code_elimination.rs", MIR + "/passes/copy_propagation.rs", CG + "/builder/ctrlflow.rs"],
  [("SSA construction", MIR + "/function.rs read_variable"), ("sequence_parallel_copies", MIR + "/passes/phi_elimination.rs"), ("statement lowering", MIR + "/lowering/stmt.rs")],
  EXH,
  "Every function body of up to four statements (compound statements count one more than their content) over assignments, shadowing, destructuring and exchanges of three variables of each scalar type, on four inputs, against the interpreter; runs are bounded by a guarded hook. " + PIPE,
  ["return values of run_cairo_program"], hook="VP_MAX_SEGMENTS in crates/runner/src/vm/mod.rs")
prop("P04", "A call passes its arguments, returns its results and changes nothing else",
  "A called function sees the values of its arguments in order, whatever their types, number and form, and the caller gets the value that it returns. A callee that changes its parameters leaves the caller's variables as they were, except that an array argument is the caller's array. Nested, repeated, recursive and mutually recursive calls give the values that the language defines, at both optimisation levels.",
  ["programs", "inputs", "configurations"], "all signatures, argument forms and call sequences, both optimisation levels",
  "Tests call functions with a few scalar arguments; the frame layout depends on sizes, order and on which arguments are already in place.",
  [CG + "/builder/calls.rs", CG + "/layout.rs", MIR + "/lowering/expr.rs", MIR + "/passes/local_cse.rs", RUN + "/vm/instructions/call.rs"],
  [("pass_arguments", CG + "/builder/calls.rs"), ("frame layout", CG + "/layout.rs"), ("call and return", RUN + "/vm/instructions/call.rs")],
  EXH,
  "Every parameter list of up to three of six types, three argument forms each, with callees that return, permute or change parameters, observing every caller variable; and every sequence of up to three (four) statements over fifteen call forms with a library of recursive and array-changing functions, straight and (one shorter) run twice by a loop. " + PIPE,
  ["return values of run_cairo_program"])

prop("P05", "Structs, tuples and array elements are independent values",
  "A struct or tuple is a value: copying it, storing it in a variable, a field or an array element, passing or returning it gives an independent value, so that changing one changes no other, whatever the nesting and the order of the changes, on every path and in loops. Reading a member gives what was last written to it. This holds at both optimisation levels.",
  ["programs", "inputs", "configurations"], "all sequences of aggregate statements, both optimisation levels",
  "Tests update single structs in straight lines; sharing of storage between copies, and splitting into scalars, depend on the order of copies, updates and reads.",
  [MIR + "/passes/sroa.rs", MIR + "/lowering/stmt.rs", MIR + "/lowering/expr.rs", CG + "/builder/aggregates.rs", CG + "/aliasing.rs", CG + "/generator.rs"],
  [("scalar replacement", MIR + "/passes/sroa.rs"), ("values_needing_own_slots", CG + "/aliasing.rs"), ("insert and extract", CG + "/builder/aggregates.rs"), ("memory places", CG + "/generator.rs")],
  EXH,
  "Every sequence of up to three of 28 statements (copies, member and element updates, nested structs, destructuring, calls) in up to five arrangements (straight, branches, loop), returning every member or whole values, on two inputs, against the interpreter. " + PIPE,
  ["return values of run_cairo_program"])
prop("P06", "Arrays, constants and heap buffers hold what was last written to them",
  "An array, whatever its element type and however it is written - elements, repeated value, constant - starts with exactly its elements and then holds what was last written to each, by fixed and by computed index, on every path, in loops and in repeatedly called functions. A buffer from new is separate from every other and is shared by all copies of its pointer, and constant arrays never change. This holds at both optimisation levels.",
  ["programs", "inputs", "configurations"], "all sequences of array, constant and heap statements, both optimisation levels",
  "Tests use arrays in straight lines on fresh frames; what a frame slot held before, computed indices and shared pointers matter only in longer runs.",
  [CG + "/builder/aggregates.rs", CG + "/generator.rs", CG + "/builder/store.rs", MIR + "/lowering/expr.rs", MIR + "/passes/constant_propagation.rs"],
  [("make_fixed_array", CG + "/builder/aggregates.rs"), ("constant arrays", CG + "/generator.rs"), ("heap allocation", MIR + "/lowering/expr.rs")],
  EXH,
  "Every sequence of up to three of 42 statements over heap buffers, arrays, arrays of tuples, arrays in structs, repeated arrays and constants, straight, in branches and in a loop, with a library of functions that build arrays in reused frames. Returned arrays are a known finding and not generated. " + PIPE,
  ["return values of run_cairo_program"])
prop("P07", "Every instruction changes the machine as the instruction set says",
  "For every instruction, all operands and every content of the cells that it touches, executing it reads and writes exactly the cells that the instruction set names, in the documented order, leaves the documented values there and in the program counter and frame pointer, and records each access with its value. It fails - and only then - on addresses beyond memory, cells that are no field element, limbs beyond 16 bits, false assertions and division by zero.",
  ["inputs"], "all instructions, operands and cell contents",
  "Unit tests run each instruction on one or two states; overlapping operands, boundary limbs and field wrap-around are products of choices.",
  [RUN + "/vm/instructions/store.rs", RUN + "/vm/instructions/jump.rs", RUN + "/vm/instructions/call.rs", RUN + "/vm/instructions/mod.rs", RUN + "/memory/mod.rs", "crates/common/src/instruction.rs"],
  [("instruction_to_fn", RUN + "/vm/instructions/mod.rs"), ("felt and u32 stores", RUN + "/vm/instructions/store.rs"), ("jumps", RUN + "/vm/instructions/jump.rs")],
  EXH,
  "Each instruction with all operand tuples over boundary offsets and immediates (so operands overlap in every way), on four (pc, fp), over memory whose cells take each of a set of boundary contents when first read (depth-first over all choices), against a reference machine written from the documentation. It runs on a stand-in for the M31 and QM31 types (see DESIGN.md).",
  ["Memory contents, trace and State after instruction_to_fn(i)(..)"])
prop("P08", "Instructions and programs survive encoding and storage",
  "Encoding an instruction to field elements or memory words and decoding it gives the same instruction, with the documented opcode, size and operand order, and every sequence of numbers that is no instruction is rejected. Names written in assembly and JSON parse back. A program serialised to JSON, with its entry points, types and data, is read back equal.",
  ["inputs", "programs"], "all opcodes, operand values and word lengths, all program shapes within the bounds",
  "Tests round-trip a handful of instructions; an operand swapped in both directions or a size used in one place only shows with others.",
  ["crates/common/src/instruction.rs", "crates/common/src/program.rs", "crates/common/src/abi_codec.rs", RUN + "/memory/mod.rs"],
  [("instruction codec", "crates/common/src/instruction.rs"), ("program format", "crates/common/src/program.rs"), ("get_instruction", RUN + "/memory/mod.rs")],
  EXH,
  "Every opcode number with every length, and every opcode with all operand tuples over boundary values, through field elements, words, text and JSON, against a table of the instruction set; all short texts of words and numbers; and all programs over ABI types of depth two. JSON and M31 are stand-ins (see DESIGN.md).",
  ["Instruction::{to_m31_vec, to_qm31_vec, try_from, opcode_value, size}", "Program serde"])
prop("P09", "Memory returns the last value written and logs each access",
  "Reading any address gives the value last written there, or zero, however the low and high parts of memory grew, and every traced read and write is logged once, in order, with its address and value, while untraced ones and failed ones are not. Addresses beyond the limit, values that are no field element and limbs beyond 16 bits are refused without changing anything.",
  ["histories"], "all histories of reads and writes up to the bound",
  "Tests write a few cells; the two growing vectors behind the address space meet, resize and shadow each other only for particular histories.",
  [RUN + "/memory/mod.rs"],
  [("insert and get", RUN + "/memory/mod.rs"), ("u32 access", RUN + "/memory/mod.rs get_u32")],
  EXH,
  "Every history of up to four (five) operations over reads and writes of data, words and u32 pairs at boundary addresses with boundary values, from an empty and a loaded memory, comparing each result, the log and all cells with a map.",
  ["Memory API results, trace and extracted cells"])
prop("P10", "A run is cut into segments that continue each other exactly",
  "Running a program gives the states and memory accesses of executing its instructions one after the other from the entry point, until the final address is reached or a step fails. Whatever the step limit, it is cut into segments of that many steps: each holds its states, its accesses and the memory before its first step, each begins where the last one ended, and together they are the whole run. The trace files of a segment hold exactly its states and accesses, next to each other under the given name.",
  ["programs", "histories", "configurations"], "all short programs, entry points and segment lengths",
  "Tests run two or three programs with one or two limits; ends of runs and segments coincide, and code is overwritten, only in particular programs.",
  [RUN + "/vm/mod.rs", "crates/common/src/execution.rs", RUN + "/memory/mod.rs"],
  [("execute and finalize_segment", RUN + "/vm/mod.rs"), ("segment format", "crates/common/src/execution.rs")],
  EXH,
  "Every program of up to four (five) of sixteen instructions and words - loops, calls, returns, jumps into the second word of an instruction, code that overwrites code, heap writes, failing assertions - from two entry points with five step limits, against the reference machine; and the files of runs of one to seven segments under 25 paths. A guarded hook stops runs after nine segments.",
  ["VM::run_from_entrypoint, VM::segments, write_binary_trace"], hook="VP_MAX_SEGMENTS in crates/runner/src/vm/mod.rs")
prop("P11", "Arguments and results cross the program boundary unchanged",
  "For every parameter and result type, an argument that matches the type reaches the program in the cells of the calling convention, with array data behind pointers that overlaps nothing, and a result comes back as the value in its cells. The public address ranges cover exactly the program, the input with its array data, and the results. An argument or result that does not match its type, a wrong number of arguments and an unknown entry point are reported as such, and the text form of arguments follows its grammar.",
  ["inputs", "programs"], "all nested types with matching and almost matching values, all short argument texts",
  "Tests pass a few scalars, structs and arrays; nesting arrays and pointers, and mismatches at depth, are products of choices.",
  [RUN + "/lib.rs", "crates/common/src/abi_codec.rs", "crates/common/src/program.rs"],
  [("encode_value_for_call", RUN + "/lib.rs"), ("decode_value_with_custom_reader", RUN + "/lib.rs"), ("parse_cli_arg", "crates/common/src/abi_codec.rs")],
  EXH,
  "Every type of depth three (four) - tuples, structs, arrays, pointers - and pairs and triples of flatter ones, each with matching values and near misses in every position, through programs that return their arguments; every content of result cells of boundary values; every argument text of up to five (six) of sixteen tokens, against an independent parser.",
  ["run_cairo_program, RunnerOutput, parse_cli_arg"])
prop("P12", "Dividing, ordering and naming the parts of a program change nothing",
  "A program computes the same whether its items stand in one module or several, in whatever order (constants before their uses), and whatever its functions and variables are called: items of the same name in different modules stay apart, and no name meets one that the compiler makes up. The number of functions does not matter either. Compiling the same modules again gives the same program.",
  ["programs", "configurations"], "all ways to divide, order and name the items of programs",
  "Tests compile a handful of two-module projects; collisions of names and the effect of order need particular combinations.",
  [MIR + "/lowering/function.rs", MIR + "/lowering/builder.rs", CG + "/generator.rs", CG + "/builder/emit.rs", SEM + "/db.rs"],
  [("names of lowered functions", MIR + "/lowering/function.rs"), ("labels", CG + "/generator.rs"), ("imported constants", MIR + "/lowering/builder.rs")],
  EXH,
  "Five programs of four to six items: all divisions into three modules with both forms of import, all orders, all pairs of equal names in different modules, all pairs of functions under 37 names that resemble generated labels, variables under the same names, and up to 71 (139) further functions; each compiled twice and run at both optimisation levels. " + PIPE,
  ["compile_project output and return values"])
