PR = "crates/prover/src"
IDEAL = "The prover's own code runs on an ideal proof system: stand-ins for stwo judge every constraint of every row and every lookup exactly, so neither FRI nor the commitments are modelled (see DESIGN.md)."
prop("Q01", "Every run of the machine has a proof that verifies",
  "For every run that ends without an error, cut into segments of any length, the prover gives a proof of each segment and the verifier accepts it. This covers every instruction with all operand values, first and later accesses, accesses far apart in time, any number of uses of an instruction and every compiled program. No constraint has a higher degree than its component announces.",
  ["programs", "inputs", "histories"], "all instructions, operand values, access patterns, row counts and segment lengths",
  "Tests prove a few programs; a wrong witness column or constraint shows only for particular operand values, clock distances or row counts.",
  [PR + "/components/opcodes/mod.rs", PR + "/components/mod.rs", PR + "/adapter/mod.rs", PR + "/adapter/memory.rs", PR + "/adapter/merkle.rs", PR + "/prover.rs", PR + "/verifier.rs"],
  [("witness columns and constraints of each instruction", PR + "/components/opcodes"), ("import of runs", PR + "/adapter/mod.rs"), ("proving", PR + "/prover.rs"), ("verifying", PR + "/verifier.rs")],
  EXH,
  "Every instruction on the full grid of boundary operand values; every pattern of equal operands; row counts around every power of two up to 2^6 (thorough: 2^20 steps); a program cut at every length; compiled programs at both optimisation levels. Prints and aliased operands are known findings. " + IDEAL,
  ["prove_cairo_m, verify_cairo_m"])
prop("Q02", "Public data says what the run did and segments meet",
  "The public data of a proof holds the segment's first and last registers, the clock, and the values and clocks of exactly the cells of the program, the input and the output, before and after. Its roots are those of the memory before the first and after the last step; where one segment ends the next begins with the same registers and root. Imported from trace files instead of memory, a run gives the same data, and a truncated or misshapen file is refused.",
  ["programs", "histories", "configurations"], "all short programs, arguments, segment lengths and file prefixes",
  "Tests import a few runs; cells used first in later segments, at the edge of the ranges or in untouched subtrees appear only in particular programs.",
  [PR + "/adapter/mod.rs", PR + "/adapter/memory.rs", PR + "/adapter/merkle.rs", PR + "/adapter/io.rs", PR + "/public_data.rs", "crates/common/src/execution.rs"],
  [("import of segments", PR + "/adapter/mod.rs"), ("partial trees", PR + "/adapter/merkle.rs"), ("public entries", PR + "/public_data.rs"), ("trace files", PR + "/adapter/io.rs")],
  EXH,
  "Every program of up to three (four) of a small alphabet of instructions whose accesses reach inside, to the edge of and beyond the memory in use, with every cut, replayed by a reference machine, with the roots from an independent recursion over the whole index space; every prefix of the trace files. " + IDEAL,
  ["import_from_runner_output, import_from_runner_artifacts, PublicData::new"])
prop("Q03", "What the constraints accept is a step of the instruction set",
  "A row of an instruction's component that satisfies its constraints and lookups describes a step of that instruction as the instruction set defines it: the instruction that stands at the program counter, its operands, the value that it computes, the cells that it changes, and the next registers. Earlier clocks are earlier. A false result, a division by zero or a changed frame has no accepted row.",
  ["inputs"], "all witness rows near correct steps, all operand values of the grid",
  "No test alters a witness; a missing constraint changes nothing for honest runs and shows only for a dishonest prover.",
  [PR + "/components/opcodes/mod.rs", PR + "/components/opcodes", PR + "/relations.rs", PR + "/utils/data_accesses.rs", PR + "/utils/enabler.rs"],
  [("constraints of each instruction", PR + "/components/opcodes"), ("relations", PR + "/relations.rs")],
  EXH,
  "Each cell of each honest row is replaced by every value of a candidate set, then every repair of up to two further cells that makes the constraints vanish is enumerated; each row accepted must be a correct step by a reference machine written from the documentation. Deeper collusions of cells are out of bounds. " + IDEAL,
  ["evaluate() of every opcode component"])
prop("Q04", "Memory, hash trees, clocks and tables are accounted for exactly",
  "An accepted row of the memory, clock-update, hash-tree and hash components gives and takes exactly what it means: a cell with its value once at the boundary, one earlier clock at a distance in range for one later, a node of the tree and its children for their hash. Lookup tables hold exactly the values in range and the true results of the bitwise operations. In a proof everything taken is given exactly as often.",
  ["inputs"], "all witness rows near correct ones, all rows of the tables",
  "No test alters a witness, and tests look at none of the table rows; a padding row that counts shows only for a dishonest prover.",
  [PR + "/components/memory.rs", PR + "/components/merkle.rs", PR + "/components/clock_update.rs", PR + "/components/poseidon2.rs", PR + "/preprocessed/bitwise.rs", PR + "/preprocessed/range_check/mod.rs", PR + "/poseidon2.rs"],
  [("memory boundary", PR + "/components/memory.rs"), ("hash tree", PR + "/components/merkle.rs"), ("tables", PR + "/preprocessed")],
  EXH,
  "Grids of boundary values over whole rows, alterations of every cell of honest rows with up to two repairs, all rows of all tables and the tuple-by-tuple balance of a proof. Unconstrained boundary rows and the split hash relation are known findings. " + IDEAL,
  ["evaluate() of the components, preprocessed columns"])
prop("Q05", "A proof is bound to everything it says; forged runs have no proof",
  "Changing any number of an accepted proof - public data, claims, sums, sizes - makes the verifier refuse it, and each number of the public data and the claims enters the transcript before the challenges that depend on it. A witness with altered steps, memory contents, registers, roots or public cells has no proof that verifies.",
  ["inputs"], "all single alterations of the numbers of a proof and of the witness behind it",
  "Tests verify unaltered proofs; a number that is not mixed in or not checked changes nothing for them.",
  [PR + "/verifier.rs", PR + "/prover.rs", PR + "/public_data.rs", PR + "/components/mod.rs"],
  [("verify_cairo_m", PR + "/verifier.rs"), ("initial logup sum", PR + "/public_data.rs"), ("mixing of claims", PR + "/components/mod.rs")],
  EXH,
  "Every number of a proof changed in two ways - against the verifier, and against the transcript -, every list shortened, and about 950 forged witnesses (thorough: more programs and values). The unchecked preprocessed commitment is a known finding. " + IDEAL,
  ["verify_cairo_m, PublicData::mix_into, Claim::mix_into"])
na("N01", "The commitment scheme and low-degree test are sound",
  "A prover that cannot open the committed columns as low-degree polynomials that satisfy all constraints convinces the verifier with at most the probability that the security parameters promise.",
  ["inputs"], "all malicious provers", "The guarantee is about all adversaries and a probability over challenges.",
  [PR + "/prover.rs", PR + "/prover_config.rs"], [("prover configuration", PR + "/prover_config.rs")],
  "A probabilistic bound over all adversaries of an external library (stwo, not installed here): no finite set of executions decides it.")
na("N03", "WebAssembly modules run on the machine as WebAssembly defines",
  "A WebAssembly function that the front end accepts gives, after lowering, optimisation and execution, the result that the WebAssembly specification defines, and a module with an unsupported construct is refused with an error.",
  ["programs", "inputs"], "all modules of the supported subset and all arguments", "Tests run some dozens of modules.",
  ["crates/wasm/src/lowering/mod.rs", "crates/wasm/src/loader.rs"], [("lowering of the womir graph", "crates/wasm/src/lowering")],
  "The crate works on the data structures of womir (a git dependency) and wasmparser, of which nothing is installed here, so it cannot be compiled or executed; what it lowers to is covered by P01-P12.")
