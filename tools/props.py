# p(id, title, statement, over, text, why, files, comps)
def q(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})

q("P01", "A failed compile or run is never reported as success",
  "In the bootstrap compiler command, if loading, dependency ordering, analysis of any module, code generation or linking fails, the compiler neither goes on to the following stage nor runs a program, and exits with a non-zero status after printing the error; without a failure every analysis phase and stage has run. When it runs the compiled program, it runs the executable just produced, and its own exit status is the program's, non-zero also when a signal ended the program.",
  ["programs", "inputs", "fault_sequences"], "for every set of sources, every option combination, every failing stage and every way the compiled program can end",
  "the tests drive the library stages on a few erroneous modules and never look at the exit status of the command, at a crashing child, or at a failing linker",
  ["llrl0/src/main.rs", "llrl0/src/pipeline.rs", "llrl0/src/module.rs", "llrl0/src/module/sema.rs", "llrl0/src/backend/native/linking.rs", "llrl0/src/backend/chibi.rs", "llrl0/src/backend/llvm.rs"],
  [("stage results checked before the next stage", "llrl0/src/pipeline.rs run"), ("exit status of the command", "llrl0/src/main.rs main"), ("error of any sema phase ends the module", "llrl0/src/module.rs build"), ("linker status", "llrl0/src/backend/native/linking.rs link")])

q("P02", "A module is built only after all its imports, exactly once, under any schedule",
  "Whatever the interleaving of the build workers, a module's build starts only when every module it imports has been built successfully and its result is visible, and each module is built at most once. A module whose import failed is never built, and its code is registered for code generation before any dependent module can start.",
  ["schedules", "programs"], "for every import graph and every interleaving of the worker threads",
  "tests run a handful of module graphs under whatever schedule the thread pool happens to pick",
  ["llrl0/src/module/parallel.rs", "llrl0/src/lowering.rs", "llrl0/src/source/set.rs"],
  [("dependency counter per module", "llrl0/src/module/parallel.rs"), ("publish before release", "llrl0/src/module/parallel.rs")])

q("P13", "Built-in operations, types and constructors are what their names say",
  "Each operation, type and constructor that the language builds in is translated to the operation of its name on its parameters in their order and on the type arguments its declared type gives; every declaration of one in the libraries has a type that the operation has. The constructs that the compiler knows by number (Bool, true, some, Fun.n, tuples, ...) are the ones declared under those names.",
  ["programs"], "for every built-in operation, type and constructor, at every type it is declared for",
  "the tests call perhaps a third of the operations on a few values; two operations that differ on negative operands or equal operands only, or two type arguments in the wrong order, pass them",
  ["llrl0/src/lowering/translator.rs", "llrl0/src/ast/builtin.rs", "llrl0/src/ast/builtin.llrl", "std/integer.llrl", "std/memory.llrl", "std/float.llrl"],
  [("operations", "llrl0/src/lowering/translator.rs builtin_rt, builtin_rt_pat, builtin_ct"), ("reserved constructs", "llrl0/src/ast/builtin.rs RESERVED_CONSTRUCTS"), ("declarations", "builtin-op and builtin-type forms of std/*.llrl, llrl0/src/ast/builtin.llrl")])

q("P14", "Every assembler instruction form is encoded as the reference table says",
  "For every instruction form (mnemonic and operand classes) the Rust assembler library accepts, the emitted prefixes, REX requirement, opcode bytes, ModRM/SIB/displacement placement and immediate widths are exactly those of the reference x86-64 instruction table, for all operand values. Every form of the supported subset of that table is available, and the method named after a mnemonic emits that mnemonic with its operands in order.",
  ["inputs"], "for all 1366 instruction forms and all operand values",
  "the assembler tests assemble a few dozen instructions; most of the 1366 generated writers are never executed by a test",
  ["xten0/src/asm/inst.rs", "xten0/src/asm/encoding.rs", "xtencg/src/instr/encoding.rs"],
  [("generated instruction writers", "xten0/src/asm/inst.rs"), ("mnemonic methods", "xten0/src/asm/inst.rs WriteInstExt")])

q("P15", "Register and memory operands are encoded to the operand requested",
  "For every register as reg, r/m or opcode operand and every memory operand the Rust assembler library can build (base, index, scale, displacement, RIP-relative, absolute), the emitted REX bits, ModRM, SIB and displacement bytes decode by the architecture's rules to exactly that operand, also after address arithmetic with + - *. A REX prefix is emitted exactly when needed, and combinations that have no encoding are refused rather than mis-encoded.",
  ["inputs"], "for all registers, all addressing forms, all index/scale choices and all displacement values",
  "the assembler tests cover a few addressing modes; special cases (RSP/R12, RBP/R13 bases, AH..BH with REX, disp8 vs disp32) multiply beyond what they enumerate",
  ["xten0/src/asm/encoding.rs", "xten0/src/asm/operand.rs"],
  [("ModRM construction from operands", "xten0/src/asm/encoding.rs ModRM"), ("address encoding", "xten0/src/asm/operand.rs EncodedAddress")])

q("P16", "Label references in machine code resolve to the labelled address",
  "Every label operand accepted by the Rust assembler ends up, after in-place resolution or through the relocation recorded in the object, as the address of the label plus the written addend minus the address of the following instruction (or as the absolute address where the form is absolute), whatever section the label is defined in and however far the displacement field is from the end of the instruction. Displacements that do not fit are refused, undefined unnamed labels are refused, and the produced object keeps section contents, sizes and symbols (name, binding, section, position) exactly as written.",
  ["inputs"], "for every label-taking instruction form, every register, position, addend, label definition section and binding",
  "assembler tests cover a few jumps and calls; the distance from the displacement to the end of the instruction differs by form (immediates follow it) and a wrong bias only shows when that very form is executed",
  ["xten0/src/asm/writer.rs", "xten0/src/asm/obj.rs", "xten0/src/asm/inst.rs", "xten0/src/asm/operand.rs"],
  [("label use recorded with the bias to the next instruction", "xten0/src/asm/writer.rs"), ("in-place resolution and object production", "xten0/src/asm/writer.rs produce")])

q("P17", "The written object file denotes exactly the assembled object",
  "The relocatable file the Rust object writer produces for an object decodes, by the ELF rules, to exactly that object: the same section contents and sizes, every symbol with its name, binding, section and position, and every relocation at its place with its type, target and addend. Locals precede globals, tables and offsets are consistent and aligned, a relocation that cannot be represented is refused, and success is returned only if every write to the file, including the last buffered one, succeeded.",
  ["inputs", "fault_sequences"], "for every object: all section sizes, symbols of every section and binding in any order, relocations of every type and target, and a failure of any write",
  "the tests compare readelf output of a single object; indices, offsets and counts that only go wrong for other symbol orders, sizes or relocation targets are never looked at, and no test makes a write fail",
  ["xten0/src/elf/format.rs", "xten0/src/elf/adapter.rs"],
  [("conversion of an object to ELF sections", "xten0/src/elf/adapter.rs into_relocatable_object"), ("ELF serialisation", "xten0/src/elf/format.rs Elf::write")])

q("P18", "JIT loading places, protects and links every object correctly",
  "After the JIT engine accepts an object, its section contents lie unmodified and 16-byte aligned in live mappings, disjoint from everything loaded before, code is executable and not writable, constants are read-only, and no mapping is ever writable and executable at once. Every relocation has written S+A-P, or S+A, or the distance to an address-table slot holding S, with S the object's own local symbol before any global of that name, and a value that does not fit its field is refused. Undefined and doubly defined symbols are refused, lookups return exactly the bound global addresses, and a failing memory call is reported with the protections restored.",
  ["inputs", "histories", "fault_sequences"], "for every sequence of objects, all section sizes, symbols, bindings, relocations of every type and target, and every failing mmap or mprotect",
  "the tests load three tiny objects into fresh pages; page boundaries, full segments, colliding names, far targets and failing system calls never occur",
  ["xten0/src/jit.rs", "xten0/src/jit/segment.rs", "xten0/src/jit/mmap.rs", "xten0/src/jit/table.rs", "xten0/src/jit/address_table.rs", "xten0/src/jit/symbol_table.rs"],
  [("placement and protection", "xten0/src/jit/segment.rs"), ("relocation", "xten0/src/jit.rs Linker::relocate"), ("symbol binding", "xten0/src/jit/symbol_table.rs")])

q("P11", "Code from the chibi backend computes what the IR prescribes",
  "For every operator, constant, memory operation, aggregate and control form of the Rust compiler's IR and every operand type, the code the chibi backend emits calls, stores, allocates and returns exactly what the form means, in an evaluation order the IR allows: integer operations at their width and signedness, IEEE float operations and comparisons including NaN, conversions over the full range, struct fields and unions at their layout, loops, continuations and early returns. This does not depend on what operand expressions do to registers and stack, or on whether they leave the function instead of yielding a value. The type the IR computes for an expression is the type of its value.",
  ["inputs"], "for every expression form, operand type, operand value and operand expression",
  "tests compile programs that use the common operators on small values of a few types with simple operands; a wrong width, a clobbered register or a misplaced field only shows for particular types, nestings and values",
  ["llrl0/src/backend/chibi/codegen.rs", "llrl0/src/backend/chibi/codegen/stack_inst.rs", "llrl0/src/backend/chibi/codegen/stack_frame.rs", "llrl0/src/backend/native/mem_layout.rs", "llrl0/src/lowering/ir/rt.rs"],
  [("expression code generation", "llrl0/src/backend/chibi/codegen.rs FunctionCodegen::eval"), ("sized loads, stores and stack values", "llrl0/src/backend/chibi/codegen/stack_inst.rs"),
   ("variable and allocation slots", "llrl0/src/backend/chibi/codegen/stack_frame.rs"), ("static types", "llrl0/src/lowering/ir/rt.rs Rt::ty")])

q("P12", "The module the LLVM backend builds means what the IR prescribes",
  "For every operator, constant, memory operation, aggregate, call and control form of the Rust compiler's IR and every operand type, the LLVM module the LLVM backend builds is well typed and calls, stores, allocates and returns exactly what the form means, whatever the operand expressions are and whether or not they leave the function; signed overflow, shift amounts beyond the width and the register-level passing of aggregates to C are left open. No instruction claims more about its operands than the IR does (no no-wrap flag on an unsigned operation, signedness and ordered comparison as prescribed). A function finds in its environment what the closure captured, callers and callees of functions, macros and mains agree on parameters and results, and the C entry point initialises the runtime, runs the program and returns 0.",
  ["inputs"], "for every expression form, operand type, operand value and operand expression",
  "tests compile programs that use the common operators on small values of a few types; a wrong predicate, a sign extension in place of a zero extension or a misplaced phi only shows for particular types, values and nestings",
  ["llrl0/src/backend/llvm/codegen.rs", "llrl0/src/backend/llvm/runtime.rs", "llrl0/src/backend/llvm/artifact.rs", "llvm0/src/builder.rs"],
  [("expression code generation", "llrl0/src/backend/llvm/codegen.rs Codegen::eval"), ("runtime calls and aggregates", "llrl0/src/backend/llvm/runtime.rs"),
   ("types, functions, C signatures", "llrl0/src/backend/llvm/artifact.rs"), ("instruction builder", "llvm0/src/builder.rs")])

q("P20", "Functions from the chibi backend keep the calling conventions",
  "At every call in a function emitted by the chibi backend the stack is 16-byte aligned and each argument, environment and result buffer is where the callee's convention (System V for C, stack arguments for closures) puts it, whatever the argument and result types and however the arguments are computed. On every path to a return, rsp, rbp and the callee-saved registers have their entry values, the result is in its registers or in the caller's buffer, and nothing below rsp or over the return address has been written. A function finds in its environment what the closure captured; macros and mains are entered by the C convention and the C entry point initialises the runtime with its arguments, runs the program and returns 0.",
  ["inputs"], "for every signature, argument expression, environment shape and control path",
  "tests call functions with a few scalar arguments; misalignment, a clobbered register or an argument in the wrong register appears only for particular numbers and classes of arguments at particular stack depths",
  ["llrl0/src/backend/chibi/codegen.rs", "llrl0/src/backend/chibi/codegen/call_frame.rs", "llrl0/src/backend/chibi/codegen/reg_assign.rs", "llrl0/src/backend/chibi/codegen/stack_frame.rs"],
  [("call sequences", "llrl0/src/backend/chibi/codegen.rs eval_call, eval_c_call"), ("frame and alignment", "llrl0/src/backend/chibi/codegen/call_frame.rs"),
   ("prologue and epilogue", "llrl0/src/backend/chibi/codegen.rs"), ("C entry point", "llrl0/src/backend/chibi/codegen.rs c_main_adapter_object")])

q("P10", "Lowering keeps the meaning of data types and pattern matching",
  "Whatever layout the compiler picks for a data type (field itself, struct, struct with tag, union), a constructor expression and the patterns over it mean in the lowered program what they mean in the source. A match evaluates its target once, takes the first clause whose pattern the value matches, at any nesting of constructors, constants, pointers and syntax, and binds exactly the matched parts; a clause or target that leaves the function leaves it. The lowered program names only types that exist, is well typed and contains no data or match construct.",
  ["inputs"], "for every data type declaration, pattern, clause order and matched value",
  "tests match small values against a few clause orders; a merged branch that drops a clause, a wrong union member or field index, or a tag compared at the wrong nesting only shows for particular clause sequences and layouts",
  ["llrl0/src/lowering/data_expander.rs", "llrl0/src/lowering/branch_expander.rs", "llrl0/src/lowering/context.rs"],
  [("layout and construction of data", "llrl0/src/lowering/data_expander.rs"), ("decision trees for matches", "llrl0/src/lowering/branch_expander.rs")])

q("P07", "Closure conversion, instantiation, inlining, stack allocation keep the meaning",
  "A local function, wherever it is stored, passed or returned, computes with the values its variables had when it was created. A generic function or type at given type arguments behaves as its definition with those arguments, class members resolve to the chosen instance, and a call of a transparent function evaluates each argument where and as often as its parameter is used, changing nothing else (transparent functions that call themselves or return early are excluded). No memory is used after the function whose stack holds it has returned and no two live allocations share a cell; the lowered program is closed and well typed.",
  ["inputs"], "for every nesting of functions, captured variables, instantiation, inlined call and allocation",
  "tests use each transformation alone on small programs; a captured variable in the wrong slot, a clash of identifiers after inlining, or an allocation wrongly put on the stack needs particular nestings",
  ["llrl0/src/lowering/normalizer.rs", "llrl0/src/lowering/heap2stack.rs", "llrl0/src/lowering/ir/rewriter.rs", "llrl0/src/lowering/context.rs"],
  [("instantiation, closure conversion and inlining", "llrl0/src/lowering/normalizer.rs"), ("stack allocation", "llrl0/src/lowering/heap2stack.rs"), ("fresh identifiers for inlined terms", "llrl0/src/lowering/ir/rewriter.rs ReallocRts")])

q("P03", "Every definition a program refers to reaches the back end exactly once",
  "Over any sequence of top-level statements, everything a lowered statement refers to, directly or through other definitions, has been handed to the back end with that statement or an earlier one. Nothing is handed over twice, and no definition changes what a later statement means: functions, types and instances made for an earlier statement are used again unchanged.",
  ["histories"], "for every sequence of statements over shared functions, closures, data types and instances",
  "each test compiles one short program; a definition lost or repeated when a later statement reuses part of what an earlier one needed is a matter of particular sequences",
  ["llrl0/src/lowering/context.rs", "llrl0/src/lowering/normalizer.rs", "llrl0/src/lowering/data_expander.rs"],
  [("population and generations", "llrl0/src/lowering/context.rs Context::populate")])

q("P04", "Every name refers to the innermost definition in scope where it stands",
  "In the bootstrap compiler, every name of a program is looked up where its form says it stands, among what is bound there, and refers to the innermost definition of that name, or the program is rejected: a definition is seen in all of its scope and nowhere else, a name is defined once per scope, an outer definition is back when an inner scope ends, and a name that is not there, or is not of the sort the place calls for, is an error. The methods of an instance are exactly methods of its class, each once, with its number of parameters, and none that has no default is missing; a sealed class has instances in its own module only.",
  ["programs"], "for every form, at every nesting, and for every sequence of definitions and scopes",
  "the tests use names that mostly differ from each other, so a scope that is too wide, too narrow or not left only shows for the shadowing that depends on it",
  ["llrl0/src/module/sema/resolver.rs", "llrl0/src/module/scope.rs"],
  [("scope of each form", "llrl0/src/module/sema/resolver.rs Resolve and Bind impls"), ("scopes", "llrl0/src/module/scope.rs TopLevel, LocalScope"), ("methods of instances", "llrl0/src/module/sema/resolver.rs run")])

q("P05", "Type inference requires what the typing rule of each form requires",
  "In the bootstrap compiler, a program is accepted only if every expression, pattern and declaration meets its typing rule: all branches and arguments agree, annotations hold, signatures of functions, methods and instances are respected, type parameters are opaque within their scope, and what is recorded for later stages (types, schemes, instantiations, chosen instances) is what the rule determines. Functions without a signature are generalised over exactly what is unknown and common to their group. A constraint is satisfied only by an equal assumption or by an instance that matches, searched to a bounded depth and only after overlap is excluded, and never by deciding an unknown of the constraint; whatever fails ends in an error.",
  ["programs", "inputs"], "for every form, nesting, scope and set of constraints, assumptions and instances",
  "the tests type a few hundred small programs; a requirement that is skipped for one form, scope or order of declarations only shows when an ill-typed program of that form is written",
  ["llrl0/src/module/sema/type_inference.rs", "llrl0/src/module/sema/type_inference/unification.rs", "llrl0/src/module/sema/type_inference/type_env.rs"],
  [("typing rules of expressions and patterns", "llrl0/src/module/sema/type_inference.rs infer_expr, infer_pattern"), ("declarations", "llrl0/src/module/sema/type_inference.rs run"), ("scopes, generalisation and defaulting", "llrl0/src/module/sema/type_inference.rs finalize_scope"), ("constraint solving", "llrl0/src/module/sema/type_inference.rs build_satisfaction, ensure_overlap_checked")])
q("P06", "Unification makes types equal most generally or fails; never circular",
  "Unifying two types or kinds succeeds exactly when they can be made equal, and then decides no more than that requires: what it leaves is never circular, never of a different kind than the unknown it replaces, and no type parameter leaves its scope through an unknown of an outer one; matching decides no unknown of the type matched against. Replacing type parameters, comparing, collecting unknowns and levels, and computing kinds do what their definitions say whatever the type, however it is shared or referred to. Types, schemes, constraints and instantiations read from the syntax tree and written back mean the same.",
  ["inputs", "programs"], "for every pair of types and kinds, of any depth and sharing, at every level of scope",
  "a missing check (occurrence, kind, level of an unknown behind another) only shows for the one relation of unknowns that needs it, as an endless loop or an accepted ill-typed program",
  ["llrl0/src/unification/types.rs", "llrl0/src/unification/kind.rs", "llrl0/src/module/sema/type_inference/unification.rs"],
  [("unification of types", "llrl0/src/unification/types.rs Context::unify, occurs_check"), ("unification of kinds", "llrl0/src/unification/kind.rs"), ("matching", "llrl0/src/unification/types.rs match_to_right_on"), ("reading and writing", "llrl0/src/unification/types.rs import, export"), ("levels", "llrl0/src/unification/types.rs adjust_level, deny_adjust_required_level")])
q("P08", "The IR made from the syntax tree means what the syntax tree says",
  "In the bootstrap compiler, every form of expression, pattern, type, instance and definition is translated to the intermediate representation that does what the form means: operands, clauses, fields, parameters, type arguments and class dictionaries each in their place, methods bound to the implementation of the instance or else the class's default. One construct is always known by one identifier and different constructs by different ones, however they refer to each other.",
  ["programs"], "for every syntax tree that the semantic analysis lets through",
  "the tests translate a few dozen small programs and look at the text of some; an operand or dictionary in the wrong place shows only for the form and arity in which it is not symmetric",
  ["llrl0/src/lowering/translator.rs", "llrl0/src/lowering/context.rs"],
  [("translation", "llrl0/src/lowering/translator.rs Translate impls"), ("definitions", "llrl0/src/lowering/translator.rs Env::translate_def, translate_scheme"), ("identifiers", "llrl0/src/lowering/context.rs bind_ct, issue_ct, issue_rt")])

q("P09", "Accepted match expressions cover every value and have no dead clause",
  "In the bootstrap compiler, a match expression is accepted exactly if every value its patterns can be applied to is matched by some clause and every clause is chosen for some value, whatever the types, literals and nesting of the patterns; every match expression of a module is looked at, wherever it stands. What is reported as missing is not covered, and the clause reported as useless is one.",
  ["programs", "inputs"], "for every list of clauses of every type, at every place of a module",
  "the tests have a few dozen lists of clauses; a wrong step shows only for the combination of constructors, wildcards and columns that reaches it, as a program that runs into a missing case",
  ["llrl0/src/pattern_matching.rs", "llrl0/src/pattern_matching/matrix.rs", "llrl0/src/pattern_matching/row.rs", "llrl0/src/pattern_matching/pattern.rs", "llrl0/src/module/sema/validator.rs", "llrl0/src/ast.rs"],
  [("usefulness and missing patterns", "llrl0/src/pattern_matching/matrix.rs compute_usefulness, compute_missing"), ("the check", "llrl0/src/pattern_matching.rs check"), ("patterns of the syntax tree", "llrl0/src/module/sema/validator.rs simplify_pattern, tag_of, validate_match"), ("traversal", "llrl0/src/ast/expr.rs Dfs for Expr"), ("expressions of a module", "llrl0/src/ast/root.rs expressions")])

q("P21", "The library's operations on machine types and UTF-8 do what they name",
  "Every operation of the standard library on integers, floats, Bool, Char and Ordering (arithmetic, comparison, bits, rounding, limits) and every conversion between two numeric types is the operation of that name for that type's width and signedness, on its operands in their order. A number read from text is given exactly if it fits the type. Encoding a character gives its UTF-8 bytes, decoding gives exactly the characters whose well-formed sequence was read, and surrogates, overlong forms and values above U+10FFFF are neither encoded nor decoded.",
  ["inputs"], "for every operand of every machine type, every character and every sequence of bytes",
  "the tests compare a few values of some types; a width, sign, limit or shift that is wrong for one type or one range of values needs an operand there",
  ["std/integer.llrl", "std/float.llrl", "std/bits.llrl", "std/conv.llrl", "std/ord.llrl", "std/arithmetic.llrl", "std/char.llrl", "std/ordering.llrl", "std/internal/utf-8.llrl"],
  [("integers and conversions", "std/integer.llrl, std/float.llrl, std/bits.llrl"), ("ordering", "std/ord.llrl Ord, min2, max2"), ("UTF-8", "std/internal/utf-8.llrl encode, decode, decode-step"), ("characters", "std/char.llrl char/from-unicode-scalar, char/escape?")])

q("P22", "A module sees exactly what it imports and gives exactly what it exports",
  "In the bootstrap compiler, the names a module sees from others are exactly those its imports ask for, by name, by new name or by the part around a wildcard, together with those of the standard library where it comes by itself and the module has no such name yet; the names it gives are exactly those its exports ask for in the same way. A name that would be two things, a name that is not there, and a target that makes no sense are errors. Every module imported is initialized first, in the order of the imports, and the instances that came in can be used.",
  ["programs", "inputs"], "for every list of imports and exports, of modules with any names",
  "the tests import by name or everything; prefixes, suffixes, renaming and names that meet from several modules each have their own steps",
  ["llrl0/src/module/sema/importer.rs", "llrl0/src/module/sema/exporter.rs", "llrl0/src/module/meaning.rs"],
  [("imports", "llrl0/src/module/sema/importer.rs run"), ("exports", "llrl0/src/module/sema/exporter.rs run"), ("wildcards", "llrl0/src/module/sema/importer.rs WildcardPortTarget")])
