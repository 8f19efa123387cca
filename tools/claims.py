CLAIMS = {
 "P01": ("abstract interpretation over MIR of the driver with nondeterministic stage outcomes; typestate on stages",
         "Every path through the driver, both backends' link step, the module build and the command is followed, stages and processes being nondeterministic; option lists are followed for zero or one value. Errors dropped inside one analysis phase are out of scope here."),
 "P14": ("variant-partitioned constant propagation over MIR against a reference instruction table",
         "Every writer in the generated assembler is analysed on all paths; trusts rustc's MIR and the committed reference table (validated against objdump); operand encoding itself is P15."),
 "P15": ("variant-partitioned constant propagation over MIR, result decoded by the architecture's rules",
         "Every register, addressing form and address operator is enumerated with symbolic displacements; the decoder in the check is the trusted oracle."),
 "P16": ("abstract interpretation over MIR with symbolic positions and addends, compared with transfer functions per case",
         "All label forms, sections, bindings and relocation kinds are enumerated; positions and addends are symbolic (linear terms). The instruction-final bias is decided against the reference table."),
 "P02": ("abstract interpretation over MIR of the build scheduler with a per-module typestate; concurrency primitives modelled by their contracts",
         "All import graphs on 4 modules (5 in thorough), every failing module and every start order are covered, the build of one module being nondeterministic; larger graphs rest on the uniformity of the per-module code. Trusts the contracts of rayon, atomics and locks."),
 "P17": ("abstract interpretation over MIR with symbolic contents, result decoded by the ELF rules; failure enumeration on writes",
         "Objects of every shape class are enumerated (53 quick, 69 thorough), contents, positions and addends symbolic; the ELF decoder in the check is the trusted oracle. Sizes are concrete per shape, so lengths beyond those enumerated rest on the uniformity of the code."),
 "P18": ("abstract interpretation over MIR with destructors followed, memory primitives modelled by their contracts, effects compared with the relocation formulas",
         "Every relocation type, section, target and binding, sequences of up to six objects with sizes at the alignment and page boundaries, and every failing memory call are enumerated; contents, positions and addends are symbolic. Trusts the models of mmap, mprotect, munmap and of the pointer primitives."),
 "P11": ("abstract interpretation of the code generator over MIR, then of the emitted instructions over terms, compared with the meaning of each IR form",
         "Every IR form over operand types of every size, register class and padding pattern, with operands called, in variables or leaving the function; other types and nestings rest on the induction over the form. Trusts the IR semantics and the instruction semantics written in the check; loops are followed for a few iterations. Contents of syntax literals are out of scope here."),
 "P12": ("abstract interpretation of the code generator over MIR, then type checking and abstract execution over terms of the LLVM module it builds, compared with the meaning of each IR form",
         "Every IR form, call kind, environment shape and control form over operand types of every size and padding pattern, with operands called, in variables or leaving the function. Trusts the meaning given to the LLVM C interface and the IR semantics in the check; LLVM's own optimisation and code generation are trusted, as is LLVM's lowering of first-class aggregates in C calls."),
 "P20": ("abstract interpretation of the code generator over MIR, then of the emitted instructions over a symbolic stack, against the calling conventions",
         "All call kinds over every argument class and many argument lists, environments of every element type, macros, mains, control forms. The convention tables and instruction semantics in the check are trusted; unions as C arguments are not modelled."),
 "P10": ("abstract interpretation of the lowering passes over MIR, then path-wise comparison of source and lowered program over symbolic inputs, with type and scope checking of the result",
         "A catalogue of data declarations and matches (about 220 quick, 430 thorough) with symbolic scrutinees; other types and nestings rest on the uniformity of the passes. Trusts the IR semantics written in the check; the translation from the typed syntax tree into the IR is out of scope here."),
 "P07": ("abstract interpretation of the lowering passes over MIR, then path-wise comparison of source and lowered program over symbolic inputs, with type and scope checking of the result",
         "A catalogue of about 190 programs over every kind of capture, instantiation, inlined body and argument, and allocation; loops followed for two iterations. Trusts the IR semantics written in the check, and treats every shared identifier table as copied on write."),
 "P03": ("abstract interpretation of the lowering passes over MIR over sequences of statements, with a typestate per emitted definition",
         "Sequences of two or three statements, and each program of the lowering catalogue handed in twice; longer histories rest on the uniformity of the context. The translation from the typed syntax tree is out of scope here."),
 "P04": ("abstract interpretation over MIR of the name resolver on every form with abstract parts, noting the bindings each part and name is resolved among; the scopes on all short histories of definitions",
         "Every form of expression, pattern, type and definition, every sort of construct a name may be found to be, local definitions in all shapes up to three; nesting rests on induction over the parts. Scopes: all histories of five steps over two names and three levels. Macro expansion and imports are outside."),
 "P05": ("abstract interpretation over MIR of type inference per form, with the subterms' types symbolic and recursion replaced by hypotheses; requirements compared with the typing rules as equation sets",
         "Every form of expression, pattern, declaration and first use, scopes with every mix of constraints and levels, and constraints against assumptions and instances; sizes (arguments, clauses, group members) up to three. Nesting rests on induction over the subterms. The unification operations themselves are hypotheses here."),
 "P06": ("abstract interpretation over MIR of unification, matching and the operations on types, for every pair of shapes with abstract parts; the state of the cells left behind compared with the most general solution",
         "Every pair of shapes with every relation of levels, kinds and references between cells; applications up to two arguments whose parts are shared or abstract. Deeper types rest on induction over the parts."),
 "P09": ("abstract interpretation over MIR of each step of the pattern check with the remaining patterns unknown and recursion as hypotheses; answers compared with what the meaning of the patterns entails",
         "Every combination of first patterns over six kinds of type, up to four rows and three columns; deeper patterns and longer rows rest on induction. Traversals are compared with the type definitions of the syntax tree. Types are taken to have values; what is reported as missing need not be all of it."),
 "P08": ("abstract interpretation over MIR of the translator on every form with abstract parts; the term made is compared with what the form means",
         "Whole input space of one form at a time: parts, types and instances are symbols, the module set answers from a table; lists have up to three or four elements, and what holds for parts rests on induction over the tree. That the table is right is the business of the type inference check."),
 "P13": ("abstract interpretation over MIR of the translator on each built-in name and on each declaration read from the library sources, compared with a table of operations; lint of declared types",
         "All built-in names and all declarations of std, llrl1, llvm1, xten1. The table of operations is written by hand from the names; what an operation computes is decided by the back end checks."),
 "P21": ("abstract interpretation of the library's source (S-expressions) on symbolic operands: operation terms for machine types, order partition for generic functions, bit-level values per range of characters for UTF-8",
         "All methods of the numeric classes and all 90 conversions. Ranges between any two constants of the functions and of Unicode, each with its undetermined bits symbolic, cover all 2^32 inputs; sequences of bytes are covered by header class. Macros of the library are read by the convention of their names."),
 "P22": ("abstract interpretation over MIR of the importer and exporter on every form of target with known sets of names; the sets of names made are compared with what the targets mean",
         "31 forms of target alone and 14 combinations, beside each other module and the library. Names are constants, chosen to meet every relation of a name to a prefix or suffix, multi-byte ones included. That imports and exports are read from the text as they stand is outside."),
}
NA = {
}
