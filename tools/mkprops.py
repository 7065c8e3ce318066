import json
P=[]
def p(id,title,stmt,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p("C01","Integer expressions compute the value C prescribes",
 "For every integer expression whose evaluation is defined in C, the compiled program computes exactly the value C prescribes for the target's type sizes: promotions and usual arithmetic conversions, modular unsigned arithmetic, truncating division and remainder, shifts, bitwise and logical operators, comparisons, and conversion on assignment, for every mix of char, short, int, long, long long, signed or unsigned, and _Bool. The value does not depend on whether an operand is a constant, a local or global variable, a parameter, or a memory location, nor on whether the operation is written as a plain operator, a compound assignment or ++/--.",
 ["inputs","programs"],"all operand values, types, operators and operand forms",
 "The tests sample a few dozen operand values, mostly int; wrong results that need a particular width, sign, boundary value or operand form are never executed.",
 ["src/cc/frontend/fe_misc.c","src/cc/frontend/parser_expr.c","src/cc/backend/codegen_expr.c","src/cc/arch/x64/ir_x64.c","src/cc/arch/x64/emit_x64.c","src/cc/backend/optimize.c"],
 [("type checking, implicit conversions","src/cc/frontend/fe_misc.c"),("expression lowering","src/cc/backend/codegen_expr.c"),("instruction selection","src/cc/arch/x64/ir_x64.c")])
p("C02","Compile-time evaluation agrees with run-time evaluation",
 "Wherever the compiler evaluates an expression itself - static initializers, case labels, enumerators, array bounds, bit-field widths, folded constants in ordinary code - it obtains the same value and type that C prescribes for that expression, for every integer type and operator and for floating constants. An address constant (object plus or minus a constant offset, member, element, function) in a static initializer denotes exactly that address.",
 ["inputs","programs"],"all constant expressions over all operand types and values, in all constant contexts",
 "Tests fold a handful of small int expressions; wide, unsigned, negative and mixed-width operands and most contexts are not covered.",
 ["src/cc/frontend/fe_misc.c","src/cc/frontend/parser_expr.c","src/cc/frontend/initializer.c","src/cc/backend/emit_code.c","src/cc/frontend/parser.c"],
 [("constant folding while building expressions","src/cc/frontend/fe_misc.c"),("static data emission","src/cc/backend/emit_code.c")])
p("C03","Control flow and sequencing follow C",
 "For every program built from if, while, do, for, switch, break, continue, goto, return, ?:, &&, || and comma, in any nesting, the compiled program performs exactly the sequence of observable side effects that C prescribes. In particular a switch transfers control to the matching case for every controlling value, dense or sparse, negative or beyond int, and falls through as written, and unevaluated operands have no effect.",
 ["programs","inputs"],"all nestings of statements and all controlling values",
 "Tests contain one or two small examples per statement; interactions (switch in loop with continue, goto into blocks, fallthrough with default in the middle, sparse or negative labels) are unbounded.",
 ["src/cc/frontend/parser.c","src/cc/backend/codegen.c","src/cc/backend/optimize.c","src/cc/arch/x64/ir_x64.c"],
 [("statement lowering, switch tables","src/cc/backend/codegen.c"),("basic block clean-up","src/cc/backend/optimize.c")])
p("C04","Calls pass arguments and results intact",
 "For every function signature - any number and mix of integer, pointer, float, double and struct/union parameters and results, variadic or not, called directly or through a pointer, recursively or nested in other expressions - the callee receives exactly the argument values converted to the parameter types and the caller receives exactly the returned value, and values live across the call are preserved. Calls between functions compiled by this compiler and functions compiled by another compiler for the same platform agree for scalar signatures.",
 ["programs","inputs"],"all signatures, argument values, call nesting and call forms",
 "Tests have a few fixed signatures; register/stack assignment, spill across nested calls and variadic save areas depend on the combination.",
 ["src/cc/backend/codegen.c","src/cc/backend/codegen_expr.c","src/cc/arch/x64/emit_x64.c","src/cc/arch/x64/ir_x64.c","src/cc/builtin.c","include/stdarg.h"],
 [("argument classification and lowering","src/cc/backend/codegen_expr.c"),("prologue, parameter moves, va_start","src/cc/arch/x64/emit_x64.c"),("variadic builtins","src/cc/builtin.c")])
p("C05","Struct, union and bit-field layout is consistent",
 "For every struct, union and array type, size, alignment and member offsets follow the platform rule (each member at the next multiple of its alignment, size rounded up to the largest alignment, union members at offset zero, arrays contiguous), and sizeof, offset computation, static data and run-time access all agree on it. A bit-field holds exactly the values of its declared width and signedness, and writing a member or bit-field changes no other member.",
 ["programs","inputs"],"all aggregate type definitions and all member values",
 "Tests check a few layouts; the combinations of nesting, alignment, bit-field widths, zero-width fields and anonymous members are unbounded.",
 ["src/cc/frontend/type.c","src/cc/frontend/fe_misc.c","src/cc/frontend/parser_type.c","src/cc/backend/codegen_expr.c","src/cc/backend/emit_code.c"],
 [("layout computation","src/cc/frontend/type.c"),("bit-field extract and insert","src/cc/frontend/fe_misc.c")])
p("C06","Initializers give every object the prescribed value",
 "For every declaration with an initializer - scalar, array, struct or union, with nested braces, elided braces, designators in any order, strings, compound literals, unspecified array bounds - the object's value after initialization is exactly the one C prescribes, with every subobject that is not mentioned zero. Static and automatic objects with the same initializer get the same value.",
 ["programs"],"all types, initializer shapes and storage durations",
 "Tests cover single examples of each shape; brace elision, designator jumps and overrides combine recursively.",
 ["src/cc/frontend/initializer.c","src/cc/frontend/parser.c","src/cc/backend/emit_code.c"],
 [("flattening and traversal of initializers","src/cc/frontend/initializer.c"),("static data emission","src/cc/backend/emit_code.c")])
p("C07","Stores change exactly the designated object",
 "Every read of an object yields the value last stored in it, whatever the access path (name, pointer, array index, member, struct copy, pointer arithmetic, variable-length array, compound literal, pointer to pointer), and a store changes no byte outside the designated object. Each activation of a block or function has its own automatic objects, while static objects keep their value.",
 ["programs","histories"],"all sequences of reads, writes and address computations over all object types",
 "Tests exercise isolated accesses; aliasing between register-allocated and memory-resident variables and neighbouring-byte corruption only show in sequences.",
 ["src/cc/backend/codegen_expr.c","src/cc/backend/codegen.c","src/cc/arch/x64/ir_x64.c","src/cc/frontend/fe_misc.c"],
 [("lvalue and address lowering","src/cc/backend/codegen_expr.c"),("frame layout","src/cc/backend/codegen.c"),("load/store selection","src/cc/arch/x64/ir_x64.c")])
p("C08","Optimisation and register allocation do not change behaviour",
 "For every program with defined behaviour, the observable behaviour is the same at every optimisation setting, including the SSA-based passes, and does not depend on how many values are simultaneously live, so that programs needing more registers than the machine has still compute the prescribed values. Values live across branches, loops and calls are never lost or mixed up.",
 ["programs","configurations"],"all programs, optimisation settings and register pressures",
 "The test programs rarely need more registers than the machine has, and only a few run with the optimising passes on.",
 ["src/cc/backend/regalloc.c","src/cc/backend/ssa.c","src/cc/backend/optimize.c","src/cc/backend/ir.c","src/cc/arch/x64/ir_x64.c","src/cc/arch/x64/emit_x64.c"],
 [("linear-scan allocation and spilling","src/cc/backend/regalloc.c"),("SSA construction and destruction, copy propagation","src/cc/backend/ssa.c"),("peephole and dead code removal","src/cc/backend/optimize.c")])
p("C09","Floating-point expressions follow IEEE 754",
 "For every expression over float, double and integers, the compiled program computes the IEEE 754 round-to-nearest result in the type C prescribes: arithmetic, negation, comparison (including NaN, infinities and signed zero), truth tests, and conversions between floating types and every integer type. Floating constants have the value nearest to their spelling when that value is exactly representable.",
 ["inputs","programs"],"all operand bit patterns, operators, conversions and operand forms",
 "Tests use a few small values such as 1.5; NaN, infinities, signed zero, large unsigned conversions and rounding of int-to-float are not sampled.",
 ["src/cc/backend/codegen_expr.c","src/cc/arch/x64/ir_x64.c","src/cc/frontend/fe_misc.c","src/cc/frontend/lexer.c","src/cc/backend/emit_code.c"],
 [("floating lowering and conversions","src/cc/arch/x64/ir_x64.c"),("floating constant folding","src/cc/frontend/fe_misc.c"),("floating literals","src/cc/frontend/lexer.c")])
p("C10","Macro expansion follows the C rules",
 "For every set of object-like and function-like macro definitions and every input, preprocessing produces the token sequence C prescribes: arguments fully expanded before substitution unless operands of # or ##, correct stringizing and pasting, variadic arguments, rescanning with the rest of the input, no re-expansion of a macro inside its own expansion, and redefinition or undefinition taking effect from that line on. Expanding one macro never influences the later expansion of another.",
 ["programs","histories"],"all macro definition sets, invocations and their order",
 "Tests check single macros; mutual recursion, nested invocation in arguments, and history dependence between expansions need combinations.",
 ["src/cpp/macro.c","src/cpp/preprocessor.c","src/cpp/pp_parser.c"],
 [("expansion with hide sets","src/cpp/macro.c"),("directive processing","src/cpp/preprocessor.c")])
p("C11","Conditional inclusion and file inclusion select the right text",
 "For every nesting of #if, #ifdef, #ifndef, #elif, #else and #endif, exactly the lines of the groups C selects reach the compiler, each #if expression is evaluated by C's rules, and skipped groups have no effect whatever they contain. #include, include guards, #pragma once, search order, line continuation, comments, __LINE__, __FILE__ and #line behave as C (and the documented options) prescribe.",
 ["programs","histories","configurations"],"all nestings of conditional directives, #if expressions and include graphs",
 "Tests use shallow nesting and small expressions; the state machine over nested groups and include graphs is unbounded.",
 ["src/cpp/preprocessor.c","src/cpp/pp_parser.c","src/cpp/cpp.c","src/util/util.c"],
 [("condition stack, include stack","src/cpp/preprocessor.c"),("#if expression evaluator","src/cpp/pp_parser.c")])
p("C12","The assembler encodes exactly the written program",
 "For every accepted assembly source, the object code executed by the processor has the effect of the written instructions: every operand register, immediate, displacement and label reference is encoded faithfully, jumps reach their label whatever the distance, data directives emit exactly the given bytes, and alignment directives are honoured in every section.",
 ["inputs","programs"],"all instruction/operand combinations the compiler or an inline asm can emit, all code distances, all data directives",
 "Tests cover one example per instruction form; operand corner cases (r8-r15, rsp/r12/r13/rbp bases, 8/32-bit displacement boundaries) and branch distances around the short/long limit are combinatorial.",
 ["src/as/arch/x64/asm_code.c","src/as/arch/x64/parse_x64.c","src/as/arch/x64/ir_asm_x64.c","src/as/parse_asm.c","src/as/emit_elf.c","src/as/as.c"],
 [("instruction encoding","src/as/arch/x64/asm_code.c"),("branch relaxation and label resolution","src/as/arch/x64/ir_asm_x64.c"),("directives","src/as/parse_asm.c")])
p("C13","Linking resolves every reference to the one right definition",
 "For every set of object files and archives, the linker produces a program in which each reference denotes the definition that the linking rules select (local before global, strong over weak and common, archive members extracted only when they define a still undefined symbol, in command-line order), with contents, alignment and relocated addresses of every section intact and uninitialized data zero. Duplicate strong definitions and unresolved references make the link fail with a non-zero status.",
 ["programs","configurations"],"all sets of objects and archives, symbol bindings, section contents and command-line orders",
 "Tests link a few objects; resolution order between archives, weak, common and static symbols of the same name and section alignment are combinatorial.",
 ["src/ld/ld.c","src/ld/elfobj.c","src/util/archive.c","src/util/elfutil.c","src/as/emit_elf.c"],
 [("symbol resolution and archive search","src/ld/ld.c"),("section layout and relocation","src/ld/ld.c"),("object emission","src/as/emit_elf.c")])
p("C14","The heap never hands out overlapping or corrupted blocks",
 "For every sequence of malloc, calloc, realloc and free calls, every live block is suitably aligned, disjoint from all other live blocks, large enough, and keeps its contents until freed or reallocated; calloc memory is zero and realloc preserves the common prefix. Freed memory is reused, so a bounded live set under unbounded churn does not grow the heap without bound.",
 ["histories"],"all call sequences and sizes",
 "Tests allocate a handful of blocks; splitting, coalescing and reuse errors need particular free orders.",
 ["libsrc/stdlib/malloc.c","libsrc/stdlib/calloc.c","libsrc/stdlib/realloc.c","libsrc/unistd/sbrk.c"],
 [("free list","libsrc/stdlib/malloc.c"),("reallocation","libsrc/stdlib/realloc.c")])
p("C15","Standard I/O streams behave as byte sequences",
 "For every sequence of stream operations (open in each mode, character, line and block reads and writes, push-back, seek, tell, flush, memory streams, close) the data and status returned and the final file contents are those of the abstract byte-sequence stream. No byte is lost, duplicated or reordered at buffer boundaries, on close, or at normal program exit.",
 ["histories"],"all operation sequences, modes, sizes and buffer alignments",
 "Tests do a few short writes and reads; buffer-boundary and mode-switch histories are not reached.",
 ["libsrc/stdio/_file.c","libsrc/stdio/fopen.c","libsrc/stdio/fdopen.c","libsrc/stdio/fflush.c","libsrc/stdio/fwrite.c","libsrc/stdio/fread.c","libsrc/stdio/fgetc.c","libsrc/stdio/fseek.c","libsrc/stdio/fmemopen.c","libsrc/stdio/open_memstream.c"],
 [("buffering","libsrc/stdio"),("open-mode mapping","libsrc/stdio/_detect_open_flag.c")])
p("C16","Formatted output prints exactly the prescribed characters",
 "For every format made of the supported conversions (d, u, x, X, c, s, p, %, f, with -, 0, +, width, precision, *, l, ll, z) and every argument value, the printf family produces exactly the characters C prescribes and returns their count; the bounded variants never write beyond the given size and always terminate.",
 ["inputs"],"all formats over the supported conversions and all argument values",
 "Tests print a few values per conversion; interactions of flags, width, precision, sign and extreme values are combinatorial.",
 ["libsrc/stdio/vfprintf.c","libsrc/stdio/vsnprintf.c","libsrc/stdio/printf.c","libsrc/stdio/snprintf.c"],
 [("format interpreter","libsrc/stdio/vfprintf.c")])
p("C17","String, memory and number-parsing functions meet their contracts",
 "For every argument in their domain, the string and memory functions of the C library return the prescribed result, read no byte beyond what the contract permits and write exactly the prescribed bytes. strtol and its relatives return the prescribed value and end pointer for every input string and base.",
 ["inputs"],"all argument strings, lengths, offsets, bases and overlaps",
 "The library tests cover only some functions with one or two inputs each; empty strings, zero lengths, high bytes, overlaps and range limits are not covered.",
 ["libsrc/string","libsrc/stdlib/strtol.c","libsrc/stdlib/_strtoull_sub.c","libsrc/stdlib/strtoul.c"],
 [("string functions","libsrc/string"),("integer parsing","libsrc/stdlib")])
p("C18","Sorting and searching are correct for every input",
 "For every array, element size and consistent comparison function, qsort leaves a permutation of the input in non-decreasing order and touches nothing outside the array, and bsearch returns a matching element exactly when one exists.",
 ["inputs"],"all arrays, lengths, element sizes and comparison functions",
 "Tests sort one or two arrays; duplicates, sorted/reversed input, zero or one element and odd element sizes take different paths.",
 ["libsrc/stdlib/qsort.c","libsrc/stdlib/bsearch.c"],
 [("quick sort","libsrc/stdlib/qsort.c"),("binary search","libsrc/stdlib/bsearch.c")])
p("C19","Program start-up, termination and non-local jumps follow C",
 "Arguments and environment reach the program intact and constructors run before main; functions registered at exit run exactly once in reverse order of registration when main returns or exit is called, then destructors run and buffered output is written, and the exit status is the one given. A non-local jump resumes at the matching set point with the given value (zero becoming one), in the right activation, with unmodified and volatile locals intact.",
 ["histories"],"all registration orders, exit paths and jump nestings",
 "Tests have one atexit and a few longjmp examples; orderings and exits from within handlers are not enumerated.",
 ["libsrc/crt0/_start.c","libsrc/stdlib/exit.c","libsrc/stdlib/atexit.c","libsrc/stdlib/__cxa_atexit.c","libsrc/misc/setjmp.c","libsrc/misc/longjmp.c","src/cc/backend/emit_code.c"],
 [("exit sequence","libsrc/stdlib/exit.c"),("start-up","libsrc/crt0/_start.c"),("jump buffers","libsrc/misc/longjmp.c")])
p("C20","Names resolve by C's scope, linkage and name-space rules",
 "For every program, each identifier use denotes the declaration C's rules select across nested blocks, parameters, file scope, and the separate name spaces of tags, labels, members and ordinary identifiers, with any number of identifiers. Uses with no visible declaration and conflicting redeclarations in one scope are rejected, with a non-zero exit status and no output, while valid shadowing is accepted.",
 ["programs"],"all nestings and name collisions",
 "Tests check a few shadowing and error examples; hash-table growth, many scopes and mixed name spaces are not sampled.",
 ["src/cc/frontend/var.c","src/cc/frontend/parser.c","src/cc/frontend/parser_type.c","src/cc/frontend/fe_misc.c","src/util/table.c"],
 [("scope chain","src/cc/frontend/var.c"),("hash tables","src/util/table.c")])
p("C21","The driver reports failure and never leaves a bogus output",
 "For every combination of inputs and options, the driver exits with status zero exactly when every requested output was produced, and runs the stages the option asks for on each input. If any stage fails at any point - on a source error, a missing file or a crashing tool - the driver exits non-zero, leaves no object or executable for the failed input, and always removes its temporary files.",
 ["fault_sequences","configurations"],"all option/input combinations and all stage failure points",
 "Tests run successful builds and a few single-file errors; failures of particular stages among several inputs, and leftovers on disk, are not checked.",
 ["src/xcc/main.c","src/util/util.c"],
 [("stage pipeline","src/xcc/main.c"),("temporary files","src/xcc/main.c")])
p("C22","The WebAssembly target computes the same behaviour",
 "For every program with defined behaviour, the module produced for the WebAssembly target is valid and its observable behaviour under a WASI host is the one C prescribes for that target's type sizes: expressions, control flow, calls (direct, indirect, variadic), aggregates, initializers, stack objects, memory and library output. Linking separate WebAssembly object files gives the same program as compiling the sources together.",
 ["programs","inputs"],"all programs and inputs, compiled directly or via separate objects",
 "The suite compiles some modules but never executes one, so any wrong code for this target passes it.",
 ["src/wcc/gen_wasm.c","src/wcc/traverse.c","src/wcc/emit_wasm.c","src/wcc/wasm_linker.c","src/wcc/wcc.c","src/wcc/wcc_util.c"],
 [("code generation","src/wcc/gen_wasm.c"),("module emission","src/wcc/emit_wasm.c"),("object linking","src/wcc/wasm_linker.c")])
p("C23","Compilation is deterministic and survives bootstrapping",
 "For every source file and option set, each tool's output is a function of its inputs alone: repeated runs, runs from different directories, with different environments or with unrelated files compiled in the same command give identical output. The compiler built by itself produces byte-for-byte the same output as the one built by the host compiler.",
 ["programs","configurations"],"all sources, options, environments and compiler generations",
 "The suite compares generations only on the compiler's own sources.",
 ["src/xcc/main.c","src/cc","src/cpp","src/as","src/ld"],
 [("whole tool chain","src")])
p("C24","Literals denote the value and type C prescribes",
 "For every integer, character, string and floating literal - any base, suffix, magnitude, escape sequence, adjacent-string concatenation, embedded NUL - the program sees exactly the value, type and length C prescribes. Tokens are split by the longest-match rule regardless of white space, comments and line splices.",
 ["inputs"],"all literal spellings and token sequences",
 "Tests include a few spellings; suffix/magnitude type selection, octal/hex escape limits and concatenation boundaries are combinatorial.",
 ["src/cc/frontend/lexer.c","src/cc/frontend/parser_expr.c","src/util/util.c","src/cpp/pp_parser.c"],
 [("lexer","src/cc/frontend/lexer.c")])
p("C25","Expressions and declarators have the type C prescribes",
 "For every declarator (nested pointers, arrays, functions, parentheses, typedef names, typeof) and every expression, the type used by sizeof, _Alignof, generic selection, typeof and assignment is exactly the one C prescribes, including promotions, usual arithmetic conversions, array and function decay and qualifiers. sizeof and generic selection do not evaluate their operand.",
 ["programs"],"all declarators, specifier orders and expression forms",
 "Tests cover a few declarators and generic selections; declarators and conversions nest without bound.",
 ["src/cc/frontend/parser_type.c","src/cc/frontend/parser_expr.c","src/cc/frontend/type.c","src/cc/frontend/fe_misc.c"],
 [("declarator parsing","src/cc/frontend/parser_type.c"),("type compatibility","src/cc/frontend/type.c")])
p("C26","The standard headers give constants and types the values the target has",
 "For every macro and type the standard headers provide (limits, fixed-width integers, floating characteristics, sizes, error numbers, file flags, mathematical constants, formats), its value is the one the C standard, the target's data model and the operating system's interface prescribe, and its type is the prescribed one, wherever it is used: at run time, in a static initializer and in a preprocessor condition. Fixed-width types have exactly their width and signedness, and each PRI format prints its type.",
 ["configurations","inputs"],"all macros and types of the standard headers, both targets, all contexts of use",
 "Tests include headers but never ask for more than a few of the values; several were wrong without any test noticing.",
 ["include/limits.h","include/stdint.h","include/inttypes.h","include/float.h","include/stddef.h","include/math.h","include/errno.h","include/fcntl.h","include/sys/stat.h"],
 [("header constants","include/limits.h"),("fixed-width types","include/stdint.h")])
p("C27","Mathematical functions return the prescribed values",
 "For every argument, the functions with exact results (floor, ceil, round, modf, fmod, frexp, ldexp, fabs, copysign and the classification functions) return exactly the mathematically prescribed value, sqrt the nearest one, and the others (exponential, logarithm, power, trigonometric, hyperbolic) a value close to the mathematical one, with the prescribed results for zeros, infinities, NaNs and out-of-range arguments.",
 ["inputs"],"all double arguments",
 "Tests sample a few ordinary arguments; subnormals, halves, huge values, signed zeros and special values are not among them.",
 ["libsrc/math","include/math.h"],
 [("rounding functions","libsrc/math/floor.c"),("decomposition","libsrc/math/frexp.c")])
p("C28","The system interface does what POSIX prescribes",
 "For every sequence of file and process operations (open with any flags, read, write, lseek, dup, pipe, stat, mkdir, chmod, unlink, rmdir, chdir, fork, exec, wait, temporary files, directory and base names, pseudo-random sequences), the library passes the request to the system unchanged and delivers its result, contents and error number as POSIX prescribes.",
 ["histories"],"all sequences of operations on files, descriptors, directories and processes",
 "Tests do a handful of calls, and errors, offsets shared between descriptors, and exit statuses are not among them.",
 ["libsrc/unistd","libsrc/misc","libsrc/stdlib/mkstemp.c","libsrc/stdlib/drand48.c","include/sys/stat.h"],
 [("system calls","libsrc/unistd/_syscall.h"),("file status","include/sys/stat.h")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
