#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, observe=observe, technique=technique, note=note)


PROPS = [
P('C01', 'Integer expressions evaluate as C defines them',
  'For every program without undefined behaviour, an integer expression compiled by toycc yields at run time the value, size and signedness the C standard gives it on LP64 RISC-V. This covers every operator, the promotions and conversions between every pair of integer types (including _Bool, enums and bit-fields), operator precedence, and assignment, compound assignment and increment expressions whatever their operands are stored in.',
  ['programs', 'inputs'], 'all integer operators, operand types, operand values and nestings',
  'The tests assert a few hundred literal values; type pairs x operators x boundary values are not reached.',
  ['codegen.c', 'type.c', 'parser/parser.c'],
  [('usual arithmetic conversion and typing of nodes', 'type.c:add_type'), ('cast table between machine types', 'codegen.c:cast_matrix'),
   ('code for operators', 'codegen.c:gen_expr'), ('precedence climbing', 'parser/parser.c')],
  ['trace of values recorded by the compiled program'],
  'runtime trace monitoring of compiled programs against an executable C arithmetic model',
  'Every operator x type pair is executed with boundary values plus random nested expressions; sampling over values. Trusts the model, confirmed by gcc on any disagreement.'),
P('C02', 'Floating-point arithmetic and conversions are exact IEEE results',
  'For every program, arithmetic, comparison, conversion, negation and boolean use of float, double and long double values compiled by toycc give the correctly rounded IEEE 754 binary32/64/128 result, NaN, infinities, signed zeros and subnormals included. Floating constants are rounded once to their type, and conversions to and from every integer type in range give the value C defines.',
  ['programs', 'inputs'], 'all floating operators, type pairs, values, literals and contexts',
  'Tests compare a handful of small exact values; rounding, long double and special values are not reached.',
  ['codegen.c', 'type.c', 'tokenize.c', 'utils.c'],
  [('cast table and float operators', 'codegen.c'), ('literal reading', 'tokenize.c'), ('binary128 images of constants', 'utils.c')],
  ['bit patterns recorded by the compiled program'],
  'runtime trace monitoring against an exact rational IEEE model',
  'Bit-exact comparison over all operators x type pairs with special and random values. Long double literals limited to 64 significant bits (host format).'),
P('C03', 'Constant expressions have their run-time value in every context',
  'A constant expression evaluated by the compiler, wherever C requires or allows one (static initializers, enumerators, case labels and ranges, array bounds, bit-field widths, designators, alignments, preprocessor conditions, address constants), has exactly the value the same expression has at run time; in preprocessor conditions all integers are intmax_t/uintmax_t.',
  ['programs'], 'all constant expressions in all constant contexts',
  'Tests contain a few constant expressions; evaluator and generated code are separate implementations that only agree by accident on unsampled operators, widths and types.',
  ['parser/common.c', 'parser/declarator.c', 'parser/initializer.c', 'preprocessor/preprocess.c'],
  [('constant evaluator', 'parser/common.c:eval2'), ('#if evaluation', 'preprocessor/preprocess.c:eval_const_expr'), ('array bounds', 'parser/declarator.c:is_const_expr')],
  ['values recorded by the compiled program'],
  'runtime trace monitoring against an executable constant-expression model',
  'Random constant expressions in 15 contexts plus #if and address constants. Long double constants compared only when exact in double.'),
P('C04', 'Control flow and side effects happen in the order C prescribes',
  'For every program whose behaviour C fully specifies, the sequence of observable side effects of the compiled program (calls, their arguments, stores) is the one of the abstract machine: if, loops, switch with fall-through, ranges and default, break, continue, goto, computed goto, conditional and short-circuit operators, comma and statement expressions, calls, recursion and returns each execute exactly the statements they should, once each and in order.',
  ['programs', 'histories'], 'all well-defined combinations and nestings of statements',
  'Tests run each statement form in one or two shapes; interactions of nesting, labels and jumps are unsampled.',
  ['codegen.c', 'parser/parser.c'],
  [('statement code and labels', 'codegen.c:gen_stmt'), ('statement parsing, label resolution', 'parser/parser.c')],
  ['event trace of the compiled program'],
  'runtime trace monitoring: event traces of random programs against reference traces',
  'Random structured and unstructured programs; the reference trace comes from riscv gcc at two optimisation levels which must agree.'),
P('C05', 'Size, alignment and layout of every type follow the RISC-V psABI',
  'For every type that can be declared, sizeof, _Alignof, member offsets, array strides and the bit position of every bit-field are those of the RISC-V LP64D psABI (as implemented by the platform compiler), including packed, aligned, anonymous, nested and flexible-array members and zero-width bit-fields. Declarator syntax of any nesting denotes the type C gives it, and the predefined macros and the constants of limits.h, stdint.h, stddef.h and float.h describe the types truthfully.',
  ['programs'], 'all struct, union, array, bit-field and declarator combinations',
  'Tests check some 50 fixed layouts; combinations of bit-fields, packing and alignment are unsampled.',
  ['parser/declarator.c', 'type.c'],
  [('struct and union layout', 'parser/declarator.c:struct_decl'), ('type sizes', 'type.c')],
  ['sizes, offsets and memory images recorded by the compiled program'],
  'runtime monitoring of layout and memory images, differential against the platform compiler',
  'Random type declarations; memory image of each bit-field written alone. Trusts riscv gcc as the ABI reference.'),
P('C06', 'Calls follow the RISC-V calling convention with other compilers',
  'Any function compiled by toycc can call, and be called by, code from another RISC-V LP64D compiler: every argument and result (integers, floats, long double, structs and unions of any size, variadic arguments, arguments beyond the registers, calls nested in arguments, calls through pointers) arrives intact. Callee-saved registers and the stack pointer are preserved across calls, and the stack is 16-byte aligned at calls in functions that do not allocate stack dynamically.',
  ['programs', 'configurations'], 'all signatures and both directions of the toycc/other-compiler boundary',
  'Tests call a fixed set of library functions; signatures, register exhaustion and struct classification are unsampled.',
  ['codegen.c', 'include/stdarg.h', 'parser/parser.c'],
  [('argument classification and passing', 'codegen.c'), ('variadic access', 'include/stdarg.h'), ('prologue and epilogue', 'codegen.c:emit_text')],
  ['argument values, register files and stack pointer at the boundary'],
  'runtime boundary monitors (argument values, saved registers, stack pointer) on mixed-compiler executables',
  'Random signatures in all caller/callee combinations of toycc and gcc; callee-saved registers are poisoned and checked by an assembly shim.'),
P('C07', 'Initializers give every object exactly the specified contents',
  'For every declaration with an initializer (brace elision, designators, ranges, nested aggregates, unions, bit-fields, strings, flexible and unspecified-length arrays, compound literals), the object holds after initialization exactly the value C specifies in every member and element, zero where nothing is specified, and has the size its initializer implies; automatic and static objects agree.',
  ['programs'], 'all aggregate types and initializer shapes',
  'Tests assert fixed initializers; the initializer grammar has unbounded nesting and two separate back ends.',
  ['parser/initializer.c', 'codegen.c'],
  [('initializer parsing', 'parser/initializer.c'), ('static data emission', 'codegen.c:emit_data')],
  ['object contents recorded at run time'],
  'runtime monitoring of object contents, differential against the platform compiler',
  'Random types with random initializers, automatic, static and compound-literal variants; reference gcc.'),
P('C08', 'Stores change exactly the designated object and nothing else',
  'For every sequence of assignments, compound assignments, increments, struct copies and bit-field stores through any kind of lvalue (variables, members at any offset, elements, dereferences, unions, volatile and static objects, pointers to any of them), each store changes exactly the bits of its object to the converted value and no other byte of memory; pointer arithmetic scales by the pointed-to size.',
  ['programs', 'histories'], 'all store histories over all object shapes, including frames and objects beyond 2 KiB',
  'Tests read back the stored member; neighbouring bytes, large offsets and long histories are not observed.',
  ['codegen.c', 'parser/parser.c', 'type.c'],
  [('address generation', 'codegen.c:gen_addr'), ('stores and bit-field merging', 'codegen.c'), ('pointer arithmetic', 'parser/parser.c')],
  ['memory dumps of the whole arena after every step'],
  'runtime memory-image monitoring with guard bytes after every store',
  'Random store histories with full dumps of guarded arenas; reference gcc.'),
P('C09', 'Preprocessing yields the token sequence of the C standard',
  'For every source text and set of files, the preprocessor output has the token sequence C11 (with __VA_OPT__, GNU named variadics, #include_next and #pragma once) prescribes: macro replacement with hide sets, argument prescan, # and ##, variadics, redefinition and #undef, conditionals, file inclusion and search order, #line, __FILE__, __LINE__, __COUNTER__ and the other predefined macros, and command-line -D, -U, -I, -idirafter and -include. Output of -E compiles to the same program as its source. Left open: `, ## __VA_ARGS__` with empty but present arguments, and white space inside stringized expansions.',
  ['programs', 'configurations'], 'all macro definitions, uses, directives and include trees',
  'Tests fix about a hundred expansions; nesting, rescanning and argument interplay are unbounded.',
  ['preprocessor/preprocess.c', 'preprocessor/predefined_macro.c', 'main.c'],
  [('macro expansion with hide sets', 'preprocessor/preprocess.c:expand_macro'), ('conditional stack', 'preprocessor/preprocess.c:preprocess2'), ('include search', 'preprocessor/preprocess.c')],
  ['token stream printed by -E'],
  'output-trace monitoring: token streams of random macro programs against the reference preprocessor',
  'Random macro programs and include trees; reference is gcc -E, tokens compared.'),
P('C10', 'Literals and source text are read as C11 defines',
  'For every spelling, integer, floating, character and string literals (all prefixes, escapes, universal character names, UTF-8 text, concatenation) denote the value, type, encoding and length C11 gives them, and the division of text into tokens is unaffected by line splices, comments, CRLF or BOM and follows the longest-match rule.',
  ['inputs'], 'all literal spellings and source encodings',
  'Tests spell out some hundred literals; the space of spellings, encodings and splice positions is unbounded.',
  ['tokenize.c', 'unicode.c', 'preprocessor/preprocess.c'],
  [('tokenizer', 'tokenize.c'), ('UTF-8 coding', 'unicode.c'), ('string concatenation', 'preprocessor/preprocess.c')],
  ['bytes and types recorded by the compiled program'],
  'runtime trace monitoring of literal values, types and bytes: differential against the platform compiler, metamorphic over source layout',
  'Random spellings in all prefixes compared with gcc; random layouts (splices, comments, CRLF, BOM) of one program must compile identically; identifier characters against C11 Annex D.'),
P('C11', 'The compiler never crashes, hangs or corrupts memory on any input',
  'For every input file, valid or not, the compiler terminates with status 0, or with status 1 and a diagnostic on standard error; it never performs an invalid memory access or other undefined behaviour, never dies from a signal, never loops forever, and its time and memory do not explode with the depth of nested constructs. (Within resource limits: nesting up to 300 levels and 1.5 GB of memory.)',
  ['inputs'], 'all byte sequences as source text',
  'Tests only feed valid programs to an uninstrumented build.',
  ['tokenize.c', 'preprocessor/preprocess.c', 'parser/parser.c', 'parser/declarator.c', 'parser/initializer.c', 'codegen.c', 'utils.c', 'type.c', 'unicode.c', 'hashmap.c', 'string.c'],
  [('bounds and error checks throughout', 'all sources')],
  ['sanitizer reports, exit status, standard error'],
  'AddressSanitizer and UndefinedBehaviorSanitizer builds under mutated, truncated and generated hostile inputs',
  'Mutation of the whole test corpus plus grammar-based hostile inputs; sanitizer reports are fatal.'),
P('C12', 'Output depends only on the input and the options',
  'Compiling the same text with the same options gives byte-identical assembly, preprocessed text and dependencies (apart from __DATE__, __TIME__ and __TIMESTAMP__) whatever the contents of recycled heap and stack memory, the environment, the working directory, address-space layout, the output destination and concurrent compilations; no decision depends on uninitialized memory.',
  ['programs', 'configurations', 'schedules'], 'all inputs, under all environments',
  'Tests compile once in one environment.',
  ['main.c', 'codegen.c', 'preprocessor/preprocess.c', 'hashmap.c'],
  [('no address-dependent iteration', 'hashmap.c'), ('fixed temporary-file naming kept out of output', 'main.c')],
  ['assembly bytes, valgrind and MemorySanitizer reports'],
  'perturbation monitoring (heap poisoning, ASLR, environment, concurrency) plus uninitialized-memory detectors',
  'Each input compiled under several perturbations and compared; valgrind memcheck watches uninitialized decisions.'),
P('C13', 'The driver reports every failure and cleans up after itself',
  'For every command line and failure of any stage (invalid source, missing or unreadable file, a bad option, a compiler, assembler or linker that fails, crashes or cannot be started, output that cannot be written), toycc exits non-zero; it exits zero exactly if every requested output was completely produced. An input that fails leaves no output and is not linked, temporary files are removed whatever happens, inputs are never modified, and outputs go exactly where the options say (-o, -c, -S, -E, -M, several inputs of every kind, standard input and output), whatever else runs in the same directory. Signals sent to the driver itself are not covered.',
  ['fault_sequences', 'configurations', 'crash_points'], 'all option combinations with a fault injected at every stage',
  'Tests run successful command lines only.',
  ['main.c'],
  [('subprocess status handling', 'main.c:run_subprocess'), ('temporary-file cleanup', 'main.c:cleanup'), ('output naming', 'main.c:replace_extn')],
  ['exit status, files created, changed and left behind'],
  'fault injection at every stage (stand-in assembler and linker, preloaded library, resource limits) with a file-system, call-log and exit-status monitor',
  'Enumerates modes x kinds of inputs x stage instance x fault, then random command lines, histories of commands and concurrent commands; a driver model predicts status and files. Everything is confined to scratch directories.'),
P('C14', 'The symbol table behaves as a map under every operation history',
  'For every sequence of insertions, overwrites, deletions and lookups with arbitrary byte-string keys, the hash table used for macros, keywords and scopes answers exactly as an abstract map: the last value stored under a key, nothing for a deleted or absent key, at any load and across any number of growths.',
  ['histories'], 'all operation histories and key sets',
  'The built-in self test performs one fixed history without interleaved deletion and overwriting at collision chains.',
  ['hashmap.c', 'hashmap.h'],
  [('open addressing with tombstones', 'hashmap.c')],
  ['results of every operation against a shadow map'],
  'sanitized stress of the real hash table with an online shadow-map oracle',
  'Millions of operations in colliding, tombstone-heavy and growing workloads under ASan/UBSan.'),
P('C15', 'The self-compiled compiler behaves like the host-compiled one',
  'toycc compiled by toycc itself, run on the target, produces byte-identical output and the same status and diagnostics as the host-built toycc for every input (which of two unordered operands is diagnosed first is left open).',
  ['programs'], 'all inputs to both compilers',
  'The self-host tests run the same small test programs once; they do not compare the two compilers\' outputs.',
  ['codegen.c', 'parser/parser.c', 'tokenize.c', 'preprocessor/preprocess.c', 'main.c'],
  [('whole compiler, compiled by itself', 'all sources')],
  ['assembly and diagnostics of both stages'],
  'differential runtime monitoring of two stages of the compiler on one workload',
  'Bootstraps from the working tree and compares assembly on the corpus and on generated programs. Long double constants not exact in 64 bits are excluded (host format).'),
P('C16', 'Dependency output names exactly the files that were read',
  'With -M, -MD, -MMD, -MF, -MT, -MQ and -MP, the dependency rule lists exactly the source, first, and every header read during preprocessing, once each (-MMD: without those of the standard include directories), with the target and in the file the options request, quoted so that make reads the same names, with a phony target per header under -MP; compilation output is unaffected.',
  ['configurations', 'programs'], 'all include trees and dependency options',
  'Tests check fixed strings for one or two headers.',
  ['main.c', 'preprocessor/preprocess.c'],
  [('dependency printing', 'main.c:print_dependencies'), ('record of opened files', 'tokenize.c')],
  ['files opened (recorded in the process) and the rule printed'],
  'offline checking of the dependency rule, as GNU make reads it, against the log of files actually opened',
  'Random include trees and option sets; the oracle is the record of successful opens made by a preloaded library, and GNU make parses the rule.'),
P('C17', 'Atomics are atomic and thread-local objects are private to threads',
  'Under every interleaving, atomic exchange, compare-and-swap, the stdatomic.h operations and read-modify-write operators (op=, ++, --) on _Atomic integers, floats and pointers of 1, 2, 4 and 8 bytes, members and elements included, act indivisibly, yield the specified old or new value, touch no neighbouring byte and are observed in one order by all threads. _Thread_local objects (initialized, zero, extern, static, at block scope; with and without -fpic; in executables and shared libraries; shared with other compilers) have one independent, aligned, correctly initialized instance per thread.',
  ['schedules', 'programs'], 'all interleavings of threads over all operand types',
  'The test runs one loop of additions with two threads on int.',
  ['codegen.c', 'parser/parser.c', 'include/stdatomic.h', 'type.c'],
  [('lr/sc and amo sequences', 'codegen.c'), ('read-modify-write lowering', 'parser/parser.c:to_assign'), ('TLS addressing', 'codegen.c:gen_addr')],
  ['per-thread histories and final memory'],
  'multithreaded stress with conservation, uniqueness, exclusion, isolation and ordering checkers over recorded results; trace differential without contention',
  'Up to 8 threads race under qemu on 13 types x 24 operations; oracles are conservation of sums, uniqueness of tickets, own-bit and neighbour isolation, mutual exclusion, store-buffering litmus.'),
P('C18', 'Variable-length arrays and alloca give live, disjoint, correctly sized memory',
  'For every program using variable-length arrays (any dimensions, parameters, pointers to and typedefs of them, sizeof) or alloca, each object has the size its run-time bounds imply, does not overlap any other live object or temporary, keeps its contents until its lifetime ends, and indexing and pointer arithmetic use the run-time strides.',
  ['programs', 'histories'], 'all bounds, nestings and interleavings with calls and temporaries',
  'Tests use a few fixed bounds.',
  ['codegen.c', 'parser/parser.c', 'parser/declarator.c'],
  [('stack adjustment and temporary relocation', 'codegen.c:builtin_alloca'), ('run-time sizes', 'parser/parser.c:compute_vla_size')],
  ['sizes, address ranges and contents recorded at run time'],
  'runtime monitoring of allocation ranges and contents against an interval and shadow-content oracle',
  'Random allocation histories with overlap and content checks.'),
P('C19', 'Invalid programs are rejected, and reported at the right place',
  'Every program that violates a rule toycc checks (syntax; undeclared names, members and labels; wrong argument counts; invalid operand types and lvalues; incomplete types; misplaced break, continue, case and default; constant expressions that are not constant; redefined tags and functions; invalid designators, bit-fields, directives and literals) is rejected with status 1, no output, and a first diagnostic that names the file and line of the offending token, through inclusion and macros and as presented by #line; its valid counterpart is accepted. __LINE__ and the debug line records of the output give the true file and line of every construct.',
  ['programs', 'inputs'], 'all positions of all violations in all source layouts',
  'The tests never feed an invalid program.',
  ['utils.c', 'tokenize.c', 'preprocessor/preprocess.c', 'parser/parser.c', 'parser/declarator.c', 'codegen.c'],
  [('diagnostics with location', 'utils.c:verror_at'), ('line numbering', 'tokenize.c'), ('.loc records', 'codegen.c')],
  ['exit status, diagnostics, recorded lines'],
  'planted-error injection at known positions with a diagnostic-location monitor',
  'A catalogue of violations is planted at random places of random layouts; the expected line is known by construction.'),
P('C20', 'Scopes, storage duration and linkage behave as C defines',
  'Every use of an identifier refers to the declaration visible at that point (block, parameter, tag, label, typedef and file scopes, shadowing), static objects keep their value and are distinct per declaration, tentative definitions merge, and static, extern, inline, common and position-independent symbols link with other translation units and with objects of other compilers exactly as their declarations say.',
  ['programs', 'configurations'], 'all declaration and scope structures over several translation units and code-generation options',
  'Tests check a few fixed declarations in one or two files.',
  ['parser/scope.c', 'parser/parser.c', 'parser/declarator.c', 'codegen.c', 'main.c'],
  [('scope chain', 'parser/scope.c'), ('tentative definition merging', 'parser/parser.c:scan_globals'), ('symbol emission', 'codegen.c')],
  ['values recorded by multi-unit programs, symbol tables'],
  'runtime trace monitoring of multi-unit programs against a scope model and the reference compiler',
  'Random scope nests with a resolver model and random multi-file programs linked with gcc objects under -fcommon/-fno-common/-fpic/-fno-pic.'),
]

NA_REASON = 'check under construction'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in PROPS:
        c = 'checks/%s.py' % p['id']
        if os.path.exists(os.path.join(V, c)):
            checks.append({'property': p['id'], 'quick_cmd': 'python3 %s quick' % c,
                           'thorough_cmd': 'python3 %s thorough' % c,
                           'technique': p['technique'],
                           'level': 'fault_enumeration' if p['id'] == 'C13' else 'exploration',
                           'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': NA_REASON})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
