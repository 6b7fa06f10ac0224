#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run it after editing; both are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), claimed=True):
    P.append(dict(
        rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                              hook_needed=None)),
        technique=technique, note=note, claimed=claimed))


C, S = 'compiler/x1algc.c', 'simulator/'
TESTS = 'The tests run a fixed list of programs, each with one expected output; '

prop('P01', 'Compiled programs print what the Algol 60 report says they print',
     'For every well-formed program within the documented language (declarations, nested blocks, assignments with type transfer, '
     'conditional and compound statements, expressions of all three types), the output and the way of ending (normal end, or a '
     'run-time error report) are those prescribed by the Algol 60 report with X1 number formats. In particular no scoping, storage '
     'allocation, precedence or evaluation-order mistake of the compiler or the run-time can change a result.',
     ['programs'], 'all well-formed programs of blocks, declarations (own ones, and ones after a procedure included), assignments, '
     'conditionals, loops and expressions',
     TESTS + 'they cannot cover the combinations of scopes, types, storage classes and nesting that a compiler has to get right.',
     [C, S + 'processor.cpp', S + 'opcodes.cpp'],
     [('single-pass translation with name list, future list and constant list', C + ': main_scan, read_until_next_delimiter, production_of_object_program'),
      ('storage reservation for static and dynamic variables', C + ': reservation_of_arrays, new_block_by_declaration'),
      ('stack machine run-time', S + 'processor.cpp: step; ' + S + 'opcodes.cpp: call_opc')],
     'property-based differential testing against a reference interpreter',
     'Random well-formed programs (grammar-based generator, scopes and types tracked) run through the real pipeline; stdout and exit '
     'status compared with an independent interpreter of the Algol 60 report using exact X1 arithmetic. Shrunk to a minimal program. The same with unused declarations and statements added, so that everything lies elsewhere in the store.',
     ['stdout, stderr and exit status of x1sim'])

prop('P02', 'Procedure calls, parameter passing and recursion follow the copy rule',
     'For every program, a procedure call behaves as the report prescribes: value parameters are evaluated once on entry with type '
     'transfer, name parameters are re-evaluated (and assigned through) in the environment of the call at each use, and arrays, labels, '
     'switches, strings and procedures may be passed and passed on. Nesting, recursion and formal procedures called from any depth always see '
     'the right instance of every non-local variable.',
     ['programs'], 'all programs with procedure declarations of every result and parameter kind, called directly, recursively and through formals',
     TESTS + 'the environment of a by-name argument is wrong only for particular combinations of static depth, dynamic depth and parameter chain.',
     [C, S + 'processor.cpp', S + 'opcodes.cpp'],
     [('formal parameter descriptors and implicit subroutines', C + ': procedure_statement, actual parameter handling; ' + S + 'processor.cpp: take_formal, arg_address, get_formal_proc'),
      ('activation frames and display', S + 'processor.cpp: frame_create, frame_release, update_display')],
     'property-based differential testing against a reference interpreter',
     'As P01, with a generator biased to procedures: all parameter kinds, Jensen-style name parameters, passing formals on, guarded recursion, '
     'function designators in all positions, exits by goto; and procedures nested up to 21 deep whose parameters refer to all levels around.',
     ['stdout, stderr and exit status of x1sim'])

prop('P03', 'Integer arithmetic is exact in 27 bits or the program stops with an error',
     'For all integer operands, +, -, ×, ÷, ↑, negation, sign, entier and the transfer from real to integer give the mathematically exact '
     'result (÷ truncating, transfers rounding to nearest), and × yields an equal or nearest real when the product exceeds the integer range. '
     'Any other result outside -67108863..67108863, a division by zero, or ÷ of a real stops the program with an error report; a wrapped value is never delivered.',
     ['inputs', 'programs'], 'all pairs of integer values, all real values transferred to integer',
     'The tests use a few small operands; overflow borders, negative zero and rounding ties are sampled once or not at all.',
     [S + 'virtual_stack.cpp', S + 'x1_arch.cpp', S + 'opcodes.cpp', S + 'processor.cpp'],
     [('integer operations with overflow detection', S + 'virtual_stack.cpp: add, subtract, multiply, exponentiate_int'),
      ('conversion with range check', S + 'x1_arch.cpp: integer_to_x1, ieee_to_integer')],
     'property-based testing against exact integer arithmetic',
     'Generated operands (uniform, borders, powers, near products of the range limit) through variables, constants, elements and formals; oracle is exact Python integer arithmetic.')

prop('P04', 'Real arithmetic is correctly rounded to 40 bits, with overflow reported',
     'For all numeric operands, +, -, × and / with a real result deliver the exact result rounded to a 40-bit significand (to within the '
     'double rounding of a 64-bit intermediate). A result beyond the largest X1 real stops the program with an error report, one below the smallest becomes zero, and division by zero is reported.',
     ['inputs', 'programs'], 'all pairs of X1 numbers, real or integer, as operands of the four operations and of the transfer integer to real',
     'The tests print results of a few decimal fractions to limited precision; rounding, cancellation, exponent borders and negative operands are not covered.',
     [S + 'x1_arch.cpp', S + 'virtual_stack.cpp'],
     [('packing and unpacking of X1 reals', S + 'x1_arch.cpp: ieee_to_x1, x1_to_ieee, x1_words_to_real'),
      ('dispatch on operand types', S + 'virtual_stack.cpp: add, subtract, multiply, divide')],
     'property-based testing against exact rational arithmetic',
     'Object programs with arbitrary bit patterns as operands run in the simulator; all 54 bits of the result are recovered by printing its scaled parts and compared with exact rational arithmetic.')

prop('P05', 'Relations and Boolean operators give the exact truth value',
     'For all numeric operands of equal or different type the six relations give the truth value of the exact mathematical comparison, also for zeros of either '
     'sign and reals that differ in the last bit. The Boolean operators follow their truth tables and nest by the precedence of the report, and conditional expressions and statements select accordingly.',
     ['inputs', 'programs'], 'all operand pairs of the six relations (int/int, int/real, real/int, real/real) and all Boolean expressions',
     'The tests compare a handful of small numbers; mixed types, negative zero, adjacent reals and deep Boolean expressions are not enumerated.',
     [S + 'virtual_stack.cpp', S + 'opcodes.cpp', C],
     [('comparison of stack cells', S + 'virtual_stack.cpp: is_less, is_equal'), ('relation and Boolean operators', S + 'opcodes.cpp: OPC_LES.. OPC_IMP'),
      ('precedence of operators', C + ': unstack of operators in main_scan')],
     'property-based testing against exact comparison and truth tables',
     'Operand pairs from an adversarial pool (adjacent values, zeros of both signs, huge, tiny, mixed types) and random Boolean expressions, evaluated by compiled programs; oracle exact rational comparison.')

prop('P06', 'The value of an operation does not depend on where its operands live',
     'For every operation and operand values, the result is the same whether an operand is a constant, a static variable, a variable of an inner block or procedure, '
     'an own variable, an array element, a value or name parameter, a function designator or a parenthesised expression. The same holds for the place where a result is stored.',
     ['inputs', 'programs'], 'all operations × operand values × storage places of operands and destination',
     'The compiler and run-time have separate code for each place (static, dynamic, formal, register operand); tests exercise few of the combinations.',
     [C, S + 'processor.cpp', S + 'opcodes.cpp'],
     [('operations with static, dynamic and formal operands', S + 'opcodes.cpp: the ..IS/..RS/..ID/..RD/..F groups; ' + S + 'processor.cpp: apply_operation'),
      ('address production', C + ': address_coder, production_transmark, addressing of names')],
     'metamorphic property-based testing (operand relocation)',
     'One operation on the same values with operands moved through all storage places; all printed results must be equal, and equal to the exact model.')

prop('P07', 'Elementary functions are accurate and report arguments outside their domain',
     'For every argument, abs, sign, sqrt, sin, cos, arctan, ln, exp and entier deliver the mathematical value rounded to 40 bits, with an error of at most 0.51 units in the last place. '
     'ln of a non-positive number, sqrt of a negative number and an exp beyond the real range stop the program with an error report.',
     ['inputs'], 'all X1 numbers of type integer or real as argument of each standard function',
     'The tests evaluate each function at a few points.',
     [S + 'opcodes.cpp'], [('standard function opcodes', S + 'opcodes.cpp: OPC_abs..OPC_entier')],
     'property-based testing against multi-precision references',
     'Arguments over the whole exponent range, borders and special points; oracle multi-precision (series on exact fractions) with a band of 0.51 ulp, plus exact oracle for abs, sign, entier.')

prop('P08', 'Exponentiation follows the rules of the report',
     'For all bases and exponents: an integer raised to a positive integer is the exact integer, any other defined power is a real equal to the mathematical power with an error of at most 0.51 + |n|/2^22 units in the last of 40 bits for an integer exponent n, 0.51 units for a real one, '
     'and x ↑ 0 is 1 of the type of x. The undefined cases (0 ↑ 0, zero to a negative power, a non-positive base with a real exponent) and results out of range stop the program with an error report.',
     ['inputs'], 'all base/exponent pairs of type integer or real',
     'The tests use few pairs; the case analysis has some ten branches by types and signs.',
     [S + 'virtual_stack.cpp'], [('case analysis of exponentiation', S + 'virtual_stack.cpp: exponentiate, exponentiate_int, exponentiate_real, power')],
     'property-based testing against exact and multi-precision powers',
     'Base and exponent pairs of both types with all sign/zero/parity classes; exact oracle for integer powers, multi-precision for reals.')

prop('P09', 'Every array element is its own variable, and wrong subscripts are reported',
     'For every array declaration (any bounds, any number of subscripts, static or dynamic, own, value parameter) the elements are distinct variables of the declared type, disjoint from everything else in the program, '
     'and keep their value until assigned. A subscript combination that denotes no element storage of the array, a wrong number of subscripts or an array that cannot exist is reported as an error.',
     ['programs', 'histories'], 'all declarations × histories of element writes and reads',
     'The tests use a few small arrays; address computations with negative or large bounds, several arrays per declaration and value arrays fail only for particular shapes.',
     [S + 'processor.cpp', S + 'opcodes.cpp', C],
     [('storage functions and indexing', S + 'opcodes.cpp: OPC_IND; ' + S + 'processor.cpp: make_storage_function_frame, make_value_array_function_frame, storage_offset'),
      ('static array declarations', C + ': constant bounds, production of storage functions')],
     'model-based (stateful) property-based testing against a map model',
     'Random declarations and histories of writes, reads, whole-array sweeps and out-of-range accesses, interpreted against a dictionary model of the elements; and declarations of arrays that cannot exist, which must be reported.')

prop('P10', 'Goto, labels and switches transfer control as the report says',
     'For every program, a goto leads to the statement with that label in the block instance that the designational expression denotes: backward, out of nested blocks and loops, out of procedures of any '
     'recursion depth, through label and switch parameters and conditional designators. After the jump the values of all variables and all further execution are those of the destination, with nothing of the abandoned activations left behind.',
     ['programs', 'histories'], 'all programs with jumps from any depth to any enclosing label or switch element',
     'The tests have few jumps; leftovers on the stack after an exit show up only in later behaviour of particular programs.',
     [C, S + 'opcodes.cpp', S + 'processor.cpp'],
     [('non-local jump', S + 'opcodes.cpp: OPC_GTA; ' + S + 'processor.cpp: roll_back'), ('label and switch declarations', C + ': label_declaration, switch handling')],
     'property-based differential testing against a reference interpreter',
     'As P01 with a generator biased to labels, switches, label parameters, backward loops and exits from recursion and from within expressions. Names declared again in many scopes, and loops that abandon large blocks until anything kept of them would exhaust the stack.')

prop('P11', 'For statements run exactly the sequence of values the report prescribes',
     'For every for list (arithmetic, step-until and while elements, in any mixture, with any controlled variable) the body runs once for each prescribed value, in order, with step and limit re-evaluated before each pass. '
     'An exhausted or empty element passes on to the next element, and nested loops and jumps out of a loop do not disturb others.',
     ['programs', 'inputs'], 'all for lists, controlled variables (simple, subscripted, by name, integer or real) and bodies',
     'The tests contain simple loops; negative and changing steps, side effects in step and limit, and mixtures of elements are not covered.',
     [C, S + 'opcodes.cpp'],
     [('for statement operators', S + 'opcodes.cpp: OPC_FOR0..OPC_FOR8'), ('for clause translation', C + ': handling of for, step, until, while, do')],
     'property-based differential testing against a reference interpreter',
     'Random for lists with counters and side effects in all positions, and programs of nested loops; passes logged by the program and compared with the reference.')

prop('P12', 'Number output shows the value in the documented layout',
     'For every value and every admissible layout, FIXT, ABSFIXT, FLOT and print write a text in the documented format whose value is the number correctly rounded to the digits shown (up to the accuracy of a 64-bit intermediate, some 18 digits). '
     'Numbers that do not fit the requested fixed layout, and layouts outside the documented limits, are dealt with as documented; no digit, sign or exponent is ever lost.',
     ['inputs'], 'all numbers × all layouts (n, m) of the three procedures, and print',
     'The tests print a few numbers in a few layouts; carries on rounding, the borders between layouts and the limits are not covered.',
     [S + 'machine.cpp', S + 'opcodes.cpp'],
     [('fixed and floating formatting', S + 'machine.cpp: print_fixed_point, print_floating_point, print_int_or_real')],
     'property-based testing against an exact decimal formatter and round trip',
     'Values with adversarial decimal expansions × layouts; oracle is exact decimal arithmetic, plus round trip through read.')

prop('P13', 'Text and character output and input are faithful',
     'For every string and character sequence, PRINTTEXT, PRSYM, SPACE, TAB and NLCR write exactly the documented characters, and RESYM delivers the documented code of every character of the input in order. '
     'A text copied symbol by symbol from input to output is unchanged up to the documented equivalences, and the end of input is reported.',
     ['inputs', 'histories'], 'all strings and input texts over the X1 symbol set, in all shift states; all mixtures of the output primitives',
     'The tests print a few fixed strings and read one input.',
     [S + 'input.cpp', S + 'encoding.cpp', S + 'machine.cpp', S + 'opcodes.cpp', C],
     [('string packing', C + ': string constants; ' + S + 'machine.cpp: print_string'), ('symbol tables', S + 'encoding.cpp: algol_putc; ' + S + 'input.cpp: input_char')],
     'round-trip property-based testing',
     'Random texts through source strings and stdin; oracle is the documented symbol table; copy programs must reproduce their input.')

prop('P14', 'Reading a number yields the value written, at the right place',
     'For every input text, read delivers the next number of the text with the value of its decimal notation rounded to X1 precision, in any of the accepted notations and with any separators, and leaves the rest for following reads. '
     'Malformed or missing numbers are reported as errors and never turned into a value; at a terminal a malformed number is refused with the rest of its line and asked for again.',
     ['inputs', 'histories'], 'all input texts: sequences of numbers in every notation and separator style, and malformed ones',
     'The tests read a few well-formed numbers.',
     [S + 'input.cpp', S + 'opcodes.cpp'],
     [('number scanner', S + 'input.cpp: input_real')],
     'property-based testing against an exact decimal parser',
     'Random number texts and separators; oracle is exact rational value of each notation rounded to 40 bits; malformed ones must not be accepted as a value.')

prop('P15', 'The spelling of the source text does not change the program',
     'Any two source texts that are the same sequence of Algol symbols give the same object program: layout, comments, the alternative spellings of operators and delimiters, and '
     'consistently renamed identifiers make no difference. Input from a file and from standard input is equivalent.',
     ['inputs', 'programs'], 'all programs × all spellings of the same symbol sequence',
     'Each test is written in one spelling.',
     [C, 'doc/algol-encoding.md'],
     [('reading and assembling of symbols', C + ': next_iso_symbol, read_next_symbol, read_utf8_symbol')],
     'metamorphic property-based testing (re-spelling)',
     'Random programs printed in two random styles; object files must be identical (renaming: equal up to names) and outputs equal.')

prop('P16', 'Numeric literals denote exactly the number written',
     'For every unsigned number in the source, in every notation of the report (integer, decimal fraction, exponent part, in any mixture), the program computes with the nearest X1 number (values within a truncation error of the 52-bit scaling, some hundredths of a unit for usual exponents, of the middle of two may go to either), integers staying exact. '
     'A literal outside the representable range is rejected at compile time, never silently altered.',
     ['inputs'], 'all unsigned numbers with any number of digits and any exponent part, in every syntactic position',
     'The tests contain a few dozen literals.',
     [C], [('number scanning and scaling', C + ': read_until_next_delimiter (decimal scaling, rounding)')],
     'property-based testing against exact decimal conversion',
     'Random literals in all syntactic positions, with shared and nearly equal constants, long digit strings, border values and exponents; all 40 bits of the value recovered by exact arithmetic in the program; oracle exact rational value. Literals outside the range must be rejected.')

prop('P17', 'The compiler accepts or rejects every text; it never crashes or miscompiles',
     'For every input text the compiler ends normally, either with an object program or with a message and a failure status: no crash, hang or memory error, also for ill-formed texts and for programs that exhaust one of its tables. '
     'A program rejected for lack of room is rejected explicitly; one that is accepted behaves as the same program within the limits would. '
     'A text that breaks off before the last end, and a program that uses an identifier where it is not declared, is refused.',
     ['inputs', 'programs'], 'all texts: random bytes, mutated programs, and well-formed programs scaled up to and beyond every table limit',
     'The tests give it correct programs of modest size.',
     [C], [('stop on errors and overflow', C + ': stop, fill_result_list, fill_name_list, fill_future_list, test_bit_stock')],
     'mutation and grammar fuzzing under sanitizers, scaled capacity testing',
     'Sanitizer build fed with random, mutated and pathological texts; well-formed programs scaled across each capacity border must either be rejected or run like the model says.')

prop('P18', 'The simulator survives every object program and input',
     'For every object file and every input the simulator ends by a normal stop or an error report, or goes on executing its instructions: it never crashes and never reads or writes outside its memory, its stack and its tables. '
     'Programs which read come to an end or to an error report at the end of their input. An object file with a line that cannot be read, without an entry address, or absent, is reported and not executed.',
     ['inputs'], 'all object files: random, mutated from compiled programs, with arbitrary words as instructions and data; all standard inputs',
     'The tests only load compiler output.',
     [S + 'machine.cpp', S + 'processor.cpp', S + 'opcodes.cpp', S + 'virtual_stack.cpp'],
     [('checked memory and stack accesses', S + 'processor.cpp, ' + S + 'virtual_stack.cpp: get, set, pop, erase; ' + S + 'machine.cpp: load_object_program')],
     'mutation fuzzing under sanitizers',
     'Sanitizer build fed with mutated object programs and generated instruction sequences; any signal, sanitizer report or missing end is a violation.')

prop('P19', 'Library routines are stored, checked and linked faithfully',
     'A routine written as a library item is stored in the object program word for word, with its relocated addresses resolved, whichever other items, in whichever order, form and number of files, are in the library, and only the routines a program uses are linked. '
     'A library with one wrong bit or with its end cut off is either rejected or gives the same object program, no damage makes the compiler crash or run on, a missing routine or one of the wrong length is rejected, and the shipped library images are what their sources generate. A program is linked with the library given with it, or else the first there is of X1ALGOL_LIB, .x1algol.lib in the home directory and the installed ones; an object program needs none.',
     ['inputs', 'configurations'], 'all library item sets and orders × programs using any subset; all single corruptions of a library file',
     'The tests link the shipped library as it is.',
     ['library/objfile.cc', C, 'library/x1algol.lib'],
     [('bit stream encoder', 'library/objfile.cc'), ('library scan, decoding and checksum', C + ': program_loader, read_binary_word, read_crf, test_bit_stock')],
     'round-trip property-based testing and fault injection',
     'Random routines encoded with objfile, linked in random orders; object words compared with an independent model of the encoding; single bit/byte/line corruptions injected.')

prop('P20', 'Tracing, file form and repetition do not change what a program does',
     'For every program, running the source directly, running its compiled object file, running it again, and running it with any trace option give the same output and the same ending. '
     'The exit status is zero exactly when the program ran to its end, and output written before an error is never lost.',
     ['programs', 'configurations'], 'all programs × {source, object} × trace options × repetitions × ways of ending',
     'Each test runs one configuration.',
     [S + 'main.cpp', S + 'machine.cpp', S + 'trace.cpp'],
     [('option handling and exit status', S + 'main.cpp: main'), ('compile and run', S + 'machine.cpp: compile_and_run, run_program'), ('tracing', S + 'trace.cpp')],
     'metamorphic property-based testing (configurations)',
     'Random programs with normal and erroneous endings run in all configurations; outputs and status must be equal.')

prop('P21', 'RANDOM, SETRANDOM, EVEN, SUM, XEEN and friends compute what is documented',
     'RANDOM delivers evenly spread numbers in [0, 1) that depend only on the last seed given to SETRANDOM (or none) and the number of calls since, wherever in the program the calls are made; different seeds give different numbers. '
     'EVEN(n) is 1 for even and -1 for odd integers, SUM(i, a, b, x) is what its documented text computes, with x evaluated for each i, XEEN(n) is the bitwise collation of n (27 ones if zero) with the console switches, '
     'which are asked for once and again after stop (at a terminal until they are well-formed), and TIMEOFDAY is the local time of day in seconds.',
     ['inputs', 'histories'], 'all arguments and seeds × histories of calls',
     'The tests call each routine once or twice.',
     ['library/random.src', 'library/setrandom.src', 'library/even.src', 'library/sum.src', S + 'opcodes.cpp', S + 'input.cpp', 'doc/library-procedures.md'],
     [('library routines', 'library/*.src'), ('console switches', S + 'input.cpp: read_console_switches; ' + S + 'opcodes.cpp: OPC_XEEN')],
     'stateful property-based testing against documented recurrences',
     'Random call histories against independent models of the documented algorithms.')

prop('P22', 'The C compiler translates like the original Pascal compiler',
     'For every well-formed program in the language both accept, the C compiler produces word for word the object program that the Pascal original produces. '
     'This holds for all declarations, statements, expressions, parameters of all kinds, constants and calls of standard procedures.',
     ['programs'], 'all well-formed programs, without passing on of formals, which the C version compiles differently on purpose, and without library routines of other lengths',
     'The tests never run the Pascal compiler next to the C one on more than the fixed examples.',
     [C, 'compiler/x1algol.pas'], [('translation of the Pascal original', C)],
     'differential property-based testing of two compilers',
     'Random programs through both compilers; object files must be equal.')

prop('P23', 'Running out of stack or depth is reported, never misexecuted',
     'A program whose recursion, nesting or storage need exceeds the machine stops with an error report at a point where everything printed so far is right; one that fits runs to its end with the right results, whatever the depth. '
     'Long runs do not accumulate storage.',
     ['programs', 'histories'], 'all depths of recursion and of by-name chains, sizes of arrays, and lengths of runs, below, at and above the limits',
     'The tests recurse to small depths and run briefly.',
     [S + 'virtual_stack.h', S + 'virtual_stack.cpp', S + 'processor.cpp'],
     [('stack limit', S + 'virtual_stack.h: SIZE_LIMIT; push, resize'), ('frame pointers in descriptors', S + 'processor.cpp: arg_address')],
     'metamorphic property-based testing over depth and size',
     'Recursive program templates with closed-form results, at random depths across the limits; result right or error with a right prefix.')


prop('P24', 'The conversion tools lose nothing',
     'from5track gives back exactly the words of a 5-track tape, whichever of its three forms each is written in, marks every word in which one bit was misread and no other, and refuses tapes with a damaged or missing head or that break off. '
     'decode.pl turns an object program into a routine source that stands for exactly its words, with those (and only those) that refer into the program relative, so that objfile accepts it and it can be loaded elsewhere; '
     'x1-disasm.py lists every word of a program, field by field. restrop.pl and underline.pl turn _word key words into letters underlined one by one and change nothing else: the program is compiled as if spelled that way from the start.',
     ['files', 'programs'], 'all tapes, single misread bits, object programs and source texts',
     'No test runs these tools at all.',
     ['library/from5track.cc', 'scripts/decode.pl', 'scripts/x1-disasm.py', 'scripts/restrop.pl', 'scripts/underline.pl', 'library/objfile.cc'],
     [('5-track forms', 'library/from5track.cc: main, parity, read_header'), ('relocation', 'scripts/decode.pl'), ('fields', 'scripts/x1-disasm.py: print_instruction')],
     'round-trip and fault-injection property-based testing of encoder/decoder pairs; metamorphic testing of source conversions',
     'An own encoder of 5-track tapes; object programs compiled from generated programs and made up; source texts spelled two ways.')

prop('P25', 'Machine instructions in object programs do what the X1 does',
     'Routines may contain machine instructions next to the standard operations. Loads of A, S and B (numbers, words, indexed words), the inverted load, additions to B, the mask and the comparison, shifts (round and clear), '
     'stores, jumps, counting jumps and the reactions Y and N on the condition have the effect described for the X1 on registers, condition and memory, for all operands and in every order.',
     ['programs'], 'all sequences of the instructions the simulator supports × all contents of registers and memory',
     'The tests run the few library routines that contain such instructions, each with one set of operands.',
     [S + 'processor.cpp', 'doc/instruction-encoding.md'],
     [('instruction decoding and execution', S + 'processor.cpp: Processor::step')],
     'model-based property-based testing against a register model',
     'Random instruction sequences with conditional jumps, simulated by a model of registers, condition and memory; all of the state is printed at the end.')


NOT_APPLICABLE = []


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['rec'], ensure_ascii=False) + '\n')
    checks, na = [], list(NOT_APPLICABLE)
    for p in P:
        i = p['rec']['id']
        if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i,
                               thorough_cmd='python3 run.py %s --tier thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=p['technique'], level='exploration',
                               level_note=p['note']))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='python3 vx/build.py', checks=checks, not_applicable=na)
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
