#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='proof', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, na=na))


ENC = 'abstract interpretation of the handlers\' LLVM IR over symbolic operand values, compared with a reference opcode map'
ENCN = ('every path of every handler, for every operand value in the 16-bit range, per operand shape; trusts the reference table in '
        'lib/isa.py, clang\'s IR and the abstract domain; operand shapes are a fixed list, symbol lookup and emission are summaries')
prop('C01', '6800/6801/6803 instructions assemble to the manufacturer\'s encoding',
     'For every 6800, 6801 and 6803 instruction and every operand, the bytes placed in the code are the opcode of the addressing mode '
     'written and the operand bytes, high byte first. An operand that fits one byte uses the direct mode where the instruction has one and '
     'is not a forward reference; combinations the processor does not have are errors.',
     ['inputs'], 'all instructions x operand shapes x operand values -32768..65535 x location counters',
     'the opcode tests compare one listing per CPU with a few operand values; the mode boundary and the rejected combinations are not in them',
     ['src/cpu6800.c', 'src/scode.c', 'src/parse.c'],
     [('mnemonic table with packed opcode and flags', 'src/cpu6800.c'), ('addressing mode recognition', 'src/cpu6800.c findmode, standard')],
     ENC, ENCN)
prop('C02', '6500/6502/65C02 instructions assemble to the manufacturer\'s encoding',
     'For every 6500, 6502 and 65C02 instruction and every operand, the bytes placed in the code are the opcode of the addressing mode '
     'written and the operand bytes, low byte first. Operands that fit one byte use the zero page mode where it exists and they are not '
     'forward references; combinations the selected processor does not have are errors.',
     ['inputs'], 'all instructions x operand shapes x operand values -32768..65535',
     'there is no opcode test for the 6502 at all and the 65C02 one has single operand values; rejected combinations are not tested',
     ['src/cpu6502.c', 'src/scode.c', 'src/parse.c'],
     [('opcode base and offset tables', 'src/cpu6502.c offsettable'), ('addressing mode selection', 'src/cpu6502.c standard')],
     ENC, ENCN)
prop('C03', 'Z80 instructions assemble to the manufacturer\'s encoding',
     'For every Z80 instruction and every combination of operands, the bytes placed in the code are the documented encoding, with the index '
     'prefix, displacement and operand bytes in their places. Combinations the processor does not have are errors.',
     ['inputs'], 'all instructions x 40 operand tokens for each position x operand values -32768..65535',
     'the opcode test lists one spelling per instruction; invalid pairs of operands and value boundaries are not in it',
     ['src/cpuz80.c', 'src/scode.c', 'src/parse.c'],
     [('register recognition', 'src/cpuz80.c getreg'), ('code output with prefixes', 'src/cpuz80.c outcode')],
     ENC, ENCN + '; one known finding (cpdr)')
prop('C04', 'Relative branches reach exactly their target or are rejected',
     'A relative branch to an address within -128..127 of the following instruction is encoded with exactly that distance. '
     'Any other target is reported as an error, for every branch instruction of every processor.',
     ['inputs'], 'every branch instruction x every pair of target and location in the 16-bit space',
     'tests contain a handful of distances, none at the limits',
     ['src/cpu6800.c', 'src/cpu6502.c', 'src/cpuz80.c'],
     [('displacement computation and range test', 'branch in cpu6800.c and cpu6502.c, relbranch in cpuz80.c')],
     ENC, ENCN)
prop('C05', 'Operands that do not fit their field are diagnosed, fitting ones are not',
     'When a value is stored in a byte, word or index displacement field that cannot hold it, a warning or error is given for that line. '
     'When it fits, no diagnostic is given.',
     ['inputs'], 'all instructions and data directives x all operand values',
     'the stable tests compare the code file only and their operands all fit',
     ['src/cpu6800.c', 'src/cpu6502.c', 'src/cpuz80.c', 'src/pseudos.c'],
     [('operand overflow tests', 'standard in cpu6800.c and cpu6502.c, outcode in cpuz80.c, stocke in pseudos.c')],
     'abstract interpretation over IR: reachability of the diagnostic per value partition', ENCN)
NEST = ('all traces of line outcomes (plain, error, include, if, else, call, end marks, end of file) up to a bounded number of lines and '
        'nesting depth, with the real block readers run from their IR and judged against a reference model')
prop('C06', 'Data directives place exactly the bytes they describe',
     'DB, DW, DDB and DL place each listed value in order with the width and byte order documented for the selected processor, and DS places '
     'its count of the fill byte. ASC places the characters of its string with the documented escapes, and ALIGN at most one null byte, only when the '
     'parity of the location requires it.',
     ['inputs'], 'all operand values; all characters and escapes; counts from the boundary partition; both parities',
     'tests use short lists with small values and no string escapes beyond one',
     ['src/pseudos.c', 'src/scode.c'],
     [('data handlers', 'src/pseudos.c Xdc stocke Xds Xasc Xalign'), ('multi byte insertion', 'src/scode.c insert16 insert32')],
     'abstract interpretation of the directive handlers\' IR against a reference layout',
     'values fully symbolic; characters enumerated completely one at a time; DS counts by boundary partition (0..3, 16, 17, 255, 256, 300, 70000)')
prop('C07', 'Every record of the code file is well formed',
     'Each S-record or Intel hex record in the code file has a byte count, address and checksum that agree with its data, holds at most 16 '
     'data bytes, and its address type can hold the address. Intel hex files announce the upper address bits whenever they change and both '
     'formats end with exactly one terminator record.',
     ['inputs'], 'record lengths 1..16 x all start addresses x all data bytes x previous extended address',
     'tests only have 16-bit addresses and a few dozen records in each format',
     ['src/scode.c'],
     [('record writer', 'src/scode.c flushscoderaw scodebyte'), ('terminators', 'src/scode.c closescodefile')],
     'abstract interpretation of the record writer with symbolic bytes and addresses; checksum as a linear-sum identity',
     'complete for record lengths 1..16; trusts stdio')
prop('C08', 'Every byte is recorded at its own location',
     'Every byte placed by the program appears in the code file exactly once, in order, at the value of the location counter at which it '
     'was placed, whatever sequence of origins, segments and lengths precedes it. Bytes of DUMMY sections advance the location and appear nowhere.',
     ['histories', 'inputs'], 'all states of the record buffer x all location counters (inductive step), then finalisation',
     'tests never move the origin while a record is open or switch sections mid-record',
     ['src/scode.c', 'src/crasm.c'],
     [('byte insertion', 'src/scode.c insert8'), ('location changes', 'src/scode.c setpc, src/crasm.c asmline')],
     'inductive invariant over the record buffer, each step decided by abstract interpretation of the IR',
     'invariant: buffered bytes are contiguous up to the location; preserved by every operation from every state satisfying it')
prop('C09', 'Both passes give every statement the same length',
     'A statement occupies the same number of bytes in the first and the second pass, including when its operand is a forward reference or '
     'when it is in error in the first pass. Label values fixed in the first pass are therefore the addresses of the second.',
     ['inputs', 'histories'], 'all instructions and operand shapes x undefined/forward/defined operands x all values',
     'tests have very few forward references and none near a size boundary',
     ['src/cpu6800.c', 'src/cpu6502.c', 'src/cpuz80.c', 'src/pseudos.c', 'src/operator.c'],
     [('forward flag forces the long form', 'standard in cpu6800.c and cpu6502.c'), ('flag propagation', 'src/operator.c, src/parse.c')],
     'abstract interpretation of each handler in both passes; comparison of emission counts on all path ends', ENCN)
prop('C10', 'Undefined, redefined and inconsistent symbols are errors',
     'A program in which a used symbol is never defined, in which a label, keyword or macro is defined twice, or in which a label used before '
     'its definition gets different values in the two passes, does not assemble without an error. Symbols assigned by EQU may be redefined '
     'unless they are used before their definition.',
     ['inputs', 'histories'], 'all symbol states x definition kinds x passes',
     'no stable test contains a symbol error',
     ['src/label.c', 'src/parse.c', 'src/crasm.c'],
     [('definition rules', 'src/label.c deflabel'), ('undefined reference', 'src/parse.c, src/operator.c cstlabel')],
     'abstract interpretation of the definition and lookup routines over all symbol states', 'the name search itself is a summary')
prop('C11', 'A run with errors leaves no code file',
     'After a run in which any error was counted, no code file is left under the requested name, and a run with no errors that places code leaves a completely written one. '
     'A failed write or close of the code file is reported as an error.',
     ['inputs', 'fault_sequences'], 'all combinations of error count, code options and stream failures at the end of a run that ends normally',
     'every stable test assembles without errors on a working disk',
     ['src/crasm.c', 'src/scode.c', 'src/xref.c'],
     [('end of run', 'src/crasm.c crasm'), ('closing', 'src/scode.c closescodefile')],
     'abstract interpretation of the run driver with summaries for the passes and for stdio outcomes',
     'runs that abort through a fatal error are outside the statement', level='proof')
prop('C12', 'An erroneous line is reported once and assembly continues after it',
     'Each line that is in error in the second pass adds one to the error count and produces one message carrying its line number, and '
     'assembly goes on with the next line at the location that follows whatever the line had placed. No error leaves the '
     'assembler returning to a line that has already ended.',
     ['inputs', 'histories'], 'all exits of the line assembler and of nested block readers',
     'stable tests contain no errors',
     ['src/crasm.c', 'src/macro.c'],
     [('recovery point', 'src/crasm.c pass, asmline'), ('message', 'src/crasm.c error')],
     'typestate of the recovery point over all call paths, and abstract interpretation of the line loop', NEST + '; the message itself for every pass and flag state')
prop('C13', 'Unselected conditional lines have no effect',
     'Lines in the part of a conditional that is not selected define no symbol, place no byte, move no location and read no file, at '
     'any nesting depth. Every IF is closed by its own ENDC and an unselected block contains its nested blocks entirely.',
     ['inputs', 'histories'], 'all line kinds in skip mode x nesting shapes',
     'tests have two small conditionals',
     ['src/crasm.c', 'src/macro.c'],
     [('execute status', 'src/crasm.c asmline'), ('block walk', 'src/macro.c Xif Xelse Xendc')],
     'effect analysis of the line assembler in skip mode and abstract interpretation of the block reader', NEST + '; the line assembler in skip mode is decided for every line shape')
prop('C14', 'Conditions select the branch their comparison says',
     'IF selects its first part exactly when the comparison written between its operands holds for their values, or when a single operand is '
     'not zero, and otherwise the part after ELSE. Values of different kinds are never equal and cannot be ordered.',
     ['inputs'], 'all operand values and kinds x all comparison operators',
     'tests use two of the operators with one pair of values each',
     ['src/macro.c'],
     [('comparison table and evaluation', 'src/macro.c compar, testtrue')],
     'abstract interpretation of the condition evaluator over symbolic operands',
     'IF with every comparison spelled with and without blanks, over symbolic 64-bit operands of every kind: on each path the branch taken is the one the '
     'documented relation of the two values says (relational facts decide every ordering); text that is no condition is an error')
prop('C15', 'Macro calls expand their own text with their own arguments',
     'A macro call assembles the lines of its definition with each parameter mark replaced by the corresponding argument of that call, and '
     'local labels of one expansion are not visible in another. Source position, arguments and scope of the caller are as before when the call returns, on normal '
     'and early exit.',
     ['inputs', 'histories'], 'all parameter marks x argument lists; all exits of the expansion; nesting',
     'the macro tests have one level and few arguments',
     ['src/macro.c'],
     [('call', 'src/macro.c macrocall'), ('substitution', 'src/macro.c linegets')],
     'abstract interpretation of the expansion reader; save/restore pairing on all paths of the call', NEST + '; argument texts are opaque pieces of symbolic length at and around the limits')
prop('C16', 'Included files and macros nest and return to the next line',
     'After an included file or a macro ends, reading continues with the line after the directive in the file that contains it, and no '
     'line is lost or read twice, whether or not the last line is terminated. The nesting limit is enforced with a diagnostic.',
     ['inputs', 'histories'], 'all exits of nested readers x nesting levels',
     'one include test with a terminated file',
     ['src/macro.c', 'src/crasm.c'],
     [('source stack', 'src/macro.c source, linegets, Xinclude'), ('line loop', 'src/crasm.c pass')],
     'typestate of the source stack on all paths of the nested readers', NEST + '; line lengths are taken at and around the buffer limit')
prop('C17', 'Listing options never change the code',
     'The symbols and bytes produced by a program do not depend on any listing option or listing directive: list on or off, '
     'page size, title, skips, and the cross reference. A listing directive adds at most diagnostics about itself.',
     ['configurations', 'inputs'], 'all assignments of the listing options and directives',
     'tests run with one set of options; non-interference needs pairs of runs',
     ['src/output.c', 'src/xref.c', 'src/pseudos.c', 'src/crasm.c'],
     [('listing state is written and read by the listing part only', 'src/output.c')],
     'interprocedural information flow (taint) analysis on the IR with control dependence',
     'inclusion-based points-to, bit masks, control dependence and call contexts; the marks start at the listing settings, the bits of the driver argument the listing '
     'options decide and whatever a listing directive writes; none may reach a file operation other than the listing, a jump to the recovery point, the end of the run, '
     'a symbol or a counter; the listing uses its own copy of the splitter space (that pieces do not depend on the free space is part of C24)', level='proof')
prop('C18', 'No input makes the assembler write outside its buffers',
     'For every source text and option, every write of the assembler into an array (titles, listing lines and cross reference columns, messages, symbol '
     'names and symbol blocks, saved macro lines, macro arguments and expanded lines, code records, pieces of operands, the stack of nested sources) stays '
     'inside that array; what does not fit is cut, continued on another line, or refused with a diagnostic.',
     ['inputs'], 'all write sites; lengths, counts and positions around every limit',
     'tests have short lines, names and messages, and a write just outside an array goes unnoticed',
     ['src/filter.c', 'src/output.c', 'src/crasm.c', 'src/label.c', 'src/macro.c', 'src/scode.c', 'src/xref.c'],
     [('bounds tests', 'src/filter.c bufferroom, src/output.c outputcar, src/macro.c linegets, Xinclude, macrocall'), ('limits', 'LABLEN, LABELARRAYSIZE, MAXSOURCEDEEP, MAXARGLEN')],
     'bounds analysis: every store of the IR is a fixed place checked against its object, or is reached by abstract interpretation from the boundary states of its callers',
     'stores at fixed places: complete. Stores that move along an array: the functions that hold them are interpreted with unknown characters and values on a partition of '
     'lengths, counts and positions around each limit (every text length up to the longest line where cheap), and every store and library writer is checked against the object '
     'it is in; the evidence lists the store sites reached and not reached. Not bounded: depth of recursion on the machine stack; pointers into a structure are taken to point to a whole one.',
     level='other')
prop('C19', 'Assembly of a finite source always terminates',
     'For every finite source and option the assembler comes to its end: each loop counts towards a bound, walks a text, table or list up to its end mark, or reads '
     'input and stops when that ends (a block left open at the end of the source is reported, not read for ever); each recursion goes down a structure, takes a '
     'smaller piece of a text, reads a line, or is stopped by the limit on nested sources.',
     ['inputs'], 'all natural loops and call cycles of the program', 'a test cannot show termination for all inputs',
     ['src'], [('loop measures', 'every natural loop of src/*.c'), ('end of input', 'src/macro.c endofsource, linegets; src/crasm.c pass'), ('limit', 'src/macro.c MAXSOURCEDEEP')],
     'ranking analysis: the ways round every natural loop of the IR, ordered lexicographically by measures found in their tests; cycles of the call graph; end-of-input analysis',
     'a loop whose ways are ranked terminates under the assumptions listed in the evidence (texts have an end mark, no cyclic lists, counters do not overflow). A loop that is '
     'neither ranked nor shown to be endless (main over argc, today the only one) is listed in the evidence as not decided and raises no alarm. '
     'What is nested in the input recurses on the machine stack, whose size is not bounded here.',
     level='other')
prop('C20', 'Expressions have the documented value and kind',
     'Every operator gives the documented value and kind for every pair of operands or rejects their kinds, operators apply in the documented order of '
     'precedence and from left to right within one, and parentheses override it. No operand values make evaluation fail otherwise.',
     ['inputs'], 'all operators x operand kinds x symbolic values; all operator pairs in token strings',
     'tests have a few expressions with one operator',
     ['src/operator.c', 'src/parse.c'],
     [('operators', 'src/operator.c op*'), ('precedence', 'src/parse.c oplist, parse2')],
     'abstract interpretation of the operators over symbolic values and of the parser over token strings',
     'the parser and the operators are run on every text of the families (all sequences of up to three operators, parentheses, signs, functions, bit references) '
     'with symbolic 64-bit operands and compared, path by path, with an independent precedence reader; every operator on every pair of kinds; every division '
     'provably has a divisor that is neither 0 nor -1')
prop('C21', 'Numeric and character constants have the value of their digits',
     'A constant written in any of the documented notations has the value of its digits in that radix, in either letter case, and a malformed or too large '
     'constant is an error. Character constants have the values of their characters, first character most significant.',
     ['inputs'], 'all notations x digit strings by partition, symbolic digits',
     'tests have a few constants per notation',
     ['src/operator.c'], [('constant readers', 'src/operator.c cst*')],
     'abstract interpretation of the constant readers: value transfer per digit and overflow test',
     'digit strings are partitioned by the first digit that differs from the greatest 32-bit value, the other digits are symbolic; the value must be the positional '
     'sum and the error must come exactly above 32 bits; every non-digit at every place is an error; character constants up to 10 characters with every escape')
prop('C22', 'Both passes start from the same state',
     'The second pass starts with the location undefined, the same symbol visibility, section and macro numbering, line count, and empty '
     'error counts and nesting as the first, whatever the first pass met.',
     ['histories'], 'all states left by the first pass', 'two-pass state leaks need a particular history in the first pass',
     ['src/crasm.c', 'src/label.c', 'src/scode.c'], [('pass initialisation', 'src/crasm.c pass')],
     'abstract interpretation of the pass prologue from an unknown state', 'the prologue is run from a state in which every variable it should set is unknown, and after every first pass trace of the bounded block families')
prop('C23', 'The summary, the listing and the cross reference report what was assembled',
     'The error and warning counts, the last address and the code length in the summary are those of the assembled program. Every byte shown in the listing '
     'is the byte placed at the address shown, beside the line or macro call that placed it, and the first twenty bytes of a line are shown when it is listed. '
     'The cross reference shows each symbol once with its value.',
     ['inputs', 'histories'], 'all counts; all sequences of bytes, locations, values shown and line ends; all symbol states', 'the stable tests do not compare listings',
     ['src/xref.c', 'src/output.c', 'src/crasm.c', 'src/scode.c', 'src/macro.c'],
     [('summary', 'src/xref.c result'), ('listing bytes', 'src/output.c outputbyte'), ('cross reference', 'src/xref.c printlabel'),
      ('listing of a call', 'src/macro.c macrocall')],
     'abstract interpretation of the summary and listing writers with symbolic counters and bytes; effect analysis of the counters',
     'the printed text is kept as terms: numbers and hexadecimal digits are compared with the symbolic values they must show; byte columns for every sequence of up to '
     'three operations after up to nine consecutive bytes, from an empty line; wrapping of long source lines is not judged')
prop('C24', 'Operand splitting respects quotes, parentheses and blanks',
     'A list of operands is split only at separators outside quotes and parentheses, surrounding blanks and letter case do not matter, and '
     'pieces already obtained stay intact while later ones are taken.',
     ['inputs'], 'pattern set of the program x operand texts from the token grammar', 'tests have few quoted separators',
     ['src/filter.c'], [('pattern match', 'src/filter.c filter')],
     'abstract interpretation of the splitter on the patterns the program uses; dataflow of the pieces over later reads',
     'every pattern of the program on every text of up to a few tokens (letters, quotes, escapes, parentheses, separators, blanks) against a reference matcher; the '
     'sequences of splits the handlers make; spelled variants of every instruction operand; no use of a piece after a call that starts the next line. Texts with an '
     'open string or unpaired parentheses may be divided in any way')
prop('C25', 'Names: which are accepted, when two are the same, and where they are visible',
     'A text is accepted as a symbol name exactly when it starts with a letter, underscore or period, continues with letters, digits, underscores '
     'or periods and is short enough. Names that differ only in letter case are one symbol and all others are different. '
     'A name starting with a period belongs to its section or macro expansion, and any other text in the first column of an assembled line is an error.',
     ['inputs', 'histories'], 'all characters at each position x lengths around the limit; comparison outcomes at every node of the symbol tree',
     'tests use short lower case names and never two that nearly collide',
     ['src/label.c', 'src/crasm.c', 'src/macro.c'],
     [('well formed names', 'src/label.c checklabel'), ('symbol tree', 'src/label.c searchlabel makelabel findlabel'),
      ('section numbers', 'src/crasm.c herelabel, src/macro.c macrocall')],
     'abstract interpretation of the name routines with character classes and symbolic tree nodes', '')

prop('C26', 'The command line decides the files and reports of a run, in any order',
     'For every order, place and grouping of the options and the source name: the source named is assembled; code is written exactly with -o, to the '
     'file named after it; -s suppresses the warnings and nothing else, and -l the listing but no error message. -x prints the cross reference, which '
     'otherwise follows every listing without errors. An unknown option, a second source or none gives the usage and assembles nothing. '
     'The usage names exactly the processors that CPU accepts.',
     ['configurations'], 'all orders, places and groupings of -s -l -x -o FILE and the source; every other option letter; every combination of run settings in error and warning',
     'every test uses the same one or two command lines',
     ['src/crasm.c', 'src/cpulist.c', 'src/pseudos.c'],
     [('option loop', 'src/crasm.c main'), ('run driver', 'src/crasm.c crasm'), ('settings of the run', 'src/crasm.c error, warning')],
     'abstract interpretation of main and the driver over the argument words, passes replaced by any outcome',
     'every argument list built from the options (all orders, groupings, repetitions, one wrong word at each place), with everything inside the passes '
     'unknown; an -o without a name and a second -o are not judged')

prop('C27', 'LIST, CLIST, ILIST and MLIST list exactly the documented lines',
     'With LIST on every assembled line is listed once: a line of an unselected part of a conditional exactly with CLIST on (the default), a line of an '
     'included file exactly with ILIST on (default off), a line of a macro expansion exactly with MLIST on at its call (default off), the call itself in any case. '
     'After an included file or a macro the listing goes on as before. Each pass starts from the defaults, a directive changes its own setting '
     'only, and nothing is listed with LIST off or in a run that does not list, except lines in error.',
     ['inputs', 'configurations'], 'all settings x status of the line x kinds of lines in conditionals, expansions, definitions and included files',
     'the tests compare listings of a few sources, none of which changes a listing setting',
     ['src/macro.c', 'src/crasm.c', 'src/pseudos.c', 'src/output.c'],
     [('status of the lines of a block', 'src/macro.c Xif, macrocall'), ('listing of included files', 'src/macro.c Xinclude, linegets'),
      ('switches', 'src/pseudos.c Xlist, Xclist, Xmlist, Xilist')],
     'abstract interpretation of each construct that assembles lines, for every combination of the listing settings and line status',
     'every setting, status and script of up to three kinds of lines per construct, composed by the status each construct hands on; '
     'the lines of IF, ELSE, ENDC with CLIST off and of ENDM, EXITM in an expansion are not judged')
prop('C28', 'The listing is divided into the pages asked for and loses no text',
     'Every page of the listing but the last has exactly the rows that PAGE asks for, starts with a header carrying the title of NAM and the next page '
     'number, and PAGE alone starts a new one. SKIP n leaves n lines blank. A size or title that is refused changes nothing. A source line wider than '
     'the page goes on below it in rows no wider than the page, and none of its characters is lost or changed.',
     ['inputs', 'configurations'], 'all rows of all page lengths; page sizes around the limits; every count of SKIP; a character at every kind of column with any content before it',
     'the tests have one page size and no listing longer than a page or wider than one',
     ['src/output.c', 'src/pseudos.c'],
     [('rows and header', 'src/output.c outputraw, outputEOP'), ('columns', 'src/output.c outputcar'), ('directives', 'src/pseudos.c Xpage, Xskip, Xnam')],
     'abstract interpretation of the listing routines from an unknown row and line content',
     'induction over printed rows and characters: one row from any row of any page length, one character at the columns around each boundary; '
     'the page may not be made shorter than the rows already on it')


prop('C29', 'CPU and OUTPUT: the instructions, byte order and file format in force',
     'No instruction is known before CPU. CPU with one of the listed names makes all instructions and register names of that processor known, and '
     'no other processor\'s, and sets its byte order; without a name, with an unknown one, or a second time in the program it is an error. A symbol of the '
     'user with the name of an instruction stays, with a warning, and takes no other instruction away. The whole code file is in the format that OUTPUT asks for, '
     'wherever it stands in the program, and without OUTPUT in that of the processor; OUTPUT with anything but HEX or SCODE is an error.',
     ['inputs', 'histories'], 'every processor; both passes; every instruction of every processor before and after CPU; pairs of CPU directives; every order of CPU and OUTPUT; any settings before',
     'the tests start with one CPU line and use the default format',
     ['src/pseudos.c', 'src/label.c', 'src/crasm.c', 'src/cpu6800.c', 'src/cpu6502.c', 'src/cpuz80.c', 'src/scode.c'],
     [('directives', 'src/pseudos.c Xcpu, Xoutput'), ('loading of the keywords', 'src/label.c init_label_list'), ('settings of a processor', 'init6800, init6502, initz80'),
      ('format', 'src/scode.c flushscoderaw, closescodefile')],
     'abstract interpretation of the directives from unknown settings, and of the loading of the vocabulary tables into the symbol tree in both passes',
     'the vocabulary tables are those of the source; user symbols: five positions in each table; one CPU and at most one OUTPUT for the format')
prop('C30', 'Every line is taken apart into label, instruction, operand and comment as documented',
     'A comment starts at the first semicolon outside of strings. "name = value" defines the name. Otherwise the first word is the instruction or, if it is none, the label '
     'of the instruction that is the second word, and the rest without blanks around it is the operand, handed over unchanged. A name alone that starts in the first '
     'column is a label. A label stands for the location of its line. Everything else (an unknown instruction, a malformed label, a label where none is allowed or none '
     'where one is required) is an error, and no instruction of another name is ever run.',
     ['inputs'], 'lines composed of every form of label, instruction, blanks, operand and comment, selected and not',
     'the tests have well formed lines in one layout',
     ['src/crasm.c', 'src/filter.c'], [('line assembler', 'src/crasm.c asmline'), ('mnemonic search', 'src/crasm.c findmnemo')],
     'abstract interpretation of the line assembler on a grammar of lines, compared with an independent reader of lines',
     'every form of each part and each two neighbouring parts together (about 2200 lines; thorough: their products, about 6000), with stand-ins for the instructions; strings and '
     'parentheses closed')


def main():
    built = lambda p: os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')) and not p['na']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'],
                     'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                     'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] or p['technique']}
                    for p in P if built(p)],
         'not_applicable': [{'property': p['id'], 'reason': p['na'] or 'check not built yet'} for p in P if not built(p)],
         'notes': 'No hooks: the checks read the IR compiled from the unchanged sources with the real build commands.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
