DF = 'abstract interpretation (forward data flow) of the compiler IR over decision-diagram values with exact joins'
NOTE = ('Every obligation is discharged on the IR of the current source for all values of the symbolic inputs; no path is '
        'enumerated, executed or handed to a solver. Trusts clang\'s front end, vt/absint.py + vt/bdd.py and the reference model. ')
SIMWHY = 'The tests run a few compiled programs; each executes some instruction forms on a handful of values, never the whole operand and flag space.'
PROPS = [
 dict(id='M01', title='sim86 executes each supported instruction as an 8086 does',
  statement='For every supported instruction (8/16-bit ALU, INC/DEC/NEG/NOT, MOV, LEA, XCHG, PUSH/POP, CBW/CWD, 16-bit shifts by 1 or CL<32, MUL/IMUL/DIV/IDIV r/m16 with 16-bit dividends and results, single and repeated string operations, CALL/RET/JMP) the simulator leaves the general and segment registers, the instruction pointer and memory exactly as an 8086 would, for every register, immediate and memory value. PUSH SP, DX after MUL/IMUL and divide faults are outside the claim.',
  over=['inputs', 'programs'], q='all register, immediate, flag and memory contents, for each instruction form', why=SIMWHY,
  files=['sim86.c'], mech=[('instruction decode and execute loop', 'sim86.c main'), ('ALU', 'sim86.c DoOp'), ('operand access', 'sim86.c ReadRM/WriteRM/ReadReg/WriteReg')],
  technique=DF + '; equality with an independent 8086 model', note=NOTE + 'Forms enumerated: all opcodes, a cross-section of ModRM bytes (quick) or all of them (thorough); repeat counts 0..3.'),
 dict(id='M02', title='sim86 sets flags and takes conditional jumps as an 8086 does',
  statement='After every supported instruction the carry, zero, sign and overflow flags have the value an 8086 gives them wherever it defines one, instructions that do not touch flags preserve them, and each supported conditional jump is taken exactly when its 8086 condition holds. This covers all operand values of byte and word operations.',
  over=['inputs', 'programs'], q='all operand values and incoming flags, for each instruction form', why=SIMWHY + ' Flag bugs only show on boundary operands.',
  files=['sim86.c'], mech=[('flag computation', 'sim86.c DoOp, DoIncDec, shift cases'), ('conditions', 'sim86.c JCC')],
  technique=DF + '; equality with an independent 8086 model', note=NOTE + 'PF/AF are not modelled by the simulator and not claimed; JP/JNP are refused by it.'),
 dict(id='M03', title='sim86 memory operands address the byte an 8086 would access',
  statement='The effective address of every ModRM, direct, string and stack operand is base+index+displacement modulo 65536, in the default segment of its base register or the overriding one, wrapping at one megabyte, whatever the register and segment values are.',
  over=['inputs', 'programs'], q='all base, index, displacement and segment values; all ModRM forms; all four overrides', why=SIMWHY + ' Tests use one segment value and small offsets.',
  files=['sim86.c'], mech=[('address computation', 'sim86.c ModRM, MAKEADDR, DataSeg')],
  technique=DF + '; equality with an independent 8086 model', note=NOTE + 'Segment registers are fully symbolic for the plain moves and three distinct constants elsewhere.'),
 dict(id='M04', title='sim86 DOS services do what the guest asked and report failure by carry',
  statement='INT 21h 02/3C/3D/3E/3F/40/4C and INT 20h map to exactly the corresponding host action with the guest\'s character, ASCIIZ name at DS:DX, handle BX, count CX and buffer DS:DX; the file services set carry exactly when the host call fails and otherwise return its handle or byte count in AX, leaving all other registers alone; the exit status is AL (0 for INT 20h). Every other service or interrupt number stops the simulation with a message.',
  over=['inputs', 'fault_sequences'], q='all register contents and all host call outcomes', why='Tests run programs whose file operations succeed; error returns, odd counts and unknown services are never exercised.',
  files=['sim86.c'], mech=[('service dispatch', 'sim86.c INT'), ('open/create', 'sim86.c HandleOpen, ReadAsciiz'), ('transfers', 'sim86.c ReadToMem, WriteFromMem')],
  technique=DF + '; host calls as effects with arbitrary results', note=NOTE + 'File names of up to 6 characters for the name content; bounds for longer ones are M05.'),
 dict(id='M05', title='A guest program cannot make sim86 access memory outside its arrays',
  statement='Whatever instruction, register contents, file name or transfer size a guest program uses, every access the simulator makes stays inside its one-megabyte guest memory, register files and text buffers, in normal and verbose mode.',
  over=['inputs', 'programs'], q='all instruction bytes, register/segment values, names and sizes', why='Tests use well-behaved programs; a stray access on the host stack or past the guest array is silent.',
  files=['sim86.c'], mech=[('address masking', 'sim86.c MAKEADDR'), ('bounded copies', 'sim86.c ReadAsciiz, MemLeft'), ('text buffers', 'sim86.c rmtext, insttext, Fatal')],
  technique=DF + '; bounds obligation at every access, buffer and formatted text', note=NOTE + 'The profiler report printed by -p at exit is not covered.'),
 dict(id='M06', title='sim86 -v and -p do not change what the program does',
  statement='Each supported instruction has the same effect on registers, flags, instruction pointer and memory with instruction tracing (-v) or profiling (-p) on as with both off, and neither option makes the simulation stop where it would otherwise go on.',
  over=['configurations', 'inputs'], q='all instruction forms and machine states, options on and off', why='No test runs the simulator with either option.',
  files=['sim86.c'], mech=[('trace text', 'sim86.c verbose blocks'), ('profile bookkeeping', 'sim86.c PROFILING blocks')],
  technique=DF + '; two-run equality of the instruction summaries', note=NOTE + 'malloc is assumed to succeed.'),
 dict(id='M08', title='sim86 never executes an instruction as something else',
  statement='For every instruction encoding the simulator either produces the 8086 effect or stops with a diagnostic; it never silently runs on with a different effect, including undefined encodings.',
  over=['inputs', 'programs'], q='all opcode and opcode-extension bytes with all machine states', why='Tests only contain instructions the compiler and assembler emit today.',
  files=['sim86.c'], mech=[('unhandled instruction diagnostics', 'sim86.c main default cases, asserts')],
  technique=DF + '; equality with an independent 8086 model or diagnostic exit', note=NOTE + 'Prefix combinations other than those of M01/M03, PUSH SP and DX after MUL are outside the claim.'),
]
CT = DF + ' of the expression parser and code generator, then of the emitted instructions under an 8086 model; equality with the C value'
CN = NOTE + ('The parser routines are analysed one construct at a time: operands enter as contracts (value in AX, lvalue address in AX, frame/global/constant '
     'description, condition in flags) whose guarantee the other C checks establish, so nesting is covered by induction. ')
CWHY = 'The tests compile a fixed set of programs; each combination of operand kind, type and register/stack state occurs in at most a few of them, with one set of values.'
CPROPS = [
 dict(id='C01', title='scc arithmetic, bitwise and shift operators compute the C value',
  statement='For every pair of operands (constant, local, global, object in memory, computed value, comparison result) of type int, unsigned, char or unsigned char, the code scc generates for + - * / % & ^ | << >> computes the 16-bit C value (signed or unsigned as the operand types require; division by zero and shift counts of 16 or more excepted), evaluates each operand exactly once, writes no memory but stack below SP, and preserves the values the compiler still holds in registers.',
  over=['inputs', 'programs'], q='all operand values, kinds and types, all stack-adjustment and register-use states of the compiler', why=CWHY,
  files=['scc.c'], mech=[('binary operators', 'scc.c ParseExpr1, DoBinOp, DoRhsConstBinOp, DoRhsLvalBinOp'), ('loads', 'scc.c LvalToRval, GetVal, EmitModrm')], technique=CT,
  note=CN + 'MUL/DIV/IDIV are uninterpreted but exact functions of their operands; local offsets and literals are symbolic.'),
 dict(id='C02', title='scc comparisons have the C truth value',
  statement='For every pair of operands of type int, unsigned, char or unsigned char the code generated for < <= > >= == != leaves the condition that holds exactly when the C comparison (unsigned if either promoted operand is unsigned) holds, both as a branch condition and when converted to 0/1.',
  over=['inputs', 'programs'], q='all operand values, kinds and types', why=CWHY + ' Boundary operands (sign, overflow) are rare in them.',
  files=['scc.c'], mech=[('comparison code', 'scc.c DoBinOp, DoRhsConstBinOp, ParseExpr1'), ('condition to value', 'scc.c GetVal, ToBool')], technique=CT,
  note=CN + 'Comparing two literals is refused by the compiler and excluded.'),
 dict(id='C03', title='scc assignment and compound assignment store and yield the C value',
  statement='For every assignable object (local, global, through a pointer; int, unsigned, char, unsigned char) and right operand, = and the compound assignments store exactly the C value converted to the object type, write nothing else, evaluate the object\'s address once, and the expression\'s value is the value stored.',
  over=['inputs', 'programs'], q='all operand values, kinds and types', why=CWHY,
  files=['scc.c'], mech=[('assignment', 'scc.c ParseExpr1, HandleLhsLvalLoc'), ('compound operators', 'scc.c RemoveAssign, DoRhsConstBinOp')], technique=CT,
  note=CN + 'Compound assignment with a bare comparison as right operand is refused by the compiler except for + - & ^ | on int.'),
 dict(id='C04', title='scc pointer and array arithmetic scales by the pointed-to size',
  statement='pointer+int, int+pointer, pointer-int, pointer-pointer, pointer comparison, += and -= on pointers, pointer assignment and null comparison, and the same with arrays in place of pointers, have their C value for every pointee size (char, int, pointers, structs, arrays).',
  over=['inputs', 'programs'], q='all operand values and kinds for 5 pointer types and 7 array types', why=CWHY,
  files=['scc.c'], mech=[('scaling', 'scc.c ParseExpr1, SizeofCurrentType, EmitScaleAx'), ('array decay', 'scc.c LvalToRval')], technique=CT, note=CN),
 dict(id='C05', title='scc && || , ?: evaluate exactly the operands C requires and yield the C value',
  statement='a&&b and a||b evaluate b exactly when C does and yield the 0/1 truth value; a,b evaluates both and yields b; c?a:b evaluates c and then exactly the selected operand, and yields its value in the common type; state the compiler holds in registers or on the stack is the same on every way through.',
  over=['inputs', 'programs'], q='all operand values, kinds and types', why=CWHY + ' Which operand runs is observable only for a few value combinations in them.',
  files=['scc.c'], mech=[('short circuit', 'scc.c ParseExpr1, ToBool, EmitJcc'), ('conditional', 'scc.c HandleCondOp')], technique=CT, note=CN + 'A comma expression as the middle operand of ?: is refused by the compiler.'),
 dict(id='C06', title='scc unary operators and ++/-- have their C value and side effect',
  statement='-, ~, !, +, *, & and prefix/postfix ++ and -- on every operand kind and type yield the C value; ++ and -- store exactly the incremented (scaled for pointers) value in the object and nothing else, once.',
  over=['inputs', 'programs'], q='all operand values, kinds and types', why=CWHY, files=['scc.c'], mech=[('unary', 'scc.c ParseUnaryExpression'), ('postfix', 'scc.c ParsePostfixExpression, DoIncDecOp')], technique=CT,
  note=CN + 'Unary - and ~ applied directly to a comparison are refused by the compiler.'),
 dict(id='C07', title='scc indexing and member access designate the right object',
  statement='a[i] designates the i-th element and s.m / p->m the member at the sum of the sizes before it (offset 0 in a union), with the element or member type, for every base kind, element size and index kind.',
  over=['inputs', 'programs'], q='all index and address values; arrays of char, int, pointer, struct and array; a struct and a union of ten members', why=CWHY,
  files=['scc.c'], mech=[('indexing and members', 'scc.c ParsePostfixExpression'), ('sizes', 'scc.c SizeofType, SizeofCurrentType')], technique=CT, note=CN),
 dict(id='C08', title='scc calls pass each argument in its place, call the right function and keep held values',
  statement='A call evaluates each argument once, places argument i at SP+2i at the CALL with the C value, calls the named function or the function the pointer holds, yields the returned value converted to the return type, and afterwards SP, BP and every value the compiler held in a register across the call are intact although the callee changes every other register.',
  over=['inputs', 'programs'], q='argument lists of 0 to 9 operands of every kind, all values, direct and indirect callees, all surrounding states', why=CWHY,
  files=['scc.c'], mech=[('calls', 'scc.c ParsePostfixExpression, GetStoredVal'), ('saved registers', 'scc.c SaveBX, EmitChecks')], technique=CT, note=CN),
 dict(id='C09', title='scc casts, parentheses and operators work in every surrounding expression state',
  statement='A cast converts to the target type as C does; parentheses change nothing; and every operator gives its C value and preserves what an enclosing expression holds (AX waiting to be pushed, BX in use, pending stack adjustments, any frame depth) in every such surrounding state.',
  over=['inputs', 'programs', 'histories'], q='all combinations of pending push, pending stack adjustment, register use and frame depth with all operand values', why=CWHY,
  files=['scc.c'], mech=[('deferred stack work', 'scc.c EmitChecks, FlushSpAdj, FlushPushAx'), ('casts', 'scc.c ParseCastExpression, GetStoredVal')], technique=CT, note=CN),
 dict(id='C10', title='scc sizeof yields the operand size and generates no code',
  statement='sizeof of any expression yields the size of its type and leaves no trace: nothing is emitted and the compiler\'s stack, register and flag bookkeeping is exactly as before, so the code around it is unaffected.',
  over=['inputs', 'programs'], q='every operator and operand kind as operand, all surrounding states', why='Tests use sizeof on types and simple variables outside other expressions.',
  files=['scc.c'], mech=[('sizeof', 'scc.c ParseUnaryExpression, ParseUnevaluated, SizeofCurrentType'), ('dead code', 'scc.c IsDeadCode')],
  technique=DF + '; equality of compiler state before and after', note=CN),
 dict(id='C11', title='scc reads the longest C token, whatever the read boundaries',
  statement='For every input text and every way read() divides it, GetToken takes the longest C token at the current position (operators, decimal, octal and hexadecimal numbers, character constants and strings with their escapes, adjacent strings joined, keywords, identifiers), gives it its value, its operator precedence and, for an identifier, a number that is the same for the same text and different for different texts, stops exactly behind it, skips white space, comments and line markers, counts lines, and reports the end of the input as such.',
  over=['inputs'], q='all operator spellings with two arbitrary following characters; numbers, escapes and identifier characters with arbitrary digits; cuts after every character', why='A token cut by a buffer boundary, an unusual escape or operator prefix appears only in particular inputs; the tests read short files in one piece.',
  files=['scc.c'], mech=[('scanner', 'scc.c GetToken, SkipWhitespace, NextChar, GetNum, Unescape, GetStringLiteral'), ('keywords', 'scc.c AddBuiltins')],
  technique=DF + ' of GetToken with bit-vector characters, read() delivering the text in every division', note='Operators: two characters of lookahead arbitrary. Numbers up to five digits with values below 65536. Identifier numbering: four families of 150 to 250 names, and keyword prefixes with one arbitrary further character. Bytes from 0x80 outside literals, control characters other than white space and the escapes a, b, f, v, ? are refused or skipped by scc and left out.'),
 dict(id='C12', title='scc groups operators as the C grammar does',
  statement='Expressions of two and three operators (binary, assignment, conditional, comma, prefix and postfix) are grouped by C precedence and associativity: the generated code has the value and side effects of the tree the C grammar prescribes.',
  over=['inputs', 'programs'], q='all pairs of binary/assignment operators, each with ?: and each unary operator; all operand values', why='Tests use the combinations their programs happen to contain.',
  files=['scc.c'], mech=[('precedence climbing', 'scc.c ParseExpr1, OperatorPrecedence'), ('operator table', 'scc.c GetToken')], technique=CT + ' of an independent recursive-descent parse', note=CN + 'Operands are int locals.'),
 dict(id='C14', title='scc statements have the control flow of C',
  statement='In the generated code of a function the statement expressions are evaluated in exactly the order C prescribes for if, while, do, for, switch (fall-through, default anywhere, nested labels), break, continue, goto, labels, return and blocks, for every outcome of every condition, at every jump distance (short and near forms), and at every point the stack pointer agrees with the frame of the declared locals.',
  over=['inputs', 'programs'], q='all condition and switch values; every statement nested in every other one; distances around the short-jump limits', why='Tests run a fixed set of programs whose jumps have fixed distances and whose nestings are the common ones.',
  files=['scc.c'], mech=[('statements', 'scc.c ParseStatement, DoLoopStatements, EnsureSwitchStmt'), ('labels and fixups', 'scc.c EmitLocalJump, EmitLocalLabel, DoFixups, EmitJcc')],
  technique=DF + ' of the statement parser; the control-flow graph of the emitted bytes (marker graph) is compared by bisimulation with the one C prescribes', note=CN + 'Expressions are contracts that leave an arbitrary value and code of a chosen length. Two-level nesting (quick: representative innermost statements).'),
 dict(id='C15', title='scc functions keep frame, parameters and locals in place',
  statement='A compiled function saves and restores BP, returns to its caller with SP as at entry, finds parameter i at BP+4+2i with its declared type (array and function parameters as pointers), gives every local its own cells inside the allocated frame for all of its scope (shadowing included), converts nothing on the way, and leaves no name, label or scope of its own behind for the next function.',
  over=['inputs', 'programs'], q='0 to 8 parameters of 15 types, nested scopes, two and three consecutive functions', why='Tests use few parameter lists, and two functions interfere only through compiler state that a particular pair of functions exercises.',
  files=['scc.c'], mech=[('function definitions', 'scc.c ParseExternalDefition, ParseDeclarator'), ('scopes', 'scc.c PushScope, PopScope, AddVarDecl')],
  technique=DF + ' of the parser on function definitions; frame layout compared at every expression marker of the emitted code', note=CN),
 dict(id='C17', title='scc gives every declared name its C type, size, storage and initial value',
  statement='For every C declaration scc accepts (base types and their spellings, pointers, arrays, functions and function pointers, structs, unions, enumerations, typedefs; global, static, extern, typedef and local; several declarators; initializers), each name gets the type C gives it (element, member and pointed-to types included), enumerators and initialized objects get their values, a local gets its own cells of its rounded size below the earlier ones, globals without initializer reserve exactly their size, and what was declared before is unchanged. What scc cannot represent is refused.',
  over=['inputs', 'programs'], q='all base types and 36 kinds of specifier with 21 declarators in every storage class; all pairs of declarators in a list; arbitrary array bounds, enumerator values, initial values and strings', why='A declaration is misread only in particular combinations of specifier, declarator and earlier declarations, and then every later use computes with a wrong size or type.',
  files=['scc.c'], mech=[('declarations', 'scc.c ParseDeclSpecs, ParseDeclarator, ParseFirstDecl, NextDecl, ParseExternalDefition'), ('types', 'scc.c SizeofType, ArrayDecls, StructDecls, AddVarDecl')],
  technique=DF + ' of the declaration parser; the recorded types are decoded and compared with the declared ones', note='At most four declarators and three levels of nesting. Bounds: one arbitrary bound (1..127) per script, the others distinct. Tag scope and redeclaration are outside.'),
]
PT = DF + " of scpp's main, from the characters of its input files to the bytes it writes"
PN = ('The whole of scpp runs on the abstract domain: its source text has arbitrary characters in some places, read() delivers it in chosen pieces, '
      'and the bytes it writes are compared under the condition on those characters that leads to them. Trusts clang\'s front end, vt/absint.py + vt/bdd.py and the reference. ')
PPROPS = [
 dict(id='P01', title='scpp selects the group of an #if exactly when C gives its expression a nonzero value',
  statement='For every #if expression of decimal, octal and hexadecimal numbers (with suffixes), macros, undefined names, defined, !, parentheses, the binary operators * / % + - < > <= >= == != & ^ | && || and ?:, the group is output exactly if the expression has a nonzero value with the precedence, associativity and arithmetic of C, whatever white space separates its tokens; what is not evaluated (the right side of && and ||, an operand of ?:) cannot disturb.',
  over=['inputs'], q='all combinations of two and a third of those of three operators (thorough: all) with parentheses and ?:, for all values of the operand digits', why='The tests evaluate a handful of constant expressions; precedence and value bugs show only with particular operators and operands.',
  files=['scpp.c'], mech=[('expression evaluation', 'scpp.c EvalExpr1, EvalUnary, OperatorPrecedence'), ('directives', 'scpp.c HandleDirective')],
  technique=PT, note=PN + 'Unary + - ~, shifts and character constants are refused by scpp and not claimed.'),
 dict(id='P02', title='scpp outputs exactly the lines of the groups that #if, #ifdef, #ifndef, #elif and #else select',
  statement='In every nesting of conditional groups a text line is output, in source order, exactly if every group around it is selected by the C rules (the first condition that holds, else #else). Lines of groups that are not selected have no effect whatever they contain: no directive but the conditionals is obeyed or checked, no macro expanded, no expression evaluated, no quote or unknown character is an error.',
  over=['inputs', 'histories'], q='all shapes of one and two nested groups, chains to the nesting limit, with arbitrary conditions; skipped lines with arbitrary characters', why='The tests contain a few fixed nestings with constant conditions.',
  files=['scpp.c'], mech=[('condition stack', 'scpp.c NewCond, CondActive, HandleDirective'), ('skipping', 'scpp.c PPMain')],
  technique=PT, note=PN + 'Shapes: up to two #elif with or without #else per group, two levels exhaustively, 15 levels deep in chains. Skipped lines: 45 constructs and one to three arbitrary characters, in nine positions.'),
 dict(id='P03', title='scpp passes every token through unchanged, whatever the read boundaries',
  statement='Outside directives and macros the output is the tokens of the source, character for character (identifiers, numbers, operators, strings and character constants with any contents and escapes), with white space between two tokens wherever the source has white space, a line end or a comment, none inserted inside an operator, comments removed and spliced lines joined; for every division of the input into reads and every position of the output buffer\'s end.',
  over=['inputs', 'schedules'], q='arbitrary characters in identifiers, numbers, operators, literals, comments and white space; all pairs of operators; reads that end after every character; both buffer ends at every position of a sample', why='Tests are files of a few lines read in one piece, with the common tokens.',
  files=['scpp.c'], mech=[('scanner', 'scpp.c RawGetToken, ReadChar, ReadToTokenData'), ('output', 'scpp.c OutputStr, PPMain')],
  technique=PT, note=PN + 'Runs of one to three arbitrary characters of each kind. A line comment ended by a backslash, and a token continued on the next line, are outside.'),
 dict(id='P04', title='scpp expands macros as C does',
  statement='Object-like and function-like macros (parameters, #, ##, nested and self-referencing macros, calls spread over lines or formed by an expansion, names of function-like macros without arguments, empty arguments and replacements) expand to the tokens of the C standard\'s algorithm, in its order, and no two tokens grow together in the output; a call in an argument of a call of the same macro is not covered (known finding).',
  over=['inputs'], q='object-like bodies x uses, function-like bodies x arguments (2100 combinations) with arbitrary digits', why='Expansion bugs depend on how macros are combined; the tests have about forty combinations.',
  files=['scpp.c'], mech=[('expansion', 'scpp.c GetToken, CallFollows, PushHandleArg, RawGetToken'), ('# and ##', 'scpp.c Stringify, PasteAppend'), ('definitions', 'scpp.c HandleDefine'), ('separation', 'scpp.c MayJoin')],
  technique=PT + '; equality with an independent implementation of Prosser\'s algorithm', note=PN + 'Up to five parameters and five layers.'),
 dict(id='P05', title='scpp obeys #define, #undef, #include and #error in order, counts lines, and fails when it must',
  statement='Each #define, #undef takes effect from its line on; #include inserts the tokens of the named file and continues exactly behind the directive (also without a last newline, nested, repeated, at any buffer position); __LINE__ and __FILE__ name the line and file of their place; #error, an unknown directive, a missing file, a malformed call, unbalanced #else/#endif, and an output that cannot be opened or written completely end with a nonzero exit code, and nothing else does; the output goes to the file asked for.',
  over=['inputs', 'histories', 'fault_sequences'], q='all histories of up to three conditional definitions; includes of all endings and forms with reads ending after every character; every failing write', why='Tests include one small header; write errors and odd endings never occur.',
  files=['scpp.c'], mech=[('directives', 'scpp.c HandleDirective, HandleInclude, HandleDefine'), ('files', 'scpp.c OpenFile, PPMain, WriteOutput, main')],
  technique=PT, note=PN + 'Two levels of include (the limit of scpp is two below the source).'),
]
AT = DF + ' of main, from the source text to the output file'
AN = NOTE + 'open/read/write/close are the modelled boundary; unknown characters are bit vectors. '
APROPS = [
 dict(id='A01', title='sas encodes each instruction as the 8086 instruction written, or refuses it',
  statement='For every instruction sas supports, with every register, memory operand (base, index, displacement, segment override), size and number, the bytes written decode to exactly that 8086 instruction with those operands (any valid encoding will do; 8-bit immediates are taken modulo 256). Operands of different sizes, segment registers where the 8086 has no such form, impossible addresses, shift counts other than 1 and CL, missing or surplus operands and unknown mnemonics are refused; nothing else is put in their place.',
  over=['inputs', 'programs'], q='all mnemonics x register pairs x memory forms, for all values of displacements and immediates', why='The tests assemble two programs and compare the bytes; most operand forms and all boundary displacements are absent from them.',
  files=['sas.c'], mech=[('operands', 'sas.c ParseOperand, SetSize, TranslateMemMod'), ('encoding', 'sas.c HandleMOV, HandleALU, HandleROT, OutputMR, OutputMImm, OutputModRM and the other Handle functions')],
  technique=AT + '; decoded with an independent 8086 decoder', note=AN + 'Numbers of up to four hexadecimal digits.'),
 dict(id='A02', title='sas resolves every label to the address at which it is defined',
  statement='Every use of a label (relative and short jumps, calls, immediates, displacements with or without registers and constants, DW) before or after its definition stands for the address the label has, for every ORG, across uninitialised data and for any number and order of references; a label starting with a dot belongs to the stretch between two other labels; EQU names stand for their value. Labels defined twice, never defined, too long or too many, and short jumps to targets out of range are refused. Known exception: forward short jumps out of range are not diagnosed.',
  over=['inputs', 'histories', 'programs'], q='all histories of up to four references and definitions of two labels and a local one; all kinds of references x distances; arbitrary origins', why='Each kind of reference has a fixup path of its own; the tests use one origin and never an undefined, duplicate or distant label.',
  files=['sas.c'], mech=[('fixups', 'sas.c AddFixupHere, main label definition'), ('references', 'sas.c ReferenceLabel, HandleRel8, HandleRel16, HandleDx, OutputImm16'), ('undefined labels', 'sas.c CheckDefined')],
  technique=AT + '; addresses from the decoded output', note=AN + 'Distances 0..135 around the limits, 200..512 beyond them.'),
 dict(id='A03', title='sas evaluates numbers, expressions and data as written, whatever the layout of the text, and reports failures',
  statement='Decimal and hexadecimal numbers, one- and two-character constants, and expressions of + - << | and the unary + - ~ have their C value modulo 65536; DB, DW (padding strings to words), RESB, RESW, ORG, EQU, CPU put exactly the bytes they stand for into the output. Case of mnemonics, registers and directives, white space, comments and the sizes of the reads make no difference; any other character is refused. The output goes to the named file or the source name with .com, and the exit code is 0 only if everything was read, assembled and written.',
  over=['inputs', 'schedules', 'fault_sequences'], q='all values of digits and characters; all letters in either case; reads that end after every character; every failing call', why='The tests use one style of source read from one file, with no failing call.',
  files=['sas.c'], mech=[('scanner', 'sas.c GetToken, LookupId, ReadChar'), ('expressions', 'sas.c ParseExpr, ParseUnary, NumFromString'), ('data', 'sas.c HandleDx, HandleResx, HandleDirective'), ('files', 'sas.c main, MakeOutputFilename')],
  technique=AT + '; equality with the value of the text', note=AN + 'Bytes above 127 count as white space; a zero byte ends the source.'),
]
PROPS += CPROPS + PPROPS + APROPS
NA = []
