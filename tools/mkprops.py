#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["output file bytes", "exit status"], hook_needed=None)))

p("C01", "Every mnemonic assembles to its documented opcode, gated by ISA",
  "For every 6809 mnemonic (and, only when the 6309 instruction set is selected, every 6309 mnemonic), in any mixture of upper and lower case and in every addressing form the CPU has for it, the emitted opcode and page-prefix bytes are those of the Motorola/Hitachi instruction set. A form or mnemonic the selected CPU does not have is rejected with a failing exit status.",
  ["programs", "configurations"], "all mnemonics x addressing forms x letter case x ISA selection",
  "The tests assemble one lower-case spelling of each mnemonic with fixed operands and never assemble 6309 code without -3.",
  ["src/opcode.c", "src/assemble.c", "dt101/dict.c", "src/asm6809.c"],
  [("opcode tables and case-insensitive lookup", "src/opcode.c opcode_init/opcode_by_name"), ("addressing-mode dispatch", "src/assemble.c assemble_prog")])
p("C02", "Direct or extended addressing is chosen by the assumed direct page",
  "For a memory operand whose address is any 16-bit value, an instruction that has both forms uses the direct form (low address byte) exactly when a direct page is set and equals the address's high byte, and otherwise the extended form (full big-endian address); '<' forces direct and '>' forces extended. The assumed page is the low 8 bits of the last non-negative SETDP in effect (or --setdp), and a negative one disables direct addressing.",
  ["inputs", "configurations"], "all addresses 0..$FFFF x all SETDP values x coercions x instructions",
  "Tests use a handful of addresses and pages; the selection depends on the equality of two symbolic bytes and on the history of SETDP.",
  ["src/instr.c", "src/assemble.c", "src/asm6809.c", "src/section.c"],
  [("direct/extended choice", "src/instr.c instr_address"), ("SETDP", "src/assemble.c pseudo_setdp")])
p("C03", "Indexed operands encode the requested offset in the shortest form",
  "An indexed operand 'n,R' (R one of X, Y, U, S) or '[n,R]' encodes exactly the offset n, register and indirection, using no offset byte for 0, the 5-bit form for -16..15 (non-indirect only), one byte for -128..127, and two bytes otherwise; '<<', '<' and '>' force the 5-bit, 8-bit and 16-bit form. Register offsets (A, B, D), auto-increment/decrement forms and '[n]' have their documented post-bytes, and forms that do not exist (for example with a bad base register) are rejected.",
  ["inputs", "programs"], "all offsets -32768..32767, all base and offset registers, indirection, coercions",
  "Tests use a few offsets per form; the boundaries of the form selection and every offset value in between are not covered.",
  ["src/instr.c"], [("indexed mode table and matching", "src/instr.c instr_indexed2/off_type_compatible")])
p("C04", "PC-relative operands always reach their target address",
  "For every instruction address and every target address, 'target,PCR' (also indirect) encodes an offset that, added to the address of the next instruction, gives the target modulo 65536, using the one-byte form exactly when the distance from the end of the one-byte form fits -128..127 unless a size is forced. 'n,PC' encodes n itself.",
  ["inputs"], "all pairs of 16-bit instruction address and target address; all coercions; opcode lengths 1 and 2",
  "Only a few fixed distances are assembled by the tests; the size choice interacts with the instruction's own length and address wrap-around.",
  ["src/instr.c"], [("PCR offset computation", "src/instr.c instr_indexed2, to_rel16")])
p("C05", "Immediate operands are emitted big-endian at the instruction's width",
  "For '#value' with any value, an 8-bit instruction emits the low 8 bits of the value, a 16-bit instruction the low 16 bits, and LDQ the low 32 bits, most significant byte first, right after the opcode. Instructions without an immediate form reject it.",
  ["inputs", "programs"], "all values -2^31..2^32-1 x all instructions with an immediate form",
  "Tests use one or two immediate values per instruction.",
  ["src/instr.c", "src/section.c", "src/opcode.c"], [("immediate emission", "src/instr.c instr_immediate; section_emit_uint8/16/32")])
p("C06", "Branches reach their target or are rejected",
  "For every branch address and target address, a short branch encodes the signed 8-bit distance from the end of the instruction to the target, and assembly fails if that distance (modulo 65536) is outside -128..127; a long branch encodes the 16-bit distance modulo 65536. No short branch is ever emitted with a truncated distance in a successful assembly.",
  ["inputs"], "all 16-bit pairs of branch address and target; all branch instructions",
  "Tests use two or three in-range targets; out-of-range rejection and wrap-around are not tested.",
  ["src/instr.c", "src/error.c"], [("relative encoding and range check", "src/instr.c instr_rel")])
p("C07", "Register-list and register-pair operands encode exactly those registers",
  "PSHS/PULS/PSHU/PULU emit a post-byte with exactly the bits of the listed registers set, for every list in any order, and reject the stack's own pointer or a register that cannot be stacked. TFR, EXG and the 6309 inter-register instructions emit the source and destination register codes in the high and low nibble for every pair of registers of the selected CPU that has a code, and reject registers that have none.",
  ["inputs", "programs"], "all register lists and all ordered register pairs, both ISAs",
  "Tests contain a few lists and pairs out of all subsets, orders and pairs.",
  ["src/instr.c", "src/register.c"], [("stack post-byte", "src/instr.c instr_stack"), ("pair post-byte", "src/instr.c instr_pair"), ("register code tables", "src/register.c")])
p("C08", "6309 bit, block-move and immediate-to-memory operands encode correctly",
  "BAND/BOR/LDBT and relatives encode register, source bit, destination bit and direct address for every combination and reject bit numbers outside 0..7; TFM accepts exactly its four increment modes on D, X, Y, U and S and encodes both registers; AIM/OIM/EIM/TIM emit the immediate byte between the opcode and the operand of a direct, extended or indexed address. 6309 indexed forms (offsets in E, F, W and base W) have their documented post-bytes.",
  ["inputs", "programs"], "all registers, bit numbers, addresses and immediates",
  "Tests fix one or two operand tuples per instruction.",
  ["src/instr.c"], [("instr_reg_mem, instr_tfm, instr_imm8_mem", "src/instr.c"), ("6309 rows of the indexed mode table", "src/instr.c indexed_modes")])
p("C09", "Operators compute their documented result on every operand value",
  "Each unary, arithmetic, shift, bitwise, relational, logical and ternary operator yields the documented result for every pair of operand values (64-bit signed integer arithmetic, relational and logical results 0 or 1), comparing strings lexicographically when both operands are strings. Division yields the real quotient (used as an integer it is truncated towards zero) and division or modulo by zero is reported as an error rather than crashing or yielding a value.",
  ["inputs"], "all operand values within the stated literal widths, all operators",
  "No test in the suite evaluates operators beyond a few conditionals.",
  ["src/eval.c"], [("operator evaluation", "src/eval.c eval_node_oper_1/2/3")])
p("C10", "Expressions follow the documented precedence and associativity",
  "For every pair of binary operators, 'a op1 b op2 c' without parentheses evaluates as the documented precedence table groups it (equal precedence groups left to right), unary operators bind tighter than binary ones, ?: binds loosest and nests to the right, and parentheses override.",
  ["programs", "inputs"], "all ordered pairs of binary operators with arbitrary operand values; unary and ternary combinations",
  "No test contains an expression mixing operators whose grouping is observable.",
  ["src/grammar.y", "src/lex.l"], [("precedence declarations", "src/grammar.y %left/%right")])
p("C11", "Numeric and character literals denote their documented value",
  "Decimal, octal (leading @ or 0), binary (% or 0b), hexadecimal ($ or 0x, either letter case) and quoted-character literals denote exactly the documented value for every digit string, and a floating-point literal used as an integer is truncated towards zero. A string used in place of an integer packs the ASCII codes of its last four characters, first character most significant.",
  ["inputs"], "all digit strings up to the stated lengths in every radix; all printable ASCII characters",
  "Tests use decimal and a few hexadecimal literals only.",
  ["src/lex.l", "src/eval.c"], [("literal patterns", "src/lex.l"), ("string to integer", "src/eval.c eval_int")])
p("C12", "String and byte data pseudo-ops store every character as documented",
  "FCB and FCC store numbers truncated to 8 bits and strings as their ASCII bytes in order; FCN adds one zero byte at the end, FCS sets the top bit of the last byte of each value, FCV translates ASCII to MC6847 display codes and FCI does the same with bit 6 inverted. This holds for every byte value, character, escape (a backslash quotes the next character; \\n, \\r), both delimiters and any mixture of arguments.",
  ["inputs", "programs"], "all byte values and printable characters, all argument mixes up to the stated length",
  "The suite has no test of any data pseudo-op beyond FCB with small numbers.",
  ["src/assemble.c", "src/lex.l"], [("emit_formatted, ascii_to_vdg, pseudo_fc*", "src/assemble.c")])
p("C13", "Word, quad, fill and alignment pseudo-ops emit exact sizes and values",
  "FDB and FQB store each value truncated to 16 or 32 bits, big-endian; RZB (and its aliases ZMB, BSZ, FZB) and FILL store exactly count copies of the fill byte (zero by default); ALIGN advances the location counter to the next multiple of the alignment and no further, writing the fill byte when one is given and reserving space otherwise. Negative counts and non-positive alignments are rejected.",
  ["inputs"], "all values, counts and alignments within the stated ranges",
  "Not covered by any test.",
  ["src/assemble.c", "src/section.c"], [("pseudo_fdb/fqb/rzb/fill/align/rmb", "src/assemble.c")])
p("C14", "ORG, PUT, RMB, labels and * track the location counter",
  "A label and '*' evaluate to the address of the instruction or data they stand on: ORG sets that address (and its own label), RMB advances it by exactly its count, and each instruction or datum by exactly the bytes emitted. Data is placed in memory at the ORG address unless PUT moves it, in which case labels keep their ORG-relative value and the image moves by the PUT offset.",
  ["inputs", "programs"], "all ORG and PUT addresses and RMB counts within the 64K address space, sequences of these directives",
  "One test with fixed addresses covers a single ORG/PUT combination.",
  ["src/assemble.c", "src/section.c", "src/eval.c"], [("pseudo_org/put/rmb", "src/assemble.c"), ("section_emit, section_skip", "src/section.c")])
p("C15", "Sections continue where they left off and follow one another",
  "Switching back to a section continues at the address it had reached; a section used for the first time, without ORG or PUT, starts where the section before it in order of first definition ends, in both address and placement, whatever the interleaving; each section has its own direct-page setting. The section names CODE, DATA, BSS, RAM and AUTO used as pseudo-ops behave like SECTION with that name.",
  ["programs", "inputs"], "interleavings of up to the stated number of section switches with arbitrary sizes and ORG addresses",
  "One fixed interleaving is tested.",
  ["src/section.c", "src/assemble.c"], [("section_set, section_finish_pass", "src/section.c")])
p("C16", "A successful assembly is self-consistent: forward references fully resolve",
  "If assembly succeeds, every use of a symbol, wherever it is defined, was encoded with the symbol's final value and every instruction size was chosen from final values, including when sizes, conditionals or addresses depend on symbols defined later. If values do not stabilise within the pass limit, assembly fails rather than emitting code from unstable values.",
  ["programs", "inputs"], "programs whose sizes depend on forward references, with arbitrary distances and values; pass limits 2..255",
  "Tests need at most three passes on fixed programs; the fixpoint depends on all distances between references and definitions.",
  ["src/asm6809.c", "src/symbol.c", "src/section.c", "src/error.c"], [("pass loop", "src/asm6809.c main"), ("instability detection", "src/symbol.c symbol_set; src/section.c section_finish_pass")])
p("C17", "Conditional assembly selects exactly one branch of each IF chain",
  "For every assignment of values to its conditions, an IF/ELSIF/ELSE/ENDIF chain assembles exactly the lines of the first branch whose condition is non-zero (ELSE if none), nested chains inside skipped branches are skipped whole, and undefined symbols in conditions count as zero. Skipped lines have no effect at all, and unbalanced chains are rejected.",
  ["inputs", "programs"], "all condition values for chains and nestings up to the stated depth",
  "One test covers a few constant conditions.",
  ["src/assemble.c"], [("cond_list/cond_excluded handling", "src/assemble.c assemble_prog")])
p("C18", "Macro expansion equals writing out the body with arguments substituted",
  "Expanding a macro produces the same output as its body with every positional variable (in each documented spelling) replaced by the corresponding argument, in operands, inside strings and pasted into symbol names, labels and mnemonics, for any argument values, number of arguments, nesting of macro calls (up to the program depth limit), conditionals inside the body, and definitions nested in macros. Arguments are passed by value: an argument is one value whatever operators surround the variable, '*' and local labels in it are those of the calling line, and a register keeps its increment or decrement. Unfinished or redefined macros, endless recursion, and references to missing arguments or outside any macro, are rejected.",
  ["programs", "inputs"], "all argument values; bodies, nesting and argument counts up to the stated bounds",
  "No test uses a macro.",
  ["src/assemble.c", "src/interp.c", "src/program.c", "src/eval.c", "src/lex.l"], [("macro definition and expansion", "src/assemble.c, src/program.c"), ("positional variables", "src/interp.c, src/eval.c eval_string")])
p("C19", "Local label references pick the nearest occurrence in their section",
  "nB refers to the closest preceding definition of local label n in the current section (including one on the same line) and nF to the closest following one, however many times n is defined and whatever other labels lie between, across section switches, in macros, in included files and from one source file to the next; lines that conditional assembly skips define nothing. '!', '<' and '>' act as label 0, 0B and 0F. A reference with no such definition is rejected. (As documented, all file inclusions and macro expansions must occur in the first pass.)",
  ["programs"], "placements of up to the stated number of local label definitions and references; all label numbers within the stated digits",
  "No test uses local labels.",
  ["src/symbol.c", "src/section.c", "gnulib/gl_avltree_list.c"], [("symbol_local_set/backref/fwdref", "src/symbol.c")])
p("C20", "All output formats describe the same memory image",
  "For the same source, loading the DragonDOS, CoCo, SREC and Intel HEX output places exactly the same byte at exactly the same address as the assembled program defines, and the raw binary is that image from its lowest to its highest address with gaps zero-filled, whatever the order, number, size and spacing of the emitted spans. Adjacent or out-of-order spans are neither lost, duplicated nor reordered in memory.",
  ["programs", "inputs", "configurations"], "up to the stated number of spans with arbitrary addresses, sizes and order, in all five formats",
  "Tests compare only the raw binary and listing of small contiguous programs; no other format is produced by any test.",
  ["src/output.c", "src/section.c"], [("writers", "src/output.c"), ("section_coalesce", "src/section.c")])
p("C21", "SREC, HEX, CoCo and DragonDOS files are well-formed records",
  "Every SREC and Intel HEX record has the correct byte count, 4-digit address, type and checksum, holds at most 32 data bytes, and the file ends with exactly one termination record; every CoCo segment has a correct length and address header and the file ends with one postamble; a DragonDOS header has the right magic, load address, length and exec address. This holds for every address, data content and length.",
  ["inputs"], "all addresses, data bytes and lengths within the stated bounds",
  "No test produces these formats.",
  ["src/output.c"], [("output_motorola_srec, output_intel_hex, output_coco, output_dragondos", "src/output.c")])
p("C22", "The exec address in the output is the one the user asked for",
  "In each output format with an exec address, that address is the value of the -e/--exec option if given (number or symbol), otherwise the final value of the END operand, otherwise the format's default (lowest load address for DragonDOS and CoCo, none/zero for SREC and HEX). Lines after END are ignored.",
  ["inputs", "configurations"], "all addresses, option/END combinations, formats",
  "No test sets an exec address.",
  ["src/output.c", "src/asm6809.c", "src/assemble.c"], [("get_exec_addr", "src/output.c"), ("exec option", "src/asm6809.c")])
p("C23", "Overlapping data is reported, never silently overwritten",
  "If two pieces of emitted data are placed at overlapping addresses, the run ends with a failing exit status in every output format; if none overlap, no overlap is reported. Data placed outside the 64K address space is rejected.",
  ["inputs", "programs"], "all addresses and sizes of up to the stated number of spans",
  "No test has overlapping or out-of-range data.",
  ["src/section.c", "src/asm6809.c", "src/error.c"], [("overlap check in section_coalesce", "src/section.c"), ("range checks in section_emit", "src/section.c")])
p("C24", "Any reported error makes the run fail, and wrong programs are reported",
  "A program with a syntax error, unknown instruction, undefined or doubly defined symbol, wrong argument count or kind, value that does not fit a range-checked field, missing include file, or an output file that cannot be opened ends with a non-zero exit status and a message on standard error, wherever in the program (or in which file or macro) the error is. A program without such an error exits zero.",
  ["programs", "inputs", "fault_sequences"], "error kinds x positions in the program, failing file opens",
  "Tests contain only valid programs.",
  ["src/error.c", "src/asm6809.c", "src/assemble.c", "src/symbol.c"], [("error levels and exit status", "src/error.c, src/asm6809.c main")])
p("C25", "The listing shows each line with its true address and code bytes",
  "In the listing file every source line appears once per assembly of it, in order and with its text, and an instruction or data line shows the address it was assembled for and exactly the bytes emitted for it; address-setting lines show the address they set. Listing does not change the generated output.",
  ["programs", "inputs"], "all addresses and operand values for each kind of line",
  "Listings are compared for fixed programs at fixed addresses only.",
  ["src/listing.c", "src/assemble.c"], [("listing_add_line, listing_print", "src/listing.c")])
p("C26", "Exports and symbols files reproduce the exported definitions",
  "Including the symbols file of one assembly in another program gives every symbol there the value it had in the first, and including an exports file does so for exactly the exported symbols and gives exported macros that expand to the same code.",
  ["programs", "inputs"], "all symbol values; exported macro bodies covering every operator and operand form",
  "No test produces either file.",
  ["src/program.c", "src/node.c", "src/symbol.c"], [("prog_print_exports, prog_print_symbols, node_print", "src/program.c, src/node.c")])
p("C27", "No source text makes the assembler misbehave",
  "Whatever bytes the source file contains and whatever words the command line has, the assembler ends normally with an exit status of its own: it never crashes, accesses memory out of bounds or after release, fails an internal assertion, or loops forever.",
  ["inputs"], "all byte strings up to the stated lengths in the stated positions of a program, all sequences of tokens, lines and options up to the stated lengths",
  "Tests feed only well-formed programs.",
  ["src/lex.l", "src/grammar.y", "src/node.c", "src/eval.c", "src/section.c", "src/program.c"], [("reference counting and bounds", "all of src/")])
p("C28", "Symbols with different names are different, and keep their one value",
  "Two symbols share a value only if their names are identical, including case, however many there are; a symbol defined by a label, EQU or -d cannot be defined again by a label or EQU anywhere in the program, a symbol defined only by SET may change and each line sees the latest value, and an undefined symbol used in an operand is an error. Macros, sections, opcodes and symbols do not clash. -d name[=number] defines name as number, or 1, and refuses anything that is no number.",
  ["programs", "inputs", "configurations"], "all pairs of names up to the stated length and all values",
  "Tests use a few distinct fixed names.",
  ["src/symbol.c", "dt101/dict.c", "dt101/hash-djb2.c", "gnulib/hash.c", "src/asm6809.c"], [("symbol table", "src/symbol.c"), ("dictionary", "dt101/dict.c")])
p("C29", "Several files, INCLUDE and INCLUDEBIN equal the concatenated source",
  "Assembling several source files gives the same output as assembling their concatenation, and INCLUDE gives the same output as pasting the file's lines in place (files divided between lines outside macro definitions and conditions, and without END, which ends only its own file; after INCLUDE the section chosen before it is current again), with or without a line end on a file's last line. INCLUDEBIN stores exactly the bytes of the named file, for every byte value and length. The file whose name is given is the one read; a file that cannot be read, or that includes itself without end, is an error.",
  ["programs", "inputs"], "splits of a program over files and includes; binary contents up to the stated length",
  "Tests assemble a single file without includes.",
  ["src/asm6809.c", "src/program.c", "src/assemble.c", "src/grammar.y"], [("file list and prog_new_file", "src/program.c"), ("pseudo_include/includebin", "src/assemble.c")])
p("C30", "Comments, spacing, letter case and reporting options do not change the code",
  "Adding comments (after a semicolon, on a line of their own after an asterisk, or starting with a word after blanks after complete operands) or blank lines, changing the amount of white space between fields or around operands, using CR-LF line ends, omitting the final newline, or changing the letter case of mnemonics, pseudo-ops and register names does not change the output; nor do the listing, symbols, exports, quiet and verbose options.",
  ["programs", "configurations"], "all comment texts up to the stated length and all listed rewritings of the stated programs",
  "Tests assemble one layout of each program.",
  ["src/lex.l", "src/assemble.c", "src/register.c", "src/asm6809.c"], [("comment and white space rules", "src/lex.l"), ("case-insensitive lookup", "src/assemble.c, src/register.c, src/opcode.c")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
