#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe) or ["bytes of the output file", "exit status", "standard output"],
        "hook_needed": hook}})

p("C01", "Legal instructions assemble to their documented 6502 bytes",
  "For every documented NMOS 6502 mnemonic, every addressing mode it has and every operand value that mode can hold, assembling the instruction succeeds and emits exactly the documented opcode followed by the operand in little-endian order. "
  "A numeric operand up to $FF selects the zero-page form and a larger one the absolute form, except that JMP and JSR always take a 16-bit operand. "
  "A shift or rotate written without operand works on the accumulator, and a number written as a branch operand is the displacement byte itself.",
  ["inputs"], "all 56 mnemonics x all their operand forms x all 65536 operand values",
  "The tests assemble about 70 hand-picked lines with one operand value each; the assemble tests only check opcode tables for a few mnemonics.",
  ["src/assemble.c", "src/opcode.c", "src/bitfields.h", "src/addressing_modes.h", "src/parser.c", "src/generator.c"],
  [("opcode switch per mnemonic", "src/assemble.c assemble_*"), ("addressing mode by masking bitfields", "src/parser.c parse_addr_mode, apply_masks"), ("byte emission", "src/generator.c generate_code")])

p("C02", "Instruction forms the 6502 lacks are rejected, never mis-encoded",
  "If the mnemonic has no addressing mode that matches the written operand form and operand size, the assembly fails with a non-zero exit status, whether the operand is a number, an already defined label or a label defined later. "
  "It never succeeds by truncating the operand or by emitting an opcode the mnemonic does not have.",
  ["inputs"], "all 56 mnemonics x all 9 operand forms x all operand values and all ways of naming the operand",
  "The tests try a handful of illegal lines; the cross product of mnemonic, form, operand kind and value has tens of millions of members.",
  ["src/parser.c", "src/bitfields.h", "src/opcode.c"],
  [("mask with the mnemonic's bitfield, zero means illegal", "src/parser.c parse_addr_mode"), ("separate masking for forward references", "src/parser.c parse_forward_ref_addr_mode")])

p("C03", "Number literals mean exactly their value; bad or oversized ones are rejected",
  "A decimal, $hexadecimal (digits in either case) or %binary literal stands for exactly its mathematical value wherever a number is allowed, with any number of leading zeros. "
  "A literal worth more than $FFFF, no matter how many digits it has, and a literal with no digits or with a digit foreign to its base, make the assembly fail.",
  ["inputs"], "all literals of up to 16 significant bits in three bases, all malformed short literals, digit strings of every length up to several hundred",
  "Tests use about twenty literals, none longer than six digits.",
  ["src/lexer.c"], [("digit accumulation and range check", "src/lexer.c lex_literal"), ("per-base digit converters", "src/lexer.c hex/bin/dec_digit_to_int")])

p("C04", "Branch displacements are exact and out-of-range branches are rejected",
  "A branch to a label emits destination - (branch address + 2) as one two's-complement byte, for every branch mnemonic, at every branch address, and whether the label is defined before, after or on the branch itself or as a constant. "
  "The assembly of the branch succeeds exactly when that displacement lies in -128..127 and otherwise fails.",
  ["inputs", "programs"], "all branch addresses x all displacements around and beyond the limits x all ways of defining the destination x 8 mnemonics",
  "Tests use four distances at one address; off-by-one errors at other addresses, page crossings or one of the two resolution paths stay invisible.",
  ["src/generator.c", "src/parser.c", "src/forward_reference.c", "src/main.c"],
  [("offset computation and limits", "src/generator.c calc_branch_offset"), ("backward path", "src/generator.c resolve_label_ref"), ("forward path", "src/generator.c resolve_forward_ref")])

p("C05", "Jumps take the label's final value wherever it is defined; undefined fails",
  "JMP label, JMP (label) and JSR label emit the label's 16-bit value in little-endian order, whether the label is an address or a constant and whether it is defined before, on or after the instruction. "
  "Any other non-branch instruction that uses a label not yet defined, and any reference to a label that is never defined, makes the assembly fail.",
  ["programs"], "all programs up to a length over an alphabet of definitions, references, fillers and origin changes",
  "The tests resolve a few fixed references; the order of definitions, references and origin changes is unbounded.",
  ["src/main.c", "src/parser.c", "src/generator.c", "src/forward_reference.c", "src/symbol_table.c"],
  [("forward reference list", "src/forward_reference.c"), ("final resolution loop", "src/main.c main"), ("operand status", "src/parser.c parse_label_operand")],
  state=[("unresolved refs", "references waiting for their label", "src/forward_reference.h struct Unresolved"), ("symbol table", "label values", "src/symbol_table.h struct SymbolTable")])

p("C06", "The output file is the exact memory image: right place, zero gaps, exact end",
  "When an assembly whose statements occupy pairwise disjoint addresses below $10000 succeeds, the output byte at offset N is exactly the byte assembled for address N, every address at which nothing was assembled reads as zero, and the file ends right after the highest assembled address. "
  "This holds for every interleaving of forward and backward location-counter moves with instructions, including instructions whose operand is resolved later.",
  ["programs"], "all interleavings up to a length of origin moves, 1/2/3-byte instructions, forward references and definitions",
  "No test assembles a whole program through the main loop; the tests drive the stages by hand with the location counter never moved backwards.",
  ["src/main.c", "src/generator.c"],
  [("seek to the location counter before emitting", "src/generator.c generate_code"), ("placeholder bytes for forward references", "src/main.c main"), ("patching", "src/generator.c resolve_forward_ref")],
  state=[("pc", "location counter", "src/main.c main"), ("output position", "offset at which the next byte lands", "FILE outf")])

p("C07", "A symbol is defined exactly once and keeps that value",
  "A second definition of a label, in any of the forms (label alone, label with colon, label before an instruction, =, .EQU, .DEFINE), in any letter case and whether or not the value is the same, makes the assembly fail; every reference sees the value of the one definition. "
  "Names that differ in any of their up to 63 characters are different symbols, while register names A, X, Y and mnemonics cannot be defined and names of 64 or more characters are rejected.",
  ["programs"], "all programs up to a length over all definition forms and letter cases of several labels, and all label lengths around the limit with a difference at every position",
  "Tests try three redefinitions; pairs of definition forms, cases and name differences are not covered.",
  ["src/parser.c", "src/symbol_table.c", "src/lexer.c"],
  [("lookup before insert", "src/parser.c parse_label_declaration"), ("uppercase folding", "src/lexer.c token_strncpy"), ("string comparison on lookup", "src/symbol_table.c search_symbol")],
  state=[("symbols[]", "open-addressing hash table", "src/symbol_table.h")])

p("C08", "Symbol lookup stays exact for any number, names and order of symbols",
  "However many symbols a program defines, whatever their names (including names that collide in any internal hashing) and in whatever order they are defined, each symbol is found with its own value. "
  "A name that was not defined is never taken for a defined one, and defining it is never refused as a redefinition.",
  ["histories"], "all insertion orders of colliding names, and every table fill level from 0 to thousands of symbols",
  "Tests insert 26 fixed names; they cross one or two table growths with one order and check a fixed slot layout.",
  ["src/symbol_table.c", "src/prime.c"],
  [("linear probing", "src/symbol_table.c insert_symbol/search_symbol"), ("growth and rehash at load factor 0.5", "src/symbol_table.c resize_symbols"), ("next prime", "src/prime.c next_prime")],
  state=[("count/size", "load of the table", "src/symbol_table.h struct SymbolTable")])

p("C09", "Every forward reference is patched with its own label, however many are pending",
  "Every pending forward reference ends up holding its own label's value at its own place, no matter how many references are pending at once, to how many labels, in which order the labels get defined, and how branches, jumps, subroutine calls and indirect jumps are mixed. "
  "If one of them stays undefined or is out of range, the assembly fails regardless of its position in the list.",
  ["programs"], "all reference/definition patterns for few labels and every number of pending references up to thousands",
  "Tests add 8 references by hand once; growth of the list during real assembly is never followed by resolution.",
  ["src/forward_reference.c", "src/main.c", "src/generator.c"],
  [("growing array", "src/forward_reference.c add_forward_ref, resize_unresolved"), ("copy of the instruction", "src/forward_reference.c create_forward_ref"), ("resolution loop", "src/main.c main")],
  state=[("refs/curr/size", "pending references", "src/forward_reference.h struct Unresolved")])

p("C10", "Exactly the documented statements are accepted",
  "A source line is accepted only when its tokens form one of the documented statements: nothing, a label, [label] instruction with no operand, A, number-or-label, number-or-label followed by ,X or ,Y, #number-or-label, (number-or-label), (number-or-label,X) or (number-or-label),Y, label = number, label .EQU number, .DEFINE label number, .ORG number, * = number, .END. "
  "A missing, extra or misplaced token anywhere on the line, including after an otherwise complete statement and beyond any internal token limit, makes the assembly fail.",
  ["inputs"], "all token sequences up to a length and all one- and two-token mutations of all statements",
  "Tests check about a hundred sequences; the space of token sequences is in the millions even for short lines.",
  ["src/parser.c", "src/parser.h", "src/lexer.c"],
  [("sequence trees", "src/parser.c parse_*_tree"), ("token limit", "src/lexer.c add_token")])

p("C11", "Case, spacing, comments, colons, blank lines, line ends do not change the code",
  "Letter case, the amount of spaces and tabs before, between and after tokens, comments, blank lines, the optional colon after a label, LF or CRLF line ends and a missing final newline never change the outcome, the emitted bytes, the symbol count or the byte count.",
  ["inputs"], "all combinations of layout choices at every gap of every statement kind",
  "Tests fix one layout per line; the combinations per statement are in the thousands.",
  ["src/lexer.c", "src/main.c"],
  [("whitespace skipping, end-of-line test", "src/lexer.c lex_line"), ("uppercase folding", "src/lexer.c token_strncpy"), ("colon handling", "src/lexer.c lex_line")])

p("C12", "A source line is one line whatever its length",
  "A source line of any length is processed as exactly one line: text of a long comment never becomes code, a statement never splits, blanks never push a token out of sight, and the line numbers of later diagnostics count each such line once.",
  ["inputs"], "every line length up to several thousand characters, with the padding in every part of the line",
  "No test feeds a line through the reader in main; all tests call the lexer on short strings.",
  ["src/main.c", "src/lexer.c"], [("line reader", "src/main.c main"), ("line counter", "src/main.c main")])

p("C13", "Characters outside the language are rejected everywhere except in comments",
  "A printable, control or non-ASCII character (other than NUL, CR, LF and byte 255) that is not part of a token of the language makes the assembly fail wherever it appears outside a comment, and any such character inside a comment changes nothing. "
  "The colon is legal only directly after a label that starts the line.",
  ["inputs"], "all byte values inserted into or substituted at every position of every statement kind",
  "Tests try about ten bad characters at fixed places.",
  ["src/lexer.c"], [("first-character dispatch", "src/lexer.c lex"), ("label and directive character tests", "src/lexer.c lex_text, lex_directive"), ("colon check", "src/lexer.c lex_line")])

p("C14", "A rejected source gets one diagnostic naming the right file, line and place",
  "When an assembly is rejected because of its source, standard output names the source file as given, the 1-based number of the offending line (the referencing line for a label that is never defined or out of branch range) and the kind of error. It then echoes that line without its trailing blanks and, for errors with a location, a caret under the first offending column with tabs counted to multiples of 8. "
  "The first offending line in source order is the one reported (references resolved at the end come after all lines), exactly once.",
  ["inputs", "programs"], "all error kinds x preceding line kinds and counts x indentation patterns",
  "test_error prints messages for a human to look at and asserts nothing about them.",
  ["src/error.c", "src/main.c", "src/lexer.c", "src/parser.c", "src/generator.c", "src/forward_reference.c"],
  [("message, echo and caret", "src/error.c print_error"), ("line counting", "src/main.c main"), ("saved line and operand location", "src/forward_reference.c create_forward_ref")])

p("C15", "Exit status and success report tell the truth",
  "The exit status is 0 and 'Assembly successful.' is printed exactly when every statement up to the end of the source (or .END) was accepted and every reference resolved; otherwise the exit status is non-zero and no success is printed. "
  "On success the reported number of bytes (decimal and hexadecimal) is the total size of the assembled instructions and the reported number of symbols is the number of distinct symbols defined.",
  ["programs"], "all programs up to a length over an alphabet with every statement kind and every error kind",
  "No test runs the program; none looks at its exit status or report.",
  ["src/main.c"], [("error checks after each stage", "src/main.c main"), ("totals", "src/main.c main"), ("symbol count", "src/symbol_table.c insert_symbol")])

p("C16", "No false success under I/O errors, and no effect of short reads",
  "If reading the source, or writing, positioning or closing the output fails at any point, the run ends with a non-zero exit status and no success report. "
  "Short reads without an error never change the result.",
  ["fault_sequences"], "every input/output call of a run failing, singly and in pairs, and every way of chunking reads",
  "Tests never inject an I/O failure; real ones (full disk, directory as source) need an environment tests do not set up.",
  ["src/main.c", "src/generator.c"], [("return codes of file operations", "src/main.c main"), ("emission", "src/generator.c")],
  observe=["exit status", "standard output", "bytes that reached the output"])

p("C17", "Memory exhaustion is reported, never a crash or a false success",
  "If any one or any two memory allocations of a run fail, or all of them from some point on, or all those of some size or more, the run ends without invalid memory accesses, and it either ends with a non-zero exit status and no success report, or with exactly the result of an undisturbed run. "
  "When it fails because an allocation failed, it says so on standard output.",
  ["fault_sequences"], "every allocation of every sample program failing: singly, in pairs, from that point on, and by size",
  "Tests cannot make malloc fail.",
  ["src/main.c", "src/lexer.c", "src/symbol_table.c", "src/forward_reference.c", "src/opcode.c"],
  [("NULL checks after each allocation", "src/*.c"), ("clean-up", "src/main.c abort_gaia")],
  observe=["exit status", "standard output", "sanitizer reports"])

p("C18", "Every input terminates with a verdict and without memory errors",
  "For every source text, including binary garbage, NUL bytes, over-long tokens and lines and programs of any size, the assembler terminates with exit status 0 or 1 and never reads or writes outside its objects, uses freed memory or overflows a computation in an undefined way.",
  ["inputs"], "all short byte strings over a covering alphabet, all boundary lengths of tokens, lines and tables",
  "Tests run without sanitizers on well-formed lines.",
  ["src/lexer.c", "src/parser.c", "src/error.c", "src/forward_reference.c", "src/symbol_table.c", "src/main.c"],
  [("length checks before copies", "src/lexer.c lex_text, lex_directive, add_token"), ("trailing-blank trimming", "src/error.c print_error, src/forward_reference.c create_forward_ref")],
  observe=["exit status", "sanitizer reports", "termination"])

p("C19", ".END ends the program: later text is neither assembled nor checked",
  "Everything after a line with .END is ignored: it emits no bytes, defines no symbols and cannot make the assembly fail. "
  "References still pending at .END are resolved with the symbols defined before it and fail if theirs is not among them.",
  ["programs"], "all programs up to a length with .END at every position and every statement or garbage after it",
  "No test runs the main loop with .END.",
  ["src/main.c", "src/parser.c"], [("loop exit", "src/main.c main")])

p("C20", "The command line does what it documents and touches only the named output",
  "With one source argument the program assembles it into the file named by -o or --output, or a.out when none is given (the last -o wins), and creates or changes no other file; the source file is never changed, not even when it is also named as the output. "
  "With no source, more than one source, an unknown option, a missing option argument, or a source that cannot be opened, it exits non-zero and creates nothing; --help, --usage and --version exit 0 and assemble nothing.",
  ["configurations"], "all argument vectors up to a length over all option spellings, operands and file states",
  "No test runs the program.",
  ["src/main.c"], [("argp parser", "src/main.c parse_opt"), ("file opening order", "src/main.c main")],
  observe=["exit status", "files of the working directory"])

p("C21", "The output depends only on the source, not on earlier runs",
  "After any sequence of successful and failed assemblies onto the same output file, and whatever the file contained before, a successful assembly leaves exactly the bytes that a fresh run of that source produces.",
  ["histories"], "all sequences up to a length of assemblies of a set of programs, and of initial file contents, onto one output file",
  "No test runs the program twice on one output.",
  ["src/main.c", "src/generator.c"], [("output truncation on open", "src/main.c main")],
  observe=["bytes of the output file", "exit status"])

p("C22", "A statement's effect does not depend on the text of the statements before it",
  "What a line assembles to, and whether it is accepted, depends on earlier lines only through the location counter and the symbols they define: no token, mnemonic, operand, addressing mode or text of an earlier line leaks into it.",
  ["programs"], "all sequences of two and three statements over an alphabet covering every statement kind, mnemonic class, operand form and token length",
  "Tests reset or choose the order of lines; leaks between specific pairs of lines need the cross product.",
  ["src/lexer.c", "src/opcode.c", "src/main.c"],
  [("reset of tokens and instruction per line", "src/lexer.c reset_lexer, reset_token; src/opcode.c reset_instruction")],
  state=[("running token, token sequence, instruction", "reused for every line", "src/lexer.h struct Lexer")])

p("C23", "The spellings of a directive are interchangeable",
  "label = n, label .EQU n and .DEFINE label n define the same symbol with the same value for every 16-bit n, and .ORG n and *= n (with or without blanks around the =) move the location counter to the same place for every 16-bit n. "
  "None of them emits bytes, and a constant definition never moves the location counter.",
  ["inputs"], "all 65536 values x all spellings x several uses",
  "Tests use one value per spelling.",
  ["src/parser.c", "src/lexer.c", "src/main.c"],
  [("constant definitions", "src/parser.c parse_label_declaration"), ("location moves", "src/parser.c parse_directive_tree, parse_base_tree; src/main.c main")])

p("C24", "A defined symbol used as an operand assembles like the number it stands for",
  "For every instruction other than a branch, every operand form and every 16-bit value, an operand written as a label defined earlier (as a constant or as an address) gives the same outcome and the same bytes as the operand written as that number.",
  ["inputs"], "all non-branch mnemonics x operand forms x 65536 values x constant or address label",
  "Tests compare five label operands.",
  ["src/parser.c", "src/generator.c", "src/symbol_table.c"],
  [("label value copied to the operand", "src/parser.c parse_label_operand"), ("jump path", "src/generator.c resolve_label_ref")])

p("C25", "Address labels equal the location counter: start plus sizes of what precedes",
  "An address label's value is the address of the next byte assembled at that point: the last .ORG or *= value (0 at the start) plus the sizes of the instructions assembled since, each being one opcode byte plus the operand bytes of its addressing mode. "
  "This holds for every sequence of instructions, forward-referencing ones included, and for a label alone on a line, with a colon or in front of an instruction.",
  ["programs"], "all sequences up to three instructions over every opcode and reference kind, from several origins",
  "The main loop's location counter is not exercised by any test.",
  ["src/main.c", "src/generator.c", "src/parser.c"],
  [("pc advance", "src/main.c main"), ("written byte counts", "src/generator.c"), ("label value", "src/parser.c parse_label_declaration")],
  state=[("pc", "location counter", "src/main.c main")])

p("C26", "The outcome is a function of the source text alone",
  "Verdict, printed text (apart from the source's name in it) and output bytes depend on nothing but the source text: not on what memory held before the run, and not on the names, places and kinds of the two files, the other files present, environment variables, locale, working directory, umask, standard input, or how the program was called.",
  ["configurations"], "all core programs x contents of uninitialised memory x surroundings of the process",
  "Tests run once in one process on memory that happens to be zero, and never run the program.",
  ["src/lexer.c", "src/symbol_table.c", "src/forward_reference.c", "src/opcode.c", "src/main.c"],
  [("initialisation of allocated structures", "src/lexer.c init_token, init_lexer; src/symbol_table.c init_symbol; src/forward_reference.c create_forward_ref, resize_unresolved; src/opcode.c init_instruction"), ("locals of the main loop", "src/main.c main")])

p("C27", "Label names are arbitrary: renaming them changes nothing",
  "Consistently replacing the labels of a program by any other distinct names (up to 63 letters, digits and underscores starting with a letter, not a mnemonic and not A, X or Y) changes neither the verdict nor the bytes, the byte count or the symbol count.",
  ["inputs"], "all names of one to three characters, names next to every reserved word, names of every length, pairs and triples of similar names, sets of up to 220 names under several schemes",
  "Tests use a dozen names; a name that is confused with a reserved word, a number or another name needs that very name.",
  ["src/lexer.c", "src/opcode.c", "src/symbol_table.c", "src/forward_reference.c"],
  [("telling labels from mnemonics and registers", "src/lexer.c lex_text; src/opcode.c str_to_mnemonic"), ("hashing and comparing names", "src/symbol_table.c djb2_hash, search_symbol")])

p("C28", "Sections placed by .ORG or *= may be written in any order",
  "If a program consists of sections that each start with a location move and whose references to each other are only jumps, subroutine calls and branches, then writing the sections in any other order gives the same verdict, the same output file and the same counts.",
  ["programs"], "all orders of all choices of two, three and four sections from a set, and rotations, reversals and exchanges of up to 65 sections",
  "No test assembles a program with more than one section.",
  ["src/main.c", "src/generator.c", "src/forward_reference.c", "src/symbol_table.c"],
  [("writes at the location counter", "src/generator.c"), ("forward references resolved at the end", "src/main.c main; src/generator.c resolve_forward_ref")])

p("C29", "A program assembles the same at every address",
  "A program fitting below $10000 assembles at every start address, moved there by .ORG, by *= or by preceding code: its branch displacements, opcodes, sizes and plain numbers are the same everywhere and its address labels differ by exactly the distance moved.",
  ["inputs"], "a set of programs with references of every kind x all 65536 start addresses x the directives, and jumps between all pairs of boundary addresses",
  "Tests use location counters below 16; a wrong answer at one address or across one boundary needs that address.",
  ["src/main.c", "src/generator.c", "src/parser.c"],
  [("location counter", "src/main.c main"), ("branch displacement and jump target", "src/generator.c resolve_label_ref, resolve_forward_ref")])

p("C30", "An error is final: text after it changes neither verdict nor diagnostic",
  "Once a line makes the assembly fail, no text after that line changes the exit status or the diagnostic; and a program whose first failing reference has no definition or is out of reach fails with that same diagnostic whatever legal code that leaves the reference failing is added at its end.",
  ["programs"], "all erroneous lines of a set x legal beginnings x all one- and two-part continuations of a set",
  "Tests stop at one erroneous line.",
  ["src/main.c", "src/error.c", "src/parser.c", "src/lexer.c"],
  [("stop at the first error", "src/main.c ABORT_ASSEMBLY"), ("order of resolution", "src/main.c main")],
  observe=["exit status", "standard output"])

p("C31", "What a run prints: the report, or one diagnostic that names what failed",
  "A successful run prints the three lines of the report (success, byte count in decimal and hexadecimal, symbol count) and nothing else. A run that fails because the source cannot be opened or read, the output cannot be created or written, or memory runs out prints exactly one diagnostic: the one for that kind of failure, with the source's name as given where the source cannot be opened or read. A rejected source gets no second diagnostic for a file operation that also fails.",
  ["fault_sequences", "inputs"], "every input/output call failing for a set of reasons and every allocation failing, alone, in pairs and from some point on; all argument vectors of up to three words over a set; source names of every length and with every byte; report sizes",
  "Tests do not cover main() and never make a file operation fail.",
  ["src/main.c", "src/error.c"],
  [("choosing the diagnostic", "src/main.c main; src/generator.c"), ("texts", "src/error.c print_error")],
  observe=["exit status", "standard output", "standard error"])

p("C32", "Programs joined in one source assemble as they do alone",
  "If two programs define and use different labels, occupy disjoint addresses, the second starts with a location move and the first does not contain .END, then the source made of both is accepted exactly when both are; its output is then the union of their outputs, and its byte and symbol counts are the sums of theirs.",
  ["programs"], "all pairs and triples of a set of programs in a set of layouts, sequences of up to 60 (150), core programs before and after each",
  "No test assembles more than one program, let alone compares a whole with its parts.",
  ["src/main.c", "src/generator.c", "src/forward_reference.c", "src/symbol_table.c"],
  [("state carried from line to line", "src/main.c main"), ("symbols and pending references", "src/symbol_table.c; src/forward_reference.c")])

p("C33", "A definition matters only to the references to its symbol",
  "Inserting definitions of symbols that a program does not mention, in any form, number and place, changes neither its verdict nor its output and byte count. Where a constant is defined does not matter to jumps, subroutine calls and branches: a program in which nothing else uses its constants gives the same verdict, output and counts with all of them moved to its beginning.",
  ["programs"], "a set of programs x every place x every form of definition, pairs and up to 1000 unused definitions; all placements of four constants in programs of six lines",
  "Tests define symbols one or two at a time in otherwise empty programs.",
  ["src/main.c", "src/parser.c", "src/symbol_table.c"],
  [("defining labels", "src/parser.c parse_label_declaration"), ("looking symbols up", "src/symbol_table.c search_symbol")])

p("C34", "A run stopped anywhere harms nothing, and the next is as good as the first",
  "Whatever the point at which a run is stopped (killed before or between any two system calls, in the middle of a write, by the file size limit, or given up because a call fails), the source and every other file that existed before, the output excepted, is unchanged, and success has not been reported unless the output was already complete. Assembling afterwards, over whatever such runs of this or of other sources left behind, gives exactly the exit status, text and output of a run where nothing was there before.",
  ["crash_points", "fault_sequences"], "every input/output call of each program of a set x five sizes of a torn write, followed by every program of the set; sequences of two and three such runs; all short programs; on the real program every system call, every write in parts, every file size limit",
  "Tests never stop a run, nor start one where another has left something.",
  ["src/main.c", "src/generator.c"],
  [("opening the output", "src/main.c main"), ("report after the output is closed", "src/main.c main")],
  observe=["exit status", "standard output", "output file", "other files"])

p("C35", "Runs at the same time do not disturb each other",
  "Runs that go on at the same time, with output files that differ, of the same or of different sources, in one or in several directories, each give the exit status, text and output they give alone, whatever the order in which their system calls happen and also if one of them is killed.",
  ["schedules"], "pairs of runs of the real program in seven arrangements of sources, outputs and directories; all interleavings of their system calls with up to two (three) changes from one to the other",
  "Tests run one thing at a time, and a schedule that shows a shared temporary file or lock is rare.",
  ["src/main.c"],
  [("files a run opens", "src/main.c main")],
  observe=["exit status", "standard output", "output file"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
