#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts is this file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe_at, state=()):
    if len(title) > 80: print("TOO LONG", len(title), title)
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in state],
                     mechanism=[dict(name=m, where=files[0]) for m in mechanism], observe_at=observe_at, hook_needed=None)))

# ---------------------------------------------------------------- decoding and disassembly
prop("C01", "Disassembly splits code exactly into its consecutive instructions",
 "Disassembling a byte sequence at an address yields instructions whose bytes, joined, are a prefix of the input; each has the address where the previous one ended, the 2 or 4 byte size its first halfword dictates, and the meaning it has when decoded alone. "
 "The walk ends silently only when the whole input is used up or when fewer than four bytes remain and they are undefined; at any other position that does not decode it raises that decode error, after yielding everything before it.",
 ["inputs"], "every byte sequence (any mix of valid, undefined, unpredictable and truncated instructions, odd lengths included) at every start address",
 "The tests decode single instructions; no test calls the disassembler on a sequence at all.",
 ["cmdis/disasm.py", "cmdis/decoder.py"], ["linear sweep over the input, advancing by the size of each decoded instruction"],
 ["the sequence of yielded instructions (address, size, bytes, text) and the terminating exception"])
prop("C02", "Decoding is total, deterministic and independent of history",
 "For every byte sequence and address, decoding either returns an instruction or raises one of the two documented errors (undefined instruction, unpredictable), never anything else. "
 "The outcome depends only on the first instruction's bytes and the address: not on trailing bytes, on the container holding the bytes, on what was decoded, formatted or executed before, or on another instruction object made from the same encoding.",
 ["inputs", "histories"], "all 65536 first halfwords exhaustively, 32-bit encodings near and far from the supported ones, truncated inputs, and interleaved histories of decode, format and execute calls",
 "Tests decode about 160 hand-picked encodings, once each, in a fresh process; totality and history independence quantify over all words and all histories.",
 ["cmdis/decoder.py", "cmdis/instructions.py"], ["decoder tree lookup, per-decoder mask and match, handler call on a fresh instruction object"],
 ["decode() return value or exception type"], [("decoder tree", "the shared table of decoders, which decoding must not change")])
prop("C03", "Every encoding decodes to the instruction the Thumb encoding table names",
 "A halfword or word that matches one of the supported ARMv7-M Thumb encodings decodes to that instruction (mnemonic and size), the most specific encoding winning where several match, and one that matches none is reported as an undefined instruction. "
 "Forbidden operand combinations that the decoder checks (empty or illegal register lists, SP or PC operands of the 32-bit reverse-subtract, multiply and test instructions, mismatched byte-reverse registers, write-back with the base register in the list, illegal special registers, CPS with no flag selected) are reported as unpredictable.",
 ["inputs"], "all 16-bit encodings exhaustively; generated 32-bit words over every supported encoding, its single- and multi-bit neighbours, and random words",
 "Tests cover one to four operand values per encoding and assert no undefined or unpredictable encodings; the table quantifies over 2^16 + 2^32 words.",
 ["cmdis/instructions.py", "cmdis/decoder.py"], ["encoding specifications on each handler; tree dispatch with most-specific-first order; explicit checks in handlers"],
 ["mnemonic and size of the decoded instruction, or the error raised"])
prop("C04", "The assembly text states the operands that the encoding holds",
 "The formatted text of an instruction consists of its encoding in hex by halfwords, its mnemonic, and exactly the operands of the encoding in assembly order: registers by their ARM names, immediates and shift amounts with their decoded values, complete register lists in ascending order with consecutive registers as ranges, memory operands with base, index, shift or offset and the write-back mark, special register names, and barrier and CPS options. "
 "Every immediate above 9 also appears in hex in the comment.",
 ["inputs"], "all decodable 16-bit encodings exhaustively and generated 32-bit encodings with every field varied",
 "The tests only print the formatted text, they assert nothing about it; fields are sampled at one or two values.",
 ["cmdis/formatter.py", "cmdis/instructions.py", "cmdis/registers.py"], ["operand objects set by each handler, rendered by the formatter"],
 ["Formatter.format() text"])
prop("C05", "A shown label address is the address that execution uses",
 "For every branch, branch-with-link and address-to-register instruction at any address, the absolute address in the text's comment equals, modulo 2^32, the address that executing it there puts in PC (taken branch) or in the destination register, and the relative label is that address minus the instruction's own. "
 "Moving an instruction to another address changes nothing else in its text.",
 ["inputs"], "every offset of the 16-bit encodings, generated offsets of the 32-bit ones, all addresses including unaligned-by-two ones and both ends of the address space",
 "Tests never look at the text and decode every instruction at address 0.",
 ["cmdis/formatter.py", "cmdis/instructions.py"], ["label operand computing the target from the instruction address; branch and ADR execution computing it from PC"],
 ["text comment and label, CPU state after execution"])
prop("C06", "Formatting is a pure function of the instruction",
 "Formatting an instruction gives the same text each time, whatever that formatter or another one formatted before, whether or not the instruction has been executed, and whatever CPU the formatter was made with, and comments of one instruction never appear on another. "
 "It changes neither the instruction (its bytes, size, address, mnemonic and later execution) nor the CPU.",
 ["histories"], "interleavings of decode, format and execute over several instructions, formatters and CPUs",
 "Tests format each instruction once with a new formatter and do not look at the result.",
 ["cmdis/formatter.py"], ["per-call reset of the comment list and current instruction"],
 ["text returned by repeated calls, instruction attributes, CPU registers"], [("formatter comments", "comments gathered during one call")])

# ---------------------------------------------------------------- execution
prop("C07", "Add, subtract, compare and multiply produce ARM results and flags",
 "Executing any supported add, add-with-carry, subtract, subtract-with-carry, reverse-subtract, compare, compare-negative or multiply writes the 32-bit result the ARM definition gives to the named destination (none for compares), and sets N, Z, C and V exactly as defined: no flags for the non-setting forms, only N and Z for the multiply. "
 "All other state is unchanged apart from PC, which moves to the next instruction.",
 ["inputs"], "every such encoding, every register assignment including equal, SP and PC operands, every immediate, and all operand and flag values",
 "Tests use a few small positive operand values; carry and overflow corners, register aliasing, and the compare encodings marked 'TODO test' are never reached.",
 ["cmdis/instructions.py", "cmdis/helpers.py", "cmdis/bitstring.py"], ["carry-in addition with inverted operand; flag writes through the APSR view"],
 ["registers, flags and memory after execute()"])
prop("C08", "Logical, shift, move, extend, reverse and test produce ARM results and flags",
 "Executing any supported AND, EOR, ORR, BIC, shift or rotate (immediate or by register amounts 0 to 255), move, move-not, wide move, sign or zero extension with rotation, byte reversal or test instruction writes the defined 32-bit result (none for test), with N and Z from the result when it sets flags, C from the shifter or expanded immediate where defined, and V and every other flag unchanged. "
 "A move to PC branches to the value moved; all other state is unchanged.",
 ["inputs"], "every such encoding and register assignment, all operand values, all shift amounts in the bottom byte with arbitrary upper bytes, all flags",
 "Tests run one or two values per shift and never an amount of 0, 32 or above; mvn, movw, mov.w and tst carry results are untested.",
 ["cmdis/instructions.py", "cmdis/helpers.py"], ["shifter with carry, immediate expansion, bit slicing"],
 ["registers, flags and memory after execute()"])
prop("C09", "Branches go where, when and with the link that ARM defines",
 "A conditional branch is taken exactly when its condition holds for the current flags; a taken branch sets PC to the instruction's address plus 4 plus the signed offset (or to the register's value with bit 0 cleared), an untaken one to the next instruction. "
 "Only the linking forms write LR, with the address of the following instruction and bit 0 set, and a branch to LR with link uses the old LR; nothing else changes.",
 ["inputs"], "16 flag settings times 14 conditions times all offsets; all register branches; all 25-bit branch-with-link offsets sampled; all instruction addresses",
 "Tests check one offset per sign and each condition's simple cases at one address, not the combination of conditions, flags and offsets; branch b_t2 is marked untested.",
 ["cmdis/instructions.py"], ["condition table over the APSR view; offset sign extension; link computation"],
 ["PC, LR and all other state after execute()"])
prop("C10", "Loads and stores access exactly the addressed bytes",
 "Executing any supported single load or store accesses memory once, at base plus offset (immediate, shifted register, or PC-relative with PC aligned down to four), modulo 2^32 and with the access size of the instruction; a load writes the sign- or zero-extended little-endian value to its destination and a store writes the low bytes of its source. "
 "No other memory is accessed, no other register changes, and loading PC branches to the loaded value.",
 ["inputs"], "every load/store encoding, register assignment (destination equal to base or index included), offset, and memory content, in the whole address space",
 "Tests load or store one value at one address per encoding with non-overlapping registers.",
 ["cmdis/instructions.py", "cmdis/model.py"], ["address computation, memory access by size, extension"],
 ["recorded memory accesses and registers after execute()"])
prop("C11", "Push, pop and load/store multiple move exactly the listed registers",
 "Executing a push, pop, load-multiple or store-multiple transfers each listed register and no other, lowest-numbered register at the lowest address in consecutive words, descending from SP for push and ascending from the base otherwise. "
 "SP moves by four times the count, the base is written back by that amount exactly when the instruction says so (not when a load lists the base), PC is loaded when listed, and a pop after the matching push restores registers and SP.",
 ["inputs", "histories"], "all register lists of the 16-bit forms exhaustively, generated lists of the 32-bit forms, all SP and base values including wrap-around, push/pop sequences",
 "Tests use one or two register lists at one stack address, and part of them fail on the original tree.",
 ["cmdis/instructions.py"], ["loop over list bits with running address; SP and base write-back"],
 ["recorded memory accesses and registers after execute()"])
prop("C12", "System instructions affect only the special state they name",
 "CPS sets or clears exactly the selected mask registers and does nothing when unprivileged, MRS copies the selected special register into its destination (flag and exception-number fields of xPSR, stack pointers, mask registers, control) with every unselected or reserved bit zero and privileged-only registers reading as zero when unprivileged (handler mode is always privileged), and hints and barriers only advance PC. "
 "None of them changes anything else.",
 ["inputs"], "every encoding of these instructions with all values of xPSR, the stack pointers, mask registers and CONTROL",
 "No test executes CPS, MRS or a barrier.",
 ["cmdis/instructions.py", "cmdis/model.py"], ["special register reads by SYSm value, privilege test, mask register writes"],
 ["all registers after execute()"])
prop("C13", "Execution changes only what the instruction names, and PC moves to the next one",
 "Executing any supported instruction with architecturally defined effect leaves every register, flag, special register, floating-point register and memory byte that it does not name unchanged, and unless it branches or loads PC it increases PC by exactly its size modulo 2^32. "
 "In particular flags are untouched by forms that do not set flags, and reserved xPSR bits are always kept. Instructions that decode but whose effect is not simulated (BKPT, SVC, UDF, MSR) change nothing but PC. The CPU's mode (thread or handler) is never changed.",
 ["inputs"], "every supported encoding over random complete machine states",
 "Tests assert the destination register, sometimes flags, never the rest of the state.",
 ["cmdis/instructions.py", "cmdis/model.py"], ["each instruction's execution method; flag bits written by read-modify-write of xPSR"],
 ["complete register file and memory before and after execute()"])
prop("C14", "A decoded instruction is reusable and independent of other instructions and CPUs",
 "Executing the same decoded instruction object again, on the same or another CPU, before or after formatting it, or after other instructions of the same kind were decoded and executed, has the same effect as executing a newly decoded one in that state. "
 "Effects go to the CPU it is executed on and no other, and are relative to that CPU's PC rather than to the address given when decoding.",
 ["histories"], "histories of decode, format and execute over a pool of instruction objects and several CPUs",
 "Each test executes one instruction object once on one CPU.",
 ["cmdis/instructions.py", "cmdis/decoder.py", "cmdis/bitstring.py"], ["operands held in instruction attributes that execution must not modify; class and decoder attributes shared between instances"],
 ["state of all CPUs after each step, compared with a fresh decode and with the reference"])
prop("C15", "A program's execution history matches an ARMv7-M reference machine",
 "Fetching, decoding and executing any sequence of supported instructions, starting from any state, leaves registers, flags, stack pointers and memory equal to an independent ARMv7-M reference machine after every step. "
 "This includes programs that loop, call, return, push and pop, and overwrite their own code or data.",
 ["programs", "histories"], "generated programs with loops, calls and memory traffic run for many steps on the bundled mock CPU",
 "No test runs more than one instruction on a CPU.",
 ["cmdis/instructions.py", "cmdis/model.py", "cmdis/mock_cpu.py", "cmdis/decoder.py"], ["composition of decode and execute over shared CPU state"],
 ["complete CPU state and memory after every step"])
prop("C16", "CPU registers hold 32-bit values, with aliases and banked stack pointers",
 "After any history of register writes through any name or view (indexed, named property, r13/sp style aliases, any letter case), each register reads back the value last written to it modulo 2^32 as a 32-bit value, except that stack pointers are word aligned, mask registers keep only their defined bits, and SP always equals the stack pointer that CONTROL selects. "
 "Each flag view reads and changes exactly its bit of xPSR, float register n is the n-th float register, indexes outside a register bank are errors, a new CPU has all registers zero apart from the Thumb bit of xPSR, and separate CPUs share nothing.",
 ["histories"], "generated histories of writes and reads of all registers through all views over several CPUs",
 "Tests use registers only as instruction operands; no test covers the float registers, aliases, the special registers or switching the stack pointer.",
 ["cmdis/model.py", "cmdis/mock_cpu.py", "cmdis/registers.py"], ["register name table, indexed views with bounds, APSR view, delegate's banking on writes"],
 ["register reads through every view"], [("mock registers", "value per register index"), ("SP banking", "SP mirrors MSP or PSP by CONTROL.SPSEL")])
prop("C17", "Mock memory behaves as little-endian bytes in fixed-size regions",
 "After any history of 8, 16 and 32-bit and block writes, every read of any size returns the little-endian composition of the bytes last written, zero where never written; a value wider than its access is truncated, and where regions overlap the one added first is used. "
 "Words and halfwords reaching past the end of a region read as zero and are dropped there, accesses outside of all regions read as zero and have no effect, block reads return only bytes of the region, and no access changes other bytes or the size of a region.",
 ["histories"], "generated region layouts and histories of reads and writes at, across and outside region boundaries, at any alignment",
 "Tests only use word-aligned accesses in the middle of a region.",
 ["cmdis/mock_cpu.py", "cmdis/model.py", "cmdis/utilities.py"], ["region lookup by address, slice access into a bytearray"],
 ["values returned by reads, contents of all regions"], [("memory regions", "start, end and bytes")])

# ---------------------------------------------------------------- bitstring
prop("C18", "Bit string arithmetic and logic are exact modulo 2^width",
 "For all widths and values, addition, subtraction, multiplication, floor division, shifts, AND, XOR, OR and inversion of a bit string with a bit string, integer or binary text give the mathematical result modulo 2 to the width of the left operand (of the wider operand for XOR and OR), and value, unsigned and signed views agree: signed is the two's complement reading for widths of two or more. "
 "Reflected operators treat a plain integer left operand as a bit string of its own.",
 ["inputs"], "all widths 0 to well above 64, all values with corner bias, all operand types",
 "Tests check single values at widths 4 to 8.",
 ["cmdis/bitstring.py"], ["masking of every result to the width"], ["value and width of results"])
prop("C19", "Bit string operators do not change their operands; in-place forms equal them",
 "No operator, conversion, comparison, indexing, slicing, extension or property read changes the bit strings it is given, also when the same object is given twice, and results share no state with operands. "
 "Each in-place operator and method changes only its target, leaving it equal to what the corresponding pure operator returns.",
 ["inputs", "histories"], "all operations over all widths, values and aliasing patterns, and chains of operations on shared objects",
 "Tests look at results, never at operands afterwards.",
 ["cmdis/bitstring.py"], ["copies made by pure operators; set() used by in-place ones"], ["all live bit strings after each operation"])
prop("C20", "Bit string structure operations agree with the sequence of bits",
 "For every bit string: construction from binary text, bit sequences, integers, little-endian bytes and other bit strings, indexing (also negative), slicing with any bounds and step, single-bit and slice assignment, iteration, concatenation, reversal, sign and zero extension, bit counts, lowest and highest set bit, zero and ones tests, conversions to bytes and to text in bases 2, 8, 10 and 16, all equal the same operation on its plain list of bits. "
 "Joining the slices of any partition restores the original, and converting to bytes or binary text and back restores it. An index, assignment or concatenation that no list of bits could take is an error that changes nothing.",
 ["inputs"], "all widths (including zero and non-multiples of eight), values, indexes, slice bounds and steps",
 "Tests check a handful of values per operation, no empty bit strings and no byte arrays.",
 ["cmdis/bitstring.py"], ["value and width pair with mask; slicing bit by bit"], ["results of each operation"])
prop("C21", "Bit string comparison is a total order consistent with hash and truth",
 "Comparison of bit strings is a total order by value, then width, with the six operators mutually consistent; comparison with a non-negative integer is by unsigned value and with a negative integer by signed value, with binary text as a bit string, and with any other type unequal or a type error. "
 "Equal bit strings have equal hashes, and a bit string is true exactly when its value is not zero.",
 ["inputs"], "all pairs and triples of widths and values, integers of both signs, text and foreign types",
 "Tests compare a few equal values; ordering laws quantify over triples.",
 ["cmdis/bitstring.py"], ["rich comparison methods, hash and truth value"], ["results of operators"])

# ---------------------------------------------------------------- helpers, decoder framework, utilities
prop("C22", "Shift and rotate primitives give ARM results and carries at every width",
 "Each shift and rotate primitive (left, logical right, arithmetic right, rotate, rotate with extend, the generic dispatcher and immediate shift decoding) returns, for every width, value, amount and carry-in, the result and carry-out of the ARM pseudocode, with and without carry-out agreeing. "
 "A zero amount returns value and carry-in unchanged, and amounts at and above the width shift everything out (rotates reduce modulo the width).",
 ["inputs"], "widths 1 to 64, amounts 0 to well above the width, all values with corner bias, both carries; the small widths exhaustively",
 "Tests use one or two values per primitive and amounts below the width.",
 ["cmdis/helpers.py"], ["extended-width shifting with carry bit extraction"], ["returned value, width and carry"])
prop("C23", "Carry addition, immediate expansion and alignment follow the ARM pseudocode",
 "Adding with carry returns the sum modulo 2^width with carry-out exactly when the unsigned and overflow exactly when the signed sum does not fit; expanding any of the 4096 modified immediates gives the defined 32-bit constant and carry; aligning rounds down to a multiple of any power of two, for bit strings and integers alike. "
 "Inputs are never changed.",
 ["inputs"], "the 4096 immediates and small-width additions exhaustively, larger widths generated with corner bias",
 "Tests check under twenty values.",
 ["cmdis/helpers.py"], ["wide addition compared with truncated result; rotation of the immediate"], ["returned tuple"])
prop("C24", "Encoding specifications select exactly their bits",
 "Parsing an encoding specification yields its fixed bits, named fields and named constants in order with their widths, independent of white space, and rejects unexpected characters. "
 "A decoder built from it accepts exactly the words whose fixed bits match and hands its handler each named field with exactly the bits and width specified, for 16-bit and two-halfword encodings.",
 ["inputs"], "generated specifications of 16 and 2x16 bits with random fields, constants and spacing, against random words",
 "The parser tests list about 25 specifications and no test checks field extraction in general.",
 ["cmdis/decoder.py"], ["state machine parser; mask, match and field offsets computed from it"], ["parse result; arguments received by handlers"])
prop("C25", "Dispatch among any set of decoders picks the most specific that accepts",
 "For any set of decoders in which overlapping encodings differ in their number of fixed bits, decoding a word calls the matching decoder with the most fixed bits, independent of the order they were added; if its handler declines, the next most specific matching one is tried, and if none accepts the word is undefined. "
 "16-bit and 32-bit encodings are kept apart by the first halfword, an unpredictable error raised by a handler is passed on, building again after adding decoders takes them into account, and dumping the tree names each decoder once.",
 ["inputs", "configurations"], "generated decoder sets of 0 to 40 decoders with nested, disjoint and overlapping masks, declining handlers, and random words",
 "Tests only use the one built-in decoder set.",
 ["cmdis/decoder.py"], ["recursive tree by common mask; descending specificity order; fall through on decline"], ["which handler ran, with which instruction; error raised"])
prop("C26", "Conversion utilities are exact and inverse to each other",
 "Byte, halfword and word packing and unpacking (single values and lists, little endian), 32-bit inversion, bit masks, bit field extraction and insertion (any bounds, including a field that starts at bit 0 and single bits), population count, and integer to IEEE-754 single conversion are exact for all values in range. "
 "Each packing and its unpacking are inverse, and extracting an inserted field returns it while leaving other bits alone.",
 ["inputs"], "all 8, 16 and 32-bit values with corner bias, lists of any length, all field bounds",
 "No test covers these functions directly.",
 ["cmdis/utilities.py"], ["shift and mask expressions"], ["return values"])

# ---------------------------------------------------------------- console, package, delegate
prop("C27", "Console memory and register commands act on the simulated CPU as stated",
 "In an interactive session, register and memory write commands store exactly the given values (numbers in any base, register names, or dereferenced addresses with offsets) at the given place, read commands and register commands print exactly the current contents with the right addresses and widths, and commands of one line separated by semicolons run in order, a blank line repeating the last line. "
 "The command name's case and aliases make no difference.",
 ["histories"], "generated sessions of register and memory commands with all aliases, number formats and widths over a generated binary image",
 "No test runs the console.",
 ["cmdis/__main__.py", "cmdis/utilities.py"], ["command table, argument conversion, hex dump"], ["console output and CPU state after each command"])
prop("C28", "The console steps and lists code like the library; only exit ends a session",
 "Starting with a binary maps it at address 0 and takes SP and PC from its first two words when they lie in mapped memory; step shows and executes exactly the instruction at PC, reset does the same again, and disassembly lists the instructions of the given range, with those of undefined or unpredictable code reported and state unchanged. "
 "No other input line, valid or not (Python expressions aside), ends the session or changes state it does not name; exit and quit end it.",
 ["histories"], "generated binaries and sessions mixing steps, listings, resets, malformed commands and options",
 "No test runs the console.",
 ["cmdis/__main__.py"], ["session loop with error handling; reset from the vector table; step and listing through the disassembler"], ["console output, CPU state, end of session"])
prop("C29", "The built package behaves like the source tree",
 "The Python 3 package made by the build (with its source conversion) decodes, formats and executes every instruction, and evaluates every bit string operation, exactly as the modules in the source tree do.",
 ["inputs", "programs"], "generated words, states, programs and bit string expressions run on both copies",
 "The build only compiles and imports the converted package; tests run the sources.",
 ["setup.py", "cmdis/bitstring.py", "cmdis/decoder.py", "cmdis/instructions.py", "cmdis/formatter.py", "cmdis/utilities.py"], ["source conversion at build time"], ["results of both packages compared"])
prop("C30", "CPU back ends receive plain integers in range and are the only state",
 "Whatever value types are used with a CPU model (bit strings or integers; single or block accesses) and whatever instruction is executed, its back end is called with a known register number or a 32-bit address as plain integers, a plain integer value that fits the register or access width when an instruction writes it, and sizes 8, 16 or 32. "
 "The model keeps no copy: a change made in the back end, or replacing the back end, shows in the next read or executed instruction.",
 ["histories"], "generated programs and accessor histories with a strict recording back end which is changed and replaced in between",
 "All tests use the bundled mock back end, which accepts anything.",
 ["cmdis/model.py", "cmdis/instructions.py", "cmdis/registers.py"], ["conversion of bit strings at the model boundary"], ["calls received by the back end"])

# ---------------------------------------------------------------- across the parts
prop("C31", "Whatever decodes can be described and executed in every state, repeatably",
 "Every instruction that decoding accepts (including those whose effect is architecturally unpredictable or not simulated) can be formatted, represented as text and executed on the bundled CPU in every register and memory state, inside and outside mapped memory, without an error. "
 "Execution ends, two executions by separate instruction objects in equal states leave equal states, all registers remain 32-bit values, and memory regions keep their size.",
 ["inputs", "configurations"], "all halfwords exhaustively and generated 32-bit words at, near and away from the supported encodings, with corner-biased machine states and region maps",
 "Tests execute a few instructions in one or two states each; totality and repeatability quantify over all words and states.",
 ["cmdis/instructions.py", "cmdis/formatter.py", "cmdis/mock_cpu.py", "cmdis/model.py", "cmdis/registers.py"], ["handler and execute method of each instruction class; masking at the model boundary"],
 ["exceptions; registers and memory after execution"])
prop("C32", "Register dumps and representations show the current state",
 "A CPU model's register dump shows each of the sixteen core registers once, with its current value as eight hex digits, and its representation shows PC, xPSR and the registers 0 to 14 in order with their current values, whatever was written since the last dump; an instruction's representation shows its mnemonic and its complete encoding. "
 "Showing them changes nothing.",
 ["inputs", "histories"], "generated machine states on two back ends with writes between dumps; generated instructions",
 "No test reads a dump or a representation.",
 ["cmdis/model.py", "cmdis/instructions.py"], ["formatting of registers read through the model"], ["text shown, state before and after"])
prop("C33", "Equivalent and inverse instruction sequences agree",
 "Sequences of instructions that are equivalent by the architecture leave equal registers, flags and memory in every state: narrow and wide, immediate and register forms, a multiple transfer and its single transfers, store and load back, push and pop, extension and shift pairs, rotation and shifts, subtraction and addition of the complement, compare and subtract, branches there and back, and the special register views. "
 "Sequences that undo each other leave the state as it was.",
 ["inputs", "programs"], "about 45 relations between sequences, with generated operand registers, immediates, aliasing and complete machine states",
 "Tests never relate two instructions; the relations quantify over all operands and states.",
 ["cmdis/instructions.py", "cmdis/helpers.py", "cmdis/model.py"], ["shared helpers and the separate execute methods of each encoding"],
 ["registers, flags and memory after each sequence"])

prop("C34", "Instructions a user adds work like the built-in ones",
 "An encoding declared with the instr decorator, with an instruction class of the user's, takes part in decoding, disassembly, formatting and execution like the built-in ones once the decoder is built: its words decode to that class with the declared fields, attributes, address and bytes, its operands of any kind and value are formatted in assembly order and syntax, and it runs on any CPU model, moving PC to the next instruction when its class does not say otherwise. "
 "Every other word decodes, formats and executes as it did before, whatever was added.",
 ["inputs", "configurations"], "generated sets of encodings (accepting, declining or refusing) added in a fresh copy of the package, with words in and around them; generated operand trees",
 "Tests only use the built-in instructions; the decorator, operand classes and decoder are the extension point.",
 ["cmdis/decoder.py", "cmdis/formatter.py", "cmdis/disasm.py", "cmdis/instructions.py"], ["decorator, decoder tree construction, operand formatting, default PC update"],
 ["class, fields, text and effect of added and built-in words"])
prop("C35", "Declared CPU features change exactly what the architecture says",
 "A CPU model that declares the DSP extension shows the GE bits in the special register reads of the APSR forms, one that declares the floating-point extension shows FPCA in reads of CONTROL, and one that is in an IT block executes the 16-bit flag-setting forms without changing flags. "
 "Everything else executes the same with and without the features, and each execution follows the features declared at that moment.",
 ["inputs", "histories"], "generated instructions executed several times on models whose features change in between",
 "All tests use the model without features.",
 ["cmdis/model.py", "cmdis/instructions.py", "cmdis/registers.py"], ["feature properties of the model, read by flag setting and special register views"],
 ["registers, flags and memory after each step"])

prop("C36", "Console expressions see the live CPU; help and log do what they say",
 "A console line that starts with $ evaluates the rest as a Python expression in which cpu is the simulated CPU: an integer result is shown in hex and decimal, any other result as text and none when there is no value, and the CPU state it reads and changes is the one that all other commands use. An expression that fails is reported and the session goes on. "
 "Help lists every command under all its names and each name that it lists is accepted, and log sets the log level it names, reporting one that does not exist.",
 ["histories"], "generated sessions of expressions of every kind of value and effect, alone, repeated and in lists with other commands",
 "No test runs the console.",
 ["cmdis/__main__.py"], ["expression evaluation, help listing and command tables, log levels"], ["console output, CPU state, log level after each line"])

prop("C37", "Compiled code computes what its source says",
 "Machine code that a standard C compiler produces for ARMv6-M, loaded into a CPU with mock memory and executed instruction by instruction from what the disassembler yields, does what the C source defines: each function called by the procedure call standard (arguments in registers and on the stack, either stack pointer) returns, with the result, the contents of all global data and the preserved registers that the source and the standard require, for every program, argument and optimisation level. "
 "The same holds for ARMv7-M code as far as it uses encodings that the project supports.",
 ["programs", "inputs"], "generated C programs (integer arithmetic of 8 to 64 bits, arrays, structures, tables, loops, direct, indirect and recursive calls), compiled at six levels and called with corner-biased arguments",
 "Tests execute single instructions; whether their compositions compute what real programs mean is over all programs.",
 ["cmdis/instructions.py", "cmdis/helpers.py", "cmdis/model.py", "cmdis/mock_cpu.py", "cmdis/disasm.py", "cmdis/decoder.py"], ["all executed encodings, the CPU model and the mock memory together"],
 ["function result, global data, preserved registers and stack pointer after each call"])

prop("C38", "The printed assembly, assembled, gives the instruction back",
 "The text that the disassembler prints for an instruction (mnemonic and operands, without the encoding and the comment) is assembly source in unified syntax: a standard assembler accepts it at the instruction's address and produces the same encoding, or one of the same size with the same operands or the same effect, for every supported encoding with operands that the architecture defines.",
 ["inputs"], "all 16-bit encodings and generated 32-bit ones, at word-aligned and halfword-aligned addresses",
 "Tests print the text at most; the syntax is defined by assemblers, over all operands of all encodings.",
 ["cmdis/formatter.py", "cmdis/instructions.py", "cmdis/registers.py"], ["operand formatting, operand lists of each encoding, mnemonics"],
 ["formatted text"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
