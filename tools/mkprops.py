#!/usr/bin/env python3
"""Regenerates properties.jsonl (single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": None}})
VM = "src/vm/vm.c"; VH = "src/vm/vm.h"; ASM = "q3asm/q3asm.c"
TESTS = "test/q3vm_test runs one compiled program and a few corrupted headers"

p("V01", "Data accesses stay inside the VM's data memory",
  "No bytecode program, whatever its instructions, operands, stack contents and memory contents, makes a VM call read or write host memory outside the VM's own data allocation and its own internal tables: every load, store, argument write, stack-frame access and block copy lands inside the allocated data memory, or the call ends with a reported error.",
  ["programs", "inputs"], "all instruction encodings, operands, operand-stack values and VM memory contents; program stack moved to any reachable value",
  TESTS + "; hostile addresses, frame sizes and stack positions are never executed.",
  [VM], [("address masking with dataMask", VM), ("block copy range test", VM), ("frame bounds in ENTER/LEAVE and call entry", VM)],
  [("programStack", "VM stack pointer", VM), ("dataMask", "size-1 of data memory", VM)], ["VM_Call"])
p("V02", "Control flow stays inside the loaded instructions",
  "Every call, jump and branch of a bytecode program, with any target value, either continues at an instruction of the loaded code or ends the VM call with a reported error; a return, whatever the program left in its saved return slot, continues inside the loaded code or ends the call. The interpreter never fetches instructions or operands from outside the code it loaded.",
  ["programs", "inputs"], "all targets of CALL/JUMP/branches, all saved return addresses in VM memory, code running off its end",
  TESTS + "; only targets produced by the compiler are taken.",
  [VM], [("target range tests in CALL, JUMP, LEAVE and at load time", VM)], [("instructionPointers", "start of every instruction", VM)], ["VM_Call"])
p("V03", "Loading arbitrary bytes is memory-safe",
  "Creating a VM from any byte buffer of any content, with any length value not larger than the buffer, never reads outside the buffer, never writes outside memory the VM allocated, and never writes to the buffer's bytes; it returns 0 or -1.",
  ["inputs"], "all image contents (header fields and code bytes) up to the stated image size, all length arguments",
  "the tests corrupt a handful of header fields of one image and flip single bytes; overflowing sums, truncated operands and odd segment orders are not reached.",
  [VM], [("header validation", VM), ("instruction scan bounds", VM)], None, ["VM_Create"])
p("V04", "The loader rejects malformed images and accepts valid ones",
  "VM_Create fails (returns -1, reports an error, leaves no allocation behind) for a wrong magic number, negative or oversized segment lengths, segments outside the image, code that ends inside an instruction or before instructionCount instructions, an unknown opcode, or a branch to a non-existing instruction; it succeeds for every well-formed image when memory is available.",
  ["inputs"], "all header values, all code byte strings up to the stated bound",
  "tests try a dozen malformed headers; the boundary values and combinations are not covered.",
  [VM], [("header validation", VM), ("instruction scan", VM)], None, ["VM_Create", "Com_Error"])
p("V05", "A loaded image is represented faithfully",
  "After a successful load the VM memory holds the image's data and string segments at address 0 onwards (32-bit data words in little-endian value), every remaining byte is zero, the memory size is the smallest power of two that holds data, strings and bss, and each instruction executes with exactly the operand stored in the image (1-byte for argument writes, 4-byte little-endian otherwise), branch targets meaning instruction numbers.",
  ["inputs", "programs"], "all data/lit contents, operand values and branch targets for the stated segment sizes",
  "the test programs only notice a difference if one of their own constants is wrong.",
  [VM], [("data copy and byte swap", VM), ("operand expansion and jump translation", VM)], None, ["VM_Create", "VM_ArgPtr", "VM_Call"])
p("V06", "Integer and bitwise instructions compute two's-complement results",
  "For all 32-bit operands, negate, add, subtract, multiply, divide, modulus (signed and unsigned), and, or, xor, complement, the shifts (by 0..31) and the sign extensions leave exactly the C result for 32-bit two's-complement integers on the operand stack, consume exactly their operands, and change nothing else.",
  ["inputs"], "all 2^64 operand pairs of each instruction; divisor 0 is V18",
  "the test programs execute each instruction with a few constants.",
  [VM], [("arithmetic instruction bodies", VM)], None, ["VM_Call return value"])
p("V07", "Comparison instructions branch exactly when they should",
  "For all operand pairs, each of the 16 conditional branches (signed, unsigned and IEEE-754 float comparisons, including NaN, infinities and signed zeros) continues at its target instruction if and only if the comparison 'second-from-top OP top' holds, and at the following instruction otherwise, removing both operands.",
  ["inputs"], "all 2^64 operand pairs for 16 instructions",
  "tests take each comparison with a few benign values; signedness, NaN and boundary cases are not exercised.",
  [VM], [("branch instruction bodies", VM)], None, ["VM_Call return value"])
p("V08", "Float instructions follow IEEE-754 single precision",
  "For all operand bit patterns, float add, subtract, multiply, divide and negate produce the correctly rounded IEEE-754 single-precision result (any NaN counting as equal to any NaN), int-to-float conversion rounds to nearest even, and float-to-int truncates toward zero whenever the truncated value fits in 32 bits.",
  ["inputs"], "all 2^64 operand pairs, all 2^32 conversion inputs",
  "tests use sums of powers of two and one system call with a float.",
  [VM], [("float instruction bodies", VM)], None, ["VM_Call return value"])
p("V09", "Loads and stores transfer the right bytes",
  "A 1-, 2- or 4-byte store writes exactly the low 1, 2 or 4 bytes of the value, little-endian, at the address reduced modulo the data memory size, and no other byte of VM memory; a load of the same width returns those bytes zero-extended.",
  ["inputs"], "all addresses, values and prior memory contents",
  "tests store and reload aligned variables of compiled programs.",
  [VM], [("LOAD/STORE bodies", VM)], None, ["VM memory", "VM_Call return value"])
p("V10", "Frames, locals, arguments and returns follow the calling convention",
  "ENTER n/LEAVE n open and close a frame of n bytes, LOCAL k yields frame+k, ARG k stores to frame+k, CALL saves the return position and runs the addressed function, and on its LEAVE execution resumes after the CALL with the callee's result on the operand stack; the operand stack and the program stack are balanced across a call, and PUSH/POP add and discard exactly one entry.",
  ["programs", "inputs"], "all frame sizes, offsets, argument values and nesting within the stated call depth",
  "tests only run frames laid out by lcc.",
  [VM], [("ENTER/LEAVE/LOCAL/ARG/CALL/PUSH/POP", VM)], None, ["VM_Call", "VM memory"])
p("V11", "VM_Call passes its arguments and returns the program's result",
  "VM_Call delivers command and up to twelve further 32-bit arguments to the bytecode entry function unchanged and in order, returns the value the entry function leaves on the operand stack, restores the VM's program stack, also when it is entered again from inside a system call; a NULL or not-loaded VM yields -1 and an error report, not a crash.",
  ["inputs", "histories"], "all argument values, all results, call sequences and recursion up to the stated depth",
  "tests pass at most three arguments and recurse once.",
  [VM], [("VM_Call argument copy", VM), ("VM_CallInterpreted entry and exit", VM)], [("callLevel", "number of active calls", VM)], ["VM_Call"])
p("V12", "System calls receive the right number and arguments and return a result",
  "A CALL to a negative address -1-n invokes the host's system call function exactly once with word 0 equal to n and words 1..15 equal to the sign-extended words following it on the caller's stack frame; its 32-bit result becomes the top of the operand stack and execution resumes after the CALL.",
  ["inputs", "programs"], "all system call numbers, argument words and host results",
  "the test host implements five system calls with small arguments.",
  [VM], [("negative CALL path", VM)], None, ["systemCalls callback"])
p("V13", "Errors are contained and the VM stays usable",
  "When a VM call ends with an error, Com_Error is invoked with a non-zero code that is also stored as lastError, VM_Call returns -1 or the program's result, and the VM's program stack and call level are back at their values from before the call, so that a following VM_Call with valid input behaves as it would on a fresh VM with the same memory contents, and VM_Free releases everything.",
  ["histories", "programs"], "every error exit of the interpreter, followed by further calls",
  "tests end the process or free the VM right after an error.",
  [VM], [("error exits of the interpreter", VM)], None, ["VM_Call", "lastError"])
p("V14", "Block copy moves exactly the requested bytes or nothing",
  "BLOCK_COPY n copies exactly n bytes from the source to the destination address when both ranges end before the last byte of data memory, changing nothing else, and otherwise copies nothing and reports an out-of-range error (a range ending exactly at the end of data memory may be rejected); execution continues either way.",
  ["inputs"], "all source and destination addresses, all n up to the stated size for contents and all n for the range decision",
  "tests copy small aligned structs.",
  [VM], [("VM_BlockCopy", VM)], None, ["VM memory", "Com_Error"])
p("V15", "The memory range helper admits only ranges inside VM memory",
  "VM_MemoryRangeValid returns 0 only if the whole range [addr, addr+len) lies within the VM's data memory, for every 64-bit address and length, and it does return 0 for every non-NULL range that ends before the last byte of data memory; it returns -1 for a NULL address or VM.",
  ["inputs"], "all 64-bit addresses and lengths, all power-of-two memory sizes",
  "tests call it with a couple of small ranges.",
  [VM], [("VM_MemoryRangeValid", VM)], None, ["VM_MemoryRangeValid"])
p("V16", "Address translation and float bit-casts are exact",
  "VM_ArgPtr maps 0 to NULL and every other address to data memory at the address modulo the memory size, so that a string handed to the host always ends inside the allocation whatever the program wrote; VM_IntToFloat and VM_FloatToInt preserve all bit patterns.",
  ["inputs"], "all 64-bit addresses, all 32-bit patterns, strings placed at the very end of memory by arbitrary stores",
  "tests translate a few valid pointers.",
  [VM], [("VM_ArgPtr", VM), ("guard bytes after data memory", VM)], None, ["VM_ArgPtr"])
p("V17", "Allocations are paired with frees and allocation failure is handled",
  "Every block obtained from Com_malloc is passed to Com_free exactly once by VM_Free or by a failing VM_Create, with the matching type; failure of any allocation makes VM_Create return -1 without crash or leak; VM_Free on a running VM is refused with an error and changes nothing, and VM_Free on a NULL or already freed VM does nothing.",
  ["fault_sequences", "histories"], "each allocation failing in turn, all create/call/free sequences of the stated length",
  "the tests inject failures for a fixed list of allocations with one image.",
  [VM], [("VM_Create cleanup", VM), ("VM_Free", VM)], None, ["Com_malloc", "Com_free"])
p("V18", "No instruction makes the host process trap",
  "No instruction with any operands raises a host arithmetic trap: division and modulus by zero end the VM call with a reported error, and INT_MIN divided by -1 gives INT_MIN with remainder 0.",
  ["inputs"], "all operand pairs of the division, modulus, shift and conversion instructions",
  "no test divides by zero.",
  [VM], [("DIVI/DIVU/MODI/MODU", VM)], None, ["VM_Call"])
p("V19", "Execution is deterministic and discloses no host memory",
  "The result of VM_Call, the VM memory after it and the arguments seen by system calls depend only on the image, the call arguments, the VM memory and the system call results; no uninitialised or foreign host memory influences them, even for programs that misuse the operand stack.",
  ["programs", "inputs"], "all short programs incl. operand stack underflow and overflow, arbitrary prior contents of host stack and heap",
  "the tests run well-behaved programs once.",
  [VM], [("operand stack set-up", VM), ("data memory clearing", VM)], None, ["VM_Call"])
p("V20", "All interpreter builds behave the same",
  "The computed-goto build and the portable switch build give the same result, memory and error for every program and input, and the debug build agrees with them whenever it does not report one of its additional checks (misaligned frames or loads, operand stack limits). Programs that overwrite the saved return slots of the calling convention are left out.",
  ["configurations", "programs", "inputs"], "each instruction with all operands, in each of the three build configurations",
  "the test suite builds one configuration.",
  [VM], [("dispatch macros", VM), ("DEBUG_VM checks", VM)], None, ["VM_Call"])
p("V21", "The reference host's system calls cannot escape the sandbox",
  "For all argument words and VM memory contents, the standalone host's print, error, memset and memcpy system calls touch only the VM's data memory: memset and memcpy are performed exactly when the ranges are valid and otherwise have no effect, they return their first argument, and printed strings end inside VM memory.",
  ["inputs"], "all argument words, all memory contents, all memory sizes",
  "tests use the calls as bg_lib does.",
  ["src/main.c", VM], [("systemCalls", "src/main.c")], None, ["systemCalls"])
p("V22", "Operand stack misuse is contained and reported",
  "A program that leaves the entry function with an operand stack that does not hold exactly its one result, by an imbalance of fewer than 255 entries, is reported as a stack error, and pushing or popping without limit never touches memory outside the interpreter's operand stack.",
  ["programs"], "all push/pop imbalances modulo the stack size",
  "compiled test programs are always balanced.",
  [VM], [("8-bit operand stack index", VM), ("final stack check", VM)], None, ["VM_Call", "lastError"])

p("A01", "The assembler encodes instructions so that the VM executes them as written",
  "For every instruction mnemonic and every operand value, the assembler emits the opcode, operand width and byte order that the VM decodes, counts it as one instruction, and the image header's instruction count and code length describe the emitted code.",
  ["programs", "inputs"], "all mnemonics, all 32-bit operands",
  "the build assembles three programs; no test looks at the encoding.",
  [ASM, "q3asm/opstrings.h", "q3asm/ops.txt", VM], [("EmitByte/EmitInt", ASM), ("opcode table", "q3asm/opstrings.h")], None, ["output .qvm"])
p("A02", "Assembler expressions and numbers are evaluated exactly",
  "A decimal operand, with or without a minus sign, denotes that value modulo 2^32 (also when it has more digits than 32 bits hold), and an operand of the form a+b-c evaluates left to right modulo 2^32 with symbols replaced by their values, in instructions as in address, byte and equ directives.",
  ["inputs"], "all operand strings up to the stated length",
  "tests never check single operand values.",
  [ASM], [("ParseExpression", ASM), ("ParseValue", ASM)], None, ["output .qvm"])
p("A03", "Symbols resolve to their definition, and errors produce no output",
  "Every reference to a symbol gets the value of its unique definition irrespective of definition order and file order, symbols whose name begins with '$' are local to their file and all others are global, code labels are instruction numbers and data labels are addresses in the final layout; a duplicate or undefined symbol is reported and makes assembly fail with a non-zero status without producing an image.",
  ["programs"], "all small multi-file programs with symbolic names, orders and segments within the stated bound",
  "the build only assembles correct input.",
  [ASM], [("DefineSymbol/LookupSymbol", ASM), ("two passes", ASM)], None, ["output .qvm", "exit status"])
p("A04", "Segments are laid out and data emitted exactly as declared",
  "Byte directives of width 1 and 4, skip, align and address directives place their values little-endian at consecutive addresses after their label, also when widths are mixed within one object; width 2 is refused with an error; the image contains code, data and lit padded as the header says, symbol addresses are offset by the preceding segments, the program stack is reserved in bss, and the VM loads the image with every datum at its symbol's address.",
  ["programs", "inputs"], "all directive sequences up to the stated length with all operand values",
  "tests compare no image with its source.",
  [ASM, VM], [("directive handlers", ASM), ("WriteVmFile", ASM)], None, ["output .qvm"])
p("A05", "The assembler is memory-safe and terminates on any input text",
  "For every assembly input text the assembler terminates with an image or an error message; it never reads or writes outside its buffers and does not loop for ever.",
  ["inputs"], "all text lines up to the stated length, plus over-long lines and out-of-range directive operands",
  "the build only assembles compiler output.",
  [ASM], [("ExtractLine", ASM), ("Parse", ASM), ("segment limits", ASM)], None, ["exit status"])
p("A06", "Procedure frames and call arguments are assembled consistently",
  "Within proc/endproc with any local and argument sizes, the emitted ENTER and LEAVE sizes agree, locals and incoming parameters addressed through ADDRL and ADDRF lie in disjoint parts of the frame and the caller respectively, and outgoing ARG values are found by the callee as its parameters in order.",
  ["programs", "inputs"], "all local/argument sizes, all parameter counts within the stated bound",
  "tests run functions compiled by lcc with few arguments.",
  [ASM, VM], [("proc/endproc/ADDRL/ADDRF/ARG/CALL handling", ASM)], None, ["output .qvm", "VM_Call"])

p("L01", "Constant folding agrees with run-time evaluation",
  "Whenever the compiler folds an operation on constant integer operands (arithmetic, shifts, comparisons, logical and bitwise operators and conversions, signed and unsigned 8, 16 and 32 bit), the folded constant equals what the VM computes for the same operation at run time.",
  ["inputs"], "all operand values of every foldable operator and type",
  "test programs contain few constant expressions.",
  ["lcc/src/simp.c", "lcc/src/enode.c"], [("simplify", "lcc/src/simp.c")], None, ["emitted code"])
p("L02", "Integer, character and floating constants get the C value and type",
  "Every integer constant (decimal, octal, hexadecimal, with any suffix) up to 32 bits and every character constant and string escape denotes the value and type given by C for 32-bit int and long; constants that do not fit are diagnosed.",
  ["inputs"], "all spellings up to the stated length",
  "test programs use a few small constants.",
  ["lcc/src/lex.c"], [("icon", "lcc/src/lex.c"), ("backslash", "lcc/src/lex.c")], None, ["emitted code", "diagnostics"])
p("L03", "The compiler front end is memory-safe on any token text",
  "For every source text the compiler's lexer and input buffering terminate and never access memory outside their buffers.",
  ["inputs"], "all source texts up to the stated length at any buffer position",
  "the build only compiles correct programs.",
  ["lcc/src/lex.c", "lcc/src/input.c"], [("gettok", "lcc/src/lex.c"), ("fillbuf", "lcc/src/input.c")], None, ["exit status"])
p("T01", "Compiled and assembled programs behave as their C source",
  "For the C language features covered (integer, unsigned, char, short and float arithmetic and conversions, comparisons, pointers, arrays, structs, bit-fields, control flow including switch, function calls and recursion), the bytecode produced by compiler and assembler and run by the VM returns, for all argument values, the result that C defines for the source.",
  ["programs", "inputs"], "a corpus of C functions, each for all 32-bit argument values",
  "the test programs check about ten concrete results.",
  ["lcc/src", ASM, VM], [("code generation", "lcc/src/bytecode.c"), ("assembler", ASM), ("interpreter", VM)], None, ["VM_Call return value"])

p("C01", "Preprocessor conditionals select text as C defines",
  "#if and #elif expressions over integer and character constants with unary, arithmetic, shift, relational, equality, bitwise, logical and conditional operators and parentheses are evaluated with C precedence, associativity and signedness, and exactly the selected group's lines are passed on.",
  ["inputs", "programs"], "all operand values for each operator pair, all expressions up to the stated number of operators",
  "the build uses simple #ifdef guards.",
  ["lcc/cpp/eval.c"], [("eval", "lcc/cpp/eval.c"), ("evalop", "lcc/cpp/eval.c")], None, ["preprocessed text"])
p("C02", "The preprocessor is memory-safe and terminates on any input",
  "For every input text the preprocessor's tokeniser, conditional evaluator and macro expander terminate and never access memory outside their buffers.",
  ["inputs"], "all texts up to the stated length, expressions of any nesting depth",
  "the build only preprocesses well-formed sources.",
  ["lcc/cpp"], [("gettokens", "lcc/cpp/cpplex.c"), ("eval stacks", "lcc/cpp/eval.c"), ("macro expansion", "lcc/cpp/macro.c")], None, ["exit status"])
p("C03", "Macro replacement gives the tokens C defines",
  "For #define and #undef of object-like and function-like macros, arguments, the operators # and ##, rescanning and recursion, the preprocessor writes the sequence of tokens that C (C89, 3.8.3) defines for the source, whenever C defines one; two tokens that are separate in that sequence are separate in the output.",
  ["inputs", "programs"], "all texts made from the stated templates",
  "the build uses a handful of simple macros.",
  ["lcc/cpp/macro.c", "lcc/cpp/hideset.c", "lcc/cpp/tokens.c", "lcc/cpp/cpp.c"], [("expandrow", "lcc/cpp/macro.c"), ("substargs", "lcc/cpp/macro.c"), ("doconcat", "lcc/cpp/macro.c"), ("puttokens", "lcc/cpp/tokens.c")], None, ["preprocessed text"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
