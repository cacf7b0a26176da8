#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Integer, system and FPU instructions encode exactly what was written",
 "For every general-purpose, system and x87 instruction the assembler accepts in 16-, 32- or 64-bit code, the emitted bytes decode (by an independent disassembler) to the same operation on the same operands: mnemonic, registers, operand sizes, immediates and relative targets. A form that is valid x86 and part of the supported set is never rejected. An immediate is never silently changed: it is encoded so that the CPU sees the written value at operand size.",
 ["inputs", "configurations"], "all mnemonics x operand forms x register choices x immediates at size boundaries x code size 16/32/64",
 "the regression files compare a few hundred hand-picked lines with stored bytes; the space is mnemonics x forms x registers x immediates x modes",
 ["parser.c", "codegen.c", "codegenv2.c", "reswords.c", "H/instruct.h", "H/opndcls.h", "H/InstrTableV2.h"],
 [("operand classification and size checks", "parser.c ParseLine/process_register/idata_nofixup/check_size"), ("instruction table match and byte output", "codegen.c match_phase_1..3, output_opc, output_data"), ("CodeGenV2 table match", "codegenv2.c LookupInstruction/CodeGenV2")],
 [("InstrTable/InstrTableV2", "opcode, operand classes, prefixes per form", "reswords.c, H/InstrTableV2.h")],
 ["bytes of the object/binary file", "listing"])
prop("C02", "Every addressing form reaches the effective address that was written",
 "For every memory operand the assembler accepts - base, index, scale, displacement, segment override, 16/32/64-bit address size, RIP-relative or absolute, symbol plus offset - the emitted instruction accesses exactly the address the operand denotes, with the segment it denotes. Displacements keep their value whichever encoding size is chosen.",
 ["inputs", "configurations"], "all base/index/scale/displacement/segment combinations with displacements at the -128/127/16-bit/32-bit boundaries in 16-, 32- and 64-bit code",
 "stored outputs cover a handful of address forms with small displacements",
 ["parser.c", "expreval.c", "codegen.c", "codegenv2.c"],
 [("ModRM/SIB construction", "parser.c set_rm_sib, memory_operand"), ("V2 ModRM/SIB/REX", "codegenv2.c BuildMemoryEncoding, BuildREX, BuildModRM"), ("displacement/immediate output", "codegen.c output_data")],
 (), ["bytes of the object/binary file", "relocated image"])
prop("C03", "MMX, SSE, AVX, AVX2 and AVX-512 instructions encode exactly what was written",
 "For every SIMD instruction form the assembler accepts, the emitted legacy-SSE, VEX or EVEX bytes decode (by an independent disassembler) to the written mnemonic and operands, including vector length, masks, zeroing, broadcast, rounding/SAE, compressed displacement and immediate. A form of the supported set is never rejected, and a memory operand keeps its exact address under EVEX disp8 compression.",
 ["inputs", "configurations"], "all SIMD mnemonics x operand forms x register banks (0-7, 8-15, 16-31) x masks/broadcast/rounding x displacements that do and do not compress",
 "the AVX sources in the regression suite list each mnemonic with one or two register choices; several of them fail at the pinned commit",
 ["parser.c", "codegen.c", "codegenv2.c", "reswords.c", "H/instruct.h", "H/instravx.h", "H/InstrTableV2.h"],
 [("VEX/EVEX prefix construction", "codegen.c output_opc, codegenv2.c BuildVEX/BuildEVEX"), ("per-mnemonic VEX flags", "reswords.c vex_flags[]"), ("EVEX decorators", "tokenize.c / parser.c")],
 (), ["bytes of the object/binary file"])
prop("C04", "Jumps, calls and label references resolve to the label, in the shortest form",
 "In every program, each jump, call, loop or label difference resolves to the final address of the label named, however many passes it takes and however code sizes move in between; an unspecified jump distance is encoded short exactly when the displacement fits in a signed byte, and an out-of-range SHORT/LOOP/JCXZ target is an error rather than a wrong displacement. Assembling always terminates.",
 ["programs"], "programs of forward/backward jumps, calls, loops, aligned regions and label-dependent data whose distances fall around the 127/128 and 32767/32768 limits, including chains where one jump's growth makes others grow",
 "each regression file has fixed distances; the failures arise from interactions between many jumps across passes",
 ["branch.c", "backptch.c", "assemble.c", "fixup.c", "fastpass.c", "label.c", "expreval.c"],
 [("pass loop until sizes are stable", "assemble.c AssembleModule"), ("backpatching of forward references", "backptch.c DoPatch/BackPatch"), ("jump distance choice", "branch.c process_branch"), ("saved line state for pass > 1", "fastpass.c")],
 [("PhaseError", "a label moved between passes", "globals.h module_vars")], ["bytes of the binary file", "exit status and diagnostics"])
prop("C05", "Constant expressions evaluate to their mathematical value",
 "Every constant integer expression the assembler accepts has the value given by its operators, precedence and associativity (arithmetic, MOD, SHL/SHR, AND/OR/XOR/NOT, relational with true = -1, HIGH/LOW/HIGHWORD/LOWWORD/HIGH32/LOW32, number radixes, character constants, parentheses), in wrapping 64-bit arithmetic, wherever it is used: equates, data, immediates, DUP counts, IF conditions. Division by zero and malformed expressions are diagnosed.",
 ["inputs"], "random expression trees over all operators, radixes and operand magnitudes up to 64 bits, evaluated in data, equates, immediates and conditions, with forward-referenced operands as well",
 "the expression regressions are a few fixed lines; interactions of precedence, sign and width are combinatorial",
 ["expreval.c", "tokenize.c", "equate.c", "condasm.c"],
 [("operator precedence evaluator", "expreval.c evaluate/get_precedence/calculate"), ("number parsing", "tokenize.c get_number, expreval.c myatoi128"), ("equates", "equate.c EqualSgnDirective/CreateConstant")],
 (), ["data bytes", "symbol values in the listing"])
prop("C06", "Data definitions emit exactly the declared bytes",
 "Every BYTE/WORD/DWORD/FWORD/QWORD/TBYTE/OWORD (and signed) definition emits, in order and little-endian at its declared size, exactly the values, strings and nested DUP repetitions it declares; nothing is lost, duplicated or reordered whatever the length of the item or of the module. A value that does not fit its size is rejected, never truncated, and SIZEOF, LENGTHOF, SIZE, LENGTH and TYPE report the declared layout.",
 ["inputs"], "random data modules with nested DUPs, string and numeric mixes, '?' items, very long lists and lines, segment buffers crossing internal record sizes",
 "existing tests have short fixed data lines",
 ["data.c", "segment.c", "assemble.c", "expreval.c", "tokenize.c"],
 [("data item parser", "data.c data_item/data_dir"), ("byte output and buffer growth", "assemble.c OutputByte/OutputBytes/FillDataBytes"), ("location counter", "segment.c SetCurrOffset")],
 (), ["data bytes of the output", "size operators"])
prop("C07", "Floating-point literals are the nearest representable value",
 "Every decimal floating-point literal in REAL4, REAL8 and REAL10 data, and in instructions that take a floating-point immediate, is converted to the representable value nearest to it (within one unit in the last place for REAL10 and REAL8/REAL4 exactly as the documented conversion), with correct sign, exponent limits and hexadecimal-real ('r') encodings copied bit for bit.",
 ["inputs"], "random mantissa/exponent literals over the whole range of each format, halfway and denormal cases, signs, hexadecimal reals",
 "the regression suite contains a few literals",
 ["tbyte.c", "atofloat.c", "data.c", "tokenize.c"],
 [("decimal to 80-bit conversion", "tbyte.c strtotb"), ("narrowing to REAL4/REAL8", "atofloat.c atofloat")], (), ["data bytes"])
prop("C08", "Structures, unions and records have the documented layout everywhere",
 "For every STRUCT/UNION/RECORD definition - nested, anonymous, with field alignment and default initialisers - field offsets, field sizes, total size, record shift/mask/width and the bytes of every initialised instance follow the documented alignment rules, and the same offsets are used when fields are referenced in code.",
 ["inputs", "configurations"], "random type definitions (nesting, arrays, unions, -Zp / STRUCT alignment 1..32), random partial initialisers, references to every field",
 "existing tests use a few struct shapes",
 ["types.c", "data.c", "expreval.c"],
 [("struct layout", "types.c StructDirective/CreateStructField/EndstructDirective"), ("struct initialisation", "data.c InitStructuredVar"), ("record layout", "types.c RecordDirective")], (), ["data bytes", "field offsets in code and data"])
prop("C09", "Macros and repeat blocks expand to exactly the text their definition denotes",
 "For every macro call or repeat block (MACRO, macro functions, FOR/IRP, FORC/IRPC, REPEAT/REPT, WHILE; required, default, VARARG and literal arguments; LOCAL symbols; EXITM, GOTO; the substitution, literal and expansion operators; nested definitions and calls) the assembled result is the one obtained by assembling the hand-expanded text.",
 ["programs"], "random macro programs with nested calls and loops, random argument texts, recursion, redefinition and PURGE, compared with a reference expander",
 "regression macros are fixed; argument splitting, nesting depth and LOCAL numbering interact combinatorially",
 ["macro.c", "loop.c", "expans.c", "preproc.c", "input.c", "lqueue.c"],
 [("macro storage with placeholders", "macro.c StoreMacro/store_placeholder"), ("argument parsing and expansion", "expans.c RunMacro/ExpandText"), ("loops", "loop.c LoopDirective")], (), ["data bytes", "exit status"])
prop("C10", "Conditional assembly and text functions select and build exactly the right text",
 "Every IF/ELSEIF/ELSE family block (IF, IFE, IFB, IFNB, IFDEF, IFNDEF, IFDIF(I), IFIDN(I)), at any nesting, assembles exactly the branch its condition selects and nothing of the others; TEXTEQU, CATSTR, SUBSTR, SIZESTR, INSTR and the @-functions produce the documented text or number for all arguments.",
 ["programs"], "random nested conditional trees over numeric, text, blank and definedness tests; random strings and positions for the text functions",
 "regression files contain isolated conditionals",
 ["condasm.c", "string.c", "equate.c", "preproc.c", "tokenize.c"],
 [("condition stack", "condasm.c CondCheckOpen/conditional_assembly_directive/CondSkip"), ("text functions", "string.c CatStrDir/SubStrDir/InStrDir/SizeStrDir")], (), ["data bytes", "exit status"])
prop("C11", "High-level flow directives execute the control flow they spell",
 "For every nesting of .IF/.ELSEIF/.ELSE, .WHILE, .REPEAT/.UNTIL(CXZ), .FOR, .SWITCH/.CASE/.DEFAULT, .BREAK and .CONTINUE (with or without .IF), and every condition over signed/unsigned comparisons, bit tests, flags, negation, && and ||, the generated machine code - when executed - follows exactly the path the source denotes.",
 ["programs", "inputs"], "random structured programs with random conditions, executed on random register and memory values, traced against an interpreter, in 32- and 64-bit code",
 "regression files compare bytes of fixed programs; no test executes generated code",
 ["hll.c", "backptch.c", "branch.c"],
 [("condition code generation", "hll.c EvaluateHllExpression/GetSimpleExpression/GetAndExpression/GetExpression"), ("block labels", "hll.c HllStartDir/HllEndDir/HllExitDir")], (), ["behaviour of the executed code"])
prop("C12", "PROC and INVOKE implement the calling convention they name",
 "For every PROC/PROTO signature and INVOKE of a supported convention (Win64 fastcall, System V 64, 32-bit C, STDCALL, PASCAL, FASTCALL), each argument arrives in the callee with the value passed, locals and parameters are addressable and distinct, USES and callee-saved registers are restored, and the stack is balanced at return - when the generated code is executed against compiled C code on either side.",
 ["programs", "inputs"], "random signatures (integer widths, floats, pointers, up to 12 arguments, VARARG), random locals and USES lists, random argument expressions (immediates, registers, memory, ADDR), stack-frame options",
 "regression files compare bytes of fixed calls; nothing is executed",
 ["proc.c", "invoke.c", "mangle.c"],
 [("prologue/epilogue", "proc.c write_default_prologue/write_default_epilogue"), ("argument passing", "invoke.c PushInvokeParam, *_fcstart/param/fcend"), ("parameter layout", "proc.c ParseParams")], (), ["behaviour of the executed code"])
prop("C13", "Win64 unwind data describes the prologue that was emitted",
 "For every PROC FRAME, the .pdata/.xdata records are well formed and, interpreted by the documented unwinder rules from any instruction of the function body, restore the caller's RSP, RIP and every non-volatile register the prologue saved.",
 ["programs"], "random prologues from .PUSHREG/.ALLOCSTACK/.SAVEREG/.SAVEXMM128/.SETFRAME and automatic FRAME prologues with USES and LOCALs, allocation sizes around 128 bytes / 512 KB",
 "the win64 expected objects are not in the repository; nothing checks the unwind data",
 ["proc.c", "H/win64seh.h", "coff.c"],
 [("unwind code construction", "proc.c ExcFrameDirective/WriteSEHData")], (), ["object file .pdata/.xdata sections"])
prop("C14", "ELF objects are well formed and link to the intended image",
 "For every program, the ELF32/ELF64 object is accepted by independent readers and the linker, and after linking every code and data reference - within and across sections, to publics, externals and commons - holds the address (or PC-relative distance) of its target plus addend; all public symbols carry the right value, binding and section.",
 ["programs"], "random multi-section modules with cross references of every relocation kind, many symbols and long names, linked at random bases and compared with an image computed from the source",
 "four stored ELF objects are compared byte for byte",
 ["elf.c", "fixup.c", "codegen.c", "data.c"],
 [("symbol table and section headers", "elf.c set_symtab32/64, elf_write_section_table32/64"), ("relocations", "elf.c write_relocs32/64")], (), ["object file", "linked image"])
prop("C15", "COFF objects (32 and 64-bit) are well formed and link to the intended image",
 "For every program, the COFF object is accepted by independent readers and the linker, and after linking every reference holds the address (VA, RVA, section-relative or PC-relative) of its target plus addend; section names, characteristics, alignment and symbols are those declared in the source.",
 ["programs"], "random multi-section modules with references of every relocation kind, names longer than 8 characters, more than 65535 relocations",
 "no expected COFF object is in the repository",
 ["coff.c", "fixup.c", "codegen.c", "data.c", "mangle.c"],
 [("symbol and string table", "coff.c coff_write_symbols"), ("relocations", "coff.c coff_write_fixups"), ("section headers", "coff.c coff_write_section_table")], (), ["object file", "linked image"])
prop("C16", "OMF modules are valid record streams that load to the intended image",
 "For every program, the OMF file is a sequence of records with correct lengths and checksums, ended by MODEND, and loading it by the OMF rules (LEDATA/LIDATA placement, FIXUPP application, group and segment definitions, PUBDEF/EXTDEF) yields the bytes and addresses the source denotes, however data straddles record boundaries.",
 ["programs"], "random 16/32-bit modules with sizes around the 1024-byte record limit, DUP data, fixups at record ends, many segments, groups, externals and names",
 "OMF sources are in the tree but have no expected output",
 ["omf.c", "omffixup.c", "omfint.c"],
 [("record writer", "omfint.c omf_write_record, checksum"), ("LEDATA splitting", "omf.c omf_write_ledata"), ("fixup encoding", "omffixup.c OmfGenFixup")], (), ["object file", "image loaded by a reference OMF loader"])
prop("C17", "Flat, MZ and PE images are laid out and relocated as declared",
 "For every program assembled with -bin, -mz or -pe, the file is the concatenation of the segments in declared order, grouped and aligned as declared, every internal reference is resolved to the final address, and the MZ/PE headers (entry point, relocation table, section table, sizes, import and relocation directories) describe exactly that image.",
 ["programs", "configurations"], "random multi-segment programs with groups, ORG, alignments and cross references; PE images with imports, exports and base relocations",
 "two PE images and plain binaries with one segment each are compared",
 ["bin.c", "segment.c", "fixup.c"],
 [("segment placement", "bin.c CalcOffset"), ("fixup application", "bin.c DoFixup"), ("headers", "bin.c pe_create_*, bin_write_module")], (), ["output file"])
prop("C18", "Mach-O objects are well formed and carry the intended bytes and relocations",
 "For every supported 64-bit program, the Mach-O object is accepted by independent readers, and its sections, symbols and relocations denote the bytes and references of the source.",
 ["programs"], "random multi-section modules, parsed by independent readers and resolved by a reference loader",
 "two stored objects are compared",
 ["macho64.c"], [("Mach-O writer", "macho64.c")], (), ["object file"])
prop("C19", "The listing shows the bytes that were emitted, where they were emitted",
 "For every program and listing option, each code/data line of the listing carries the segment offset and exactly the bytes the output file has there (up to the documented truncation and fixup marks), every source line appears once and in order, and the symbol tables list every symbol with its final value; producing a listing never changes the output.",
 ["programs", "configurations"], "random programs listed with -Fl and combinations of -Sa/-Sg/-Sn/-Sf/-Sx and .LIST directives, compared with the output file",
 "no regression test looks at a listing",
 ["listing.c", "assemble.c", "input.c"],
 [("line formatting", "listing.c LstWrite"), ("symbol table output", "listing.c LstWriteCRef")], (), ["listing file", "object file"])
prop("C20", "Debug information maps addresses to the right source lines",
 "For every program assembled with -Zd or -Zi, each line-number entry maps the address of an emitted instruction to the source line that produced it, entries are ordered and inside their section, the debug sections are structurally valid, and adding debug information never changes code or data bytes.",
 ["programs", "configurations"], "random programs with procedures, macros and includes under -Zd, -Zi, -Zi8 for COFF and OMF",
 "the codeview tests have no expected output in the repository",
 ["linnum.c", "dbgcv.c", "coff.c", "omf.c", "elf.c"],
 [("line queue", "linnum.c AddLinnumDataRef"), ("CodeView writer", "dbgcv.c cv_write_debug_tables")], (), ["object file"])
prop("C21", "Errors name their line, exit status is truthful, no bad object survives",
 "For every source, the exit status is zero exactly when no error was reported; when an error is reported it names the offending file and line (including in includes and macros), further lines are still checked up to the error limit, the error file holds the same messages, and no object file is left that could be mistaken for a good one. An erroneous line never makes the assembler silently produce output.",
 ["inputs", "configurations"], "valid programs with one or several planted errors of many kinds at random lines, include and macro depths, with -e, -eq, -W, -WX, -Fw options",
 "the .err regressions are a few fixed files; several are out of date",
 ["errmsg.c", "assemble.c", "input.c", "main.c", "cmdline.c", "H/msgdef.h"],
 [("message output and counters", "errmsg.c EmitErr/PutMsg/EmitWarn"), ("object removal", "assemble.c AssembleFini/close_files"), ("exit status", "main.c main")], (), ["exit status", "stdout", ".err file", "presence of the object file"])
prop("C22", "Output depends only on the source and the options that matter",
 "Assembling the same source with the same options yields the same bytes in every run, environment, memory layout and position in a multi-file command line: no state leaks from one module, pass or run to the next, and presentation options (listing, quiet, warning level, error file, -less) do not change code or data.",
 ["histories", "configurations"], "the corpus and generated programs repeated under different memory-fill patterns, address layouts, command-line orders and presentation options",
 "each test assembles one file once",
 ["assemble.c", "main.c", "cmdline.c", "symbols.c", "memalloc.c", "proc.c", "option.c"],
 [("per-module initialisation", "assemble.c AssembleInit/PassInit/AssembleFini"), ("module state reset", "assemble.c AssembleModule memset ModuleInfo")], (), ["output files of repeated runs"])
prop("C23", "No input makes the assembler corrupt memory, crash or hang",
 "For every source text, well formed or not, the assembler terminates and either produces output or diagnoses the input; it never reads or writes outside its objects, uses uninitialised or freed memory, overflows its stack, divides by zero or crashes.",
 ["inputs"], "the regression sources, generated programs of all other checks and mutated/truncated/spliced variants, run under address and undefined-behaviour sanitizers with arena red zones",
 "tests run an uninstrumented binary on well-formed inputs",
 ["tokenize.c", "input.c", "expans.c", "macro.c", "expreval.c", "parser.c", "data.c", "memalloc.c"],
 [("line/token buffers", "input.c, tokenize.c"), ("arena allocator", "memalloc.c LclAlloc")], (), ["sanitizer reports", "exit status", "time"], "UASM_VERIF: red zones in the arena allocator (memalloc.c)")
prop("C24", "I/O faults are reported, never turned into a silent bad output",
 "If a file cannot be opened, read or completely written (missing include, unwritable output, full disk) the assembler says so, exits with a non-zero status and does not claim success; a later run without the fault produces the normal output.",
 ["fault_sequences"], "each write/open of a run made to fail in turn (ENOSPC, EIO, EACCES, short write) by an interposed library, for every output format and auxiliary file",
 "no test injects a fault",
 ["assemble.c", "bin.c", "coff.c", "elf.c", "omf.c", "omfint.c", "errmsg.c", "input.c"],
 [("write checks", "fwrite return checks -> WriteError()"), ("open checks", "assemble.c open_files, input.c SearchFile")], (), ["exit status", "stdout", "output file"])
prop("C25", "Location counter, alignment and segments behave as declared",
 "For every sequence of ORG, ALIGN, EVEN, segment switches (SEGMENT/ENDS, .CODE/.DATA family, PUSHCONTEXT/POPCONTEXT, re-opened and nested segments) and data, every label has the offset the declared operations imply, alignments hold at the declared boundary with decodable padding in code, and $, label differences and sizes agree with them.",
 ["programs"], "random sequences of location-counter operations over several segments against a reference location counter",
 "regression files contain isolated cases",
 ["posndir.c", "segment.c", "simsegm.c", "context.c", "data.c"],
 [("alignment", "posndir.c AlignCurrOffset/fill_in_objfile_space"), ("ORG", "posndir.c OrgDirective"), ("segment stack", "segment.c SegmentDir/EndsDir, context.c")], (), ["label offsets", "output bytes"])
prop("C26", "Names resolve in the right scope and are decorated as the convention says",
 "For any number and shape of names - case-sensitivity setting, PROC-local and anonymous (@@) labels, macro locals, renamed or disabled keywords, redefinitions - each reference denotes the symbol the scoping rules say, unresolved or duplicate names are diagnosed, and every public or external name appears in the object decorated as its language and options require.",
 ["programs", "configurations"], "random symbol populations (hash collisions, long names, case variants), scopes and language types, across object formats",
 "regression files define a few symbols each",
 ["symbols.c", "label.c", "mangle.c", "extern.c", "proc.c", "reswords.c", "option.c"],
 [("global and local hash tables", "symbols.c SymFind/SymCreate/SymLCreate"), ("name decoration", "mangle.c Mangle"), ("case mapping", "symbols.c SymSetCmpFunc")], (), ["symbol table of the object", "data bytes"])
prop("C27", "The Windows program and the native build produce identical results",
 "For every source, the program built for Windows and the one built natively produce byte-identical output (apart from time stamps) and the same diagnostics and exit status: results do not depend on the host's word sizes, character signedness or path conventions.",
 ["inputs", "configurations"], "the regression corpus and samples of all generators, run through the MinGW build (under wine) and native builds with signed and unsigned char",
 "the tests run one build only",
 ["H/inttype.h", "H/globals.h", "apiemu.c", "expreval.c", "tokenize.c"],
 [("integer types", "H/inttype.h"), ("platform conditionals", "H/globals.h, input.c")], (), ["output files, diagnostics and exit status of each build"])
prop("C28", "Inclusion, comments and line joining never change what is assembled",
 "Splitting a program over INCLUDE files, joining lines with '\\' or open parameter lists, adding comments (';' and COMMENT blocks), blank lines, tabs, CR/LF variants or a UTF-8 BOM, changing the case of reserved words, and INCBIN with any offset and length, all leave the assembled bytes exactly those of the plain program (respectively those of the file range).",
 ["inputs", "programs"], "random rewrites of generated and corpus programs that must not change the output; random INCBIN ranges",
 "no test varies the presentation of a source",
 ["input.c", "tokenize.c", "directiv.c", "preproc.c"],
 [("source stack", "input.c PushSrcFile/GetTextLine"), ("concatenation and comments", "tokenize.c Tokenize/ConcatLine"), ("INCBIN", "directiv.c IncBinDirective")], (), ["output bytes"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
only = None
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
