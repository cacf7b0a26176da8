HOOKS = {"guard": "UASM_VERIF", "enable": "native sanitizer builds pass -DUASM_VERIF (lib/vf.py, variants asan/hooks/fuzz)", "source_commits": ["f538067"]}
T["C01"] = ("online monitor over recorded encodings: every emitted instruction is decoded by objdump and compared with the decoding of GNU as's encoding of the same line",
  "Every operand form of the corpus (7k integer/system/FPU forms in 16/32/64-bit) in random instances. Trusts binutils' decoder and GNU as's choice of operation.")
T["C02"] = ("online monitor over recorded encodings: effective address recovered from the emitted ModRM/SIB/displacement compared with the operand written",
  "Random addressing forms in all modes; trusts the decoder and a 100-line address model.")
T["C03"] = ("online monitor over recorded encodings: every emitted SIMD instruction is decoded by objdump and compared with the decoding of GNU as's encoding of the same line",
  "Every SSE/AVX/AVX-512 operand form of the corpus in random instances; known wrong forms are listed individually in known_forms.jsonl.")
T["C04"] = ("trace checker over the emitted code of random jump meshes: every displacement decoded and compared with the final position of its label; minimality and range errors checked; time-out monitor",
  "Random meshes up to 6000 items incl. ALIGN, anonymous labels, label differences. Trusts an own decoder of the dozen opcodes used.")
T["C05"] = ("online oracle over executions: outputs of generated expression modules compared with a reference evaluator",
  "Random expressions in every context; assurance grows with the number of distinct expressions observed. Trusts the 120-line reference evaluator.")
T["C06"] = ("online oracle over executions: bytes emitted for random data definitions compared with a reference layout",
  "Random nested DUPs, strings, all sizes and modules crossing every buffer size. Trusts the reference layout in checks/c06.py.")
T["C25"] = ("online oracle over executions: offsets, padding and sizes of random ORG/ALIGN/segment sequences compared with a reference location counter",
  "Random sequences incl. nested and re-opened segments; padding in code must decode as no-operations.")
T["C14"] = ("online monitor over produced objects: random relocatable programs are linked by an independent ELF linker written for the purpose (and by GNU ld for a sample) and every patched byte compared with the program's model",
  "Random modules (sections, publics, externals, commons, all reference kinds) in ELF32/ELF64. Trusts lib/objread.py, lib/objgen.py's model and, for the sample, GNU ld/readelf.")
T["C15"] = ("online monitor over produced objects: random relocatable programs are linked by an independent COFF linker written for the purpose and every patched byte, characteristic and symbol compared with the program's model",
  "Random modules in COFF32/COFF64 incl. sections with 65534..65536 relocations. Trusts lib/objread.py and lib/objgen.py's model; llvm-readobj as second reader.")
T["C16"] = ("online monitor over produced objects: random 16/32-bit programs are read by an own OMF record reader, loaded by the OMF rules at random bases and every patched byte compared with the program's model",
  "Random modules with groups, private/public segments of all alignments, externals, commons, entry points and data crossing record boundaries. Trusts the OMF reader and loader in lib/objread.py, checks/c16.py.")
T["C18"] = ("online monitor over produced objects: random programs are linked by an independent Mach-O linker and every patched byte, section and symbol compared with the program's model; llvm-objdump and ld64.lld as second readers",
  "Random modules with all reference kinds; trusts lib/objread.py and checks/c18.py's linker.")
T["C23"] = ("compiler sanitizers (AddressSanitizer, UBSan's bounds/object-size/divide checks, MemorySanitizer) and a time-out monitor over the real program run on hostile boundary programs, mutations of the regression sources, random token programs and random option lists",
  "9k executions per quick run. Assumes the sanitizers' own soundness; block allocator replaced by one heap object per allocation (guard UASM_VERIF). Endless compilation is judged by a 25 s limit.")
T["C09"] = ("online oracle over executions: bytes produced by random macro programs compared with the denotation of the program's tree (evaluated without text substitution)",
  "Random macros, functions, loops, literals and arguments, fixed families for VARARG/LOCAL/nesting/recursion, and sizes at the internal limits, in six presentations. Trusts lib/macgen.py's evaluator.")
T["C10"] = ("online oracle over executions: which lines of random conditional trees are assembled, and the text values of random EQU/TEXTEQU/string-directive histories, compared with a reference model",
  "Random nestings of every IF form, redefinition histories and text operators, at expansion limits. Trusts the reference model in checks/c10.py.")
T["C22"] = ("differential monitor: the same assembly under different stack/heap fill patterns, addresses, directories, environments, clocks, preceding modules and repetitions; every output byte outside time stamps compared",
  "Regression sources and random modules under two builds with opposite initial memory patterns and MemorySanitizer-free replay; times under the monitor's control (native/faketime.c).")
T["C28"] = ("differential monitor: a program assembled plainly and under random presentation changes (comments, blanks, case, line joining, line ends, BOM, includes); outputs compared byte for byte; INCBIN ranges compared with the file",
  "Random programs, regression sources and 12-deep include trees. Output of the plain form is judged by the other properties.")
T["C07"] = ("online oracle over executions: the bytes of every literal compared with the nearest representable value computed in exact rational arithmetic; out-of-range literals must be refused on their line",
  "116k literals per quick run: random, exact halfway points and their neighbours, format limits, hexadecimal reals, integers; in lists, DUP, structures, typedefs, macros and immediates. Trusts Python's Fraction.")
T["C08"] = ("online oracle over executions: offsets, sizes, masks, addresses in code and instance bytes of random STRUCT/UNION/RECORD families compared with a reference layout",
  "750k comparisons per quick run. Trusts the reference layout in checks/c08.py.")
T["C21"] = ("online monitor over executions of programs with errors planted at known places: every message's file, line and include/macro chain, the exit status, the error file and the object compared with what was planted",
  "5000 random programs per quick run with errors of the first and the second pass in the main file, includes, macros, loops, false branches; error limits, -WX/-W0/-eq/-Fw, stale outputs, open blocks, several files. Trusts the harness's record of where it planted.")
T["C11"] = ('differential execution monitor: generated programs of nested flow directives are assembled, linked and run on the CPU under seccomp; the trace of every step and all final values are compared with an interpreter of the source tree',
  '4200 random programs per quick run (32- and 64-bit; conditions of any nesting of && || ! over signed and unsigned operands, tests, flags, constants; .SWITCH in both styles up to 90 cases, dense to 62-bit spread; .FOR with all simple operators). Trusts the 300-line interpreter in checks/c11.py and GNU ld. 16-bit code is not executed.')
T["C12"] = ("differential execution monitor: generated PROCs and INVOKEs are linked with C code compiled by gcc on both sides of every call and run on the CPU under seccomp; received arguments, locals, return values, callee-saved registers, stack pointer and its alignment are recorded and compared with the program's own values",
  "1900 random programs per quick run in 20 modes (32-bit C/STDCALL/PASCAL/FASTCALL, System V, Win64 with all OPTION WIN64 values, FRAME, RSP stack base). Trusts gcc's conventions and GNU ld. VECTORCALL, WATCALL, 16-bit code and structures by value are not executed.")
T["C13"] = ("execution monitor: generated FRAME procedures (hand-written prologues and automatic ones) are linked with C and single-stepped on the CPU under seccomp; before every instruction a virtual unwinder written from the documented x64 rules runs on the image's own .pdata/.xdata and its result is compared with the registers and stack pointer recorded at entry; a second monitor checks the function table against the procedures in the image",
  'one unwind per executed instruction (prologue, body, epilogue)')
T["C24"] = ("fault injection monitor: an interposed library puts every stream of the assembler over a stdio cookie and makes one chosen open, read, write or close (or the whole disk) fail; delivery is confirmed by the library's log, the run is judged by exit status, message and outputs, and by the run after it in the same directory",
  "faults below the C library's buffering")
T["C19"] = ("offline checker of the listing file against the object file, the source lines and the generator's record of its symbols",
  'random programs (data, code, macros, loops, conditional assembly, HLL blocks, procedures, includes) for seven formats and all listing options')
T["C26"] = ("offline checker of object bytes and symbol tables against the generator's own scope resolution and decoration rules",
  'random symbol populations (up to 20000 names, 247 characters, case variants, disabled and renamed keywords), PROC scopes, anonymous and macro labels, 8 language types; planted undefined and duplicate names must be the ones diagnosed')
T["C20"] = ("offline checker of COFF, OMF and CodeView 4/5/8 debug data against the generator's record of which line produced which address; code and data compared with a run without debug information",
  'about 500 random programs per quick run with procedures, macros, loops, includes, several code segments, code over 1 MB')
T["C17"] = ('own MZ/PE/flat loader over generated images: markers found after relocation at two bases are compared with what the source declares',
  'PE: imports, exports, base relocations, section table; MZ: relocations, groups, ORG, stack; BIN: layout')
