# (how it is decided / oracle / bounds), why beyond tests, false alarms corrected
D = {}
D["C01"] = ("Corpus of operand forms made by tools/mkforms (every mnemonic x every operand class UASM accepts, joined with what GNU as accepts); each run draws registers, displacements and immediates anew, assembles all in one module per mode and compares `objdump -d` of UASM's bytes with that of GNU as's bytes (after normalising redundant prefixes, alternative encodings of the same operation).", "The suite has each mnemonic with a few operands; REX/ModRM interactions (r12/r13 bases, spl..dil, zero displacements) are combinatorial.", "differences that mean the same operation (commuted test/xchg, redundant REX.W of push, shorter immediates) are normalised by the comparator instead of being reported.")
D["C02"] = ("Random effective addresses (base, index, scale, displacement, label, segment override, 16/32/64-bit address size) on a set of carrier instructions incl. VSIB; the monitor decodes prefixes, ModRM, SIB and displacement itself and compares the address as a linear form. Invalid registers (mm, xmm, cr, bytes, sp as index, wrong sizes) must be refused.", "The suite has no systematic cross product of addressing forms.", "`[rip]` and absolute addresses in 64-bit code follow UASM's documented choice (RIP-relative for labels, SIB for constants).")
D["C03"] = ("As C01 for SSE..AVX-512, with masks, zeroing, broadcast, rounding and disp8*N; forms that UASM is known to encode wrongly are listed one by one.", "AVX-512 has more than 5000 operand forms; the suite samples a few hundred.", "assembler aliases and operand-size dependent broadcast spellings are normalised.")
D["C04"] = ("Random meshes of jumps, calls, LOOP/JCXZ, ALIGN, fill and label differences; the emitted code is walked by an own decoder, each branch's destination must be its label, each encoding the shortest that reaches, range errors exactly where no encoding reaches; a time-out detects passes that never end.", "Convergence of the multi-pass relaxation depends on the whole program.", "minimality is only demanded where no other choice of sizes is a fixpoint (ALIGN may make two minimal solutions).")
D["C05"] = ("Random expression trees rendered in every context (data, equate, immediates, IF, structure initialisers, text macros' %expr) and compared with a 64-bit reference evaluator incl. refusals.", "Operator precedence x widths x contexts cannot be sampled by hand.", "`%expr` is 32-bit unsigned by design; comparison results are -1.")
D["C06"] = ("Random data items, nested DUP, strings, all types and 10^4..10^6 byte modules in several formats compared with a reference layout.", "Buffers of the object writers and the data parser have size limits tests never cross.", "`dw 1.5` and `db -129` are accepted by design.")
D["C07"] = ("Literals generated as exact rationals: random, exact midpoints between neighbours and their neighbourhood, overflow/underflow limits, many digits; expected value from Python's Fraction with round-to-nearest-even.", "Rounding errors occur for 1 in 10^4 random literals and for almost no hand-written one.", "none")
D["C08"] = ("Random families of STRUCT/UNION/RECORD (nesting, alignment, anonymous members, DUP, typedefs, forward pointers): SIZEOF/LENGTHOF/offset/MASK/WIDTH, member addressing in code and bytes of initialised instances against a reference layout.", "Nesting x alignment x initialiser forms is combinatorial.", "MASM rules where an anonymous structure's alignment is limited by its parent's.")
D["C09"] = ("Trees of macro definitions and calls whose meaning is computed without text substitution; rendered in six presentations; fixed families for VARARG, LOCAL, nesting, recursion, EXITM, GOTO, FORC/FOR/REPEAT/WHILE.", "Quoting, nesting depth and argument shape interact; text substitution bugs are invisible on plain arguments.", "GOTO is only valid at macro top level; @CatStr names are case sensitive with casemap:none.")
D["C10"] = ("Random nests of IF/IFE/IFDEF/IFB/IFIDN/... with ELSEIF chains in and out of macros and histories of EQU/=/TEXTEQU/CATSTR/SUBSTR/INSTR/SIZESTR; the set of assembled lines and every text value against a model.", "Interaction of skipped blocks with definitions and macros.", "numeric `%` expansion is unsigned 32-bit.")
D["C11"] = ("Programs of nested directives over 8..64-bit, signed/unsigned registers and memory are linked with GNU ld and executed by native/runner.c (static process, own stack, strict seccomp; 32-bit code by a far call) with random initial values; every TR step writes a trace byte; fuel bounds endless loops. Trace and all final variables against an interpreter of the tree.", "No stored test executes code. Seven defects found this way, one of them that `.while (!(a) && !(b)) && c` was wrong.", "a heap/image address collision of the runner is retried.")
D["C12"] = ("Each program has six C callees (some VARARG) and 2-8 assembler PROCs with random parameters, locals, USES lists; PROCs are called from C, INVOKE the callees with constants, globals, locals, array elements, own parameters, ADDR, indirect operands, xmm and general registers, string literals, smaller operands. Both sides write what they see into one log, compared value by value. A stub checks callee-saved registers and the stack pointer around every call; C callees record the stack alignment and clobber every volatile register. 32-bit names are mapped with objcopy, so decoration (C26) is independent.", "Stored tests never run code. Fifteen defects were found: half-pushed REAL8 operands, misaligned stacks (movaps crashes), VARARG floats in the wrong registers, silently overwritten register arguments.", "a register argument may be refused (A2166); a smaller operand for a wider parameter may be refused: neither is a violation.")
D["C13"] = ("Programs have up to eight procedures with hand-written prologues (any subset of the non-volatile registers pushed or saved, xmm6-15 saved, allocations at every boundary of the record forms: 128 bytes, 512 KB, save offsets at 512 KB / 1 MB, frame registers with offsets 0-240, handlers) or C12's generator with FRAME and automatic prologues in ten OPTION WIN64/STACKBASE modes. The image is single-stepped (trap flag, SIGTRAP handler inside the seccomp runner); at every instruction the unwinder is applied and RIP, RSP, rbx rbp rsi rdi r12-r15, xmm6-15 are compared with the values at entry. The function table is compared with the procedures' addresses, last bytes and handlers.", "The win64 expected objects are not in the repository and no stored test unwinds. Three defects were found: FAR save records were scaled; home-area saves (OPTION WIN64:8 modes) restored garbage; INVOKE in a procedure without frame register lost RSP.", "RBP-less and RSP-based modes are executed too; .PUSHFRAME is not generated; a frame register r12 in 'lea rsp' is not an epilogue to the unwinder (as in Windows) and is judged as body.")
D["C14"] = ("Random relocatable programs with a model of every reference; an ELF linker in lib/objread.py lays sections out at random addresses, applies relocations and compares every byte; GNU ld links a sample; readelf is a second reader.", "Stored tests compare bytes that may be consistently wrong.", "none")
D["C15"] = ("As C14 for COFF32/64: relocation overflow (>65534), string table, weak/common symbols, section characteristics. A second generator writes modules with COMDAT, INFO and readonly segments, weak externals, aliases, .SAFESEH, exports, libraries and an entry, under -zls/-zlf/-zlp/-zze/-zzs, and compares selection, association, checksum, .drectve and .sxdata.", "", "none")
D["C16"] = ("Own OMF reader/loader: LEDATA/LIDATA/FIXUPP threads, groups, segment combination, COMDEF, MODEND; modules crossing the record size limits. A second generator: includelib, EXPORT, weak externals, ALIAS, .DOSSEG against COMENT/ALIAS records.", "", "none")
D["C18"] = ("As C14 for Mach-O 64; llvm-objdump and ld64.lld as second readers.", "", "none")
D["C21"] = ("The generator plants errors whose class, place and include/macro chain it records; messages are matched one to one. Exit status, .err file, no object after errors, -e limit, -WX, several files.", "Wrong line numbers depend on the nesting of sources.", "second-pass errors carry no chain by design; a pass-1 error suppresses pass-2 errors.")
D["C22"] = ("Same source, two builds with opposite stack/heap fill, MALLOC_PERTURB_, ASLR, other directories, environments, clock (LD_PRELOAD), other modules before it on the command line, repetition; outputs byte for byte outside documented time fields.", "A test has one environment.", "time stamps, file names in debug records and the listing header are masked.")
D["C23"] = ("ASan/UBSan build over boundary programs (line length, nesting, token counts, names), token soup, mutants of the regression sources, option soup; MSan build over the corpus; General Failure (masked SIGSEGV) counts as crash; 25 s limit.", "Memory errors need hostile inputs; the block allocator hides them even then.", "leaks are not reported (the program exits).")
D["C24"] = ("A recorded run lists every fopen with the bytes read and written; then each file gets an open failure (EACCES, EMFILE, EROFS, ENOSPC), read failures at its start, middle and end, write failures (persistent or once) after 0, 1, half, all but one and a random number of bytes, and a close failure; plus a disk that is full after a random number of bytes over all files. Formats: bin, mz, omf, coff, win64, elf, elf64, macho64, pe; auxiliary files: listing, -Fs, -Fd, -Fi, response file, error file, includes, INCBIN data; one or two sources. Small and large outputs, so that failures appear in fwrite, in fflush or only in fclose.", "No stored test injects a fault. Found: unwritten object, listing, symbol and link-definition files with status 0, read errors taken for end of file, a crash on an unwritable -Fs file.", "seek failures are not injected (regular files do not have them); a failing close of a file that was only read is judged by the output.")
D["C19"] = ("Random programs are assembled with and without a listing (outputs must be identical); each listing is parsed: every line's offset and bytes against the section of the object file, with -Sg/-Sa also against the offset of the next line (nothing may be missing in between), the sequence of source lines against the sources (include and macro-definition marks, false IF blocks only with -Sx, .NOLIST), values of equates and texts, and the symbol tables against the generated symbols (each exactly once, with the offset its line shows).", "no regression test reads a listing; found seven defects.", "generated lines of .ENDSWITCH and, in 64-bit, prologue lines that appear from the second pass on are not listed (allowed by the oracle); -bin listings show bytes before fixups, so bytes are not compared there.")
D["C20"] = ("Each generated program carries a model: (segment, offset, file, line) of every instruction, extent of every procedure, offset of every variable. Readers of COFF line tables (function-relative numbers, .bf/.ef, next-function chain), OMF LINNUM and CodeView records answer `which line is this address`, compared for every instruction; tables must be ordered and inside their section; CodeView subsections must parse exactly, checksums equal MD5 of the files, procedure and variable records have the right relocation, length and kind; the other sections, relocations and publics equal those assembled without the option.", "Lines depend on procedures, macros, nested includes, several segments and table size together; no codeview test has an expected output.", "COFF tables have no file names, so lines of included code are compared modulo 16 bit; types in .debug$T are parsed but not compared with the source; no DWARF writer exists beyond the ELF switch.")
D["C26"] = ("(1) random programs of labels, PROCs with parameters and locals, @@/@F/@B, macro locals, structure fields with the same names, under both case settings with disabled/renamed keywords used as names: every reference's bytes equal the address the scope model gives; planted undefined and duplicate names must be diagnosed on their line. (2) populations of up to 20000 names: each dd resolves, each public has its value, EXTERNs appear once. (3) names in eight conventions for eight formats: decoration compared with the documented rule.", "Hash collisions, shadowing and case folding need many names at once.", "Mach-O names are undecorated by design; -Cu upper-casing is checked for OMF; an anonymous label inside a PROC is local to it; a local label that repeats an earlier global is an error by design.")
D["C17"] = ("Random multi-segment programs (groups, ORG, alignments incl. PAGE, uninitialized segments, stacks, references of every kind incl. far, segment, group and imagerel) for -bin, -mz, -pe 32/64 with imports, exports, base relocations and debug-free headers. Every label and reference follows a random marker; an own MZ/PE/flat loader loads the file at two bases, applies the relocation table, and each reference must land on the marker of its target; the gaps, segment order, entry point, section table, header sizes, export and import directories are checked against the image.", "The loader judges the image by what it does when loaded, so a displaced segment, missing relocation or shifted header shows whatever the layout.", "sectionrel operands, SizeOfInitializedData of PE32+, and symbol+offset in RIP-relative operands (known finding of C02) are not judged; a far call inside one segment becomes push cs/near call by design; PE sections are ordered by segment name within a type; the exception directory covers the one .pdata segment, unwind data of further code segments (.pdata$nnnn) isn't judged.")
D["C25"] = ("Random sequences of ORG, ALIGN, EVEN, segments reopened/nested with all attributes: `$`, offsets, paddings and sizes against a reference counter; code padding must be NOPs.", "", "none")
D["C28"] = ("Metamorphic: comments, blank lines, case, line continuation, line ends, BOM, splitting into includes leave output unchanged; INCBIN slices equal file slices.", "", "`include \"x\"` keeps its quotes by design.")
NOT = {
 "C27": "not built yet: byte comparison of the Windows (wine) and native builds is planned"}
