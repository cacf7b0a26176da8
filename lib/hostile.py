"""Programs at and beyond every documented or internal limit: each entry is
(name, generator(n) -> source, values of n, option sets)."""
def I(n): return ("a" + "bcdefghij" * (n // 9 + 1))[:n]
IDL = [1, 8, 9, 31, 32, 63, 64, 127, 128, 245, 246, 247, 248, 249, 255, 256, 257, 300, 1000]
LL = [255, 256, 257, 500, 511, 512, 513, 985, 990, 991, 992, 993, 994, 1000, 1015, 1020, 1022, 1023, 1024, 1025, 1030, 2000]
NEST = [1, 2, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 34, 63, 64, 65, 120, 126, 127, 128, 129, 130, 255, 256, 257, 400]
CNT = [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 500, 511, 512, 513]
D = [["-bin"], ["-omf"], ["-coff"], ["-win64"], ["-elf"], ["-elf64"], ["-macho64"]]
OBJ = [["-omf"], ["-coff"], ["-win64"], ["-elf"], ["-elf64"], ["-macho64"]]
DBG = [["-omf", "-Zi", "-Zd"], ["-coff", "-Zi", "-Zd"], ["-win64", "-Zi8", "-Zd", "-Zf"], ["-coff", "-Zi8"], ["-omf", "-Zi8", "-Zf"]]
LST = [["-omf", "-Fl", "-Sg", "-Sa"], ["-win64", "-Fl", "-Sn"], ["-bin", "-Fl", "-Sa", "-Sg"]]
H = ".386\n.model flat,c\n"
H64 = "option casemap:none\n"
def J(*a): return "\n".join(a) + "\n"
CASES = []
def add(name, gen, vals, opts): CASES.append((name, gen, vals, opts))
ONE = [["-coff"], ["-coff", "-Fl", "-Sg", "-Sa"]]
# identifiers in every role
ROLES = {
 "label": ".code\n{i}:\njmp {i}\nmov eax,offset {i}", "label2": ".data\n{i} label dword\n{i}2 dd {i}", "data": ".data\n{i} dd {i}", "proc": ".code\n{i} proc a:dword\nlocal b:dword\nmov eax,a\nret\n{i} endp\ninvoke {i},1",
 "param": ".code\np proc {i}:dword\nmov eax,{i}\nret\np endp\ninvoke p,2", "local": ".code\np proc\nlocal {i}[3]:dword\nmov eax,{i}\nret\np endp", "loclab": ".code\np proc\n{i}: jmp {i}\np endp",
 "macro": "{i} macro x\ndd x\nendm\n.data\n{i} 5", "marg": "m macro {i}:req\ndd {i}\n&{i}&q dd 1\nendm\n.data\nm 5\nm abc", "mloc": "m macro\nlocal {i}\n{i} dd 1\nendm\n.data\nm", "mfunc": "{i} macro x\nexitm <x>\nendm\n.data\ndd {i}(4)",
 "struct": "{i} struct\na dd ?\n{i} ends\n.data\nx {i} <1>", "member": "s struct\n{i} dd ?\ns ends\n.data\nx s <1>\n.code\nmov eax,x.{i}", "union": "{i} union\na dd ?\nb db ?\n{i} ends\n.data\nx {i} <1>", "record": "{i} record f:3,g:5\n.data\nx {i} <1,2>",
 "recfield": "r record {i}:3,g:5\n.data\nx r <1,2>\n.code\nmov eax,mask {i}\nmov eax,width {i}", "typedef": "{i} typedef ptr dword\n.data\nx {i} ?", "proto": "{i} proto :dword\n.code\ninvoke {i},1", "pparam": "x proto {i}:dword\n.code\ninvoke x,1",
 "equ": "{i} equ 5\n.data\ndd {i}", "equals": "{i} = 5\n{i} = 6\n.data\ndd {i}", "textequ": "{i} textequ <abc>\n%echo {i}\n.data\ndb \"&{i}\"\n.err <&{i}>", "catstr": "{i} catstr <ab>,<cd>,%5\n.data\n{i} db 1", "substr": "{i} substr <abcd>,2\n{i} equ 1", "sizestr": "{i} sizestr <abcd>\ndd {i}", "instr": "{i} instr <abcd>,<b>",
 "segment": "{i} segment\ndb 1\n{i} ends", "class": "x segment '{i}'\ndb 1\nx ends", "group": "x segment use16\ndb 1\nx ends\n{i} group x\nmov ax,{i}", "public": ".code\npublic {i}\n{i} proc\nret\n{i} endp", "extern": "extern {i}:dword\n.data\ndd {i}\n", "extproc": "extern {i}:proc\n.code\ncall {i}", "externdef": "externdef {i}:near\n.code\ncall {i}", "comm": "comm {i}:dword:5\n.code\nmov eax,{i}",
 "undefined": ".code\nmov eax,{i}", "end": ".code\n{i}:\nend {i}", "name": "name {i}", "title": "title {i}\nsubtitle {i}\npage 10,20", "include": "include {i}.inc", "includelib": "includelib {i}.lib", "incbin": ".data\nincbin {i}.bin", "instr_": ".code\n{i} eax,ebx", "goto": "m macro\ngoto {i}\n:{i}\nendm\nm", "echo": "echo {i}\n%echo {i}", "err": ".err <{i}>", "errb": ".errb <{i}>", "erridn": ".erridn <{i}>,<{i}>", "errdef": ".errndef {i}", "ifdef": "ifdef {i}\nendif\nifb <{i}>\nelse\nendif\nifidni <{i}>,<{i}>\nendif",
 "irp": "irp {i},<1,2>\ndd {i}\nendm", "irpc": ".data\nirpc {i},<abc>\ndb \"&{i}\"\nendm", "forc": ".data\nforc x,<{i}>\ndb \"&x\"\nendm", "purge": "{i} macro\nendm\npurge {i}", "option": "option {i}", "optarg": "option proc:{i}", "prologue": "option prologue:{i}\n.code\np proc\nret\np endp", "assume": "assume ds:{i}\nassume eax:{i}", "model": ".model flat,{i}", "lang": ".code\np proc {i} a:dword\np endp", "vis": ".code\np proc private <{i}> a:dword\np endp",
 "alias": "alias <{i}> = <abc>", "invokearg": "x proto :dword\n.code\ninvoke x,addr {i}\ninvoke x,\"{i}\"", "string": ".data\ndb \"{i}\"\ndb '{i}'\ndq '{i}'\ndd \"{i}\"\nx equ '{i}'\ndb x", "float": ".data\nreal4 1.{n}\nreal8 {n}.5\nreal10 1e{n}", "number": ".data\ndd {n}\ndq {n}h\noword {n}", "opattr": "opattr {i}\ndd opattr {i}\ndd type {i}\ndd size {i}", "hll": ".code\n.if {i} == 1\n.endif\n.while {i}\n.endw", "hllcall": "{i} proto :dword\n.code\n.if {i}(5) == 1\n.endif", "uses": ".code\np proc uses {i}\np endp", "comment": "comment {i}\n foo\n{i} x", "exitm": "m macro\nexitm <{i}>\nendm\n.data\nx db m()", "textmacro2": "t1 textequ <{i}>\nt2 textequ t1,t1\n.data\nt2 db 1", "macarg": "m macro a,b:=<{i}>,c:vararg\n.data\na db 1\n%echo b\nendm\nm {i}, ,{i},{i}", "cvdll": "option dllimport:<{i}>\nx proto :dword\n.code\ninvoke x,1", "startup": ".startup\n{i}", "ptr": ".code\nmov eax,{i} ptr [ebx]\nmov eax,[ebx].{i}\nmov eax,{i}:[ebx]\nmov {i}:eax,4",
}
for k, t in ROLES.items():
    o = ONE + ([["-omf"], ["-elf64"], ["-win64"], ["-macho64"], ["-elf"]] if k in ("public", "extern", "extproc", "segment", "class", "group", "comm", "proc", "name", "end") else []) + (DBG if k in ("struct", "member", "typedef", "param", "local", "proc", "data", "label", "loclab", "record", "recfield", "segment") else [])
    add("id." + k, lambda n, t=t: H + t.replace("{i}", I(n)).replace("{n}", "1234567890" * (n // 10) + "9" * (n % 10)) + "\n", IDL, o)
# line and string lengths
add("line.comment", lambda n: H + " .code\n nop ;" + "x" * (n - 6) + "\n nop\n", LL, ONE)
add("line.spaces", lambda n: H + " .code\n nop" + " " * n + "\n nop\n", LL, ONE)
add("line.items", lambda n: H + " .data\n db " + ("1," * n)[:n - 6] + "1\n", LL, ONE)
add("line.cont", lambda n: H + " .data\n db 1,\\\n" + "".join("  2, \\\n" for _ in range(n)) + " 3\n", CNT, ONE)
add("line.cont2", lambda n: H + " .data\n db " + "\n".join(("1," * n)[:n // 2 * 2].rstrip(",") + ", \\" for _ in range(3)) + "\n 3\n", LL, ONE)
add("line.comma", lambda n: H + " .data\n db " + ",\n".join("1" * 1 for _ in range(n + 1)) + "\n", LL, ONE)
add("str.db", lambda n: H + ' .data\n db "' + "s" * n + '"\n', LL, ONE + D)
add("str.quotes", lambda n: H + ' .data\n db "' + '""' * (n // 2) + '"\n', LL, ONE)
add("str.unterminated", lambda n: H + ' .data\n db "' + "s" * n + "\n", LL, ONE)
add("lit.angle", lambda n: H + "t textequ <" + "s" * n + ">\n%echo t\n .data\n db t\n", LL, ONE)
add("lit.bang", lambda n: H + "t textequ <" + "!<" * (n // 2) + ">\n%echo t\nx sizestr t\n dd x\n", LL, ONE)
add("lit.unterminated", lambda n: H + "t textequ <" + "s" * n + "\n", LL, ONE)
add("lit.brace", lambda n: H + "s struct\na db 5 dup (?)\ns ends\n.data\nx s {" + "1," * (n // 2) + "}\n", LL, ONE)
add("lit.nested", lambda n: H + "t textequ " + "<" * n + ">" * n + "\n%echo t\n", CNT, ONE)
add("text.double", lambda n: H + "t textequ <ab>\n" + "t catstr t,t\n" * n + "%echo t\n.data\ndb \"&t\"\nx sizestr t\ndd x\n", list(range(0, 16)), ONE)
add("text.subst", lambda n: H + "t textequ <" + "q" * (n // 2) + ">\n.data\nt db 1\nx equ t\n%echo t t t\n% .err <t t>\n", LL, ONE)
add("text.amp", lambda n: H + "m macro a\n.data\nx&a&a&a db 1\n db \"&a&&a\"\n%echo a a a\n.err <a&a>\nendm\nm " + "z" * (n // 3) + "\n", LL, ONE)
add("text.chain", lambda n: H + "".join("t%d textequ <t%d>\n" % (i, i + 1) for i in range(n)) + "t%d textequ <5>\n.data\n dd t0\n%%echo t0\n" % n, CNT, ONE)
add("text.self", lambda n: H + "t textequ <t " + "x" * n + ">\n.data\n dd t\n%echo t\n", [0, 1, 100, 900], ONE)
add("text.num", lambda n: H + "x = %s\nt textequ %%x\n%%echo t\ny catstr <a>,%%(x),%%(x*x)\n.radix 2\nt textequ %%x\nz catstr t,t,t\n.data\nz db 1\n" % (2 ** min(n, 63) - 1), [1, 8, 31, 32, 33, 62, 63], ONE)
add("text.substr", lambda n: H + "t textequ <abcdefgh>\nu substr t,%d\nv substr t,1,%d\nw substr t,%d,%d\n.data\ndb @substr(<abc>,%d)\n db @instr(%d,<abcabc>,<c>)\nq instr %d,t,<d>\n" % ((n,) * 7), [-1, 0, 1, 7, 8, 9, 10, 100, 65536, 2 ** 31, 2 ** 32, 2 ** 63], ONE)
add("tokens", lambda n: H + ".data\n db " + "-" * n + "1\n dd " + "(" * n + "1" + ")" * n + "\n", LL[:-1] + CNT, ONE)
add("macro.args", lambda n: H + "m macro " + ",".join("a%d" % i for i in range(n)) + "\n" + "dd %s\n" % ",".join(["a%d" % i for i in range(min(n, 200))] or ["0"]) + "endm\n.data\nm " + ",".join(str(i % 10) for i in range(n)) + "\n", CNT, ONE)
add("macro.vararg", lambda n: H + "m macro a:vararg\nfor x,<a>\ndd x\nendm\nendm\n.data\nm " + ",".join("1" for i in range(n)) + "\n", CNT, ONE)
add("macro.locals", lambda n: H + "m macro\n" + "".join("local l%d\n" % i for i in range(n)) + "".join("l%d dd 1\n" % i for i in range(n)) + "endm\n.data\nm\nm\n", CNT, ONE)
add("macro.localline", lambda n: H + "m macro\nlocal " + ",".join("l%d" % i for i in range(n + 1)) + "\n" + "".join("l%d dd 1\n" % i for i in range(n)) + "endm\n.data\nm\nm\n", CNT, ONE)
add("macro.lines", lambda n: H + "m macro a\n" + "dd a\n" * n + "endm\n.data\nm 1\nm 2\n", CNT + [3000], ONE + LST)
add("macro.longline", lambda n: H + "m macro a\ndb " + "1," * (n // 2) + "a\nendm\n.data\nm 1\nm " + "1," * (n // 2) + "\n", LL, ONE)
add("macro.amplong", lambda n: H + "m macro a,b\ndb " + "&a&b,&b," * (n // 16) + "a\nendm\n.data\nm 1,2\nm 123,45\n", LL, ONE)
add("macro.recurse", lambda n: H + "m macro n\ndd n\nif n\nm n-1\nendif\nendm\n.data\nm %d\n" % n, NEST, ONE)
add("macro.funcrec", lambda n: H + "m macro n\nif n\nexitm %%m(n-1)\nendif\nexitm <5>\nendm\n.data\ndd m(%d)\n" % n, NEST, ONE)
add("macro.nestdef", lambda n: H + "".join("m%d macro\n" % i for i in range(n)) + "endm\n" * n + "m0\nm1\nm2\n", CNT, ONE)
add("macro.chain", lambda n: H + "".join("m%d macro a\nm%d a\nendm\n" % (i, i + 1) for i in range(n)) + "m%d macro a\ndd a\nendm\n.data\nm0 5\n" % n, NEST, ONE + LST)
add("macro.parens", lambda n: H + "m macro a\nexitm <a>\nendm\n.data\ndd " + "m(" * n + "1" + ")" * n + "\n", CNT[:18], ONE)
add("rept.nest", lambda n: H + ".data\n" + "rept 1\n" * n + "db 1\n" + "endm\n" * n, NEST, ONE)
add("while.nest", lambda n: H + ".data\n" + "".join("c%d=1\nwhile c%d\nc%d=0\n" % (i, i, i) for i in range(n)) + "db 1\n" + "endm\n" * n, NEST, ONE)
add("if.nest", lambda n: H + "if 1\n" * n + ".data\ndd 1\n" + "endif\n" * n, NEST, ONE + LST)
add("if.nest0", lambda n: H + "if 0\n" * n + ".data\ndd 1\n" + "endif\n" * n, NEST, ONE)
add("if.else", lambda n: H + "".join("if 0\nelseif 1\n" for _ in range(n)) + ".data\ndd 1\n" + "endif\n" * n, NEST, ONE)
add("if.open", lambda n: H + "if 1\n" * n + "end\n", NEST, ONE)
add("if.macro", lambda n: H + "m macro\n" + "if 1\n" * n + "exitm\n" + "endif\n" * n + "endm\nm\nm\nm\n", NEST[:14], ONE)
add("seg.nest", lambda n: "".join("s%d segment use32\ndb 1\n" % i for i in range(n)) + "".join("s%d ends\n" % i for i in range(n - 1, -1, -1)), NEST, D)
add("seg.open", lambda n: "".join("s%d segment use32\ndb 1\n" % i for i in range(n)), NEST, OBJ)
add("seg.count", lambda n: "".join("s%d segment use32\ndd s%d_\ns%d_ label byte\ns%d ends\n" % (i, i, i, i) for i in range(n)), CNT + [1000], D + LST)
add("seg.groups", lambda n: "".join("s%d segment use16\ndb 1\ns%d ends\ng%d group s%d\n" % (i, i, i, i) for i in range(n)), CNT, [["-omf"], ["-omf", "-Fl"], ["-mz"], ["-bin"]])
add("seg.onegroup", lambda n: "".join("s%d segment use16\ndb 1\ns%d ends\ng group s%d\n" % (i, i, i) for i in range(n)), CNT, [["-omf"], ["-omf", "-Fl"], ["-mz"]])
add("seg.longclass", lambda n: "".join("s%d segment 'c%d'\ndb 1\ns%d ends\n" % (i, i, i) for i in range(n)), CNT, OBJ)
add("seg.align", lambda n: "s segment align(%d)\ndb 1\nalign %d\ndb 1\nalign\neven\ns ends\n" % (n, n), [0, 1, 2, 3, 4096, 8192, 65536, 2 ** 31, 2 ** 32, -1], D)
add("seg.org", lambda n: "s segment use32\ndb 1\norg %d\ndb 2\norg 0\norg $+%d\ns ends\n" % (n, n), [-1, 0, 1, 2, 1023, 1024, 65535, 65536, 100000], OBJ + [["-bin"], ["-mz"]])
add("struct.nest", lambda n: H + "s struct\n" + "struct\n" * n + "a dd ?\n" + "ends\n" * n + "s ends\n.data\nx s <>\n.code\nmov eax,x.a\n", NEST, ONE + DBG)
add("struct.named", lambda n: H + "s struct\n" + "".join("struct n%d\n" % i for i in range(n)) + "a dd ?\n" + "ends\n" * n + "s ends\n.data\nx s <>\n", NEST, ONE + DBG)
add("struct.chain", lambda n: H + "s0 struct\na dd 1\ns0 ends\n" + "".join("s%d struct\nm s%d <>\ns%d ends\n" % (i + 1, i, i + 1) for i in range(n)) + ".data\nx s%d <>\ny s%d %s5%s\n" % (n, n, "<" * (n + 1), ">" * (n + 1)), NEST, ONE + DBG)
add("struct.members", lambda n: H + "s struct\n" + "".join("m%d dd %d\n" % (i, i) for i in range(n)) + "s ends\n.data\nx s <>\ny s <" + ",".join("1" for _ in range(min(n, 400))) + ">\nz s 3 dup (<>)\n", CNT + [3000], ONE + DBG)
add("struct.array", lambda n: H + "s struct\na db %d dup (?)\nb dd 2 dup (5)\ns ends\n.data\nx s <>\ny s <{%s},{1}>\nz s <\"%s\">\n" % (n, ",".join("1" for _ in range(min(n, 300))), "s" * min(n, 900)), CNT + [65535, 65536], ONE + DBG)
add("struct.self", lambda n: H + "s struct\np ptr s ?\ns ends\nt typedef ptr s\nu typedef ptr u\nv struct\nw v <>\nv ends\n.data\nx s <>\n", [1], ONE + DBG)
add("record.fields", lambda n: H + "r record " + ",".join("f%d:1" % i for i in range(n)) + "\n.data\nx r <>\ny r <" + "1," * n + ">\n", [1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 300], ONE + DBG + [["-win64"]])
add("record.width", lambda n: H + "r record f:%d,g:1=0\n.data\nx r <-1>\n" % n, [-1, 0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 128, 2 ** 32 + 1], ONE)
add("typedef.chain", lambda n: H + "t0 typedef dword\n" + "".join("t%d typedef %st%d\n" % (i + 1, "ptr " if i % 2 else "", i) for i in range(n)) + ".data\nx t%d ?\n" % n, CNT, ONE + DBG)
add("typedef.ptr", lambda n: H + "t typedef " + "ptr " * n + "dword\n.data\nx t ?\n.code\nmov eax," + "ptr " * n + "[ebx]\n", CNT, ONE + DBG)
add("dup.nest", lambda n: H + ".data\ndb " + "1 dup (" * n + "5" + ")" * n + "\n", CNT, ONE)
add("expr.nest", lambda n: H + "x = " + "(" * n + "1" + ")" * n + "\n.data\ndd x\n.code\nmov eax," + "[" * n + "ebx" + "]" * n + "\nif " + "(" * n + "1" + ")" * n + "\nendif\n", CNT, ONE)
add("expr.unary", lambda n: H + "x = " + "not " * n + "1\n.data\ndd x\ny = " + "1+" * n + "1\nz = " + "high " * n + "1\n", CNT, ONE)
add("expr.sizes", lambda n: H + ".code\nmov eax,[ebx+%d]\nmov eax,%d\npush %d\nshl eax,%d\nint %d\nret %d\nenter %d,%d\nx = %d shl %d\ny = %d / (%d and 3)\n" % ((n,) * 12), [-1, 0, 127, 128, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 127, 2 ** 128], ONE)
add("hll.nest", lambda n: H + ".code\n" + ".if eax==1\n" * n + "nop\n" + ".endif\n" * n, NEST, ONE + LST[:1])
add("hll.while", lambda n: H + ".code\n" + ".while eax\n" * n + ".break\n" + ".endw\n" * n, NEST, ONE)
add("hll.open", lambda n: H + ".code\n" + ".while eax\n.if ebx\n.repeat\n" * n, NEST[:12], ONE)
add("hll.cond", lambda n: H + ".code\n.if " + " && ".join("eax==%d" % i for i in range(n + 1)) + "\nnop\n.endif\n.while " + " || ".join("(eax==%d && ebx)" % i for i in range(n // 2 + 1)) + "\n.endw\n", CNT, ONE)
add("hll.paren", lambda n: H + ".code\n.if " + "(" * n + "eax" + ")" * n + "\n.endif\n.if " + "!" * n + "eax\n.endif\n.if " + "!(" * n + "eax" + ")" * n + "\n.endif\n", CNT, ONE)
add("hll.elseif", lambda n: H + ".code\n.if eax==0\n" + "".join(".elseif eax==%d\nnop\n" % i for i in range(n)) + ".else\n.endif\n", CNT, ONE)
add("hll.switch", lambda n: H + ".code\n.switch eax\n" + "".join(".case %d\nnop\n.break\n" % (i * 7 % 1009) for i in range(n)) + ".default\nnop\n.endswitch\n", CNT + [1000, 3000], ONE + [["-win64"]])
add("hll.switch2", lambda n: H + "option switch:table\n.code\n.switch eax\n" + "".join(".case %d\nnop\n" % (i * 3) for i in range(n)) + ".endswitch\n", CNT, ONE)
add("hll.switchnest", lambda n: H + ".code\n" + ".switch eax\n.case 1\n" * n + "nop\n" + ".endswitch\n" * n, NEST, ONE)
add("hll.for", lambda n: H + ".code\n" + "".join(".for (ecx=0,edx=1 : ecx<5 && edx : ecx++,edx+=2)\n" for _ in range(n)) + "nop\n" + ".endfor\n" * n, NEST, ONE + [["-win64"]])
add("hll.forlong", lambda n: H + ".code\n.for (" + ",".join("ecx=%d" % i for i in range(n + 1)) + " : ecx<5 : " + ",".join("ecx++" for i in range(n + 1)) + ")\nnop\n.endfor\n", CNT, ONE)
add("proc.params", lambda n: H + ".code\np proc " + ",".join("a%d:dword" % i for i in range(n)) + "\nret\np endp\n" + (" invoke p" + "".join(",%d" % i for i in range(n)) + "\n" if n < 240 else ""), CNT, ONE + DBG + [["-win64"], ["-elf64"]])
add("proc.params64", lambda n: "option casemap:none\n.code\np proc frame " + ",".join("a%d:%s" % (i, ["qword", "real8", "dword", "real4", "byte", "ptr"][i % 6]) for i in range(n)) + "\nlocal x:qword\nret\np endp\n invoke p" + "".join(",%d" % i for i in range(n)) + "\n", CNT, [["-win64"], ["-win64", "-Zi8"], ["-elf64"]])
add("proc.sysv", lambda n: "option language:systemv\n.code\np proc " + ",".join("a%d:%s" % (i, ["qword", "real8", "dword", "real4", "byte", "ptr"][i % 6]) for i in range(n)) + "\nlocal x:qword\nret\np endp\n invoke p" + "".join(",%d" % i for i in range(n)) + "\n", CNT, [["-elf64"], ["-macho64"]])
add("proc.fastcall", lambda n: ".386\n.model flat,fastcall\n.code\np proc " + ",".join("a%d:%s" % (i, ["dword", "byte", "word", "qword"][i % 4]) for i in range(n)) + "\nret\np endp\ninvoke p" + "".join(",%d" % i for i in range(n)) + "\n", CNT[:20], ONE + [["-omf", "-zf0"], ["-omf", "-zf1"]])
for lg in ("syscall", "stdcall", "pascal", "fortran", "basic", "delphi", "borland", "vectorcall"):
    add("proc." + lg, lambda n, lg=lg: ".386\n.model flat,%s\n.code\np proc " % lg + ",".join("a%d:%s" % (i, ["dword", "byte", "word", "qword"][i % 4]) for i in range(n)) + "\nlocal x[%d]:byte\nret\np endp\ninvoke p" % (n + 1) + "".join(",%d" % i for i in range(n)) + "\n", CNT[:14], ONE[:1] + [["-omf", "-Zi"]])
add("proc.locals", lambda n: H + ".code\np proc\n" + "".join("local l%d:dword\n" % i for i in range(n)) + "ret\np endp\n", CNT + [2000], ONE + DBG)
add("proc.localsize", lambda n: H + ".code\np proc\nlocal x[%d]:byte\nlocal y:dword\nmov x,1\nmov y,2\nret\np endp\n" % n, [-1, 0, 1, 127, 128, 4095, 4096, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32], ONE + [["-win64"]])
add("proc.uses", lambda n: H + ".code\np proc uses " + " ".join(["eax", "ebx", "ecx", "edx", "esi", "edi"][i % 6] for i in range(n + 1)) + "\nret\np endp\n", CNT, ONE)
add("proc.uses64", lambda n: ".code\np proc frame uses " + " ".join((["rax", "rbx", "rsi", "rdi"] + ["xmm%d" % k for k in range(16)] + ["r%d" % k for k in range(8, 16)])[i % 28] for i in range(n + 1)) + " a:qword\nlocal y:oword\nret\np endp\n", CNT[:20], [["-win64"], ["-win64", "-Zi8"]])
add("proc.nest", lambda n: H + ".code\n" + "".join("p%d proc\n" % i for i in range(n)) + "ret\n" + "".join("p%d endp\n" % i for i in range(n - 1, -1, -1)), NEST, ONE + DBG)
add("proc.count", lambda n: H + ".code\n" + "".join("p%d proc a:dword\nret\np%d endp\n" % (i, i) for i in range(n)) + "".join("invoke p%d,%d\n" % (i, i) for i in range(n)), CNT + [2000], ONE + DBG)
add("proc.invoketext", lambda n: H + "p proto :ptr,:vararg\n.code\ninvoke p,\"" + "s" * n + "\",addr x\n.data\nx db 1\n", LL, ONE + [["-win64"]])
add("proc.invokenest", lambda n: H + "p proto :dword\n.code\n" + "p(" * n + "1" + ")" * n + "\n", CNT[:18], ONE + [["-win64"]])
add("sym.externs", lambda n: H + "".join("extern e%d:dword\n" % i for i in range(n)) + ".data\n" + "".join("dd e%d\n" % i for i in range(n)), CNT + [1000, 4000], OBJ + LST)
add("sym.publics", lambda n: H + ".data\n" + "".join("public q%d\nq%d dd 1\n" % (i, i) for i in range(n)), CNT + [1000, 4000], OBJ + DBG)
add("sym.longext", lambda n: H + "".join("extern %s%d:dword\n" % (I(n), i) for i in range(40)) + ".data\n" + "".join("dd %s%d\n" % (I(n), i) for i in range(40)), [1, 8, 100, 200, 240, 244, 245], OBJ)
add("sym.longpub", lambda n: H + ".data\n" + "".join("public %s%d\n%s%d dd 1\n" % (I(n), i, I(n), i) for i in range(40)), [1, 8, 100, 200, 240, 244, 245], OBJ)
add("sym.comm", lambda n: H + "".join("comm c%d:byte:%d\n" % (i, n) for i in range(5)), [0, 1, 127, 128, 255, 65535, 65536, 2 ** 24, 2 ** 31, 2 ** 32], OBJ)
add("sym.alias", lambda n: H + "".join("alias <a%d> = <b%d>\n" % (i, i) for i in range(n)), CNT, OBJ)
add("omf.fix", lambda n: H + ".data\n db %d dup (1)\n" % n + "x dd x, x, x\n dw 5 dup (1)\n", list(range(995, 1032, 3)) + list(range(1010, 1030)), [["-omf"], ["-omf", "-Fl"]])
add("omf.fixn", lambda n: H + ".data\nx label byte\n" + " dd x\n" * n, [1, 60, 61, 62, 100, 200, 250, 255, 256, 260, 400], [["-omf"], ["-omf", "-Zi"], ["-coff"], ["-elf"]])
add("lines", lambda n: H + ".code\n" + "nop\n" * n, CNT + [1000, 5000, 70000], DBG[:3])
add("lst.code", lambda n: H + ".data\n db %s\n db %d dup (1,2)\n dq %s\n" % (",".join("1" for _ in range(max(1, min(n, 400)))), n, ",".join("1" for _ in range(max(1, min(n, 400))))), CNT, LST)
add("ctx.push", lambda n: H + "pushcontext all\n" * n + "popcontext all\n" * n, NEST, ONE)
add("assume", lambda n: H + "s struct\na dd ?\ns ends\n" + "assume ebx:ptr s, ds:nothing\n" * n + ".code\nmov eax,[ebx].a\n", [1, 2, 50], ONE)
add("include.self", lambda n: H + "include t.asm\n", [1], ONE)
add("include.path", lambda n: H + "include " + "a/" * (n // 2) + "x.inc\nincbin " + "..\\" * (n // 3) + "y.bin\n", [10, 200, 258, 259, 260, 261, 262, 400, 900], ONE)
add("page", lambda n: H + "page %d,%d\npage +\n" % (n, n) + "nop\n" * 5, [-1, 0, 1, 9, 10, 59, 60, 255, 256, 2 ** 31], LST)
add("radix", lambda n: ".radix %d\n.data?\ndd 10\n" % n, [-1, 0, 1, 2, 3, 8, 10, 15, 16, 17, 36, 255], ONE)
add("fp.digits", lambda n: H + ".data\nreal4 %s.%s\nreal8 0.%s\nreal10 %s\nreal8 1e%d\nreal10 1.e-%d\n" % ("9" * n, "1" * n, "0" * n + "1", "1" * n + ".", n, n), CNT, ONE)
add("bigcode", lambda n: H + ".code\n" + "".join("l%d: jmp l%d\n db %d dup (90h)\n" % (i, (i * 7) % n, i % 90) for i in range(n)), [3, 100, 2000], ONE)
add("evex", lambda n: H64 + "option evex:1\n.code\n vmovaps zmm%d{k%d}{z},[rax+%d]\n vaddps zmm%d,zmm%d,dword bcst [rax+%d]\n vgatherdps zmm%d{k1},[rax+zmm%d*4]\n" % ((n,) * 8), [0, 1, 7, 8, 15, 16, 31, 32, 64, 8128, -8192, 8191], [["-win64"], ["-elf64"]])
add("objc", lambda n: H64 + "CLASS c%d\nCMETHOD m%d\nv%d dq ?\nENDCLASS\n" % (n, n, n) + "".join("METHOD c%d, m%d, <>, <>\nret\nENDMETHOD\n" % (n, n) for _ in range(1)), [1, 2], [["-win64"]])
add("widestr", lambda n: H64 + ".data\nx dw \"%s\",0\ny db L\"%s\"\n.code\nlea rax,\"%s\"\nmov rcx,CSTR(\"%s\")\nmov rcx,WSTR(\"%s\")\n" % (("w" * n,) * 5), LL, [["-win64"], ["-win64", "-Zm"]])
add("literals", lambda n: H64 + "option literals:on\np proto :ptr\n.code\nq proc\ninvoke p,\"%s\"\ninvoke p,L\"%s\"\nret\nq endp\n" % ("w" * n, "w" * n), LL, [["-win64"], ["-elf64"], ["-coff"]])
# one object redefined with a value one character longer each time: every buffer is reused at every length
GROW = {"substr": "t substr <%s>,1,{n}", "catstr": "t catstr <%s>", "textequ": "t textequ <%s>", "equ": "t equ <%s>", "equ2": "t equ %s", "func": "t textequ @catstr(<%s>)", "self": "t catstr t,<x>",
 "two": "u textequ <%s>\nt catstr u,u\nt textequ u\nt substr u,2", "pct": "t catstr %%{n}*{n}*{n},<%s>", "marg": "m <%s>", "mfun": "t catstr mf(<%s>)", "irp": "irp x,<%s>\n%%%%echo x\nendm", "irpc": "irpc x,<%s>\nendm",
 "title": "title %s\nsubttl %s", "mdef": "q macro\n;%s\nt catstr <%s>\nendm\nq", "echo": "%%%%echo t %s", "opt": "ifidn <%s>,<%s>\nendif\n.errdif <%s>,<%s>", "assume": "assume nothing", "arg2": "m2 a%s,<b%s>,%s", "num": "t textequ %%1{n}"}
for k, tx in GROW.items():
    add("grow." + k, lambda n, tx=tx: H + "m macro a\nt textequ <a>\nt catstr t,<&a&>\nendm\nm2 macro a,b,c:vararg\nlocal l\nt catstr <a>,<b>,<c>\nl = 1\nendm\nmf macro a\nexitm <a>\nendm\nt textequ <>\n"
        + "".join((tx.replace("%s", "z" * i).replace("%%", "%").replace("{n}", str(i)) + "\n%echo t\n") for i in [j for j in range(n, n + 60 if n < 900 else n + 25)]), [1, 61, 120, 230, 480, 930], ONE)
NOEND = ("id.end", "if.open", "hll.open", "seg.open", "lit.unterminated", "include.self")
def programs():
    """(name, n, opts, source)"""
    for name, gen, vals, opts in CASES:
        for n in dict.fromkeys(vals):
            try: s = gen(n)
            except ZeroDivisionError: continue
            if name not in NOEND: s += "end\n"
            for o in opts: yield name, n, list(o), s[len(H):] if s.startswith(H) and o[0] in ("-win64", "-elf64", "-macho64") else s
