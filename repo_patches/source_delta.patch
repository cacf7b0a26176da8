From 65873513ba8559479f7bc9e5ccb5248f37826f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 001/114] fix: shift VEX operands with memmove

The operand array is moved down by one within itself, so source and
destination overlap and memcpy() is undefined there.
---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index fc5239a..99ce94f 100644
--- a/parser.c
+++ b/parser.c
@@ -3762,7 +3762,7 @@ dataInProc:
 							/* first operand register is moved to vexregop */
 							/* handle VEX.NDD */
 							CodeInfo.vexregop = opndx[OPND1].base_reg->bytval + 1;
-							memcpy(&opndx[OPND1], &opndx[CurrOpnd], sizeof(opndx[0]) * 3);
+							memmove(&opndx[OPND1], &opndx[CurrOpnd], sizeof(opndx[0]) * 3);
 							CodeInfo.rm_byte = 0;
 							if (process_register(&CodeInfo, OPND1, opndx) == ERROR)
 								return(ERROR);
@@ -3793,7 +3793,7 @@ dataInProc:
 						CodeInfo.vexconst = opndx[CurrOpnd].value;
 						if(opndx[CurrOpnd].base_reg)
 							CodeInfo.vexregop = opndx[CurrOpnd].base_reg->bytval + 1;
-						memcpy(&opndx[CurrOpnd], &opndx[CurrOpnd + 1], sizeof(opndx[0]) * 2);
+						memmove(&opndx[CurrOpnd], &opndx[CurrOpnd + 1], sizeof(opndx[0]) * 2);
 					}
 					else
 					{
-- 
2.43.0


From 6abc0f42c415d2ec9c4b9bbc9e80e555f295eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 002/114] fix: don't index the ASSUME register table with
 vector registers or RIP

The check for a register ASSUMEd to ERROR used the register number of any
base or index register: XMM16-31 and RIP read past StdAssumeTable[], and
XMM0-15 as VSIB index were matched with the general registers' ASSUME.
---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 99ce94f..6d4a87b 100644
--- a/parser.c
+++ b/parser.c
@@ -1757,11 +1757,11 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
 
 
     /* UASM 2.53 check for use of register assumed to ERROR in an EA */
-    if (base != EMPTY && StdAssumeTable[GetRegNo(base)].error)
+    if (base != EMPTY && (GetValueSp(base) & OP_R) && StdAssumeTable[GetRegNo(base)].error)
     {
         return(EmitError(USE_OF_REGISTER_ASSUMED_TO_ERROR));
     }
-    if (index != EMPTY && StdAssumeTable[GetRegNo(index)].error)
+    if (index != EMPTY && (GetValueSp(index) & OP_R) && StdAssumeTable[GetRegNo(index)].error)
     {
         return(EmitError(USE_OF_REGISTER_ASSUMED_TO_ERROR));
     }
-- 
2.43.0


From 62b4dd1ccde649763a8171d6f3b3ea4c837c4c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 003/114] fix: add the missing KTESTx items to vex_flags[]

The table has one item per VEX instruction; without these four the flags of
KMOVx and of every instruction of instravx.h were those of an instruction
four places further, so valid AVX instructions were rejected or mis-encoded.
---
 reswords.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reswords.c b/reswords.c
index 7048998..a695885 100644
--- a/reswords.c
+++ b/reswords.c
@@ -875,6 +875,10 @@ VX_LL|VX_L,      /* VPMULTISHIFTQB */
          VX_NND,      /* KSHIFTRW */
          VX_NND,      /* KSHIFTRD */
          VX_NND,      /* KSHIFTRQ */
+         VX_NND,      /* KTESTB   */
+         VX_NND,      /* KTESTW   */
+         VX_NND,      /* KTESTD   */
+         VX_NND,      /* KTESTQ   */
 		 VX_NND,      /* KMOVB    */
 		 VX_NND,      /* KMOVD    */
 		 VX_NND,      /* KMOVQ    */
-- 
2.43.0


From dc9fef10d1dd4c00cb2cf7b755bea8b2a5bb31f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 004/114] fix: 32-bit SHR of -1 where long has 64 bits

The operand was cast to unsigned long to make it a 32-bit value, which it
isn't on LP64 hosts.
---
 expreval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index 6f4e2d7..bd8ce62 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3763,7 +3763,7 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
 	            else {
                 /* Nidud fix v2.28*/
 		            if ( opnd1->value == -1 && ModuleInfo.Ofssize == USE32 )
-		              opnd1->llvalue = (unsigned long)opnd1->llvalue >> opnd2->value;
+		              opnd1->llvalue = (uint_32)opnd1->llvalue >> opnd2->value;
 		           else
 		             opnd1->llvalue = opnd1->llvalue >> opnd2->value;
 	            }
-- 
2.43.0


From 8851db2f2d9294534e319ec11c18dffb8cbc3474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 005/114] fix: SHR only treats -1 itself as a 32-bit value, for
 any shift count

In 32-bit segments every value whose low dword was FFFFFFFF lost its high
dword, and counts above 31 were an undefined shift (-1 SHR 33 = 7FFFFFFF).
---
 expreval.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/expreval.c b/expreval.c
index bd8ce62..b64f8b2 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3762,10 +3762,9 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
 		             opnd1->llvalue = 0;
 	            else {
                 /* Nidud fix v2.28*/
-		            if ( opnd1->value == -1 && ModuleInfo.Ofssize == USE32 )
-		              opnd1->llvalue = (uint_32)opnd1->llvalue >> opnd2->value;
-		           else
-		             opnd1->llvalue = opnd1->llvalue >> opnd2->value;
+		            if ( opnd1->value64 == -1 && ModuleInfo.Ofssize == USE32 )
+		              opnd1->llvalue &= 0xffffffff;
+		            opnd1->llvalue = opnd1->llvalue >> opnd2->value;
 	            }
 	            break;
         case T_AND:
-- 
2.43.0


From 590646ccd9740730c74198d299ef2a2296064b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 006/114] fix: NOT/HIGH/LOW... of a character constant is a
 number, not the string

dq NOT 'a' stored the string 'a' instead of the operator's result.
---
 expreval.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/expreval.c b/expreval.c
index b64f8b2..7e451ec 100644
--- a/expreval.c
+++ b/expreval.c
@@ -2297,6 +2297,7 @@ static ret_code lowword_op( int oper, struct expr *opnd1, struct expr *opnd2, st
 /**********************************************************************************************************/
 {
     TokenAssign( opnd1, opnd2 );
+    opnd1->quoted_string = NULL; /* the result isn't a string anymore */
     if ( opnd2->kind == EXPR_ADDR && opnd2->instr != T_SEG ) {
         opnd1->instr = T_LOWWORD;
         //opnd1->mem_type = MT_WORD; /* v2.05 */
@@ -2310,6 +2311,7 @@ static ret_code highword_op( int oper, struct expr *opnd1, struct expr *opnd2, s
 /***********************************************************************************************************/
 {
     TokenAssign( opnd1, opnd2 );
+    opnd1->quoted_string = NULL; /* the result isn't a string anymore */
     if ( opnd2->kind == EXPR_ADDR && opnd2->instr != T_SEG ) {
         opnd1->instr = T_HIGHWORD;
         //opnd1->mem_type = MT_WORD; /* v2.05 */
@@ -2323,6 +2325,7 @@ static ret_code low_op( int oper, struct expr *opnd1, struct expr *opnd2, struct
 /******************************************************************************************************/
 {
     TokenAssign( opnd1, opnd2 );
+    opnd1->quoted_string = NULL; /* the result isn't a string anymore */
     if ( opnd2->kind == EXPR_ADDR && opnd2->instr != T_SEG ) {
 #if 0
         /* LOW works for OMF/BIN only */
@@ -2345,6 +2348,7 @@ static ret_code high_op( int oper, struct expr *opnd1, struct expr *opnd2, struc
 /*******************************************************************************************************/
 {
     TokenAssign( opnd1, opnd2 );
+    opnd1->quoted_string = NULL; /* the result isn't a string anymore */
     if ( opnd2->kind == EXPR_ADDR && opnd2->instr != T_SEG ) {
         /* v2.07: don't check any format-specific rules in the
          * expression evaluator!
@@ -2377,6 +2381,7 @@ static ret_code low32_op( int oper, struct expr *opnd1, struct expr *opnd2, stru
         opnd2->float_tok = NULL;
     }
     TokenAssign( opnd1, opnd2 );
+    opnd1->quoted_string = NULL; /* the result isn't a string anymore */
     if ( opnd2->kind == EXPR_ADDR && opnd2->instr != T_SEG ) {
         opnd1->instr = T_LOW32;
         //opnd1->mem_type = MT_DWORD; /* v2.10: changed - also see change in parser.c, idata_fixup() */
@@ -2398,6 +2403,7 @@ static ret_code high32_op( int oper, struct expr *opnd1, struct expr *opnd2, str
         opnd2->float_tok = NULL;
     }
     TokenAssign( opnd1, opnd2 );
+    opnd1->quoted_string = NULL; /* the result isn't a string anymore */
     if ( opnd2->kind == EXPR_ADDR && opnd2->instr != T_SEG ) {
         opnd1->instr = T_HIGH32;
         //opnd1->mem_type = MT_DWORD; /* v2.10: changed - also see change in parser.c, idata_fixup() */
@@ -3796,6 +3802,7 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
                 return( fnEmitErr( CONSTANT_OPERAND_EXPECTED ) );
             }
             TokenAssign( opnd1, opnd2 );
+            opnd1->quoted_string = NULL; /* the result isn't a string anymore */
             opnd1->llvalue = ~(opnd2->llvalue);
             break;
         }
-- 
2.43.0


From 941804a8f1d26aaa702fa06655ee715e97cbb82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 007/114] fix: 8000000000000000h / -1 crashed the assembler
 (division overflow)

---
 expreval.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index 7e451ec..41e323f 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3580,7 +3580,10 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
             return( fnEmitErr( DIVIDE_BY_ZERO_IN_EXPR ) );
         }
 
-        opnd1->value64 /= opnd2->value64;
+        if ( opnd2->value64 == -1 ) /* the quotient of the smallest value wraps */
+            opnd1->llvalue = -opnd1->llvalue;
+        else
+            opnd1->value64 /= opnd2->value64;
         break;
     case T_BINARY_OPERATOR:
         DebugMsg1(("calculate(%s [T_BINARY_OPERATOR] ): t1-t2 kind %d/%d memtype %X-%X sym %s-%s type %s-%s\n",
-- 
2.43.0


From 01de501ae668096e15a96d94a0b741161aaef727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 008/114] fix: listing shows the wrong high dword for equates
 with bit 31 set

---
 listing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/listing.c b/listing.c
index e27f2a5..979468d 100644
--- a/listing.c
+++ b/listing.c
@@ -267,7 +267,7 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         }
         ll.buffer[idx] = '=';
         if ( sym->value3264 != 0 && ( sym->value3264 != -1 || sym->value >= 0 ) )
-            sprintf( &ll.buffer[idx+2], "%-" PREFFMTSTR I64_SPEC "X", (uint_64)sym->value + ( (uint_64)sym->value3264 << 32 ) );
+            sprintf( &ll.buffer[idx+2], "%-" PREFFMTSTR I64_SPEC "X", (uint_64)sym->uvalue + ( (uint_64)sym->value3264 << 32 ) );
         else
             sprintf( &ll.buffer[idx+2], "%-" PREFFMTSTR I32_SPEC "X", sym->value );
         //ll.buffer[28] = ' ';
-- 
2.43.0


From 5fe0630d16588204708ede36beed63b8ddaa9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 009/114] fix: IF, WHILE and .ERRE/.ERRNZ test all 64 bits of
 their expression

IF 100000000h was false.
---
 condasm.c | 10 +++++-----
 loop.c    |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/condasm.c b/condasm.c
index 63e9ce4..65010f5 100644
--- a/condasm.c
+++ b/condasm.c
@@ -255,7 +255,7 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             /* v2.11: don't exit, assume 0 */
             //return( ERROR );
             opndx.kind = EXPR_CONST;
-            opndx.value = 0;
+            opndx.value64 = 0;
             i = Token_Count;
         }
 #if 0 /* v2.05: obsolete */
@@ -275,9 +275,9 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             return( EmitError( CONSTANT_EXPECTED ) );
         }
         if ( directive == T_IF || directive == T_ELSEIF )
-            NextIfState = ( opndx.value ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
+            NextIfState = ( opndx.value64 ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
         else
-            NextIfState = ( !opndx.value ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
+            NextIfState = ( !opndx.value64 ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
         break;
     case CC_LITARG: /*  [ELSE]IFDIF[I], [ELSE]IFIDN[I] */
         string1 = tokenarray[i].string_ptr;
@@ -487,9 +487,9 @@ ret_code ErrorDirective( int i, struct asm_tok tokenarray[] )
         }
         if ( Parse_Pass == PASS_1 )
             break;
-        if ( direct == T_DOT_ERRNZ && opndx.value ) {
+        if ( direct == T_DOT_ERRNZ && opndx.value64 ) {
             errmsg = FORCED_NOT_ZERO;
-        } else if ( direct == T_DOT_ERRE && !opndx.value ) {
+        } else if ( direct == T_DOT_ERRE && !opndx.value64 ) {
             errmsg = FORCED_EQUAL;
         }
 
diff --git a/loop.c b/loop.c
index 3c7e5da..a6f8b8f 100644
--- a/loop.c
+++ b/loop.c
@@ -57,17 +57,17 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
          * referenced symbols may be used here!
          */
         if ( EvalOperand( &i, tokenarray, Token_Count, &opnd, EXPF_NOUNDEF ) == ERROR ) {
-            opnd.value = 0;
+            opnd.value64 = 0;
             i = Token_Count;
         } else if ( opnd.kind != EXPR_CONST ) { /* syntax <REPEAT|WHILE 'A'> is valid! */
             DebugMsg(( "LoopDirective(%s): invalid argument type %u\n", GetResWName( directive, NULL ), opnd.kind ));
             EmitError( CONSTANT_EXPECTED );
-            opnd.value = 0;
+            opnd.value64 = 0;
         } else if( tokenarray[i].token != T_FINAL ) {
             EmitErr( SYNTAX_ERROR_EX, tokenarray[i].tokpos );
             /* v2.09: don't exit, the macro lines must be read first. */
             //return( ERROR );
-            opnd.value = 0;
+            opnd.value64 = 0;
         }
         break;
     default: /* FOR, FORC, IRP, IRPC */
@@ -213,7 +213,7 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
         }
         break;
     case T_WHILE:
-        while ( opnd.kind == EXPR_CONST && opnd.value != 0 ) {
+        while ( opnd.kind == EXPR_CONST && opnd.value64 != 0 ) {
             DebugMsg1(("LoopDirective WHILE: cnt=%u\n", count++ ));
             RunMacro( macro, Token_Count, tokenarray, NULL, 0, &is_exitm );
             if ( is_exitm )
-- 
2.43.0


From 5da16842ae6960e75718269752eebcb41d7f0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 010/114] fix: operand size of LZCNT/TZCNT/RDRAND/RDSEED with
 16-bit registers

---
 codegen.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index ddb3f14..bcae690 100644
--- a/codegen.c
+++ b/codegen.c
@@ -189,14 +189,11 @@ static void output_opc(struct code_info *CodeInfo)
 #if SSE4SUPP
     /* there are 2 exceptions. how to avoid this ugly hack? */
     if (CodeInfo->token != T_CRC32 &&
-      CodeInfo->token != T_POPCNT)
+      CodeInfo->token != T_POPCNT && CodeInfo->token != T_LZCNT && CodeInfo->token != T_TZCNT &&
+      CodeInfo->token != T_RDRAND && CodeInfo->token != T_RDSEED)
 #endif
       CodeInfo->prefix.opsiz = FALSE;
   }
-  if ((CodeInfo->token == T_RDRAND) || (CodeInfo->token == T_RDSEED)){
-    if ((CodeInfo->opnd[OPND1].type == OP_R16) || (CodeInfo->opnd[OPND1].type == OP_AX))
-      CodeInfo->prefix.opsiz = TRUE;
-  } 
   /*
    * Check if CPU, FPU and extensions are within the limits
    */
-- 
2.43.0


From b20257b59c72c28104ee73a460d9ea114d5e1f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 011/114] fix: movq r64, mm encoded with swapped operands

---
 H/instruct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/H/instruct.h b/H/instruct.h
index 187eee7..c35f74a 100644
--- a/H/instruct.h
+++ b/H/instruct.h
@@ -871,7 +871,7 @@ insn(MOVQ, 5,                   OpCls( XMM,      XMM_M64,  NONE ), F_F30F, 1,  n
 insn(MOVQ, 6,                   OpCls( M64,      MMX,      NONE ), F_0F,   0,  no_WDS, 0x7F,     0x00,       P_586|P_MMX, QSIZE)
 insn(MOVQ, 7,                   OpCls( M64,      MMX,      NONE ), F_0F,   1,  no_WDS, 0x7F,     0x00,       P_686|P_MMX, W1|QSIZE|T1S)
 insn(MOVQ, 8,                   OpCls( MMX,      R64_M64,  NONE ), F_0F,   1,  no_WDS, 0x6E,     0x00,       P_686|P_MMX, W1|QSIZE|T1S)
-insn(MOVQ, 9,                   OpCls( R64,      MMX,      NONE ), F_0F,   1,  no_WDS, 0x7E,     0x00,       P_686|P_MMX, W1|QSIZE|T1S)
+insn(MOVQ, 9,                   OpCls( R64,      MMX,      NONE ), F_0F,   0,  no_WDS, 0x7E,     0x00,       P_686|P_MMX, W1|QSIZE|T1S)
 #endif
 
 ins (MOVAPD, movapd,            OpCls( XMM,      XMM_M128, NONE ), F_660F, 1,  no_WDS, 0x28,     0x00,       P_686|P_SSE2,W1|QSIZE|FVM)
-- 
2.43.0


From b37bfa8700b81f3541bf6773b4dc0cc070fbafa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 012/114] fix: BMI instructions with a zero displacement or
 label, 32-bit memory forms and blsi r,eax

---
 codegen.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index bcae690..7c60aff 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1216,9 +1216,6 @@ static void output_opc(struct code_info *CodeInfo)
               c = ~c;
               c &= EVEX_P1VVVV;
               lbyte |= c;
-#if AMD64_SUPPORT
-              lbyte |=0x80;
-#endif
                if (ins->byte1_info == F_660F) lbyte |= 0x1;
                else if (ins->byte1_info == F_F30F38) lbyte |= 0x02;//SARX
                else if (ins->byte1_info == F_660F38) lbyte |= 0x01;//SHLX
@@ -2556,6 +2553,10 @@ static void output_opc(struct code_info *CodeInfo)
           tmp &= ~0x38;
           tmp |= 0x08;
           }
+        if (CodeInfo->token == T_BLSI){
+          tmp &= ~0x38;
+          tmp |= 0x18;
+          }
         /* ModR/M.mod (bit 7:6) = 0 specifies the scale factor [Scaled Vector Register] + Disp32, Uasm 2.16 */
         if ((CodeInfo->basetype == 0xfe) && ((CodeInfo->indextype == OP_XMM) ||
           (CodeInfo->indextype == OP_YMM) || (CodeInfo->indextype == OP_ZMM))){
@@ -2692,11 +2693,10 @@ static void output_data(const struct code_info *CodeInfo, enum operand_type dete
     if (CodeInfo->token >= VEX_START){
       if ((CodeInfo->token == T_ANDN) || (CodeInfo->token == T_MULX) ||
         (CodeInfo->token == T_PDEP) || (CodeInfo->token == T_PEXT)){
-        if ((CodeInfo->opnd[OPND2].data32l == 0) || (index == 2))
+        if (index == 2)
           return;
       }
       if ((CodeInfo->token >= T_BEXTR) && (CodeInfo->token <= T_SHRX) || (CodeInfo->token == T_BZHI)) {
-        if (CodeInfo->opnd[OPND2].data32l == 0) return;
         if ((index == 0) || (index == 2))
           return;
       }
-- 
2.43.0


From 2ad2ab32b35ffabe19832b9737581d2c467a6300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 013/114] fix: address-size prefix for memory operands with a
 32-bit index but no base, or a symbol and a 32-bit register

---
 codegenv2.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index ae4b814..661e0ea 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1215,6 +1215,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	unsigned char   idxRegNo = 17;
 	int             baseRegSize = 0;
 	int             idxRegSize = 0;
+	int             addrRegSize = 0;
 	int             symSize = 0;
 	bool			skipSIB = FALSE;
 
@@ -1275,20 +1276,19 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 
 		/* For 64bit mode, all symbol references are RIP relative, unless the symbol is on the stack.
 		   EXCEPT, if the memory address includes a register. */
-		if (ModuleInfo.Ofssize == USE64 && opExpr[instr->memOpnd].sym->state != SYM_STACK && baseRegNo == 0x11)
+		if (ModuleInfo.Ofssize == USE64 && opExpr[instr->memOpnd].sym->state != SYM_STACK && baseRegNo == 0x11 && idxRegNo == 0x11)
 		{
 			baseRegNo = 16;
 		}
 
 	}
-	else
-	{
-		/* Address format requires Address Size Override Prefix */
-		if ((ModuleInfo.Ofssize == USE64 && baseRegSize == 4) ||
-			(ModuleInfo.Ofssize == USE32 && baseRegSize == 2) ||
-			(ModuleInfo.Ofssize == USE16 && baseRegSize == 4))
-			returnASO = 1;
-	}
+
+	/* Address format requires Address Size Override Prefix - the index decides if there's no base */
+	addrRegSize = (baseRegSize > 0 && baseRegSize < 16) ? baseRegSize : idxRegSize;
+	if ((ModuleInfo.Ofssize == USE64 && addrRegSize == 4) ||
+		(ModuleInfo.Ofssize == USE32 && addrRegSize == 2) ||
+		(ModuleInfo.Ofssize == USE16 && addrRegSize == 4))
+		returnASO = 1;
 
 	/* Calculate 16bit memory addressing ModRM in 32bit mode */
 	if (ModuleInfo.Ofssize == USE32 && baseRegSize == 2)
-- 
2.43.0


From de5341496aec196f0f5c1e783b74656f9bc24540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 014/114] fix: 16-bit addressing in 32-bit code: no SIB byte
 for [si], [bp]+disp and word displacements

---
 codegen.c   |  6 ++----
 codegenv2.c | 10 ++++++++--
 parser.c    |  3 ++-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/codegen.c b/codegen.c
index 7c60aff..21f634e 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2647,10 +2647,8 @@ static void output_opc(struct code_info *CodeInfo)
             }
 		    OutputCodeByte( tmp );
 
-        //if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
-        //   ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) )
-        //    return; /* no SIB for 16bit */
-        if ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) 
+        if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
+           ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) )
             return; /* no SIB for 16bit */
 
         switch ( tmp & NOT_BIT_345 ) {
diff --git a/codegenv2.c b/codegenv2.c
index 661e0ea..e9bca94 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1218,6 +1218,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	int             addrRegSize = 0;
 	int             symSize = 0;
 	bool			skipSIB = FALSE;
+	bool			needDisp = FALSE;
 
 	/* Absolute addressing modes can skip this */
 	if (instr->memOpnd != MEM_ABS_1 && instr->memOpnd != MEM_ABS_0)
@@ -1316,6 +1317,11 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 				* pmodRM |= 6;
 			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BX)
 				* pmodRM |= 7;
+			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BP)
+			{
+				* pmodRM |= 6;
+				needDisp = TRUE;	/* [BP] can only be encoded with a displacement */
+			}
 
 			*needModRM |= TRUE;
 
@@ -1360,7 +1366,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	/* Either: User specified
 	           RIP relative addressing mandates it
 	           Specified address format can only be encoded with a displacement. */
-	if (instr->memOpnd > NO_MEM || opExpr[instr->memOpnd].value != 0 ||
+	if (instr->memOpnd > NO_MEM || opExpr[instr->memOpnd].value != 0 || needDisp ||
 		(ModuleInfo.Ofssize == USE64 && opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->token == T_RIP) ||
 		MemTable[memModeIdx].flags & MEMF_DSP || MemTable[memModeIdx].flags & MEMF_DSP32 || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state != SYM_STACK))
 	{
@@ -1391,7 +1397,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 			}
 			else
 			{
-				if (ModuleInfo.Ofssize == USE16)
+				if (ModuleInfo.Ofssize == USE16 || (ModuleInfo.Ofssize == USE32 && baseRegSize == 2))
 					*dispSize = 2;	/* 16bit addressing. */
 				else
 					*dispSize = 4;	/* 32bit or 64bit sign extended addressing. */
diff --git a/parser.c b/parser.c
index 6d4a87b..d2b9a0f 100644
--- a/parser.c
+++ b/parser.c
@@ -1789,7 +1789,8 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
             ( ( GetValueSp( index ) & OP_R64) && CodeInfo->Ofssize == USE64 ) ||
             ( ( GetValueSp( index ) & OP_R16) && CodeInfo->Ofssize == USE16 ) || 
 			( ( GetValueSp( index ) & OP_XMM) && CodeInfo->Ofssize == USE32 ) || // UASM 2.48 missing support base+xmm/ymm vsib addressing.
-			( ( GetValueSp( index ) & OP_YMM) && CodeInfo->Ofssize == USE32 )
+			( ( GetValueSp( index ) & OP_YMM) && CodeInfo->Ofssize == USE32 ) ||
+			( ( GetValueSp( index ) & OP_ZMM) && CodeInfo->Ofssize == USE32 )
 			) 
 		{
             CodeInfo->prefix.adrsiz = FALSE;
-- 
2.43.0


From 920ae128dff6dbc647809ad9cca5d7727203e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 015/114] fix: segment override dropped for
 pmaxub/pminub/movntdqa/cmpXXsd memory operands

---
 parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index d2b9a0f..f0eb1b7 100644
--- a/parser.c
+++ b/parser.c
@@ -571,8 +571,10 @@ static void seg_override( struct code_info *CodeInfo, int seg_reg, const struct
     /* don't touch segment overrides for string instructions */
     //if ( InstrTable[optable_idx[CodeInfo->token]].allowed_prefix == AP_REP ||
     //     InstrTable[optable_idx[CodeInfo->token]].allowed_prefix == AP_REPxx )
-    if ( CodeInfo->pinstr->allowed_prefix == AP_REP ||
-         CodeInfo->pinstr->allowed_prefix == AP_REPxx )
+    /* vector instructions store their tuple type in that field */
+    if ( ( CodeInfo->pinstr->allowed_prefix == AP_REP ||
+           CodeInfo->pinstr->allowed_prefix == AP_REPxx ) &&
+         ( CodeInfo->opnd[OPND1].type & ( OP_MMX | OP_XMM | OP_YMM | OP_ZMM ) ) == 0 )
         return;
 
     if( CodeInfo->token == T_LEA ) {
@@ -2389,6 +2391,9 @@ static void HandleStringInstructions( struct code_info *CodeInfo, const struct e
             CodeInfo->prefix.RegOverride = EMPTY;
         break;
     default: /*INS[B|W|D], SCAS[B|W|D|Q], STOS[B|W|D|Q] */
+        /* vector instructions whose tuple type equals AP_REP/AP_REPxx */
+        if ( CodeInfo->opnd[OPND1].type & ( OP_MMX | OP_XMM | OP_YMM | OP_ZMM ) )
+            break;
         /* INSx, SCASx and STOSx don't allow any segment prefix != ES
          for the memory operand.
          */
-- 
2.43.0


From 1e2e653a22c59699ac1d400e2210f67cc986cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 016/114] fix: address-size prefix for vcvtph2ps and vcvtps2pd

---
 codegen.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 21f634e..5ca9cbf 100644
--- a/codegen.c
+++ b/codegen.c
@@ -462,8 +462,7 @@ static void output_opc(struct code_info *CodeInfo)
    * Neither Masm nor Uasm emit a warning, though.
    */
   
-  if (CodeInfo->prefix.adrsiz == TRUE && (CodeInfo->token < T_VPGATHERDD || CodeInfo->token > T_VSCATTERQPD)&&
-      CodeInfo->token != T_VCVTPH2PS && CodeInfo->token != T_VCVTPS2PD) {
+  if (CodeInfo->prefix.adrsiz == TRUE && (CodeInfo->token < T_VPGATHERDD || CodeInfo->token > T_VSCATTERQPD)) {
 
 	  if (CodeInfo->basereg == 0x10) /* RIP used for relative addressing v2.36 */
 		  ;/* don't output 0x67 */
-- 
2.43.0


From 602fb01cd185ea0b3ce41ab97f07f66ec1ad85a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 017/114] fix: LENGTHOF/SIZEOF of WORD data with a 2-character
 string counted it twice

---
 data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.c b/data.c
index 33b981b..7ffe1b2 100644
--- a/data.c
+++ b/data.c
@@ -831,7 +831,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
                         first = FALSE; /* avoid to touch first_xxx fields below */
                     }
                 }
-				else if (no_of_bytes == 2 && string_len > 1)
+				else if (no_of_bytes == 2 && string_len > 1 && Options.literal_strings && !Options.masm51_compat && !Options.strict_masm_compat)
 				{
 					sym->isarray = TRUE;
 					total += (string_len - 1);
-- 
2.43.0


From 43a6889c8a89470d7696cdbd779b307125906383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 018/114] fix: BYTE..QWORD initialisers of more than 64 bits
 were silently truncated

---
 data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.c b/data.c
index 7ffe1b2..7ba3e54 100644
--- a/data.c
+++ b/data.c
@@ -911,7 +911,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
                     if ( no_of_bytes <= sizeof( int_64 ) ) {
                         tmp = ( opndx.chararray[7] < 0x80 ? 0 : 0xFF );
                         memset( opndx.chararray, tmp, no_of_bytes );
-                        if ( opndx.llvalue != 0 && opndx.llvalue != -1 ) {
+                        if ( ( opndx.llvalue != 0 && opndx.llvalue != -1 ) || ( opndx.hlvalue != 0 && opndx.hlvalue != -1 ) ) {
                             DebugMsg(("data_item.CONST: error, unhandled data is %" I64_SPEC "X_%016" I64_SPEC "X\n", opndx.hlvalue, opndx.llvalue));
                             return( EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, opndx.sym ? opndx.sym->name : "" ) );
                         }
-- 
2.43.0


From 69dbfe965057907f3374452e97c395eeca07419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 019/114] fix: ELF output crashed on a data segment without
 initialized data

---
 elf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elf.c b/elf.c
index e0821e1..198568f 100644
--- a/elf.c
+++ b/elf.c
@@ -1229,8 +1229,10 @@ static ret_code elf_write_data( struct module_info *modinfo, struct elfmod *em )
         size = curr->sym.max_offset - curr->e.seginfo->start_loc;
         DebugMsg(("elf_write_data(%s): program data at ofs=%X, size=%X\n", curr->sym.name, curr->e.seginfo->fileoffset, size ));
         if ( curr->e.seginfo->segtype != SEGTYPE_BSS && size != 0 ) {
+            /* a segment without initialized data has no buffer: it's a hole in the file */
+            if ( curr->e.seginfo->CodeBuffer == NULL )
+                continue;
             fseek( CurrFile[OBJ], curr->e.seginfo->fileoffset + curr->e.seginfo->start_loc, SEEK_SET );
-            /**/myassert( curr->e.seginfo->CodeBuffer );
             if ( fwrite( curr->e.seginfo->CodeBuffer, 1, size, CurrFile[OBJ] ) != size )
                 WriteError();
         }
-- 
2.43.0


From 060123b6e02467d6418a998ee2ad1a29ee8291a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 020/114] fix: no false out-of-range error for LOOP/JCXZ/SHORT
 in passes where code still moves

---
 branch.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/branch.c b/branch.c
index e605d71..6348e5e 100644
--- a/branch.c
+++ b/branch.c
@@ -318,6 +318,14 @@ ret_code process_branch( struct code_info *CodeInfo, unsigned CurrOpnd, const st
                     //if ( addr >= SCHAR_MIN && addr <= SCHAR_MAX ) {
                     //    return( EmitError( ONLY_SHORT_JUMP_DISTANCE_IS_ALLOWED ) );
                     //}
+                    /* code has moved in this pass: a label not yet reached has its old offset,
+                     * so the distance is preliminary and another pass will follow.
+                     */
+                    if ( Parse_Pass > PASS_1 && ModuleInfo.PhaseError ) {
+                        CodeInfo->opnd[OPND1].type = OP_I8;
+                        CodeInfo->opnd[OPND1].data32l = addr;
+                        return( NOT_ERROR );
+                    }
                     if ( addr < 0 ) {
                         addr -= SCHAR_MIN;
                         addr = 0 - addr;
-- 
2.43.0


From fc29ba3c7a40bfad8aac83dc05867be1684c8767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 021/114] fix: LOOP/JCXZ/SHORT to a label not yet reached:
 report out of range only once code no longer moves

---
 H/globals.h |  2 ++
 assemble.c  | 10 ++++++++--
 branch.c    |  8 +++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/H/globals.h b/H/globals.h
index bf4774f..9cc90f3 100644
--- a/H/globals.h
+++ b/H/globals.h
@@ -731,6 +731,8 @@ struct module_vars {
     unsigned            error_count;     /* total of errors so far */
     unsigned            warning_count;   /* total of warnings so far */
     unsigned            num_segs;        /* number of segments in module */
+    unsigned char       RangeError;      /* a SHORT/LOOP/JCXZ target was out of range in this pass */
+    unsigned char       RangeCheck;      /* nothing moves anymore, out of range targets are errors */
     struct qdesc        PubQueue;        /* PUBLIC items */
     struct qdesc        LnameQueue;      /* LNAME items (segments, groups and classes) */
     struct qdesc        SafeSEHQueue;    /* list of safeseh handlers */
diff --git a/assemble.c b/assemble.c
index 4c9e6e2..433c621 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1121,6 +1121,7 @@ static int OnePass( void )
 
     ModuleInfo.EndDirFound = FALSE;
     ModuleInfo.PhaseError  = FALSE;
+    ModuleInfo.g.RangeError  = FALSE;
 
 	LinnumInit();
 
@@ -1653,8 +1654,13 @@ int EXPQUAL AssembleModule( const char *source )
 
         /* if there's no phase error and size of segments didn't change, we're done */
         DebugMsg(("AssembleModule(%u): PhaseError=%u, prev_written=%" I32_SPEC "X, curr_written=%" I32_SPEC "X\n", Parse_Pass + 1, ModuleInfo.PhaseError, prev_written, curr_written));
-        if( !ModuleInfo.PhaseError && prev_written == curr_written )
-            break;
+        if( !ModuleInfo.PhaseError && prev_written == curr_written ) {
+            /* if a target was out of range, one more pass will report it */
+            if ( !ModuleInfo.g.RangeError || ModuleInfo.g.RangeCheck )
+                break;
+            ModuleInfo.g.RangeCheck = TRUE;
+        } else
+            ModuleInfo.g.RangeCheck = FALSE;
 
 #ifdef DEBUG_OUT
         if ( curr_written < prev_written && prev_written != -1 ) {
diff --git a/branch.c b/branch.c
index 6348e5e..07bde66 100644
--- a/branch.c
+++ b/branch.c
@@ -318,10 +318,12 @@ ret_code process_branch( struct code_info *CodeInfo, unsigned CurrOpnd, const st
                     //if ( addr >= SCHAR_MIN && addr <= SCHAR_MAX ) {
                     //    return( EmitError( ONLY_SHORT_JUMP_DISTANCE_IS_ALLOWED ) );
                     //}
-                    /* code has moved in this pass: a label not yet reached has its old offset,
-                     * so the distance is preliminary and another pass will follow.
+                    /* as long as code moves between passes, a label not yet reached has its old
+                     * offset and the distance is preliminary. The error is emitted by the pass
+                     * done once nothing moves anymore, see AssembleModule().
                      */
-                    if ( Parse_Pass > PASS_1 && ModuleInfo.PhaseError ) {
+                    if ( Parse_Pass > PASS_1 && !ModuleInfo.g.RangeCheck ) {
+                        ModuleInfo.g.RangeError = TRUE;
                         CodeInfo->opnd[OPND1].type = OP_I8;
                         CodeInfo->opnd[OPND1].data32l = addr;
                         return( NOT_ERROR );
-- 
2.43.0


From e7b9e811b621c514e993b8dcc9b462ef9e00f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 022/114] fix: endless passes when ALIGN makes jump sizes
 oscillate

---
 branch.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/branch.c b/branch.c
index 07bde66..3b7b103 100644
--- a/branch.c
+++ b/branch.c
@@ -137,6 +137,7 @@ ret_code process_branch( struct code_info *CodeInfo, unsigned CurrOpnd, const st
  */
 {
     int_32              addr;
+    int_32              margin;
     enum fixup_types    fixup_type;
     enum fixup_options  fixup_option;
     enum sym_state      state;
@@ -299,8 +300,16 @@ ret_code process_branch( struct code_info *CodeInfo, unsigned CurrOpnd, const st
             //    CodeInfo->mem_type = MT_NEAR;
             //}
             DebugMsg(("process_branch: CI.memtype=%Xh addr=%Xh\n", CodeInfo->mem_type, addr ));
+            /* An ALIGN may make the sizes of jumps oscillate: a jump that becomes short moves
+             * code so that it is out of range again. If there's no end after 200 passes, more
+             * and more jumps close to the limit are made near, until nothing moves anymore.
+             */
+            margin = 0;
+            if ( Parse_Pass >= 200 && opndx->instr != T_SHORT && !IS_XCX_BRANCH( CodeInfo->token ) &&
+                ( ( ModuleInfo.curr_cpu & P_CPU_MASK ) >= P_386 || !IS_JCC( CodeInfo->token ) || ModuleInfo.ljmp ) )
+                margin = ( Parse_Pass < 330 ? Parse_Pass - 199 : 131 );
             if( CodeInfo->mem_type != MT_NEAR && CodeInfo->token != T_CALL &&
-                ( addr >= SCHAR_MIN && addr <= SCHAR_MAX ) ) {
+                ( addr >= SCHAR_MIN + margin && addr <= SCHAR_MAX - margin ) ) {
                 CodeInfo->opnd[OPND1].type = OP_I8;
             } else {
                 if ( opndx->instr == T_SHORT || ( IS_XCX_BRANCH( CodeInfo->token ) ) ) {
-- 
2.43.0


From bacba8742185f6c11f2a54dc2ada498126b1980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 023/114] fix: ELF common symbols had size 0 and their size as
 alignment

---
 elf.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/elf.c b/elf.c
index 198568f..8a75358 100644
--- a/elf.c
+++ b/elf.c
@@ -178,6 +178,18 @@ static int get_num_reloc_sections( void )
     return( num );
 }
 
+/* alignment of a COMMUNAL: item size, rounded down to a power of 2, max. 16 */
+
+static uint_32 GetCommAlign( const struct asym *sym )
+/***************************************************/
+{
+    uint_32 size = ( sym->total_length ? sym->total_size / sym->total_length : 1 );
+    uint_32 align = 1;
+    while ( align < 16 && align * 2 <= size )
+        align *= 2;
+    return( align );
+}
+
 /* fill entries in ELF32 symbol table */
 
 static uint_32 set_symtab32( struct elfmod *em, uint_32 entries, struct localname *localshead )
@@ -256,10 +268,11 @@ static uint_32 set_symtab32( struct elfmod *em, uint_32 entries, struct localnam
 
         p32->st_name = strsize;
 
-        /* for COMMUNALs, store their size in the Value field */
+        /* for COMMUNALs, the Value field holds the alignment */
         if ( curr->sym.iscomm == TRUE ) {
             p32->st_info = ELF32_ST_INFO( STB_GLOBAL, STT_COMMON );
-            p32->st_value = curr->sym.total_size;
+            p32->st_value = GetCommAlign( &curr->sym );
+            p32->st_size  = curr->sym.total_size;
             p32->st_shndx = SHN_COMMON;
         } else {
 #if OWELFIMPORT
@@ -438,10 +451,11 @@ static uint_32 set_symtab64( struct elfmod *em, uint_32 entries, struct localnam
 
         p64->st_name = strsize;
 
-        /* for COMMUNALs, store their size in the Value field */
+        /* for COMMUNALs, the Value field holds the alignment */
         if ( curr->sym.iscomm == TRUE ) {
             p64->st_info = ELF64_ST_INFO( STB_GLOBAL, STT_COMMON );
-            p64->st_value = curr->sym.total_size;
+            p64->st_value = GetCommAlign( &curr->sym );
+            p64->st_size  = curr->sym.total_size;
             p64->st_shndx = SHN_COMMON;
         } else {
 #if OWELFIMPORT
-- 
2.43.0


From 2b67f3b818faa9ca1c41adbf9689ad5ce1edf9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 024/114] fix: segment buffers overflowed when code grew after
 pass 1, or with long data in OMF

---
 H/globals.h |  2 +-
 H/symbols.h |  1 +
 assemble.c  | 54 ++++++++++++++++++++++++++++++++++++++++++++---------
 segment.c   | 35 +++++-----------------------------
 4 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/H/globals.h b/H/globals.h
index 9cc90f3..057e89d 100644
--- a/H/globals.h
+++ b/H/globals.h
@@ -860,7 +860,6 @@ struct module_info {
     unsigned            srcfile;         /* main source file - is an index for FNames[] */
     struct dsym         *currseg;        /* currently active segment */
     struct dsym         *flat_grp;       /* magic FLAT group */
-    uint_8              *pCodeBuff;
     unsigned int        GeneratedCode;   /* nesting level generated code */
     /* input members */
     char                *currsource;     /* current source line */
@@ -928,6 +927,7 @@ extern bool                  gmaskflag;
 
 struct fixup;
 
+extern void             ReserveSegBuffer( struct dsym *, uint_32 );
 extern void             OutputByte( unsigned char );
 extern void             OutputBinBytes( unsigned char* pBytes, uint_32 len );
 
diff --git a/H/symbols.h b/H/symbols.h
index 6562c19..2e815d1 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -317,6 +317,7 @@ struct seg_info {
 #else
     uint_8              *CodeBuffer;
 #endif
+    uint_32             bufsize;        /* size of CodeBuffer (not used by OMF) */
     uint_32             bytes_written;  /* initialized bytes in segment */
     union {
         struct asym     *label_list;    /* linked list of labels in this seg */
diff --git a/assemble.c b/assemble.c
index 433c621..0879ea2 100644
--- a/assemble.c
+++ b/assemble.c
@@ -234,6 +234,24 @@ char *ConvertSectionName( const struct asym *sym, enum seg_type *pst, char *buff
 }
 #endif
 
+/* ensure that a segment buffer has room for <size> bytes (not used by OMF).
+ */
+void ReserveSegBuffer( struct dsym *seg, uint_32 size )
+/*****************************************************/
+{
+    uint_8 *p;
+
+    if ( size <= seg->e.seginfo->bufsize )
+        return;
+    size = ( size + size / 4 + 64 ) & ~7;
+    p = LclAlloc( size );
+    memset( p, 0, size );
+    if ( seg->e.seginfo->bufsize )
+        memcpy( p, seg->e.seginfo->CodeBuffer, seg->e.seginfo->bufsize );
+    seg->e.seginfo->CodeBuffer = p;
+    seg->e.seginfo->bufsize = size;
+}
+
 /* Write a byte to the segment buffer.
  * in OMF, the segment buffer is flushed when the max. record size is reached.
  */
@@ -253,6 +271,8 @@ void OutputByte( unsigned char byte )
             idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
         }
         //DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
+        if ( Options.output_format != OFORMAT_OMF )
+            ReserveSegBuffer( CurrSeg, idx + 1 );
         CurrSeg->e.seginfo->CodeBuffer[idx] = byte;
     }
 #if 1
@@ -284,10 +304,15 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 		}
 #endif
 		/**/myassert(CurrSeg->e.seginfo->current_loc >= CurrSeg->e.seginfo->start_loc);
-		if (Options.output_format == OFORMAT_OMF && idx >= MAX_LEDATA_THRESHOLD) {
-			omf_FlushCurrSeg();
-			idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
+		if (Options.output_format == OFORMAT_OMF) {
+			/* the buffer has the size of a LEDATA record */
+			while (len) {
+				OutputByte(*pBytes++);
+				len--;
+			}
+			return;
 		}
+		ReserveSegBuffer(CurrSeg, idx + len);
 		//DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
 		for (i = 0; i < len; i++)
 		{
@@ -347,6 +372,8 @@ void OutputSegmentBytes(struct dsym* segg, const unsigned char *pbytes, int len,
 		if (fixup)
 			store_fixup(fixup, segg, (int_32 *)pbytes);
 		//DebugMsg(("OutputBytes: buff=%p, idx=%" I32_SPEC "X, byte=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, *pbytes ));
+		if (Options.output_format != OFORMAT_OMF)
+			ReserveSegBuffer(segg, idx + len);
 		memcpy(&segg->e.seginfo->CodeBuffer[idx], pbytes, len);
 	}
 #if 1
@@ -379,6 +406,11 @@ void OutputBytes( const unsigned char *pbytes, int len, struct fixup *fixup )
             _asm int 3;
 #endif
         /**/myassert( CurrSeg->e.seginfo->current_loc >= CurrSeg->e.seginfo->start_loc );
+        if( Options.output_format == OFORMAT_OMF && len > MAX_LEDATA_THRESHOLD && fixup == NULL ) {
+            for( ; len; len-- )
+                OutputByte( *pbytes++ );
+            return;
+        }
         if( Options.output_format == OFORMAT_OMF && ((idx + len) > MAX_LEDATA_THRESHOLD ) ) {
             omf_FlushCurrSeg();
             idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
@@ -386,6 +418,8 @@ void OutputBytes( const unsigned char *pbytes, int len, struct fixup *fixup )
         if ( fixup )
             store_fixup( fixup, CurrSeg, (int_32 *)pbytes );
         //DebugMsg(("OutputBytes: buff=%p, idx=%" I32_SPEC "X, byte=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, *pbytes ));
+        if ( Options.output_format != OFORMAT_OMF )
+            ReserveSegBuffer( CurrSeg, idx + len );
         memcpy( &CurrSeg->e.seginfo->CodeBuffer[idx], pbytes, len );
     }
 #if 1
@@ -417,10 +451,15 @@ void OutputInterleavedBytes(const unsigned char *pbytes, int len, struct fixup *
 			_asm int 3;
 #endif
 		/**/myassert(CurrSeg->e.seginfo->current_loc >= CurrSeg->e.seginfo->start_loc);
-		if (Options.output_format == OFORMAT_OMF && ((idx + len) > MAX_LEDATA_THRESHOLD)) {
-			omf_FlushCurrSeg();
-			idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
+		if (Options.output_format == OFORMAT_OMF) {
+			/* the buffer has the size of a LEDATA record */
+			for (i = 0; i < len; i++) {
+				OutputByte(*pbytes++);
+				OutputByte(0);
+			}
+			return;
 		}
+		ReserveSegBuffer(CurrSeg, idx + len*2);
 		if (fixup)
 			store_fixup(fixup, CurrSeg, (int_32 *)pbytes);
 		pOut = &CurrSeg->e.seginfo->CodeBuffer[idx];
@@ -1716,9 +1755,6 @@ int EXPQUAL AssembleModule( const char *source )
 	if (Options.dumpSymbols)
 		WriteSymbols();
 
-    if ( ModuleInfo.pCodeBuff ) {
-        LclFree( ModuleInfo.pCodeBuff );
-    }
     DebugMsg(("AssembleModule: finished, cleanup\n"));
 
     /* Write a symbol listing file (if requested) */
diff --git a/segment.c b/segment.c
index 26f7a63..847754d 100644
--- a/segment.c
+++ b/segment.c
@@ -94,7 +94,6 @@ static int              saved_stkindex;
 
 /* generic byte buffer, used for OMF LEDATA records only */
 static uint_8           codebuf[ 1024 ];
-static uint_32          buffer_size; /* total size of code buffer */
 
 /* min cpu for USE16, USE32 and USE64 */
 static const uint_16 min_cpu[] = { P_86, P_386, P_64 };
@@ -1168,43 +1167,19 @@ void SegmentInit( int pass )
 {
     struct dsym *curr;
     uint_32     i;
-    char        *p;
     CurrSeg      = NULL;
     stkindex     = 0;
 
     if ( pass == PASS_1 ) {
         grpdefidx   = 0;
-        buffer_size = 0;
         CV8Label = NULL;
     }
 
-    /*
-     * alloc a buffer for the contents
-     */
-    if ( ModuleInfo.pCodeBuff == NULL && Options.output_format != OFORMAT_OMF ) {
-        for( curr = SymTables[TAB_SEG].head, buffer_size = 0; curr; curr = curr->next ) {
-            if ( curr->e.seginfo->internal )
-                continue;
-            if ( curr->e.seginfo->bytes_written ) {
-                i = curr->sym.max_offset - curr->e.seginfo->start_loc;
-                /* the segment can grow in step 2-n due to forward references.
-                 * for a quick solution just add 25% to the size if segment
-                 * is a code segment. (v2.02: previously if was added only if
-                 * code segment contained labels, but this isn't sufficient.)
-                 */
-                if ( curr->e.seginfo->segtype == SEGTYPE_CODE )
-                    i = i + (i >> 2);
-                buffer_size += i;
-            }
-        }
-        if ( buffer_size ) {
-            ModuleInfo.pCodeBuff = LclAlloc( buffer_size );
-        }
-    }
     /* Reset length of all segments to zero.
-     * set start of segment buffers.
+     * alloc a buffer for the contents. If the segment grows in this pass,
+     * ReserveSegBuffer() will get a larger one.
      */
-    for( curr = SymTables[TAB_SEG].head, p = ModuleInfo.pCodeBuff; curr; curr = curr->next ) {
+    for( curr = SymTables[TAB_SEG].head; curr; curr = curr->next ) {
         curr->e.seginfo->current_loc = 0;
         if ( curr->e.seginfo->internal )
             continue;
@@ -1212,9 +1187,9 @@ void SegmentInit( int pass )
             if ( Options.output_format == OFORMAT_OMF ) {
                 curr->e.seginfo->CodeBuffer = codebuf;
             } else {
-                curr->e.seginfo->CodeBuffer = p;
                 i = curr->sym.max_offset - curr->e.seginfo->start_loc;
-                p += i;
+                if ( i > curr->e.seginfo->bufsize )
+                    ReserveSegBuffer( curr, i );
             }
         }
         if( curr->e.seginfo->combine != COMB_STACK ) {
-- 
2.43.0


From da779fb272c861cd0cdc9b53ea5c9f44d5bf0c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 025/114] fix: memory operand without base register read
 SpecialTable[-2]

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index f0eb1b7..94bf127 100644
--- a/parser.c
+++ b/parser.c
@@ -1738,7 +1738,7 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
     index = ( opndx->idx_reg ? opndx->idx_reg->tokval : EMPTY );
 
     /* swap registers if base is AVX register, v2.38 */
-    if (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM)
+    if (base != EMPTY && (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM))
 	{
       temp    = base;
       base    = index;
-- 
2.43.0


From c2aa099f73d2010715b541dc1f91c2ec701c5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 026/114] fix: INCBIN ignored its size argument and crashed
 with an offset beyond the file

---
 directiv.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/directiv.c b/directiv.c
index 3e742fb..fb5f825 100644
--- a/directiv.c
+++ b/directiv.c
@@ -264,13 +264,20 @@ ret_code IncBinDirective( int i, struct asm_tok tokenarray[] )
 	{
 		/* v2.14 : Get File Size */
 		fseek( file, 0L, SEEK_END );
-		sz = ftell( file ) - fileoffset; // sz = total data size to load into segment/section.
+		sz = ftell( file ); // sz = total data size to load into segment/section.
+		sz = ( sz > 0 && (uint_32)sz > fileoffset ) ? sz - fileoffset : 0;
+		if ( (uint_32)sz > sizemax )
+			sz = sizemax;
 		fseek( file, 0L, SEEK_SET );
-		pBinData = (unsigned char*)malloc(sz);
+		pBinData = (unsigned char*)malloc(sz ? sz : 1);
+		if ( pBinData == NULL )
+			Fatal( OUT_OF_MEMORY );
 		if ( fileoffset )
 			fseek( file, fileoffset, SEEK_SET );  /* fixme: use fseek64() */
-		result = fread(pBinData, sz, 1, file);
-		OutputBinBytes(pBinData, sz);
+		result = fread(pBinData, 1, sz, file);
+		if ( result != sz )
+			EmitErr( CANNOT_OPEN_FILE, StringBufferEnd, ErrnoStr() );
+		OutputBinBytes(pBinData, result);
 
         /* transfer file content to the current segment. */
         //if ( fileoffset )
-- 
2.43.0


From 7bb429a046be600eb8e977bd03eaf0515c19812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 027/114] fix: set_rm_sib() read SpecialTable[-2] without base
 register

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 94bf127..7b8b28d 100644
--- a/parser.c
+++ b/parser.c
@@ -699,7 +699,7 @@ static ret_code set_rm_sib(struct code_info *CodeInfo, unsigned CurrOpnd, char s
     mod_field = MOD_01; /* byte size displacement */
     }
   /* In the case of suppressed base register it has to be swapped with index v2.38 */
-  temp = GetValueSp( base );                                 /* get value from SpecialTable */
+  temp = ( base == EMPTY ? 0 : GetValueSp( base ) );         /* get value from SpecialTable */
   if (temp == OP_XMM || temp == OP_YMM || temp == OP_ZMM){   /* base can be only GP register*/
     temp = index;                                            /* swap index with base */
     index = base;
-- 
2.43.0


From 19be688e055ba51d49f3b1ea7f35e6e9d9d9e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 028/114] fix: data fixups kept the frame of the previous item;
 offset carry entered the segment part of far pointers

---
 data.c  | 3 +++
 fixup.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/data.c b/data.c
index 7ba3e54..052fa10 100644
--- a/data.c
+++ b/data.c
@@ -39,6 +39,7 @@
 #include "input.h"
 #include "fixup.h"
 #include "listing.h"
+#include "omfspec.h"
 #include "lqueue.h"
 #include "proc.h"
 #include "segment.h"
@@ -84,6 +85,7 @@
 
 extern ret_code segm_override( const struct expr *, struct code_info * );
 extern struct asym *SegOverride;
+extern int_8        Frame_Type;
 extern const char szNull[];
 extern UINT_PTR UTF8toWideChar(const unsigned char *pSource, UINT_PTR nSourceLen, UINT_PTR *nSourceDone, unsigned short *szTarget, UINT_PTR nTargetMax);
 static ret_code data_item( int *, struct asm_tok[], struct asym *, uint_32, const struct asym *, uint_32, bool inside_struct, bool, bool, int );
@@ -1198,6 +1200,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
              * Init var SegOverride, it's used inside set_frame()
              */
             SegOverride = NULL;
+            Frame_Type = FRAME_NONE; /* don't keep the frame of a previous item */
             segm_override( &opndx, NULL );
 
             /* set global vars Frame and Frame_Datum */
diff --git a/fixup.c b/fixup.c
index 2d20a7b..1c32518 100644
--- a/fixup.c
+++ b/fixup.c
@@ -230,6 +230,9 @@ void store_fixup( struct fixup *fixup, struct dsym *seg, int_32 *pdata )
         if( fixup->type != FIX_SEG && fixup->sym ) {
             *pdata += fixup->sym->offset;
         }
+        /* a carry or sign of the offset must not enter the segment part */
+        if ( fixup->type == FIX_PTR16 )
+            *pdata = (uint_16)*pdata;
 
     } else {
 
-- 
2.43.0


From a489e73dbccf345ba5666566b6e72599d68983b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 029/114] fix: Mach-O output: absolute relocations, immediates
 after RIP-relative operands, .data? and uninitialized data, undefined
 symbols, other segments

---
 macho64.c | 237 ++++++++++++++++++++++++++----------------------------
 1 file changed, 112 insertions(+), 125 deletions(-)

diff --git a/macho64.c b/macho64.c
index bcba4b9..d420703 100644
--- a/macho64.c
+++ b/macho64.c
@@ -43,12 +43,11 @@ struct strentry
 struct macho_section_entry
 {
 	char *srcName;
+	struct dsym *seg;
 	struct section_64 section;
 	struct section_64 *next;
-	int dif; /* padding to keep section size multiple of 16 */
 	int size;
 	int ofs;
-	void *data;
 	int idx;
 	int relocCount;
 	uint64_t relocOfs;
@@ -85,16 +84,7 @@ int macho_section_count()
 	int cnt = 0;
 	struct dsym *curr;
 	for (curr = SymTables[TAB_SEG].head; curr; curr = curr->next)
-	{
-		if (strcmp(curr->sym.name, "_BSS") == 0)
-			cnt++;
-		else if (strcmp(curr->sym.name, "CONST") == 0)
-			cnt++;
-		else if (strcmp(curr->sym.name, "_TEXT") == 0)
-			cnt++;
-		else if (strcmp(curr->sym.name, "_DATA") == 0)
-			cnt++;
-	}
+		cnt++;
 	return(cnt);
 }
 
@@ -202,7 +192,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 		if (strcmp(sym->name, "$xdatasym") == 0) continue;
 		if (sym->state != SYM_MACRO && sym->state != SYM_SEG && sym->state != SYM_TMACRO && sym->predefined == 0 && sym->state != SYM_GRP && sym->isequate == 0)
 		{ 
-			if (sym->state != SYM_EXTERNAL && !sym->ispublic && sym->used)
+			if (sym->state == SYM_INTERNAL && !sym->ispublic && sym->used)
 			{
 				tblSize += strlen(sym->name) + 1;
 				pstr = malloc(sizeof(struct strentry));
@@ -242,7 +232,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 	{
 		if (sym->state != SYM_MACRO && sym->state != SYM_SEG && sym->state != SYM_TMACRO && sym->predefined == 0 && sym->state != SYM_GRP && sym->isequate == 0)
 		{
-			if (sym->state == SYM_EXTERNAL)
+			if (sym->state == SYM_EXTERNAL && !sym->ispublic && (sym->used || sym->iscomm))
 			{
 				tblSize += strlen(sym->name) + 1;
 				pstr = malloc(sizeof(struct strentry));
@@ -259,16 +249,16 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 }
 
 /* ==========================================================================================
-Return the 1-based index of a symbol table entry, based on it's name
+Return the 1-based index of a symbol table entry, or 0
 NB: symbol table indices in other structures are 0 based.
 ========================================================================================== */
-static int GetSymbolIndex(const char *pName, struct macho_module *mm)
+static int GetSymbolIndex(const struct asym *sym, struct macho_module *mm)
 {
 	struct strentry *currStr = mm->strings;
 	int idx = 0;
-	for (currStr = mm->strings;currStr;currStr = currStr->next)
+	for (currStr = mm->strings;sym && currStr;currStr = currStr->next)
 	{
-		if (strcmp(pName, currStr->pstr) == 0)
+		if (currStr->sym == sym)
 		{
 			idx = currStr->idx;
 			break;
@@ -287,8 +277,9 @@ struct section_64 * macho_build_section( const char *secName, const char *segNam
 	memset(pSec, 0, sizeof(struct macho_section_entry));
 
 	pSec->srcName = srcName;
-	strcpy(pSec->section.sectname, secName);
-	strcpy(pSec->section.segname, segName);
+	/* the names aren't zero-terminated if they have 16 characters */
+	strncpy(pSec->section.sectname, secName, sizeof(pSec->section.sectname));
+	strncpy(pSec->section.segname, segName, sizeof(pSec->section.segname));
 	pSec->section.align = 0; // 2^0 = 1 byte alignment.
 	pSec->section.flags = flags;
 
@@ -380,6 +371,40 @@ static int GetRelocationCount(struct macho_module *mm, int baseOfs)
 	return(relocCnt);
 }
 
+/* ==========================================================================================
+Adjust the addends, which are stored inline:
+- a PC-relative displacement is relative to the end of the field, not of the instruction.
+- a reference to a label which isn't in the symbol table holds its address in this file.
+========================================================================================== */
+static void macho_inline_addends(struct macho_section_entry *pSec, struct macho_module *mm)
+{
+	struct fixup *fix;
+	struct macho_section_entry *curr;
+	uint_64 addr;
+	uint_8 *p;
+
+	for (fix = pSec->seg->e.seginfo->FixupList.head; fix && pSec->seg->e.seginfo->CodeBuffer; fix = fix->nextrlc)
+	{
+		p = (uint_8 *)pSec->seg->e.seginfo->CodeBuffer + (fix->locofs - pSec->seg->e.seginfo->start_loc);
+		addr = 0;
+		if (fix->sym && fix->sym->segment && GetSymbolIndex(fix->sym, mm) == 0)
+		{
+			addr = fix->sym->offset;
+			for (curr = mm->sections; curr && strcmp(curr->srcName, fix->sym->segment->name); curr = curr->next);
+			if (curr)
+				addr += curr->section.addr;
+			if (fix->type == FIX_RELOFF32)
+				addr -= pSec->section.addr + fix->locofs + 4;
+		}
+		if (fix->type == FIX_RELOFF32)
+			*(uint_32 *)p += (uint_32)addr - (fix->addbytes - 4);
+		else if (fix->type == FIX_OFF32)
+			*(uint_32 *)p += (uint_32)addr;
+		else if (fix->type == FIX_OFF64)
+			*(uint_64 *)p += addr;
+	}
+}
+
 /* ==========================================================================================
 Create all the macho obj file structures and calculate offsets.
 ========================================================================================== */
@@ -402,7 +427,6 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	int relocDataSize = 0;
 	struct relocation_info reloc;
 	struct fixup *currFixup;
-	uint_8 machotype;
 	struct version_min_command ver;
 	int ofsAdj = 0;
 
@@ -428,74 +452,37 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	/* For every internal segment, create a section */
 	for (curr = SymTables[TAB_SEG].head; curr; curr = curr->next)
 	{
+		bool bss = (curr->e.seginfo->segtype == SEGTYPE_BSS);
+
 		if (strcmp(curr->sym.name, "_TEXT") == 0)
-		{
 			currSec = macho_build_section("__text", "__TEXT", S_REGULAR, curr->sym.name);
-			macho_add_section(currSec, &mm);
-			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written,mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
-			currSec->section.size = currSec->size;
-			currSec->section.addr = currAddr;
-			currAddr += currSec->size;
-			currAddr = ROUND_UP(currAddr, mm.sectAlign); 
-			pCmd->filesize += currSec->size;
-			currSec->idx = secIdx++;
-			currSec->section.flags |= (S_ATTR_SOME_INSTRUCTIONS | S_ATTR_PURE_INSTRUCTIONS);
-			fileofs += sizeof(struct section_64);
-			pCmd->vmsize += currSec->size;
-		}
-		
 		else if (strcmp(curr->sym.name, "_DATA") == 0)
-		{
 			currSec = macho_build_section("__data", "__DATA", S_REGULAR, curr->sym.name);
-			macho_add_section(currSec, &mm);
-			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written, mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
-			currSec->section.size = currSec->size;
-			currSec->section.addr = currAddr;
-			currAddr += currSec->size;
-			currAddr = ROUND_UP(currAddr, mm.sectAlign);
-			pCmd->filesize += currSec->size;
-			currSec->idx = secIdx++;
-			fileofs += sizeof(struct section_64);
-			pCmd->vmsize += currSec->size;
-		}
-
 		else if (strcmp(curr->sym.name, "CONST") == 0)
-		{
 			currSec = macho_build_section("_rdata", "__DATA", S_REGULAR, curr->sym.name);
-			macho_add_section(currSec, &mm);
-			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written, mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
-			currSec->section.size = currSec->size;
-			currSec->section.addr = currAddr;
-			currAddr += currSec->size;
-			currAddr = ROUND_UP(currAddr, mm.sectAlign);
-			pCmd->filesize += currSec->size;
-			currSec->idx = secIdx++;
-			fileofs += sizeof(struct section_64);
-			pCmd->vmsize += currSec->size;
-		}
-
 		else if (strcmp(curr->sym.name, "_BSS") == 0)
-		{
 			currSec = macho_build_section("__bss", "__DATA", S_ZEROFILL, curr->sym.name);
-			macho_add_section(currSec, &mm);
-			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written, mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
-			currSec->section.size = currSec->size;
-			currSec->section.addr = currAddr;
-			currAddr = ROUND_UP(currAddr, mm.sectAlign);
-			currAddr += currSec->size;
-			currSec->idx = secIdx++;
-			fileofs += sizeof(struct section_64);
-			pCmd->vmsize += currSec->size;
-
+		else
+		{
+			currSec = macho_build_section(curr->sym.name, curr->e.seginfo->segtype == SEGTYPE_CODE ? "__TEXT" : "__DATA", bss ? S_ZEROFILL : S_REGULAR, curr->sym.name);
+			currSec->section.align = curr->e.seginfo->alignment;
+			currAddr = ROUND_UP(currAddr, (uint64_t)1 << currSec->section.align);
 		}
+
+		bss = ((currSec->section.flags & SECTION_TYPE) == S_ZEROFILL);
+		if (curr->e.seginfo->segtype == SEGTYPE_CODE)
+			currSec->section.flags |= (S_ATTR_SOME_INSTRUCTIONS | S_ATTR_PURE_INSTRUCTIONS);
+		macho_add_section(currSec, &mm);
+		currSec->seg = curr;
+		currSec->section.size = ROUND_UP(curr->sym.max_offset, mm.sectAlign);
+		currSec->section.addr = currAddr;
+		currAddr += currSec->section.size;
+		/* a zerofill section has no data in the file */
+		currSec->size = bss ? 0 : (int)currSec->section.size;
+		pCmd->filesize += currSec->size;
+		pCmd->vmsize = currAddr;
+		currSec->idx = secIdx++;
+		fileofs += sizeof(struct section_64);
 	}
 	/* At this point only the section offsets (file) need to still be set 
 	-> Once we have the size of the remaining commands. */
@@ -576,12 +563,19 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	/* Write out the section data */
 	for (currSec = mm.sections;currSec;currSec = currSec->next)
 	{
-		if (fwrite(currSec->data, 1, currSec->size-currSec->dif, CurrFile[OBJ]) != currSec->size-currSec->dif)
+		uint_32 start = currSec->seg->e.seginfo->start_loc;
+		uint_32 cnt2 = 0;
+
+		if (currSec->size == 0)
+			continue;
+		macho_inline_addends(currSec, &mm);
+		if (currSec->seg->e.seginfo->CodeBuffer == NULL)
+			start = currSec->size; /* no initialized data */
+		for (; cnt2 < start; cnt2++)
+			if (fwrite(&padbyte, 1, 1, CurrFile[OBJ]) != 1)
+				WriteError();
+		if (start < currSec->size && fwrite(currSec->seg->e.seginfo->CodeBuffer, 1, currSec->size - start, CurrFile[OBJ]) != currSec->size - start)
 			WriteError();
-		if (currSec->dif > 0)
-		{
-			fwrite(&padbyte, 1, currSec->dif, CurrFile[OBJ]);
-		}
 	}
 
 	/* Write out relocation entries */
@@ -596,45 +590,39 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 					memset(&reloc, 0, sizeof(struct relocation_info));
 
 					reloc.r_address = currFixup->locofs;
-					if (currFixup->sym)
+					reloc.r_symbolnum = GetSymbolIndex(currFixup->sym, &mm);
+					if (reloc.r_symbolnum)
 					{
 						reloc.r_extern = 1;
-						reloc.r_symbolnum = GetSymbolIndex(currFixup->sym->name, &mm) - 1;
-						reloc.r_pcrel = 1;
+						reloc.r_symbolnum--;
 					}
 					else
+						reloc.r_symbolnum = (currFixup->sym ? GetSectionIdx(currFixup->sym->segment, &mm) : currSec->idx);
+
+					reloc.r_length = 2;
+					switch (currFixup->type)
 					{
-						reloc.r_extern = 0;
-						reloc.r_symbolnum = currSec->idx;
+					case FIX_RELOFF32:
 						reloc.r_pcrel = 1;
-					}
-					if (currFixup->type == FIX_RELOFF32 && currFixup->addbytes == 4 && currFixup->option == OPTJ_NONE)
-					{
-						machotype = X86_64_RELOC_SIGNED;
-					}
-					else if (currFixup->type == FIX_RELOFF32 && (currFixup->option == OPTJ_EXPLICIT || currFixup->option == OPTJ_CALL || currFixup->option == OPTJ_JXX))
-					{
-						machotype = X86_64_RELOC_BRANCH;
-					}
-					else
-					{
-						machotype = X86_64_RELOC_SIGNED;
-					}
-	
-					reloc.r_type = machotype;
-					switch (currFixup->addbytes)
-					{
-						case 8:
-							reloc.r_length = 3;
-							break;
-						case 4:
-							reloc.r_length = 2;
-							break;
-						case 2:
-							reloc.r_length = 1;
-							break;
-						default:
-							reloc.r_length = 0;
+						if (currFixup->option == OPTJ_EXPLICIT || currFixup->option == OPTJ_CALL || currFixup->option == OPTJ_JXX)
+							reloc.r_type = X86_64_RELOC_BRANCH;
+						else switch (currFixup->addbytes)
+						{
+						case 5: reloc.r_type = X86_64_RELOC_SIGNED_1; break;
+						case 6: reloc.r_type = X86_64_RELOC_SIGNED_2; break;
+						case 8: reloc.r_type = X86_64_RELOC_SIGNED_4; break;
+						default: reloc.r_type = X86_64_RELOC_SIGNED;
+						}
+						break;
+					case FIX_OFF64:
+						reloc.r_length = 3;
+						/* no break */
+					case FIX_OFF32:
+						reloc.r_type = X86_64_RELOC_UNSIGNED;
+						break;
+					default:
+						EmitErr( INVALID_FIXUP_TYPE, ModuleInfo.fmtopt->formatname, currFixup->type, seg->sym.name, currFixup->locofs );
+						continue;
 					}
 
 					if (fwrite(&reloc, 1, sizeof(struct relocation_info), CurrFile[OBJ]) != sizeof(struct relocation_info))
@@ -648,16 +636,14 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	/* Write out symbol table entries */
 	for (currStr = mm.strings;currStr;currStr = currStr->next)
 	{
-		if (!currStr->sym->used && !currStr->sym->ispublic)
-			continue;
-
 		memset(&symEntry, 0, sizeof(struct nlist_64));
 
 		if (currStr->sym->state == SYM_EXTERNAL)
 		{
 			symEntry.n_sect = NO_SECT;
 			symEntry.n_type = N_UNDF | N_EXT;
-			symEntry.n_value = currStr->sym->total_size;
+			/* the size of a common symbol; must be 0 if it's just undefined */
+			symEntry.n_value = (currStr->sym->iscomm ? currStr->sym->total_size : 0);
 			symEntry.n_un.n_strx = currStr->offset;
 		}
 		else
@@ -669,10 +655,11 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 				symEntry.n_type = N_SECT;
 			symEntry.n_value = (uint64_t)currStr->sym->offset;
 			
-			/* The offset is relative to the start of the segment, so we must add any previous sections total sizes */
+			/* The offset is relative to the start of the segment, so we must add the section's address */
 			ofsAdj = 0;
-			for (currSec = mm.sections;currSec->idx < symEntry.n_sect;currSec = currSec->next)
-				ofsAdj += currSec->size;
+			for (currSec = mm.sections;currSec;currSec = currSec->next)
+				if (currSec->idx == symEntry.n_sect)
+					ofsAdj = currSec->section.addr;
 			symEntry.n_value += ofsAdj;
 
 			symEntry.n_un.n_strx = currStr->offset;
-- 
2.43.0


From f5380673886cae44b5d0bc2f71cf0759ebf793ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 030/114] hook: UASM_VERIF allocates each item separately for
 the sanitizers

---
 memalloc.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/memalloc.c b/memalloc.c
index 5ac42e3..961e6b0 100644
--- a/memalloc.c
+++ b/memalloc.c
@@ -78,6 +78,10 @@ struct linked_list {
 static struct linked_list *pBase; /* start list of 512 kB blocks; to be moved to ModuleInfo.g */
 static uint_8 *pCurr; /* points into current block; to be moved to ModuleInfo.g */
 static uint_32 currfree; /* free memory left in current block; to be moved to ModuleInfo.g */
+#ifdef UASM_VERIF /* one heap block for each item, so that the sanitizers know its bounds */
+static void **items;
+static size_t numitems;
+#endif
 #ifdef DEBUG_OUT
 static int blocks;    /* number of blocks allocated so far; to be moved to ModuleInfo.g */
 #endif
@@ -170,6 +174,12 @@ void MemFini( void )
 /******************/
 {
 
+#ifdef UASM_VERIF
+    while ( numitems )
+        free( items[--numitems] );
+    free( items );
+    items = NULL;
+#endif
 #if FASTMEM
 #ifdef DEBUG_OUT
     if ( Options.quiet == FALSE )
@@ -192,7 +202,14 @@ void *LclAlloc( size_t size )
 {
     void        *ptr;
 
-#if FASTMEM
+#ifdef UASM_VERIF /* zeroed, as the blocks below are */
+    if ( ( numitems & ( numitems - 1 ) ) == 0 )
+        items = realloc( items, ( numitems ? numitems * 2 : 1 ) * sizeof( void * ) );
+    ptr = calloc( 1, size ? size : 1 );
+    if ( ptr == NULL || items == NULL )
+        Fatal( OUT_OF_MEMORY );
+    items[numitems++] = ptr;
+#elif FASTMEM
     size = (size + sizeof(void *)-1) & ~(sizeof(void *)-1);
     if ( currfree < size ) {
         DebugMsg(("LclAlloc: new block needed, req. size=%Xh > currfree=%Xh\n", size, currfree ));
-- 
2.43.0


From a41917655780a197260d5c9b7d634341e32ab6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 031/114] fix: a segment class was taken to be another one it
 is a prefix of

---
 segment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment.c b/segment.c
index 847754d..459ed12 100644
--- a/segment.c
+++ b/segment.c
@@ -578,7 +578,7 @@ static struct asym *FindClass( const char *name, int len )
 
     for( node = ModuleInfo.g.LnameQueue.head; node; node = node->next ) {
         struct asym *sym = node->sym;
-        if( sym->state == SYM_CLASS_LNAME && ( SymCmpFunc( sym->name, name, len ) == 0 ) )
+        if( sym->state == SYM_CLASS_LNAME && sym->name_size == len && ( SymCmpFunc( sym->name, name, len ) == 0 ) )
             return( sym );
     }
     return( NULL );
-- 
2.43.0


From 20686e572e937e75123ba13e4c89dfe612a6e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 032/114] fix: reads of uninitialised variables and accesses
 outside of objects found by the sanitizers on the regression sources

---
 assemble.c  |  2 +-
 bin.c       |  2 +-
 codegenv2.c |  2 +-
 elf.c       |  2 +-
 end.c       |  2 +-
 hll.c       |  1 +
 invoke.c    |  8 ++++++--
 omf.c       |  2 +-
 proc.c      | 14 +++++++++-----
 tokenize.c  |  2 +-
 10 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/assemble.c b/assemble.c
index 0879ea2..4100d58 100644
--- a/assemble.c
+++ b/assemble.c
@@ -205,7 +205,7 @@ char *ConvertSectionName( const struct asym *sym, enum seg_type *pst, char *buff
     int i;
 
     for ( i = 0; i < sizeof( cst ) / sizeof( cst[0] ); i++ ) {
-        if ( memcmp( sym->name, cst[i].src, cst[i].len ) == 0 ) {
+        if ( strncmp( sym->name, cst[i].src, cst[i].len ) == 0 ) {
             if ( sym->name[cst[i].len] == NULLC || ( sym->name[cst[i].len] == '$' && ( cst[i].flags & CSF_GRPCHK ) ) ) {
 
                 if ( pst ) {
diff --git a/bin.c b/bin.c
index 2a503d4..57542b9 100644
--- a/bin.c
+++ b/bin.c
@@ -829,7 +829,7 @@ static void pe_create_section_table( void )
                 else if ( curr->e.seginfo->clsym && strcmp( curr->e.seginfo->clsym->name, "CONST" ) == 0 )
                     curr->e.seginfo->segtype = SEGTYPE_CDATA;
             } else if ( curr->e.seginfo->segtype == SEGTYPE_UNDEF ) {
-                if ( ( memcmp( curr->sym.name, ".rsrc", 5 ) == 0 ) &&
+                if ( ( strncmp( curr->sym.name, ".rsrc", 5 ) == 0 ) &&
                     ( *(curr->sym.name+5) == NULLC || *(curr->sym.name+5) == '$' ) )
                     curr->e.seginfo->segtype = SEGTYPE_RSRC;
                 else if ( strcmp( curr->sym.name, ".reloc" ) == 0 )
diff --git a/codegenv2.c b/codegenv2.c
index e9bca94..c910b28 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1271,7 +1271,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	}
 
 	/* If the memory address refers to a symbol indirectly.. */
-	if (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
+	if (instr->memOpnd < NO_MEM && opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
 	{
 		symSize = SizeFromMemtype(opExpr[instr->memOpnd].mem_type, ModuleInfo.Ofssize, opExpr[instr->memOpnd].sym);
 
diff --git a/elf.c b/elf.c
index 8a75358..483cf17 100644
--- a/elf.c
+++ b/elf.c
@@ -150,7 +150,7 @@ static char *ElfConvertSectionName( const struct asym *sym, char *buffer )
     int i;
 
     for ( i = 0; i < sizeof( cst ) / sizeof( cst[0] ); i++ ) {
-        if ( memcmp( sym->name, cst[i].src, cst[i].len ) == 0 ) {
+        if ( strncmp( sym->name, cst[i].src, cst[i].len ) == 0 ) {
             if ( sym->name[cst[i].len] == NULLC )
                 return( (char *)cst[i].dst );
             else if ( ( cst[i].flags & CSF_GRPCHK )  && sym->name[cst[i].len] == '$' ) {
diff --git a/end.c b/end.c
index d6c2a75..ae18217 100644
--- a/end.c
+++ b/end.c
@@ -240,7 +240,7 @@ ret_code EndDirective( int i, struct asm_tok tokenarray[] )
             /* fixme: no need to create the fixup here, should be done in omf_write_modend() */
             //CodeInfo.token = T_NULL; /* v2.09: T_NULL has no entry in optable_idx[] */
             //CodeInfo.pinstr = &InstrTable[IndexFromToken( T_NULL )];
-            CodeInfo.opnd[0].InsFixup = NULL;
+            memset( &CodeInfo, 0, sizeof( CodeInfo ) );
             CodeInfo.token = T_NOP;
             CodeInfo.pinstr = &InstrTable[IndexFromToken( T_NOP )];
             CodeInfo.flags = 0;
diff --git a/hll.c b/hll.c
index 4cba19d..8c8856c 100644
--- a/hll.c
+++ b/hll.c
@@ -1224,6 +1224,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
   char *p;
   //create valid command and add to LineQueue
   do {
+    memset(init, 0, sizeof(init)); //looked at beyond its end below
     //extracting the first parameter "param" before the operator
     a = 0;
     while ((buff[b] )&& (!strchr("=!<>&|-+*^%/", buff[b])))
diff --git a/invoke.c b/invoke.c
index d0678a7..7023b1f 100644
--- a/invoke.c
+++ b/invoke.c
@@ -1082,9 +1082,11 @@ vcall:
 							goto uselea;
 						}
 						if (t->e.structinfo->isHFA) memberCount = 1;
-						info->vecregs[index] = memberCount;
+						if (index < sizeof(info->vecregs)) {
+							info->vecregs[index] = memberCount;
+							info->vecregsize[index] = membersize;
+						}
 						info->vsize += psize;
-						info->vecregsize[index] = membersize;
 						if (((vcallpass == 1) && t->e.structinfo->isHVA) || t->e.structinfo->stype == MM128 || t->e.structinfo->stype == MM256) {
 							for (i = 0, j = 0; i < 6; i++) {
 								j += info->vregs[i];
@@ -3465,6 +3467,8 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	fptrsize = 2 + (2 << Ofssize);
   	if (proc->sym.langtype == LANG_DELPHICALL) 
 	{
+		memset(&opnd, 0, sizeof(opnd)); /* not evaluated yet */
+		opnd.kind = EXPR_EMPTY;
 		if ( delphicall_tab[ModuleInfo.fctype].handleparam(proc, reqParam, curr, addr, &opnd, fullparam, r0flags) )
 			return(NOT_ERROR);
 	}
diff --git a/omf.c b/omf.c
index 18d4a60..dfafd18 100644
--- a/omf.c
+++ b/omf.c
@@ -1109,7 +1109,7 @@ static uint_16 omf_write_extdef( void )
              * - else an invalid object file will be created!
              */
         if ( symext->sym.iscomm == FALSE && symext->sym.altname && symext->sym.altname->state != SYM_EXTERNAL )
-            symext->sym.altname->ext_idx = 0;
+            symext->sym.altname->bp_fixup = NULL; /* shares its space with the indices, but is larger */
     }
     /* v2.09: write COMM items here. This allows to handle
      * the external index field entirely in omf.c
diff --git a/proc.c b/proc.c
index 0610a82..e2ffd48 100644
--- a/proc.c
+++ b/proc.c
@@ -1002,8 +1002,10 @@ static ret_code ParseParams(struct dsym *proc, int i, struct asm_tok tokenarray[
 				paranode->sym.type = ti.symtype;
 				/* this is where vectors are intercepted  and writen to the proc */
 				if (proc->sym.langtype == LANG_VECTORCALL) {
-					proc->e.procinfo->vecregsize[cntParam] = ti.symtype->max_mbr_size;
-					proc->e.procinfo->vecregs[cntParam] = ti.size / ti.symtype->max_mbr_size;
+					if (cntParam < sizeof(proc->e.procinfo->vecregs) && ti.symtype->max_mbr_size) {
+						proc->e.procinfo->vecregsize[cntParam] = ti.symtype->max_mbr_size;
+						proc->e.procinfo->vecregs[cntParam] = ti.size / ti.symtype->max_mbr_size;
+					}
 					proc->e.procinfo->vsize += ti.size;
 					ti.size = MT_QWORD;
 				}
@@ -1014,8 +1016,10 @@ static ret_code ParseParams(struct dsym *proc, int i, struct asm_tok tokenarray[
 				if (proc->sym.langtype == LANG_VECTORCALL) {
 					if (ti.mem_type == MT_REAL4 || ti.mem_type == MT_REAL8 ||
 						ti.mem_type == MT_OWORD || ti.mem_type == MT_YMMWORD || ti.mem_type == MT_ZMMWORD) {
-						proc->e.procinfo->vecregsize[cntParam] = ti.size;
-						proc->e.procinfo->vecregs[cntParam] = 1;
+						if (cntParam < sizeof(proc->e.procinfo->vecregs)) {
+							proc->e.procinfo->vecregsize[cntParam] = ti.size;
+							proc->e.procinfo->vecregs[cntParam] = 1;
+						}
 						if (ti.size >= 16) proc->e.procinfo->vsize += ti.size;
 						ti.size = MT_QWORD;
 					}
@@ -2980,7 +2984,7 @@ static void write_win64_default_prologue_RBP(struct proc_info *info)
 	const char * const  *ppfmt;
 	int                 i;
 	int                 cnt;
-	int                 cntxmm;
+	int                 cntxmm = 0;
 	int                 resstack = ((ModuleInfo.win64_flags & W64F_AUTOSTACKSP) ? sym_ReservedStack->value : 0);
 	int                 stackadj = 0;
 	int                 subAmt = 0;
diff --git a/tokenize.c b/tokenize.c
index cb71c11..2b4b7a7 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -1356,7 +1356,7 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
               else if (cnt == 8)  strcpy(p1, "\{1to8\}");
               else if (cnt == 16) strcpy(p1, "\{1to16\}");
               else goto nobcst;                   /* let parser throw error */
-              strcat(p1, input1);
+              memmove(p1 + strlen(p1), input1, strlen(input1) + 1);
             }
             else {
               /* here force '[]' around a variable */
-- 
2.43.0


From 9b7aa4ae76e3f10d44d95705b2dc51d55b1bf1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 033/114] fix: reads and writes outside of objects for
 malformed sources found by fuzzing with sanitizers

---
 bin.c       |  3 ++-
 codegenv2.c |  4 ++++
 coff.c      |  2 +-
 hll.c       | 48 ++++++++++++++++++++++++++----------------------
 invoke.c    | 14 +++++++++-----
 listing.c   |  2 +-
 lqueue.c    | 12 +++++++++++-
 macro.c     |  2 +-
 parser.c    |  4 +++-
 proc.c      |  1 +
 tokenize.c  | 33 +++++++++++++++++++--------------
 types.c     | 10 ++++++++++
 12 files changed, 88 insertions(+), 47 deletions(-)

diff --git a/bin.c b/bin.c
index 57542b9..376219e 100644
--- a/bin.c
+++ b/bin.c
@@ -892,6 +892,7 @@ static void pe_emit_export_data( void )
 {
     struct dsym *curr;
     int_32 timedate;
+    time_t now;
     int cnt;
     int i;
     char *name;
@@ -912,7 +913,7 @@ static void pe_emit_export_data( void )
 #if 0 //def __UNIX__
         time( &timedate );
 #else
-        time( (time_t *)&timedate );
+        timedate = time( &now ); /* time_t may have 64 bits */
 #endif
         /* create export directory: Characteristics, Timedate, MajMin, Name, Base, ... */
         AddLineQueueX( "DD 0, 0%xh, 0, %r @%s_name, %u, %u, %u, %r @%s_func, %r @%s_names, %r @%s_nameord",
diff --git a/codegenv2.c b/codegenv2.c
index c910b28..08f0742 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1564,6 +1564,10 @@ ret_code CodeGenV2(const char* instr, struct code_info* CodeInfo, uint_32 oldofs
 		(opExpr[0].override && opExpr[0].override->tokval == T_FLAT))
 		return EMPTY;
 
+	/* there are 4 operands at most, more are handled - or rejected - by the legacy CodeGen */
+	if (opCount > 4)
+		return EMPTY;
+
 	/* return EMPTY; Uncomment this to disable new CodeGenV2. */
 
 	memset(&instrToMatch, 0, sizeof(struct Instr_Def));
diff --git a/coff.c b/coff.c
index f3df0e5..4487bca 100644
--- a/coff.c
+++ b/coff.c
@@ -1193,7 +1193,7 @@ static ret_code coff_write_module( struct module_info *modinfo )
                 uint_8 *dst;
                 if ( cm.SymDeb[i].seg->sym.max_offset ) {
                     if (cm.SymDeb[i].seg->sym.max_offset > SIZE_CV_SEGBUF)
-                        cm.SymDeb[i].seg->e.seginfo->CodeBuffer = LclAlloc( cm.SymDeb[i].seg->sym.max_offset );
+                        cm.SymDeb[i].seg->e.seginfo->CodeBuffer = LclAlloc( cm.SymDeb[i].seg->sym.max_offset + 1 ); /* +1: size may be made even */
                     dst = cm.SymDeb[i].seg->e.seginfo->CodeBuffer;
                     for ( src = cm.SymDeb[i].q.head; src; src = ((struct qditem *)src)->next ) {
                         memcpy( dst, src + sizeof( struct qditem ), ((struct qditem *)src)->size );
diff --git a/hll.c b/hll.c
index 8c8856c..9981575 100644
--- a/hll.c
+++ b/hll.c
@@ -1204,7 +1204,7 @@ static const char *redx[] = { "dx", "edx", "rdx" };
 static const char *recx[] = { "cx", "ecx", "rcx" };
 
 static void WriteAsmLine(const char *cmd, const char *s1, const char *s2) {
-  char codebuff[512];
+  char codebuff[MAX_LINE_LEN * 2 + 16];
   strcpy(codebuff, cmd);
   strcat(codebuff, s1);
   strcat(codebuff, ", ");
@@ -1217,13 +1217,15 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
   int j;
   int	b = 0;
   bool brct = 0;
-  char codebuff[512];
-  char param[512];
-  char init[512];
+  char codebuff[MAX_LINE_LEN * 2];
+  char param[MAX_LINE_LEN * 2];
+  char init[MAX_LINE_LEN * 2];
   char op[4];
   char *p;
+  int len = (int)strlen(buff);
   //create valid command and add to LineQueue
   do {
+    if (b > len) b = len;
     memset(init, 0, sizeof(init)); //looked at beyond its end below
     //extracting the first parameter "param" before the operator
     a = 0;
@@ -1235,6 +1237,8 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
       a++;
     }
     param[a] = '\0';
+    if (buff[b] == NULLC)                                          //no operator
+      return(EmitErr(SYNTAX_ERROR_EX, param));
     //end of param
     //is it simple operator
     if ((buff[b + 1] == '+') || (buff[b + 1] == '-')) {            //if ++ or -- finish it here
@@ -1251,13 +1255,14 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
     {							//extracting the operator
       op[0] = buff[b];
       b++;
-      if (op[0] == '=') {     //if operator is only '='
+      if (op[0] == '=' || buff[b] == NULLC) {     //if operator is only '='
         op[1] = '\0';       //finish here
       }
       else {                 //extract next operator
         op[1] = buff[b];
         b++;
-        if ((op[1] == '<' || op[1] == '>') && (buff[b] == '=')) {
+        if (buff[b] == NULLC) op[2] = NULLC;
+        else if ((op[1] == '<' || op[1] == '>') && (buff[b] == '=')) {
           op[2] = buff[b]; //if a second operator is shift sign "<<=" or ">>="
           op[3] = NULLC;
           b++;
@@ -1268,13 +1273,13 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
       //we finished with param and op
       //now extracting the second parameter "init" after the operator
       for (a = 0; buff[b];) { //checking if we have a char in a single ' '
-        if (buff[b] == '(' && buff[b - 1] != 39 && buff[b + 1] != 39 && b) break;
-        if (buff[b] == ',' && buff[b - 1] != 39 && buff[b + 1] != 39 && b) break;
+        if (buff[b] == '(' && b && buff[b - 1] != 39 && buff[b + 1] != 39) break;
+        if (buff[b] == ',' && b && buff[b - 1] != 39 && buff[b + 1] != 39) break;
         init[a] = buff[b];
         b++;
         a++;
       }
-      if (buff[b] == '(' && buff[b - 1] != 39 && buff[b + 1] != 39 && b) {
+      if (buff[b] == '(' && b && buff[b - 1] != 39 && buff[b + 1] != 39) {
         for (; buff[b] && buff[b] != ')'; b++, a++) {
           init[a] = buff[b];
         }
@@ -1622,10 +1627,10 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
   case T_DOT_FOR:
     {
       char forbuff[MAX_LINE_LEN];
-      char forbuffinit[MAX_LINE_LEN];
+      char forbuffinit[MAX_LINE_LEN * 2]; /* a blank may be added behind quotes */
       char forbuffcond[MAX_LINE_LEN];
-      char forbuffcnt[MAX_LINE_LEN];
-      char transformed[MAX_LINE_LEN];
+      char forbuffcnt[MAX_LINE_LEN * 2];
+      char transformed[MAX_LINE_LEN + 8];
       int j;
       int b;
       int size;
@@ -1684,7 +1689,7 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
               }
               if (c == ',' && forbuff[j - 1] != 39 && forbuff[j + 1] != 39) eqcnt++;
               forbuffinit[b] = c;
-              if (c == 39 && forbuffinit[b - 2] == 39) {
+              if (c == 39 && b > 1 && forbuffinit[b - 2] == 39) {
                   b++;
                   forbuffinit[b] = ' ';
               }
@@ -1696,22 +1701,22 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
           //coppy the condition to the buffer
           forbuffcond[0] = NULLC;
           for (b = 0; forbuff[j] && forbuff[j] != ':'; forbuffcond[b] = forbuff[j], j++, b++);
-          if (forbuffcond[b - 2] == '>' && forbuffcond[b - 1] == '0') forbuffcond[b - 2] = NULLC;
+          if (b > 1 && forbuffcond[b - 2] == '>' && forbuffcond[b - 1] == '0') forbuffcond[b - 2] = NULLC;
           forbuffcond[b] = NULLC;
           j++;
           //copy the counter to the buffer
           cmcnt = 0;
           forbuffcnt[0] = NULLC;
           hll->condlines = "";
-          for (b = 0; forbuff[j] != ')'; b++, j++) {
+          for (b = 0; forbuff[j] && forbuff[j] != ')'; b++, j++) {
               forbuffcnt[b] = forbuff[j];
               if (forbuffcnt[b] == ',' && forbuff[j - 1] != 39 && forbuff[j + 1] != 39) ++cmcnt;
-              if (forbuffcnt[b] == 39 && forbuffcnt[b - 2] == 39) {
+              if (forbuffcnt[b] == 39 && b > 1 && forbuffcnt[b - 2] == 39) {
                   b++;
                   forbuffcnt[b] = ' ';
               }
           }
-          if (forbuffcnt[b - 1] == ')') b--;
+          if (b && forbuffcnt[b - 1] == ')') b--;
           forbuffcnt[b] = NULLC;
           //create valid command and add to LineQueue to initiate .for loop vars
           //anything that is before the first ':'
@@ -1905,7 +1910,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
       else
         {
         if (hll->plabels) {
-          if (ModuleInfo.Ofssize == USE32 || hll->csize == 4) {
+          if (hll->csize == 4) {
             bubblesort(hll, hll->plabels, hll->pcases, hll->casecnt);
             if ((hll->delta * 4) <= (hll->casecnt * 4 + hll->casecnt * 2))
               hll->cflag = 6;                   /* we need only jump table */
@@ -1989,7 +1994,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 strcpy(buffer, " db ");            /* now start with db 11, 12, 13, @C0014, @C0015...*/
                 dcnt = 0;                          /* reset data caunter */
                 }
-              if (ModuleInfo.Ofssize == USE32 || hll->csize == 4)
+              if (hll->csize == 4)
                 temp = (int)hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
 #if AMD64_SUPPORT
               else if (ModuleInfo.Ofssize == USE64 && hll->csize == 8)
@@ -2062,7 +2067,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
             GetLabelStr(hll->labels[LDATA2], buff);
             strcpy(buffer, buff);
             dcnt = 0; 
-            if (ModuleInfo.Ofssize == USE32 || hll->csize == 4){
+            if (hll->csize == 4){
               strcat(buffer, " dd ");
               for (j = 0; j < hll->casecnt;){
                 if (dcnt >= 30){                     /* if more than 35 cases in the line add a new row */
@@ -2902,7 +2907,6 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
     i++;
     break;
   case T_DOT_CASE:
-    if (Parse_Pass)
     if (hll->cmd != HLL_SWITCH) {
       DebugMsg(("HllExitDir stack error\n"));
       return(EmitError(DIRECTIVE_MUST_BE_IN_CONTROL_BLOCK));
@@ -3015,7 +3019,7 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
         }
       }
 #endif
-      if ((ModuleInfo.Ofssize == USE32) || (hll->csize == 4)) {
+      if (hll->csize == 4) {
         for (j = 0; j < hll->casecnt; j++) {
           if (hll->pcases[j] == opndx.value)
             EmitErr(CASE_ALREADY_OCCURED_IN_THIS_SWITCH_BLOCK, buffer);
diff --git a/invoke.c b/invoke.c
index 7023b1f..107b43c 100644
--- a/invoke.c
+++ b/invoke.c
@@ -1229,6 +1229,8 @@ vcall:
 
 						}
 					}
+					else if (index >= 4)
+						EmitErr(INVOKE_ARGUMENT_TYPE_MISMATCH, index + 1);
 					else
 					{
 						*regs_used |= (1 << (index + RPAR_START)); /* Flag the appropriate GP register as used now for the reference */
@@ -3205,7 +3207,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	char fullparam[MAX_LINE_LEN];
 	char buffer[MAX_LINE_LEN];
 	char stringparam[256][32];
-	bool isString[256];
+	bool isString[256] = { FALSE };
 	int reg = 0;
 
 	struct asym *lbl = NULL;
@@ -3220,8 +3222,8 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	char c1;
 	char c2;
 	size_t finallen;
-	uint_16 buff[256];
-	uint_8  buff2[256];
+	uint_16 buff[MAX_LINE_LEN];
+	uint_8  buff2[MAX_LINE_LEN];
 
 	DebugMsg1(("PushInvokeParam(%s, param=%s:%u, i=%u ) enter\n", proc->sym.name, curr ? curr->sym.name : "NULL", reqParam, i));
 
@@ -3236,7 +3238,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 			currParm++;
 		}
 		// UASM 2.47 Only check the string type information if we're on the actual reqParam.
-		if (currParm == reqParam && curr)
+		if (currParm == reqParam && curr && currParm < 256)
 		{
 			if (ParamIsString(tokenarray[i].string_ptr, currParm, proc))
 			{
@@ -3445,7 +3447,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 
 	/* copy the parameter tokens to fullparam */
 	for (j = i; tokenarray[j].token != T_COMMA && tokenarray[j].token != T_FINAL; j++);
-	if (isString[reqParam])
+	if (reqParam >= 0 && reqParam < 256 && isString[reqParam])
 	{
 		memcpy(fullparam, stringparam[reqParam], strlen(stringparam[reqParam]) + 1);
 		addr = TRUE;
@@ -4359,6 +4361,8 @@ ret_code InvokeDirective(int i, struct asm_tok tokenarray[])
 	}
 
 	proc = (struct dsym *)sym;
+	if (!sym->isproc && sym->mem_type != MT_PROC)
+		return(EmitErr(INVOKE_REQUIRES_PROTOTYPE));
 	info = proc->e.procinfo;
 
 	/* UASM 2.46.7 Update Proc Leaf tracking */
diff --git a/listing.c b/listing.c
index 979468d..4eb7a51 100644
--- a/listing.c
+++ b/listing.c
@@ -338,7 +338,7 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
     }
 #endif
 	
-	for (i = 32; i > 0; --i) {
+	for (i = sizeof( ll.buffer ) - 1; i > 0; --i) {
 		if (ll.buffer[i] == 0)
 			ll.buffer[i] = ' ';
 	}
diff --git a/lqueue.c b/lqueue.c
index d8f52f6..dd9b189 100644
--- a/lqueue.c
+++ b/lqueue.c
@@ -69,6 +69,12 @@ void AddLineQueue( const char *line )
     unsigned i = strlen( line );
     struct lq_line   *new;
 
+    /* the line must fit in the source buffer, see RunLineQueue() */
+    if ( i >= MAX_LINE_LEN ) {
+        EmitError( LINE_TOO_LONG );
+        return;
+    }
+
     /* v2.11: line queue has become static. */
     //if ( line_queue == NULL ) {
     //    line_queue = MemAlloc( sizeof( struct input_queue ) );
@@ -101,10 +107,12 @@ void AddLineQueueX( const char *fmt, ... )
     int_64 q;
     const char *s;
     const char *p;
-    char buffer[MAX_LINE_LEN];
+    char buffer[MAX_LINE_LEN * 2];
 
     va_start( args, fmt );
     for ( s = fmt, d = buffer; *s; s++ ) {
+        if ( d - buffer >= MAX_LINE_LEN )
+            break; /* too long, AddLineQueue() will complain */
         if ( *s == '%' ) {
             s++;
             switch ( *s ) {
@@ -118,6 +126,8 @@ void AddLineQueueX( const char *fmt, ... )
             case 's':
                 p = va_arg( args, char * );
                 i = strlen( p );
+                if ( i >= MAX_LINE_LEN - ( d - buffer ) )
+                    i = MAX_LINE_LEN - ( d - buffer );
                 memcpy( d, p, i );
                 d += i;
                 *d = NULLC;
diff --git a/macro.c b/macro.c
index 10c9fd2..f252cdd 100644
--- a/macro.c
+++ b/macro.c
@@ -299,7 +299,7 @@ ret_code StoreMacro( struct dsym *macro, int i, struct asm_tok tokenarray[], boo
     struct line_status  ls;
     struct asm_tok      tok[2];
     struct mname_list   mnames[MAX_PLACEHOLDERS]; /* there are max 255 placeholders */
-    char                buffer[MAX_LINE_LEN];
+    char                buffer[MAX_LINE_LEN * 2]; /* placeholders may need more space than the names */
 
     DebugMsg1(("StoreMacro(%s, i=%u, store_data=%u) enter, params=>%s<\n", macro->sym.name, i, store_data, tokenarray[i].tokpos ));
     info = macro->e.macroinfo;
diff --git a/parser.c b/parser.c
index 7b8b28d..20de11a 100644
--- a/parser.c
+++ b/parser.c
@@ -3559,7 +3559,9 @@ dataInProc:
 
 			/* Handle EVEX Static Rounding Mode {sae}, {rn-sae}, {rd-sae}, {ru-sae}, {rz-sae} */
 			case EXPR_DECORATOR:
-				if (opndx[j - 1].indirect || opndx[j - 2].indirect)
+				if (j == 0)
+					return(EmitErr(SYNTAX_ERROR_EX, tokenarray[i].string_ptr));
+				if (opndx[j - 1].indirect || (j > 1 && opndx[j - 2].indirect))
 					return(EmitError(EMBEDDED_ROUNDING_IS_AVAILABLE_ONLY_WITH_REG_REG_OP));
 				CodeInfo.evex_sae = opndx[j].saeflags;
 				CodeInfo.evex_flag = TRUE;  /* {sae} must set evex_flag v247.2 */
diff --git a/proc.c b/proc.c
index e2ffd48..14ff24f 100644
--- a/proc.c
+++ b/proc.c
@@ -100,6 +100,7 @@ static const enum special_token delphi_regs32[] = { T_EAX, T_EDX, T_ECX, };
 static const int ms32_maxreg[] = {
 	sizeof(ms32_regs16) / sizeof(ms32_regs16[0]),
 	sizeof(ms32_regs32) / sizeof(ms32_regs32[0]),
+	0, /* no registers in 64-bit */
 };
 
 static const int delphi_maxreg[] = {
diff --git a/tokenize.c b/tokenize.c
index 2b4b7a7..415fcac 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -254,13 +254,13 @@ writenum:
     else { 
 checkifvar:
       --p->input;                  /* return to the start of string */
-      while (*p->input != '}'){    
+      while (*p->input != '}' && *p->input && p1 < buff + sizeof(buff) - 1){    
         *p1++ = *p->input++;       /* copy the string to the buffer (alowed 32 chars ) */
         }
       *p1 = '\0';                  /* make it C string */
       sym = SymSearch(buff);       /* check if the variable is declared */
-        if (sym == NULL){
-          if (Parse_Pass)
+        if (sym == NULL || sym->state != SYM_TMACRO || sym->string_ptr == NULL){
+          if (Parse_Pass || sym)
           EmitError(TOO_MANY_DECORATORS);
           return;
           }
@@ -1025,19 +1025,19 @@ continue_scan:
 	{
 		if (index >= T_CMPEQPD && index <= T_CMPORDSS) {
 			index = get_pseudoCMPXX(dst, p->input, index);
-			strcpy(buf[0].string_ptr, dst);
+			strcpy(p->output, dst);
 		}
 		else if (index >= T_VCMPEQPD && index <= T_VCMPTRUE_USSS) {
 			index = get_pseudoVCMPXX(dst, p->input, index);
-			strcpy(buf[0].string_ptr, dst);
+			strcpy(p->output, dst);
 		}
 		else if (index >= T_PCLMULLQLQDQ && index <= T_PCLMULHQHQDQ) {
 			index = get_pseudoPCLMULXX(dst, p->input, index);
-			strcpy(buf[0].string_ptr, dst);
+			strcpy(p->output, dst);
 		}
 		else if (index >= T_VPCLMULLQLQDQ && index <= T_VPCLMULHQHQDQ) {
 			index = get_pseudoVPCLMULXX(dst, p->input, index);
-			strcpy(buf[0].string_ptr, dst);
+			strcpy(p->output, dst);
 		}
 	}
     /* end of filter pseudo instructions */
@@ -1116,10 +1116,11 @@ continue_scan:
 		{
 			while (isspace(*p->input)) p->input++;
 			if (*p->input == '{') {
-				while ((*p->input) != '}') {
+				while (*p->input && (*p->input) != '}') {
 					p->input++;
 				}
-				p->input++;
+				if (*p->input)
+					p->input++;
 				//*buf->string_ptr = "{k0}";
 			}
 		}
@@ -1277,9 +1278,10 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
             if ((_memicmp(input1, "evex", 4) == 0))
             {
               evexflag = TRUE;
-              while (*input1 != '}')
+              while (*input1 && *input1 != '}')
                 input1++;
-              input1++;                /* skip '}' */
+              if (*input1)
+                input1++;              /* skip '}' */
               while (isspace(*input1))
                 input1++;
               p.input = input1;        /* skip '{evex}' */
@@ -1346,8 +1348,10 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
                 while (isspace(*input1)) input1++;   /* skip the space, now pointing to address  */
               }
               else {
-                for (; *input1 != '\]'; p1++, input1++) /* input1 points to [address] */
+                for (; *input1 && *input1 != '\]'; p1++, input1++) /* input1 points to [address] */
                   *p1 = *input1;                     /* copy first memory part over 'qword bcst */
+                if (*input1 == NULLC)
+                  goto nobcst;                       /* let parser throw error */
                 *p1++ = *input1++;                   /* copy ']' */
               }
               /* now add broadcast size */
@@ -1373,13 +1377,14 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
                 p1--;                                  /* go back 1 byte to check if ']' is present */
                 while (isspace(*p1)) --p1;             /* skip the space  */
                 if (*p1 != '\]') {                     /* if not present insert it  */
-                  while (*p1 != ',') --p1;             /* step backwards till the comma */
+                  while (p1 > p.input && *p1 != ',') --p1; /* step backwards till the comma */
+                  if (*p1 != ',') goto nobcst;         /* let parser throw error */
                   p1++;                                /* skip the comma forward  */
                   input1 = p1;                         /* save that location in input1  */
                   while (isspace(*p1)) p1++;           /* skip the space  */
                   strcpy(buff, p1);                    /* copy to the buffer from variable on  */
                   *input1++ = '\[';                    /* skip the space  */
-                  for (p1 = buff; *p1 != '\{'; p1++, input1++) /* till the end of var  */
+                  for (p1 = buff; *p1 && *p1 != '\{'; p1++, input1++) /* till the end of var  */
                     *input1 = *p1;                      /* copy it back to input string  */
                   *input1++ = '\]';                    /* insert ']' before '{' */
                   strcpy(input1, p1);                  /* now copy the rest of string from buffer */
diff --git a/types.c b/types.c
index be9e008..43a1c28 100644
--- a/types.c
+++ b/types.c
@@ -1212,6 +1212,16 @@ struct asym *CreateStructField( int loc, struct asm_tok tokenarray[], const char
     struct sfield *f;
     struct asym  *gsym;
 
+    /* a structure that isn't complete yet can't be a field of itself */
+    if ( vartype ) {
+        struct dsym *curr;
+        for ( curr = CurrStruct; curr; curr = curr->next )
+            if ( &curr->sym == vartype ) {
+                EmitErr( SYNTAX_ERROR_EX, vartype->name );
+                return( NULL );
+            }
+    }
+
     si = CurrStruct->e.structinfo;
     offset = CurrStruct->sym.offset;
 
-- 
2.43.0


From 56ea3d393ab414df69d69ea68e9ad3422aa979cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 034/114] fix: more reads and writes outside of objects for
 malformed or very long lines

---
 H/msgdef.h |  2 +-
 condasm.c  |  1 +
 context.c  |  2 +-
 expans.c   | 10 +++++++++-
 expreval.c | 46 +++++++++++++++++++++++++++++++++-------------
 hll.c      |  6 ++++++
 macro.c    | 11 ++++++++++-
 posndir.c  |  2 +-
 8 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/H/msgdef.h b/H/msgdef.h
index 866d9cf..247a388 100644
--- a/H/msgdef.h
+++ b/H/msgdef.h
@@ -115,7 +115,7 @@ pick( QUALIFIED_TYPE_EXPECTED,     "Qualified type is expected" )
 pick( MISSING_MACRO_ARGUMENT_2,    "Missing macro argument: iteration %u" )
 pick( LIBRARY_NAME_MISSING,        "Library name is missing" )
 pick( CANNOT_ACCESS_LABEL_THROUGH_SEGMENT_REGISTERS, "Cannot access label through segment registers: %s" )
-pick( EXPANDED_LINE_TOO_LONG,      "Line too long after expansion: %40s" )
+pick( EXPANDED_LINE_TOO_LONG,      "Line too long after expansion: %.40s" )
 pick( LANG_MUST_BE_SPECIFIED,      "Language type must be specified" )
 pick( PROC_MACRO_MUST_PRECEDE_LOCAL, "PROC, MACRO or macro loop directive must precede LOCAL" )
 pick( CANNOT_NEST_PROCEDURES,      "Cannot nest procedures" )
diff --git a/condasm.c b/condasm.c
index 65010f5..c7cdfd4 100644
--- a/condasm.c
+++ b/condasm.c
@@ -345,6 +345,7 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
     case CC_PASS2: /* [ELSE]IF2 */
         if ( ModuleInfo.setif2 == FALSE ) {
             EmitError( IF2_NOT_ALLOWED );
+            NextIfState = BLOCK_INACTIVE;
             break;
         }
         /* v2.04: changed */
diff --git a/context.c b/context.c
index 2136790..f4d5c5c 100644
--- a/context.c
+++ b/context.c
@@ -107,7 +107,7 @@ ret_code ContextDirective( int i, struct asm_tok tokenarray[] )
 {
     int start = i;
     int directive = tokenarray[i].tokval;
-    enum context_type type;
+    enum context_type type = -1; /* there may be no argument */
     int j;
     struct context *curr;
 
diff --git a/expans.c b/expans.c
index 24ef7a8..de1fa79 100644
--- a/expans.c
+++ b/expans.c
@@ -1023,7 +1023,7 @@ static ret_code ExpandTMacro( char * const outbuf, struct asm_tok tokenarray[],
     bool is_exitm;
     struct asym *sym;
     //char lvalue[MAX_LINE_LEN];    /* holds literal value */
-    char buffer[MAX_LINE_LEN];
+    char buffer[MAX_LINE_LEN * 3];  /* text before item + expanded item + text behind item */
 
     DebugMsg1(("ExpandTMacro(text=>%s< equm=%u lvl=%u) enter\n", outbuf, equmode, level ));
 
@@ -1051,6 +1051,10 @@ static ret_code ExpandTMacro( char * const outbuf, struct asm_tok tokenarray[],
                     }
                     DebugMsg1(("ExpandTMacro(%u): repl >%s()< by >%s<\n", level, sym->name, buffer+len ));
                     strcat( buffer+len, tokenarray[i].tokpos );
+                    if ( strlen( buffer ) >= MAX_LINE_LEN ) {
+                        Token_Count = old_tokencount;
+                        return( EmitErr( EXPANDED_LINE_TOO_LONG, buffer ) );
+                    }
                     strcpy( outbuf, buffer );
                     expanded = TRUE;
                     /* is i to be decremented here? */
@@ -1072,6 +1076,10 @@ static ret_code ExpandTMacro( char * const outbuf, struct asm_tok tokenarray[],
                     //else
                     //    p = tokenarray[i+1].tokpos;
                     strcat( buffer+len, p );
+                    if ( strlen( buffer ) >= MAX_LINE_LEN ) {
+                        Token_Count = old_tokencount;
+                        return( EmitErr( EXPANDED_LINE_TOO_LONG, buffer ) );
+                    }
                     strcpy( outbuf, buffer );
                     expanded = TRUE;
                     break;
diff --git a/expreval.c b/expreval.c
index 41e323f..a83733d 100644
--- a/expreval.c
+++ b/expreval.c
@@ -32,6 +32,7 @@
 #include <ctype.h>
 
 #include "globals.h"
+#include "memalloc.h"
 #include "parser.h"
 #include "reswords.h"
 #include "expreval.h"
@@ -848,6 +849,24 @@ void myatoi128( const char *src, uint_64 dst[], int base, int size )
  * - variable (internal, external, stack ) or constant (EQU, '=')
  * valid reserved IDs are types (BYTE, WORD, ... ) and FLAT
  */
+/* .labelname operands: the dot becomes part of the ID. It needs space of its own,
+ * and it's there already if the tokens are evaluated a second time.
+ */
+#define DotPrefix( tok ) ( *(tok)->string_ptr == '.' ? "" : "." )
+
+static void AddDot( struct asm_tok *tok )
+/***************************************/
+{
+    char *p;
+
+    if ( *tok->string_ptr == '.' )
+        return;
+    p = LclAlloc( strlen( tok->string_ptr ) + 2 );
+    *p = '.';
+    strcpy( p + 1, tok->string_ptr );
+    tok->string_ptr = p;
+}
+
 static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenarray[], const uint_8 flags )
 /*********************************************************************************************************/
 {
@@ -858,10 +877,10 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
     char        labelbuff[16];/* for anonymous labels */
 	int         cnt;
     char        *p;
-	char clabel[100];
+	char clabel[MAX_LINE_LEN + 2];
 	struct asym *labelsym;
 	struct asym *labelsym2;
-	struct asm_tok tok;
+	struct asm_tok tok = { 0 };
 
     DebugMsg1(("%u get_operand(idx=%u >%s<) enter [memtype=%Xh]\n", evallvl, i, tokenarray[i].tokpos, opnd->mem_type ));
     switch( tokenarray[i].token ) {
@@ -870,7 +889,7 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
 		if ((tokenarray[*idx].token == T_DOT && tokenarray[(*idx) + 1].token == T_ID))
 		{
 			// check that T_ID is a label
-			sprintf(clabel, "%s%s", ".", tokenarray[(*idx) + 1].string_ptr);
+			sprintf(clabel, "%s%s", DotPrefix(&tokenarray[(*idx) + 1]), tokenarray[(*idx) + 1].string_ptr);
 			labelsym = SymFind(clabel);
 			labelsym2 = SymFind(tokenarray[(*idx) + 1].string_ptr);
 
@@ -883,8 +902,7 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
 				(labelsym != NULL && labelsym->label))
 			{
 				(*idx)++;
-				strcpy(clabel, tokenarray[(*idx)].string_ptr);
-				sprintf(tokenarray[(*idx)].string_ptr, "%s%s", ".", &clabel);
+				AddDot(&tokenarray[(*idx)]);
 			}
 			else if (labelsym == NULL && labelsym2 == NULL)
 			{
@@ -893,6 +911,10 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
 			i++;
 			goto isNowID;
 		}
+        if ( opnd->is_opattr )    /* for OPATTR, allow any operand */
+            break;
+        fnEmitErr( SYNTAX_ERROR_EX, tokenarray[i].tokpos );
+        return( ERROR );
     case T_NUM:
         DebugMsg1(("%u get_operand: T_NUM, %s, base=%u, len=%u\n", evallvl, tokenarray[i].string_ptr, tokenarray[i].numbase, tokenarray[i].itemlen ));
         opnd->kind = EXPR_CONST;
@@ -4040,10 +4062,10 @@ static ret_code evaluate( struct expr *opnd1, int *i, struct asm_tok tokenarray[
     ret_code rc = NOT_ERROR;
     char *p;
     char *p1;
-	char clabel[100];
+	char clabel[MAX_LINE_LEN + 2];
 	struct asym *labelsym;
 	struct asym *labelsym2;
-	struct asm_tok tok;
+	struct asm_tok tok = { 0 };
     struct dsym *recordsym;
     
     DebugMsg1(("%u evaluate(i=%d, end=%d, flags=%X) enter [opnd1: kind=%d type=%s]\n",
@@ -4062,7 +4084,7 @@ static ret_code evaluate( struct expr *opnd1, int *i, struct asm_tok tokenarray[
 	if ( (tokenarray[*i].token == T_DOT && tokenarray[(*i) + 1].token == T_ID) && opnd1->kind != EXPR_REG )
 	{
 		// check that T_ID is a label
-		sprintf(clabel, "%s%s", ".", tokenarray[(*i) + 1].string_ptr);
+		sprintf(clabel, "%s%s", DotPrefix(&tokenarray[(*i) + 1]), tokenarray[(*i) + 1].string_ptr);
 		labelsym = SymFind(clabel);
 		labelsym2 = SymFind(tokenarray[(*i)+1].string_ptr);
 
@@ -4075,8 +4097,7 @@ static ret_code evaluate( struct expr *opnd1, int *i, struct asm_tok tokenarray[
 			(labelsym != NULL && labelsym->label))
 		{
 			(*i)++;
-			strcpy(clabel, tokenarray[(*i)].string_ptr);
-			sprintf(tokenarray[(*i)].string_ptr, "%s%s", ".", &clabel);
+			AddDot(&tokenarray[(*i)]);
 		}
 		else if (labelsym == NULL && labelsym2 == NULL)
 		{
@@ -4086,7 +4107,7 @@ static ret_code evaluate( struct expr *opnd1, int *i, struct asm_tok tokenarray[
 	if ((tokenarray[*i].tokval == T_SHORT || tokenarray[*i].tokval == T_OFFSET) && tokenarray[(*i) + 1].token == T_DOT && tokenarray[(*i) + 2].token == T_ID)
 	{
 		// check that T_ID is a label
-		sprintf(clabel, "%s%s", ".", tokenarray[(*i) + 2].string_ptr);
+		sprintf(clabel, "%s%s", DotPrefix(&tokenarray[(*i) + 2]), tokenarray[(*i) + 2].string_ptr);
 		labelsym = SymFind(clabel);
 		labelsym2 = SymFind(tokenarray[(*i) + 2].string_ptr);
 
@@ -4099,8 +4120,7 @@ static ret_code evaluate( struct expr *opnd1, int *i, struct asm_tok tokenarray[
 			(labelsym != NULL && labelsym->label))
 		{
 			//(*i)++;
-			strcpy(clabel, tokenarray[(*i)+2].string_ptr);
-			sprintf(tokenarray[(*i)+2].string_ptr, "%s%s", ".", &clabel);
+			AddDot(&tokenarray[(*i)+2]);
 			tokenarray[(*i) + 1].string_ptr = tokenarray[(*i) + 2].string_ptr;
 			tokenarray[(*i) + 1].token = T_ID;
 			tokenarray[(*i) + 2].token = T_FINAL;
diff --git a/hll.c b/hll.c
index 9981575..2b550de 100644
--- a/hll.c
+++ b/hll.c
@@ -1245,6 +1245,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
       param[a] = '\0';
       if ((buff[b] == '+') && (buff[b + 1] == '+')) strcpy(codebuff, " inc ");
       else if ((buff[b] == '-') && (buff[b + 1] == '-')) strcpy(codebuff, " dec ");
+      else return(EmitErr(SYNTAX_ERROR_EX, buff));
       strcat(codebuff, param);
       AddLineQueue(codebuff);
       b += 3;
@@ -1555,6 +1556,11 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
     hll->labels[LTOP] = GetHllLabel();   /* used by .ENDSWITCH */
     hll->labels[LCONT] = GetHllLabel();   /* used by .ENDSWITCH */
     hll->maxalloccasen = 0;
+    hll->pcases = NULL;
+    hll->plabels = NULL;
+#if AMD64_SUPPORT
+    hll->pcases64 = NULL;
+#endif
     hll->casecnt = 0;
     hll->csize = 4;
     hll->breakoccured = TRUE; //first label for .CASE hast to be set
diff --git a/macro.c b/macro.c
index f252cdd..344af7b 100644
--- a/macro.c
+++ b/macro.c
@@ -81,10 +81,15 @@ void fill_placeholders( char *dst, const char *src, unsigned argc, unsigned loca
 {
     uint_32 i;
     const char *p;
+    const char *end = dst + MAX_LINE_LEN - 1; /* size of a source line buffer */
     unsigned parmno;
 
     /* scan the string, replace the placeholders #nn */
     for( p = src ;*p != NULLC; ) {
+        if ( dst + 16 > end ) { /* 16: max size of a local */
+            EmitError( LINE_TOO_LONG );
+            break;
+        }
         if (*p == PLACEHOLDER_CHAR ) {
             p++;
             /* we found a placeholder, get the index part! */
@@ -106,6 +111,10 @@ void fill_placeholders( char *dst, const char *src, unsigned argc, unsigned loca
                 }
             } else if ( argv[parmno] ) {  /* actual parameter might be empty (=NULL) */
                 i = strlen( argv[parmno] );
+                if ( i > end - dst ) {
+                    EmitError( LINE_TOO_LONG );
+                    break;
+                }
                 memcpy( dst, argv[parmno], i );
                 dst += i;
             }
@@ -219,7 +228,7 @@ static int store_placeholders( char *line, struct mname_list *mnames )
             case '!':
                 /* v2.11: skip next char only if it is a "special" one; see expans40.asm */
                 //if ( quote == NULLC && *(p+1) != NULLC )
-                if ( quote == NULLC && strchr( "<>\"'", *(p+1) ) )
+                if ( quote == NULLC && *(p+1) != NULLC && strchr( "<>\"'", *(p+1) ) )
                     p++;
                 break;
             case '<':
diff --git a/posndir.c b/posndir.c
index 4715024..d8a82b3 100644
--- a/posndir.c
+++ b/posndir.c
@@ -216,7 +216,7 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
         if ( opndx.kind == EXPR_CONST ) {
             int_32 power;
             /* check that the parm is a power of 2 */
-            for( power = 1; power < align_value; power <<= 1 );
+            for( power = 1; power < align_value && power < 0x40000000; power <<= 1 );
             if( power != align_value ) {
                 return( EmitErr( POWER_OF_2, align_value ) );
             }
-- 
2.43.0


From 0e309d43e5f7488f8062cc0ab4fcd68e96625ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 035/114] fix: overlong lines and unusual directives read or
 wrote outside of buffers, or read uninitialised ones

---
 expans.c   | 2 +-
 hll.c      | 8 +++++---
 invoke.c   | 3 +++
 listing.c  | 3 ++-
 preproc.c  | 5 +++++
 proc.c     | 1 +
 string.c   | 4 ++++
 tokenize.c | 2 +-
 8 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/expans.c b/expans.c
index de1fa79..bcdc3b0 100644
--- a/expans.c
+++ b/expans.c
@@ -1164,7 +1164,7 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
     struct expr opndx;
     struct asym *sym;
     ret_code rc = NOT_ERROR;
-    char buffer[MAX_LINE_LEN];
+    char buffer[MAX_LINE_LEN * 2];
 	char inLocal = FALSE;
 
     for ( ; i < max && tokenarray[i].token != T_COMMA; i++ ) {
diff --git a/hll.c b/hll.c
index 2b550de..5e22bf3 100644
--- a/hll.c
+++ b/hll.c
@@ -1223,6 +1223,8 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
   char op[4];
   char *p;
   int len = (int)strlen(buff);
+
+  codebuff[0] = NULLC; //stays empty for an unknown operator
   //create valid command and add to LineQueue
   do {
     if (b > len) b = len;
@@ -1476,7 +1478,7 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
   ret_code             rc = NOT_ERROR;
   int                  cmd = tokenarray[i].tokval;
   char buff[16];
-  char buffer[MAX_LINE_LEN * 2];
+  char buffer[MAX_LINE_LEN * 16]; /* the code generated for a condition is longer than its source */
   struct expr         opndx;
   struct asm_tok      *t;
   DebugMsg1(("HllStartDir(%s) enter\n", tokenarray[i].string_ptr));
@@ -1855,7 +1857,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
   uint_16             lbl;
   int             swsize;
   char buff[16];
-  char buffer[MAX_LINE_LEN * 2];
+  char buffer[MAX_LINE_LEN * 16]; /* the code generated for a condition is longer than its source */
   char unum[16];
 
   DebugMsg1(("HllEndDir(%s) enter\n", tokenarray[i].string_ptr));
@@ -2879,7 +2881,7 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
   uint_16             *newlp;
   char buff[16];
   char                *p;
-  char buffer[MAX_LINE_LEN];
+  char buffer[MAX_LINE_LEN * 16];
 #if AMD64_SUPPORT
   int_64              *newcp64;
 #endif
diff --git a/invoke.c b/invoke.c
index 107b43c..25e7bb1 100644
--- a/invoke.c
+++ b/invoke.c
@@ -4352,6 +4352,9 @@ ret_code InvokeDirective(int i, struct asm_tok tokenarray[])
 	isfnptr:
 		/* get the pointer target */
 		sym = proc->sym.target_type;
+		/* a pointer to a PROTO typedef that was a forward reference */
+		if (sym && sym->state == SYM_TYPE && sym->mem_type == MT_PROC)
+			sym = sym->target_type;
 		if (sym == NULL)
 			return(EmitErr(INVOKE_REQUIRES_PROTOTYPE));
 	}
diff --git a/listing.c b/listing.c
index 4eb7a51..33174da 100644
--- a/listing.c
+++ b/listing.c
@@ -321,7 +321,8 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
             ll.buffer[28] = '*';
         if ( MacroLevel ) {
             len = sprintf( &ll.buffer[29], "%u", MacroLevel );
-            ll.buffer[29+len] = ' ';
+            if ( 29 + len < sizeof( ll.buffer ) )
+                ll.buffer[29+len] = ' ';
         }
         if ( srcfile != ModuleInfo.srcfile ) {
             ll.buffer[30] = 'C';
diff --git a/preproc.c b/preproc.c
index 9b7dfe5..02b3d90 100644
--- a/preproc.c
+++ b/preproc.c
@@ -1107,6 +1107,11 @@ int PreprocessLine( char *line, struct asm_tok tokenarray[] )
 	//evexflag = 0;
 
     Token_Count = Tokenize( line, 0, tokenarray, TOK_DEFAULT );
+    if ( strlen( line ) >= MAX_LINE_LEN ) { /* concatenated lines? */
+        if ( Token_Count )
+            EmitError( LINE_TOO_LONG );
+        return( 0 );
+    }
 
 #ifdef DEBUG_OUT
     cntppl0++;
diff --git a/proc.c b/proc.c
index 14ff24f..a1fcc18 100644
--- a/proc.c
+++ b/proc.c
@@ -4225,6 +4225,7 @@ static int sysv_pcheck(struct dsym *proc, struct dsym *paranode, int *used, int
 	char regname[32];
 	int size = SizeFromMemtype(paranode->sym.mem_type, paranode->sym.Ofssize, paranode->sym.type);
 
+	regname[0] = NULLC; /* not set for other sizes */
 	paranode->sym.string_ptr = NULL; // Ensure it's null first.
 
 	//===============================================================================================================
diff --git a/string.c b/string.c
index 0c3c5d6..9478f2a 100644
--- a/string.c
+++ b/string.c
@@ -763,6 +763,7 @@ static ret_code CatStrFunc( struct macro_instance *mi, char *buffer, struct asm_
     int cnt = 0;
 #endif
     int i;
+    int count = 0;
     char *p;
 
     DebugMsg1(("@CatStr( %s )\n", mi->parm_array[0] ? mi->parm_array[0] : "NULL" ));
@@ -770,6 +771,9 @@ static ret_code CatStrFunc( struct macro_instance *mi, char *buffer, struct asm_
     for ( p = mi->parm_array[0]; mi->parmcnt; mi->parmcnt-- ) {
         DebugMsg1(("@CatStr.%u: >%s<\n", cnt++, p ));
         i = strlen( p );
+        count += i;
+        if ( count >= MAX_LINE_LEN )
+            return( EmitError( STRING_OR_TEXT_LITERAL_TOO_LONG ) );
         memcpy( buffer, p, i );
         p = GetAlignedPointer( p, i );
         buffer += i;
diff --git a/tokenize.c b/tokenize.c
index 415fcac..f8800e9 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -522,7 +522,7 @@ static ret_code get_string(struct asm_tok *buf, struct line_status *p)
         }
         src = p->input;
         dst = p->output;
-        *dst++ = *src++;
+        if (*src) *dst++ = *src++;
         count = 1;
         goto undelimited_string;
       }
-- 
2.43.0


From 8457ffda09e53f2bc574ea45e13bd655dda3fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 036/114] fix: overflows at the nesting and line length limits,
 wide literals ended with an uninitialised byte, endless passes and includes

---
 H/globals.h |  1 +
 assemble.c  |  4 ++++
 data.c      |  2 +-
 expans.c    | 13 +++++++++++--
 hll.c       |  4 ++--
 input.c     | 11 +++++++++++
 invoke.c    |  3 ++-
 loop.c      |  2 +-
 preproc.c   | 44 ++++++++++++++++++++++++++++----------------
 tokenize.c  | 13 ++++++++++---
 types.c     |  2 ++
 11 files changed, 73 insertions(+), 26 deletions(-)

diff --git a/H/globals.h b/H/globals.h
index 057e89d..32d40f9 100644
--- a/H/globals.h
+++ b/H/globals.h
@@ -75,6 +75,7 @@
 #define MAX_SEG_NESTING         20   /* limit for segment nesting  */
 #define MAX_MACRO_NESTING       128  /* macro call nesting  */
 #define MAX_STRUCT_NESTING      32   /* limit for "anonymous structs" only */
+#define MAX_PASSES              5000 /* give up if offsets haven't settled then */
 #define MAX_LNAME               255  /* OMF lnames - length must fit in 1 byte */
 #define LNAME_NULL              0    /* OMF first entry in lnames array */
 
diff --git a/assemble.c b/assemble.c
index 4100d58..d951f3e 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1712,6 +1712,10 @@ int EXPQUAL AssembleModule( const char *source )
 
         if ( Parse_Pass % 200 == 199 )
             EmitWarn( 2, ASSEMBLY_PASSES, Parse_Pass+1 );
+        if ( Parse_Pass >= MAX_PASSES - 1 ) { /* sizes and offsets keep changing */
+            EmitErr( ASSEMBLY_PASSES, Parse_Pass+1 );
+            break;
+        }
 #ifdef DEBUG_OUT
         if ( Options.max_passes && Parse_Pass == (Options.max_passes - 1) )
             break;
diff --git a/data.c b/data.c
index 052fa10..b17be07 100644
--- a/data.c
+++ b/data.c
@@ -494,7 +494,7 @@ static void output_float( const struct expr *opnd, unsigned size )
     /* v2.07: buffer extended to max size of a data item (=32).
      * test case: XMMWORD REAL10 ptr 1.0
      */
-    char buffer[32];
+    char buffer[64]; /* the largest type is ZMMWORD */
 	char tstr[32];
 
     if ( opnd->mem_type != MT_EMPTY ) {
diff --git a/expans.c b/expans.c
index bcdc3b0..2d7405e 100644
--- a/expans.c
+++ b/expans.c
@@ -38,6 +38,7 @@
 #define MAX_TEXTMACRO_NESTING 20
 
 extern char *GetMacroLine( struct macro_instance *, char * );
+extern char *token_stringbufend; /* end token string buffer */
 
 int           MacroLocals;     /* counter for LOCAL names */
 uint_8        MacroLevel;      /* current macro nesting level */
@@ -887,11 +888,15 @@ ret_code ExpandText( char *line, struct asm_tok tokenarray[], unsigned int subst
     for ( lvl = 0; lvl >= 0; lvl-- ) {
         pSrc = sp[lvl];
         while ( *pSrc ) {
+            if ( pDst - old_stringbufferend >= MAX_LINE_LEN - 1 ) {
+                StringBufferEnd = old_stringbufferend;
+                return( EmitError( LINE_TOO_LONG ) );
+            }
             if( is_valid_id_first_char( *pSrc ) && ( substitute != 0 || quoted_string == 0 ) ) {
                 pIdent = pDst;
                 do {
                     *pDst++ = *pSrc++;
-                } while ( is_valid_id_char( *pSrc ));
+                } while ( is_valid_id_char( *pSrc ) && pDst - old_stringbufferend < MAX_LINE_LEN - 1 );
                 *pDst = NULLC;
                 sym = SymSearch( pIdent );
 #ifdef DEBUG_OUT
@@ -915,6 +920,10 @@ ret_code ExpandText( char *line, struct asm_tok tokenarray[], unsigned int subst
                         sp[lvl++] = pSrc;
                         pSrc = StringBufferEnd;
                         //StringBufferEnd = GetAlignedPointer( pSrc, GetLiteralValue( pSrc, sym->string_ptr ) );
+                        if ( strlen( sym->string_ptr ) + MAX_LINE_LEN > token_stringbufend - pSrc ) {
+                            StringBufferEnd = old_stringbufferend;
+                            return( EmitError( MACRO_NESTING_LEVEL_TOO_DEEP ) );
+                        }
                         strcpy( pSrc, sym->string_ptr );
                         StringBufferEnd = GetAlignedPointer( pSrc, strlen( pSrc ) );
                         DebugMsg1(("ExpandText: %s replaced by >%s<\n", sym->name, pSrc ));
@@ -1169,7 +1178,7 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
 
     for ( ; i < max && tokenarray[i].token != T_COMMA; i++ ) {
     
-		if (strcasecmp(tokenarray[i].string_ptr, "LOCAL") == 0)
+		if (( tokenarray[i].token == T_ID || tokenarray[i].token == T_DIRECTIVE ) && strcasecmp(tokenarray[i].string_ptr, "LOCAL") == 0)
 		{
 			inLocal = TRUE;
 		}
diff --git a/hll.c b/hll.c
index 5e22bf3..0d04422 100644
--- a/hll.c
+++ b/hll.c
@@ -2030,7 +2030,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 sprintf(unum, "%d", bcnt);
               strcat(buffer, unum);
               n++;
-              if (hll->plabels[j] != hll->plabels[j + 1])
+              if (j + 1 < hll->casecnt && hll->plabels[j] != hll->plabels[j + 1])
                 bcnt++;
               }
             if (buffer[4] == ',') buffer[4] = ' ';
@@ -2168,7 +2168,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 sprintf(unum, "%d", bcnt);
               strcat(buffer, unum);
               n++;
-              if (hll->plabels[j] != hll->plabels[j + 1])
+              if (j + 1 < hll->casecnt && hll->plabels[j] != hll->plabels[j + 1])
                 bcnt++;
               }
             if (buffer[4] == ',') buffer[4] = ' ';
diff --git a/input.c b/input.c
index b92720c..ec65140 100644
--- a/input.c
+++ b/input.c
@@ -105,6 +105,7 @@ static char *srclinebuffer;
  * must be a multiple of MAX_LINE_LEN since it is used for string expansion.
  */
 char *token_stringbuf;  /* start token string buffer */
+char *token_stringbufend; /* end token string buffer */
 
 /* fixme: add '|| defined(__CYGWIN__)' ? */
 #if defined(__UNIX__)
@@ -664,6 +665,15 @@ FILE *SearchFile( const char *path, bool queue )
      * assembly files usually are, but binary files ( INCBIN ) aren't.
      */
     if ( queue ) {
+        int level = 0;
+        for ( fl = src_stack; fl; fl = fl->next )
+            if ( fl->type == SIT_FILE )
+                level++;
+        if ( level > MAX_MACRO_NESTING ) { /* includes itself? */
+            fclose( file );
+            EmitError( NESTING_LEVEL_TOO_DEEP );
+            return( NULL );
+        }
         fl = PushSrcItem( SIT_FILE, file );
         fl->srcfile = AddFile( path );
         FileCur->string_ptr = GetFName( fl->srcfile )->fname;
@@ -868,6 +878,7 @@ void InputInit( void )
     /* behind the comment buffer is the token buffer */
     ModuleInfo.tokenarray = (struct asm_tok *)( srclinebuffer + SIZE_SRCLINES );
     token_stringbuf = srclinebuffer + SIZE_SRCLINES + SIZE_TOKENARRAY;
+    token_stringbufend = token_stringbuf + SIZE_STRINGBUFFER;
     fl = PushSrcItem( SIT_FILE, CurrFile[ASM] );
     fl->srcfile = ModuleInfo.srcfile = AddFile( CurrFName[ASM] );
     FileCur->string_ptr = GetFName( fl->srcfile )->fname;
diff --git a/invoke.c b/invoke.c
index 25e7bb1..f225b38 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3337,7 +3337,8 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 				pSrc = (tokenarray[i + 1].string_ptr) + 1;
 				sprintf(buf, "%s%d", labelstr, hashpjw(pSrc));
 				lbl = SymLookup(buf);
-				memset(&buff, 0, 256);
+				memset(buff, 0, sizeof(buff));
+				memset(buff2, 0, sizeof(buff2));
 
 				pDest = buff2;
 				finallen = slen;
diff --git a/loop.c b/loop.c
index a6f8b8f..7ed7c66 100644
--- a/loop.c
+++ b/loop.c
@@ -31,7 +31,7 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
     char *parmstring;
     char *ptr;
     struct dsym *macro;
-    bool is_exitm;
+    bool is_exitm = FALSE;
     struct expr opnd;
     struct macro_info macinfo;
     struct dsym tmpmacro;
diff --git a/preproc.c b/preproc.c
index 02b3d90..7b3bfcb 100644
--- a/preproc.c
+++ b/preproc.c
@@ -134,6 +134,18 @@ static void VerifyNesting(char *line, bool exprBracket)
 	}
 }
 
+/* store an expanded line in the (smaller) source line buffer */
+static void PutBackLine(char *line, const char *newline)
+{
+	if (strlen(newline) < MAX_LINE_LEN)
+		strcpy(line, newline);
+	else
+	{
+		EmitError(LINE_TOO_LONG);
+		*line = NULLC;
+	}
+}
+
 static void ExpandObjCalls(char *line, struct asm_tok tokenarray[])
 {
 	int i,j;
@@ -148,13 +160,13 @@ static void ExpandObjCalls(char *line, struct asm_tok tokenarray[])
 	int clIdx = 0;
 	int clSqIdx = 0;
 	int opSqIdx = 0;
-	char newline[MAX_LINE_LEN];
+	static char newline[MAX_LINE_LEN * 16];
 	bool gotOpen = FALSE;
 	bool gotClose = FALSE;
 	bool gotCloseSqr = FALSE;
 	bool gotOpenSqr = FALSE;
-	char methodName[MAX_LINE_LEN];
-	char indirectAddr[MAX_LINE_LEN];
+	static char methodName[MAX_LINE_LEN * 16];
+	static char indirectAddr[MAX_LINE_LEN * 16];
 	char *pMethodStr = methodName;
 	char *pStr = newline;
 	char *pType = NULL;
@@ -166,7 +178,7 @@ static void ExpandObjCalls(char *line, struct asm_tok tokenarray[])
 	int paramCount = 0;
 	char pcs[16];
 	bool didExpand = TRUE;
-	char refStr[MAX_LINE_LEN];
+	static char refStr[MAX_LINE_LEN * 16];
 	char *pRefStr = refStr;
 	struct sfield *field = NULL;
 
@@ -175,10 +187,10 @@ static void ExpandObjCalls(char *line, struct asm_tok tokenarray[])
 	// Scan through tokens, looking for pointer operators.
 	while (didExpand)
 	{
-		memset(&indirectAddr, 0, MAX_LINE_LEN);
-		memset(&methodName, 0, MAX_LINE_LEN);
-		memset(&newline, 0, MAX_LINE_LEN);
-		memset(&refStr, 0, MAX_LINE_LEN);
+		memset(&indirectAddr, 0, sizeof(indirectAddr));
+		memset(&methodName, 0, sizeof(methodName));
+		memset(&newline, 0, sizeof(newline));
+		memset(&refStr, 0, sizeof(refStr));
 		pStr = newline;
 		pRefStr = refStr;
 		didExpand = FALSE;
@@ -583,7 +595,7 @@ static void ExpandObjCalls(char *line, struct asm_tok tokenarray[])
 		/* Transfer new source line back for token rescan */
 		if (didExpand)
 		{
-			strcpy(line, &newline);
+			PutBackLine(line, newline);
 			Token_Count = Tokenize(line, 0, tokenarray, TOK_RESCAN);
 		}
 	}
@@ -599,7 +611,7 @@ static void ExpandStaticObjCalls(char *line, struct asm_tok tokenarray[])
 	int opIdx, clIdx;
 	int method;
 	int type;
-	char newline[MAX_LINE_LEN];
+	static char newline[MAX_LINE_LEN * 16];
 	char *pStr;
 	int opCount = 0;
 	bool hasParams = FALSE;
@@ -609,7 +621,7 @@ static void ExpandStaticObjCalls(char *line, struct asm_tok tokenarray[])
 	bool hasExprBracket = FALSE;
 	struct dsym *tsym = NULL;
 
-	memset(&newline, 0, MAX_LINE_LEN);
+	memset(&newline, 0, sizeof(newline));
 	pStr = newline;
 
 	for (i = 0; i < Token_Count; i++)
@@ -749,7 +761,7 @@ static void ExpandStaticObjCalls(char *line, struct asm_tok tokenarray[])
 						}
 					}
 
-					strcpy(line, newline);
+					PutBackLine(line, newline);
 					Token_Count = Tokenize(line, 0, tokenarray, TOK_RESCAN);
 				}
 			}
@@ -774,21 +786,21 @@ static void ExpandHllCalls(char *line, struct asm_tok tokenarray[], bool inParam
 {
 	int i, j;
 	struct dsym *sym;
-	char newline[MAX_LINE_LEN];
+	static char newline[MAX_LINE_LEN * 16];
 	int clIdx, opIdx;
 	int tokenCount;
 	struct asm_tok *tokenarray2;
 	char *p = &newline;
 	char idxStack[] = { 0, 0, 0, 0 };
 	int stackPt = -1;
-	char idxline[MAX_LINE_LEN];
+	static char idxline[MAX_LINE_LEN * 16];
 	char invCnt = 1;
 	bool hasExprBracket = FALSE;
 	bool expandedCall = FALSE;
 	char uCnt = 0;
 
 	strcpy(&newline, line);
-	memset(&idxline, 0, MAX_LINE_LEN);
+	memset(&idxline, 0, sizeof(idxline));
 
 	for (i = 0;i < Token_Count;i++)
 	{
@@ -1020,7 +1032,7 @@ static void ExpandHllCalls(char *line, struct asm_tok tokenarray[], bool inParam
 	}
 
 	/* Transfer new source line back for token rescan */
-	strcpy(line, &newline);
+	PutBackLine(line, newline);
 }
 
 static bool PossibleCallExpansion(struct asm_tok tokenarray[])
diff --git a/tokenize.c b/tokenize.c
index f8800e9..c29b565 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -68,6 +68,7 @@ extern char           *end_stringbuf;
 #endif
 
 extern char    *token_stringbuf;  /* start token string buffer */
+extern char    *token_stringbufend; /* end token string buffer */
 extern char    *commentbuffer;
 
 /* v2.08: moved to struct line_status */
@@ -1257,6 +1258,12 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
         p.output = StringBufferEnd;
     }
 
+    /* macro functions and nested literals are kept in the buffer until their line is done */
+    if ( p.output + 8 * MAX_LINE_LEN > token_stringbufend ) {
+        EmitError( NESTING_LEVEL_TOO_DEEP );
+        goto skipline;
+    }
+
     for( ;; ) {
 
         while( isspace( *p.input ) ) p.input++;
@@ -1308,8 +1315,8 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
               if (*p1 == 'k' || *p1 == 'K') {      /* check if it is mask register */
                 if ((*(p1 + 1) >= '1') && (*(p1 + 1) <= '7')) {
                   p1++;                            /* skip register number */
-                  while (*p1 != ',') p1++;          /* find the comma  */
-                  p1++;                            /* skip the comma  */
+                  while (*p1 && *p1 != ',') p1++;   /* find the comma  */
+                  if (*p1) p1++;                   /* skip the comma  */
                   while (isspace(*p1)) p1++;       /* skip the space  */
                 }
               }
@@ -1327,7 +1334,7 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
                 if (0 == _memicmp(p1, "word", 4))    /* it is faster to find "word" first */
                   break;
               }
-              if (*p1 == 0)goto nobcst;            /* let parser throw error */
+              if (*p1 == 0 || p1 >= input1) goto nobcst; /* let parser throw error */
               p1--;                                /* get the 'q' or 'd' */
               if (*p1 == 'd' || *p1 == 'D')
                 cnt += cnt;                        /* double it for dword */
diff --git a/types.c b/types.c
index 43a1c28..1050703 100644
--- a/types.c
+++ b/types.c
@@ -1536,6 +1536,8 @@ ret_code GetQualifiedType( int *pi, struct asm_tok tokenarray[], struct qualifie
                 sym = pti->symtype;
                 /* if it's a typedef, simplify the info */
                 if ( sym->typekind == TYPE_TYPEDEF ) {
+                    if ( pti->is_ptr + sym->is_ptr > 255 )
+                        return( EmitError( NESTING_LEVEL_TOO_DEEP ) );
                     pti->is_ptr     += sym->is_ptr;
                     if ( sym->is_ptr == 0 ) {
                         /* v2.06b: alias types have MT_TYPE, dont use for ptr_memtype! */
-- 
2.43.0


From e74ebbbeed810bbfe5f5145d81ed6a37a7bcb943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 037/114] fix: Delphi convention in 64-bit code indexed its
 register count table out of bounds

---
 proc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proc.c b/proc.c
index a1fcc18..8ea5ab8 100644
--- a/proc.c
+++ b/proc.c
@@ -106,6 +106,7 @@ static const int ms32_maxreg[] = {
 static const int delphi_maxreg[] = {
 	sizeof(delphi_regs32) / sizeof(delphi_regs32[0]),
 	sizeof(delphi_regs32) / sizeof(delphi_regs32[0]),
+	0, /* no registers in 64-bit */
 };
 
 #if OWFC_SUPPORT
-- 
2.43.0


From dae78c45879a995868059ad1d6c62eca7b56c4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 038/114] fix: register pairs passed to INVOKE left the
 evaluated operand uninitialised

---
 invoke.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/invoke.c b/invoke.c
index f225b38..df8616c 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3616,6 +3616,10 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 				asize += asize2;
 			strcpy(fullparam, tokenarray[j + 2].string_ptr);
 
+			memset(&opnd, 0, sizeof(opnd));
+			opnd.instr = EMPTY;
+			opnd.mem_type = MT_EMPTY;
+			opnd.Ofssize = USE_EMPTY;
 			opnd.kind = EXPR_REG;
 			opnd.indirect = FALSE;
 			opnd.sym = NULL;
-- 
2.43.0


From 5321467c0990185f0360efcdae741b7c547af54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 039/114] fix: segment buffers larger than 3 GB were allocated
 too small

---
 H/globals.h |  2 +-
 assemble.c  | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/H/globals.h b/H/globals.h
index 32d40f9..5a0b6ed 100644
--- a/H/globals.h
+++ b/H/globals.h
@@ -928,7 +928,7 @@ extern bool                  gmaskflag;
 
 struct fixup;
 
-extern void             ReserveSegBuffer( struct dsym *, uint_32 );
+extern void             ReserveSegBuffer( struct dsym *, uint_64 );
 extern void             OutputByte( unsigned char );
 extern void             OutputBinBytes( unsigned char* pBytes, uint_32 len );
 
diff --git a/assemble.c b/assemble.c
index d951f3e..eddfa8c 100644
--- a/assemble.c
+++ b/assemble.c
@@ -236,14 +236,18 @@ char *ConvertSectionName( const struct asym *sym, enum seg_type *pst, char *buff
 
 /* ensure that a segment buffer has room for <size> bytes (not used by OMF).
  */
-void ReserveSegBuffer( struct dsym *seg, uint_32 size )
+void ReserveSegBuffer( struct dsym *seg, uint_64 size )
 /*****************************************************/
 {
     uint_8 *p;
 
     if ( size <= seg->e.seginfo->bufsize )
         return;
-    size = ( size + size / 4 + 64 ) & ~7;
+    if ( size > 0xFFFFFFFFUL )
+        Fatal( OUT_OF_MEMORY );
+    size = ( size + size / 4 + 64 ) & ~7ULL;
+    if ( size > 0xFFFFFFFFUL )
+        size = 0xFFFFFFFFUL;
     p = LclAlloc( size );
     memset( p, 0, size );
     if ( seg->e.seginfo->bufsize )
@@ -272,7 +276,7 @@ void OutputByte( unsigned char byte )
         }
         //DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
         if ( Options.output_format != OFORMAT_OMF )
-            ReserveSegBuffer( CurrSeg, idx + 1 );
+            ReserveSegBuffer( CurrSeg, (uint_64)idx + 1 );
         CurrSeg->e.seginfo->CodeBuffer[idx] = byte;
     }
 #if 1
@@ -312,7 +316,7 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 			}
 			return;
 		}
-		ReserveSegBuffer(CurrSeg, idx + len);
+		ReserveSegBuffer(CurrSeg, (uint_64)idx + len);
 		//DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
 		for (i = 0; i < len; i++)
 		{
@@ -373,7 +377,7 @@ void OutputSegmentBytes(struct dsym* segg, const unsigned char *pbytes, int len,
 			store_fixup(fixup, segg, (int_32 *)pbytes);
 		//DebugMsg(("OutputBytes: buff=%p, idx=%" I32_SPEC "X, byte=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, *pbytes ));
 		if (Options.output_format != OFORMAT_OMF)
-			ReserveSegBuffer(segg, idx + len);
+			ReserveSegBuffer(segg, (uint_64)idx + len);
 		memcpy(&segg->e.seginfo->CodeBuffer[idx], pbytes, len);
 	}
 #if 1
@@ -419,7 +423,7 @@ void OutputBytes( const unsigned char *pbytes, int len, struct fixup *fixup )
             store_fixup( fixup, CurrSeg, (int_32 *)pbytes );
         //DebugMsg(("OutputBytes: buff=%p, idx=%" I32_SPEC "X, byte=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, *pbytes ));
         if ( Options.output_format != OFORMAT_OMF )
-            ReserveSegBuffer( CurrSeg, idx + len );
+            ReserveSegBuffer( CurrSeg, (uint_64)idx + len );
         memcpy( &CurrSeg->e.seginfo->CodeBuffer[idx], pbytes, len );
     }
 #if 1
@@ -459,7 +463,7 @@ void OutputInterleavedBytes(const unsigned char *pbytes, int len, struct fixup *
 			}
 			return;
 		}
-		ReserveSegBuffer(CurrSeg, idx + len*2);
+		ReserveSegBuffer(CurrSeg, (uint_64)idx + len*2);
 		if (fixup)
 			store_fixup(fixup, CurrSeg, (int_32 *)pbytes);
 		pOut = &CurrSeg->e.seginfo->CodeBuffer[idx];
-- 
2.43.0


From c74b6b95486bff8872849e4dae64c7df191204d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 040/114] fix: results that depended on the compiler: null
 pointer arithmetic, shifts by negative or too large counts, listing column
 overflow

---
 data.c     |  6 +++---
 expreval.c |  4 ++--
 invoke.c   |  8 ++++----
 listing.c  | 15 ++++++++-------
 proc.c     |  2 +-
 5 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/data.c b/data.c
index b17be07..8a53334 100644
--- a/data.c
+++ b/data.c
@@ -107,8 +107,8 @@ static ret_code data_item( int *, struct asm_tok[], struct asym *, uint_32, cons
     } 
     else {
       orLo = orLo << pos;
-      num = num >> ~pos;
-      orHi |= num;
+      if ( pos > 0 )
+        orHi = num >> (0x40 - pos);
     } 
     *dstHi |= orHi;
     *dstLo |= orLo;
@@ -328,7 +328,7 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
 
             /* fixme: max bits in 64-bit is 64 - see MAXRECBITS! */
             if ( f->sym.total_size < 32 ) {
-                uint_32 dwMax = (1 << f->sym.total_size);
+                uint_32 dwMax = (1U << f->sym.total_size);
                 if ( opndx.value >= dwMax )
                     EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
             }
diff --git a/expreval.c b/expreval.c
index a83733d..2e5bf34 100644
--- a/expreval.c
+++ b/expreval.c
@@ -321,7 +321,7 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
 
             /* fixme: max bits in 64-bit is 64 - see MAXRECBITS! */
             if ( f->sym.total_size < 32 ) {
-                uint_32 dwMax = (1 << f->sym.total_size);
+                uint_32 dwMax = (1U << f->sym.total_size);
                 if ( opndx.value >= dwMax )
                     EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
             }
@@ -788,7 +788,7 @@ static uint_32 GetRecordMask( struct dsym *record )
 
     for ( fl = record->e.structinfo->head; fl; fl = fl->next ) {
         struct asym *sym = &fl->sym;
-        for ( i = sym->offset ;i < sym->offset + sym->total_size; i++ )
+        for ( i = sym->offset ;i < sym->offset + sym->total_size && i < sizeof( mask ) * 8; i++ )
 #if AMD64_SUPPORT
             mask |= (1LL << (uint_64)i);
 #else
diff --git a/invoke.c b/invoke.c
index df8616c..9db6eeb 100644
--- a/invoke.c
+++ b/invoke.c
@@ -1995,7 +1995,7 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 				EmitErr(INVOKE_ARGUMENT_TYPE_MISMATCH, index + 1);
 
 			/* Mark register as written */
-			*regs_used |= (1 << reg);
+			*regs_used |= (1 << sysv_reg(reg));
 		}
 		/* No free GPR Register, value goes to stack */
 		else
@@ -2051,7 +2051,7 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 		if (GetValueSp(reg) & OP_R)
 		{
 			base = sysv_reg(reg);
-			if (base <= 6 && *regs_used & (1 << base))
+			if (base >= 0 && base <= 6 && *regs_used & (1 << base))
 				destroyed = TRUE;
 		}
 	}
@@ -2059,8 +2059,8 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 		reg2 = sysv_regTo64(opnd->idx_reg->tokval);
 		if (GetValueSp(reg2) & OP_R) 
 		{
-			base = sysv_reg(reg);
-			if (base <= 6 && *regs_used & (1 << base))
+			base = sysv_reg(reg2);
+			if (base >= 0 && base <= 6 && *regs_used & (1 << base))
 				destroyed = TRUE;
 		}
 	}
diff --git a/listing.c b/listing.c
index 33174da..7bb5a7b 100644
--- a/listing.c
+++ b/listing.c
@@ -27,7 +27,8 @@
 
 #define CODEBYTES 9
 #define OFSSIZE 8
-#define PREFFMTSTR "20"
+/* don't let the value and its terminating zero exceed the left column */
+#define PREFFMTWIDTH( idx ) ( (int)sizeof( ll.buffer ) - 1 - ( idx + 2 ) < 20 ? (int)sizeof( ll.buffer ) - 1 - ( idx + 2 ) : 20 )
 #define USELSLINE 1 /* also in assemble.c! */
 
 #ifdef __UNIX__
@@ -267,9 +268,9 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         }
         ll.buffer[idx] = '=';
         if ( sym->value3264 != 0 && ( sym->value3264 != -1 || sym->value >= 0 ) )
-            sprintf( &ll.buffer[idx+2], "%-" PREFFMTSTR I64_SPEC "X", (uint_64)sym->uvalue + ( (uint_64)sym->value3264 << 32 ) );
+            sprintf( &ll.buffer[idx+2], "%-*" I64_SPEC "X", PREFFMTWIDTH( idx ), (uint_64)sym->uvalue + ( (uint_64)sym->value3264 << 32 ) );
         else
-            sprintf( &ll.buffer[idx+2], "%-" PREFFMTSTR I32_SPEC "X", sym->value );
+            sprintf( &ll.buffer[idx+2], "%-*" I32_SPEC "X", PREFFMTWIDTH( idx ), sym->value );
         //ll.buffer[28] = ' ';
         break;
     case LSTTYPE_TMACRO:
@@ -320,9 +321,9 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         if ( ModuleInfo.GeneratedCode )
             ll.buffer[28] = '*';
         if ( MacroLevel ) {
-            len = sprintf( &ll.buffer[29], "%u", MacroLevel );
-            if ( 29 + len < sizeof( ll.buffer ) )
-                ll.buffer[29+len] = ' ';
+            char number[12];
+            len = sprintf( number, "%u", MacroLevel );
+            memcpy( &ll.buffer[29], number, len < 3 ? len : 3 );
         }
         if ( srcfile != ModuleInfo.srcfile ) {
             ll.buffer[30] = 'C';
@@ -658,7 +659,7 @@ static void log_record( const struct asym *sym )
     for( f = si->head; f; f = f->next ) {
         i = f->sym.name_size + 2;
         pdots = ((i >= DOTSMAX) ? "" : dots + i + 1 );
-        for ( i = f->sym.offset, mask = 0; i < f->sym.offset + f->sym.total_size; i++ )
+        for ( i = f->sym.offset, mask = 0; i < f->sym.offset + f->sym.total_size && i < sizeof( mask ) * 8; i++ )
 #if AMD64_SUPPORT
 #if defined(LLONG_MAX) || defined(__GNUC__) || defined(__TINYC__)
             mask |= 1ULL << i;
diff --git a/proc.c b/proc.c
index 8ea5ab8..6dd8997 100644
--- a/proc.c
+++ b/proc.c
@@ -3315,7 +3315,7 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 			}
 		}
 
-		if ((info->locallist + resstack) || info->vecused || CurrProc->e.procinfo->xmmsize) {
+		if (info->locallist || resstack || info->vecused || CurrProc->e.procinfo->xmmsize) {
 			DebugMsg1(("write_win64_default_prologue_RSP: localsize=%u resstack=%u\n", info->localsize, resstack));
 			if (ModuleInfo.win64_flags & W64F_HABRAN) {
 				if (((info->pushed_reg & 1) && (info->localsize & 0xF)) ||
-- 
2.43.0


From 561fe7e08a8dd6cae7272dd26434a5345774692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 041/114] fix: the exit status told of the last module of the
 command line only

---
 main.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index a42a973..246641b 100644
--- a/main.c
+++ b/main.c
@@ -65,6 +65,7 @@ int main(int argc, char **argv)
 	int     numArgs = 0;
 	int     numFiles = 0;
 	int     rc = 0;
+	int     failed = FALSE;
 
 #if WILDCARDS
 	/* v2.11: _findfirst/next/close() handle, should be of type intptr_t.
@@ -123,6 +124,7 @@ int main(int argc, char **argv)
 		if ((fh = _findfirst(Options.names[ASM], &finfo)) == -1) {
 			DebugMsg(("main: _findfirst(%s) failed\n", Options.names[ASM]));
 			EmitErr(CANNOT_OPEN_FILE, Options.names[ASM], ErrnoStr());
+			failed = TRUE;
 			break;
 		}
 		pfn = GetFNamePart(Options.names[ASM]);
@@ -131,11 +133,17 @@ int main(int argc, char **argv)
 			do {
 				strcpy(&fname[dirsize], finfo.name);
 				DebugMsg(("main: fname=%s\n", fname));
-				rc = AssembleModule(fname);  /* assemble 1 module */
+				if (AssembleModule(fname) == 0)  /* assemble 1 module */
+					failed = TRUE; /* a later module that is ok doesn't make up for it */
+				else
+					rc = 1;
 			} while ((_findnext(fh, &finfo) != -1));
 		    _findclose(fh);
 #else
-		rc = AssembleModule( Options.names[ASM] );
+		if ( AssembleModule( Options.names[ASM] ) == 0 )
+			failed = TRUE; /* a later module that is ok doesn't make up for it */
+		else
+			rc = 1;
 #endif
 	};
 	CmdlineFini();
@@ -150,6 +158,8 @@ int main(int argc, char **argv)
 	tm_Fini();
 #endif
 
+	if (failed)
+		rc = 0;
 	DebugMsg(("main: exit, return code=%u\n", 1 - rc));
 	return(1 - rc); /* zero if no errors */
 }
-- 
2.43.0


From fa4d536a54c6c6ca0f8a54f235ab1a1f18e72d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 042/114] fix: options set by a source were kept for the
 following modules and for the start of the next pass

---
 H/globals.h | 14 ++++++++++++++
 assemble.c  | 51 +++++++++++++++++++++++++++++++++++++++++++++++++++
 fastpass.c  |  1 +
 3 files changed, 66 insertions(+)

diff --git a/H/globals.h b/H/globals.h
index 5a0b6ed..f7d91c1 100644
--- a/H/globals.h
+++ b/H/globals.h
@@ -928,6 +928,20 @@ extern bool                  gmaskflag;
 
 struct fixup;
 
+/* settings of the command line that the source may change */
+struct source_options {
+    unsigned char evex;
+    unsigned char arch;
+    bool bnd;
+    bool literal_strings;
+    bool vtable;
+    bool frameflags;
+    bool hlcall;
+};
+extern struct source_options passopt;        /* the values a pass starts with */
+extern void             GetSourceOptions( struct source_options * );
+extern void             SetSourceOptions( const struct source_options * );
+
 extern void             ReserveSegBuffer( struct dsym *, uint_64 );
 extern void             OutputByte( unsigned char );
 extern void             OutputBinBytes( unsigned char* pBytes, uint_32 len );
diff --git a/assemble.c b/assemble.c
index eddfa8c..4ba87f1 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1230,6 +1230,8 @@ static int OnePass( void )
     evexflag = 0;
 	}
 
+    if ( Parse_Pass > PASS_1 )
+        SetSourceOptions( &passopt );
 #if FASTPASS
     StoreState = FALSE;
     if ( Parse_Pass > PASS_1 && UseSavedState == TRUE ) {
@@ -1607,6 +1609,36 @@ static void AssembleFini( void )
     return;
 }
 
+/* settings that are made by the command line, but may be changed by the source:
+ * a pass must start with the values the previous pass started with, and
+ * the next module with the values of the command line.
+ */
+struct source_options passopt;
+
+void GetSourceOptions( struct source_options *p )
+/***********************************************/
+{
+    p->evex            = evex;
+    p->arch            = MODULEARCH;
+    p->bnd             = Options.bnd;
+    p->literal_strings = Options.literal_strings;
+    p->vtable          = Options.vtable;
+    p->frameflags      = Options.frameflags;
+    p->hlcall          = Options.hlcall;
+}
+
+void SetSourceOptions( const struct source_options *p )
+/*****************************************************/
+{
+    evex                    = p->evex;
+    MODULEARCH              = p->arch;
+    Options.bnd             = p->bnd;
+    Options.literal_strings = p->literal_strings;
+    Options.vtable          = p->vtable;
+    Options.frameflags      = p->frameflags;
+    Options.hlcall          = p->hlcall;
+}
+
 /* AssembleModule() assembles one source file */
 
 int EXPQUAL AssembleModule( const char *source )
@@ -1619,6 +1651,8 @@ int EXPQUAL AssembleModule( const char *source )
     struct dsym   *seg;
 
 	struct module_info tempInfo;
+    struct source_options cmdlopt;
+    struct global_options savedopt;
 
 #ifdef _WIN32
 	CONSOLE_SCREEN_BUFFER_INFO screenBufferInfo;
@@ -1650,6 +1684,10 @@ int EXPQUAL AssembleModule( const char *source )
 	/* set architecture */
 	ModuleInfo.arch = MODULEARCH;
 
+    GetSourceOptions( &cmdlopt );
+    passopt = cmdlopt;
+    savedopt = Options;
+
     DebugCmd( ModuleInfo.cref = TRUE ); /* enable debug displays */
 
 #if 1 //def __SW_BD
@@ -1870,6 +1908,19 @@ done:
    
 	AssembleFini();
 	ResetOrgFixup();
+    /* what the source has set isn't for the next module */
+    SetSourceOptions( &cmdlopt );
+    Options.output_format = savedopt.output_format;
+    Options.sub_format = savedopt.sub_format;
+    Options.langtype = savedopt.langtype;
+    Options.fctype = savedopt.fctype;
+    Options.line_numbers = savedopt.line_numbers;
+    ModuleInfo.frame_auto   = tempInfo.frame_auto;
+    ModuleInfo.fctype       = tempInfo.fctype;
+    ModuleInfo.langtype     = tempInfo.langtype;
+    ModuleInfo.sub_format   = tempInfo.sub_format;
+    ModuleInfo.win64_flags  = tempInfo.win64_flags;
+    ModuleInfo.switch_style = tempInfo.switch_style;
     DebugMsg(("AssembleModule exit\n"));
     return( ModuleInfo.g.error_count == 0 );
 }
diff --git a/fastpass.c b/fastpass.c
index 3a8a050..a25d65f 100644
--- a/fastpass.c
+++ b/fastpass.c
@@ -54,6 +54,7 @@ static void SaveState( void )
     UseSavedState = TRUE;
     modstate.init = TRUE;
     modstate.Equ.head = modstate.Equ.tail = NULL;
+    GetSourceOptions( &passopt );
 
     memcpy( &modstate.modinfo, (uint_8 *)&ModuleInfo + sizeof( struct module_vars ), sizeof( modstate.modinfo ) );
 
-- 
2.43.0


From c1128a0cfabeef5bac4b204eaaf4a70645d1152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 043/114] fix: the token buffer was much smaller than its size
 in bytes, nested macros wrote beyond it

---
 H/globals.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/H/globals.h b/H/globals.h
index f7d91c1..5e754ad 100644
--- a/H/globals.h
+++ b/H/globals.h
@@ -66,7 +66,7 @@
 #endif
 
 #define MAX_LINE_LEN            1024 /* no restriction for this number */
-#define MAX_TOKEN               MAX_LINE_LEN - 32 /* max tokens in one line */
+#define MAX_TOKEN               ( MAX_LINE_LEN - 32 ) /* max tokens in one line */
 #define MAX_STRING_LEN          MAX_LINE_LEN - 32 /* must be < MAX_LINE_LEN */
 #define MAX_ID_LEN              247  /* must be < MAX_LINE_LEN */
 #define MAX_STRUCT_ALIGN        64
-- 
2.43.0


From 5ace52607faecc0f381dab26e0f78fb2bca98e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 044/114] fix: crashes in INVOKE, PROC, HLL and OPTION FLAT
 reported as General Failure

---
 hll.c     |  1 +
 invoke.c  | 15 ++++++++-------
 option.c  |  9 ++++++++-
 parser.c  |  2 +-
 preproc.c | 10 +++++++++-
 proc.c    | 18 ++++++++++++++++--
 simsegm.c |  3 ++-
 7 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/hll.c b/hll.c
index 0d04422..f730074 100644
--- a/hll.c
+++ b/hll.c
@@ -1564,6 +1564,7 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
     hll->pcases64 = NULL;
 #endif
     hll->casecnt = 0;
+    hll->cflag = 0; /* the item may have been used before */
     hll->csize = 4;
     hll->breakoccured = TRUE; //first label for .CASE hast to be set
 
diff --git a/invoke.c b/invoke.c
index 9db6eeb..eee7978 100644
--- a/invoke.c
+++ b/invoke.c
@@ -2477,8 +2477,9 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 			if (opnd->kind == EXPR_CONST)
 			{
 				*regs_used |= (1 << 6);
-				AddLineQueueX("mov %r, %s.0", T_EAX, paramvalue);
-				AddLineQueueX("%s %s, %r", MOVE_SIMD_DWORD(), param->sym.string_ptr, T_EAX);
+				BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", T_RAX);
+				BuildCodeLine(info->stackOps[info->stackOpCount++], "mov %r, %s.0", T_EAX, paramvalue);
+				info->stackOfs += 8;
 				return(1);
 			}
 			if (opnd->kind == EXPR_REG && opnd->indirect == FALSE)
@@ -3107,7 +3108,7 @@ static int ParamIsString(char *pStr, int param, struct dsym* proc) {
 
 	for (i = 0; i < param; i++)
 	{
-		if (p->nextparam == NULL)
+		if (p == NULL || p->nextparam == NULL)
 			break;
 		p = p->nextparam;
 	}
@@ -3120,10 +3121,10 @@ static int ParamIsString(char *pStr, int param, struct dsym* proc) {
 		}
 		else
 		{
-			if (p->sym.target_type)
+			if ((uintptr_t)p->sym.target_type > 0x2000)
 			{
 				type = p->sym.target_type;
-				while (type->target_type && (int)type->target_type > 0x2000)
+				while (type->target_type && (uintptr_t)type->target_type > 0x2000)
 				{
 					type = type->target_type;
 					if (type->mem_type == MT_PTR)
@@ -3240,7 +3241,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 		// UASM 2.47 Only check the string type information if we're on the actual reqParam.
 		if (currParm == reqParam && curr && currParm < 256)
 		{
-			if (ParamIsString(tokenarray[i].string_ptr, currParm, proc))
+			if (SymTables[TAB_SEG].head && ParamIsString(tokenarray[i].string_ptr, currParm, proc))
 			{
 
 				// Preserve current Segment.
@@ -3317,7 +3318,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 				// Restore current Sement.
 				CurrSeg = curseg;
 			}
-			else if (strcmp(tokenarray[i].string_ptr, "L") == 0 && ParamIsString(tokenarray[i + 1].string_ptr, currParm, proc))
+			else if (SymTables[TAB_SEG].head && strcmp(tokenarray[i].string_ptr, "L") == 0 && ParamIsString(tokenarray[i + 1].string_ptr, currParm, proc))
 			{
 				// Preserve current Segment.
 				curseg = ModuleInfo.currseg;
diff --git a/option.c b/option.c
index 7e21ff0..02f9b24 100644
--- a/option.c
+++ b/option.c
@@ -1234,6 +1234,8 @@ OPTFUNC( Unsupported )
     return( EmitErr( NOT_SUPPORTED, tokenarray[(*pi)-2].tokpos ) );
 }
 
+extern void bin_init( struct module_info * );
+
 OPTFUNC(SetFlat)
 {
 	//const char  *textvalue;
@@ -1241,7 +1243,12 @@ OPTFUNC(SetFlat)
 	int i = *pi;
 
 	ModuleInfo.offsettype = OT_FLAT; 
-	Options.output_format = OFORMAT_BIN;
+	if (Options.output_format != OFORMAT_BIN) {
+		/* the module has been initialized for another format */
+		Options.output_format = OFORMAT_BIN;
+		ModuleInfo.sub_format = SFORMAT_NONE;
+		bin_init(&ModuleInfo);
+	}
 	ModuleInfo.curr_cpu = P_64p | P_AVX | P_CPU_MASK;
 	SetCPU(P_64p);
 	ModuleInfo.model = MODEL_FLAT;
diff --git a/parser.c b/parser.c
index 20de11a..5bce800 100644
--- a/parser.c
+++ b/parser.c
@@ -290,7 +290,7 @@ if ((mem_type & MT_SPECIAL) == 0){
         DebugMsg1(("SizeFromMemtype( MT_PROC, Ofssize=%u, type=%s )=%u\n", Ofssize, type->name, ( 2 << Ofssize ) + ( type->isfar ? 2 : 0 ) ));
         /* v2.09: use type->isfar setting */
         //return( ( 2 << Ofssize ) + ( ( SIZE_CODEPTR & ( 1 << ModuleInfo.model ) ) ? 2 : 0 ) );
-        return( ( 2 << Ofssize ) + ( type->isfar ? 2 : 0 ) );
+        return( ( 2 << Ofssize ) + ( type && type->isfar ? 2 : 0 ) );
     case MT_PTR:
         DebugMsg1(("SizeFromMemtype( MT_PTR, Ofssize=%u )=%u\n", Ofssize, ( 2 << Ofssize ) + ( ( SIZE_DATAPTR & ( 1 << ModuleInfo.model ) ) ? 2 : 0 ) ));
         return( ( 2 << Ofssize ) + ( ( SIZE_DATAPTR & ( 1 << ModuleInfo.model ) ) ? 2 : 0 ) );
diff --git a/preproc.c b/preproc.c
index 7b3bfcb..33b517c 100644
--- a/preproc.c
+++ b/preproc.c
@@ -317,6 +317,11 @@ static void ExpandObjCalls(char *line, struct asm_tok tokenarray[])
 					{
 						// Ensure tokenarray[i - 1].string_ptr is a field of the current TYPE, then get it's target type.
 						bool gotField = FALSE;
+						if (!type)
+						{
+							EmitError(INVALID_POINTER);
+							return;
+						}
 						field = type->e.structinfo->head;
 						for (; field; field = field->next)
 						{
@@ -330,9 +335,12 @@ static void ExpandObjCalls(char *line, struct asm_tok tokenarray[])
 						{
 							type = field->sym.target_type;
 							if (!type || type < 0x10)
-								type = field->sym.type->target_type;
+								type = field->sym.type ? field->sym.type->target_type : NULL;
 							if (!type || type < 0x10)
+							{
 								EmitError(INVALID_POINTER);
+								return;
+							}
 						}
 						else
 							EmitError(INVALID_POINTER);
diff --git a/proc.c b/proc.c
index 6dd8997..46e16ab 100644
--- a/proc.c
+++ b/proc.c
@@ -906,6 +906,8 @@ static ret_code ParseParams(struct dsym *proc, int i, struct asm_tok tokenarray[
 			//to = ( paracurr->sym.mem_type == MT_TYPE ) ? paracurr->sym.type : paracurr->sym.target_type;
 			if (paracurr->sym.mem_type == MT_TYPE)
 				to = paracurr->sym.type;
+			else if (paracurr->sym.mem_type == MT_PTR && paracurr->sym.state == SYM_TMACRO)
+				to = tn; /* a register parameter: the target type has been replaced by the registers */
 			else
 				to = (paracurr->sym.mem_type == MT_PTR ? paracurr->sym.target_type : NULL);
 			for (; to && to->type; to = to->type);
@@ -1895,6 +1897,14 @@ ret_code ProcDir(int i, struct asm_tok tokenarray[])
 	if (CurrSeg == NULL) {
 		return(EmitError(MUST_BE_IN_SEGMENT_BLOCK));
 	}
+#if AMD64_SUPPORT
+	/* there may be neither a .MODEL nor an OPTION WIN64 directive that has created it */
+	if (sym_ReservedStack == NULL && (ModuleInfo.Ofssize == USE64 || (ModuleInfo.win64_flags & W64F_AUTOSTACKSP))) {
+		sym_ReservedStack = CreateVariable("@ReservedStack", 0);
+		if (sym_ReservedStack)
+			sym_ReservedStack->predefined = TRUE;
+	}
+#endif
 
 	name = tokenarray[0].string_ptr;
 
@@ -2144,7 +2154,7 @@ static void ProcFini(struct dsym *proc)
 	if (Parse_Pass == PASS_1 &&
 		ModuleInfo.fctype == FCT_WIN64 &&
 		(ModuleInfo.win64_flags & W64F_AUTOSTACKSP)) {
-		proc->e.procinfo->ReservedStack = sym_ReservedStack->value;
+		proc->e.procinfo->ReservedStack = sym_ReservedStack ? sym_ReservedStack->value : 0;
 		DebugMsg1(("ProcFini(%s): localsize=%u ReservedStack=%u\n", proc->sym.name, proc->e.procinfo->localsize, proc->e.procinfo->ReservedStack));
 #if STACKBASESUPP
 		if (proc->e.procinfo->fpo) {
@@ -2298,7 +2308,7 @@ static void WriteSEHData(struct dsym *proc)
 	AddLineQueueX("%s %r", segname, T_ENDS);
 
 	/* v2.07: ensure that .pdata items are sorted */
-	if (0 == strcmp(SimGetSegName(SIM_CODE), proc->sym.segment->name)) {
+	if (SimGetSegName(SIM_CODE) && 0 == strcmp(SimGetSegName(SIM_CODE), proc->sym.segment->name)) {
 		segname = ".pdata";
 		simplespec = (unw_segs_defined & 1);
 		unw_segs_defined = 3;
@@ -5538,6 +5548,10 @@ void ProcInit(void)
 {
 	ProcStack = NULL;
 	CurrProc = NULL;
+#if AMD64_SUPPORT
+	if (Parse_Pass == PASS_1)
+		sym_ReservedStack = NULL; /* the one of the previous module doesn't exist anymore */
+#endif
 	procidx = 1;
 	ProcStatus = 0;
 	/* v2.09: reset prolog and epilog mode */
diff --git a/simsegm.c b/simsegm.c
index 85e6300..2522c29 100644
--- a/simsegm.c
+++ b/simsegm.c
@@ -198,7 +198,8 @@ static void SetSimSeg( enum sim_seg segm, const char *name )
 static void EndSimSeg( enum sim_seg segm )
 /****************************************/
 {
-    AddLineQueueX( "%s %r", SegmNames[segm], T_ENDS );
+    if ( SegmNames[segm] )
+        AddLineQueueX( "%s %r", SegmNames[segm], T_ENDS );
     return;
 }
 
-- 
2.43.0


From 201773bf3ac8d7643b8933a18904e548e31ea846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 045/114] fix: crashes writing PE sections without class or
 headers, CV8 with OMF, and a COMM of no items in the listing

---
 assemble.c |  1 +
 bin.c      | 11 +++++++++++
 listing.c  |  2 +-
 omf.c      |  3 +++
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/assemble.c b/assemble.c
index 4ba87f1..ba84d1c 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1915,6 +1915,7 @@ done:
     Options.langtype = savedopt.langtype;
     Options.fctype = savedopt.fctype;
     Options.line_numbers = savedopt.line_numbers;
+    Options.debug_symbols = savedopt.debug_symbols;
     ModuleInfo.frame_auto   = tempInfo.frame_auto;
     ModuleInfo.fctype       = tempInfo.fctype;
     ModuleInfo.langtype     = tempInfo.langtype;
diff --git a/bin.c b/bin.c
index 376219e..782de78 100644
--- a/bin.c
+++ b/bin.c
@@ -834,6 +834,10 @@ static void pe_create_section_table( void )
                     curr->e.seginfo->segtype = SEGTYPE_RSRC;
                 else if ( strcmp( curr->sym.name, ".reloc" ) == 0 )
                     curr->e.seginfo->segtype = SEGTYPE_RELOC;
+                else if ( curr->e.seginfo->readonly || curr->e.seginfo->characteristics == CHAR_READONLY )
+                    curr->e.seginfo->segtype = SEGTYPE_CDATA;
+                else /* no class, no code: without a type the segment wasn't part of the image */
+                    curr->e.seginfo->segtype = SEGTYPE_DATA;
             }
         }
 
@@ -1341,6 +1345,8 @@ static void pe_set_values( struct calc_param *cp )
             continue;
         if ( curr->sym.max_offset == 0 ) /* ignore empty sections */
             continue;
+        if ( curr->e.seginfo->lname_idx == SEGTYPE_ERROR ) /* not in the section table */
+            continue;
         if ( curr->e.seginfo->lname_idx != i ) {
             i = curr->e.seginfo->lname_idx;
             secname = ( curr->e.seginfo->aliasname ? curr->e.seginfo->aliasname : ConvertSectionName( &curr->sym, NULL, buffer ) );
@@ -1562,6 +1568,11 @@ static ret_code bin_write_module( struct module_info *modinfo )
         if ( ModuleInfo.model == MODEL_NONE ) {
             return( EmitErr( MODEL_IS_NOT_DECLARED ) );
         }
+        if ( SymSearch( hdrname "2" ) == NULL )
+            return( EmitErr( MODEL_IS_NOT_DECLARED ) );
+        /* the other headers are created by the END directive */
+        if ( SymSearch( hdrname "1" ) == NULL || SymSearch( hdrname "3" ) == NULL )
+            return( EmitError( END_DIRECTIVE_REQUIRED ) );
         pe_set_values( &cp );
     } else
 #endif
diff --git a/listing.c b/listing.c
index 7bb5a7b..5df5db9 100644
--- a/listing.c
+++ b/listing.c
@@ -983,7 +983,7 @@ static void log_symbol( const struct asym *sym )
         /* v2.07: MT_ABS is obsolete */
         //if ( sym->mem_type == MT_ABS )
         if ( sym->state == SYM_EXTERNAL && sym->iscomm == TRUE )
-            LstPrintf( " %8" I32_SPEC "Xh ", sym->total_size / sym->total_length );
+            LstPrintf( " %8" I32_SPEC "Xh ", sym->total_length ? sym->total_size / sym->total_length : 0 );
         else if ( sym->mem_type == MT_EMPTY ) { /* also check segment? might be != NULL for equates (var = offset x) */
             if ( sym->value3264 != 0 && sym->value3264 != -1 )
                 LstPrintf( " %" I64_SPEC "Xh ", sym->uvalue, sym->value3264 );
diff --git a/omf.c b/omf.c
index dfafd18..faab1a7 100644
--- a/omf.c
+++ b/omf.c
@@ -1679,5 +1679,8 @@ void omf_init( struct module_info *modinfo )
     ln_srcfile = modinfo->srcfile;
 #endif
     ln_size = 0;
+    /* the format of -Zi8 consists of COFF sections, use the one before it */
+    if ( Options.debug_symbols == 4 )
+        Options.debug_symbols = 2;
     return;
 }
-- 
2.43.0


From 201a43fbbda1e83520fd68ec24eda3965f39e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 046/114] fix: crashes of ALIGN, EVEX decoration, data items,
 SIMD symbols, text macros and record initializers

---
 codegen.c  | 2 +-
 data.c     | 4 ++--
 expreval.c | 3 ++-
 posndir.c  | 2 +-
 string.c   | 5 +++++
 symbols.c  | 2 +-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/codegen.c b/codegen.c
index 5ca9cbf..387f8fb 100644
--- a/codegen.c
+++ b/codegen.c
@@ -424,7 +424,7 @@ static void output_opc(struct code_info *CodeInfo)
     }
 
   if (CodeInfo->evex_flag == TRUE) {
-	  if (!(vex_flags[CodeInfo->token - VEX_START] & VX_LL))
+	  if (CodeInfo->token < VEX_START || !(vex_flags[CodeInfo->token - VEX_START] & VX_LL))
 		  EmitError(INVALID_COMBINATION_OF_OPCODE_AND_OPERANDS);
   }
     if (CodeInfo->token == T_VCMPSD || CodeInfo->token == T_VCMPSS){
diff --git a/data.c b/data.c
index 8a53334..8db03b9 100644
--- a/data.c
+++ b/data.c
@@ -1143,7 +1143,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
 #endif
                             )) {
                             fixup_type = FIX_OFF16;
-                            EmitErr( SYMBOL_TYPE_CONFLICT, sym->name );
+                            EmitErr( SYMBOL_TYPE_CONFLICT, opndx.sym ? opndx.sym->name : "" );
                         } else
 #endif
                             fixup_type = FIX_PTR16;
@@ -1508,7 +1508,7 @@ ret_code data_dir( int i, struct asm_tok tokenarray[], struct asym *type_sym )
     i++;
 
 	/* Enhanced Uasm 2.22+ Union initialize */
-	if (tokenarray[i].token == T_DOT && type_sym->state == SYM_TYPE)
+	if (tokenarray[i].token == T_DOT && type_sym && type_sym->state == SYM_TYPE)
 	{
 		i++; // skip dot.
 		// Check sub type.
diff --git a/expreval.c b/expreval.c
index 2e5bf34..751caf3 100644
--- a/expreval.c
+++ b/expreval.c
@@ -280,7 +280,8 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
          */
         index++;
 
-    } 
+    } else
+        return( EmitErr( SYNTAX_ERROR_EX, tokenarray[index].tokpos ) );
     if ( symtype->sym.typekind == TYPE_RECORD ) {
         dwRecInit = 0;
         dst128Hi = 0; /* clear Hi 64 bit for the 128 bit RECORD */
diff --git a/posndir.c b/posndir.c
index d8a82b3..a33bfcd 100644
--- a/posndir.c
+++ b/posndir.c
@@ -252,7 +252,7 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
     }
     if( align_value > seg_align ) {
         if (( Parse_Pass == PASS_1 )&&                   //We need 32 0r 64 bit for VEX and EVEX
-          (ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
+          (ModuleInfo.flat_grp == NULL || ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
 		if ( Parse_Pass == PASS_1 && ModuleInfo.Ofssize != USE64 )
             EmitWarn( 1, ALIGN_TOO_HIGH, myltoa( align_value, buffer, 10, FALSE, FALSE ) );
         //return( ERROR ); /* v2.0: don't exit */
diff --git a/string.c b/string.c
index 9478f2a..7065d22 100644
--- a/string.c
+++ b/string.c
@@ -366,6 +366,11 @@ struct asym *SetTextMacro( struct asm_tok tokenarray[], struct asym *sym, const
         /* the simplest case: value is a literal. define a text macro! */
         /* just ONE literal is allowed */
         if ( tokenarray[3].token != T_FINAL ) {
+            if ( sym->string_ptr == NULL ) { /* it's a text macro already */
+                sym->string_ptr = (char *)LclAlloc( 1 );
+                *sym->string_ptr = NULLC;
+                sym->total_size = 1;
+            }
             EmitErr( SYNTAX_ERROR_EX, tokenarray[3].tokpos );
             return( NULL );
         }
diff --git a/symbols.c b/symbols.c
index e970b45..259bc52 100644
--- a/symbols.c
+++ b/symbols.c
@@ -843,7 +843,7 @@ void SymSimd(struct dsym *sym)
 	uint_8 member3Valid = 0;
 	uint_8 member4Valid = 0;
 
-  if (pMember == NULL && sym->sym.typekind != TYPE_UNION) return;
+  if (pMember == NULL) return;
   memberCount = 0;
   sym->e.structinfo->isHomogenous = 1;
 
-- 
2.43.0


From cd09a918221decd0c13c72da4fb3e7d7eca5666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 047/114] fix: more than four Delphi arguments in 64-bit
 indexed past the register table; OMF line record mode was kept for the next
 module

---
 invoke.c | 3 ++-
 omf.c    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/invoke.c b/invoke.c
index eee7978..f417a4c 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3473,7 +3473,8 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	{
 		memset(&opnd, 0, sizeof(opnd)); /* not evaluated yet */
 		opnd.kind = EXPR_EMPTY;
-		if ( delphicall_tab[ModuleInfo.fctype].handleparam(proc, reqParam, curr, addr, &opnd, fullparam, r0flags) )
+		if ( ( ModuleInfo.fctype != FCT_WIN64 || reqParam < 4 ) && /* there are just 4 registers */
+			delphicall_tab[ModuleInfo.fctype].handleparam(proc, reqParam, curr, addr, &opnd, fullparam, r0flags) )
 			return(NOT_ERROR);
 	}
 
diff --git a/omf.c b/omf.c
index faab1a7..190ba65 100644
--- a/omf.c
+++ b/omf.c
@@ -1679,6 +1679,7 @@ void omf_init( struct module_info *modinfo )
     ln_srcfile = modinfo->srcfile;
 #endif
     ln_size = 0;
+    ln_is32 = 0;
     /* the format of -Zi8 consists of COFF sections, use the one before it */
     if ( Options.debug_symbols == 4 )
         Options.debug_symbols = 2;
-- 
2.43.0


From 427c1e58156d48cd14f06ea021478e3faf239163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 048/114] fix: OPTION FLAT kept the PE sub-format in later
 passes

---
 option.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/option.c b/option.c
index 02f9b24..ea4cad1 100644
--- a/option.c
+++ b/option.c
@@ -1246,9 +1246,11 @@ OPTFUNC(SetFlat)
 	if (Options.output_format != OFORMAT_BIN) {
 		/* the module has been initialized for another format */
 		Options.output_format = OFORMAT_BIN;
-		ModuleInfo.sub_format = SFORMAT_NONE;
+		Options.sub_format = SFORMAT_NONE;
 		bin_init(&ModuleInfo);
 	}
+	if (Options.sub_format == SFORMAT_NONE)
+		ModuleInfo.sub_format = SFORMAT_NONE;
 	ModuleInfo.curr_cpu = P_64p | P_AVX | P_CPU_MASK;
 	SetCPU(P_64p);
 	ModuleInfo.model = MODEL_FLAT;
-- 
2.43.0


From 35a46e8ba1b1635412df9c3259d19cf93280df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 049/114] fix: bad union subtype initializer without label
 dereferenced NULL

---
 data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.c b/data.c
index 8db03b9..d4c3c12 100644
--- a/data.c
+++ b/data.c
@@ -1530,7 +1530,7 @@ ret_code data_dir( int i, struct asm_tok tokenarray[], struct asym *type_sym )
 		}
 		if (!foundSubType)
 		{
-			return(EmitErr(INVALID_DATA_INITIALIZER, sym->name));
+			return(EmitErr(INVALID_DATA_INITIALIZER, sym ? sym->name : tokenarray[i].string_ptr));
 		}
 		else
 		{
-- 
2.43.0


From a4ae1f79e862ad5cb389c2f2ba14bab2223db45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 050/114] fix: a COMMENT left open at the end of the source
 inverted the later passes

---
 assemble.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assemble.c b/assemble.c
index ba84d1c..cff1890 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1230,6 +1230,7 @@ static int OnePass( void )
     evexflag = 0;
 	}
 
+    ModuleInfo.inside_comment = NULLC; /* a COMMENT may have been left open at the end of the source */
     if ( Parse_Pass > PASS_1 )
         SetSourceOptions( &passopt );
 #if FASTPASS
-- 
2.43.0


From 3797b30965df91ee89d23fd29f8e3d39f6044e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 051/114] fix: UTF-8 BOM test compared signed char; missing VEX
 register crashed process_register

---
 parser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 5bce800..cc15132 100644
--- a/parser.c
+++ b/parser.c
@@ -2118,6 +2118,8 @@ static ret_code process_register( struct code_info *CodeInfo, unsigned CurrOpnd,
     int                regno;
     uint_32            flags;
 
+    if ( opndx[CurrOpnd].base_reg == NULL )
+        return( EmitError( INVALID_INSTRUCTION_OPERANDS ) );
     regtok = opndx[CurrOpnd].base_reg->tokval;
     regno = GetRegNo( regtok );
     /* the register's "OP-flags" are stored in the 'value' field */
@@ -4131,8 +4133,8 @@ void ProcessFile( struct asm_tok tokenarray[] )
 
     if ( ModuleInfo.EndDirFound == FALSE && GetTextLine( CurrSource ) ) 
 	{
-		if (CurrSource[0] == 0xEF && CurrSource[1] == 0xBB && CurrSource[2] == 0xBF)
-			strcpy(CurrSource, &CurrSource[3]);
+		if (memcmp(CurrSource, "\xEF\xBB\xBF", 3) == 0)
+			memmove(CurrSource, &CurrSource[3], strlen(&CurrSource[3]) + 1);
 		do
 		{
 			if (PreprocessLine(CurrSource, tokenarray))
-- 
2.43.0


From c15080fc3fc43042aa7f30df342a3cb121c38367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 052/114] fix: angle brackets inside quoted strings of a macro
 body hid parameters

---
 macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macro.c b/macro.c
index 344af7b..25b926f 100644
--- a/macro.c
+++ b/macro.c
@@ -232,7 +232,9 @@ static int store_placeholders( char *line, struct mname_list *mnames )
                     p++;
                 break;
             case '<':
-                brlevel++;
+                /* a bracket inside a quoted string doesn't nest */
+                if (quote == NULLC)
+                    brlevel++;
                 break;
             case '>':
                 if (brlevel) {
-- 
2.43.0


From 5ee83310c6cdc988c97da8a0b8876960eb4de802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 053/114] fix: LENGTHOF of a nested structure or union was 0

---
 types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types.c b/types.c
index 1050703..a81bf15 100644
--- a/types.c
+++ b/types.c
@@ -1116,6 +1116,7 @@ ret_code EndstructDirective( int i, struct asm_tok tokenarray[] )
         //sym->name = dir->sym.name;
         //sym->name_size = strlen( dir->sym.name );
         sym->total_size = dir->sym.total_size;
+        sym->total_length = 1;
         dir->sym.name = ""; /* the type becomes anonymous */
         dir->sym.name_size = 0;
     }
-- 
2.43.0


From 76c7b301dc2dac43f51cccff31c79352807a78ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 054/114] fix: omitted field of a record left garbage in the
 upper half of a 64-bit record

---
 data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.c b/data.c
index d4c3c12..1cb7b25 100644
--- a/data.c
+++ b/data.c
@@ -315,7 +315,7 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                     EvalOperand( &j, tokenarray, max_item, &opndx, 0 );
                     is_record_set = TRUE;
                 } else {
-                    opndx.value = 0;
+                    opndx.llvalue = 0;
                     opndx.kind = EXPR_CONST;
                     opndx.quoted_string = NULL;
                 }
-- 
2.43.0


From e0373afe25f906f55b02e1640cfd71a6cd0bf054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:07 +0000
Subject: [PATCH 055/114] fix: record constants in expressions edited the
 source line: braces overran it, other operands were rejected

---
 expreval.c | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/expreval.c b/expreval.c
index 751caf3..986c4d4 100644
--- a/expreval.c
+++ b/expreval.c
@@ -263,9 +263,8 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
     char            buffer[MAX_LINE_LEN];
     char            buffer1[MAX_LINE_LEN];
     char            buff[16];
-	  int             tok_start = index - 1;
-	  int             len;
-	  char            *oldptr;
+    int             old_tokencount = Token_Count;
+    char            *old_stringbufferend = StringBufferEnd;
 
     /**/myassert( symtype->sym.state == SYM_TYPE && symtype->sym.typekind != TYPE_TYPEDEF );
     if ( tokenarray[index].token == T_STRING ) {
@@ -309,7 +308,7 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
                     EvalOperand( &j, tokenarray, max_item, &opndx, 0 );
                     is_record_set = TRUE;
                 } else {
-                    opndx.value = 0;
+                    opndx.llvalue = 0;
                     opndx.kind = EXPR_CONST;
                     opndx.quoted_string = NULL;
                 }
@@ -555,25 +554,13 @@ all:
         goto exit;
        }
      else{
-       strcpy(buffer, tokenarray->tokpos);
-       ptr = strstr(buffer, tokenarray[tok_start].string_ptr);
-       oldptr = ptr;
-       len = 0;
-       while (*ptr != '>')
-         {
-         ptr++;
-         len++;
-         }
-       ptr = tokenarray->tokpos + (oldptr - buffer);
-       for (i = 0; i <= len; i++)
-         *ptr++ = 0x20;
-       ptr = buffer;
-       sprintf(ptr, "0x%" PRIx64, dwRecInit);
-       oldptr = tokenarray->tokpos + (oldptr - buffer);
-       len = strlen(buffer);
-       for (i = 0; i < len; i++)
-         *oldptr++ = *ptr++;
-       Token_Count = Tokenize(tokenarray->tokpos, 0, tokenarray, TOK_DEFAULT);
+       /* the literal denotes a constant; the line remains as it is */
+       Token_Count = old_tokencount;
+       StringBufferEnd = old_stringbufferend;
+       opnd1->kind = EXPR_CONST;
+       opnd1->mem_type = MT_EMPTY;
+       opnd1->is_type = FALSE;
+       opnd1->type = NULL;
        goto exit;
        }
     }
@@ -1234,6 +1221,15 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
 #else
                 opnd->value = GetRecordMask( (struct dsym *)sym );
 #endif
+                /* a literal behind the name: a record constant */
+                if ( sym->mem_type != MT_OWORD && !opnd->is_opattr &&
+                    tokenarray[i+1].token == T_STRING &&
+                    ( tokenarray[i+1].string_delim == '<' || tokenarray[i+1].string_delim == '{' ) ) {
+                    if ( InitRecordVar( opnd, i+1, tokenarray, (struct dsym *)sym ) == ERROR )
+                        return( ERROR );
+                    if ( opnd->is_type == FALSE )
+                        (*idx)++; /* skip the literal */
+                }
             } else if ( ( sym->mem_type & MT_SPECIAL_MASK ) == MT_ADDRESS ) { /* v2.09: added */
                 if ( sym->mem_type == MT_PROC ) {
                     opnd->value = sym->total_size;
-- 
2.43.0


From 6533396b3d222ddb0451e1d987bc9abdf125d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 056/114] fix: REAL10 literals: zero with an exponent became an
 unnormal, exponent over- and underflow wrapped silently

---
 atofloat.c |  5 +++++
 tbyte.c    | 25 ++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/atofloat.c b/atofloat.c
index 7ce89d7..3977708 100644
--- a/atofloat.c
+++ b/atofloat.c
@@ -84,7 +84,12 @@ void atofloat( void *out, const char *inp, unsigned size, bool negative, uint_8
             *(double *)out = double_value;
             break;
         case 10:
+            errno = 0; /* errno is set on over- and under-flow */
             strtotb( inp, (struct TB_LD *)out, negative );
+            if ( errno == ERANGE ) {
+                DebugMsg(("atofloat(%s, 10): magnitude too large\n", inp ));
+                EmitErr( MAGNITUDE_TOO_LARGE_FOR_SPECIFIED_SIZE );
+            }
             break;
         default:
             /* sizes != 4,8 or 10 aren't accepted.
diff --git a/tbyte.c b/tbyte.c
index 85f1bf8..f58d0fd 100644
--- a/tbyte.c
+++ b/tbyte.c
@@ -60,7 +60,7 @@ union u96 {
 /* extended (112-bit, 96+16) long double */
 struct ELD {
     uint_32 m32[3];
-    unsigned short e;
+    int_32 e; /* wider than the final 15 bits: under- and overflow must stay visible */
 };
 
 #define EXPONENT_BIAS 0x3FFF
@@ -285,7 +285,7 @@ static int multiply( const struct ELD *op1, const struct ELD *op2, struct ELD *r
     union u192 r1;
     int_32 exp;
 
-    exp = (int_32)(op1->e & 0x7fff) + (int_32)(op2->e & 0x7fff) - EXPONENT_BIAS + 1;
+    exp = op1->e + op2->e - EXPONENT_BIAS + 1;
     r1.m64[0] = (uint_64)(op1->m32[0]) * (uint_64)(op2->m32[0]);
     r1.m64[1] = (uint_64)(op1->m32[1]) * (uint_64)(op2->m32[1]);
     r1.m64[2] = (uint_64)(op1->m32[2]) * (uint_64)(op2->m32[2]);
@@ -331,6 +331,10 @@ static int TB_create( union u96 *value, int_32 exponent, struct TB_LD *ld )
     int i;
     struct ELD res;
 
+    ld->m = 0;
+    ld->e = 0;
+    if( !U96ISNOTZERO( (*value) ) )
+        return( 0 ); /* zero, whatever the exponent is */
     if( exponent < 0 ) {
         exponent = -exponent;
         tabExp = tab_minus_exp;
@@ -347,18 +351,25 @@ static int TB_create( union u96 *value, int_32 exponent, struct TB_LD *ld )
     }
     if( exponent != 0 ) {
         /* exponent overflow */
+        errno = ERANGE;
+        return( 0 );
     }
-    ld->e = res.e;
     ld->m = res.m32[1] + ((uint_64)res.m32[2] << 32) ;
     /* round result */
     if( res.m32[0] & 0x80000000U ) {
         if( ld->m == MAXUI64 ) {
             ld->m = MAXUI64BIT;
-            ld->e++;
+            res.e++;
         } else {
             ld->m++;
         }
     }
+    if( res.e < 1 || res.e > 0x7ffe ) {
+        ld->m = 0;
+        errno = ERANGE;
+        return( 0 );
+    }
+    ld->e = res.e;
     return( 0 );
 }
 
@@ -457,7 +468,11 @@ struct TB_LD *strtotb( const char *p, struct TB_LD *ld, char negative )
             return( ld );
         }
         while ( (unsigned int)(*p - '0') < 10u )
-            exp_value = 10 * exp_value + (*p++ - '0');
+        {
+            if( exp_value < 100000000 )
+                exp_value = 10 * exp_value + (*p - '0');
+            p++;
+        }
         if( exp_sign < 0 )
             exp_value = -exp_value;
     }
-- 
2.43.0


From ce496f3a7e10c2443fe41518f69bbdac6ad1093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 057/114] fix: REAL4 literals were rounded twice (via double),
 and the values that round to FLT_MAX or FLT_MIN were refused

---
 atofloat.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atofloat.c b/atofloat.c
index 3977708..e32aad9 100644
--- a/atofloat.c
+++ b/atofloat.c
@@ -15,7 +15,7 @@
 #include "tbyte.h"
 #include "atofloat.h"
 
-#define USESTRTOF 0 /* 0=use strtod() and convert "manually", 1=use strtof() */
+#define USESTRTOF 1 /* 0=use strtod() and convert "manually" (rounds twice), 1=use strtof() */
 
 extern void myatoi128( const char *, uint_64[], int, int );
 
@@ -50,7 +50,8 @@ void atofloat( void *out, const char *inp, unsigned size, bool negative, uint_8
 #if USESTRTOF
             errno = 0;
             float_value = strtof( inp, NULL );
-            if ( errno == ERANGE ) {
+            /* denormals are refused (strtof() may accept exact ones), just like zero due to underflow */
+            if ( errno == ERANGE || float_value > FLT_MAX || ( float_value < FLT_MIN && float_value != 0 ) ) {
                 DebugMsg(("atofloat(%s, 4): magnitude too large\n", inp ));
                 EmitErr( MAGNITUDE_TOO_LARGE_FOR_SPECIFIED_SIZE );
             }
-- 
2.43.0


From c4f9fe05d83667653018cfb8bfb5e3c87f617c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 058/114] fix: integer initializers of REAL items were
 truncated to 32 bits and rounded to float; fatal error inside STRUCT
 definitions

---
 data.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/data.c b/data.c
index 1cb7b25..dae3f97 100644
--- a/data.c
+++ b/data.c
@@ -509,8 +509,15 @@ static void output_float( const struct expr *opnd, unsigned size )
     } 
 	else if (opnd->kind == EXPR_FLOATI)
 	{
-		snprintf(tstr, sizeof(tstr), "%f", opnd->fvalue);
-		atofloat( buffer, tstr, size, opnd->negative, 0 );
+		/* llvalue is the magnitude of an integer constant; up to 20 digits */
+		uint_64 value = opnd->llvalue;
+		char *p = tstr + sizeof( tstr ) - 1;
+		*p = NULLC;
+		do {
+			*--p = '0' + (char)( value % 10 );
+			value /= 10;
+		} while ( value );
+		atofloat( buffer, p, size, opnd->negative, 0 );
 	}
 	else {
         atofloat( buffer, opnd->float_tok->string_ptr, size, opnd->negative, opnd->float_tok->floattype );
@@ -756,12 +763,16 @@ next_item:  /* <--- continue scan if a comma has been detected */
         break;
     case EXPR_CONST:
         if ( is_float ) {
-			opndx.fvalue = (float)opndx.value;
+			if (opndx.hlvalue != 0 && opndx.hlvalue != ~(uint_64)0) {
+				return( EmitErr( INITIALIZER_OUT_OF_RANGE ) );
+			}
 			opndx.kind = EXPR_FLOATI;
-			opndx.negative = (opndx.fvalue < 0) ? 1 : 0;
+			opndx.negative = (opndx.value64 < 0) ? 1 : 0;
 			if (opndx.negative)
-				opndx.fvalue *= -1;
-			output_float( &opndx, no_of_bytes); /* Coerce const integer value to float in data definitions */
+				opndx.llvalue = 0 - opndx.llvalue;
+			opndx.mem_type = MT_EMPTY;
+			if (!inside_struct)
+				output_float( &opndx, no_of_bytes); /* Coerce const integer value to float in data definitions */
 			total++;
 			break;
             //return( EmitError( MUST_USE_FLOAT_INITIALIZER ) );
-- 
2.43.0


From e98607b917198ee9ffa16bbc64268568103034f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 059/114] fix: items of a typedef'd REAL type stored integer
 initializers as integers

---
 data.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/data.c b/data.c
index dae3f97..757b8f8 100644
--- a/data.c
+++ b/data.c
@@ -551,6 +551,14 @@ static void output_float( const struct expr *opnd, unsigned size )
  * 3. item size is 1 and a quoted string with len > 1 is used as initializer
  */
 
+/* an alias of a float type takes the same initializers as the type itself */
+static bool is_float_alias( const struct asym *type_sym )
+/*******************************************************/
+{
+    return( type_sym && type_sym->typekind == TYPE_TYPEDEF &&
+        ( type_sym->mem_type == MT_REAL4 || type_sym->mem_type == MT_REAL8 || type_sym->mem_type == MT_REAL10 ) );
+}
+
 static ret_code data_item( int *start_pos, struct asm_tok tokenarray[], struct asym *sym, uint_32 no_of_bytes, const struct asym *type_sym, uint_32 dup, bool inside_struct, bool is_float, bool first, int end )
 /***************************************************************************************************************************************************************************************************************/
 {
@@ -572,6 +580,9 @@ static ret_code data_item( int *start_pos, struct asm_tok tokenarray[], struct a
                no_of_bytes, type_sym ? type_sym->name : "NULL",
                dup, inside_struct, is_float ));
 
+    if ( is_float_alias( type_sym ) )
+        is_float = TRUE;
+
     for ( ; dup; dup-- ) {
     i = *start_pos;
 next_item:  /* <--- continue scan if a comma has been detected */
@@ -1510,8 +1521,10 @@ ret_code data_dir( int i, struct asm_tok tokenarray[], struct asym *type_sym )
             while ( type_sym->mem_type == MT_TYPE )
                 type_sym = type_sym->type;
             /* if it is just a type alias, skip the arbitrary type */
-            if ( type_sym->typekind == TYPE_TYPEDEF )
+            if ( type_sym->typekind == TYPE_TYPEDEF ) {
+                is_float = is_float_alias( type_sym );
                 type_sym = NULL;
+            }
         }
 
     }
-- 
2.43.0


From 677c862d6ced5661b9841389c6931f56c49eab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:58 +0000
Subject: [PATCH 060/114] fix: 8-bit, CX-like, control, MMX and FPU registers
 were accepted as base or index, vector registers outside of gather and
 scatter; both encoded another address

---
 expreval.c | 6 +++++-
 parser.c   | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index 986c4d4..efe09cc 100644
--- a/expreval.c
+++ b/expreval.c
@@ -1023,8 +1023,12 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
                 if ( opnd->is_opattr ) /* v2.11: just set error for opattr */
                     opnd->kind = EXPR_ERROR;
                 else
+                {
+                  /* besides the integer registers only RIP and (VSIB) vector registers address memory */
+                  if ( j != T_RIP && ( GetValueSp( j ) & ( OP_XMM | OP_YMM | OP_ZMM ) ) == 0 )
+                      return( fnEmitErr( MUST_BE_INDEX_OR_BASE_REGISTER ) );
                   opnd->indirect = TRUE;
-                    //return( fnEmitErr( MUST_BE_INDEX_OR_BASE_REGISTER ) );
+                }
             }
         }
         break;
diff --git a/parser.c b/parser.c
index cc15132..4ae9095 100644
--- a/parser.c
+++ b/parser.c
@@ -1737,6 +1737,12 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
     base = ( opndx->base_reg ? opndx->base_reg->tokval : EMPTY );
     index = ( opndx->idx_reg ? opndx->idx_reg->tokval : EMPTY );
 
+    /* vector registers address memory in gather and scatter instructions only */
+    if ( ( ( base != EMPTY && ( GetValueSp( base ) & ( OP_XMM | OP_YMM | OP_ZMM ) ) ) ||
+           ( index != EMPTY && ( GetValueSp( index ) & ( OP_XMM | OP_YMM | OP_ZMM ) ) ) ) &&
+         ( CodeInfo->token < T_VPGATHERDD || CodeInfo->token > T_VSCATTERQPD ) )
+        return( EmitError( AVX_INDEX_REGISTERS_NOT_ALLOWED_HERE ) );
+
     /* swap registers if base is AVX register, v2.38 */
     if (base != EMPTY && (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM))
 	{
-- 
2.43.0


From 9eeba884149c947102ee8412249ce8e6f569bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 061/114] fix: RIP with an index register and 16-bit index
 registers in 64-bit code were accepted

---
 parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.c b/parser.c
index 4ae9095..d7f49ca 100644
--- a/parser.c
+++ b/parser.c
@@ -1793,6 +1793,11 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
     /* check for index registers */
     if( index != EMPTY ) 
 	{
+        /* RIP never is nor has an index; 16bit addressing modes don't exist in long mode */
+        if ( ( base == T_RIP && swapped == FALSE ) || index == T_RIP )
+            return( EmitError( INVALID_USE_OF_REGISTER ) );
+        if ( ( GetValueSp( index ) & OP_R16) && CodeInfo->Ofssize == USE64 )
+            return( EmitError( INVALID_ADDRESSING_MODE_WITH_CURRENT_CPU_SETTING ) );
         if ( ( ( GetValueSp( index ) & OP_R32) && CodeInfo->Ofssize == USE32 ) ||
             ( ( GetValueSp( index ) & OP_R64) && CodeInfo->Ofssize == USE64 ) ||
             ( ( GetValueSp( index ) & OP_R16) && CodeInfo->Ofssize == USE16 ) || 
-- 
2.43.0


From 8479644a9bb7e2278c5ecb2e499e6efc7c48e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:35 +0000
Subject: [PATCH 062/114] fix: in the second pass, lines of a macro called
 right after an include were attributed to the include file

---
 H/fastpass.h | 3 ++-
 assemble.c   | 2 +-
 fastpass.c   | 7 ++-----
 input.c      | 3 +--
 4 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/H/fastpass.h b/H/fastpass.h
index 330e955..814aa34 100644
--- a/H/fastpass.h
+++ b/H/fastpass.h
@@ -29,7 +29,8 @@ struct equ_item {
 
 struct line_item {
     struct line_item *next;
-    uint_32 lineno:20, srcfile:12;
+    uint_32 lineno;
+    uint_32 srcfile:31, inmacro:1;
     uint_32 list_pos; /* position .LST file */
     char line[1];
 };
diff --git a/assemble.c b/assemble.c
index cff1890..16d7eab 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1245,7 +1245,7 @@ static int OnePass( void )
             set_curr_srcfile( LineStoreCurr->srcfile, LineStoreCurr->lineno );
             /* v2.06: list flags now initialized on the top level */
             ModuleInfo.line_flags = 0;
-            MacroLevel = ( LineStoreCurr->srcfile == 0xFFF ? 1 : 0 );
+            MacroLevel = LineStoreCurr->inmacro;
             DebugMsg1(("OnePass(%u) cur/nxt=%X/%X src=%X.%u mlvl=%u: >%s<\n", Parse_Pass+1, LineStoreCurr, LineStoreCurr->next, LineStoreCurr->srcfile, LineStoreCurr->lineno, MacroLevel, LineStoreCurr->line ));
             ModuleInfo.CurrComment = NULL; /* v2.08: added (var is never reset because GetTextLine() isn't called) */
 #if USELSLINE
diff --git a/fastpass.c b/fastpass.c
index a25d65f..20f9c17 100644
--- a/fastpass.c
+++ b/fastpass.c
@@ -85,11 +85,8 @@ void StoreLine( const char *srcline, int flags, uint_32 lst_position )
     LineStoreCurr = LclAlloc( i + j + sizeof( struct line_item ) );
     LineStoreCurr->next = NULL;
     LineStoreCurr->lineno = GetLineNumber();
-    if ( MacroLevel ) {
-        LineStoreCurr->srcfile = 0xfff;
-    } else {
-        LineStoreCurr->srcfile = get_curr_srcfile();
-    }
+    LineStoreCurr->inmacro = ( MacroLevel != 0 );
+    LineStoreCurr->srcfile = get_curr_srcfile();
     LineStoreCurr->list_pos = ( lst_position ? lst_position : list_pos );
     if ( j ) {
         memcpy( LineStoreCurr->line, srcline, i );
diff --git a/input.c b/input.c
index ec65140..f290c48 100644
--- a/input.c
+++ b/input.c
@@ -457,8 +457,7 @@ unsigned get_curr_srcfile( void )
 void set_curr_srcfile( unsigned file, uint_32 line_num )
 /******************************************************/
 {
-    if ( file != 0xFFF ) /* 0xFFF is the special value for macro lines */
-        src_stack->srcfile = file;
+    src_stack->srcfile = file;
     src_stack->line_num = line_num;
     return;
 }
-- 
2.43.0


From a59adadff1de9df61e13434eb79d8a249283409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 063/114] fix: 32-bit code: 16-bit addresses that name SI or DI
 before BX or BP lost the second register

---
 codegenv2.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index 08f0742..5d1993e 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1296,28 +1296,36 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	{
 		if (instr->memOpnd < NO_MEM)
 		{
+			struct asm_tok *base16 = opExpr[instr->memOpnd].base_reg;
+			struct asm_tok *idx16 = opExpr[instr->memOpnd].idx_reg;
+			/* the registers may be written in any order */
+			if (base16 && idx16 && (idx16->tokval == T_BX || idx16->tokval == T_BP))
+			{
+				base16 = idx16;
+				idx16 = opExpr[instr->memOpnd].base_reg;
+			}
 			/* [BX + SI]	[BX + DI]	[BP + SI]	[BP + DI]	[SI]	[DI]	[disp16]	[BX] */
-			if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BX && opExpr[instr->memOpnd].idx_reg->tokval == T_SI)
+			if (base16 && idx16 &&
+				base16->tokval == T_BX && idx16->tokval == T_SI)
 				* pmodRM |= 0;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BX && opExpr[instr->memOpnd].idx_reg->tokval == T_DI)
+			else if (base16 && idx16 &&
+				base16->tokval == T_BX && idx16->tokval == T_DI)
 				* pmodRM |= 1;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BP && opExpr[instr->memOpnd].idx_reg->tokval == T_SI)
+			else if (base16 && idx16 &&
+				base16->tokval == T_BP && idx16->tokval == T_SI)
 				* pmodRM |= 2;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].idx_reg &&
-				opExpr[instr->memOpnd].base_reg->tokval == T_BP && opExpr[instr->memOpnd].idx_reg->tokval == T_DI)
+			else if (base16 && idx16 &&
+				base16->tokval == T_BP && idx16->tokval == T_DI)
 				* pmodRM |= 3;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_SI)
+			else if (base16 && base16->tokval == T_SI)
 				* pmodRM |= 4;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_DI)
+			else if (base16 && base16->tokval == T_DI)
 				* pmodRM |= 5;
-			else if (!opExpr[instr->memOpnd].base_reg && !opExpr[instr->memOpnd].idx_reg)
+			else if (!base16 && !idx16)
 				* pmodRM |= 6;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BX)
+			else if (base16 && base16->tokval == T_BX)
 				* pmodRM |= 7;
-			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BP)
+			else if (base16 && base16->tokval == T_BP)
 			{
 				* pmodRM |= 6;
 				needDisp = TRUE;	/* [BP] can only be encoded with a displacement */
-- 
2.43.0


From 25567c667734d74372cedeb8791c4ea365c54d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:44 +0000
Subject: [PATCH 064/114] fix: .SWITCH: jump tables were wrong for more than 75
 entries, widely spread cases and cases above 32 bits

---
 hll.c | 492 ++++++++++++----------------------------------------------
 1 file changed, 98 insertions(+), 394 deletions(-)

diff --git a/hll.c b/hll.c
index f730074..443d1c2 100644
--- a/hll.c
+++ b/hll.c
@@ -136,7 +136,7 @@ struct hll_item {
   char                cflag;         /* SWITCH decision flag */
   int                 maxcase;
   int                 mincase;
-  int                 delta;
+  unsigned            delta;        /* maxcase - mincase */
   int                 maxalloccasen;
   int                 multicase;
   int                 *pcases;
@@ -349,7 +349,7 @@ static void bubblesort(struct hll_item *hll, uint_16 *lbl, int *src, int n) {
 
   hll->mincase = src[0];
   hll->maxcase = src[n - 1];
-  hll->delta = hll->maxcase - hll->mincase;
+  hll->delta = (unsigned)hll->maxcase - (unsigned)hll->mincase;
 }
 #if AMD64_SUPPORT 
 static void bubblesort64(struct hll_item *hll, uint_16 *lbl, int_64 *src, int n) {
@@ -376,9 +376,45 @@ static void bubblesort64(struct hll_item *hll, uint_16 *lbl, int_64 *src, int n)
 
   hll->mincase64 = src[0];
   hll->maxcase64 = src[n - 1];
-  hll->delta64 = hll->maxcase64 - hll->mincase64;
+  hll->delta64 = (uint_64)hll->maxcase64 - (uint_64)hll->mincase64;
 }
 #endif
+/* add an item to the line that defines a table of a .SWITCH.
+ * if the line is full, it's written to the line queue and a new one is started.
+ */
+static void AddTableItem(char *line, const char *directive, const char *item, int *pcnt)
+/**************************************************************************************/
+{
+  if (*pcnt >= 30) {
+    AddLineQueue(line);
+    strcpy(line, directive);
+    *pcnt = 0;
+  }
+  if (*pcnt)
+    strcat(line, ", ");
+  strcat(line, item);
+  (*pcnt)++;
+}
+
+/* render a number, which is decimal for any RADIX */
+static char *RenderNumber(int_64 value, char *dst)
+/************************************************/
+{
+  sprintf(dst, "%" I64_SPEC "dt", value);
+  return(dst);
+}
+
+/* distance of a (sorted) case to the lowest case */
+static int CaseDistance(const struct hll_item *hll, int idx)
+/**********************************************************/
+{
+#if AMD64_SUPPORT
+  if (hll->csize == 8)
+    return((int)(hll->pcases64[idx] - hll->mincase64));
+#endif
+  return(hll->pcases[idx] - hll->mincase);
+}
+
 /* render an instruction */
 static char *RenderInstr(char *dst, const char *instr, int start1, int end1, int start2, int end2, struct asm_tok tokenarray[])
 /*******************************************************************************************************************************/
@@ -1856,10 +1892,11 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
   int                 dcnt  = 0;
   int                 dsize = 0;
   uint_16             lbl;
-  int             swsize;
+  unsigned        swsize;
   char buff[16];
   char buffer[MAX_LINE_LEN * 16]; /* the code generated for a condition is longer than its source */
-  char unum[16];
+  char unum[24];
+  char defbuff[16];
 
   DebugMsg1(("HllEndDir(%s) enter\n", tokenarray[i].string_ptr));
 
@@ -1921,7 +1958,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
         if (hll->plabels) {
           if (hll->csize == 4) {
             bubblesort(hll, hll->plabels, hll->pcases, hll->casecnt);
-            if ((hll->delta * 4) <= (hll->casecnt * 4 + hll->casecnt * 2))
+            if (hll->delta <= hll->casecnt + hll->casecnt / 2)
               hll->cflag = 6;                   /* we need only jump table */
             else if (hll->delta < 256)
               hll->cflag = 4;                   /* we need both jump table and count table byte size */
@@ -1933,7 +1970,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
 #if AMD64_SUPPORT
           else if (ModuleInfo.Ofssize == USE64 && hll->csize == 8){     //USE64
               bubblesort64(hll, hll->plabels, hll->pcases64, hll->casecnt);
-              if ((hll->delta64 * 8) <= (hll->casecnt * 8 + hll->casecnt * 2))
+              if (hll->delta64 <= hll->casecnt + hll->casecnt / 4)
                 hll->cflag = 6;
               else if (hll->delta64 < 256)
                 hll->cflag = 4;
@@ -1946,406 +1983,73 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
           }
         }
       if (hll->cflag > 3) {
+          const char *tabdir = (ModuleInfo.Ofssize == USE32 ? " dd " : " dq ");
+
           lbl = 0;
-          /* reuse this routine for these 3 kind of cases */
-          if (hll->cflag == 4 || hll->cflag == 7){
-            AddLineQueue(" .data");                /* create a jump table in data section, not to polute the source code */
-            AddLineQueueX("ALIGN %d", dsize);
-            memset(buffer, 0, sizeof(buffer));     /* clear the buffer */
-            GetLabelStr(hll->labels[LDATA1], buff);/* this is the name ofthe jump table */
-            strcpy(buffer, buff);                  /* store the jump table label at the beggining of array */
-            if (ModuleInfo.Ofssize == USE32)
-              strcat(buffer, " dd ");                /* now we have ready start point for the array: @C0006 dd */
-            else
-              strcat(buffer, " dq ");                /* now we have ready start point for the array: @C0006 dq */
-            dcnt = 0;                              /* set the counter to zero to count how many elements in one line */
-            for (j = 0; j < hll->casecnt; j++,dcnt++) {
-              if (dcnt >= 75){                     /* if more than 20 labels in the line add a new row */
-                AddLineQueue(buffer);              /* @C0006 dd @C000C, @C000D, @C000E, @C000F, @C0010...*/
-                memset(buffer, 0, sizeof(buffer)); /* clear the buffer */
-                if (ModuleInfo.Ofssize == USE32)
-                  strcat(buffer, " dd ");                /* now we have ready start point for the array: @C0006 dd */
-                else
-                  strcat(buffer, " dq ");                /* now we have ready start point for the array: @C0006 dq */
-                dcnt = 0;                          /* reset data caunter */
-                }
-              if (hll->plabels[j] != lbl) {        /* prevent 'label already defined error' */
-                GetLabelStr(hll->plabels[j], buff);
-                if (dcnt) strcat(buffer, ", ");    /* we need comma before next element, but not first one */
-                strcat(buffer, buff);              /* add the address in the array */
+          AddLineQueue(" .data");                  /* create a jump table in data section, not to polute the source code */
+          AddLineQueueX("ALIGN %d", dsize);
+          GetLabelStr(hll->labels[LDATA1], buffer);/* this is the name of the jump table */
+          strcat(buffer, tabdir);                  /* now we have ready start point for the array: @C0006 dd */
+          dcnt = 0;                                /* counts how many elements are in one line */
+          if (hll->flags & HLLF_DEFAULTOCCURED)
+            GetLabelStr(hll->labels[LDEF], defbuff);
+          else
+            GetLabelStr(hll->labels[LEXIT], defbuff);
+
+          if (hll->cflag == 4 || hll->cflag == 7) {
+            for (j = 0; j < hll->casecnt; j++) {
+              if (hll->plabels[j] != lbl) {        /* the address of a block of cases is written once */
+                AddTableItem(buffer, tabdir, GetLabelStr(hll->plabels[j], buff), &dcnt);
                 acnt++;
                 }
               lbl = hll->plabels[j];               /* remember the last written address */
               }
-              if (hll->flags & HLLF_DEFAULTOCCURED)
-                GetLabelStr(hll->labels[LDEF], buff);
-              else
-                GetLabelStr(hll->labels[LEXIT], buff);
-                if (dcnt && dcnt < 75){
-                  strcat(buffer, ", ");
-                  strcat(buffer, buff);
-                }
-              AddLineQueue(buffer);                  /* write line with the last array */
-          } 
-          /* here is created data for calculating jumps  */
-          if (hll->cflag == 4 ) { 
-            memset(buffer, 0, sizeof(buffer));     /* clear the buffer */
-            GetLabelStr(hll->labels[LDATA2], buff);/* this is the name ofthe jump count table */
-            strcpy(buffer, buff);                  /* @C0008  */
-            strcat(buffer, " db ");                /* @C0008 db */
-            n = 0;
-            dcnt = 0; 
-            for (j = 0; j < hll->casecnt; j++,dcnt++) {
-              if (dcnt >= 75){                     /* if more than 20 labels in the line add a new row */
-                if (buffer[4] == ',') buffer[4] = ' ';
-                AddLineQueue(buffer);              /* @C0008 db 1, 2, 3, 4, 5...*/
-                memset(buffer, 0, sizeof(buffer)); /* clear the buffer */
-                strcpy(buffer, " db ");            /* now start with db 11, 12, 13, @C0014, @C0015...*/
-                dcnt = 0;                          /* reset data caunter */
-                }
-              if (hll->csize == 4)
-                temp = (int)hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
-#if AMD64_SUPPORT
-              else if (ModuleInfo.Ofssize == USE64 && hll->csize == 8)
-                temp = (int)hll->pcases64[j] - hll->mincase64;/* temp contains case EG: .case 4, n contains  */
-#endif
-              while (n < temp) {                   /* fill the space between 2 cases with the .default */
-              if (dcnt) 
-                sprintf(unum, ",%d", acnt);           /* if it is not first number we need comma before it */
-              else 
-                sprintf(unum, "%d", acnt);            /* acnt contains exit or default number in this case '5' */
-                strcat(buffer, unum);
-                n++;
-                dcnt++;
-                if (dcnt >= 75){                     /* if more than 20 labels in the line add a new row */
-                  if (buffer[4] == ',') buffer[4] = ' ';
-                  AddLineQueue(buffer);              /* @C0008 db 1, 2, 3, 4, 5...*/
-                  memset(buffer, 0, sizeof(buffer)); /* clear the buffer */
-                  strcpy(buffer, " db ");            /* now start with db 11, 12, 13, @C0014, @C0015...*/
-                  dcnt = 0;                          /* reset data caunter */
-                  }
-                }
-              if (n) 
-                sprintf(unum, ",%d", bcnt);           /* bcnt contains actual case number in this case 1,2,3,4 */
-              else 
-                sprintf(unum, "%d", bcnt);
-              strcat(buffer, unum);
-              n++;
+            AddTableItem(buffer, tabdir, defbuff, &dcnt);
+            AddLineQueue(buffer);                  /* write line with the last array */
+            /* the numbers of the addresses, for all values from the lowest to the highest case */
+            tabdir = (hll->cflag == 4 ? " db " : " dw ");
+            GetLabelStr(hll->labels[LDATA2], buffer);/* this is the name of the jump count table */
+            strcat(buffer, tabdir);                /* @C0008 db */
+            dcnt = 0;
+            for (j = 0, n = 0; j < hll->casecnt; j++, n++) {
+              for (temp = CaseDistance(hll, j); n < temp; n++) /* fill the space between 2 cases with the .default */
+                AddTableItem(buffer, tabdir, RenderNumber(acnt, unum), &dcnt);
+              AddTableItem(buffer, tabdir, RenderNumber(bcnt, unum), &dcnt);
               if (j + 1 < hll->casecnt && hll->plabels[j] != hll->plabels[j + 1])
                 bcnt++;
               }
-            if (buffer[4] == ',') buffer[4] = ' ';
             AddLineQueue(buffer);                  /* @C0008 db 0,1,2,5,5,3,5,5,5,5,5,5,5,5,4 */
-            AddLineQueue(".code");                 /* continue with code section */
-          }
-          if (hll->cflag == 5) {
-            AddLineQueue(" .data");                /* create a jump table in data section, not to polute the source code */
-            AddLineQueueX("ALIGN %d", dsize);
-            memset(buffer, 0, sizeof(buffer));     /* clear the buffer */
-            GetLabelStr(hll->labels[LDATA1], buff);/* this is the name ofthe jump table */
-            strcpy(buffer, buff);                  /* store the jump table label at the beggining of array */
-            if (ModuleInfo.Ofssize == USE32)
-              strcat(buffer, " dd ");                /* now we have ready start point for the array: @C0006 dd */
-            else
-              strcat(buffer, " dq ");                /* now we have ready start point for the array: @C0006 dq */
-            dcnt = 0;                              /* set the counter to zero to count how many elements in one line */
-            for (j = 0; j < hll->casecnt; ) {
-              if (dcnt >= 15){                     /* if more than 20 labels in the line add a new row */
-                AddLineQueue(buffer);              /* @C0006 dd @C000C, @C000D, @C000E, @C000F, @C0010...*/
-                memset(buffer, 0, sizeof(buffer)); /* clear the buffer */
-                if (ModuleInfo.Ofssize == USE32)
-                  strcat(buffer, " dd ");                /* now we have ready start point for the array: @C0006 dd */
-                else
-                  strcat(buffer, " dq ");                /* now we have ready start point for the array: @C0006 dq */
-                dcnt = 0;                          /* reset data caunter */
-                }
-              else {        
-                GetLabelStr(hll->plabels[j], buff);
-                if (dcnt) strcat(buffer, ", ");    /* we need comma before next element, but not first one */
-                strcat(buffer, buff);              /* add the address in the array */
-                dcnt++;
-                j++;
-                }
-              }
-             if (buffer[4] == ',')buffer[4] = ' ';
-            // else if (buffer[10] == ',')buffer[10] = ' ';
-             if (buffer[4] > 0) 
-               AddLineQueue(buffer);                  /* write line with the last array */
-             /* labels are done, now write cases */
-            memset(buffer, 0, sizeof(buffer));
-            GetLabelStr(hll->labels[LDATA2], buff);
-            strcpy(buffer, buff);
-            dcnt = 0; 
-            if (hll->csize == 4){
-              strcat(buffer, " dd ");
-              for (j = 0; j < hll->casecnt;){
-                if (dcnt >= 30){                     /* if more than 35 cases in the line add a new row */
-                  if (buffer[4] == ',') buffer[4] = ' ';
-                  AddLineQueue(buffer);              /* @C0008 db 1, 2, 3, 4, 5...*/
-                  memset(buffer, 0, sizeof(buffer)); /* clear the buffer */
-                  strcpy(buffer, " dd ");            /* now start with db 11, 12, 13, @C0014, @C0015...*/
-                  dcnt = 0;                          /* reset data caunter */
-                  }
-                  if (dcnt)
-                    sprintf(unum, ",%d", hll->pcases[j]);
-                  else
-                    sprintf(unum, "%d", hll->pcases[j]);
-                  strcat(buffer, unum);
-                  dcnt++;
-                  j++;
-              }
-              if (buffer[4] == ',') buffer[4] = ' ';
-              if (buffer[4] > 0)  AddLineQueue(buffer);
-              AddLineQueue(".code");
-              }
-#if AMD64_SUPPORT
-            else if (ModuleInfo.Ofssize == USE64 && hll->csize == 8){
-                strcat(buffer, " dq ");
-              for (j = 0; j < hll->casecnt;){
-                if (dcnt >= 30){                     /* if more than 35 cases in the line add a new row */
-                  if (buffer[4] == ',') buffer[4] = ' ';
-                  AddLineQueue(buffer);              /* @C0008 db 1, 2, 3, 4, 5...*/
-                  memset(buffer, 0, sizeof(buffer)); /* clear the buffer */
-                  strcpy(buffer, " dq ");            /* now start with db 11, 12, 13, @C0014, @C0015...*/
-                  dcnt = 0;                          /* reset data caunter */
-                  }
-                  if (dcnt)
-                    sprintf(unum, ",%d", hll->pcases64[j]);
-                  else
-                    sprintf(unum, "%d", hll->pcases64[j]);
-                  strcat(buffer, unum);
-                  dcnt++;
-                  j++;
-              }
-              if (buffer[4] == ',') buffer[4] = ' ';
-              if (buffer[4] > 0) AddLineQueue(buffer);
-              AddLineQueue(".code");
-              }
-          }
-#endif
-          /* this is the same as hll->cflag == 4 but it alows a word counter
-          *  so, it is possible to have more cases instead of 256, but we have
-          *  limited it to 512, not to bloat the data */
-          if (hll->cflag == 7 ) { 
-            memset(buffer, 0, sizeof(buffer));     /* clear the buffer */
-            GetLabelStr(hll->labels[LDATA2], buff);/* this is the name ofthe jump count table */
-            strcpy(buffer, buff);                  /* @C0008  */
-            strcat(buffer, " dw ");                /* @C0008 db */
-            n = 0;
-            dcnt = 0; 
-            for (j = 0; j < hll->casecnt; j++,dcnt++) {
-              if (dcnt >= 75){                     /* if more than 20 labels in the line add a new row */
-                if (buffer[4] == ',') buffer[4] = ' ';
-                AddLineQueue(buffer);              /* @C0008 db 1, 2, 3, 4, 5...*/
-                memset(buffer, 0, sizeof(buffer)); /* clear the buffer */
-                strcpy(buffer, " dw ");            /* now start with db 11, 12, 13, @C0014, @C0015...*/
-                dcnt = 0;                          /* reset data caunter */
-                }
-              if (hll->csize == 4)
-                temp = hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
+            }
+          else if (hll->cflag == 5) {
+            for (j = 0; j < hll->casecnt; j++)
+              AddTableItem(buffer, tabdir, GetLabelStr(hll->plabels[j], buff), &dcnt);
+            AddLineQueue(buffer);
+            /* labels are done, now write cases */
+            tabdir = (hll->csize == 4 ? " dd " : " dq ");
+            GetLabelStr(hll->labels[LDATA2], buffer);
+            strcat(buffer, tabdir);
+            dcnt = 0;
+            for (j = 0; j < hll->casecnt; j++) {
 #if AMD64_SUPPORT
-              else if (hll->csize == 8)
-                temp = hll->pcases64[j] - hll->mincase64;/* temp contains case EG: .case 4, n contains  */
+              if (hll->csize == 8)
+                AddTableItem(buffer, tabdir, RenderNumber(hll->pcases64[j], unum), &dcnt);
+              else
 #endif
-              while (n < temp) {                   /* fill the space between 2 cases with the .default */
-              if (dcnt) 
-                sprintf(unum, ",%d", acnt);           /* if it is not first number we need comma before it */
-              else 
-                sprintf(unum, "%d", acnt);            /* acnt contains exit or default number in this case '5' */
-                strcat(buffer, unum);
-                n++;
-                dcnt++;
-                if (dcnt >= 75){                     /* if more than 20 labels in the line add a new row */
-                  if (buffer[4] == ',') buffer[4] = ' ';
-                  AddLineQueue(buffer);              /* @C0008 db 1, 2, 3, 4, 5...*/
-                  memset(buffer, 0, sizeof(buffer)); /* clear the buffer */
-                  strcpy(buffer, " dw ");            /* now start with db 11, 12, 13, @C0014, @C0015...*/
-                  dcnt = 0;                          /* reset data caunter */
-                  }
-                }
-              if (n) 
-                sprintf(unum, ",%d", bcnt);           /* bcnt contains actual case number in this case 1,2,3,4 */
-              else 
-                sprintf(unum, "%d", bcnt);
-              strcat(buffer, unum);
-              n++;
-              if (j + 1 < hll->casecnt && hll->plabels[j] != hll->plabels[j + 1])
-                bcnt++;
+                AddTableItem(buffer, tabdir, RenderNumber(hll->pcases[j], unum), &dcnt);
               }
-            if (buffer[4] == ',') buffer[4] = ' ';
-            strcat(buffer, unum);
-            AddLineQueue(buffer);                  /* @C0008 db 0,1,2,5,5,3,5,5,5,5,5,5,5,5,4 */
-            AddLineQueue(".code");                 /* continue with code section */
-          }
-          else if (hll->cflag == 6) {
-            AddLineQueue(" .data");
-            AddLineQueueX("ALIGN %d", dsize);
-            memset(buffer, 0, sizeof(buffer));
-            GetLabelStr(hll->labels[LDATA1], buff);
-            strcpy(buffer, buff);
-            dcnt = 0;
-            if (ModuleInfo.Ofssize == USE32){
-              strcat(buffer, " dd ");
-              for (j = 0, n = 0; j < hll->casecnt; j++) {
-                /* if more than 75 labels add a new row */
-                if (dcnt >= 75){
-                    if (buffer[4] == ',')buffer[4] = ' ';
-                    else if (buffer[10] == ',')buffer[10] = ' ';
-                  AddLineQueue(buffer);
-                  memset(buffer, 0, sizeof(buffer));
-                  strcpy(buffer, " dd ");
-                  dcnt = 0;
-                  }
-                  if (hll->csize == 4){
-                    temp = hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
-                    }
-                  if (hll->flags & HLLF_DEFAULTOCCURED)
-                    GetLabelStr(hll->labels[LDEF], buff);
-                  else
-                    GetLabelStr(hll->labels[LEXIT], buff);
-                  while (n < temp) {
-                    if (dcnt < 75){
-                      strcat(buffer, ", ");
-                      strcat(buffer, buff);
-                      //dcnt++;     22/9
-                      }
-                    else{
-                      strcat(buffer, ", ");
-                      strcat(buffer, buff);
-                      if (buffer[4] == ',')buffer[4] = ' ';
-                      else if (buffer[10] == ',')buffer[10] = ' ';
-                      AddLineQueue(buffer);
-                      memset(buffer, 0, sizeof(buffer));
-                      strcpy(buffer, " dd ");
-                      dcnt = 0;
-                      }
-                  dcnt++;
-                  n++;
-                  }
-                GetLabelStr(hll->plabels[j], buff);
-                    if (dcnt < 75){
-                      strcat(buffer, ", ");
-                      strcat(buffer, buff);
-                      }
-                    else{
-                      if (buffer[4] == ',')buffer[4] = ' ';
-                      else if (buffer[10] == ',')buffer[10] = ' ';
-                      AddLineQueue(buffer);
-                      memset(buffer, 0, sizeof(buffer));
-                      strcpy(buffer, " dd ");
-                      dcnt = 0;
-                      }
-                n++;
-                dcnt++;
-                }
-              if (hll->flags & HLLF_DEFAULTOCCURED)
-                GetLabelStr(hll->labels[LDEF], buff);
-              else
-                GetLabelStr(hll->labels[LEXIT], buff);
-                    if (dcnt < 75){
-                      strcat(buffer, ", ");
-                      strcat(buffer, buff);
-                      }
-                    else{
-                      strcat(buffer, ", ");
-                      strcat(buffer, buff);
-                      if (buffer[4] == ',')buffer[4] = ' ';
-                      else if (buffer[10] == ',')buffer[10] = ' ';
-                      AddLineQueue(buffer);
-                      memset(buffer, 0, sizeof(buffer));
-                      strcpy(buffer, " dd ");
-                      dcnt = 0;
-                      }
-                if (buffer[4] == ',')buffer[4] = ' ';
-                else if (buffer[10] == ',')buffer[10] = ' ';
-                if (buffer[4] > 0) AddLineQueue(buffer);  //22/9
-                AddLineQueue(".code");
+            AddLineQueue(buffer);
+            }
+          else {
+            /* addresses for all values from the lowest to the highest case */
+            for (j = 0, n = 0; j < hll->casecnt; j++, n++) {
+              for (temp = CaseDistance(hll, j); n < temp; n++)
+                AddTableItem(buffer, tabdir, defbuff, &dcnt);
+              AddTableItem(buffer, tabdir, GetLabelStr(hll->plabels[j], buff), &dcnt);
               }
-#if AMD64_SUPPORT
-              else if (ModuleInfo.Ofssize == USE64){
-                strcat(buffer, " dq ");
-                for (j = 0, n = 0; j < hll->casecnt; j++) {
-                  /* if more than 20 labels add a new row */
-                  if (dcnt >= 75){
-                    if (buffer[4] == ',')buffer[4] = ' ';
-                    else if (buffer[10] == ',')buffer[10] = ' ';
-                    AddLineQueue(buffer);
-                    memset(buffer, 0, sizeof(buffer));
-                    strcpy(buffer, " dq ");
-                    dcnt = 0;
-                    }
-                  if (hll->csize == 4){
-                    temp = hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
-                    }
-#if AMD64_SUPPORT
-                  else if (hll->csize == 8){
-                    temp = hll->pcases64[j] - hll->mincase64;/* temp contains case EG: .case 4, n contains  */
-                    }
-#endif
-                  if (hll->flags & HLLF_DEFAULTOCCURED)
-                    GetLabelStr(hll->labels[LDEF], buff);
-                  else
-                    GetLabelStr(hll->labels[LEXIT], buff);
-                  while (n < temp) {
-                    if (dcnt <= 75){
-                      strcat(buffer, ", ");
-                      strcat(buffer, buff);
-                      dcnt++;
-                      }
-                    else{
-                      strcat(buffer, ", ");
-                      strcat(buffer, buff);
-                      if (buffer[4] == ',')buffer[4] = ' ';
-                      else if (buffer[10] == ',')buffer[10] = ' ';
-                      AddLineQueue(buffer);
-                      memset(buffer, 0, sizeof(buffer));
-                      strcpy(buffer, " dq ");
-                      dcnt = 0;
-                      }
-                    dcnt++;
-                    n++;
-                    }
-                  GetLabelStr(hll->plabels[j], buff);
-                    if (dcnt <= 75){
-                      strcat(buffer, ", ");
-                      strcat(buffer, buff);
-                      }
-                    else{
-                      if (buffer[4] == ',')buffer[4] = ' ';
-                      else if (buffer[10] == ',')buffer[10] = ' ';
-                      AddLineQueue(buffer);
-                      memset(buffer, 0, sizeof(buffer));
-                      strcpy(buffer, " dq ");
-                      dcnt = 0;
-                      }
-                  n++;
-                  dcnt++;
-                  }
-                if (hll->flags & HLLF_DEFAULTOCCURED)
-                  GetLabelStr(hll->labels[LDEF], buff);
-                else
-                  GetLabelStr(hll->labels[LEXIT], buff);
-                    if (dcnt <= 75){
-                      strcat(buffer, ", ");
-                      strcat(buffer, buff);
-                      }
-                    else{
-                      strcat(buffer, ", ");
-                      strcat(buffer, buff);
-                      if (buffer[4] == ',')buffer[4] = ' ';
-                      else if (buffer[10] == ',')buffer[10] = ' ';
-                      AddLineQueue(buffer);
-                      memset(buffer, 0, sizeof(buffer));
-                      strcpy(buffer, " dq ");
-                      dcnt = 0;
-                      }
-                if (buffer[4] == ',')buffer[4] = ' ';
-                else if (buffer[10] == ',')buffer[10] = ' ';
-                AddLineQueue(buffer);
-                AddLineQueue(".code");
-             }
-#endif
-          }
+            AddTableItem(buffer, tabdir, defbuff, &dcnt);
+            AddLineQueue(buffer);
+            }
+          AddLineQueue(".code");                   /* continue with code section */
       }
       /* these are code that are inserted to calculate and perform jumps */
       if (hll->cflag == 1) {
-- 
2.43.0


From 7c73cf2fe47f86ca8abb41a5e58ec4142c9ac6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 065/114] fix: .SWITCH in C style: a .CASE after code without
 .BREAK was no entry, the last block ran into the selecting code

---
 hll.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/hll.c b/hll.c
index 443d1c2..0a9ab27 100644
--- a/hll.c
+++ b/hll.c
@@ -1936,11 +1936,10 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
       i++;
       if (ModuleInfo.Ofssize == USE32) dsize = 4;
       else dsize = 8;
-      if (ModuleInfo.switch_style == ASMSWITCH) {
-        if (hll->labels[LEXIT] == 0)
-          hll->labels[LEXIT] = GetHllLabel();
-        AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LEXIT], buff));
-        }
+      /* the code of the last block must not run into the code that selects the case */
+      if (hll->labels[LEXIT] == 0)
+        hll->labels[LEXIT] = GetHllLabel();
+      AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LEXIT], buff));
       if (hll->labels[LDEF] == 0) {
         hll->labels[LDEF] = GetHllLabel();
         AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LDEF], buff));
@@ -2052,7 +2051,11 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
           AddLineQueue(".code");                   /* continue with code section */
       }
       /* these are code that are inserted to calculate and perform jumps */
-      if (hll->cflag == 1) {
+      if (hll->casecnt == 0) {
+        if (hll->flags & HLLF_DEFAULTOCCURED)
+          AddLineQueueX("jmp  %s", GetLabelStr(hll->labels[LDEF], buff));
+        }
+      else if (hll->cflag == 1) {
         if (hll->csize == 4) {
           AddLineQueueX("cmp  eax,%d", hll->pcases[0]);
           AddLineQueueX("je  %s", GetLabelStr(hll->plabels[0], buff));
@@ -2657,6 +2660,9 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
           hll->multicase++;                                          /* increase counter */
         }
     }
+    /* C style: each .CASE is an entry, even if the code of the previous one has no .BREAK */
+    if (ModuleInfo.switch_style != ASMSWITCH)
+      hll->breakoccured = TRUE;
     for (;;) {
       if (hll->breakoccured) {
         hll->labels[LTEST] = GetHllLabel();
-- 
2.43.0


From f46d1ef220d45296514278997a4f2e094f24e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 066/114] fix: .IF, .WHILE, .UNTIL: nested && and || and
 constants in conditions gave wrong jumps or undefined labels

---
 hll.c | 282 ++++++++++++++--------------------------------------------
 1 file changed, 65 insertions(+), 217 deletions(-)

diff --git a/hll.c b/hll.c
index 0a9ab27..24ae443 100644
--- a/hll.c
+++ b/hll.c
@@ -151,12 +151,7 @@ struct hll_item {
 #endif
 };
 
-/* v2.08: struct added */
-struct hll_opnd {
-  char    *lastjmp;
-  uint_32 lasttruelabel; /* v2.08: new member */
-};
-static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok[], int ilabel, bool is_true, char *buffer, struct hll_opnd *);
+static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok[], uint_32 label, bool is_true, char *buffer);
 
 /* c binary ops.
 * Order of items COP_EQ - COP_LE  and COP_ZERO - COP_OVERFLOW
@@ -616,7 +611,7 @@ static uint_32 GetLabel(struct hll_item *hll, int index)
 * 3. unary operator "!" + one token
 * 4. one token (short form for "<token> != 0")
 */
-static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
+static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], uint_32 label, bool is_true, char *buffer)
 /**************************************************************************************************************************************************************/
 {
   enum c_bop op;
@@ -628,7 +623,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
   char *p;
   struct expr op1;
   struct expr op2;
-  uint_32 label;
 
   DebugMsg1(("%u GetSimpleExpression(>%.32s< buf=>%s<) enter\n", evallvl, tokenarray[*i].tokpos, buffer));
 
@@ -659,7 +653,7 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
     if (brcnt) {
       (*i)++;
       DebugMsg1(("%u GetSimpleExpression: calling GetExpression, i=%u\n", evallvl, *i));
-      if (ERROR == GetExpression(hll, i, tokenarray, ilabel, is_true, buffer, hllop))
+      if (ERROR == GetExpression(hll, i, tokenarray, label, is_true, buffer))
         return(ERROR);
 
       if (tokenarray[*i].token != T_CL_BRACKET) {
@@ -690,8 +684,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
   else if (op != COP_NONE)
     (*i)++;
 
-  label = GetLabel(hll, ilabel);
-
   DebugMsg1(("%u GetSimpleExpression: EvalOperand ok, kind=%X, i=%u [%s]\n", evallvl, op1.kind, *i, tokenarray[*i].tokpos));
 
   /* check for special operators with implicite operand:
@@ -703,7 +695,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       return(EmitError(SYNTAX_ERROR_IN_CONTROL_FLOW_DIRECTIVE));
     }
     p = buffer;
-    hllop->lastjmp = p;
     RenderJcc(p, flaginstr[op - COP_ZERO], !is_true, label);
     return(NOT_ERROR);
   }
@@ -722,14 +713,12 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
     case EXPR_REG:
       if (op1.indirect == FALSE) {
         p = RenderInstr(buffer, "test", op1_pos, op1_end, op1_pos, op1_end, tokenarray);
-        hllop->lastjmp = p;
         RenderJcc(p, 'z', is_true, label);
         break;
       }
       /* no break */
     case EXPR_ADDR:
       p = RenderInstr(buffer, "cmp", op1_pos, op1_end, EMPTY, 0, tokenarray);
-      hllop->lastjmp = p;
       RenderJcc(p, 'z', is_true, label);
       break;
     case EXPR_CONST:
@@ -743,8 +732,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       if (op1.hvalue != 0 && op1.hvalue != -1)
         return(EmitConstError(&op1));
 
-      hllop->lastjmp = buffer;
-
       if ((is_true == TRUE && op1.value) ||
         (is_true == FALSE && op1.value == 0)) {
         sprintf(buffer, "jmp " LABELFMT EOLSTR, label);
@@ -777,7 +764,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
 
   if (op == COP_ANDB) {
     p = RenderInstr(buffer, "test", op1_pos, op1_end, op2_pos, op2_end, tokenarray);
-    hllop->lastjmp = p;
     RenderJcc(p, 'e', is_true, label);
   }
   else if (op <= COP_LE) { /* ==, !=, >, <, >= or <= operator */
@@ -863,7 +849,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       p = RenderInstr(buffer, "cmp", op1_pos, op1_end, op2_pos, op2_end, tokenarray);
     }
     instr = ((IS_SIGNED(op1.mem_type) || IS_SIGNED(op2.mem_type)) ? signed_cjmptype[op - COP_EQ] : unsigned_cjmptype[op - COP_EQ]);
-    hllop->lastjmp = p;
     RenderJcc(p, instr, neg_cjmptype[op - COP_EQ] ? is_true : !is_true, label);
   }
   else {
@@ -873,240 +858,105 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
   return(NOT_ERROR);
 }
 
-/* invert a Jump:
-* - Jx  -> JNx (x = e|z|c|s|p|o )
-* - JNx -> Jx  (x = e|z|c|s|p|o )
-* - Ja  -> Jbe, Jae -> Jb
-* - Jb  -> Jae, Jbe -> Ja
-* - Jg  -> Jle, Jge -> Jl
-* - Jl  -> Jge, Jle -> Jg
-* added in v2.11:
-* - jmp -> 0
-* - 0   -> jmp
+/* is there another operator <op> - && or || - in the current (sub)expression?
+* an && expression ends at an || operator.
 */
-static void InvertJump(char *p)
-/*******************************/
+static bool IsOperatorAhead(struct asm_tok tokenarray[], int i, enum c_bop op)
+/****************************************************************************/
 {
-  if (*p == NULLC) { /* v2.11: convert 0 to "jmp" */
-    strcpy(p, "jmp ");
-    return;
-  }
-
-  p++;
-  if (*p == 'e' || *p == 'z' || *p == 'c' || *p == 's' || *p == 'p' || *p == 'o') {
-    *(p + 1) = *p;
-    *p = 'n';
-    return;
-  }
-  else if (*p == 'n') {
-    *p = *(p + 1);
-    *(p + 1) = ' ';
-    return;
-  }
-  else if (*p == 'a') {
-    *p++ = 'b';
-  }
-  else if (*p == 'b') {
-    *p++ = 'a';
-  }
-  else if (*p == 'g') {
-    *p++ = 'l';
-  }
-  else if (*p == 'l') {
-    *p++ = 'g';
-  }
-  else {
-    /* v2.11: convert "jmp" to 0 */
-    if (*p == 'm') {
-      p--;
-      *p = NULLC;
+  int brcnt = 0;
+  enum c_bop curr;
+
+  for (; tokenarray[i].token != T_FINAL; i++) {
+    if (tokenarray[i].token == T_OP_BRACKET)
+      brcnt++;
+    else if (tokenarray[i].token == T_CL_BRACKET) {
+      if (--brcnt < 0)
+        break;
+    }
+    else if (brcnt == 0) {
+      curr = GetCOp(&tokenarray[i]);
+      if (curr == op)
+        return(TRUE);
+      if (curr == COP_OR)
+        break;
     }
-    return;
   }
-  if (*p == 'e')
-    *p = ' ';
-  else
-    *p = 'e';
-  return;
+  return(FALSE);
 }
 
-/* Replace a label in the source lines generated so far.
-* todo: if more than 0xFFFF labels are needed,
-* it may happen that length of nlabel > length of olabel!
-* then the simple memcpy() below won't work!
+/* operator &&, which has the second lowest precedence, is handled here.
+* code is generated that jumps to <label> if the expression is <is_true>, else runs through.
 */
 
-static void ReplaceLabel(char *p, uint_32 olabel, uint_32 nlabel)
-/*****************************************************************/
-{
-  char oldlbl[16];
-  char newlbl[16];
-  int i;
-
-  GetLabelStr(olabel, oldlbl);
-  GetLabelStr(nlabel, newlbl);
-
-  i = (int)strlen(newlbl);
-
-  DebugMsg1(("%u ReplaceLabel(%s->%s, >%s<)\n", evallvl, oldlbl, newlbl, p));
-  while (p = strstr(p, oldlbl)) {
-    memcpy(p, newlbl, i);
-    p += i;
-  }
-}
-
-/* operator &&, which has the second lowest precedence, is handled here */
-
-static ret_code GetAndExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
-/***********************************************************************************************************************************************************/
+static ret_code GetAndExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], uint_32 label, bool is_true, char *buffer)
+/************************************************************************************************************************************/
 {
   char *ptr = buffer;
-  uint_32 truelabel = 0;
-  char buff[16];
-  int nlabel;
-  int olabel;
+  uint_32 falselabel = 0;
 
   DebugMsg1(("%u GetAndExpression(>%.32s< buf=>%s<) enter\n", evallvl, tokenarray[*i].tokpos, buffer));
 
-  if (ERROR == GetSimpleExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop))
-    return(ERROR);
-  while (COP_AND == GetCOp(&tokenarray[*i])) {
-
+  while (IsOperatorAhead(tokenarray, *i, COP_AND)) {
+    /* if an operand is false, the expression is false */
+    if (is_true && falselabel == 0)
+      falselabel = GetHllLabel();
+    if (ERROR == GetSimpleExpression(hll, i, tokenarray, is_true ? falselabel : label, FALSE, ptr))
+      return(ERROR);
+    if (COP_AND != GetCOp(&tokenarray[*i]))
+      return(EmitError(SYNTAX_ERROR_IN_CONTROL_FLOW_DIRECTIVE));
     (*i)++;
-    DebugMsg1(("%u GetAndExpression: &&-operator found, is_true=%u, lastjmp=%s\n", evallvl, is_true, hllop->lastjmp ? hllop->lastjmp : "NULL"));
-
-    if (is_true) {
-      /* todo: please describe what's done here and why! */
-      if (hllop->lastjmp) {
-        char *p = hllop->lastjmp;
-        InvertJump(p);          /* step 1 */
-        if (truelabel == 0)     /* step 2 */
-          truelabel = GetHllLabel();
-
-        if (*p ) {/* v2.11: there might be a 0 at lastjmp */
-          p += 4;               /* skip 'jcc ' or 'jmp ' */
-          GetLabelStr(truelabel, p);
-          strcat(p, EOLSTR);
-        }
-        /* Uasm 2.18  fixed WHILE with &&  */
-        if (hllop->lasttruelabel)
-          ReplaceLabel(buffer,hllop->lasttruelabel, truelabel);
-          nlabel = GetHllLabel();
-          olabel = GetLabel(hll, ilabel);
-          GetLabelStr(olabel, buff);
-          strcat(ptr, buff);
-          strcat(ptr, LABELQUAL EOLSTR);
-          DebugMsg1(("%u GetAndExpression: label added >%s<\n", evallvl, ptr));
-          ReplaceLabel(buffer, olabel, nlabel);
-          hllop->lastjmp = NULL;
-      }
-    }
     ptr += strlen(ptr);
-    hllop->lasttruelabel = 0; /* v2.08 */
-    if (ERROR == GetSimpleExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop))
-      return(ERROR);
-  };
+  }
+  if (ERROR == GetSimpleExpression(hll, i, tokenarray, label, is_true, ptr))
+    return(ERROR);
 
-  if (truelabel > 0) {
+  if (falselabel) {
     ptr += strlen(ptr);
-    GetLabelStr(truelabel, ptr);
+    GetLabelStr(falselabel, ptr);
     strcat(ptr, LABELQUAL EOLSTR);
     DebugMsg1(("%u GetAndExpression: label added >%s<\n", evallvl, ptr));
-    hllop->lastjmp = NULL;
   }
   return(NOT_ERROR);
 }
 
-/* operator ||, which has the lowest precedence, is handled here */
+/* operator ||, which has the lowest precedence, is handled here.
+* code is generated that jumps to <label> if the expression is <is_true>, else runs through.
+*/
 
-static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
-/********************************************************************************************************************************************************/
+static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], uint_32 label, bool is_true, char *buffer)
+/*********************************************************************************************************************************/
 {
   char *ptr = buffer;
   uint_32 truelabel = 0;
 
   DebugMsg1(("%u GetExpression(>%.32s< buf=>%s<) enter\n", ++evallvl, tokenarray[*i].tokpos, buffer));
 
-  /* v2.08: structure changed from for(;;) to while() to increase
-  * readability and - optionally - handle the second operand differently
-  * than the first.
-  */
-
-  if (ERROR == GetAndExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop)) {
-    DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
-    return(ERROR);
-  }
- // __debugbreak();
-  while (COP_OR == GetCOp(&tokenarray[*i])) {
-
-    uint_32 nlabel;
-    uint_32 olabel;
-    char buff[16];
-
-    /* the generated code of last simple expression has to be modified
-    1. the last jump must be inverted
-    2. a "is_true" label must be created (it's used to jump "behind" the expr)
-    3. create a new label
-    4. the current "false" label must be generated
-
-    if it is a .REPEAT, step 4 is slightly more difficult, since the "false"
-    label is already "gone":
-    4a. create a new label
-    4b. replace the "false" label in the generated code by the new label
-    */
-
-    (*i)++;
-    DebugMsg1(("%u GetExpression: ||-operator found, is_true=%u, lastjmp=%s\n", evallvl, is_true, hllop->lastjmp ? hllop->lastjmp : "NULL"));
-
-    if (is_true == FALSE) {
-      if (hllop->lastjmp) {
-        char *p = hllop->lastjmp;
-        InvertJump(p);           /* step 1 */
-        if (truelabel == 0)      /* step 2 */
-          truelabel = GetHllLabel();
-        if (*p ) { /* v2.11: there might be a 0 at lastjmp */
-          p += 4;                /* skip 'jcc ' or 'jmp ' */
-          GetLabelStr(truelabel, p);
-          strcat(p, EOLSTR);
-        }
-        /* v2.08: if-block added */
-        if (hllop->lasttruelabel)
-          ReplaceLabel(ptr, hllop->lasttruelabel, truelabel);
-        DebugMsg1(("%u GetExpression: jmp inverted, dest changed >%s<\n", evallvl, ptr));
-        hllop->lastjmp = NULL;
-
-        nlabel = GetHllLabel();  /* step 3 */
-        olabel = GetLabel(hll, ilabel);
-        if (hll->cmd == HLL_REPEAT) {
-          ReplaceLabel(buffer, olabel, nlabel);
-          sprintf(ptr + strlen(ptr), "%s" LABELQUAL EOLSTR, GetLabelStr(nlabel, buff));
-        }
-        else {
-          sprintf(ptr + strlen(ptr), "%s" LABELQUAL EOLSTR, GetLabelStr(olabel, buff));
-          ReplaceLabel(buffer, olabel, nlabel);
-        }
-        DebugMsg1(("%u GetExpression: dest changed, label added >%s<\n", evallvl, ptr));
-      }
-    }
-    ptr += strlen(ptr);
-    hllop->lasttruelabel = 0; /* v2.08 */
-    if (ERROR == GetAndExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop)) {
+  while (IsOperatorAhead(tokenarray, *i, COP_OR)) {
+    /* if an operand is true, the expression is true */
+    if (!is_true && truelabel == 0)
+      truelabel = GetHllLabel();
+    if (ERROR == GetAndExpression(hll, i, tokenarray, is_true ? label : truelabel, TRUE, ptr)) {
       DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
       return(ERROR);
     }
-  }
-  if (truelabel > 0) {
-    /* v2.08: this is needed, but ober-hackish. to be improved... */
-    if (hllop->lastjmp && hllop->lasttruelabel) {
-      DebugMsg1(("%u GetExpression: suppressed ReplaceLabel %u -> %u, lastjmp=%s\n", evallvl, hllop->lasttruelabel, truelabel, hllop->lastjmp));
-      ReplaceLabel(ptr, hllop->lasttruelabel, truelabel);
-      *(strchr(hllop->lastjmp, EOLCHAR) + 1) = NULLC;
+    if (COP_OR != GetCOp(&tokenarray[*i])) {
+      DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
+      return(EmitError(SYNTAX_ERROR_IN_CONTROL_FLOW_DIRECTIVE));
     }
+    (*i)++;
+    ptr += strlen(ptr);
+  }
+  if (ERROR == GetAndExpression(hll, i, tokenarray, label, is_true, ptr)) {
+    DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
+    return(ERROR);
+  }
+
+  if (truelabel) {
     ptr += strlen(ptr);
     GetLabelStr(truelabel, ptr);
     strcat(ptr, LABELQUAL EOLSTR);
     DebugMsg1(("%u GetExpression: label added >%s<\n", evallvl, ptr));
-    hllop->lasttruelabel = truelabel; /* v2.08 */
   }
   DebugMsg1(("%u GetExpression exit\n", evallvl--));
   return(NOT_ERROR);
@@ -1157,12 +1007,10 @@ static ret_code QueueTestLines(char *src)
 static ret_code EvaluateHllExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer)
 /****************************************************************************************************************************************/
 {
-  struct hll_opnd hllop = { NULL, 0 };
-
   DebugMsg1(("EvaluateHllExpression enter\n"));
 
   *buffer = NULLC;
-  if (ERROR == GetExpression(hll, i, tokenarray, ilabel, is_true, buffer, &hllop))
+  if (ERROR == GetExpression(hll, i, tokenarray, GetLabel(hll, ilabel), is_true, buffer))
     return(ERROR);
   /* v2.11: changed */
   //if ( *buffer == EOLCHAR ) {
-- 
2.43.0


From efe62d69956618f3e312d8c052cfa48ac69a65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:03 +0000
Subject: [PATCH 067/114] fix: .FOR: `reg op= 0` cleared the register, 'mem =
 0' and 'mem = mem' gave invalid instructions

---
 hll.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hll.c b/hll.c
index 24ae443..e739610 100644
--- a/hll.c
+++ b/hll.c
@@ -1290,7 +1290,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
       if (tokenarray[0].token == T_REG) {
       simple:			Tokenize(param, 0, tokenarray, 0);
 
-        if (strlen(init) == 1 && init[0] == '0')                        //REX=0?
+        if (strlen(op) == 1 && tokenarray[0].token == T_REG && strlen(init) == 1 && init[0] == '0') //REX=0?
           WriteAsmLine(" xor  ", param, param);							            //XOR REX,REX //instead MOV REX,0
         else if ((strlen(op) == 1) && ((init[4] == ' ') || (init[4] == '\t'))) {  //op is '='
           if ((0 == _memicmp(init, "BYTE PTR", 8)) ||                   //reax=BYTE PTR al
@@ -1343,7 +1343,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
           WriteAsmLine(" mov  byte ptr ", param, init);
         else {
           WriteAsmLine(" mov  ", reax[ModuleInfo.Ofssize], init);
-          WriteAsmLine(codebuff, param, reax[ModuleInfo.Ofssize]);
+          WriteAsmLine(strlen(op) == 1 ? " mov  " : codebuff, param, reax[ModuleInfo.Ofssize]);
         }
       }
     }
-- 
2.43.0


From ff2ba5bd7452cb40802585017f3aeae4b4c24c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:03 +0000
Subject: [PATCH 068/114] fix: .SWITCH refused R8B-R15B, R8W-R15W, R8D-R15D,
 SIL, DIL

---
 hll.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hll.c b/hll.c
index e739610..da5fb95 100644
--- a/hll.c
+++ b/hll.c
@@ -1474,9 +1474,10 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
         else             //USE64
         {
         if (t->tokval != T_EAX){ //skip it, no need to write MOV EAX,EAX
-            if (t->tokval <= T_DI) // AL, CL, DL, BL, AH, CH, DH, BH, AX, CX, DX, BX
+            int size = SizeFromRegister(t->tokval);
+            if (size < 4) // AL, CL, DL, BL, AH, CH, DH, BH, AX, CX, DX, BX, R8B, R8W, ...
               AddLineQueueX(" movzx eax, %s", tokenarray[i].tokpos);
-            else if (t->tokval <= T_EDI) //EAX,ECX,EDX,EBX,ESP,EBP,ESI,EDI
+            else if (size == 4) //EAX,ECX,EDX,EBX,ESP,EBP,ESI,EDI,R8D, ...
               AddLineQueueX(" mov eax, %s", tokenarray[i].tokpos);
             else {
               if (t->tokval != T_RAX) //skip it, no need to write MOV RAX,RAX
-- 
2.43.0


From c063ce9618b529165be00882c7d794e98792daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:26 +0000
Subject: [PATCH 069/114] fix: .FOR with a condition that is constant 0 used an
 undefined label, signed conditions ending in >0 were tested for != 0

---
 hll.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hll.c b/hll.c
index da5fb95..7a99da6 100644
--- a/hll.c
+++ b/hll.c
@@ -1595,7 +1595,6 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
           //coppy the condition to the buffer
           forbuffcond[0] = NULLC;
           for (b = 0; forbuff[j] && forbuff[j] != ':'; forbuffcond[b] = forbuff[j], j++, b++);
-          if (b > 1 && forbuffcond[b - 2] == '>' && forbuffcond[b - 1] == '0') forbuffcond[b - 2] = NULLC;
           forbuffcond[b] = NULLC;
           j++;
           //copy the counter to the buffer
@@ -1684,7 +1683,8 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
 
                             /* create a jump to test label */
                             /* optimisation: if line at 'test' label is just a jump, dont create label and don't jump! */
-      if (_memicmp(buffer, "jmp", 3)) {
+      GetLabelStr(hll->labels[LSTART], buff);
+      if (memcmp(buffer, "jmp ", 4) || memcmp(buffer + 4, buff, strlen(buff))) {
         hll->labels[LTEST] = GetHllLabel();
         AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LTEST], buff));
       }
@@ -2317,17 +2317,19 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
     }
     i++;
     //Insert .CONTINUE label here if there is any
-    if (hll->labels[LCONT] && (hll->counterlines[0] || hll->condlines[0]))
+    if (hll->labels[LCONT] && (hll->counterlines[0] || hll->labels[LTEST]))
       AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LCONT], buff));
     if (hll->counterlines[0]) {
       ForInitAndNext(tokenarray, hll->cmcnt, hll->counterlines);
       LclFree(hll->counterlines);
     }
-    if (hll->condlines[0]) {
-      /* create test label */
+    if (hll->labels[LTEST]) {
+      /* create test label; there are no lines if the condition is a constant 0 */
       AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LTEST], buff));
-      QueueTestLines(hll->condlines);
-      LclFree(hll->condlines);
+      if (hll->condlines[0]) {
+        QueueTestLines(hll->condlines);
+        LclFree(hll->condlines);
+      }
     }
     else
       AddLineQueueX(" jmp %s", GetLabelStr(hll->labels[LSTART], buff));
-- 
2.43.0


From 4c43f504f7ee475322d2a1201922b1aa1517bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:53 +0000
Subject: [PATCH 070/114] fix: .SWITCH in ASM style: cases sharing code were
 recognised in the second pass only, giving undefined labels

---
 hll.c | 46 +++++++++++-----------------------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/hll.c b/hll.c
index 7a99da6..87beb70 100644
--- a/hll.c
+++ b/hll.c
@@ -138,7 +138,7 @@ struct hll_item {
   int                 mincase;
   unsigned            delta;        /* maxcase - mincase */
   int                 maxalloccasen;
-  int                 multicase;
+  uint_32             caseofs;       /* code offset behind the last .CASE */
   int                 *pcases;
   uint_16             *plabels;
   uint_16             savedlab;
@@ -2436,7 +2436,6 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
   int                 idx;
   int                 cmd = tokenarray[i].tokval;
   int                 *newcp;
-  int                nomulcase;
   uint_16             *newlp;
   char buff[16];
   char                *p;
@@ -2478,42 +2477,17 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
       DebugMsg(("HllExitDir stack error\n"));
       return(EmitError(DIRECTIVE_MUST_BE_IN_CONTROL_BLOCK));
     }
-    /* assembler style SWITCH doesn't need the .brake in the source so we have to simulate it */
+    /* assembler style SWITCH doesn't need the .brake in the source so we have to simulate it;
+     * a .CASE with no code before the next .CASE shares the code of the latter.
+     */
     if (ModuleInfo.switch_style == ASMSWITCH) {
-         nomulcase = TRUE;
-         hll->breakoccured = TRUE;
-       /* we have to know in advance if there is more multi cases */
-        if (LineStoreCurr != NULL && LineStoreCurr->next != NULL){     /* struct LineStoreCurr contains current source*/
-          p = LineStoreCurr->next->line;
-            while ( isspace( *p )) p++;
-          nomulcase = _memicmp(p, ".case", 5); /* test next line if it is */
-          }
-        if (nomulcase){                                                /* it was the last case in the row  */
-          if (hll->multicase >= 1){                                     /* if there was more then 1 case    */
-            hll->multicase = 0;                                        /* reset hll->multicase for next occation */
-              hll->breakoccured = TRUE;                                /* set the flag but don't exit before code get executed */
-            }
-          else{                                                        /* there is end of the case's code */
-            if (hll->labels[LEXIT] == 0)  hll->labels[LEXIT] = GetHllLabel(); /* moved here to get only 1 test for speed*/
-            AddLineQueueX("jmp %s", GetLabelStr(hll->labels[LEXIT], buff)); /* set the .brake */
-            hll->breakoccured = TRUE;                                  /* set the flag */
-            }
-        }
-        else{                                                          /* it is a multi case */
-          if (hll->multicase == 0) {                                    /* we need a first label for multi cases */
-            if (hll->labels[LEXIT] == 0)  hll->labels[LEXIT] = GetHllLabel(); /* moved here to get only 1 test for speed*/
-            AddLineQueueX("jmp %s", GetLabelStr(hll->labels[LEXIT], buff)); /* set the .brake */
-            hll->breakoccured = TRUE;                                  /* set the flag */
-            }
-          else{
-            hll->breakoccured = FALSE;
-            }                                 /* no .brake needed yet */
-          hll->multicase++;                                          /* increase counter */
+      if (hll->casecnt == 0 || hll->caseofs != GetCurrOffset()) {
+        if (hll->labels[LEXIT] == 0)  hll->labels[LEXIT] = GetHllLabel();
+        AddLineQueueX("jmp %s", GetLabelStr(hll->labels[LEXIT], buff)); /* set the .brake */
         }
     }
-    /* C style: each .CASE is an entry, even if the code of the previous one has no .BREAK */
-    if (ModuleInfo.switch_style != ASMSWITCH)
-      hll->breakoccured = TRUE;
+    /* each .CASE is an entry, even if the code of the previous one has no .BREAK (C style) */
+    hll->breakoccured = TRUE;
     for (;;) {
       if (hll->breakoccured) {
         hll->labels[LTEST] = GetHllLabel();
@@ -2709,6 +2683,8 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
   /* v2.11: always run line-queue if it's not empty. */
   if (is_linequeue_populated())
     RunLineQueue();
+  if (cmd == T_DOT_CASE)
+    hll->caseofs = GetCurrOffset();
 
   return(rc);
 }
-- 
2.43.0


From 450ff5925aa2e8ff92ec12a4dbf8699c15ecf5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 071/114] fix: INVOKE extends an argument smaller than the
 parameter (FASTCALL registers, Win64 stack); a smaller operand for a
 parameter wider than 4 bytes is a mismatch in 32-bit code

---
 invoke.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/invoke.c b/invoke.c
index f417a4c..009cc97 100644
--- a/invoke.c
+++ b/invoke.c
@@ -306,6 +306,17 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
     else {
         enum special_token reg = *pst;
         int size;
+        /* a smaller operand has to be extended to the parameter's size */
+        if ( opnd->kind == EXPR_REG && opnd->indirect == FALSE && opnd->base_reg )
+            size = SizeFromRegister( opnd->base_reg->tokval );
+        else if ( opnd->kind != EXPR_CONST && opnd->mem_type != MT_EMPTY && opnd->instr == EMPTY )
+            size = SizeFromMemtype( opnd->mem_type, USE_EMPTY, opnd->type );
+        else
+            size = 0;
+        if ( size && size < SizeFromRegister( reg ) && ( ModuleInfo.curr_cpu & P_CPU_MASK ) >= P_386 &&
+            SizeFromMemtype( param->sym.mem_type, USE_EMPTY, param->sym.type ) >= SizeFromRegister( reg ) ) {
+            AddLineQueueX( " %s %r, %s", IS_SIGNED( opnd->mem_type ) ? "movsx" : "movzx", reg, paramvalue );
+        } else
         /* v2.08: adjust register if size of operand won't require the full register */
         if ( ( opnd->kind != EXPR_CONST ) &&
             ( size = SizeFromMemtype( param->sym.mem_type, USE_EMPTY, param->sym.type ) ) < SizeFromRegister( *pst ) ) {
@@ -690,7 +701,7 @@ static int ms64_param(struct dsym const *proc, int index, struct dsym *param, bo
 					if (IS_SIGNED(opnd->mem_type))
 						AddLineQueueX(" movsxd %r, %s", i, paramvalue);
 					else
-						AddLineQueueX(" mov %r, %s", i, paramvalue);
+						AddLineQueueX(" mov %r, %s", i == T_RAX ? T_EAX : i, paramvalue);
 				}
 				else
 					AddLineQueueX(" mov%sx %r, %s", IS_SIGNED(opnd->mem_type) ? "s" : "z", i, paramvalue);
@@ -3731,6 +3742,12 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 				*r0flags = 0;
 			}
 
+			/* the parameter's upper part wouldn't be pushed */
+			if (asize < psize && psize > 4 && ModuleInfo.Ofssize != USE64 && curr->sym.is_vararg == FALSE) {
+				EmitErr(INVOKE_ARGUMENT_TYPE_MISMATCH, reqParam + 1);
+				return(NOT_ERROR);
+			}
+
 			if (curr->sym.is_vararg) {
 				size_vararg += (asize > pushsize ? asize : pushsize);
 				DebugMsg1(("PushInvokeParm(%u): asize=%u added to size_vararg, now=%u\n",
-- 
2.43.0


From f88969806130f476570b131c2a250ed1b29f2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 072/114] fix: SYSTEMV INVOKE: R8W-R15W and narrow registers as
 stack arguments

---
 invoke.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/invoke.c b/invoke.c
index 009cc97..ae66695 100644
--- a/invoke.c
+++ b/invoke.c
@@ -1526,41 +1526,49 @@ static int sysv_regTo64(unsigned int reg)
 				resultReg = T_RSP;
 				break;
 			case T_R8B:
+			case T_R8W:
 			case T_R8D:
 			case T_R8:
 				resultReg = T_R8;
 				break;
 			case T_R9B:
+			case T_R9W:
 			case T_R9D:
 			case T_R9:
 				resultReg = T_R9;
 				break;
 			case T_R10B:
+			case T_R10W:
 			case T_R10D:
 			case T_R10:
 				resultReg = T_R10;
 				break;
 			case T_R11B:
+			case T_R11W:
 			case T_R11D:
 			case T_R11:
 				resultReg = T_R11;
 				break;
 			case T_R12B:
+			case T_R12W:
 			case T_R12D:
 			case T_R12:
 				resultReg = T_R12;
 				break;
 			case T_R13B:
+			case T_R13W:
 			case T_R13D:
 			case T_R13:
 				resultReg = T_R13;
 				break;
 			case T_R14B:
+			case T_R14W:
 			case T_R14D:
 			case T_R14:
 				resultReg = T_R14;
 				break;
 			case T_R15B:
+			case T_R15W:
 			case T_R15D:
 			case T_R15:
 				resultReg = T_R15;
@@ -1755,17 +1763,17 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 				}
 				else if (regsize == 4)
 				{
-					sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
+					BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsxd %r, %s", sysv_regTo64(reg), paramvalue);
 				}
 				else if (regsize == 2)
 				{
-					sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
+					BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
 				}
 				else if (regsize == 1)
 				{
-					sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
+					BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
 				}	
 				info->stackOfs += 8;
@@ -2735,17 +2743,17 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 					}
 					else if (regsize == 4)
 					{
-						sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
+						BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 						BuildCodeLine(info->stackOps[info->stackOpCount++], "movsxd %r, %s", sysv_regTo64(reg), paramvalue);
 					}
 					else if (regsize == 2)
 					{
-						sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
+						BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 						BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
 					}
 					else if (regsize == 1)
 					{
-						sprintf(info->stackOps[info->stackOpCount++], "push %s", paramvalue);
+						BuildCodeLine(info->stackOps[info->stackOpCount++], "push %r", sysv_regTo64(reg));
 						BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx %r, %s", sysv_regTo64(reg), paramvalue);
 					}
 					info->stackOfs += 8;
-- 
2.43.0


From 33fe93c3916177a73c00540121bbe677b97ab7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 073/114] fix: RSP stack base: stack aligned when locals aren't
 a multiple of 8 bytes or xmm registers are saved

---
 proc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index 46e16ab..9e0d746 100644
--- a/proc.c
+++ b/proc.c
@@ -3329,7 +3329,7 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 			DebugMsg1(("write_win64_default_prologue_RSP: localsize=%u resstack=%u\n", info->localsize, resstack));
 			if (ModuleInfo.win64_flags & W64F_HABRAN) {
 				if (((info->pushed_reg & 1) && (info->localsize & 0xF)) ||
-					((!(info->pushed_reg & 1)) && (!(info->localsize & 0xF))) && (!(info->pushed_reg & 1)) && (!(cntxmm)))
+					((!(info->pushed_reg & 1)) && (!(info->localsize & 0xF))))
 				{
 					info->localsize += 8;
 					if (CurrProc->sym.langtype == LANG_VECTORCALL) {
@@ -4196,6 +4196,8 @@ static void SetLocalOffsets_RSP(struct proc_info *info)
 		DebugMsg1(("SetLocalOffsets_RSP(%s): offset of %s (size=%u) set to %d\n", CurrProc->sym.name, curr->sym.name, curr->sym.total_size, curr->sym.offset));
 	}
 
+	if (rspalign)
+		info->localsize = ROUND_UP(info->localsize, 8);
 	if (!(cntstd & 1) && ((info->localsize & 15) == 0)) info->localsize += 8;
 
 	/* v2.11: localsize must be rounded before offset adjustment if fpo */
-- 
2.43.0


From 1eff1ef7a13d098357184f085a92a954a088345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 074/114] fix: 32-bit FASTCALL with -elf uses the 32-bit
 convention and no RSP adjustment

---
 assemble.c | 2 +-
 proc.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/assemble.c b/assemble.c
index 16d7eab..71f1870 100644
--- a/assemble.c
+++ b/assemble.c
@@ -820,7 +820,7 @@ static void ModulePassInit( void )
         ModuleInfo.fctype = Options.fctype;
 
 		#if AMD64_SUPPORT
-		if (Options.output_format == OFORMAT_ELF)
+		if (Options.output_format == OFORMAT_ELF && Options.sub_format == SFORMAT_64BIT)
 		{
 			ModuleInfo.fctype = FCT_WIN64;
 			Options.fctype = FCT_WIN64; /* SYSV proc/invoke tables use the same ordinal as FCT_WIN64 so set it now, instead of FCT_MSC */
diff --git a/proc.c b/proc.c
index 9e0d746..a557dc8 100644
--- a/proc.c
+++ b/proc.c
@@ -4770,7 +4770,7 @@ static ret_code write_generic_prologue(struct proc_info *info)
 		resstack == 0 && info->regslist == NULL && !info->fpo)
 		return(NOT_ERROR);
 
-	if (info->fpo && stackadj > 0 && CurrProc->sym.langtype == LANG_FASTCALL && !info->isleaf)
+	if (ModuleInfo.Ofssize == USE64 && info->fpo && stackadj > 0 && CurrProc->sym.langtype == LANG_FASTCALL && !info->isleaf)
 	{
 		if (Options.frameflags)
 		{
-- 
2.43.0


From 172cc445d0f1e879e53f85d18ed93a6633555ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 075/114] fix: REAL8 constant 0.0 as 64-bit operand

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index d7f49ca..2904c6d 100644
--- a/parser.c
+++ b/parser.c
@@ -997,7 +997,7 @@ static ret_code idata_nofixup( struct code_info *CodeInfo, unsigned CurrOpnd, co
     if ( CodeInfo->Ofssize == USE64 && CodeInfo->token == T_MOV && CurrOpnd == OPND2 &&
         ( CodeInfo->opnd[OPND1].type & OP_R64 ) &&
         ( opndx->value64 > H_LONG_MAX || opndx->value64 < H_LONG_MIN ||
-         (opndx->explicit && ( opndx->mem_type == MT_QWORD || opndx->mem_type == MT_SQWORD ) ) ) ) 
+         (opndx->explicit && ( opndx->mem_type == MT_QWORD || opndx->mem_type == MT_SQWORD || opndx->mem_type == MT_REAL8 ) ) ) ) 
 	{
         CodeInfo->opnd[CurrOpnd].type = OP_I64;
         CodeInfo->opnd[CurrOpnd].data32h = opndx->hvalue;
-- 
2.43.0


From 09b9be4b45e5ab717f58dc4ef73701a9c969bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:37 +0000
Subject: [PATCH 076/114] fix: SYSTEMV INVOKE of a VARARG procedure:
 floating-point memory arguments in vector registers, stack alignment for any
 number of stack arguments

---
 invoke.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/invoke.c b/invoke.c
index ae66695..49ec449 100644
--- a/invoke.c
+++ b/invoke.c
@@ -1389,7 +1389,8 @@ static int sysv_fcstart(struct dsym const *proc, int numparams, int start, struc
 
 	/* Perform stack alignment pre operand setup to ensure stack aligned 16 at point of call */
 	*value = 0;
-	if (proc->e.procinfo->stackAdj > 0)
+	/* v2.58: for VARARG the number of stack operands isn't the same in every call, so InvokeDir() does this once it is known */
+	if (proc->e.procinfo->stackAdj > 0 && !proc->e.procinfo->has_vararg)
 	{
 		AddLineQueueX("sub %r, %u", T_RSP, NUMQUAL proc->e.procinfo->stackAdj);
 		*value = proc->e.procinfo->stackAdj;
@@ -1829,7 +1830,18 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 	if (opnd->kind == EXPR_REG && opnd->indirect == TRUE)
 	{
 		if (psize == 0) psize = 8;			// If no size specified, assume qword.
-		reg = sysv_GetNextGPR(info, psize);
+		/* v2.58: floating point values are passed in vector registers while there are any, then on the stack */
+		if ((opnd->mem_type == MT_REAL4 || opnd->mem_type == MT_REAL8) && (reg = sysv_GetNextVEC(info, 16)) != -1)
+		{
+			AddLineQueueX("%s %r, %s", psize == 4 ? MOVE_SIMD_DWORD() : MOVE_SIMD_QWORD(), reg, paramvalue);
+			info->vecused |= (1 << sysv_reg(reg));
+			info->vararg_vecs++;
+			return(1);
+		}
+		if (opnd->mem_type == MT_REAL4 || opnd->mem_type == MT_REAL8)
+			reg = -1;
+		else
+			reg = sysv_GetNextGPR(info, psize);
 		if (reg != -1)
 		{
 			AddLineQueueX("mov %r, %s", reg, paramvalue);
@@ -1878,7 +1890,18 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 		_stricmp(opnd->sym->type->name, "__m512") != 0) || !opnd->sym->type)) || !opnd->sym) )
 	{
 		if (psize == 0) psize = 8;			// If no size specified, assume qword.
-		reg = sysv_GetNextGPR(info, psize);
+		/* v2.58: floating point values are passed in vector registers while there are any, then on the stack */
+		if ((opnd->mem_type == MT_REAL4 || opnd->mem_type == MT_REAL8) && (reg = sysv_GetNextVEC(info, 16)) != -1)
+		{
+			AddLineQueueX("%s %r, %s", psize == 4 ? MOVE_SIMD_DWORD() : MOVE_SIMD_QWORD(), reg, paramvalue);
+			info->vecused |= (1 << sysv_reg(reg));
+			info->vararg_vecs++;
+			return(1);
+		}
+		if (opnd->mem_type == MT_REAL4 || opnd->mem_type == MT_REAL8)
+			reg = -1;
+		else
+			reg = sysv_GetNextGPR(info, psize);
 		if (reg != -1)
 		{
 			AddLineQueueX("mov %r, %s", reg, paramvalue);
@@ -4574,6 +4597,11 @@ ret_code InvokeDirective(int i, struct asm_tok tokenarray[])
 		/* Reverse Write out all Stack based operations */
 		if (proc->sym.langtype == LANG_SYSVCALL)
 		{
+			if (proc->e.procinfo->has_vararg && proc->e.procinfo->stackOfs % 16 != 0)
+			{
+				AddLineQueueX("sub %r, %u", T_RSP, 8);
+				value = 8;
+			}
 			for (j = proc->e.procinfo->stackOpCount; j >= 0; j--)
 			{
 				AddLineQueueX(proc->e.procinfo->stackOps[j]);
-- 
2.43.0


From 5c827e358e706e1279ac54cb73fe48729ecd3459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:37 +0000
Subject: [PATCH 077/114] fix: INVOKE string literals are matched with their
 own parameter where parameters are pushed right to left

---
 invoke.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/invoke.c b/invoke.c
index 49ec449..45063c5 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3137,24 +3137,15 @@ static void SkipTypecast(char *fullparam, int i, struct asm_tok tokenarray[])
 /* Check if a parameter (via it's string ptr) is a raw ascii string, 
 if we're in a vararg, just being a raw string is sufficient, 
 for normal parameters it must be qualified as PTR */
-static int ParamIsString(char *pStr, int param, struct dsym* proc) {
+static int ParamIsString(char *pStr, int param, struct dsym* p) {
 	char c;
 	char *pS = pStr;
-	int i = 0;
-	struct dsym* p = proc->e.procinfo->paralist;
 	struct asym* type = NULL;
 	enum memtype mtype = MT_EMPTY;
 
 	if (!Options.literal_strings)
 		return(FALSE);
 
-	for (i = 0; i < param; i++)
-	{
-		if (p == NULL || p->nextparam == NULL)
-			break;
-		p = p->nextparam;
-	}
-
 	if (p)
 	{
 		if (p->sym.mem_type == MT_PTR)
@@ -3283,7 +3274,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 		// UASM 2.47 Only check the string type information if we're on the actual reqParam.
 		if (currParm == reqParam && curr && currParm < 256)
 		{
-			if (SymTables[TAB_SEG].head && ParamIsString(tokenarray[i].string_ptr, currParm, proc))
+			if (SymTables[TAB_SEG].head && ParamIsString(tokenarray[i].string_ptr, currParm, curr))
 			{
 
 				// Preserve current Segment.
@@ -3360,7 +3351,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 				// Restore current Sement.
 				CurrSeg = curseg;
 			}
-			else if (SymTables[TAB_SEG].head && strcmp(tokenarray[i].string_ptr, "L") == 0 && ParamIsString(tokenarray[i + 1].string_ptr, currParm, proc))
+			else if (SymTables[TAB_SEG].head && strcmp(tokenarray[i].string_ptr, "L") == 0 && ParamIsString(tokenarray[i + 1].string_ptr, currParm, curr))
 			{
 				// Preserve current Segment.
 				curseg = ModuleInfo.currseg;
-- 
2.43.0


From 6029e628240daddb9135362f7cbab2aedb8983ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:02 +0000
Subject: [PATCH 078/114] fix: 32-bit FASTCALL INVOKE reports arguments in
 registers that loading other arguments overwrites

---
 invoke.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/invoke.c b/invoke.c
index 45063c5..ecd62e7 100644
--- a/invoke.c
+++ b/invoke.c
@@ -263,6 +263,8 @@ static const enum special_token sysV64_regsZMM[] = {
 //static const enum special_token segreg_tab[] = {
 //    T_ES, T_CS, T_SS, T_DS, T_FS, T_GS };
 
+static bool fcedx; /* 32-bit MS FASTCALL: EDX has been loaded with an argument */
+
 static int ms32_fcstart( struct dsym const *proc, int numparams, int start, struct asm_tok tokenarray[], int *value )
 /*******************************************************************************************************************/
 {
@@ -270,6 +272,7 @@ static int ms32_fcstart( struct dsym const *proc, int numparams, int start, stru
     DebugMsg1(("ms32_fcstart(proc=%s, ofs=%u)\n", proc->sym.name, GetSymOfssize( &proc->sym ) ));
     if ( GetSymOfssize( &proc->sym ) == USE16 )
         return( 0 );
+    fcedx = FALSE;
     /* v2.07: count number of register params */
     for ( param = proc->e.procinfo->paralist ; param ; param = param->nextparam )
         if ( param->sym.state == SYM_TMACRO )
@@ -301,6 +304,27 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
         fcscratch--;
         pst = ms32_regs + fcscratch;
     }
+    /* arguments are evaluated from right to left: EAX may have been used for a stack argument, EDX has been loaded before ECX */
+    if ( GetSymOfssize( &proc->sym ) != USE16 ) {
+        const struct asm_tok *src[2];
+        int i;
+        src[0] = opnd->base_reg;
+        src[1] = opnd->idx_reg;
+        for ( i = 0; i < 2; i++ ) {
+            if ( src[i] && ( GetValueSp( src[i]->tokval ) & OP_R ) ) {
+                int no = GetRegNo( src[i]->tokval );
+                if ( src[i]->tokval >= T_AH && src[i]->tokval <= T_BH )
+                    no -= 4;
+                if ( ( no == 0 && ( *r0used & R0_USED ) ) || ( no == 2 && *pst == T_ECX && fcedx ) ) {
+                    EmitErr( REGISTER_VALUE_OVERWRITTEN_BY_INVOKE );
+                    *r0used = 0;
+                    return( 1 );
+                }
+            }
+        }
+        if ( *pst == T_EDX )
+            fcedx = TRUE;
+    }
     if ( addr )
         AddLineQueueX( " lea %r, %s", *pst, paramvalue );
     else {
-- 
2.43.0


From b2463ed609e5c9aa0f4eb0abf8cd93315c2f0630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:02 +0000
Subject: [PATCH 079/114] fix: 32-bit FASTCALL INVOKE: the sign of the argument
 decides how it is extended to a WORD parameter

---
 invoke.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoke.c b/invoke.c
index ecd62e7..0b2eac2 100644
--- a/invoke.c
+++ b/invoke.c
@@ -338,7 +338,7 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
         else
             size = 0;
         if ( size && size < SizeFromRegister( reg ) && ( ModuleInfo.curr_cpu & P_CPU_MASK ) >= P_386 &&
-            SizeFromMemtype( param->sym.mem_type, USE_EMPTY, param->sym.type ) >= SizeFromRegister( reg ) ) {
+            size < SizeFromMemtype( param->sym.mem_type, USE_EMPTY, param->sym.type ) ) {
             AddLineQueueX( " %s %r, %s", IS_SIGNED( opnd->mem_type ) ? "movsx" : "movzx", reg, paramvalue );
         } else
         /* v2.08: adjust register if size of operand won't require the full register */
-- 
2.43.0


From 04b92c4c6688e5c3c4af9e6cedb7f654042bce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:02 +0000
Subject: [PATCH 080/114] fix: SYSTEMV INVOKE: arguments in RAX overwritten by
 other stack arguments are reported, unsigned memory operands zero-extended on
 the stack

---
 invoke.c | 44 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/invoke.c b/invoke.c
index 0b2eac2..0c0b8af 100644
--- a/invoke.c
+++ b/invoke.c
@@ -1401,6 +1401,8 @@ vcalldone:
 */
 #if SYSV_SUPPORT
 
+static bool sysv_raxarg; /* RAX is (part of) an argument that goes to the stack */
+
 static int sysv_fcstart(struct dsym const *proc, int numparams, int start, struct asm_tok tokenarray[], int *value)
 /*******************************************************************************************************************/
 {
@@ -1411,6 +1413,8 @@ static int sysv_fcstart(struct dsym const *proc, int numparams, int start, struc
 				numparams++;
 	}
 
+	sysv_raxarg = FALSE;
+
 	/* Perform stack alignment pre operand setup to ensure stack aligned 16 at point of call */
 	*value = 0;
 	/* v2.58: for VARARG the number of stack operands isn't the same in every call, so InvokeDir() does this once it is known */
@@ -1486,6 +1490,28 @@ static int sysv_reg( unsigned int reg )
 	return(base);
 }
 
+/*
+ Stack arguments are written from right to left after the register arguments: memory operands smaller than 8 bytes
+ and addresses get there through RAX, which must not be needed by an argument further to the left.
+*/
+static bool sysv_rax_lost(struct expr *opnd, bool addr)
+/*****************************************************/
+{
+	int psize = SizeFromMemtype(opnd->mem_type, USE64, opnd->type);
+
+	if (opnd->kind == EXPR_CONST || opnd->kind == EXPR_FLOAT)
+		return(FALSE);
+	if ((addr || ((opnd->kind == EXPR_ADDR || opnd->indirect) && (psize == 1 || psize == 2 || psize == 4))) && sysv_raxarg)
+	{
+		EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
+		return(TRUE);
+	}
+	if ((opnd->base_reg && (GetValueSp(opnd->base_reg->tokval) & OP_R) && sysv_reg(opnd->base_reg->tokval) == 6) ||
+		(opnd->idx_reg && (GetValueSp(opnd->idx_reg->tokval) & OP_R) && sysv_reg(opnd->idx_reg->tokval) == 6))
+		sysv_raxarg = TRUE;
+	return(FALSE);
+}
+
 /* Return a 64bit register equivalent to the supplied */
 static int sysv_regTo64(unsigned int reg)
 {
@@ -1665,6 +1691,9 @@ static int sysv_vararg_param(struct dsym const *proc, int index, struct dsym *pa
 	/* VARARG parameters have no typing information, so we have to imply the type purely from the operand in invoke */
 	psize = SizeFromMemtype(opnd->mem_type, USE64, opnd->type);
 
+	if (info->firstGPR >= 6 && sysv_rax_lost(opnd, addr))
+		return(1);
+
 	/* ******************************************************************************************************************** */
 	/* CONST */
 	/* ******************************************************************************************************************** */
@@ -2526,6 +2555,12 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 	{
 		/* REAL4/float argument */
 		/* ******************************************************************************************************************** */
+		/* all but registers get to the stack through RAX */
+		if ((param->sym.mem_type == MT_REAL4 || param->sym.mem_type == MT_REAL8) && sysv_raxarg && (opnd->kind != EXPR_REG || opnd->indirect))
+		{
+			EmitErr(REGISTER_VALUE_OVERWRITTEN_BY_INVOKE);
+			return(1);
+		}
 		if (param->sym.mem_type == MT_REAL4)
 		{
 			psize = 0;
@@ -2750,6 +2785,8 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 				EmitErr(INVOKE_ARGUMENT_TYPE_MISMATCH, index + 1);
 				return(1);
 			}
+			if (sysv_rax_lost(opnd, addr))
+				return(1);
 
 			/* Operand is CONST/immediate value */
 			if (opnd->kind == EXPR_CONST && !addr) // Use !addr to ensure string literals go to the addr part.
@@ -2913,21 +2950,22 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 				else if (psize == 4)
 				{
 					BuildCodeLine(info->stackOps[info->stackOpCount++], "push rax");
-					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsxd rax, eax");
+					if (IS_SIGNED(opnd->mem_type))
+						BuildCodeLine(info->stackOps[info->stackOpCount++], "movsxd rax, eax");
 					BuildCodeLine(info->stackOps[info->stackOpCount++], "mov eax, %s", paramvalue);
 					info->stackOfs += 8;
 				}
 				else if (psize == 2)
 				{
 					BuildCodeLine(info->stackOps[info->stackOpCount++], "push rax");
-					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx rax, ax");
+					BuildCodeLine(info->stackOps[info->stackOpCount++], IS_SIGNED(opnd->mem_type) ? "movsx rax, ax" : "movzx eax, ax");
 					BuildCodeLine(info->stackOps[info->stackOpCount++], "mov ax, %s", paramvalue);
 					info->stackOfs += 8;
 				}
 				else if (psize == 1)
 				{
 					BuildCodeLine(info->stackOps[info->stackOpCount++], "push rax");
-					BuildCodeLine(info->stackOps[info->stackOpCount++], "movsx rax, al");
+					BuildCodeLine(info->stackOps[info->stackOpCount++], IS_SIGNED(opnd->mem_type) ? "movsx rax, al" : "movzx eax, al");
 					BuildCodeLine(info->stackOps[info->stackOpCount++], "mov al, %s", paramvalue);
 					info->stackOfs += 8;
 				}
-- 
2.43.0


From 292bf58f2986776254050d7d7ed15cf17ea2f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:33 +0000
Subject: [PATCH 081/114] fix: .SAVEREG/.SAVEXMM128 with offsets of 512K/1M and
 above: the FAR unwind codes hold the unscaled offset

---
 proc.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/proc.c b/proc.c
index a557dc8..0385fad 100644
--- a/proc.c
+++ b/proc.c
@@ -2516,10 +2516,11 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 		switch (token) {
 		case T_DOT_SAVEREG:
 			puc->OpInfo = reg;
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 19);
+			if (opndx.value >= 65536 * size) {
+				/* the FAR forms store the offset unscaled in 2 WORDs */
+				puc->FrameOffset = (opndx.uvalue >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 3);
+				puc->FrameOffset = (opndx.uvalue & 0xFFFF);
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_NONVOL_FAR;
 				unw_info.CountOfCodes += 3;
@@ -2535,10 +2536,10 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 			break;
 		case T_DOT_SAVEXMM128:
 		case T_DOT_SAVEYMM256:
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 20);
+			if (opndx.value >= 65536 * size) {
+				puc->FrameOffset = (opndx.uvalue >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 4);
+				puc->FrameOffset = (opndx.uvalue & 0xFFFF);
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_XMM128_FAR;
 				unw_info.CountOfCodes += 3;
-- 
2.43.0


From 4afe82afa93a4176dec4ce7f317340784f7a82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:18 +0000
Subject: [PATCH 082/114] fix: OPTION WIN64 with home-area register saves:
 .SAVEREG offsets relative to the final RSP, restore before RSP is adjusted

---
 proc.c | 94 +++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 61 insertions(+), 33 deletions(-)

diff --git a/proc.c b/proc.c
index 0385fad..0848b6b 100644
--- a/proc.c
+++ b/proc.c
@@ -2829,7 +2829,7 @@ static void win64_SaveRegParams_RSP(struct proc_info *info)
 /* ========================================================================================================= */
 /* WIN64 Store USED registers into free shadow spaces                                                        */
 /* ========================================================================================================= */
-static void win64_StoreRegHome(struct proc_info *info)
+static void win64_StoreRegHome(struct proc_info *info, int homeofs[])
 /*******************************************************/
 {
 	int			       i = 0;
@@ -2895,8 +2895,7 @@ static void win64_StoreRegHome(struct proc_info *info)
 				{
 					if (info->home_used[i] == 0) {
 						AddLineQueueX("mov [%r+%u], %r", T_RSP, NUMQUAL sizestd, *regist);
-						AddLineQueueX("%r %r, %u", T_DOT_SAVEREG, *regist, NUMQUAL sizestd);
-						info->stored_reg++;
+						homeofs[info->stored_reg++] = sizestd;
 					}
 					else {
 						cnt++; regist--;
@@ -3252,6 +3251,8 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 	int                 stackSize;
 	int                 resstack = ((ModuleInfo.win64_flags & W64F_AUTOSTACKSP) ? sym_ReservedStack->value : 0);
 	int pushed = 0;
+	int allocated = 0;
+	int homeofs[4]; /* offsets in the home area of the stored_reg first general registers of USES */
 
 	if (Parse_Pass == PASS_1)
 	{
@@ -3268,7 +3269,7 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 		win64_SaveRegParams_RSP(info);
 
 	if (ModuleInfo.win64_flags & W64F_SMART)
-		win64_StoreRegHome(info);
+		win64_StoreRegHome(info, homeofs);
 
 #if STACKBASESUPP
 
@@ -3368,6 +3369,7 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 				AddLineQueueX(*(ppfmt + 0), T_RSP, NUMQUAL stackSize, sym_ReservedStack->name);
 			}
 			AddLineQueueX(*(ppfmt + 1), T_DOT_ALLOCSTACK, NUMQUAL stackSize, sym_ReservedStack->name);
+			allocated = stackSize;
 
 			/* save xmm registers */
 			if (cntxmm) {
@@ -3573,6 +3575,20 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 			}
 		}
 
+		/* registers stored in the home area: offsets are relative to the final RSP, as the unwinder applies them */
+		if ((ModuleInfo.win64_flags & W64F_SMART) && info->stored_reg) {
+			for (n = 0, regist = info->regslist, cnt = *regist++; cnt && n < info->stored_reg; cnt--, regist++) {
+				if ((GetValueSp(*regist) & OP_XMM) || (GetValueSp(*regist) & OP_YMM) || (GetValueSp(*regist) & OP_ZMM))
+					continue;
+				m = homeofs[n++] + info->pushed_reg * 8 + allocated;
+				if (!((1 << GetRegNo(*regist)) & win64_nvgpr))
+					continue;
+				if (resstack)
+					AddLineQueueX("%r %r, %u+%s", T_DOT_SAVEREG, *regist, NUMQUAL m, sym_ReservedStack->name);
+				else
+					AddLineQueueX("%r %r, %u", T_DOT_SAVEREG, *regist, NUMQUAL m);
+			}
+		}
 		AddLineQueueX("%r", T_DOT_ENDPROLOG);
 
 		/* v2.11: linequeue is now run in write_default_prologue() */
@@ -3797,6 +3813,7 @@ static void write_win64_default_epilogue_RSP(struct proc_info *info)
 {
 	int  anysize;
 	int  stackSize;
+	int  release;
 	int  resstack = ((ModuleInfo.win64_flags & W64F_AUTOSTACKSP) ? sym_ReservedStack->value : 0);
 
 	/* restore non-volatile xmm registers */
@@ -3849,6 +3866,46 @@ static void write_win64_default_epilogue_RSP(struct proc_info *info)
 		}
 	}
 
+#if STACKBASESUPP
+	/* what is released from RSP below, without the reserved stack */
+	if (ModuleInfo.fctype == FCT_WIN64 && (ModuleInfo.win64_flags & W64F_AUTOSTACKSP))
+		release = (info->localsize + info->vsize + info->xmmsize + 7) & ~7;
+	else
+		release = info->localsize > 0 ? info->localsize : 0;
+	if (ModuleInfo.win64_flags & W64F_SMART) {
+		/* restore non-volatile registers from shadow space */
+		if (info->regslist) {
+			uint_16 *regist = info->regslist;
+			int cnt;
+			if (ModuleInfo.win64_flags) {
+				int i = 0;
+				int gprzize = 0;
+				for (cnt = *regist++; cnt; cnt--, regist++)
+				{
+					if ((GetValueSp(*regist) & OP_XMM) || (GetValueSp(*regist) & OP_YMM) || (GetValueSp(*regist) & OP_ZMM))
+						continue;
+					else {
+						gprzize += 8;
+						if (gprzize <= 0x20)
+						{
+							if (info->home_used[i] == 0) {
+								/* done before RSP is adjusted: what follows must be an epilogue the unwinder knows */
+								if (resstack)
+									AddLineQueueX("mov %r, [%r+%u+%s]", *regist, stackreg[ModuleInfo.Ofssize], NUMQUAL (gprzize + release + info->pushed_reg * 8), sym_ReservedStack->name);
+								else
+									AddLineQueueX("mov %r, [%r+%u]", *regist, stackreg[ModuleInfo.Ofssize], NUMQUAL (gprzize + release + info->pushed_reg * 8));
+							}
+							else {
+								cnt++; regist--;
+							}
+							i++;
+						}
+					}
+				}
+			}
+		}
+	}
+#endif
 	if (ModuleInfo.fctype == FCT_WIN64 && (ModuleInfo.win64_flags & W64F_AUTOSTACKSP)) {
 		anysize = info->localsize + sym_ReservedStack->value + info->xmmsize;
 		if (info->vecused) anysize += info->vsize;
@@ -3882,35 +3939,6 @@ static void write_win64_default_epilogue_RSP(struct proc_info *info)
 	pop_register(CurrProc->e.procinfo->regslist); //make sure we pop before correcting RSP.
 
 #if STACKBASESUPP
-	if (ModuleInfo.win64_flags & W64F_SMART) {
-		/* restore non-volatile registers from shadow space */
-		if (info->regslist) {
-			uint_16 *regist = info->regslist;
-			int cnt;
-			if (ModuleInfo.win64_flags) {
-				int i = 0;
-				int gprzize = 0;
-				for (cnt = *regist++; cnt; cnt--, regist++)
-				{
-					if ((GetValueSp(*regist) & OP_XMM) || (GetValueSp(*regist) & OP_YMM) || (GetValueSp(*regist) & OP_ZMM))
-						continue;
-					else {
-						gprzize += 8;
-						if (gprzize <= 0x20)
-						{
-							if (info->home_used[i] == 0) {
-								AddLineQueueX("mov %r, [%r+%u]", *regist, stackreg[ModuleInfo.Ofssize], NUMQUAL gprzize);
-							}
-							else {
-								cnt++; regist--;
-							}
-							i++;
-						}
-					}
-				}
-			}
-		}
-	}
 	if (GetRegNo(info->basereg) != 4 && (info->parasize != 0 || info->locallist != NULL))
 		AddLineQueueX("pop %r", info->basereg);
 #else
-- 
2.43.0


From bb874719d68b33f7e5d6024b2aee01171656d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:04 +0000
Subject: [PATCH 083/114] fix: INVOKE in a FRAME procedure without reserved
 stack: the procedure keeps its frame register, so the unwind data hold while
 RSP is adjusted

---
 invoke.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/invoke.c b/invoke.c
index 0c0b8af..41f04fa 100644
--- a/invoke.c
+++ b/invoke.c
@@ -485,8 +485,13 @@ static int ms64_fcstart(struct dsym const *proc, int numparams, int start, struc
 		if ((numparams * sizeof(uint_64)) > sym_ReservedStack->value)
 			sym_ReservedStack->value = numparams * sizeof(uint_64);
 	}
-	else
+	else {
 		AddLineQueueX(" sub %r, %d", T_RSP, numparams * sizeof(uint_64));
+		/* the unwind data can only describe a body that changes RSP if there's a frame register: no FPO then */
+		if (CurrProc && CurrProc->e.procinfo->isframe && ModuleInfo.frame_auto && numparams &&
+			ModuleInfo.prologuemode == PEM_DEFAULT && CurrProc->e.procinfo->basereg == T_RBP)
+			CurrProc->e.procinfo->forceframe = TRUE;
+	}
 
 	/* since Win64 fastcall doesn't push, it's a better/faster strategy to handle the arguments from left to right. */
 	return(0);
-- 
2.43.0


From f5b2431eced6f585f257f2fb94bbd1e5345385fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:39 +0000
Subject: [PATCH 084/114] fix: FRAME prologues: USES of volatile registers are
 recorded in the unwind data too, since PUSH moves RSP

---
 proc.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/proc.c b/proc.c
index 0848b6b..2c9e0db 100644
--- a/proc.c
+++ b/proc.c
@@ -3047,10 +3047,9 @@ static void write_win64_default_prologue_RBP(struct proc_info *info)
 				else {
 					info->pushed_reg += 1;
 					AddLineQueueX("push %r", *regist);
-					if ((1 << GetRegNo(*regist)) & win64_nvgpr) {
-						if (info->isframe && ModuleInfo.frame_auto)
-							AddLineQueueX("%r %r", T_DOT_PUSHREG, *regist);
-					}
+					/* volatile registers too: each PUSH moves RSP */
+					if (info->isframe && ModuleInfo.frame_auto)
+						AddLineQueueX("%r %r", T_DOT_PUSHREG, *regist);
 				}
 			} /* end for */
 		}
@@ -3302,9 +3301,8 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 					else {
 						info->pushed_reg += 1;
 						AddLineQueueX("push %r", *regist);
-						if ((1 << GetRegNo(*regist)) & win64_nvgpr) {
-							AddLineQueueX("%r %r", T_DOT_PUSHREG, *regist);
-						}
+						/* volatile registers too: each PUSH moves RSP */
+						AddLineQueueX("%r %r", T_DOT_PUSHREG, *regist);
 					}
 				}
 			} /* end for */
-- 
2.43.0


From 431341dd5c13fc12ab034abad2aafae5423df2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 085/114] fix: -Fs: a symbol file that cannot be opened
 crashed, one that cannot be written was not reported

---
 symbols.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbols.c b/symbols.c
index 259bc52..1cdfafa 100644
--- a/symbols.c
+++ b/symbols.c
@@ -1019,6 +1019,8 @@ void WriteSymbols()
 	{
 		pName = Options.names[4];
 		ld = fopen(pName, "wb");
+		if (ld == NULL)
+			Fatal(CANNOT_OPEN_FILE, pName, ErrnoStr());
 		sym = NULL;
 		fseek(ld, 4, SEEK_SET);
 		while (sym = SymEnum(sym, &i)) 
@@ -1045,7 +1047,9 @@ void WriteSymbols()
 		}
 		fseek(ld, 0, SEEK_SET);
 		fwrite(&count, 4, 1, ld);
-		fclose(ld);
+		i = ferror(ld);
+		if (fclose(ld) != 0 || i)
+			Fatal(FILE_WRITE_ERROR, pName, errno);
 	}
 }
 
-- 
2.43.0


From 797ece7a5dad5eb9f5be8dd50e4cfa64f3027984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 086/114] fix: read errors on source, include and response
 files are reported instead of being taken for the end of the file

---
 cmdline.c | 7 ++-----
 input.c   | 4 +++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/cmdline.c b/cmdline.c
index 8e86356..311537c 100644
--- a/cmdline.c
+++ b/cmdline.c
@@ -847,11 +847,8 @@ static char *ReadParamFile( const char *name )
         len = ftell( file );
         rewind( file );
         env = MemAlloc( len + 1 );
-#if defined(__GNUC__) /* gcc warns if return value of fread() is "ignored" */
-        if ( fread( env, 1, len, file ) );
-#else
-        fread( env, 1, len, file );
-#endif
+        if ( fread( env, 1, len, file ) != len )
+            Fatal( CANNOT_OPEN_FILE, name, ErrnoStr() );
         env[len] = NULLC;
     }
     fclose( file );
diff --git a/input.c b/input.c
index f290c48..93eb463 100644
--- a/input.c
+++ b/input.c
@@ -705,7 +705,9 @@ char *GetTextLine( char *buffer )
 #endif
             return( buffer );
         }
- 
+        if ( ferror( curr->file ) )
+            Fatal( CANNOT_OPEN_FILE, GetFName( curr->srcfile )->fname, ErrnoStr() );
+
         /* don't close and remove main source file */
         if ( curr->next ) {
             fclose( curr->file );
-- 
2.43.0


From 6e1862bcc7de773cd31dc54b9465b651e89cd765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 087/114] fix: output, listing, error and link-definition files
 that cannot be written completely are reported

---
 assemble.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/assemble.c b/assemble.c
index 71f1870..aa2196e 100644
--- a/assemble.c
+++ b/assemble.c
@@ -578,7 +578,8 @@ static ret_code WriteModule( struct module_info *modinfo )
                     WriteError();
             }
         }
-        fclose( ld );
+        if ( fclose( ld ) != 0 )
+            Fatal( FILE_WRITE_ERROR, Options.names[OPTN_LNKDEF_FN], errno );
     }
 #endif
     DebugMsg(("WriteModule exit\n"));
@@ -1416,6 +1417,15 @@ static void open_files( void )
     return;
 }
 
+/* error if something written to a file cannot be stored; what's still in the buffer is included */
+
+static void CheckWritten( FILE *file, const char *name )
+/******************************************************/
+{
+    if ( file && ( fflush( file ) != 0 || ferror( file ) ) )
+        Fatal( FILE_WRITE_ERROR, name, errno );
+}
+
 void close_files( void )
 /**********************/
 {
@@ -1444,14 +1454,27 @@ void close_files( void )
     }
 
     if( CurrFile[LST] != NULL ) {
-        fclose( CurrFile[LST] );
-        CurrFile[LST] = NULL;
+        int bad = ferror( CurrFile[LST] );
+        if ( fclose( CurrFile[LST] ) != 0 )
+            bad = TRUE;
+        CurrFile[LST] = NULL; /* set to NULL before EmitErr()! */
+        if ( bad )
+            EmitErr( FILE_WRITE_ERROR, CurrFName[LST], errno );
     }
 
     /* close ERR file */
     if ( CurrFile[ERR] != NULL ) {
-        fclose( CurrFile[ERR] );
+        int bad = ferror( CurrFile[ERR] );
+        if ( fclose( CurrFile[ERR] ) != 0 )
+            bad = TRUE;
         CurrFile[ERR] = NULL;
+        if ( bad ) {
+            char *p = CurrFName[ERR];
+            CurrFName[ERR] = NULL; /* set to NULL before EmitErr()! */
+            Options.no_error_disp = FALSE; /* disable -eq! */
+            EmitErr( FILE_WRITE_ERROR, p, errno );
+            LclFree( p );
+        }
     } else if ( CurrFName[ERR] )
         /* nothing written, delete any existing ERR file */
         remove( CurrFName[ERR] );
@@ -1798,6 +1821,7 @@ int EXPQUAL AssembleModule( const char *source )
 
     if ( ( Parse_Pass > PASS_1 ) && write_to_file )
         WriteModule( &ModuleInfo );
+    CheckWritten( CurrFile[OBJ], CurrFName[OBJ] );
 
 	if (Options.dumpSymbols)
 		WriteSymbols();
@@ -1806,6 +1830,7 @@ int EXPQUAL AssembleModule( const char *source )
 
     /* Write a symbol listing file (if requested) */
     LstWriteCRef();
+    CheckWritten( CurrFile[LST], CurrFName[LST] );
 
     endtime = clock(); /* is in ms already */
 
-- 
2.43.0


From e73c0939e5fc115fce729041e322b2846ce0fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:39 +0000
Subject: [PATCH 088/114] fix: .ENDSWITCH: the listing is no longer disabled
 from the second pass on

---
 hll.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hll.c b/hll.c
index 87beb70..213ef52 100644
--- a/hll.c
+++ b/hll.c
@@ -2403,15 +2403,21 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
     EmitErr(SYNTAX_ERROR_EX, tokenarray[i].tokpos);
     rc = ERROR;
   }
-  if (cmd == T_DOT_ENDSWITCH && Parse_Pass > PASS_1)
-    ModuleInfo.list   = 0;
 
     if (ModuleInfo.list)
       LstWrite(LSTTYPE_DIRECTIVE, GetCurrOffset(), NULL);
     
   /* v2.11: always run line-queue if it's not empty. */
-  if (is_linequeue_populated())
+  if (is_linequeue_populated()) {
+    /* the lines generated for .ENDSWITCH differ from pass to pass; they are
+     * not listed, because they would overwrite the lines that follow.
+     */
+    unsigned char oldlist = ModuleInfo.list;
+    if (cmd == T_DOT_ENDSWITCH)
+      ModuleInfo.list = FALSE;
     RunLineQueue();
+    ModuleInfo.list = oldlist;
+  }
 
   return(rc);
 }
-- 
2.43.0


From f78a0cf21065635b2b6a9bd21077e2cf7b16ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:39 +0000
Subject: [PATCH 089/114] fix: listing: lines of a macro definition got the
 comment of the MACRO line appended

---
 listing.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/listing.c b/listing.c
index 5df5db9..566c011 100644
--- a/listing.c
+++ b/listing.c
@@ -348,7 +348,13 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
 	fwrite( ll.buffer, 1, idx, CurrFile[LST] );
 
     len = strlen( pSrcline );
-    len2 = ( ModuleInfo.CurrComment ? strlen( ModuleInfo.CurrComment ) : 0 );
+    /* a line of a macro definition still contains its own comment;
+     * CurrComment belongs to the line that started the definition.
+     */
+    if ( type == LSTTYPE_MACROLINE )
+        len2 = 0;
+    else
+        len2 = ( ModuleInfo.CurrComment ? strlen( ModuleInfo.CurrComment ) : 0 );
 
     list_pos += sizeof( ll.buffer ) + len + len2 + NLSIZ;
     DebugMsg1(("LstWrite: writing (%u b) >%s< [%u/%u], new pos=%" I32_SPEC "u\n", idx, ll.buffer, len, len2, list_pos ));
-- 
2.43.0


From 72b79b4ede87fbb12825c1247b29afd27c1defa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:57 +0000
Subject: [PATCH 090/114] fix: listing: a line generated in a later pass only
 no longer overwrites the lines that follow

---
 assemble.c |  2 +-
 listing.c  | 42 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/assemble.c b/assemble.c
index aa2196e..8523a4f 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1410,7 +1410,7 @@ static void open_files( void )
     }
 
     if( Options.write_listing ) {
-        CurrFile[LST] = fopen( CurrFName[LST], "wb" );
+        CurrFile[LST] = fopen( CurrFName[LST], "w+b" ); /* see LstFindGenerated() */
         if ( CurrFile[LST] == NULL )
             Fatal( CANNOT_OPEN_FILE, CurrFName[LST], ErrnoStr() );
     }
diff --git a/listing.c b/listing.c
index 566c011..3cdfa3c 100644
--- a/listing.c
+++ b/listing.c
@@ -128,6 +128,46 @@ struct lstleft {
     char last;
 };
 
+#if FASTPASS
+/* Passes > 1 fill the left part of the lines written in pass one. The lines
+ * generated for a source line aren't stored and may vary from pass to pass
+ * ( prologues, for example, depend on what's known about the stack ), hence
+ * find the current one in the lines that were generated in pass one. If it
+ * isn't there it mustn't be written, it would overwrite the lines that follow.
+ * Sets list_pos if the line has been found.
+ */
+static bool LstFindGenerated( const char *line )
+/**********************************************/
+{
+    char    left[4*8];
+    uint_32 pos = list_pos;
+    size_t  len = strlen( line );
+
+    for( ;; ) {
+        size_t i = 0;
+        bool   same = TRUE;
+        int    c;
+        if ( fseek( CurrFile[LST], pos, SEEK_SET ) != 0 )
+            return( FALSE );
+        if ( fread( left, 1, sizeof( left ), CurrFile[LST] ) != sizeof( left ) || left[28] != '*' )
+            return( FALSE );
+        pos += sizeof( left );
+        while ( ( c = getc( CurrFile[LST] ) ) != EOF && c != NLSTR[0] ) {
+            if ( i >= len || c != (unsigned char)line[i] )
+                same = FALSE;
+            i++;
+        }
+        if ( c == EOF )
+            return( FALSE );
+        if ( same && i == len ) {
+            list_pos = pos - sizeof( left );
+            return( TRUE );
+        }
+        pos += i + NLSIZ;
+    }
+}
+#endif
+
 /* write a source line to the listing file
  * global variables used inside:
  *  CurrSource:    the - expanded - source line
@@ -186,6 +226,8 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
 #endif
             DebugMsg1(("LstWrite: Pass=%u, stored pos=%" I32_SPEC "u\n", Parse_Pass+1, list_pos ));
         }
+        else if ( LstFindGenerated( CurrSource ) == FALSE )
+            return;
         fseek( CurrFile[LST], list_pos, SEEK_SET );
     }
 #endif
-- 
2.43.0


From 7f8170a5d479abfdc4344eef99f993c09500cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 091/114] fix: listing: bytes of a data line that ends with
 uninitialized items were shown as zeros

---
 listing.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/listing.c b/listing.c
index 3cdfa3c..4340662 100644
--- a/listing.c
+++ b/listing.c
@@ -264,8 +264,12 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         len = CODEBYTES;
         p2 = ll.buffer + OFSSIZE + 2;
 
+        /* "written" tells about the last item of the line only; in OMF
+         * there's no buffer anymore if this item was uninitialized.
+         */
         if ( CurrSeg->e.seginfo->CodeBuffer == NULL ||
-            CurrSeg->e.seginfo->written == FALSE ) {
+            ( CurrSeg->e.seginfo->written == FALSE &&
+             ( Options.output_format == OFORMAT_OMF || oldofs < CurrSeg->e.seginfo->start_loc ) ) ) {
             while ( oldofs < newofs && len ) {
                 *p2++ = '0';
                 *p2++ = '0';
@@ -293,7 +297,11 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
             idx = 0;
 
         while ( oldofs < newofs && len ) {
-            sprintf( p2, "%02X", CurrSeg->e.seginfo->CodeBuffer[idx] );
+            /* uninitialized data at the end isn't buffered */
+            if ( Options.output_format != OFORMAT_OMF && (uint_32)idx >= CurrSeg->e.seginfo->bufsize )
+                sprintf( p2, "00" );
+            else
+                sprintf( p2, "%02X", CurrSeg->e.seginfo->CodeBuffer[idx] );
             p2 += 2;
             idx++;
             oldofs++;
-- 
2.43.0


From fc343140f6855ee61ac81cd4f8a5844e5f927229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 092/114] fix: -Sn: the summary line overwrote the last line of
 the listing

---
 listing.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/listing.c b/listing.c
index 4340662..8c7a34c 100644
--- a/listing.c
+++ b/listing.c
@@ -1119,13 +1119,17 @@ void LstWriteCRef( void )
     struct qdesc    queues[LQ_LAST];
 
     /* no point going through the motions if lst file isn't open */
-    if( CurrFile[LST] == NULL || Options.no_symbol_listing == TRUE ) {
+    if( CurrFile[LST] == NULL ) {
         return;
     }
 
     /* go to EOF */
     fseek( CurrFile[LST], 0, SEEK_END );
 
+    if( Options.no_symbol_listing == TRUE ) {
+        return;
+    }
+
     SymCount = SymGetCount();
     syms = (struct asym **)MemAlloc( SymCount * sizeof( struct asym * ) );
     SymGetAll( syms );
-- 
2.43.0


From d18785ec1fd1c7d74eff3ccd8f2b8d014702a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:05 +0000
Subject: [PATCH 093/114] fix: Mach-O: public constants and aliases were
 missing from the symbol table

---
 macho64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/macho64.c b/macho64.c
index d420703..a7665fa 100644
--- a/macho64.c
+++ b/macho64.c
@@ -210,7 +210,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 	/* External public symbols */
 	while (sym = SymEnum(sym, &i))
 	{
-		if (sym->state != SYM_MACRO && sym->state != SYM_SEG && sym->state != SYM_TMACRO && sym->predefined == 0 && sym->state != SYM_GRP && sym->isequate == 0)
+		if (sym->state != SYM_MACRO && sym->state != SYM_SEG && sym->state != SYM_TMACRO && sym->predefined == 0 && sym->state != SYM_GRP)
 		{
 			if (sym->ispublic)
 			{
@@ -653,6 +653,9 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 				symEntry.n_type = N_SECT | N_EXT;
 			else
 				symEntry.n_type = N_SECT;
+			/* a constant isn't in any section */
+			if (currStr->sym->segment == NULL)
+				symEntry.n_type = (currStr->sym->ispublic ? N_ABS | N_EXT : N_ABS);
 			symEntry.n_value = (uint64_t)currStr->sym->offset;
 			
 			/* The offset is relative to the start of the segment, so we must add the section's address */
-- 
2.43.0


From 3e85f749861b8c1073702e20dd146f5494d25c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:51 +0000
Subject: [PATCH 094/114] fix: ZMMWORD data items were 32 bytes of zeros,
 negative YMMWORD values were not sign-extended

---
 H/symbols.h |  2 ++
 data.c      | 15 +++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/H/symbols.h b/H/symbols.h
index 2e815d1..3dbc85a 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -97,6 +97,8 @@ enum memtype {
 };
 
 #define IS_SIGNED(x)  (((x) & MT_SPECIAL_MASK) == MT_SIGNED)
+/* MT_ZMMWORD has bit MT_FLOAT set, but isn't a floating-point type */
+#define IS_FLOAT(x)  (((x) & MT_FLOAT) && (x) != MT_ZMMWORD)
 
 /* UASM 2.34 added return type from proc enum */
 enum returntype {
diff --git a/data.c b/data.c
index 757b8f8..041524c 100644
--- a/data.c
+++ b/data.c
@@ -179,7 +179,7 @@ static ret_code InitializeArray( const struct sfield *f, int *pi, struct asm_tok
             rc = NOT_ERROR;
         else {
             lvl = i; /* i must remain the start index */
-            rc = data_item( &lvl, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, j );
+            rc = data_item( &lvl, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT( f->sym.mem_type ), FALSE, j );
         }
 
     } else {
@@ -194,7 +194,7 @@ static ret_code InitializeArray( const struct sfield *f, int *pi, struct asm_tok
         } else {
             Token_Count = Tokenize( tokenarray[i].string_ptr, j, tokenarray, TOK_RESCAN );
         }
-        rc = data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, Token_Count );
+        rc = data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT( f->sym.mem_type ), FALSE, Token_Count );
         Token_Count = old_tokencount;
     }
 
@@ -374,7 +374,7 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                 int tc = Token_Count;
                 int j = Token_Count+1;
                 Token_Count = Tokenize( f->ivalue, j, tokenarray, TOK_RESCAN );
-                data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, Token_Count );
+                data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT( f->sym.mem_type ), FALSE, Token_Count );
                 Token_Count = tc;
             } else {
                 char c;
@@ -394,7 +394,7 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                 if ( c ) {
                     EmitErr( INITIALIZER_MUST_BE_A_STRING_OR_SINGLE_ITEM, tokenarray[j].tokpos );
                 } else
-                    if ( ERROR == data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, f->sym.mem_type & MT_FLOAT, FALSE, i ) ) {
+                    if ( ERROR == data_item( &j, tokenarray, NULL, no_of_bytes, f->sym.type, 1, FALSE, IS_FLOAT( f->sym.mem_type ), FALSE, i ) ) {
                         EmitErr( INVALID_DATA_INITIALIZER, f->sym.name );
                     }
             }
@@ -914,6 +914,9 @@ next_item:  /* <--- continue scan if a comma has been detected */
                  * clear anything which is above.
                  */
                 if ( no_of_bytes > 16 ) {
+                    /* YMMWORD/ZMMWORD: extend a negative value as well */
+                    if ( opndx.negative && opndx.value64 < 0 && opndx.hlvalue == 0 )
+                        opndx.hlvalue = -1;
                     OutputDataBytes( opndx.chararray, 16 );
                     tmp = ( opndx.chararray[15] < 0x80 ? 0 : 0xFF );
                     FillDataBytes( tmp, no_of_bytes - 16 );
@@ -1381,8 +1384,8 @@ ret_code data_dir( int i, struct asm_tok tokenarray[], struct asym *type_sym )
         if ( ( mem_type & MT_SPECIAL_MASK ) == MT_ADDRESS ) {
             return( EmitErr( SYNTAX_ERROR_EX, tokenarray[i].string_ptr ) );
         }
-        no_of_bytes = (mem_type & MT_SIZE_MASK) + 1;
-        if ( mem_type & MT_FLOAT )
+        no_of_bytes = ( mem_type == MT_ZMMWORD ? 64 : (mem_type & MT_SIZE_MASK) + 1 );
+        if ( IS_FLOAT( mem_type ) )
             is_float = TRUE;
     }
 
-- 
2.43.0


From 45b6e30388aedd93fdbdf84a6d7efba4351d317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 095/114] fix: CodeView structures had 64-bit fields where long
 has 64 bits: debug sections of the Linux build were malformed

---
 H/dbgcv.h | 158 +++++++++++++++++++++++++++---------------------------
 1 file changed, 79 insertions(+), 79 deletions(-)

diff --git a/H/dbgcv.h b/H/dbgcv.h
index 537136f..198a24d 100644
--- a/H/dbgcv.h
+++ b/H/dbgcv.h
@@ -32,15 +32,15 @@
 
 #pragma pack(push, 1)
 
-typedef unsigned long	CV_uoff32_t;
-typedef		 long	CV_off32_t;
+typedef uint_32	CV_uoff32_t;
+typedef		 int_32	CV_off32_t;
 typedef unsigned short	CV_uoff16_t;
 typedef		 short	CV_off16_t;
 typedef unsigned short	CV_typ16_t;
-typedef unsigned long	CV_typ_t;
-typedef unsigned long	CV_pubsymflag_t; /* must be same as CV_typ_t. */
+typedef uint_32	CV_typ_t;
+typedef uint_32	CV_pubsymflag_t; /* must be same as CV_typ_t. */
 typedef unsigned short	_2BYTEPAD;
-typedef unsigned long	CV_tkn_t;
+typedef uint_32	CV_tkn_t;
 
 #if !defined (CV_ZEROLEN)
 #define CV_ZEROLEN
@@ -68,7 +68,7 @@ typedef struct FLOAT10 {
 #define GUID_DEFINED
 
 typedef struct _GUID {		/* size is 16 */
-    unsigned long   Data1;
+    uint_32   Data1;
     unsigned short  Data2;
     unsigned short  Data3;
     unsigned char   Data4[8];
@@ -1303,20 +1303,20 @@ typedef struct CV_POINTER {
     unsigned short leaf; /* LF_POINTER */
     CV_typ_t utype;	 /* type index of the underlying type */
     union {
-        unsigned long attr;
+        uint_32 attr;
         struct {
-            unsigned long ptrtype : 5; /* ordinal specifying pointer type (CV_ptrtype_e) */
-            unsigned long ptrmode : 3; /* ordinal specifying pointer mode (CV_ptrmode_e) */
-            unsigned long isflat32 : 1; /* true if 0:32 pointer */
-            unsigned long isvolatile : 1; /* TRUE if volatile pointer */
-            unsigned long isconst : 1; /* TRUE if const pointer */
-            unsigned long isunaligned : 1; /* TRUE if unaligned pointer */
-            unsigned long isrestrict : 1; /* TRUE if restricted pointer (allow agressive opts) */
-            unsigned long size : 6; /* size of pointer (in bytes) */
-            unsigned long ismocom : 1; /* TRUE if it is a MoCOM pointer (^ or %) */
-            unsigned long islref : 1; /* TRUE if it is this pointer of member function with & ref-qualifier */
-            unsigned long isrref : 1; /* TRUE if it is this pointer of member function with && ref-qualifier */
-            unsigned long unused : 10;/* pad out to 32-bits for following cv_typ_t's */
+            uint_32 ptrtype : 5; /* ordinal specifying pointer type (CV_ptrtype_e) */
+            uint_32 ptrmode : 3; /* ordinal specifying pointer mode (CV_ptrmode_e) */
+            uint_32 isflat32 : 1; /* true if 0:32 pointer */
+            uint_32 isvolatile : 1; /* TRUE if volatile pointer */
+            uint_32 isconst : 1; /* TRUE if const pointer */
+            uint_32 isunaligned : 1; /* TRUE if unaligned pointer */
+            uint_32 isrestrict : 1; /* TRUE if restricted pointer (allow agressive opts) */
+            uint_32 size : 6; /* size of pointer (in bytes) */
+            uint_32 ismocom : 1; /* TRUE if it is a MoCOM pointer (^ or %) */
+            uint_32 islref : 1; /* TRUE if it is this pointer of member function with & ref-qualifier */
+            uint_32 isrref : 1; /* TRUE if it is this pointer of member function with && ref-qualifier */
+            uint_32 unused : 10;/* pad out to 32-bits for following cv_typ_t's */
         };
     };
     union {
@@ -1358,7 +1358,7 @@ typedef struct CV_STRIDED_ARRAY {
     unsigned short  leaf;		/* LF_STRIDED_ARRAY */
     CV_typ_t	    elemtype;
     CV_typ_t	    idxtype;
-    unsigned long   stride;
+    uint_32   stride;
     unsigned char   data[CV_ZEROLEN];
 } CV_STRIDED_ARRAY;
 
@@ -1369,7 +1369,7 @@ typedef struct CV_VECTOR {
     unsigned short  size;
     unsigned short  leaf;		/* LF_VECTOR */
     CV_typ_t	    elemtype;		/* type index of element type */
-    unsigned long   count;		/* number of elements in the vector */
+    uint_32   count;		/* number of elements in the vector */
     unsigned char   data[CV_ZEROLEN];	/* variable length data specifying size in bytes and name */
 } CV_VECTOR;
 
@@ -1379,9 +1379,9 @@ typedef struct CV_MATRIX {
     unsigned short  size;
     unsigned short  leaf;		/* LF_MATRIX */
     CV_typ_t	    elemtype;		/* type index of element type */
-    unsigned long   rows;		/* number of rows */
-    unsigned long   cols;		/* number of columns */
-    unsigned long   majorStride;
+    uint_32   rows;		/* number of rows */
+    uint_32   cols;		/* number of columns */
+    uint_32   majorStride;
     CV_matrixattr_t matattr;		/* attributes */
     unsigned char   data[CV_ZEROLEN];	/* variable length data specifying size in bytes and name */
 } CV_MATRIX;
@@ -1475,7 +1475,7 @@ typedef struct CV_UDT_SRC_LINE {
     unsigned short leaf;	/* LF_UDT_SRC_LINE */
     CV_typ_t	   type;	/* UDT's type index */
     CV_ItemId	   src;		/* index to LF_STRING_ID record where source file name is saved */
-    unsigned long  line;	/* line number */
+    uint_32  line;	/* line number */
 } CV_UDT_SRC_LINE;
 
 typedef struct CV_UDT_MOD_SRC_LINE {
@@ -1483,7 +1483,7 @@ typedef struct CV_UDT_MOD_SRC_LINE {
     unsigned short leaf;	/* LF_UDT_MOD_SRC_LINE */
     CV_typ_t	   type;	/* UDT's type index */
     CV_ItemId	   src;		/* index into string table where source file name is saved */
-    unsigned long  line;	/* line number */
+    uint_32  line;	/* line number */
     unsigned short imod;	/* module that contributes this UDT definition */
 } CV_UDT_MOD_SRC_LINE;
 
@@ -1569,7 +1569,7 @@ typedef struct CV_MFUNCTION_16t {
     CV_funcattr_t   funcattr;	    /* attributes */
     unsigned short  parmcount;	    /* number of parameters */
     CV_typ16_t	    arglist;	    /* type index of argument list */
-    long	    thisadjust;	    /* this adjuster (long because pad required anyway) */
+    int_32	    thisadjust;	    /* this adjuster (long because pad required anyway) */
 } CV_MFUNCTION_16t;
 
 typedef struct CV_MFUNCTION {
@@ -1582,7 +1582,7 @@ typedef struct CV_MFUNCTION {
     CV_funcattr_t   funcattr;	    /* attributes */
     unsigned short  parmcount;	    /* number of parameters */
     CV_typ_t	    arglist;	    /* type index of argument list */
-    long	    thisadjust;	    /* this adjuster (long because pad required anyway) */
+    int_32	    thisadjust;	    /* this adjuster (long because pad required anyway) */
 } CV_MFUNCTION;
 
 
@@ -1621,7 +1621,7 @@ typedef struct CV_ARGLIST_16t {
 typedef struct CV_ARGLIST {
     unsigned short  size;
     unsigned short  leaf;		/* LF_ARGLIST, LF_SUBSTR_LIST */
-    unsigned long   count;		/* number of arguments */
+    uint_32   count;		/* number of arguments */
     CV_typ_t	    arg[CV_ZEROLEN];	/* number of arguments */
 } CV_ARGLIST;
 
@@ -3134,17 +3134,17 @@ typedef struct LABELSYM16 {
 typedef struct PROCSYM {
     unsigned short  reclen;	/* Record length */
     unsigned short  rectyp;	/* S_GPROC16 or S_LPROC16 */
-    unsigned long   pParent;	/* pointer to the parent */
-    unsigned long   pEnd;	/* pointer to this blocks end */
-    unsigned long   pNext;	/* pointer to next symbol */
+    uint_32   pParent;	/* pointer to the parent */
+    uint_32   pEnd;	/* pointer to this blocks end */
+    uint_32   pNext;	/* pointer to next symbol */
 } PROCSYM;
 
 typedef struct PROCSYM16 {
     unsigned short  reclen;	/* Record length */
     unsigned short  rectyp;	/* S_GPROC16 or S_LPROC16 */
-    unsigned long   pParent;	/* pointer to the parent */
-    unsigned long   pEnd;	/* pointer to this blocks end */
-    unsigned long   pNext;	/* pointer to next symbol */
+    uint_32   pParent;	/* pointer to the parent */
+    uint_32   pEnd;	/* pointer to this blocks end */
+    uint_32   pNext;	/* pointer to next symbol */
     unsigned short  len;	/* Proc length */
     unsigned short  DbgStart;	/* Debug start offset */
     unsigned short  DbgEnd;	/* Debug end offset */
@@ -3158,12 +3158,12 @@ typedef struct PROCSYM16 {
 typedef struct PROCSYM32_16t {
     unsigned short  reclen;	/* Record length */
     unsigned short  rectyp;	/* S_GPROC32_16t or S_LPROC32_16t */
-    unsigned long   pParent;	/* pointer to the parent */
-    unsigned long   pEnd;	/* pointer to this blocks end */
-    unsigned long   pNext;	/* pointer to next symbol */
-    unsigned long   len;	/* Proc length */
-    unsigned long   DbgStart;	/* Debug start offset */
-    unsigned long   DbgEnd;	/* Debug end offset */
+    uint_32   pParent;	/* pointer to the parent */
+    uint_32   pEnd;	/* pointer to this blocks end */
+    uint_32   pNext;	/* pointer to next symbol */
+    uint_32   len;	/* Proc length */
+    uint_32   DbgStart;	/* Debug start offset */
+    uint_32   DbgEnd;	/* Debug end offset */
     CV_uoff32_t	    off;
     unsigned short  seg;
     CV_typ16_t	    typind;	/* Type index */
@@ -3174,12 +3174,12 @@ typedef struct PROCSYM32_16t {
 typedef struct PROCSYM32 {
     unsigned short  reclen;	/* Record length */
     unsigned short  rectyp;	/* S_GPROC32, S_LPROC32, S_GPROC32_ID, S_LPROC32_ID, S_LPROC32_DPC or S_LPROC32_DPC_ID */
-    unsigned long   pParent;	/* pointer to the parent */
-    unsigned long   pEnd;	/* pointer to this blocks end */
-    unsigned long   pNext;	/* pointer to next symbol */
-    unsigned long   len;	/* Proc length */
-    unsigned long   DbgStart;	/* Debug start offset */
-    unsigned long   DbgEnd;	/* Debug end offset */
+    uint_32   pParent;	/* pointer to the parent */
+    uint_32   pEnd;	/* pointer to this blocks end */
+    uint_32   pNext;	/* pointer to next symbol */
+    uint_32   len;	/* Proc length */
+    uint_32   DbgStart;	/* Debug start offset */
+    uint_32   DbgEnd;	/* Debug end offset */
     CV_typ_t	    typind;	/* Type index or ID */
     CV_uoff32_t	    off;
     unsigned short  seg;
@@ -3257,19 +3257,19 @@ typedef struct COMPILESYM {
     unsigned short reclen;	/* Record length */
     unsigned short rectyp;	/* S_COMPILE2 */
     union {
-        unsigned long flags;
+        uint_32 flags;
         struct {
-            unsigned long iLanguage : 8; /* language index */
-            unsigned long fEC : 1; /* compiled for E/C */
-            unsigned long fNoDbgInfo : 1; /* not compiled with debug info */
-            unsigned long fLTCG : 1; /* compiled with LTCG */
-            unsigned long fNoDataAlign : 1; /* compiled with -Bzalign */
-            unsigned long fManagedPresent : 1; /* managed code/data present */
-            unsigned long fSecurityChecks : 1; /* compiled with /GS */
-            unsigned long fHotPatch : 1; /* compiled with /hotpatch */
-            unsigned long fCVTCIL : 1; /* converted with CVTCIL */
-            unsigned long fMSILModule : 1; /* MSIL netmodule */
-            unsigned long pad : 15; /* reserved, must be 0 */
+            uint_32 iLanguage : 8; /* language index */
+            uint_32 fEC : 1; /* compiled for E/C */
+            uint_32 fNoDbgInfo : 1; /* not compiled with debug info */
+            uint_32 fLTCG : 1; /* compiled with LTCG */
+            uint_32 fNoDataAlign : 1; /* compiled with -Bzalign */
+            uint_32 fManagedPresent : 1; /* managed code/data present */
+            uint_32 fSecurityChecks : 1; /* compiled with /GS */
+            uint_32 fHotPatch : 1; /* compiled with /hotpatch */
+            uint_32 fCVTCIL : 1; /* converted with CVTCIL */
+            uint_32 fMSILModule : 1; /* MSIL netmodule */
+            uint_32 pad : 15; /* reserved, must be 0 */
         };
     };
     unsigned short machine;	/* target processor */
@@ -3288,22 +3288,22 @@ typedef struct COMPILESYM3 {
     unsigned short  reclen;	/* Record length */
     unsigned short  rectyp;	/* S_COMPILE3 */
     union {
-        unsigned long flags;
+        uint_32 flags;
         struct {
-            unsigned long iLanguage : 8;	/* language index */
-            unsigned long fEC : 1;	/* compiled for E/C */
-            unsigned long fNoDbgInfo : 1;	/* not compiled with debug info */
-            unsigned long fLTCG : 1;	/* compiled with LTCG */
-            unsigned long fNoDataAlign : 1;	/* compiled with -Bzalign */
-            unsigned long fManagedPresent : 1;	/* managed code/data present */
-            unsigned long fSecurityChecks : 1;	/* compiled with /GS */
-            unsigned long fHotPatch : 1;	/* compiled with /hotpatch */
-            unsigned long fCVTCIL : 1;	/* converted with CVTCIL */
-            unsigned long fMSILModule : 1;	/* MSIL netmodule */
-            unsigned long fSdl : 1;	/* compiled with /sdl */
-            unsigned long fPGO : 1;	/* compiled with /ltcg:pgo or pgu */
-            unsigned long fExp : 1;	/* .exp module */
-            unsigned long pad : 12;	/* reserved, must be 0 */
+            uint_32 iLanguage : 8;	/* language index */
+            uint_32 fEC : 1;	/* compiled for E/C */
+            uint_32 fNoDbgInfo : 1;	/* not compiled with debug info */
+            uint_32 fLTCG : 1;	/* compiled with LTCG */
+            uint_32 fNoDataAlign : 1;	/* compiled with -Bzalign */
+            uint_32 fManagedPresent : 1;	/* managed code/data present */
+            uint_32 fSecurityChecks : 1;	/* compiled with /GS */
+            uint_32 fHotPatch : 1;	/* compiled with /hotpatch */
+            uint_32 fCVTCIL : 1;	/* converted with CVTCIL */
+            uint_32 fMSILModule : 1;	/* MSIL netmodule */
+            uint_32 fSdl : 1;	/* compiled with /sdl */
+            uint_32 fPGO : 1;	/* compiled with /ltcg:pgo or pgu */
+            uint_32 fExp : 1;	/* .exp module */
+            uint_32 pad : 12;	/* reserved, must be 0 */
         };
     };
     unsigned short  machine;	/* target processor */
@@ -3336,7 +3336,7 @@ typedef struct ENVBLOCKSYM {
 typedef struct OBJNAMESYM {
     unsigned short reclen;	/* Record length */
     unsigned short rectyp;	/* S_OBJNAME */
-    unsigned long signature;	/* signature */
+    uint_32 signature;	/* signature */
     unsigned char name[1];	/* Length-prefixed name */
 } OBJNAMESYM;
 
@@ -3391,10 +3391,10 @@ typedef struct CV_DebugSLinesFileBlockHeader_t {
 #define CV_LINES_HAVE_COLUMNS 0x0001
 
 typedef struct CV_Line_t {
-    unsigned long   offset;		/* Offset to start of code bytes for line number */
-    unsigned long   linenumStart : 24;	/* line where statement/expression starts */
-    unsigned long   deltaLineEnd : 7;	/* delta to line where statement ends (optional) */
-    unsigned long   fStatement : 1;	/* true if a statement linenumber, else an expression line num */
+    uint_32   offset;		/* Offset to start of code bytes for line number */
+    uint_32   linenumStart : 24;	/* line where statement/expression starts */
+    uint_32   deltaLineEnd : 7;	/* delta to line where statement ends (optional) */
+    uint_32   fStatement : 1;	/* true if a statement linenumber, else an expression line num */
 } CV_Line_t;
 
 typedef unsigned short CV_columnpos_t;	/* byte offset in a source line */
-- 
2.43.0


From 8c8b5baab6ffb5672aa338e6637a5bb3fa7a854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 096/114] fix: CodeView 8 line table: one block per source file

---
 dbgcv.c | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/dbgcv.c b/dbgcv.c
index 3dd3d4e..8efa47b 100644
--- a/dbgcv.c
+++ b/dbgcv.c
@@ -1286,6 +1286,32 @@ static int calc_md5(const char* filename, unsigned char* sum)
 #define MD5_LENGTH ( sizeof( uint_32 ) + sizeof( uint_16 ) + sizeof( uint_16 ) )
 #endif
 
+/* number of line entries of the block that begins with item <Queue>:
+ * the block ends with the first item of another source file
+ */
+static int cv_count_lines(struct line_num_info* Queue)
+{
+	int fileStart = (Queue->number == 0 ? Queue->file : Queue->srcfile);
+	int count = 0;
+	int prevofs = 0;
+	int prevline = 0;
+
+	for (; Queue; Queue = Queue->next) {
+
+		int linenum = (Queue->number == 0 ? Queue->line_number : Queue->number);
+		int offset = (Queue->number == 0 ? Queue->sym->offset : Queue->line_number);
+
+		if (fileStart != (Queue->number == 0 ? Queue->file : Queue->srcfile))
+			break;
+		if (count && (offset < prevofs || (offset == prevofs && linenum == prevline)))
+			continue;
+		count++;
+		prevofs = offset;
+		prevline = linenum;
+	}
+	return(count);
+}
+
 /* option -Zi: write debug symbols and types
  * - symbols: segment $$SYMBOLS (OMF) or .debug$S (COFF)
  * - types:   segment $$TYPES (OMF) or .debug$T (COFF)
@@ -1454,8 +1480,17 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 					if (Queue->number == 0)
 						fileStart = Queue->file;
 
+					/* one block per source file */
+					if (File == NULL) {
+						cv.ps = checkflush(cv.symbols, cv.ps, sizeof(CV_DebugSLinesFileBlockHeader_t), cv.param);
+						cv.ps += sizeof(CV_DebugSLinesFileBlockHeader_t);
+						cv.section->length += sizeof(CV_DebugSLinesFileBlockHeader_t);
+						File = (CV_DebugSLinesFileBlockHeader_t*)(cv.ps - sizeof(CV_DebugSLinesFileBlockHeader_t));
+					}
+					File->nLines = cv_count_lines(Queue);
 					File->offFile = cv.files[fileStart].offset;
-					File->cbBlock = 12;
+					File->cbBlock = 12 + File->nLines * sizeof(CV_Line_t);
+					File = NULL;
 					Prev = NULL;
 
 					for (; Queue; Queue = Queue->next) {
@@ -1488,9 +1523,6 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 						cv.ps += sizeof(CV_Line_t);
 						cv.section->length += sizeof(CV_Line_t);
 
-						File->nLines++;
-						File->cbBlock += 8;
-
 						Line->offset = offset;
 						Line->linenumStart = linenum;
 						Line->deltaLineEnd = 0;
-- 
2.43.0


From 206764a50b108b2c9990814b3188ff19e0e1ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 097/114] fix: CodeView 8 line table: offsets above 1 MB were
 truncated

---
 dbgcv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbgcv.c b/dbgcv.c
index 8efa47b..cc1722a 100644
--- a/dbgcv.c
+++ b/dbgcv.c
@@ -1299,7 +1299,7 @@ static int cv_count_lines(struct line_num_info* Queue)
 	for (; Queue; Queue = Queue->next) {
 
 		int linenum = (Queue->number == 0 ? Queue->line_number : Queue->number);
-		int offset = (Queue->number == 0 ? Queue->sym->offset : Queue->line_number);
+		int offset = (Queue->number == 0 ? Queue->sym->offset : Queue->offset);
 
 		if (fileStart != (Queue->number == 0 ? Queue->file : Queue->srcfile))
 			break;
@@ -1505,7 +1505,7 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 						else {
 							fileCur = Queue->srcfile;
 							linenum = Queue->number;
-							offset = Queue->line_number;
+							offset = Queue->offset;
 						}
 						if (fileStart != fileCur)
 							break;
-- 
2.43.0


From 8ef4a16a22375e65e3ceef94bbbca45d66cc1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:38 +0000
Subject: [PATCH 098/114] fix: line-number entry was lost when code of another
 source file had the same line number

---
 linnum.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/linnum.c b/linnum.c
index 16749ab..a45a104 100644
--- a/linnum.c
+++ b/linnum.c
@@ -32,6 +32,7 @@ extern int            procidx;
 
 static struct asym    *dmyproc;
 static uint_32        lastLineNumber;
+static unsigned       lastSrcFile;
 
 static void AddLinnumData( struct line_num_info *data )
 /*****************************************************/
@@ -117,7 +118,7 @@ void AddLinnumDataRef( unsigned srcfile, uint_32 line_num )
         }
     }
 
-    if(  line_num && ( write_to_file == FALSE || lastLineNumber == line_num )) {
+    if(  line_num && ( write_to_file == FALSE || ( lastLineNumber == line_num && lastSrcFile == srcfile ) )) {
         return;
     }
 
@@ -158,6 +159,7 @@ void AddLinnumDataRef( unsigned srcfile, uint_32 line_num )
     }
 
     lastLineNumber = line_num;
+    lastSrcFile = srcfile;
 
     /* v2.11: added, improved multi source support for CV.
      * Also, the size of line number info could have become > 1024,
@@ -214,5 +216,6 @@ void LinnumInit( void )
 /*********************/
 {
     lastLineNumber = 0;
+    lastSrcFile = 0;
     dmyproc = NULL;
 }
-- 
2.43.0


From 99365671e60e661ee10377679a2961ce83c827d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:02 +0000
Subject: [PATCH 099/114] fix: CodeView 8 line tables of further code segments
 had no relocation, the first one named the wrong segment

---
 dbgcv.c   | 30 +++++++++++-------------------
 segment.c | 11 -----------
 2 files changed, 11 insertions(+), 30 deletions(-)

diff --git a/dbgcv.c b/dbgcv.c
index cc1722a..e755e8f 100644
--- a/dbgcv.c
+++ b/dbgcv.c
@@ -1319,7 +1319,6 @@ static int cv_count_lines(struct line_num_info* Queue)
  * which is to be generated (CV4_, CV5_ or CV8_SIGNATURE)
  */
 
-extern struct asym* CV8Label;
 
 void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 {
@@ -1399,10 +1398,6 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 		*objname = '\0';
 		cv_align(&cv);
 
-		/* $$000000 to line table */
-
-		lineTable = ((cv.section->length + 3) & ~3) + sizeof(CV_SECTION);
-
 		/* source file info */
 
 		cv_FlushSection(&cv, 0x000000F4, 0);
@@ -1428,19 +1423,6 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 			cv.section->length += MD5_LENGTH;
 		}
 
-		lineTable += (((cv.section->length + 3) & ~3) + sizeof(CV_SECTION) + 12);
-
-		if (CV8Label) {
-
-			int_32 data = 0;
-			fixup = CreateFixup(CV8Label, FIX_OFF32_SECREL, OPTJ_NONE);
-			fixup->locofs = lineTable;
-			store_fixup(fixup, cv.symbols, &data);
-			fixup = CreateFixup(CV8Label, FIX_SEG, OPTJ_NONE);
-			fixup->locofs = lineTable + 4;
-			store_fixup(fixup, cv.symbols, &data);
-		}
-
 		/* line numbers for section */
 		for (seg = SymTables[TAB_SEG].head; seg; seg = seg->next) {
 
@@ -1451,6 +1433,7 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 				CV_DebugSLinesHeader_t* Header;
 				CV_DebugSLinesFileBlockHeader_t* File;
 				struct line_num_info* Queue;
+				int_32 data = 0;
 
 				p = cv_FlushSection(&cv, 0x000000F2,
 					sizeof(CV_DebugSLinesHeader_t) + sizeof(CV_DebugSLinesFileBlockHeader_t));
@@ -1465,6 +1448,15 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 				Header->flags = 0;
 				Header->cbCon = seg->sym.max_offset;
 
+				/* offCon and segCon locate the segment the lines belong to */
+				lineTable = cv.symbols->e.seginfo->start_loc - sizeof(CV_DebugSLinesHeader_t) - sizeof(CV_DebugSLinesFileBlockHeader_t);
+				fixup = CreateFixup(&seg->sym, FIX_OFF32_SECREL, OPTJ_NONE);
+				fixup->locofs = lineTable;
+				store_fixup(fixup, cv.symbols, &data);
+				fixup = CreateFixup(&seg->sym, FIX_SEG, OPTJ_NONE);
+				fixup->locofs = lineTable + 4;
+				store_fixup(fixup, cv.symbols, &data);
+
 				File->offFile = 0;
 				File->nLines = 0;
 				File->cbBlock = 0;
@@ -1677,7 +1669,7 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 			if (Options.debug_ext < CVEX_NORMAL) /* v2.10: no UDTs for -Zi0 and -Zi1 */
 				break;
 		case SYM_INTERNAL:
-			if ((Options.debug_symbols == CV_SIGNATURE_C13 && sym == CV8Label) ||
+			if (
 #if EQUATESYMS
 				/* emit constants if -Zi3 */
 				(Options.debug_ext < CVEX_MAX ? sym->isequate : sym->variable)
diff --git a/segment.c b/segment.c
index 459ed12..19ec121 100644
--- a/segment.c
+++ b/segment.c
@@ -732,9 +732,6 @@ static void UnlinkSeg( struct dsym *dir )
 
 /* SEGMENT directive */
 
-/* Start label for Code View 8 */
-struct asym* CV8Label = NULL;
-
 ret_code SegmentDir( int i, struct asm_tok tokenarray[] )
 /*******************************************************/
 {
@@ -742,7 +739,6 @@ ret_code SegmentDir( int i, struct asm_tok tokenarray[] )
     char                *token;
     int                 typeidx;
     const struct typeinfo *type;          /* type of option */
-    int			        newseg = 0;
     int                 temp;
     int                 temp2;
     unsigned            initstate = 0;  /* flags for attribute initialization */
@@ -768,7 +764,6 @@ ret_code SegmentDir( int i, struct asm_tok tokenarray[] )
     sym = SymSearch( name );
     if( sym == NULL || sym->state == SYM_UNDEFINED ) {
 
-        newseg = 1;
         /* segment is not defined (yet) */
         sym = (struct asym *)CreateSegment( (struct dsym *)sym, name, TRUE );
         sym->list = TRUE; /* always list segments */
@@ -1076,11 +1071,6 @@ ret_code SegmentDir( int i, struct asm_tok tokenarray[] )
         LstWrite( LSTTYPE_LABEL, 0, NULL );
 
     temp = SetOfssize();
-    if (Options.debug_symbols == 4 && newseg) {
-        if (dir->e.seginfo->segtype == SEGTYPE_CODE && CV8Label == NULL) {
-            CV8Label = CreateLabel("$$000000", MT_NEAR, 0, 0);
-        }
-    }
 
     return(temp);
 }
@@ -1172,7 +1162,6 @@ void SegmentInit( int pass )
 
     if ( pass == PASS_1 ) {
         grpdefidx   = 0;
-        CV8Label = NULL;
     }
 
     /* Reset length of all segments to zero.
-- 
2.43.0


From 2f20a8da653956be88556ab23c3200085e663e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:38 +0000
Subject: [PATCH 100/114] fix: PE: further segments of a section were missing
 from the raw data or at another offset than in the image

---
 bin.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bin.c b/bin.c
index 782de78..58f20f4 100644
--- a/bin.c
+++ b/bin.c
@@ -223,7 +223,9 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
         return;
 
     grp = (struct dsym *)curr->e.seginfo->group;
-    if ( cp->alignment > curr->e.seginfo->alignment )
+    if ( ModuleInfo.sub_format == SFORMAT_PE )
+        align = 1 << cp->alignment; /* start of a section; see pe_set_values() for the others */
+    else if ( cp->alignment > curr->e.seginfo->alignment )
         align = 1 << cp->alignment;
     else
         align = 1 << curr->e.seginfo->alignment;
@@ -1311,8 +1313,12 @@ static void pe_set_values( struct calc_param *cp )
             cp->rva = (cp->rva + (malign - 1)) & (~(malign-1));
         } else {
             uint_32 align = 1 << curr->e.seginfo->alignment;
+            uint_32 pad = ((cp->rva + (align - 1)) & (~(align-1))) - cp->rva;
             cp->alignment = 0;
-            cp->rva = (cp->rva + (align - 1)) & (~(align-1));
+            cp->rva += pad;
+            /* the section is mapped as a whole: same padding in the file */
+            if ( curr->e.seginfo->segtype != SEGTYPE_BSS )
+                cp->fileoffset += pad;
         }
         CalcOffset( curr, cp );
         DebugMsg(("pe_set_values: section %s, start ofs=%" I32_SPEC "Xh, size=%" I32_SPEC "Xh, file ofs=%" I32_SPEC "Xh\n",
@@ -1360,7 +1366,7 @@ static void pe_set_values( struct calc_param *cp )
         }
         section->Characteristics |= pe_get_characteristics( curr );
         if ( curr->e.seginfo->segtype != SEGTYPE_BSS ) {
-            section->SizeOfRawData += curr->sym.max_offset;
+            section->SizeOfRawData = curr->sym.max_offset + ( curr->e.seginfo->start_offset - section->VirtualAddress );
         }
 
         /* v2.10: this calculation is not correct */
-- 
2.43.0


From 2f38630ee197624c6fc5cb119b0545a1a0143d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:38 +0000
Subject: [PATCH 101/114] fix: PE: export names were not in order if one is the
 start of another

---
 bin.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bin.c b/bin.c
index 58f20f4..27f3f76 100644
--- a/bin.c
+++ b/bin.c
@@ -884,13 +884,14 @@ static void pe_create_section_table( void )
 
 struct expitem {
     char *name;
+    char *expname; /* name as it is exported */
     unsigned idx;
 };
 
 static int compare_exp( const void *p1, const void *p2 )
 /*******************************************************/
 {
-    return( strcmp( ((struct expitem *)p1)->name, ((struct expitem *)p2)->name ) );
+    return( strcmp( ((struct expitem *)p1)->expname, ((struct expitem *)p2)->expname ) );
 }
 
 static void pe_emit_export_data( void )
@@ -932,6 +933,12 @@ static void pe_emit_export_data( void )
         for( curr = SymTables[TAB_PROC].head, pexp = pitems, i = 0; curr; curr = curr->nextproc ) {
             if( curr->e.procinfo->isexport ) {
                 pexp->name = curr->sym.name;
+                pexp->expname = curr->sym.name;
+                if ( Options.no_export_decoration == FALSE ) {
+                    Mangle( &curr->sym, StringBufferEnd );
+                    pexp->expname = LclAlloc( strlen( StringBufferEnd ) + 1 );
+                    strcpy( pexp->expname, StringBufferEnd );
+                }
                 pexp->idx  = i++;
                 pexp++;
             }
-- 
2.43.0


From 4def5af1fd9989ee0951debdeaacff2667fb2a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:38 +0000
Subject: [PATCH 102/114] fix: PE: image without base relocations had an empty
 section header

---
 bin.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin.c b/bin.c
index 27f3f76..a47af12 100644
--- a/bin.c
+++ b/bin.c
@@ -1334,6 +1334,9 @@ static void pe_set_values( struct calc_param *cp )
 
     if ( reloc ) {
         pe_set_base_relocs( reloc );
+        /* nothing to relocate? then there's no .reloc section */
+        if ( reloc->sym.max_offset == 0 )
+            objtab->sym.max_offset -= sizeof( struct IMAGE_SECTION_HEADER );
         cp->rva = reloc->e.seginfo->start_offset + reloc->sym.max_offset;
     }
 
-- 
2.43.0


From 809b21ca5be5ea826487f67e8e1763042ec88a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:24 +0000
Subject: [PATCH 103/114] fix: MZ: segments with PAGE alignment were aligned in
 the file instead of in the image

---
 bin.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin.c b/bin.c
index a47af12..36948d2 100644
--- a/bin.c
+++ b/bin.c
@@ -229,7 +229,9 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
         align = 1 << cp->alignment;
     else
         align = 1 << curr->e.seginfo->alignment;
-    alignbytes = ((cp->fileoffset + (align - 1)) & (-align)) - cp->fileoffset;
+    /* the image is aligned, not the file (which has a header) */
+    offset = cp->fileoffset - cp->sizehdr;
+    alignbytes = ((offset + (align - 1)) & (-align)) - offset;
     cp->fileoffset += alignbytes;
 
     if ( grp == NULL ) {
-- 
2.43.0


From c984e718cf0feaa24d7ad79ee75fbd9f63054a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:43 +0000
Subject: [PATCH 104/114] fix: MZ: segment-relative references to unaligned
 members of a group

---
 bin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin.c b/bin.c
index 36948d2..77ffae5 100644
--- a/bin.c
+++ b/bin.c
@@ -520,7 +520,7 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
                     }
 #endif
                 } else
-                    value = (seg->e.seginfo->start_offset & 0xF) + fixup->offset + offset;
+                    value = ((seg->e.seginfo->start_offset + ( seg->e.seginfo->group ? seg->e.seginfo->group->offset : 0 )) & 0xF) + fixup->offset + offset;
 
                 DebugMsg(("DoFixup(%s): loc=%04" I32_SPEC "X, sym=%s, target->start_offset=%" I32_SPEC "Xh, fixup->offset=%" I32_SPEC "Xh, fixup->sym->offset=%" I32_SPEC "Xh\n",
                         curr->sym.name, fixup->locofs, fixup->sym->name, seg->e.seginfo->start_offset, fixup->offset, offset ));
@@ -623,7 +623,7 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
                     *codeptr.dw = seg->e.seginfo->group->offset >> 4;
                     DebugMsg(("group.offset=%" I32_SPEC "Xh\n", seg->e.seginfo->group->offset ));
                 } else {
-                    *codeptr.dw = seg->e.seginfo->start_offset >> 4;
+                    *codeptr.dw = ( seg->e.seginfo->start_offset + ( seg->e.seginfo->group ? seg->e.seginfo->group->offset : 0 ) ) >> 4;
                     DebugMsg(("segment.offset=%" I32_SPEC "Xh\n", seg->e.seginfo->start_offset ));
                 }
                 break;
-- 
2.43.0


From 7cb0650112371a9655dcf762970677ac7d575b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:20 +0000
Subject: [PATCH 105/114] fix: MZ: uninitialized segments overlapped the
 segments that follow them

---
 bin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin.c b/bin.c
index 77ffae5..e2da04c 100644
--- a/bin.c
+++ b/bin.c
@@ -287,7 +287,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
         //fileoffset += curr->sym.max_offset;
 #if PE_SUPPORT
         cp->rva += curr->sym.max_offset - curr->e.seginfo->start_loc;
-        if ( curr->e.seginfo->segtype == SEGTYPE_BSS )
+        if ( curr->e.seginfo->segtype == SEGTYPE_BSS && ModuleInfo.sub_format != SFORMAT_MZ )
             ;
         else
 #endif
-- 
2.43.0


From 71957e7b3970247f4445bd9bf6e85fcfb9578deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:05 +0000
Subject: [PATCH 106/114] fix: MZ/BIN: wrong offsets in groups whose segments
 aren't adjacent

---
 H/symbols.h | 1 +
 bin.c       | 8 ++++++--
 segment.c   | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/H/symbols.h b/H/symbols.h
index 3dbc85a..0ce3032 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -302,6 +302,7 @@ struct grp_info {
     int                 grp_idx;        /* its group index (OMF) */
     int                 lname_idx;      /* LNAME index (OMF only) */
     unsigned            numseg;         /* OMF: number of segments in the group */
+    struct dsym         *lastseg;       /* BIN/MZ: last segment placed */
 };
 
 typedef uint_8 * (* FlushSegFunc)( struct dsym *, uint_8 *, unsigned, void * );
diff --git a/bin.c b/bin.c
index e2da04c..26ef5e9 100644
--- a/bin.c
+++ b/bin.c
@@ -246,8 +246,11 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
             if ( grp->sym.total_size == 0 ) {
                 grp->sym.offset = cp->fileoffset - cp->sizehdr;
                 offset = 0;
-            } else
-                offset = grp->sym.total_size + alignbytes;
+            } else {
+                /* segments that aren't members of the group may lie between */
+                struct dsym *last = grp->e.grpinfo->lastseg;
+                offset = last->e.seginfo->start_offset + last->e.seginfo->start_loc + cp->fileoffset - last->e.seginfo->fileoffset;
+            }
         DebugMsg(("CalcOffset(%s): fileofs=%" I32_SPEC "Xh, alignbytes=%" I32_SPEC "u, ofs=%" I32_SPEC "Xh, group=%s, grp.ofs=%" I32_SPEC "Xh\n",
                   curr->sym.name, cp->fileoffset, alignbytes, offset, grp->sym.name, grp->sym.offset ));
     }
@@ -298,6 +301,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
     offset += curr->sym.max_offset;
     if ( grp ) {
         //grp->sym.total_size = offset + curr->e.seginfo->start_loc;
+        grp->e.grpinfo->lastseg = curr;
         grp->sym.total_size = offset;
         /* v2.07: for 16-bit groups, ensure that it fits in 64 kB */
         if ( grp->sym.total_size > 0x10000 && grp->sym.Ofssize == USE16 ) {
diff --git a/segment.c b/segment.c
index 19ec121..6046340 100644
--- a/segment.c
+++ b/segment.c
@@ -255,6 +255,7 @@ static struct dsym *CreateGroup( const char *name )
         grp->e.grpinfo = LclAlloc( sizeof( struct grp_info ) );
         grp->e.grpinfo->seglist = NULL;
         grp->e.grpinfo->numseg = 0;
+        grp->e.grpinfo->lastseg = NULL;
         sym_add_table( &SymTables[TAB_GRP], grp );
 
         grp->sym.list = TRUE;
-- 
2.43.0


From 5e48136e9dbc9c53c48ba1d3525161bed1ab6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:01 +0000
Subject: [PATCH 107/114] fix: BIN/MZ: segment of a group that starts with ORG:
 contents misplaced, fixups written past the buffer

---
 bin.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bin.c b/bin.c
index 26ef5e9..fe3a796 100644
--- a/bin.c
+++ b/bin.c
@@ -267,7 +267,18 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
          * - group isn't FLAT or segment's name contains '$'
          */
         if ( grp && ( grp != ModuleInfo.flat_grp || strchr( curr->sym.name, '$' ) ) )
-            curr->e.seginfo->start_loc = 0;
+            if ( curr->e.seginfo->start_loc ) {
+                /* the buffer has to start at offset 0 as well */
+                if ( curr->e.seginfo->bufsize && curr->sym.max_offset > curr->e.seginfo->start_loc ) {
+                    uint_32 size = curr->sym.max_offset - curr->e.seginfo->start_loc;
+                    uint_8 *buffer = LclAlloc( curr->sym.max_offset );
+                    memset( buffer, 0, curr->sym.max_offset );
+                    memcpy( buffer + curr->e.seginfo->start_loc, curr->e.seginfo->CodeBuffer, size < curr->e.seginfo->bufsize ? size : curr->e.seginfo->bufsize );
+                    curr->e.seginfo->CodeBuffer = buffer;
+                    curr->e.seginfo->bufsize = curr->sym.max_offset;
+                }
+                curr->e.seginfo->start_loc = 0;
+            }
     }
 
     curr->e.seginfo->fileoffset = cp->fileoffset;
-- 
2.43.0


From 9cfd50673e7e7a7373ee8a574640d898d01dfee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:21 +0000
Subject: [PATCH 108/114] fix: MZ: image lacked the bytes before the ORG of a
 segment, references to it were wrong

---
 bin.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin.c b/bin.c
index fe3a796..6a0fa70 100644
--- a/bin.c
+++ b/bin.c
@@ -260,13 +260,14 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
      * "empty" alignment sections are now added to <fileoffset>.
      * todo: VA in binary map is displayed wrong.
      */
-    if ( cp->first == FALSE ) {
+    if ( cp->first == FALSE || ModuleInfo.sub_format == SFORMAT_MZ ) {
         /* v2.05: do the reset more carefully.
          * Do reset start_loc only if
+         * - format is MZ (nothing may be missing in the image) or
          * - segment is in a group and
          * - group isn't FLAT or segment's name contains '$'
          */
-        if ( grp && ( grp != ModuleInfo.flat_grp || strchr( curr->sym.name, '$' ) ) )
+        if ( ModuleInfo.sub_format == SFORMAT_MZ || ( grp && ( grp != ModuleInfo.flat_grp || strchr( curr->sym.name, '$' ) ) ) )
             if ( curr->e.seginfo->start_loc ) {
                 /* the buffer has to start at offset 0 as well */
                 if ( curr->e.seginfo->bufsize && curr->sym.max_offset > curr->e.seginfo->start_loc ) {
-- 
2.43.0


From 0ed97a1cb28a09c5ce580c207f96fe60fc79f94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:48 +0000
Subject: [PATCH 109/114] fix: BIN: SEG of a symbol in an absolute segment
 stored the offset and overwrote the two bytes after it

---
 bin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bin.c b/bin.c
index 6a0fa70..e67695e 100644
--- a/bin.c
+++ b/bin.c
@@ -620,6 +620,11 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
                 *codeptr.dw = ((struct dsym *)fixup->sym)->e.seginfo->abs_frame;
                 break;
             }
+            /* SEG of a symbol in an absolute segment is just the frame */
+            if ( seg && seg->e.seginfo->segtype == SEGTYPE_ABS ) {
+                *codeptr.dw = seg->e.seginfo->abs_frame;
+                break;
+            }
 #if MZ_SUPPORT
             if ( ModuleInfo.sub_format == SFORMAT_MZ ) {
                 DebugMsg(("DoFixup(%s, %04" I32_SPEC "X): FIX_SEG frame=%u, ", curr->sym.name, fixup->locofs, fixup->frame_type ));
-- 
2.43.0


From 7613f7e8c44ff2b941be25be1c2f5539e8ea3f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:48 +0000
Subject: [PATCH 110/114] fix: PE: section whose last segment is empty: header
 overwritten, size not rounded

---
 bin.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bin.c b/bin.c
index e67695e..da2d360 100644
--- a/bin.c
+++ b/bin.c
@@ -1274,6 +1274,7 @@ static void pe_set_values( struct calc_param *cp )
     struct dsym *mzhdr;
     struct dsym *pehdr;
     struct dsym *objtab;
+    struct dsym *next;
     struct dsym *reloc = NULL;
     struct IMAGE_PE_HEADER32 *ph32;
 #if AMD64_SUPPORT
@@ -1406,7 +1407,9 @@ static void pe_set_values( struct calc_param *cp )
         //section->Misc.VirtualSize += curr->sym.max_offset;
         section->Misc.VirtualSize = curr->sym.max_offset + ( curr->e.seginfo->start_offset - section->VirtualAddress );
 
-        if ( curr->next == NULL || curr->next->e.seginfo->lname_idx != i ) {
+        /* empty segments aren't in the section, even if they're the last ones */
+        for ( next = curr->next; next && next->sym.max_offset == 0; next = next->next );
+        if ( next == NULL || next->e.seginfo->lname_idx != i ) {
 #if RAWSIZE_ROUND /* AntiVir TR/Crypt.XPACK Gen */
             section->SizeOfRawData += cp->rawpagesize - 1;
             section->SizeOfRawData &= ~(cp->rawpagesize - 1);
@@ -1422,7 +1425,7 @@ static void pe_set_values( struct calc_param *cp )
                 datasize += section->SizeOfRawData;
             }
         }
-        if ( curr->next && curr->next->e.seginfo->lname_idx != i ) {
+        if ( next && next->e.seginfo->lname_idx != i ) {
             DebugMsg(("pe_set_values: object %.8s, VA=%" I32_SPEC "X size=%" I32_SPEC "X phys ofs/size=%" I32_SPEC "Xh/%" I32_SPEC "Xh\n",
                   section->Name, section->VirtualAddress, section->Misc.VirtualSize, section->PointerToRawData, section->SizeOfRawData ));
             section++;
-- 
2.43.0


From f2236fc1f2349b7c1b8d5f66ec71d0a0dbf683b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:48 +0000
Subject: [PATCH 111/114] fix: PE: image lacked the unwind data of PROC FRAME

---
 proc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index 2c9e0db..d774921 100644
--- a/proc.c
+++ b/proc.c
@@ -2254,7 +2254,10 @@ static void WriteSEHData(struct dsym *proc)
 	char buffer[128];
 
 	/* 2016-02-10 John Hankinson - Don't bother writing SEH data for ELF64, MACHO64 or Uasm flat mode even if it was generated */
-	if (Options.output_format == OFORMAT_ELF || Options.output_format == OFORMAT_BIN || Options.output_format == OFORMAT_MAC)
+	if (Options.output_format == OFORMAT_ELF || Options.output_format == OFORMAT_MAC)
+		return;
+	/* a PE image needs it */
+	if (Options.output_format == OFORMAT_BIN && ModuleInfo.sub_format != SFORMAT_PE)
 		return;
 
 	if (endprolog_found == FALSE) {
-- 
2.43.0


From 876b960319b945058413d62b59ba637e9b48de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:36 +0000
Subject: [PATCH 112/114] fix: PE: segments declared without FLAT got file
 offsets as addresses

---
 bin.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin.c b/bin.c
index da2d360..4551235 100644
--- a/bin.c
+++ b/bin.c
@@ -234,7 +234,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
     alignbytes = ((offset + (align - 1)) & (-align)) - offset;
     cp->fileoffset += alignbytes;
 
-    if ( grp == NULL ) {
+    if ( grp == NULL && ModuleInfo.sub_format != SFORMAT_PE ) {
         offset = cp->fileoffset - cp->sizehdr;
         DebugMsg(("CalcOffset(%s): fileofs=%" I32_SPEC "Xh, ofs=%" I32_SPEC "Xh\n", curr->sym.name, cp->fileoffset, offset ));
     } else {
@@ -252,7 +252,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
                 offset = last->e.seginfo->start_offset + last->e.seginfo->start_loc + cp->fileoffset - last->e.seginfo->fileoffset;
             }
         DebugMsg(("CalcOffset(%s): fileofs=%" I32_SPEC "Xh, alignbytes=%" I32_SPEC "u, ofs=%" I32_SPEC "Xh, group=%s, grp.ofs=%" I32_SPEC "Xh\n",
-                  curr->sym.name, cp->fileoffset, alignbytes, offset, grp->sym.name, grp->sym.offset ));
+                  curr->sym.name, cp->fileoffset, alignbytes, offset, grp ? grp->sym.name : "NULL", grp ? grp->sym.offset : 0 ));
     }
 
     /* v2.04: added */
@@ -524,8 +524,9 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
             default:
                 /* v2.01: don't use group if fixup explicitely refers the segment! */
                 //if ( seg->e.seginfo->group ) {
-                if ( seg && seg->e.seginfo->group && fixup->frame_type != FRAME_SEG ) {
-                    value = (seg->e.seginfo->group->offset & 0xF) + seg->e.seginfo->start_offset + fixup->offset + offset;
+                /* all segments of a PE image are flat, members of FLAT or not */
+                if ( seg && ( ModuleInfo.sub_format == SFORMAT_PE || ( seg->e.seginfo->group && fixup->frame_type != FRAME_SEG ) ) ) {
+                    value = (seg->e.seginfo->group ? seg->e.seginfo->group->offset & 0xF : 0) + seg->e.seginfo->start_offset + fixup->offset + offset;
 #if PE_SUPPORT
                     if ( ModuleInfo.sub_format == SFORMAT_PE || ModuleInfo.sub_format == SFORMAT_64BIT ) {
 #if AMD64_SUPPORT
-- 
2.43.0


From 755288e6efc20fe011375815d06bc8e7bb687655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:11 +0000
Subject: [PATCH 113/114] fix: COFF: -zls with COMDAT segments wrote symbol
 table entries not announced

---
 coff.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/coff.c b/coff.c
index 4487bca..6937cfe 100644
--- a/coff.c
+++ b/coff.c
@@ -432,7 +432,7 @@ static uint_32 coff_write_symbols( struct module_info *modinfo, struct coffmod *
             p = NULL;
         }
         coff_write_symbol(p, strpos, 0, i, IMAGE_SYM_TYPE_NULL, IMAGE_SYM_CLASS_STATIC,
-            Options.no_section_aux_entry == FALSE ? 1 : 0);
+            ( Options.no_section_aux_entry == FALSE || curr->e.seginfo->comdat_selection ) ? 1 : 0);
         cntSymbols++;
 
         /* write the auxiliary symbol record for sections.
@@ -711,9 +711,12 @@ static uint_32 SetSymbolIndices( struct module_info *ModuleInfo, struct coffmod
     /* add entries for sections */
 
     cm->sectionstart = index;
-    index += ModuleInfo->g.num_segs;
-    if ( Options.no_section_aux_entry == FALSE )
-        index += ModuleInfo->g.num_segs;
+    for( curr = SymTables[TAB_SEG].head ; curr != NULL ; curr = curr->next ) {
+        index++;
+        /* the aux entry of COMDAT sections is written in any case */
+        if ( Options.no_section_aux_entry == FALSE || curr->e.seginfo->comdat_selection )
+            index++;
+    }
 
     /* count externals and protos */
     for( curr = SymTables[TAB_EXT].head ; curr != NULL ; curr = curr->next ) {
@@ -914,10 +917,10 @@ static ret_code coff_write_data( struct module_info *modinfo, struct coffmod *cm
     }
 
 #if HELPSYMS==0
-    for( i = 0, section = SymTables[TAB_SEG].head; section ; i++, section = section->next ) {
-        section->sym.ext_idx = cm->sectionstart + i;
-        if ( Options.no_section_aux_entry == FALSE )
-            section->sym.ext_idx += i;
+    for( i = 0, section = SymTables[TAB_SEG].head; section ; section = section->next ) {
+        section->sym.ext_idx = cm->sectionstart + i++;
+        if ( Options.no_section_aux_entry == FALSE || section->e.seginfo->comdat_selection )
+            i++;
     }
 #endif
 
-- 
2.43.0


From cf67c4e4790d7e2a34bc7007a88377ee6f1021b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:03 +0000
Subject: [PATCH 114/114] fix: COFF: -zlp with .SAFESEH of a private procedure
 listed symbol 0

---
 coff.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/coff.c b/coff.c
index 6937cfe..fbbadde 100644
--- a/coff.c
+++ b/coff.c
@@ -737,6 +737,14 @@ static uint_32 SetSymbolIndices( struct module_info *ModuleInfo, struct coffmod
                 AddPublicData( &curr->sym );
             }
 #endif
+    /* .SAFESEH needs the symbol of a private procedure even with -zlp */
+    for ( q = ModuleInfo->g.SafeSEHQueue.head; q; q = q->next ) {
+        sym = (struct asym *)q->elmt;
+        if ( sym->state == SYM_INTERNAL && sym->ispublic == FALSE && sym->included == FALSE ) {
+            sym->included = TRUE;
+            AddPublicData( sym );
+        }
+    }
     /* count items in public queue */
     for ( q = ModuleInfo->g.PubQueue.head; q; q = q->next ) {
         sym = q->sym;
-- 
2.43.0

