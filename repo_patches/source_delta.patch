From 4e80d52fa49e04b12d7a67fa7da54fb6fe86e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 01/42] fix: start a new code record when the bytes do not
 follow the buffered ones

---
 src/scode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index bc85b32..fd0ab2e 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -72,7 +72,7 @@ void insert8(unsigned char x)
   {
     if (scode != NULL)
     {
-      if (rawnumber >= 16)
+      if (rawnumber >= 16 || rawstart + rawnumber != pc)
       {
         flushscoderaw();
       }
-- 
2.43.0


From c594cefc6c73811ab51966e83572a51960068a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 02/42] fix: assemble a file included from the last line of the
 source

---
 src/crasm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index f09dcf3..630c559 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -43,6 +43,7 @@ int errnumber;
 int warnnumber;
 int segment;
 extern int includelevel;
+extern int sourcelevel;
 extern int thiscall;
 struct label* starlabel;
 int llen;
@@ -262,7 +263,7 @@ void pass(int n)
 
   errnumber = warnnumber = 0;
 
-  while (!feof(file))
+  while (!feof(file) || sourcelevel > 0)
   {
     if (setjmp(errorjump))
     {
-- 
2.43.0


From 5ea2b6a08be41dc4637e8b03f950d33d02558963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 03/42] fix: accept ENDC, ENDM and macro calls on an
 unterminated last line

---
 src/macro.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index c107558..c2e8622 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -34,6 +34,7 @@
 
 extern jmp_buf errorjump;
 extern int errnumber;
+extern int sourcelevel;
 
 /* code des instructions */
 
@@ -67,6 +68,12 @@ int Xendc(int status, char* label, char* mnemo, char* oper)
   return ENDC;
 }
 
+/* the source is exhausted: nothing was read and no include is left to resume */
+static int endofsource(void)
+{
+  return feof(file) && sourcelevel <= 0 && !*curline;
+}
+
 #define EQ 1
 #define GT 2
 #define LT 4
@@ -233,7 +240,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
     linegets(curline, 250);
 
-    if (feof(file))
+    if (endofsource())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
@@ -306,7 +313,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
     linegets(curline, 250);
 
-    if (feof(file))
+    if (endofsource())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
@@ -451,7 +458,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
     zerobuffer();
     linegets(curline, 250);
 
-    if (feof(file))
+    if (endofsource())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
-- 
2.43.0


From 1e985ed9fb8760149deebb072a45b31eba6bdec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 04/42] fix: keep long FAIL messages inside the error line
 buffer

---
 src/crasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index 630c559..a610046 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -604,7 +604,7 @@ void error(char* s)
 
   if (!(asmflags & F_NOERROR))
   {
-    sprintf(raw, "%7d ERROR: %c%s", linenumber, c, s + 1);
+    snprintf(raw, sizeof(raw), "%7d ERROR: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
     {
-- 
2.43.0


From acb645b795784e90357c65dd0f9dcf19e5abf259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 05/42] fix: keep the listing line terminator inside linebuffer

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 389e396..b835d1f 100644
--- a/src/output.c
+++ b/src/output.c
@@ -82,7 +82,7 @@ void setpage(int xplen, int xllen)
     warning("page redefinition");
   }
 
-  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen > (int)sizeof(linebuffer))
+  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen >= (int)sizeof(linebuffer))
   {
     error("illegal values");
   }
-- 
2.43.0


From 7845fe7144c80c23c6d72eab78b72b04e082cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 06/42] fix: room for 64 bit addresses in the result summary

---
 src/xref.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xref.c b/src/xref.c
index ed21d52..e782ef6 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -127,7 +127,7 @@ void result(void)
 {
   extern int errnumber;
   extern int warnnumber;
-  char buffer[40];
+  char buffer[80];
 
   if (plen - ppos < 10)
   {
-- 
2.43.0


From 324c23bb734e56ad963ea0a06397ad9a5d86874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 07/42] fix: reject an unterminated ASC string

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 802939c..20f5139 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -232,6 +232,11 @@ int Xasc(int modifier, char* label, char* mnemo, char* oper)
 
   while ((r = *++s) != delimiter)
   {
+    if (r == 0)
+    {
+      error("syntax error");
+    }
+
     if (r == '\\')
     {
       switch (*++s)
-- 
2.43.0


From 159036103a7fe2cc00f9c6cb6e860cb5063a0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 08/42] fix: register ranges assembled forever

---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index e589756..168af2a 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -343,7 +343,7 @@ void opsub(struct result* presult, struct result* parg)
 
     while (lo <= hi)
     {
-      presult->value |= 1 << lo;
+      presult->value |= 1 << lo++;
     }
   }
   else
-- 
2.43.0


From ed6bdc09781591fadf88c4a8fa10b8fd0d5cbd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 09/42] fix: no division trap on the most negative value

---
 src/operator.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index 168af2a..29ba3ee 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -412,7 +412,11 @@ void opdiv(struct result* presult, struct result* parg)
   presult->flags |= parg->flags;
   checktype(presult, L_ABSOLUTE);
   checktype(parg, L_ABSOLUTE);
-  if (parg->value != 0)
+  if (parg->value == -1)
+  {
+    presult->value = -presult->value; /* LONG_MIN / -1 traps */
+  }
+  else if (parg->value != 0)
   {
     presult->value /= parg->value;
   }
-- 
2.43.0


From ae3a47775f7e8035c11ebd88b5567653800075f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 10/42] fix: Z80 logical operations take 8 bit operands only

---
 src/cpuz80.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 1a370cd..c590b4b 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -622,6 +622,10 @@ static int logical(int code, char* label, char* mnemo, char* oper)
     reg = 0x46;
     arg8flag = TRUE;
   }
+  else if (!isreg8(reg))
+  {
+    error(needreg8);
+  }
 
   return docode(code + reg);
 }
-- 
2.43.0


From f70b6e0d5986c71173ebaf56f2714a08572a764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 11/42] fix: DS rejects forward defined and impossible sizes

---
 src/pseudos.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pseudos.c b/src/pseudos.c
index 20f5139..1e4437d 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -185,7 +185,16 @@ int Xds(int modifier, char* label, char* mnemo, char* oper)
 
   r = parse(oper);
   checktype(r, L_ABSOLUTE);
-  i = r->value;
+
+  if ((r->flags & UNDEF) && (r->flags & FORWARD))
+  {
+    error("forward defined expressions are illegal here");
+  }
+
+  if ((i = r->value) < 0 || i != r->value)
+  {
+    error("illegal size");
+  }
 
   while (i--)
   {
-- 
2.43.0


From 8d38b03cec78aab40282b70c538fcf7d96016c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 12/42] fix: keep captured fields inside the filter buffer

---
 src/filter.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/filter.c b/src/filter.c
index b4a88ed..6057e6f 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -43,6 +43,18 @@ void zerobuffer(void)
 }
 
 
+/* bufferroom()
+   verifie qu'il reste un caractere, en plus du zero final
+*/
+static void bufferroom(void)
+{
+  if (bufferpos >= buffer + sizeof(buffer) - 1)
+  {
+    fatal("too complex line");
+  }
+}
+
+
 /* filter(s,f, ..&{char*}..)
    Retourne TRUE si s correspond au filtre f.
    WILDCARD signifie n'importe quelle chaine,
@@ -71,6 +83,7 @@ int filter(char* s, char* fil, ...)
     {
       char** strptr = va_arg(ap, char**);
       *bufferpos = 0;
+      bufferroom();
       *strptr = ++bufferpos;
       chars_consumed_by_filter = (s - str_start);
 
@@ -78,6 +91,7 @@ int filter(char* s, char* fil, ...)
       {
         while (*s)
         {
+          bufferroom();
           *bufferpos++ = *s++;
         }
 
@@ -159,6 +173,7 @@ int filter(char* s, char* fil, ...)
         }
       }
 
+      bufferroom();
       *bufferpos++ = *starts;
       s = ++starts;
       fil = startf;
-- 
2.43.0


From 26ee376630bdc2f1706cb2bbecf1fa8c4775d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 13/42] fix: count the warnings

---
 src/crasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crasm.c b/src/crasm.c
index a610046..4427e7f 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -642,6 +642,7 @@ void warning(char* s)
     }
 
     outputraw(raw);
+    warnnumber++;
   }
 }
 
-- 
2.43.0


From 9f971e9c4ea5a8abbe9890789569558dc258cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 14/42] fix: code length counts the bytes of one pass

---
 src/crasm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 4427e7f..c28c413 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -45,6 +45,7 @@ int segment;
 extern int includelevel;
 extern int sourcelevel;
 extern int thiscall;
+extern unsigned long codelen;
 struct label* starlabel;
 int llen;
 int ppos;
@@ -262,6 +263,7 @@ void pass(int n)
   fprintf(stderr, "Pass #%d\n", n);
 
   errnumber = warnnumber = 0;
+  codelen = 0;
 
   while (!feof(file) || sourcelevel > 0)
   {
-- 
2.43.0


From 60186dc136e570994539683082bf58b4b1f58323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 15/42] fix: a code file that cannot be written is an error

---
 src/scode.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index fd0ab2e..448d99c 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -34,6 +34,7 @@ int rawnumber;
 int rawextended;
 char raw[16];
 extern int includelevel;
+extern int errnumber;
 
 void setpc(long unsigned int addr)
 {
@@ -165,7 +166,11 @@ void closescodefile(void)
 
   if (scode)
   {
-    fclose(scode);
+    if (ferror(scode) | fclose(scode))
+    {
+      fileerror(scodename);
+      errnumber++;
+    }
   }
 }
 
-- 
2.43.0


From 77d641a14a2ef27792b1d16725fae9f2b331dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 16/42] fix: stop when a source file cannot be read

---
 src/macro.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index c2e8622..d7159cc 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -574,6 +574,12 @@ void linegets(char* buffer, int length)
     register char* s2;
     buffer[0] = 0;
     s1 = fgets(buffer, length, source[slevel].filedesc.file);
+
+    if (ferror(source[slevel].filedesc.file))
+    {
+      fatal("can't read source file");
+    }
+
     s2 = buffer;
     s1 = buffer;
 
-- 
2.43.0


From c0938255fcd850d2021fa350dcbd5e4acd333dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 17/42] fix: report symbols whose value the two passes disagree
 on

---
 src/label.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/label.c b/src/label.c
index 6948501..f214a66 100644
--- a/src/label.c
+++ b/src/label.c
@@ -188,7 +188,8 @@ struct label* findlabel(char* name)
 
   if (q == NULL)
   {
-    q = makelabel(name, UNDEF | FORWARD | NOREDEF,
+    q = makelabel(name,
+                  passnumber == 2 ? UNDEF : UNDEF | FORWARD | NOREDEF,
                   asmflags & F_RELATIF ? L_RELATIVE : L_ABSOLUTE);
   }
 
@@ -227,6 +228,12 @@ struct label* deflabel(char* name, unsigned char flags, unsigned char type, long
     }
   }
 
+  if (passnumber == 2 && (q->flags & UNDEF) && (q->flags & FORWARD) &&
+      q->value != value)
+  {
+    error("phase error: value differs from the first pass");
+  }
+
   q->flags &= USED | NOREDEF | FORWARD;
   flags    &= ~USED;
 
-- 
2.43.0


From 5f778ed81ea8f24605b6c4b6fcc9c7ad07735461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 18/42] fix: operators of equal precedence associate to the
 left

---
 src/parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9395b2e..91adbed 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -133,7 +133,10 @@ static void parse2(char* expr, struct result* presult)
 
         if (filter(expr, q[i].filtre, &ca, &cb))
         {
-          if (cb < c2 || j < 0)
+          /* split at the last operator: it has the longest left side,
+             which does not end with an operator (this is a sign then) */
+          if (j < 0 ||
+              (strlen(cb) > strlen(c2) && *cb != '+' && *cb != '-'))
           {
             c1 = ca;
             c2 = cb;
-- 
2.43.0


From b3a685b9f173e287aad972f25c8ae7c62767b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 19/42] fix: constants compared unequal after a register was
 evaluated

---
 src/operator.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operator.c b/src/operator.c
index 29ba3ee..cbfa71b 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -35,6 +35,7 @@ static void cst(struct result* presult, long int val)
 {
   presult->flags = 0;
   presult->type = L_ABSOLUTE;
+  presult->modifier = 0;
   presult->value = val;
 }
 
-- 
2.43.0


From 1147093fd1d62921c869220c8a9bbbe6cbe7acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 20/42] fix: no accumulator operand for ldx, ldy, cpx, cpy,
 bit, tsb and trb

---
 src/cpu6502.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 3964262..ac60a90 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -184,6 +184,11 @@ static int standard(int code, char* label, char* mnemo, char* oper)
 
     if (mode == 10 && r->type == L_REGS && r->modifier == 0)
     {
+      if (code & F_noacc)
+      {
+        error("illegal addressing mode");
+      }
+
       mode = 15;
     }
     else
-- 
2.43.0


From 2897540333aef28171509370e59210edc27b374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 21/42] fix: indexed bit is a 65C02 addressing mode

---
 src/cpu6502.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index ac60a90..bf1e4ef 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -253,7 +253,8 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   if (cpuflag < 2)
   {
     if (mode == 4 || opcode == 0x7c || opcode == 0x89 ||
-                     opcode == 0x1a || opcode == 0x3a)
+                     opcode == 0x1a || opcode == 0x3a ||
+                     opcode == 0x34 || opcode == 0x3c)
     {
       error("illegal use of 65C02 addressing mode");
     }
-- 
2.43.0


From 481a17288b501ded6592347102b3e5eb344ce457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 22/42] fix: binary constants of more than 32 bits overflow

---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index cbfa71b..107ca52 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -165,7 +165,7 @@ void cstbinary(struct result* presult, char* s)
 
     r = *s - '0';
 
-    if (val > 0xefffffff)
+    if (val > 0x7fffffff)
     {
       error(overflow);
     }
-- 
2.43.0


From 3197b61da8a9c5c2dbac710b8a10e9e87f77e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 23/42] fix: bit instructions have one length in both passes

---
 src/cpuz80.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index c590b4b..5679aef 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -562,20 +562,20 @@ static int bitop(int code, char* label, char* mnemo, char* oper)
   r = parse(oper1);
   checktype(r, L_ABSOLUTE);
   bit = r->value;
+  reg = getreg(oper2);
 
-  if (bit < 0 || bit > 7)
+  if (! isreg8(reg))
   {
-    error("illegal bit number");
+    error(needreg8);
   }
 
-  reg = getreg(oper2);
+  docode(code + reg + ((bit & 7) << 3));
 
-  if (! isreg8(reg))
+  if (bit < 0 || bit > 7)
   {
-    error(needreg8);
+    error("illegal bit number");
   }
 
-  docode(code + reg + (bit << 3));
   return 0;
 }
 
-- 
2.43.0


From 2b1fb673ca020a3f048b528098814fd6f8fa3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 24/42] fix: the 6500 has no ROR instruction

The modifier of a mnemonic is a short, so the flags of ror arrive sign
extended and the comparison never held.
---
 src/cpu6502.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index bf1e4ef..baf212c 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -244,7 +244,7 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   /* test specials modes */
   if (cpuflag < 1)
   {
-    if (code == (0x60 | 0x100 | F_noimm | F_noindy))
+    if ((code & 0xffff) == (0x60 | 0x100 | F_noimm | F_noindy))
     {
       error("no ROR instruction on 6500");
     }
-- 
2.43.0


From 8a6f88e4da382d8abedccfef6218f2bd6330f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 25/42] fix: Z80 in/out accept blanks inside the port
 parentheses

Every other memory operand of the Z80 accepts them; in and out reported a
syntax error for a well formed operand.
---
 src/cpuz80.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 5679aef..66128ba 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -495,8 +495,8 @@ static int inout(int code, char* label, char* mnemo, char* oper)
   CLRALL;
 
   if ((!(code & 8)) ?
-      filter(oper, "(?)_,_?", &op1, &op2)
-      : filter(oper, "?_,_(?)", &op2, &op1))
+      filter(oper, "(_?_)_,_?", &op1, &op2)
+      : filter(oper, "?_,_(_?_)", &op2, &op1))
   {
     reg = getreg(op1);
 
-- 
2.43.0


From 786b86320127426fbb895dac855a7fd4a094ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 26/42] fix: a macro definition ends at the word ENDM only

---
 src/macro.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index d7159cc..e64e67e 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -411,6 +411,19 @@ int Xendm(int status, char* label, char* mnemo, char* oper)
 }
 
 
+/* the line ends a macro definition: ENDM is one of its words.
+   s1 and s2 get what stands before and after it */
+static int endofmacro(char* line, char** s1, char** s2)
+{
+  *s1 = "";
+  *s2 = "";
+  return filter(line, "_ENDM_")
+         || filter(line, "_ENDM ?", s2)
+         || filter(line, "_? ENDM_", s1)
+         || filter(line, "_? ENDM ?", s1, s2);
+}
+
+
 int Xmacro(int status, char* label, char* mnemo, char* oper)
 {
   jmp_buf errjmpsav;
@@ -481,7 +494,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
     {
       outputline();
     }
-  } while (! filter(s1, "_?_ENDM_?", &s1, &s2));
+  } while (! endofmacro(s1, &s1, &s2));
 
   jmp_buf_copy(errorjump, errjmpsav);
 
-- 
2.43.0


From 20bb4493b3709fc749f48db420dbf818edbe6936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 27/42] fix: report the redefinition of a macro

---
 src/crasm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index c28c413..ff740d1 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -542,7 +542,9 @@ start:
 
   if (labmnemo->type == L_MACRO)
   {
-    if (label && oper && !strncmp(oper, "MACRO", 5))
+    struct label* redef = (status & 2) && oper ? findmnemo(oper) : NULL;
+
+    if (redef && redef->type == L_MNEMO && redef->ptr == Xmacro)
     {
       error("macro is already defined");
     }
-- 
2.43.0


From ca2e8541825129d523cfc7e2d5d1edb97371cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 28/42] fix: a conditional left open in a macro is an error of
 the call

---
 src/macro.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index e64e67e..65a53e4 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -68,11 +68,7 @@ int Xendc(int status, char* label, char* mnemo, char* oper)
   return ENDC;
 }
 
-/* the source is exhausted: nothing was read and no include is left to resume */
-static int endofsource(void)
-{
-  return feof(file) && sourcelevel <= 0 && !*curline;
-}
+static int endofsource(void);
 
 #define EQ 1
 #define GT 2
@@ -545,6 +541,25 @@ int includelevel;
 #define S_FILE  1
 #define S_MACRO 2
 
+/* the source is exhausted: nothing was read and no include is left to
+   resume, or all the lines of a macro were read */
+static int endofsource(void)
+{
+  if (*curline)
+  {
+    return FALSE;
+  }
+
+  if (sourcelevel > 0)
+  {
+    return source[sourcelevel].type == S_MACRO
+           && source[sourcelevel].macrodesc.mlineptr == NULL;
+  }
+
+  return feof(file);
+}
+
+
 void linegets(char* buffer, int length)
 {
   register int slevel;
@@ -639,13 +654,15 @@ void linegets(char* buffer, int length)
     numarg = source[slevel].macrodesc.numarg;
     replace = source[slevel].macrodesc.replace;
     s1 = buffer;
-    s2 = q->line;
 
     if (!q)
     {
-      fatal("internal macrocall error");
+      *buffer = 0;
+      return;
     }
 
+    s2 = q->line;
+
     source[slevel].macrodesc.mlineptr = q->next;
 
     while (*s2)
@@ -848,6 +865,13 @@ int macrocall(struct label* labmacro, int status, char* oper)
       errnumber++;
     }
 
+    /* the ENDM was read inside of a conditional left open */
+    if (source[slevel].macrodesc.mlineptr == NULL)
+    {
+      flag = ENDM;
+      break;
+    }
+
     linegets(curline, 250);
     flag = asmline(curline, status & mystatus);
   } while (flag == 0);
-- 
2.43.0


From a31b1ceaf3e0e1c53162e309f6796a69519092ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 29/42] fix: a line that is not a well formed label is an error

---
 src/crasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index ff740d1..962f527 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -493,6 +493,11 @@ start:
 
       if (status & 2)
       {
+        if (checklabel(label) == FALSE)
+        {
+          error("malformed label");
+        }
+
         herelabel(label);
       }
 
-- 
2.43.0


From 2c9ed02a2f6446cddfeca06e0ecf5cee0ac60c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 30/42] fix: long local labels with different names are
 different

---
 src/label.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/label.c b/src/label.c
index f214a66..e7cf5af 100644
--- a/src/label.c
+++ b/src/label.c
@@ -44,8 +44,15 @@ struct label* lroot = NULL;
 int checklabel(char* name)
 {
   register char c;
+  extern int segment;
+  int maxlen = LABLEN;
+
+  if (*name == '.')   /* room for the prefix of local labels */
+  {
+    maxlen -= snprintf(NULL, 0, "%d", segment);
+  }
 
-  if (strlen(name) > LABLEN)
+  if (strlen(name) > maxlen)
   {
     return FALSE;
   }
-- 
2.43.0


From 20c91d4b633adc85ca376ca37752db352179a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 31/42] fix: macro arguments longer than 59 characters are kept
 whole

---
 src/macro.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 65a53e4..56d18a0 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -31,6 +31,7 @@
 #include <ctype.h>
 
 #define MAXSOURCEDEEP 10
+#define MAXARGLEN 255
 
 extern jmp_buf errorjump;
 extern int errnumber;
@@ -528,7 +529,7 @@ union
     byte oldlist;
     byte oldprefix;
     int  oldlinnum;
-    char (*replace)[60];
+    char (*replace)[MAXARGLEN + 1];
     int  numarg;
     struct macroline* mlineptr;
   } macrodesc;
@@ -646,7 +647,7 @@ void linegets(char* buffer, int length)
   {
     register struct macroline* q;
     int numarg;
-    char (*replace)[60];
+    char (*replace)[MAXARGLEN + 1];
     register char* s1;
     register char* s2;
 
@@ -776,7 +777,7 @@ extern int segment;
 
 int macrocall(struct label* labmacro, int status, char* oper)
 {
-  char replace[10][60];
+  char replace[10][MAXARGLEN + 1];
   register int slevel, flag;
   int numarg, oldsegment, mystatus;
   jmp_buf errjmpsav;
@@ -802,8 +803,8 @@ int macrocall(struct label* labmacro, int status, char* oper)
 
   if (oper && *oper)
   {
-    strncpy(replace[9], oper, 59);
-    replace[9][59] = 0;
+    strncpy(replace[9], oper, MAXARGLEN);
+    replace[9][MAXARGLEN] = 0;
   }
 
   while (oper && *oper)
@@ -819,13 +820,13 @@ int macrocall(struct label* labmacro, int status, char* oper)
     if (filter(oper, "?_,_?", &arg1, &arg2))
     {
       oper = arg2;
-      strncpy(replace[numarg], arg1, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], arg1, MAXARGLEN);
+      replace[numarg++][MAXARGLEN] = 0;
     }
     else
     {
-      strncpy(replace[numarg], oper, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], oper, MAXARGLEN);
+      replace[numarg++][MAXARGLEN] = 0;
       oper = NULL;
     }
   }
-- 
2.43.0


From 10df0325cb2455cc90f9ba22ea83227c2526547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 32/42] fix: a line cut in the last argument of a macro is
 reported

---
 src/macro.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 56d18a0..bb7b01d 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -710,6 +710,12 @@ void linegets(char* buffer, int length)
           *s1++ = *s++;
         }
 
+        if (s && *s)
+        {
+          warning("Too long line");
+          break;
+        }
+
         s2++;
       }
       else
-- 
2.43.0


From 8468d283f8552ed734e5282ab7a6faaaa088eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 33/42] fix: an expression of many terms does not stop the
 assembler

---
 src/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.c b/src/filter.c
index 6057e6f..195d017 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -31,7 +31,7 @@
 #define SPACES   '_'    /* saute X espaces, X>=0    */
 
 char* bufferpos;
-char buffer[4000];
+char buffer[200000];
 unsigned int chars_consumed_by_filter;
 
 /* zerobuffer()
-- 
2.43.0


From 261cf7f464befa6094047c986457605d637d6493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 34/42] fix: a line too long for the line buffer is an error,
 not two lines

---
 src/macro.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index bb7b01d..d82173c 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -601,9 +601,22 @@ void linegets(char* buffer, int length)
   {
     register char* s1;
     register char* s2;
+    int toolong = FALSE;
     buffer[0] = 0;
+    buffer[length - 2] = 0;
     s1 = fgets(buffer, length, source[slevel].filedesc.file);
 
+    /* no end of line in a full buffer: skip the rest of the line */
+    if (s1 && buffer[length - 2] && buffer[length - 2] != '\n')
+    {
+      int c;
+
+      while ((c = getc(source[slevel].filedesc.file)) != EOF && c != '\n')
+      {
+        toolong |= !isspace(c);
+      }
+    }
+
     if (ferror(source[slevel].filedesc.file))
     {
       fatal("can't read source file");
@@ -642,6 +655,11 @@ void linegets(char* buffer, int length)
     {
       source[slevel].type = S_END;
     }
+
+    if (toolong)
+    {
+      error("too long line");
+    }
   }
   else
   {
-- 
2.43.0


From 87aaca7d7975e0ec0f13450572ce24c1e241d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 35/42] fix: a negative bit number is an overflow, not another
 bit

---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index 107ca52..2bc9633 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -366,7 +366,7 @@ void opbit(struct result* presult, struct result* parg)
   presult->type  = L_DIRECTBIT;
   presult->modifier = parg->value;
 
-  if (parg->value > 32)
+  if (parg->value < 0 || parg->value > 32)
   {
     error(overflow);
   }
-- 
2.43.0


From 19ff07eb9e3dd61e77b7f956ae667ea2f132b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 36/42] fix: a constant ending in an escaped backslash is an
 operand like any other

---
 src/filter.c | 70 ++++++++++++++++------------------------------------
 1 file changed, 21 insertions(+), 49 deletions(-)

diff --git a/src/filter.c b/src/filter.c
index 195d017..c6e8ec3 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -191,63 +191,35 @@ void reverse(char* s)
   register char* d;
   register char* f;
   register char c;
-  register int quote = 0;
+  register char quote = 0;
 
-  d = s;
-  f = s;
-
-  while (*d)
+  /* the two characters of an escape keep their order */
+  for (d = s; *d; d++)
   {
-    d++;
+    if (quote && *d == '\\' && d[1])
+    {
+      *d = d[1];
+      *++d = '\\';
+    }
+    else if (quote)
+    {
+      if (*d == quote)
+      {
+        quote = 0;
+      }
+    }
+    else if (*d == '\'' || *d == '\"')
+    {
+      quote = *d;
+    }
   }
 
+  f = s;
+
   while (--d > f)
   {
     c = *f;
     *f++ = *d;
     *d = c;
   }
-
-  for (d = s; *d; d++)
-  {
-    switch (*d)
-    {
-    case '\'':
-      if (! quote)
-      {
-        quote |= 0x1;
-      }
-      else if (quote & 0x1)
-      {
-        if (d[1] != '\\')
-        {
-          quote &= ~0x1;
-        }
-      }
-      break;
-
-    case '\"':
-      if (! quote)
-      {
-        quote |= 0x2;
-      }
-      else if (quote & 0x2)
-      {
-        if (d[1] != '\\')
-        {
-          quote &= ~0x2;
-        }
-      }
-      break;
-
-    case '\\':
-      if (quote)
-      {
-        d[0] = d[-1];
-        d[-1] = '\\';
-      }
-      break;
-    }
-  }
 }
-
-- 
2.43.0


From 65f3662345e80f51a61b71771a5baf75cf6e7d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 37/42] fix: list a macro call whose expansion changes MLIST by
 the setting at the call

---
 src/macro.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index d82173c..367803c 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -920,7 +920,8 @@ int macrocall(struct label* labmacro, int status, char* oper)
     error("ELSE or ENDC illegal here");
   }
 
-  if (!(asmflags & F_MACROLIST_ON))
+  /* the expansion was not listed */
+  if (!(mystatus & 1))
   {
     strcpy(curline, curlinesav);
 
-- 
2.43.0


From 0feb75d18cb09fc76076b3db116227ff39d28679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 38/42] fix: a byte listed after a value shown by EQU starts a
 line of its own

---
 src/output.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index b835d1f..ef00e83 100644
--- a/src/output.c
+++ b/src/output.c
@@ -304,11 +304,11 @@ void outputline(void)
 
 char hexa[] = "0123456789ABCDEF";
 extern unsigned long pc;
+static unsigned long mypc;      /* address of what follows on the line */
 
 void outputbyte(int b)
 {
   char buffer[3];
-  static unsigned long mypc;
 
   if (advance > 20 && lpos > NMARGIN - 5)
   {
@@ -349,6 +349,7 @@ void outputaddr(unsigned long a)
   register int i;
   register char* s;
 
+  mypc = a;
   s = buffer;
   i = 28;
 
-- 
2.43.0


From 3654da075c590851455425bdf02c7a9b13cbb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:58 +0000
Subject: [PATCH 39/42] fix: room for a line number of ten digits

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index ef00e83..dabb34a 100644
--- a/src/output.c
+++ b/src/output.c
@@ -260,7 +260,7 @@ void outputEOL(void)
 /* peut etre ameliore pour tabuler automatiquement */
 void outputline(void)
 {
-  char linnum[10];
+  char linnum[12];
   register int i;
 
   lastoffset = 0;
-- 
2.43.0


From a853964448d442bf9ebf1eab18695a4f37ac32dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:31 +0000
Subject: [PATCH 40/42] fix: ILIST is off at the start of each pass, as
 documented

The setting of the first pass stayed in force at the start of the second, so a
file included before ILIST ON was listed.
---
 src/crasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index 962f527..2449282 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -245,7 +245,7 @@ void pass(int n)
 #ifdef DEBUG
   asmflags |= F_IFLIST_ON | F_MACROLIST_ON;
 #else
-  asmflags &= ~ F_MACROLIST_ON;
+  asmflags &= ~ (F_MACROLIST_ON | F_INCLUDELIST_ON);
   asmflags |=   F_IFLIST_ON;
 #endif
   macrolevel    = 0;
-- 
2.43.0


From 1374d29bad67f2ebfeb3ef6b33f26cd995ffd397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:31 +0000
Subject: [PATCH 41/42] fix: an INCLUDE in a macro is listed only when the
 expansion is

With MLIST off the line of the directive was listed alone, with the bytes that
the lines before it had placed.
---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 367803c..064252b 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -777,7 +777,7 @@ int Xinclude(int modifier, char* label, char* mnemo, char* oper)
   source[slevel].filedesc.oldlist = (asmflags & F_LIST_ON) ? 1 : 0;
   source[slevel].filedesc.file  = f;
 
-  if (asmflags & F_LIST_ON)
+  if (asmflags & F_LIST_ON && (macrolevel == 0 || asmflags & F_MACROLIST_ON))
   {
     outputline();
   }
-- 
2.43.0


From c6eb0147be5fadc9df0901f6fe319017c68e3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:10 +0000
Subject: [PATCH 42/42] fix: OUTPUT SCODE is not overridden by CPU Z80

OUTPUT SCODE before CPU Z80 gave Intel hex, after it and after the first
code of the program a file with records of both formats.
---
 src/cpuz80.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 66128ba..c34b855 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -979,7 +979,11 @@ endmnemos
 
 void initz80(int code)
 {
-  setflag(F_CODE_HEX);  /* Intel hex by default */
+  if (!(asmflags & F_CODE_SCODE)) /* not chosen by OUTPUT */
+  {
+    setflag(F_CODE_HEX);  /* Intel hex by default */
+  }
+
   setflag(F_ADDR16);    /* 16 bits address      */
   setflag(F_LOHI);      /* LSB first            */
   clrflag(F_RELATIF);   /* no translatable code */
-- 
2.43.0

