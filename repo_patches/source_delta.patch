From 49aa6b00ac56406898747af95620d931331a968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 01/38] fix: a failure to write or close the code file is fatal

Write errors were noticed only per byte, reported on standard output and then
ignored; errors that surfaced in fputs(), fputc() or fclose() were not noticed
at all, so that a truncated code file was reported as a successful assembly.
---
 src/scode.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/scode.c b/src/scode.c
index bc85b32..9505f93 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -136,6 +136,13 @@ void insert32(unsigned int x)
 
 static unsigned char checksum;
 
+static void scodeerror(void)
+{
+  fileerror(scodename);
+  fatal("can't write scode file");
+}
+
+
 static void scodebyte(unsigned char b)
 {
   checksum += b;
@@ -145,7 +152,7 @@ static void scodebyte(unsigned char b)
 
   if (ferror(scode))
   {
-    fileerror(scodename);
+    scodeerror();
   }
 }
 
@@ -163,10 +170,13 @@ void closescodefile(void)
     fputs("S9030000FC\n", scode);
   }
 
-  if (scode)
+  if (ferror(scode) | fclose(scode))
   {
-    fclose(scode);
+    scode = NULL;
+    scodeerror();
   }
+
+  scode = NULL;
 }
 
 
-- 
2.43.0


From d7c8e475b14168c3c277d70fbb8ef5150f137042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 02/38] fix: exit status tells that the source had errors

The status was 0 however many errors were found, so that make went on.
---
 src/crasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index f09dcf3..2d06c61 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -145,6 +145,11 @@ int main(int argc, char** argv)
   if (flags & INPUT)
   {
     crasm(flags);
+
+    if (errnumber)
+    {
+      return 5;
+    }
   }
   else
   {
-- 
2.43.0


From b2ab2a4392af9c87c6d1716b2d7ff95da5b82c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 03/38] fix: an error while reading the source is fatal

A read error on an include was taken for its end, one on the main file made
the pass loop for ever because feof() never became true (crasm some_directory).
A source that cannot be rewound, such as a pipe, was silently assembled to
nothing in the second pass.
---
 src/crasm.c | 6 +++++-
 src/macro.c | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index 2d06c61..d11abfe 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -236,7 +236,11 @@ void crasm(int flag)
 void pass(int n)
 {
   clearerr(file);
-  rewind(file);
+
+  if (fseek(file, 0L, SEEK_SET))
+  {
+    fatal("can't rewind source file");
+  }
 
   asmflags |= F_CODE_ON;
 
diff --git a/src/macro.c b/src/macro.c
index c107558..5c53f72 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -567,6 +567,12 @@ void linegets(char* buffer, int length)
     register char* s2;
     buffer[0] = 0;
     s1 = fgets(buffer, length, source[slevel].filedesc.file);
+
+    if (ferror(source[slevel].filedesc.file))
+    {
+      fatal("can't read source file");
+    }
+
     s2 = buffer;
     s1 = buffer;
 
-- 
2.43.0


From fe70e74a17344d36571f4cc5aeeb80338f167496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 04/38] fix: a fatal error removes the unfinished code file

fatal() left the records written so far under the name of the code file.
---
 src/crasm.c |  1 +
 src/dcl.h   |  1 +
 src/scode.c | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index d11abfe..f4a6c20 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -656,6 +656,7 @@ void warning(char* s)
 
 void fatal(char* s)
 {
+  discardscodefile();
   printf("FATAL ERROR: %s\n", s);
   exit(10);
 }
diff --git a/src/dcl.h b/src/dcl.h
index 5d5e059..6a4621e 100644
--- a/src/dcl.h
+++ b/src/dcl.h
@@ -112,6 +112,7 @@ extern void reverse(char* s);
 /* external: scode.c */
 extern void flushscoderaw(void);
 extern void closescodefile(void);
+extern void discardscodefile(void);
 extern void setpc(long unsigned int addr);
 extern void insert8(unsigned char x);
 extern void insert16(short unsigned int x);
diff --git a/src/scode.c b/src/scode.c
index 9505f93..9a6a949 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -173,6 +173,7 @@ void closescodefile(void)
   if (ferror(scode) | fclose(scode))
   {
     scode = NULL;
+    remove(scodename);
     scodeerror();
   }
 
@@ -180,6 +181,17 @@ void closescodefile(void)
 }
 
 
+void discardscodefile(void)
+{
+  if (scode)
+  {
+    fclose(scode);
+    scode = NULL;
+    remove(scodename);
+  }
+}
+
+
 void flushscoderaw(void)
 {
   register int i;
-- 
2.43.0


From 471ffb990305805b80f9b5e4a88bf7d77040fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 05/38] fix: the code file of an erroneous source is never
 completed

It was given its end record and closed, and removed only afterwards: killed in
between, crasm left a well-formed but wrong code file.
---
 src/crasm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index f4a6c20..d2db3c8 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -207,7 +207,11 @@ void crasm(int flag)
   undeflabels(lroot);
   pass(2);
 
-  if (scode)
+  if (errnumber)
+  {
+    discardscodefile();
+  }
+  else if (scode)
   {
     closescodefile();
   }
-- 
2.43.0


From 95d6a6d250b31d64c5282ba8e128c42e8c76ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 06/38] fix: a last line without newline is assembled like any
 other

An INCLUDE there was never read, and ENDC, ENDM or the call of a macro that
contains IF were mistaken for an unexpected end of file.
---
 src/crasm.c |  3 ++-
 src/macro.c | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index d2db3c8..66484d8 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -43,6 +43,7 @@ int errnumber;
 int warnnumber;
 int segment;
 extern int includelevel;
+extern int sourcelevel;
 extern int thiscall;
 struct label* starlabel;
 int llen;
@@ -275,7 +276,7 @@ void pass(int n)
 
   errnumber = warnnumber = 0;
 
-  while (!feof(file))
+  while (!feof(file) || sourcelevel > 0)
   {
     if (setjmp(errorjump))
     {
diff --git a/src/macro.c b/src/macro.c
index 5c53f72..de003eb 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -177,6 +177,18 @@ static int testtrue(char* oper)
 }
 
 
+/* sourceended()
+   TRUE once the last line of the main file has been read and processed:
+   that line may lack its newline, or be an INCLUDE or a macro call.
+*/
+extern int sourcelevel;
+
+static int sourceended(void)
+{
+  return feof(file) && sourcelevel <= 0 && !*curline;
+}
+
+
 int Xif(int status, char* label, char* mnemo, char* oper)
 {
   int flag;
@@ -233,7 +245,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
     linegets(curline, 250);
 
-    if (feof(file))
+    if (sourceended())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
@@ -306,7 +318,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
     linegets(curline, 250);
 
-    if (feof(file))
+    if (sourceended())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
@@ -451,7 +463,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
     zerobuffer();
     linegets(curline, 250);
 
-    if (feof(file))
+    if (sourceended())
     {
       jmp_buf_copy(errorjump, errjmpsav);
       error("Unexpected End of File");
-- 
2.43.0


From c51b1d32df63a52713f2a5ed86637a2f71f6bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 07/38] fix: constants do not inherit the bit number of an
 earlier operand

cst() left modifier and ptr as it found them, so that IF compared a number with
whatever an earlier bit reference, or uninitialised memory, had left there.
---
 src/operator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operator.c b/src/operator.c
index e589756..bd620cc 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -35,6 +35,8 @@ static void cst(struct result* presult, long int val)
 {
   presult->flags = 0;
   presult->type = L_ABSOLUTE;
+  presult->modifier = 0;
+  presult->ptr = NULL;
   presult->value = val;
 }
 
-- 
2.43.0


From 89e13b6ff1ec004422872d1ce4225c20628fd9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 08/38] fix: start each pass with a fresh record address and
 code length

When the first pass ended at the very address where the program starts, the
first record of the second pass got a stale address. The code length in the
summary counted both passes.
---
 src/crasm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 66484d8..9926387 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -44,6 +44,7 @@ int warnnumber;
 int segment;
 extern int includelevel;
 extern int sourcelevel;
+extern unsigned long codelen;
 extern int thiscall;
 struct label* starlabel;
 int llen;
@@ -271,6 +272,9 @@ void pass(int n)
   starlabel->flags |= UNDEF;
   starlabel->flags &= ~(NOREDEF | FORWARD);
 
+  flushscoderaw();
+  codelen = 0;
+
   passnumber = n;
   fprintf(stderr, "Pass #%d\n", n);
 
-- 
2.43.0


From 188d080f7190a62b30a47c8477e4503725e004d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 09/38] fix: a CODE section after DUMMY starts a new record

Its bytes were appended to the record begun before DUMMY, at the wrong address,
unless an origin stood in between.
---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 802939c..7c6089f 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -286,6 +286,11 @@ int Xcode(int modifier, char* label, char* mnemo, char* oper)
     error("no operand for CODE pseudo");
   }
 
+  if (!(asmflags & F_CODE_ON))
+  {
+    flushscoderaw();
+  }
+
   segment = ++thiscall;
   asmflags |= F_CODE_ON;
   return 0;
-- 
2.43.0


From b076abbff6b471df25b069e76c513b0276d4e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 10/38] fix: no record of the code file crosses a 64K boundary

The address of HEX and S1 records has 16 bits: the bytes beyond the boundary
were placed 64K too low.
---
 src/scode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index 9a6a949..30e4569 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -72,7 +72,7 @@ void insert8(unsigned char x)
   {
     if (scode != NULL)
     {
-      if (rawnumber >= 16)
+      if (rawnumber >= 16 || (pc & 0xffff) == 0)
       {
         flushscoderaw();
       }
-- 
2.43.0


From 6beb1a15de9b79e54b07883ff23b1193274240a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 11/38] fix: labels that change between the passes are errors

A reference before the definition uses the value from the first pass. Nothing
checked that the second pass then defines the label with this value, or at all:
'DS forward', a chain of forward EQUs, or an include that could be opened in the
second pass only shifted the code and was reported as a successful assembly.
---
 src/crasm.c   | 10 ++++++++++
 src/label.c   | 32 ++++++++++++++++++++++++++++++++
 src/label.h   |  5 +++++
 src/pseudos.c |  7 +++++++
 4 files changed, 54 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 9926387..db7bdd9 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -294,6 +294,16 @@ void pass(int n)
       error("ELSE, ENDC, ENDM, EXITM illegal here");
     }
   }
+
+  if (setjmp(errorjump))
+  {
+    errnumber++;
+  }
+  else
+  {
+    advance = 0;
+    checklabels(lroot);
+  }
 }
 
 
diff --git a/src/label.c b/src/label.c
index 6948501..239b661 100644
--- a/src/label.c
+++ b/src/label.c
@@ -30,6 +30,8 @@
 #include "label.h"
 #define LABELARRAYSIZE 100
 
+extern int errnumber;
+
 struct labelarray
 {
   int position;
@@ -227,6 +229,8 @@ struct label* deflabel(char* name, unsigned char flags, unsigned char type, long
     }
   }
 
+  checkphase(q, q->type != type || q->value != value);
+
   q->flags &= USED | NOREDEF | FORWARD;
   flags    &= ~USED;
 
@@ -237,6 +241,33 @@ struct label* deflabel(char* name, unsigned char flags, unsigned char type, long
   return q;
 }
 
+/* checkphase(label,changed)
+   Appele avant de definir un label. Erreur si sa valeur de la passe 1,
+   deja utilisee dans la passe 2, n'est pas la bonne. Apres une erreur,
+   les labels peuvent etre decales sans que ce soit une faute de plus.
+*/
+void checkphase(struct label* q, int changed)
+{
+  if (passnumber == 2 && errnumber == 0 && changed
+      && (q->flags & PASS1USE) == PASS1USE)
+  {
+    error("label differs from its value in the first pass");
+  }
+}
+
+/* checklabels(lroot)
+   Erreur si un label utilise dans la passe 2 n'y a pas ete defini.
+*/
+void checklabels(struct label* q)
+{
+  if (q)
+  {
+    checkphase(q, TRUE);
+    checklabels(q->left);
+    checklabels(q->right);
+  }
+}
+
 /* init_label_list
    Ordonne en arbre un tableau de labels
 */
@@ -314,6 +345,7 @@ void undeflabels(struct label* q)
        - ce label est effectivement defini en avant quelque-part
     */
     q->flags |= UNDEF;
+    q->flags &= ~USED;
     undeflabels(q->left);
     undeflabels(q->right);
   }
diff --git a/src/label.h b/src/label.h
index f2da603..5018e4a 100644
--- a/src/label.h
+++ b/src/label.h
@@ -72,6 +72,9 @@ modifier < 0 =>         size field allowed 68k-like */
 #define DEFMACRO  (1<<6)
 #define DEFCOND   (1<<7)
 
+/* a label whose value from pass 1 has been used in pass 2 */
+#define PASS1USE  (UNDEF | FORWARD | USED)
+
 /* external: label.c */
 extern int checklabel(char* name);
 extern struct label* searchlabel(char* name);
@@ -81,6 +84,8 @@ extern struct label* makelabel(char* name, unsigned char flags, unsigned char ty
 extern struct label* deflabel(char* name, unsigned char flags, unsigned char type, long value);
 extern void init_label_list(struct label* array);
 extern void undeflabels(struct label* q);
+extern void checkphase(struct label* q, int changed);
+extern void checklabels(struct label* q);
 
 /* external: xref.c */
 extern void printlabel(struct label* label);
diff --git a/src/pseudos.c b/src/pseudos.c
index 7c6089f..80b804c 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -51,6 +51,13 @@ int Xequ(int modifier, char* label, char* mnemo, char* oper)
     }
   }
 
+  l = searchlabel(label);
+
+  if (l)
+  {
+    checkphase(l, l->modifier != r->modifier);
+  }
+
   l = deflabel(label, r->flags, r->type, r->value);
 
   l->modifier = r->modifier;
-- 
2.43.0


From 9cc0471dbb59dcbe0a9d7d8035071e0b4495713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 12/38] fix: long FAIL messages overflowed the message buffer

---
 src/crasm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index db7bdd9..ae2c0f9 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -623,7 +623,7 @@ start:
 
 void error(char* s)
 {
-  char raw[80];
+  char raw[320];
   int oldflags;
   char c = toupper(*s);
 
@@ -631,7 +631,7 @@ void error(char* s)
 
   if (!(asmflags & F_NOERROR))
   {
-    sprintf(raw, "%7d ERROR: %c%s", linenumber, c, s + 1);
+    snprintf(raw, sizeof(raw), "%7d ERROR: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
     {
@@ -656,12 +656,12 @@ void error(char* s)
 
 void warning(char* s)
 {
-  char raw[80];
+  char raw[320];
   char c = toupper(*s);
 
   if (!(asmflags & F_NOWARNING))
   {
-    sprintf(raw, "%7d WARNING: %c%s", linenumber, c, s + 1);
+    snprintf(raw, sizeof(raw), "%7d WARNING: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
     {
-- 
2.43.0


From ef6606e207eb85ac075aad1ad557a74384bd749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 13/38] fix: ASC string without closing delimiter was read
 beyond its end

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 80b804c..d499509 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -239,6 +239,11 @@ int Xasc(int modifier, char* label, char* mnemo, char* oper)
 
   while ((r = *++s) != delimiter)
   {
+    if (!r)
+    {
+      error("missing delimiter");
+    }
+
     if (r == '\\')
     {
       switch (*++s)
-- 
2.43.0


From 9f046f8e7d842c6e7577db4bc1036e722f6f8ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 14/38] fix: a register range such as b-e looped for ever

---
 src/operator.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operator.c b/src/operator.c
index bd620cc..6e3e0a7 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -328,12 +328,12 @@ void opsub(struct result* presult, struct result* parg)
     register int lo = 0;
     register int hi = 0;
 
-    while (1 << lo != presult->value  && lo < 32)
+    while (lo < 32 && 1L << lo != presult->value)
     {
       lo++;
     }
 
-    while (1 << hi != parg->value     && hi < 32)
+    while (hi < 32 && 1L << hi != parg->value)
     {
       hi++;
     }
@@ -345,7 +345,7 @@ void opsub(struct result* presult, struct result* parg)
 
     while (lo <= hi)
     {
-      presult->value |= 1 << lo;
+      presult->value |= 1L << lo++;
     }
   }
   else
-- 
2.43.0


From da6fb6ce84811bccf3c8fe1e10e0dc1c585138f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 15/38] fix: division of the smallest number by -1 killed the
 assembler

---
 src/operator.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index 6e3e0a7..794fe2b 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -414,7 +414,11 @@ void opdiv(struct result* presult, struct result* parg)
   presult->flags |= parg->flags;
   checktype(presult, L_ABSOLUTE);
   checktype(parg, L_ABSOLUTE);
-  if (parg->value != 0)
+  if (parg->value == -1)
+  {
+    opminus(presult);   /* the division of the smallest number traps */
+  }
+  else if (parg->value != 0)
   {
     presult->value /= parg->value;
   }
-- 
2.43.0


From c6be7bdf61e10b809d54d5ba000aa7dc881e4b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 16/38] fix: DS with a negative size reserved four gigabytes

---
 src/pseudos.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index d499509..47c3cb8 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -192,6 +192,12 @@ int Xds(int modifier, char* label, char* mnemo, char* oper)
 
   r = parse(oper);
   checktype(r, L_ABSOLUTE);
+
+  if (r->value < 0 || r->value > 0x7fffffff)
+  {
+    error("illegal size");
+  }
+
   i = r->value;
 
   while (i--)
-- 
2.43.0


From d172c9d907814a62c4c93b8e933f8a79a51e74bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 17/38] fix: long expressions overflowed the buffer of filter()

---
 src/filter.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/filter.c b/src/filter.c
index b4a88ed..03dfde6 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -31,7 +31,7 @@
 #define SPACES   '_'    /* saute X espaces, X>=0    */
 
 char* bufferpos;
-char buffer[4000];
+char buffer[1 << 18];
 unsigned int chars_consumed_by_filter;
 
 /* zerobuffer()
@@ -60,6 +60,12 @@ int filter(char* s, char* fil, ...)
 
   s = str_start;
   oldbufferpos = bufferpos;
+
+  if (strlen(s) + strlen(fil) + 2 > (size_t)(buffer + sizeof(buffer) - bufferpos))
+  {
+    fatal("too complex line");
+  }
+
   starts = NULL;
   startf = NULL;
   va_start(ap, fil);
-- 
2.43.0


From 1381df257aeaaaae7591374076510bb3bdab57c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 18/38] fix: a page as wide as the line buffer overflowed it by
 one byte

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 389e396..b835d1f 100644
--- a/src/output.c
+++ b/src/output.c
@@ -82,7 +82,7 @@ void setpage(int xplen, int xllen)
     warning("page redefinition");
   }
 
-  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen > (int)sizeof(linebuffer))
+  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen >= (int)sizeof(linebuffer))
   {
     error("illegal values");
   }
-- 
2.43.0


From b5c18b1a051fab00bd3421d53625dd309405fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 19/38] fix: the symbol table on a narrow page is no fatal
 error

With fewer than 62 columns the last column could not be reached, and crasm ended
with a fatal error after reporting a successful assembly.
---
 src/xref.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xref.c b/src/xref.c
index ed21d52..25ce424 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -108,7 +108,11 @@ void printlabel(struct label* label)
 
   *b = 0;
   output(buffer);
-  position(newpos);
+
+  if (newpos < llen)
+  {
+    position(newpos);
+  }
 }
 
 
-- 
2.43.0


From 0557abcb11994b4d89e96bd64ec0c2478d15456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 20/38] fix: running out of memory in a macro definition is a
 fatal error

---
 src/macro.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index de003eb..4fe9b36 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -477,6 +477,12 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
     if (status & 2)
     {
       *where = (struct macroline*) malloc(sizeof(struct macroline) + strlen(s1));
+
+      if (*where == NULL)
+      {
+        fatal("no memory");
+      }
+
       (*where)->next = NULL;
       strcpy((*where)->line, s1);
       where = & ((*where)->next);
-- 
2.43.0


From b0b8e87843f57686ad5e0f483aba8d0765d55900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 21/38] fix: EXITM inside an include closes the include

The level of the macro was left but the file stayed open for good.
---
 src/macro.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 4fe9b36..217f006 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -850,6 +850,13 @@ int macrocall(struct label* labmacro, int status, char* oper)
     flag = asmline(curline, status & mystatus);
   } while (flag == 0);
 
+  while (sourcelevel > slevel)
+  {
+    /* INCLUDEs of the macro that have not been read to their end */
+    fclose(source[sourcelevel--].filedesc.file);
+    includelevel--;
+  }
+
   macrolevel--;
   linenumber = source[slevel].filedesc.oldlinnum;
   lineprefix = source[slevel].filedesc.oldprefix;
-- 
2.43.0


From d905d137f1904830e47600748cc14203d83ced14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 22/38] fix: warnings are counted

The summary always said WARNINGS: 0.
---
 src/crasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crasm.c b/src/crasm.c
index ae2c0f9..64cd8f9 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -661,6 +661,7 @@ void warning(char* s)
 
   if (!(asmflags & F_NOWARNING))
   {
+    warnnumber++;
     snprintf(raw, sizeof(raw), "%7d WARNING: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
-- 
2.43.0


From 72520b2bfa43dfdb828d6f8b80525c9b786d8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 23/38] fix: losing the listing is told by the exit status

Errors on standard output were reported on standard output itself, and those of
the last buffer not at all.
---
 src/crasm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index 64cd8f9..8a55d30 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -148,6 +148,12 @@ int main(int argc, char** argv)
   {
     crasm(flags);
 
+    if (fflush(stdout) | ferror(stdout))
+    {
+      fileerror("output");
+      return 5;
+    }
+
     if (errnumber)
     {
       return 5;
@@ -684,7 +690,7 @@ void fatal(char* s)
 
 void fileerror(char* s)
 {
-  printf("FILE ERROR on %s file: %s\n", s, strerror(errno));
+  fprintf(stderr, "FILE ERROR on %s file: %s\n", s, strerror(errno));
 }
 
 
-- 
2.43.0


From 4c60fed2961cdc612623a0da3d45d29edbbde1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 24/38] fix: huge addresses overflowed the buffer of the
 summary

---
 src/xref.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xref.c b/src/xref.c
index 25ce424..d3983f9 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -131,7 +131,7 @@ void result(void)
 {
   extern int errnumber;
   extern int warnnumber;
-  char buffer[40];
+  char buffer[80];
 
   if (plen - ppos < 10)
   {
-- 
2.43.0


From f8c21760e37be9e76f881bb5988f6620e87a6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 25/38] fix: too long lines are errors

A source line of more than 249 characters was cut in two and its rest
assembled as a line of its own; a line too long after the replacement of
macro parameters was cut off.
---
 src/macro.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 217f006..b9f7804 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -583,9 +583,21 @@ void linegets(char* buffer, int length)
   {
     register char* s1;
     register char* s2;
+    int c, toolong = FALSE;
     buffer[0] = 0;
     s1 = fgets(buffer, length, source[slevel].filedesc.file);
 
+    if (s1 && strlen(buffer) == (size_t)(length - 1) && buffer[length - 2] != '\n')
+    {
+      while ((c = getc(source[slevel].filedesc.file)) != EOF && c != '\n')
+      {
+        if (c != '\r')
+        {
+          toolong = TRUE;
+        }
+      }
+    }
+
     if (ferror(source[slevel].filedesc.file))
     {
       fatal("can't read source file");
@@ -624,6 +636,12 @@ void linegets(char* buffer, int length)
     {
       source[slevel].type = S_END;
     }
+
+    if (toolong)
+    {
+      advance = 0;
+      error("too long line");
+    }
   }
   else
   {
@@ -648,10 +666,11 @@ void linegets(char* buffer, int length)
 
     while (*s2)
     {
-      if (s1 - buffer > length - 10)
+      if (s1 - buffer >= length - 1)
       {
-        warning("Too long line");
-        break;
+        *s1 = 0;
+        advance = 0;
+        error("too long line");
       }
 
       if (*s2 != '\\')
@@ -682,9 +701,11 @@ void linegets(char* buffer, int length)
 
         while (s && *s)
         {
-          if (s1 - buffer > length - 10)
+          if (s1 - buffer >= length - 1)
           {
-            break;
+            *s1 = 0;
+            advance = 0;
+            error("too long line");
           }
 
           *s1++ = *s++;
-- 
2.43.0


From 4ec4a05ce05538780e9fecfb221028fd7470698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 26/38] fix: macro operands are not cut off after 59 characters

---
 src/macro.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index b9f7804..934fcf7 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -530,7 +530,7 @@ union
     byte oldlist;
     byte oldprefix;
     int  oldlinnum;
-    char (*replace)[60];
+    char (*replace)[256];
     int  numarg;
     struct macroline* mlineptr;
   } macrodesc;
@@ -647,7 +647,7 @@ void linegets(char* buffer, int length)
   {
     register struct macroline* q;
     int numarg;
-    char (*replace)[60];
+    char (*replace)[256];
     register char* s1;
     register char* s2;
 
@@ -778,7 +778,7 @@ extern int segment;
 
 int macrocall(struct label* labmacro, int status, char* oper)
 {
-  char replace[10][60];
+  char replace[10][256];
   register int slevel, flag;
   int numarg, oldsegment, mystatus;
   jmp_buf errjmpsav;
@@ -804,8 +804,8 @@ int macrocall(struct label* labmacro, int status, char* oper)
 
   if (oper && *oper)
   {
-    strncpy(replace[9], oper, 59);
-    replace[9][59] = 0;
+    strncpy(replace[9], oper, 255);
+    replace[9][255] = 0;
   }
 
   while (oper && *oper)
@@ -821,13 +821,13 @@ int macrocall(struct label* labmacro, int status, char* oper)
     if (filter(oper, "?_,_?", &arg1, &arg2))
     {
       oper = arg2;
-      strncpy(replace[numarg], arg1, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], arg1, 255);
+      replace[numarg++][255] = 0;
     }
     else
     {
-      strncpy(replace[numarg], oper, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], oper, 255);
+      replace[numarg++][255] = 0;
       oper = NULL;
     }
   }
-- 
2.43.0


From c590817bcf0452d213516296bbfb612f3b94bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 27/38] fix: an error in the first line of the source needs the
 buffer of filter()

---
 src/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.c b/src/filter.c
index 03dfde6..1a960dd 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -30,8 +30,8 @@
 #define WILDCARD '?'    /* n'importe quoi. test () '' "" \x */
 #define SPACES   '_'    /* saute X espaces, X>=0    */
 
-char* bufferpos;
 char buffer[1 << 18];
+char* bufferpos = buffer;
 unsigned int chars_consumed_by_filter;
 
 /* zerobuffer()
-- 
2.43.0


From abe6d5486f10d00c8dce7bad9d49ca51a5975d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 28/38] fix: an error in DDB inverted the byte order of the
 rest of the program

---
 src/pseudos.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pseudos.c b/src/pseudos.c
index 47c3cb8..55c89c8 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -124,9 +124,17 @@ static void stocke(char* s, int modifier)
 
   case 2:
     mask = 0xffff0000;
-    asmflags ^= F_LOHI;
-    insert16(r->value);
-    asmflags ^= F_LOHI;
+    if (asmflags & F_LOHI)
+    {
+      insert8(r->value >> 8);
+      insert8(r->value);
+    }
+    else
+    {
+      insert8(r->value);
+      insert8(r->value >> 8);
+    }
+
     break;
 
   case 3:
-- 
2.43.0


From 0c4d1cc940997495e03f8e228d9817e4408059f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 29/38] fix: keep type and name of the symbol table apart when
 values have 8 digits

---
 src/xref.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xref.c b/src/xref.c
index d3983f9..97598ab 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -98,6 +98,12 @@ void printlabel(struct label* label)
   position(newpos - LABLEN - 2 - strlen(buffer));
   output(buffer);
 
+  /* a long value may have used the space up to the name */
+  if (lpos >= newpos - LABLEN - 1)
+  {
+    outputcar(' ');
+  }
+
   position(newpos - LABLEN - 1);
   b = buffer;
 
-- 
2.43.0


From f58e82ea1cec98cbe003ce823cfa8e1685e48b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 30/38] fix: an expression such as (1+2)*(3+4) is not
 surrounded by parentheses

---
 src/parse.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9395b2e..59e1c8a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -215,6 +215,38 @@ static void parse2(char* expr, struct result* presult)
 }
 
 
+/* surrounded(s)
+   TRUE if no parenthesis in s closes the one in front of s.
+*/
+static int surrounded(char* s)
+{
+  int depth = 0;
+  char quote = 0;
+
+  for (; *s && depth >= 0; s++)
+  {
+    if (quote && *s == '\\' && s[1])
+    {
+      s++;
+    }
+    else if (*s == '\'' || *s == '\"')
+    {
+      quote = quote ? (quote == *s ? 0 : quote) : *s;
+    }
+    else if (!quote && *s == '(')
+    {
+      depth++;
+    }
+    else if (!quote && *s == ')')
+    {
+      depth--;
+    }
+  }
+
+  return depth >= 0;
+}
+
+
 struct result* parse(char* expr)
 {
   char* dummy;
@@ -224,7 +256,7 @@ struct result* parse(char* expr)
     error("expression expected");
   }
 
-  if (filter(expr, "(?)", &dummy))
+  if (filter(expr, "(?)", &dummy) && surrounded(dummy))
   {
     warning("external parenthesis ignored");
   }
-- 
2.43.0


From 9389104c216c350cd44b9fdc486a558b4a85b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 31/38] fix: AND, OR, XOR, CP, ADD, ADC, SUB and SBC operate on
 8 bit operands only

---
 src/cpuz80.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 1a370cd..c590b4b 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -622,6 +622,10 @@ static int logical(int code, char* label, char* mnemo, char* oper)
     reg = 0x46;
     arg8flag = TRUE;
   }
+  else if (!isreg8(reg))
+  {
+    error(needreg8);
+  }
 
   return docode(code + reg);
 }
-- 
2.43.0


From b83ab5c849252c62e6964b25fceb9d95cfe575fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 32/38] fix: LDX, LDY, CPX, CPY, BIT, TSB and TRB do not
 operate on the accumulator

---
 src/cpu6502.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 3964262..84b5c15 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -185,6 +185,11 @@ static int standard(int code, char* label, char* mnemo, char* oper)
     if (mode == 10 && r->type == L_REGS && r->modifier == 0)
     {
       mode = 15;
+
+      if (code & F_noacc)
+      {
+        error("illegal addressing mode");
+      }
     }
     else
     {
-- 
2.43.0


From d4394dc436fe6b5a78e16e0605d15763437fba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 33/38] fix: only the 65C02 has BIT indexed by X

---
 src/cpu6502.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 84b5c15..8bbfb40 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -253,7 +253,8 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   if (cpuflag < 2)
   {
     if (mode == 4 || opcode == 0x7c || opcode == 0x89 ||
-                     opcode == 0x1a || opcode == 0x3a)
+                     opcode == 0x1a || opcode == 0x3a ||
+                     opcode == 0x34 || opcode == 0x3c)
     {
       error("illegal use of 65C02 addressing mode");
     }
-- 
2.43.0


From 3520d8c7b477b97ea769c6825069abcfccd8093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 34/38] fix: operands beyond 64K do not fit in a byte either

---
 src/cpu6502.c | 4 ++--
 src/cpu6800.c | 4 ++--
 src/cpuz80.c  | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 8bbfb40..685c59b 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -198,13 +198,13 @@ static int standard(int code, char* label, char* mnemo, char* oper)
 
     value = r->value;
 
-    if ((value & 0xFF00) || (r->flags & FORWARD))
+    if ((value & ~0xFF) || (r->flags & FORWARD))
     {
       if (mode != 12)
       {
         mode |= 1;
       }
-      else if (value & 0xFF00)
+      else if (value & ~0xFF)
       {
         warning("operand overflow");
       }
diff --git a/src/cpu6800.c b/src/cpu6800.c
index c967937..1b8cccf 100644
--- a/src/cpu6800.c
+++ b/src/cpu6800.c
@@ -103,7 +103,7 @@ static int findmode(char* oper, int* pvalue)
       if (q->add == 0x30)
       {
         if (!(r->flags & FORWARD) &&
-            !(r->value & 0xff00))
+            !(r->value & ~0xff))
         {
           return 0x10;
         }
@@ -139,7 +139,7 @@ static void codemode(int code, int add, int value)
   {
     insert8(value); /* direct, indexed and */
 
-    if (value & 0xff00) /* 8 bits immediate */
+    if (value & ~0xff) /* 8 bits immediate */
     {
       if (add == 0x20)
       {
diff --git a/src/cpuz80.c b/src/cpuz80.c
index c590b4b..d480c9c 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -211,7 +211,7 @@ static int docode(int code)
   {
     insert8(arg);
 
-    if (arg & 0xff00)
+    if (arg & ~0xff)
     {
       warning("argument overflow");
     }
@@ -307,14 +307,14 @@ static int rst(int code, char* label, char* mnemo, char* oper)
   r = parse(oper);
   checktype(r, L_ABSOLUTE);
 
-  if (!(r->value & 0xfff8))
+  if (!(r->value & ~0x07))
   {
     r->value <<= 3;
   }
 
   insert8(0xc7 | r->value);
 
-  if (r->value & 0xffc7)
+  if (r->value & ~0x38)
   {
     error("Bad RST vector");
   }
-- 
2.43.0


From 08a560171a6d32a8809d0c8751439fb28ea6f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 35/38] fix: the warning about unprintable characters carried
 the number of the line before

---
 src/macro.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 934fcf7..657b51b 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -618,14 +618,13 @@ void linegets(char* buffer, int length)
     }
 
     *s2 = 0;
+    linenumber++;
 
     if (s1 != s2)
     {
       warning("Unprintable characters removed");
     }
 
-    linenumber++;
-
     if ((linenumber & 7) == 1 && passnumber == 1)
     {
       fprintf(stderr, "%d    \r", linenumber);
-- 
2.43.0


From 68b382d30a330b4293fab1a1179e64a38e408700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 36/38] fix: character constants with an escaped backslash in
 an expression

---
 src/filter.c | 53 +++++++++++++++++-----------------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/src/filter.c b/src/filter.c
index 1a960dd..d187e8b 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -184,61 +184,42 @@ void reverse(char* s)
   register char c;
   register int quote = 0;
 
-  d = s;
-  f = s;
-
-  while (*d)
-  {
-    d++;
-  }
-
-  while (--d > f)
-  {
-    c = *f;
-    *f++ = *d;
-    *d = c;
-  }
-
+  /* an escape sequence remains one: its characters are exchanged twice */
   for (d = s; *d; d++)
   {
     switch (*d)
     {
     case '\'':
-      if (! quote)
+      if (!(quote & 0x2))
       {
-        quote |= 0x1;
-      }
-      else if (quote & 0x1)
-      {
-        if (d[1] != '\\')
-        {
-          quote &= ~0x1;
-        }
+        quote ^= 0x1;
       }
       break;
 
     case '\"':
-      if (! quote)
+      if (!(quote & 0x1))
       {
-        quote |= 0x2;
-      }
-      else if (quote & 0x2)
-      {
-        if (d[1] != '\\')
-        {
-          quote &= ~0x2;
-        }
+        quote ^= 0x2;
       }
       break;
 
     case '\\':
-      if (quote)
+      if (quote && d[1])
       {
-        d[0] = d[-1];
-        d[-1] = '\\';
+        d[0] = d[1];
+        *++d = '\\';
       }
       break;
     }
   }
+
+  f = s;
+
+  while (--d > f)
+  {
+    c = *f;
+    *f++ = *d;
+    *d = c;
+  }
 }
 
-- 
2.43.0


From a69d29054ed6859811ca4e87a1c532a6b96f0727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 37/38] fix: only an address can be assigned to the program
 counter

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 55c89c8..4cfe50e 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -39,6 +39,11 @@ int Xequ(int modifier, char* label, char* mnemo, char* oper)
   r = parse(oper);
   r->flags &= ~(UNDEF | USED | NOREDEF);
 
+  if (!strcmp(label, "*") && r->type != L_RELATIVE)
+  {
+    checktype(r, L_ABSOLUTE);
+  }
+
   if (r->type == L_ABSOLUTE || r->type == L_RELATIVE)
   {
     if (macrolevel == 0 || asmflags & F_MACROLIST_ON)
-- 
2.43.0


From 807e93156175c78c57209a39081cde85bce694cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 38/38] fix: binary constants of 33 bits are an overflow

---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index 794fe2b..a005731 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -166,7 +166,7 @@ void cstbinary(struct result* presult, char* s)
 
     r = *s - '0';
 
-    if (val > 0xefffffff)
+    if (val > 0x7fffffff)
     {
       error(overflow);
     }
-- 
2.43.0

