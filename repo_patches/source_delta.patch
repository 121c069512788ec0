From ee8dc2c5e4afb2ad629a03ee1da23dd1baca91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 001/102] fix: sim86: take ZF of byte operations from the byte
 result

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 0589925..a95a705 100644
--- a/sim86.c
+++ b/sim86.c
@@ -374,7 +374,7 @@ void DoOp(int op, unsigned l, unsigned r)
     flags = 0;
     if (res & mask)
         flags |= FS;
-    if (!TRIM(res))
+    if (!(res & (mask | (mask-1))))
         flags |= FZ;
     if (carry & mask)
         flags |= FC;
-- 
2.43.0


From ecf9534950df4a5831cad5d2c759d3470a7e4263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 002/102] fix: sim86: INC and DEC set ZF, SF and OF (and keep
 CF)

---
 sim86.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sim86.c b/sim86.c
index a95a705..a545adb 100644
--- a/sim86.c
+++ b/sim86.c
@@ -517,23 +517,24 @@ void JCC(int cc)
         ip += rel;
 }
 
-// TODO: INC/DEC shouldn't modify carry(?)
-void DoIncDec(int v)
+// INC/DEC set the arithmetic flags except carry
+void DoIncDec(int op)
 {
-    const int s = ReadRM();
-    WriteRM(s+v);
+    const int carry = flags & FC;
+    DoOp(op, ReadRM(), 1);
+    flags = (flags & ~FC) | carry;
 }
 
 void INC(void)
 {
     if (verbose) sprintf(insttext, "INC %s", rmtext);
-    DoIncDec(1);
+    DoIncDec(OP_ADD);
 }
 
 void DEC(void)
 {
     if (verbose) sprintf(insttext, "DEC %s", rmtext);
-    DoIncDec(-1);
+    DoIncDec(OP_SUB);
 }
 
 void ReadAsciiz(char* dest, int sr, int off)
-- 
2.43.0


From 64d0b3fff1f4d419fe7207ef56790673496adaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 003/102] fix: sim86: NEG sets the flags

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index a545adb..41ce762 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1140,7 +1140,7 @@ int main(int argc, char** argv)
                         break;
                     case 3: // NEG r/m16
                         if (verbose) sprintf(insttext, "NEG %s", rmtext);
-                        WriteRM(-ReadRM());
+                        DoOp(OP_SUB, 0, ReadRM());
                         break;
                     case 4: // MUL (TODO: Full 32-bit result)
                     case 5: // IMUL (TODO: Full 32-bit result)
-- 
2.43.0


From 1cfa63038cf8bd64a5e496bf32f0af499fd4ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 004/102] fix: sim86: shift 16-bit values and set all flags

---
 sim86.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/sim86.c b/sim86.c
index 41ce762..cce84ad 100644
--- a/sim86.c
+++ b/sim86.c
@@ -93,8 +93,10 @@ struct Stack max_stack;
 
 #ifdef __SCC__
 #define TRIM(x) x
+#define SEXT(x) x
 #else
 #define TRIM(x) ((x)&0xffff)
+#define SEXT(x) ((short)(x))
 #define MAKEADDR(sr, off) ((TRIM(sreg[sr])*16+TRIM(off))&0xfffff)
 #endif
 
@@ -1053,7 +1055,7 @@ int main(int argc, char** argv)
             case 0xD1:
                 {
                     ModRM();
-                    const unsigned v = ReadRM();
+                    const unsigned v = TRIM(ReadRM());
                     unsigned res, c;
                     switch (modrm>>3&7) {
                     case 4: // SHL R/M16, 1
@@ -1068,7 +1070,7 @@ int main(int argc, char** argv)
                         break;
                     case 7: // SAR R/M16, 1
                         if (verbose) sprintf(insttext, "SAR %s, 1", rmtext);
-                        res = (int)v>>1;
+                        res = v>>1 | (v&0x8000);
                         c = v&1;
                         break;
                     default:
@@ -1077,13 +1079,15 @@ int main(int argc, char** argv)
                     WriteRM(res);
                     flags = 0;
                     if (c) flags |= FC;
-                    if (!res) flags |= FZ;
+                    if (!TRIM(res)) flags |= FZ;
+                    if (res & 0x8000) flags |= FS;
+                    if ((res ^ v) & 0x8000) flags |= FO;
                 }
                 break;
             case 0xD3:
                 {
                     ModRM();
-                    const unsigned v = ReadRM();
+                    const unsigned v = TRIM(ReadRM());
                     const unsigned a = reg[R_CX]&15;
                     unsigned res, c=0;
                     switch (modrm>>3&7) {
@@ -1099,16 +1103,19 @@ int main(int argc, char** argv)
                         break;
                     case 7: // SAR R/M16, CL
                         if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
-                        res = (int)v >> a;
+                        res = SEXT((int)v) >> a;
                         if (a) c = (v >> (a-1)) & 1;
                         break;
                     default:
                         Fatal("TODO: D3/%d", modrm>>3&7);
                     }
                     WriteRM(res);
-                    flags = 0;
-                    if (c) flags |= FC;
-                    if (!res) flags |= FZ;
+                    if (a) {
+                        flags = 0;
+                        if (c) flags |= FC;
+                        if (!TRIM(res)) flags |= FZ;
+                        if (res & 0x8000) flags |= FS;
+                    }
                 }
                 break;
             case 0xE8:
-- 
2.43.0


From e8ea14f6d397f44e1d780e6395dc1735817aba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 005/102] fix: sim86: divide 16-bit values

---
 sim86.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sim86.c b/sim86.c
index cce84ad..4506af3 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1161,19 +1161,21 @@ int main(int argc, char** argv)
                     case 6: // DIV (TODO: Full 32-bit divide)
                         {
                             if (verbose) sprintf(insttext, "DIV %s", rmtext);
-                            const unsigned int d = ReadRM();
-                            assert(reg[R_DX] == 0);
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            const unsigned int d = TRIM(ReadRM());
+                            const unsigned int n = TRIM(reg[R_AX]);
+                            assert(TRIM(reg[R_DX]) == 0);
+                            reg[R_DX] = n % d;
+                            reg[R_AX] = n / d;
                         }
                         break;
                     case 7: // IDIV (TODO: Full 32-bit divide)
                         {
                             if (verbose) sprintf(insttext, "IDIV %s", rmtext);
-                            const int d = ReadRM();
-                            assert(reg[R_DX] == (reg[R_AX] & 0x8000 ? -1 : 0));
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            const int d = SEXT(ReadRM());
+                            const int n = SEXT(reg[R_AX]);
+                            assert(TRIM(reg[R_DX]) == (n < 0 ? 0xffff : 0));
+                            reg[R_DX] = n % d;
+                            reg[R_AX] = n / d;
                         }
                         break;
                     default:
-- 
2.43.0


From 4910de5c4bfcd58e8ba180fb28123b7934d794b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 006/102] fix: sim86: the repeat count is CX modulo 65536

---
 sim86.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim86.c b/sim86.c
index 4506af3..336273c 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1135,6 +1135,7 @@ int main(int argc, char** argv)
             case 0xF2:
             case 0xF3:
                 rep = inst;
+                reg[R_CX] = TRIM(reg[R_CX]);
                 goto Restart;
             case 0xF7:
                 {
-- 
2.43.0


From 2bdb8603363db9b12c8fe160956055cca1a41607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 007/102] fix: sim86: REPE CMPSB and REPNE SCASB compare bytes
 and keep flags when CX is 0

---
 sim86.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sim86.c b/sim86.c
index 336273c..fe06ea9 100644
--- a/sim86.c
+++ b/sim86.c
@@ -957,12 +957,14 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REPE CMPSB");
-                    flags = FZ;
-                    while ((flags & FZ) && reg[R_CX]) {
+                    dsize = 0;
+                    while (reg[R_CX]) {
                         DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
+                        if (!(flags & FZ))
+                            break;
                     }
                 }
                 break;
@@ -1020,11 +1022,13 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF2);
                     if (verbose) strcpy(insttext, "REPNE SCASB");
-                    flags = 0;
-                    while (!(flags & FZ) && reg[R_CX]) {
+                    dsize = 0;
+                    while (reg[R_CX]) {
                         DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
+                        if (flags & FZ)
+                            break;
                     }
                 }
                 break;
-- 
2.43.0


From 71186698a204185e75a8ddaf61e61e98b8525117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 008/102] fix: sim86: honour segment overrides in MOV moffs,
 MOVS, CMPS and LODS

---
 sim86.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sim86.c b/sim86.c
index fe06ea9..612e256 100644
--- a/sim86.c
+++ b/sim86.c
@@ -298,6 +298,12 @@ void WriteReg(int r, unsigned val)
     }
 }
 
+// Segment of the implicit data operand
+int DataSeg(void)
+{
+    return seg == -1 ? SR_DS : seg;
+}
+
 int ReadRM(void)
 {
     assert(modrm != -1);
@@ -916,15 +922,15 @@ int main(int argc, char** argv)
                     if (inst & 2) {
                         // Store
                         if (inst & 1) {
-                            Write16(SR_DS, Off, reg[R_AX]);
+                            Write16(DataSeg(), Off, reg[R_AX]);
                         } else {
-                            Write8(SR_DS, Off, reg[R_AX] & 0xff);
+                            Write8(DataSeg(), Off, reg[R_AX] & 0xff);
                         }
                     } else {
                         if (inst & 1) {
-                            reg[R_AX] = Read16(SR_DS, Off);
+                            reg[R_AX] = Read16(DataSeg(), Off);
                         } else {
-                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(SR_DS, Off);
+                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(DataSeg(), Off);
                         }
                     }
                 }
@@ -934,7 +940,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSB");
                     while (reg[R_CX]) {
-                        Write8(SR_ES, reg[R_DI], Read8(SR_DS, reg[R_SI]));
+                        Write8(SR_ES, reg[R_DI], Read8(DataSeg(), reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
@@ -946,7 +952,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSW");
                     while (reg[R_CX]) {
-                        Write16(SR_ES, reg[R_DI], Read16(SR_DS, reg[R_SI]));
+                        Write16(SR_ES, reg[R_DI], Read16(DataSeg(), reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 2;
                         reg[R_SI] += 2;
@@ -959,7 +965,7 @@ int main(int argc, char** argv)
                     if (verbose) sprintf(insttext, "REPE CMPSB");
                     dsize = 0;
                     while (reg[R_CX]) {
-                        DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
+                        DoOp(OP_CMP, Read8(DataSeg(), reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
@@ -1006,7 +1012,7 @@ int main(int argc, char** argv)
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSB");
                     dsize = 0;
-                    WriteReg(R_AX, Read8(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read8(DataSeg(), reg[R_SI]));
                     reg[R_SI] += 1;
                 }
                 break;
@@ -1014,7 +1020,7 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0x00);
                     if (verbose) sprintf(insttext, "LODSW");
-                    WriteReg(R_AX, Read16(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read16(DataSeg(), reg[R_SI]));
                     reg[R_SI] += 2;
                 }
                 break;
-- 
2.43.0


From e25e23d4308832be8ebb3e1ca19357c047d3c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 009/102] fix: sim86: CALL r/m reads its target before pushing
 the return address

---
 sim86.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 612e256..134d658 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1209,8 +1209,11 @@ int main(int argc, char** argv)
                         break;
                     case 2:
                         if (verbose) sprintf(insttext, "CALL %s", rmtext);
-                        DoPush(ip);
-                        ip = ReadRM();
+                        {
+                            const int target = ReadRM();
+                            DoPush(ip);
+                            ip = target;
+                        }
                         break;
                     default:
                         Fatal("TODO: %02X/%X", inst, modrm>>3&7);
-- 
2.43.0


From 402dd3158f18ebb3b5d819591e0b4cc9ef083025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 010/102] fix: sim86: a segment prefix leaves the operand size
 at 16 bits

---
 sim86.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim86.c b/sim86.c
index 134d658..c534aa3 100644
--- a/sim86.c
+++ b/sim86.c
@@ -820,6 +820,7 @@ int main(int argc, char** argv)
                 } else {
                     assert(!(inst&1));
                     seg = (inst-0x26)>>3;
+                    dsize = 1;
                     goto Restart;
                 }
             } else {
-- 
2.43.0


From 77de6b4ce1cd6c78d3500b71a9ab2407f5661b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 011/102] fix: sim86: pass the 16-bit handle and count to the
 DOS file services

---
 sim86.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sim86.c b/sim86.c
index c534aa3..6dd1d13 100644
--- a/sim86.c
+++ b/sim86.c
@@ -660,11 +660,11 @@ void INT(void)
     } else if (func == 0x3D) {
         HandleOpen(O_RDONLY);
     } else if (func == 0x3E) {
-        if (verbose) printf("\nclose(%d)\n", reg[R_BX]);
-        close(reg[R_BX]);
+        if (verbose) printf("\nclose(%d)\n", TRIM(reg[R_BX]));
+        close(TRIM(reg[R_BX]));
         flags &= ~FC;
     } else if (func == 0x3F) {
-        int r = ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]);
+        int r = ReadToMem(TRIM(reg[R_BX]), reg[R_DX], TRIM(reg[R_CX]));
         if (r <= 0) {
             flags |= FC;
             r = 0;
@@ -673,7 +673,7 @@ void INT(void)
         }
         reg[R_AX] = r;
     } else if (func == 0x40) {
-        int r = WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]);
+        int r = WriteFromMem(TRIM(reg[R_BX]), reg[R_DX], TRIM(reg[R_CX]));
         if (r <= 0) {
             flags |= FC;
             r = 0;
-- 
2.43.0


From 856cf52fae27426690bae42b6b8dad5fe09460a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 012/102] fix: sim86: end file transfers at the end of the
 simulated memory

---
 sim86.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 6dd1d13..05f3904 100644
--- a/sim86.c
+++ b/sim86.c
@@ -422,6 +422,15 @@ void MOV(int swap)
     }
 }
 
+#ifndef __SCC__
+// Number of bytes (at most size) from DS:off to the end of memory
+int MemLeft(int off, int size)
+{
+    const int left = (int)sizeof(mem) - MAKEADDR(SR_DS, off);
+    return size < left ? size : left;
+}
+#endif
+
 int ReadToMem(int fd, int off, int size)
 {
 #ifdef __SCC__
@@ -432,7 +441,7 @@ int ReadToMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
-    return read(fd, mem+MAKEADDR(SR_DS, off), size);
+    return read(fd, mem+MAKEADDR(SR_DS, off), MemLeft(off, size));
 #endif
 }
 
@@ -446,7 +455,7 @@ int WriteFromMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
-    return write(fd, mem+MAKEADDR(SR_DS, off), size);
+    return write(fd, mem+MAKEADDR(SR_DS, off), MemLeft(off, size));
 #endif
 }
 
-- 
2.43.0


From 1c9f313e29b0edcdf6b605fe8ddb01f1cea610a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 013/102] fix: sim86: fail open/create of a file name that does
 not fit the buffer

---
 sim86.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sim86.c b/sim86.c
index 05f3904..eca57d7 100644
--- a/sim86.c
+++ b/sim86.c
@@ -554,19 +554,27 @@ void DEC(void)
     DoIncDec(OP_SUB);
 }
 
-void ReadAsciiz(char* dest, int sr, int off)
+// Returns non-zero if the string (including terminator) fit in size bytes
+int ReadAsciiz(char* dest, int size, int sr, int off)
 {
     int ch;
     do {
+        if (!size--)
+            return 0;
         ch = Read8(sr, off++);
         *dest++ = (char)ch;
-    } while (ch); 
+    } while (ch);
+    return 1;
 }
 
 void HandleOpen(int oflags)
 {
     char fname[64];
-    ReadAsciiz(fname, SR_DS, reg[R_DX]);
+    if (!ReadAsciiz(fname, sizeof(fname), SR_DS, reg[R_DX])) {
+        flags |= FC;
+        reg[R_AX] = 3; // Path not found
+        return;
+    }
     int fd = open(fname, O_BINARY | oflags, 0600);
     if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
     if (fd < 0) {
-- 
2.43.0


From e4923ca774f5f1965a8e30b811061d5a91d6b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 014/102] fix: sim86: bound the profiler's map file name and
 symbol table

---
 sim86.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sim86.c b/sim86.c
index eca57d7..b67881f 100644
--- a/sim86.c
+++ b/sim86.c
@@ -605,13 +605,15 @@ void DoExit(int ec)
         };
         int num_entries = 1;
         char fname[256];
-        strcpy(fname, filename);
+        *fname = 0;
+        if (strlen(filename) < sizeof(fname) - 4)
+            strcpy(fname, filename);
         char* d = strrchr(fname, '.');
         if (d) {
             strcpy(d, ".map");
             FILE* fp = fopen(fname, "rt");
             if (fp) {
-                while (fscanf(fp, "%4X %63s\n", (unsigned*)&entries[num_entries].Addr, entries[num_entries].Id) == 2) {
+                while (num_entries < (int)(sizeof(entries)/sizeof(*entries)) && fscanf(fp, "%4X %63s\n", (unsigned*)&entries[num_entries].Addr, entries[num_entries].Id) == 2) {
                     ++num_entries;
                 }
                 fclose(fp);
@@ -640,12 +642,8 @@ void DoExit(int ec)
         printf("\nBP;Return address;Size;Symbol\n");
         for (int i = 0; i < max_stack.depth; ++i) {
             struct StackFrame* f = &max_stack.frames[i];
-            for (entry = 0; entry < num_entries; ++entry) {
-                if (entries[entry].Addr > f->ip) {
-                    --entry;
-                    break;
-                }
-            }
+            for (entry = num_entries - 1; entry && entries[entry].Addr > f->ip; --entry)
+                ;
             const struct E* e = &entries[entry];
             const int LastBP = i + 1 < max_stack.depth ? max_stack.frames[i+1].bp : 65536;
             printf("0x%4X;0x%04X;%d;%s+0x%X\n", f->bp, f->ip, LastBP-f->bp, e->Id, f->ip - e->Addr);
-- 
2.43.0


From 16cb7571f1e5f032641c83132d8d1cddc57e765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 015/102] fix: sim86: make room for the longest operand text

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index b67881f..618e013 100644
--- a/sim86.c
+++ b/sim86.c
@@ -60,7 +60,7 @@ char dsize;
 signed char seg;
 
 int verbose;
-char rmtext[16];
+char rmtext[20];
 char insttext[64];
 const char* filename;
 
-- 
2.43.0


From 57a80c76b896e12b3501ede1c4031333f42a60a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 016/102] fix: sim86: do not print a file name through the
 fixed message buffer

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 618e013..c714319 100644
--- a/sim86.c
+++ b/sim86.c
@@ -463,7 +463,7 @@ void ReadFile(const char* Filename)
 {
     const int fd = open(Filename, O_BINARY | O_RDONLY);
     if (fd < 0) {
-        Fatal("Error opening %s", Filename);
+        Fatal("Error opening file");
     }
 #ifdef PROFILING
     file_size =
-- 
2.43.0


From d4d660df61fcb5a40f363becf9a67def1acf8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:41 +0000
Subject: [PATCH 017/102] fix: sim86: reading at end of file and writing
 nothing are not errors

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index c714319..34f3faf 100644
--- a/sim86.c
+++ b/sim86.c
@@ -680,7 +680,7 @@ void INT(void)
         flags &= ~FC;
     } else if (func == 0x3F) {
         int r = ReadToMem(TRIM(reg[R_BX]), reg[R_DX], TRIM(reg[R_CX]));
-        if (r <= 0) {
+        if (r < 0) {
             flags |= FC;
             r = 0;
         } else {
@@ -689,7 +689,7 @@ void INT(void)
         reg[R_AX] = r;
     } else if (func == 0x40) {
         int r = WriteFromMem(TRIM(reg[R_BX]), reg[R_DX], TRIM(reg[R_CX]));
-        if (r <= 0) {
+        if (r < 0) {
             flags |= FC;
             r = 0;
         } else {
-- 
2.43.0


From e6aca71dc9e3acc0588a030819c434c39677208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:41 +0000
Subject: [PATCH 018/102] fix: sim86: same command tail with and without
 options, ended by CR and kept off the program

---
 sim86.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sim86.c b/sim86.c
index 34f3faf..297b1f9 100644
--- a/sim86.c
+++ b/sim86.c
@@ -765,11 +765,12 @@ int main(int argc, char** argv)
     int p = 0;
     int i;
     for (i = argi + 1; argv[i]; ++i) {
-        if (i != 2) Write8(SR_DS, 0x81+(p++), ' ');
         const char* s = argv[i];
-        while (*s) Write8(SR_DS, 0x81+(p++), *s++);
+        if (i != argi + 1 && p < 126) Write8(SR_DS, 0x81+(p++), ' ');
+        while (*s && p < 126) Write8(SR_DS, 0x81+(p++), *s++);
+        if (*s) Fatal("Command line too long");
     }
-    Write8(SR_DS, 0x82+p, '\r');
+    Write8(SR_DS, 0x81+p, '\r');
     Write8(SR_DS, 0x80, p);
 
     DoPush(0);
-- 
2.43.0


From 03842a0b03d18db00775a5db3317bd9294b17d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 019/102] fix: sim86: shift counts of 16 and more shift
 everything out

---
 sim86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index 297b1f9..8ba53c0 100644
--- a/sim86.c
+++ b/sim86.c
@@ -1115,7 +1115,7 @@ int main(int argc, char** argv)
                 {
                     ModRM();
                     const unsigned v = TRIM(ReadRM());
-                    const unsigned a = reg[R_CX]&15;
+                    const unsigned a = reg[R_CX]&31;
                     unsigned res, c=0;
                     switch (modrm>>3&7) {
                     case 4: // SHL R/M16, CL
@@ -1131,7 +1131,7 @@ int main(int argc, char** argv)
                     case 7: // SAR R/M16, CL
                         if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
                         res = SEXT((int)v) >> a;
-                        if (a) c = (v >> (a-1)) & 1;
+                        if (a) c = (SEXT((int)v) >> (a-1)) & 1;
                         break;
                     default:
                         Fatal("TODO: D3/%d", modrm>>3&7);
-- 
2.43.0


From b25bf3e3a51ce75469a365864f345cda44b0d808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 020/102] fix: sim86: refuse undefined forms of LEA, MOV imm
 and FE

---
 sim86.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sim86.c b/sim86.c
index 8ba53c0..5fe0845 100644
--- a/sim86.c
+++ b/sim86.c
@@ -907,6 +907,7 @@ int main(int argc, char** argv)
             case 0x8D:
                 {
                     ModRM();
+                    assert(modrm>>6 != 3);
                     if (verbose) sprintf(insttext, "LEA %s, %s", RegName(modrm>>3&7), rmtext);
                     reg[modrm>>3&7] = addr;
                 }
@@ -1063,6 +1064,7 @@ int main(int argc, char** argv)
                 {
                     dsize = 0;
                     ModRM();
+                    assert(!(modrm & 0x38));
                     int val = ReadIByte();
                     if (verbose) sprintf(insttext, "MOV %s, 0x%04X", rmtext, val);
                     WriteRM(val);
@@ -1071,6 +1073,7 @@ int main(int argc, char** argv)
             case 0xC7:
                 {
                     ModRM();
+                    assert(!(modrm & 0x38));
                     int val = Imm16();
                     if (verbose) sprintf(insttext, "MOV %s, 0x%04X", rmtext, val);
                     WriteRM(val);
@@ -1225,6 +1228,7 @@ int main(int argc, char** argv)
                         DEC();
                         break;
                     case 2:
+                        assert(dsize);
                         if (verbose) sprintf(insttext, "CALL %s", rmtext);
                         {
                             const int target = ReadRM();
-- 
2.43.0


From f997cb3ce24bd6e778549037336ce7776131bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 021/102] fix: scc: record that ZF reflects AX only after an
 instruction that makes it so

---
 scc.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/scc.c b/scc.c
index 9f267b3..1ed939f 100644
--- a/scc.c
+++ b/scc.c
@@ -1140,6 +1140,7 @@ void EmitLocalLabel(int l)
     if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
     FlushSpAdj();
     IsDeadCode = 0;
+    LastZFInst = 0; // Flags are unknown when arriving via a jump
     DoFixups(Labels[l].Ref, 1);
     Labels[l].Addr = CodeAddress;
     Labels[l].Ref = 0;
@@ -1238,6 +1239,13 @@ void EmitStoreConst(int Size, int Loc, int Val)
         Output1Byte(CurrentVal>>8);
 }
 
+// Call when ZF is known to reflect the value of the last result
+void SetZFInst(void)
+{
+    if (!IsDeadCode)
+        LastZFInst = CodeAddress;
+}
+
 void EmitAddRegConst(int r, int Amm)
 {
     if (!Amm) return;
@@ -1259,6 +1267,8 @@ void EmitAddRegConst(int r, int Amm)
             Output2Bytes(I_ALU_RM16_IMM16, MODRM_REG|Op);
         OutputWord(Amm);
     }
+    if (!r)
+        SetZFInst();
 }
 
 void EmitMovRR(int d, int s)
@@ -2172,6 +2182,8 @@ void FinishOp(int Inst)
     if (Inst >>= 8) {
         CurrentType = VT_BOOL;
         CurrentVal  = Inst;
+    } else {
+        SetZFInst();
     }
 }
 
@@ -2180,8 +2192,11 @@ void DoBinOp(int Op, int Reg)
 {
     int Inst = GetSimpleALU(Op);
     int RM = MODRM_REG|Reg<<3;
-    if (Inst)
-        goto HasInst;
+    if (Inst) {
+        Output2Bytes(Inst, RM);
+        FinishOp(Inst);
+        return;
+    }
 
     if (Op == '*') {
         // MUL : F7 /4
@@ -2215,7 +2230,6 @@ void DoBinOp(int Op, int Reg)
 
 HasInst:
     Output2Bytes(Inst, RM);
-    FinishOp(Inst);
 }
 
 int DoRhsLvalBinOp(int Op)
@@ -2545,7 +2559,6 @@ void ParseExpr1(int OuterPrecedence)
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-                LastZFInst = CodeAddress;
             } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
                 // Constant assignment
                 if (!LhsLoc) {
@@ -2627,7 +2640,6 @@ BinOpOut:
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-        LastZFInst = CodeAddress;
     } while (OperatorPrecedence <= OuterPrecedence);
 }
 
-- 
2.43.0


From adbfac354de86db9386e662da1b0081ff4b1d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 022/102] fix: scc: multiplication by constant zero yields zero

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 1ed939f..c02eb20 100644
--- a/scc.c
+++ b/scc.c
@@ -1283,7 +1283,7 @@ void EmitMovRImm(int r, int val)
 
 void EmitScaleAx(int Scale)
 {
-    if (Scale & (Scale-1)) {
+    if (!Scale || Scale & (Scale-1)) {
         EmitMovRImm(R_CX, Scale);
         Output2Bytes(0xF7, MODRM_REG|(4<<3)|R_CX); // MUL CX
     } else {
-- 
2.43.0


From 98a24370b6fd9b7f385cacf97da716a817954807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 023/102] fix: scc: signed division by a power of two truncates
 towards zero

---
 scc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index c02eb20..8219e48 100644
--- a/scc.c
+++ b/scc.c
@@ -1305,13 +1305,15 @@ void EmitDivCX(void)
 
 void EmitDivAxConst(int Amm)
 {
-    if (Amm & (Amm-1)) {
+    if (Amm == 1)
+        return;
+    if (!IsUnsignedOp || Amm & (Amm-1)) {
+        // Note: SAR rounds towards negative infinity
         EmitMovRImm(R_CX, Amm);
         EmitDivCX();
     } else {
-        const int ModRM = IsUnsignedOp ? MODRM_REG|SHROT_SHR<<3 : MODRM_REG|SHROT_SAR<<3;
         while (Amm /= 2) {
-            Output2Bytes(0xD1, ModRM);
+            Output2Bytes(0xD1, MODRM_REG|SHROT_SHR<<3);
         }
     }
 }
-- 
2.43.0


From 3922841ab29361f0003ce48d91a4d6600bc6d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 024/102] fix: scc: pointer differences are signed, pointer
 minus integer is scaled

---
 scc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 8219e48..7985bfe 100644
--- a/scc.c
+++ b/scc.c
@@ -2591,6 +2591,7 @@ void ParseExpr1(int OuterPrecedence)
             if (LhsType & VT_PTRMASK) {
                 CurrentVal *= LhsPointeeSize;
                 CurrentType = LhsType;
+                LhsPointeeSize = 0; // Not a pointer difference
             }
 RhsConst:
             DoRhsConstBinOp(Op);
@@ -2608,10 +2609,11 @@ RhsConst:
                 }
             } else {
                 if ((LhsType&~VT_UNSIGNED) != VT_INT && !LhsPointeeSize) Fail();
-                if (Op == '+' && LhsPointeeSize) {
+                if (LhsPointeeSize && (Op == '+' || (Op == '-' && !(CurrentType & VT_PTRMASK) && (CurrentType & VT_BASEMASK) != VT_ARRAY))) {
                     GetVal();
                     EmitScaleAx(LhsPointeeSize);
                     CurrentType = LhsType;
+                    LhsPointeeSize = 0; // Not a pointer difference
                 } else if ((Pending & PENDING_PUSHAX) && (CurrentType & VT_BASEMASK) != VT_ARRAY) {
                     if ((CurrentType&(VT_BASEMASK|VT_PTRMASK)) != VT_CHAR) {
                         if (!(CurrentType&VT_LVAL)) Fail();
@@ -2639,6 +2641,7 @@ DoNormal:
         }
 BinOpOut:
         if (Op == '-' && LhsPointeeSize) {
+            IsUnsignedOp = 0;
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-- 
2.43.0


From bb6e3c8152f568f4e655ca1618eeef6a93a2678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 025/102] fix: scc: unsigned operands give unsigned results,
 shifts follow the left operand only

---
 scc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 7985bfe..d42a5c6 100644
--- a/scc.c
+++ b/scc.c
@@ -2500,7 +2500,9 @@ void ParseExpr1(int OuterPrecedence)
             continue;
         }
 
-        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) || (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT);
+        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT);
+        if (Op != TOK_LSH && Op != TOK_RSH && (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT))
+            IsUnsignedOp = 1;
 
         if (Prec == PREC_ASSIGN) {
             HandleLhsLvalLoc(LhsLoc);
@@ -2645,6 +2647,8 @@ BinOpOut:
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
+        if ((CurrentType & ~VT_UNSIGNED) == VT_INT)
+            CurrentType = IsUnsignedOp ? VT_UNSIGNED|VT_INT : VT_INT;
     } while (OperatorPrecedence <= OuterPrecedence);
 }
 
-- 
2.43.0


From 0f913537648fab8e08dd1dc58cd8f1abc213e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 026/102] fix: scc: a constant used as a condition is loaded
 before it is tested

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index d42a5c6..639be1a 100644
--- a/scc.c
+++ b/scc.c
@@ -2001,7 +2001,7 @@ void ParseCastExpression(void);
 
 void ToBool(void)
 {
-    LvalToRval();
+    GetVal();
     if (CodeAddress != LastZFInst)
         Output2Bytes(I_AND|1, MODRM_REG); // AND AX, AX
     CurrentType = VT_BOOL;
-- 
2.43.0


From 356c5d1ea77c1bf4ce8396b6cb071abcacd0aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 027/102] fix: scc: do-while with a constant true condition
 loops

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 639be1a..f03d26b 100644
--- a/scc.c
+++ b/scc.c
@@ -2307,7 +2307,7 @@ void DoCondHasExpr(int Label, int Forward) // forward => jump if label is false
 {
     if (CurrentType == (VT_LOCLIT|VT_INT)) {
         // Constant condition
-        if (!CurrentVal && Forward)
+        if (!CurrentVal == Forward)
             EmitJmp(Label);
         return;
     }
-- 
2.43.0


From 8c0d1e55b3812a5491b55dbaac5952ae3d1b4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 028/102] fix: scc: ++/-- on pointers to objects larger than
 127 bytes

---
 scc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index f03d26b..0d10eff 100644
--- a/scc.c
+++ b/scc.c
@@ -1587,8 +1587,11 @@ void DoIncDecOp(int Op, int Post)
     Op = Op == TOK_MINUSMINUS;
 
     if (Size > 1) {
-        EmitModrm(I_ALU_RM16_IMM8, Op*(I_SUB>>3), Loc, CurrentVal);
+        const int Large = Size > 127; // Doesn't fit sign extended 8-bit immediate
+        EmitModrm(Large ? I_ALU_RM16_IMM16 : I_ALU_RM16_IMM8, Op*(I_SUB>>3), Loc, CurrentVal);
         Output1Byte(Size);
+        if (Large)
+            Output1Byte(Size>>8);
         return;
     }
     EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
-- 
2.43.0


From 01a3a89dcd46c6940ca5df8a3acf9d1de3e040d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 029/102] fix: scc: refuse constant division by zero

---
 scc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 0d10eff..43cac3a 100644
--- a/scc.c
+++ b/scc.c
@@ -2280,8 +2280,9 @@ int DoConstBinOp(int Op, int L, int R)
     case '+':     return L + R;
     case '-':     return L - R;
     case '*':     return L * R;
-    case '/':     return L / R;
-    case '%':     return L % R;
+    case '/': case '%':
+        if (!R) Fail();
+        return Op == '/' ? L / R : L % R;
     case '&':     return L & R;
     case '^':     return L ^ R;
     case '|':     return L | R;
-- 
2.43.0


From f4f759b53bea74fa67e48a9518fb0eb5a13492d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 030/102] fix: scc: assignment to a byte yields the value that
 was stored

---
 scc.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/scc.c b/scc.c
index 43cac3a..a8b3b38 100644
--- a/scc.c
+++ b/scc.c
@@ -2569,6 +2569,8 @@ void ParseExpr1(int OuterPrecedence)
                 }
             } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
                 // Constant assignment
+                if (Size == 1)
+                    CurrentVal = LhsType & VT_UNSIGNED ? (unsigned char)CurrentVal : (signed char)CurrentVal;
                 if (!LhsLoc) {
                     GetVal();
                     Output1Byte(I_STOSB-1+Size);
@@ -2580,6 +2582,15 @@ void ParseExpr1(int OuterPrecedence)
                 GetVal();
             }
             EmitStoreAx(Size, LhsLoc, LhsVal);
+            if (Size == 1) {
+                // The stored value may differ from the one in AX
+                if (LhsLoc) {
+                    CurrentType = LhsType | LhsLoc | VT_LVAL;
+                    CurrentVal = LhsVal;
+                } else {
+                    EmitExtend(LhsType&VT_UNSIGNED);
+                }
+            }
             continue;
         }
         int LhsPointeeSize = 0;
-- 
2.43.0


From 10ba3a6355d093a3dbb69652efee703cd2ec8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 031/102] fix: scc: compound assignment to a pointer scales the
 right operand

---
 scc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scc.c b/scc.c
index a8b3b38..6d84e8e 100644
--- a/scc.c
+++ b/scc.c
@@ -2536,6 +2536,15 @@ void ParseExpr1(int OuterPrecedence)
                 if (!LhsLoc)
                     EmitMovRR(R_SI, R_DI); // TODO: Can sometimes be avoided
                 Temp = CurrentType == (VT_INT|VT_LOCLIT);
+                if (LhsType & VT_PTRMASK) {
+                    const int Scale = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
+                    if (Temp) {
+                        CurrentVal *= Scale;
+                    } else {
+                        GetVal();
+                        EmitScaleAx(Scale);
+                    }
+                }
                 if (Size == 2) {
                     int Inst = GetSimpleALU(Op);
                     if (Inst) {
-- 
2.43.0


From 2c60af06e78d032d09dea65b5e9a3f5e8326d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 032/102] fix: scc: save BX before conditionally executed
 operand code

---
 scc.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/scc.c b/scc.c
index 6d84e8e..a300793 100644
--- a/scc.c
+++ b/scc.c
@@ -1412,6 +1412,16 @@ void FlushPushAx(void)
     }
 }
 
+// Value in BX must be in the same place whether or not the following code is executed
+void SaveBX(void)
+{
+    if (RegUse && !IsDeadCode) {
+        Output1Byte(I_PUSH|R_BX);
+        LocalOffset -= 2;
+        RegUse = 0;
+    }
+}
+
 int EmitChecks(void)
 {
     if (IsDeadCode)
@@ -2376,6 +2386,9 @@ void HandleCondOp(void)
 
     const int FalseLabel = MakeLabel();
     const int EndLabel = MakeLabel();
+    if (CurrentType != VT_BOOL)
+        ToBool();
+    SaveBX();
     DoCondHasExpr(FalseLabel, 1);
     ParseAssignmentExpression();
     ForceToReg();
@@ -2456,6 +2469,7 @@ void ParseExpr1(int OuterPrecedence)
             LEnd = MakeLabel();
             if (CurrentType != VT_BOOL)
                 ToBool();
+            SaveBX();
             EmitJcc(CurrentVal ^ !Temp, LEnd);
         } else {
             LEnd = -1;
-- 
2.43.0


From a9c83d91ae58681c1b99d60818ae13f61a574ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 033/102] fix: scc: a comparison as an operand of ?: is
 converted to a value

---
 scc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index a300793..1ad6119 100644
--- a/scc.c
+++ b/scc.c
@@ -2345,7 +2345,11 @@ void ForceToReg(void)
         LvalToRval();
 
     const int Loc = CurrentType & VT_LOCMASK;
-    if (!Loc) return;
+    if (!Loc) {
+        if (CurrentType == VT_BOOL)
+            GetVal();
+        return;
+    }
     if (Loc == VT_LOCGLOB || Loc == VT_LOCOFF) {
         EmitLoadAddr(R_AX, Loc, CurrentVal);
         CurrentType &= ~VT_LOCMASK;
-- 
2.43.0


From 004a5f00afccbe6f02d2ca2edb2e1cfd526a8e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 034/102] fix: scc: the operands of ?: determine the type of
 its result

---
 scc.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 1ad6119..4d44b22 100644
--- a/scc.c
+++ b/scc.c
@@ -2397,23 +2397,29 @@ void HandleCondOp(void)
     ParseAssignmentExpression();
     ForceToReg();
     const int LhsType = CurrentType;
+    const int LhsExtra = CurrentTypeExtra;
     EmitJmp(EndLabel);
     Expect(':');
     EmitLocalLabel(FalseLabel);
     ParseAssignmentExpression();
     ForceToReg();
     // Check if type unification is needed.
-    // This is certainly the case if only one side is an lvalue
-    // or if the types are "too different".
-    int TypeDiff = LhsType ^ CurrentType;
-    if ((TypeDiff & VT_LVAL) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
+    if (LhsType != CurrentType) {
         const int RealEnd = MakeLabel();
         LvalToRval();
+        const int RhsType = CurrentType;
         EmitJmp(RealEnd);
         EmitLocalLabel(EndLabel);
         CurrentType = LhsType;
         LvalToRval();
         EmitLocalLabel(RealEnd);
+        // The other operand of a pointer is a null pointer constant
+        if (RhsType & VT_PTRMASK) {
+            CurrentType = RhsType;
+        } else {
+            CurrentTypeExtra = LhsExtra;
+            CurrentType |= RhsType & VT_UNSIGNED;
+        }
     } else {
         EmitLocalLabel(EndLabel);
     }
-- 
2.43.0


From 87cb729d265c1d50ccd468c6b531a99b459fced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 035/102] fix: scc: the value of ++/-- applied to an object
 reached through a pointer

---
 scc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 4d44b22..5fb38a2 100644
--- a/scc.c
+++ b/scc.c
@@ -1602,9 +1602,11 @@ void DoIncDecOp(int Op, int Post)
         Output1Byte(Size);
         if (Large)
             Output1Byte(Size>>8);
-        return;
+    } else {
+        EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
     }
-    EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
+    if (!Post && !Loc)
+        Output1Byte(I_XCHG_AX|R_SI); // The result is the lvalue
 }
 
 struct VarDecl* AddVarDeclScope(int Scope, int Id)
-- 
2.43.0


From 69eb9642e0276a4189e886df9a26c7a5354f4ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 036/102] fix: scc: save the values held for an outer
 expression before pushing a function pointer

---
 scc.c | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/scc.c b/scc.c
index 5fb38a2..e5eee01 100644
--- a/scc.c
+++ b/scc.c
@@ -1831,22 +1831,6 @@ void ParsePostfixExpression(void)
                 // Function call
                 GetToken();
                 if (!(CurrentType & VT_FUNPTR)) Fail();
-                const int RetType  = CurrentType & ~(VT_FUNPTR|VT_LOCMASK|VT_LVAL);
-                int RetExtra = CurrentTypeExtra;
-                struct VarDecl* Func = 0;
-                switch (CurrentType & VT_LOCMASK) {
-                case VT_LOCGLOB:
-                    Func = &VarDecls[CurrentVal];
-                    RetExtra = Func->TypeExtra;
-                    break;
-                case 0:
-                    Output1Byte(I_XCHG_AX|R_SI);
-                    // Fall through
-                default:
-                    EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
-                    Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
-                    LocalOffset -= 2;
-                }
 
                 int RU = RegUse;
                 if (Pending & PENDING_PUSHAX) {
@@ -1865,6 +1849,23 @@ void ParsePostfixExpression(void)
                     RegUse = 0;
                 }
 
+                const int RetType  = CurrentType & ~(VT_FUNPTR|VT_LOCMASK|VT_LVAL);
+                int RetExtra = CurrentTypeExtra;
+                struct VarDecl* Func = 0;
+                switch (CurrentType & VT_LOCMASK) {
+                case VT_LOCGLOB:
+                    Func = &VarDecls[CurrentVal];
+                    RetExtra = Func->TypeExtra;
+                    break;
+                case 0:
+                    Output1Byte(I_XCHG_AX|R_SI);
+                    // Fall through
+                default:
+                    EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
+                    Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
+                    LocalOffset -= 2;
+                }
+
                 int ArgSize = 0;
                 enum { ArgChunkSize = 8 }; // Must be power of 2
                 while (TokenType != ')') {
-- 
2.43.0


From 47c2e7f394bee6fbddfa241441cb457355100b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 037/102] fix: scc: the value of a function pointer is its
 contents, not its address

---
 scc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index e5eee01..33084ea 100644
--- a/scc.c
+++ b/scc.c
@@ -1554,7 +1554,7 @@ LoadAddrRet:
             return;
         }
 
-        if (CurrentType & VT_FUNPTR)
+        if ((CurrentType & VT_FUNPTR) == VT_FUN)
             goto LoadAddrRet;
 
         const int sz = (CurrentType&~VT_UNSIGNED) != VT_CHAR;
@@ -1858,10 +1858,13 @@ void ParsePostfixExpression(void)
                     RetExtra = Func->TypeExtra;
                     break;
                 case 0:
+                    if (~CurrentType & (VT_LVAL|VT_FUNPTR))
+                        goto PushFunc; // Already in AX
                     Output1Byte(I_XCHG_AX|R_SI);
                     // Fall through
                 default:
                     EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
+                PushFunc:
                     Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
                     LocalOffset -= 2;
                 }
-- 
2.43.0


From 65dfec0345698146fc082407554ecbe647102df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 038/102] fix: scc: static and global function pointers are
 variables, not functions

---
 scc.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 33084ea..27f8c3f 100644
--- a/scc.c
+++ b/scc.c
@@ -1152,7 +1152,7 @@ void EmitGlobalLabel(struct VarDecl* vd)
     if (vd->Offset) Fail();
     vd->Offset = CodeAddress;
     IsDeadCode = 0;
-    DoFixups(vd->Ref, vd->Type & VT_FUN);
+    DoFixups(vd->Ref, (vd->Type & VT_FUNPTR) == VT_FUN);
 
     char* P = CvtHex(IdBufPtr, CodeAddress);
     *P++ = ' ';
@@ -1854,6 +1854,8 @@ void ParsePostfixExpression(void)
                 struct VarDecl* Func = 0;
                 switch (CurrentType & VT_LOCMASK) {
                 case VT_LOCGLOB:
+                    if ((CurrentType & VT_FUNPTR) != VT_FUN)
+                        goto LoadFunc;
                     Func = &VarDecls[CurrentVal];
                     RetExtra = Func->TypeExtra;
                     break;
@@ -1863,6 +1865,7 @@ void ParsePostfixExpression(void)
                     Output1Byte(I_XCHG_AX|R_SI);
                     // Fall through
                 default:
+                LoadFunc:
                     EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
                 PushFunc:
                     Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
@@ -3364,7 +3367,7 @@ void ParseExternalDefition(void)
 
     vd->Type &= ~VT_STATIC;
 
-    if (vd->Type & VT_FUN) {
+    if ((vd->Type & VT_FUNPTR) == VT_FUN) {
         vd->Type |= VT_LOCGLOB;
         if (TokenType != '{') {
             goto End;
@@ -3526,7 +3529,7 @@ int main(int argc, char** argv)
     for (; vd != end; ++vd) {
         if (((CurrentType = vd->Type) & VT_LOCMASK) != VT_LOCGLOB || vd->Offset || vd == EBSS)
             continue;
-        if (CurrentType & VT_FUN) {
+        if ((CurrentType & VT_FUNPTR) == VT_FUN) {
             Printf("%s is undefined\n", IdText[vd->Id]);
             Fatal("Undefined function");
         }
-- 
2.43.0


From 674b24e08179d219963678bfa3b78cfb9a827556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 039/102] fix: scc: the address of a function defined later is
 absolute

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 27f8c3f..5b45cc9 100644
--- a/scc.c
+++ b/scc.c
@@ -1069,11 +1069,11 @@ void DoFixups(int r, int relative)
     while (r) {
         int o = 0;
         f = CodeAddress;
-        if (relative) {
+        c = &Output[r - CODESTART];
+        if (relative && (c[-1] & 0xf8) != I_MOV_R_IMM16) { // Not the address of a function
             o = r + 2;
             f -= o;
         }
-        c = &Output[r - CODESTART];
         r = c[0]|c[1]<<8;
         if (!c[-1]) {
             // Fused Jcc/JMP
-- 
2.43.0


From 6bf3afe6aa40ab5fc7dfc6d0989f8e3a8116dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 040/102] fix: scc: code that is not generated does not change
 the stack and register bookkeeping

---
 scc.c | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/scc.c b/scc.c
index 5b45cc9..2660615 100644
--- a/scc.c
+++ b/scc.c
@@ -414,6 +414,7 @@ int Pending; // Bit0: PENDING_PUSHAX, Rest: remaing bits: SP adjustment
 int RegUse;
 int LastZFInst;
 int LastFixup;
+enum { DEAD_UNEVALUATED = 2 }; // Labels don't make the code live
 int IsDeadCode;
 
 int NextSwitchCase = -1; // Where to go if we haven't matched
@@ -1138,6 +1139,8 @@ void FlushSpAdj(void);
 void EmitLocalLabel(int l)
 {
     if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
+    if (IsDeadCode & DEAD_UNEVALUATED)
+        return;
     FlushSpAdj();
     IsDeadCode = 0;
     LastZFInst = 0; // Flags are unknown when arriving via a jump
@@ -1506,6 +1509,7 @@ int SizeofType(int Type, int Extra)
     if (Type & (VT_PTRMASK|VT_FUNPTR))
         return 2;
     switch (Type & VT_BASEMASK) {
+    case VT_BOOL:
     case VT_INT:  return 2;
     case VT_CHAR: return 1;
     case VT_ARRAY:
@@ -1798,6 +1802,8 @@ void ParseAssignmentExpression(void);
 
 int GetStoredVal(int Reg)
 {
+    if (IsDeadCode)
+        return Reg < 0 ? R_CX : Reg; // Nothing was stored
     if (Pending&PENDING_PUSHAX) Fail();
     if (RegUse) {
         RegUse = 0;
@@ -2020,6 +2026,26 @@ void ParsePostfixExpression(void)
 }
 
 void ParseCastExpression(void);
+void ParseUnaryExpression(void);
+
+// Parse (unary or assignment) expression without evaluating it
+void ParseUnevaluated(int Unary)
+{
+    const int OldPending = Pending;
+    const int OldRegUse  = RegUse;
+    const int OldOffset  = LocalOffset;
+    const int WasDead    = IsDeadCode;
+    IsDeadCode = DEAD_UNEVALUATED;
+    if (Unary)
+        ParseUnaryExpression();
+    else
+        ParseAssignmentExpression();
+    if (!IsDeadCode) Fail();
+    IsDeadCode  = WasDead;
+    Pending     = OldPending;
+    RegUse      = OldRegUse;
+    LocalOffset = OldOffset;
+}
 
 void ToBool(void)
 {
@@ -2113,22 +2139,17 @@ void ParseUnaryExpression(void)
     case TOK_SIZEOF:
         {
             GetToken();
-            const int WasDead = IsDeadCode;
-            IsDeadCode = 1;
             if (TokenType == '(') {
                 GetToken();
                 if (IsTypeStart()) {
                     ParseAbstractDecl();
-                    CurrentVal = SizeofCurrentType();
                 } else {
-                    ParseAssignmentExpression();
+                    ParseUnevaluated(0);
                 }
                 Expect(')');
             } else {
-                ParseUnaryExpression();
+                ParseUnevaluated(1);
             }
-            if (!IsDeadCode) Fail();
-            IsDeadCode = WasDead;
             CurrentVal = SizeofCurrentType();
             CurrentType = VT_LOCLIT | VT_INT;
             return;
@@ -2375,11 +2396,7 @@ void ParseMaybeDead(int Live)
         const int OldType  = CurrentType;
         const int OldVal   = CurrentVal;
         const int OldExtra = CurrentTypeExtra;
-        const int WasDead  = IsDeadCode;
-        IsDeadCode = 1;
-        ParseAssignmentExpression();
-        if (!IsDeadCode) Fail();
-        IsDeadCode       = WasDead;
+        ParseUnevaluated(0);
         CurrentType      = OldType;
         CurrentVal       = OldVal;
         CurrentTypeExtra = OldExtra;
-- 
2.43.0


From fa3ed45a5fb0dbd7907ed8acf465181e00998319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 041/102] fix: scc: make room for variables declared before a
 case label

---
 scc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scc.c b/scc.c
index 2660615..e9ca4ee 100644
--- a/scc.c
+++ b/scc.c
@@ -417,6 +417,7 @@ int LastFixup;
 enum { DEAD_UNEVALUATED = 2 }; // Labels don't make the code live
 int IsDeadCode;
 
+int SwitchStack;     // LocalOffset at the start of the switch
 int NextSwitchCase = -1; // Where to go if we haven't matched
 int NextSwitchStmt;      // Where to go if we've matched (-1 if already emitted)
 int SwitchDefault;       // Optional switch default label
@@ -3141,6 +3142,8 @@ Redo:
         Stmt:
             EmitLocalLabel(NextSwitchStmt);
             NextSwitchStmt = -1;
+            if (LocalOffset != SwitchStack) // Variables were declared inside the switch
+                EmitModrm(I_LEA, R_SP, VT_LOCOFF, LocalOffset);
             goto Redo;
         }
     }
@@ -3293,6 +3296,8 @@ Redo:
             const int LastSwitchCase = NextSwitchCase;
             const int LastSwitchStmt = NextSwitchStmt;
             const int LastSwitchDef  = SwitchDefault;
+            const int LastSwitchStk  = SwitchStack;
+            SwitchStack    = LocalOffset;
             BStackLevel    = LocalOffset;
             BreakLabel     = MakeLabel();
             NextSwitchCase = MakeLabel();
@@ -3317,6 +3322,7 @@ Redo:
             NextSwitchCase = LastSwitchCase;
             NextSwitchStmt = LastSwitchStmt;
             SwitchDefault  = LastSwitchDef;
+            SwitchStack    = LastSwitchStk;
             BStackLevel    = OldBreakLevel;
             BreakLabel     = OldBreakLabel;
         }
-- 
2.43.0


From 2414a9743403fe6c91e33a69fc33622b8482b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 042/102] fix: scc: a call of a function returning char yields
 a char

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index e9ca4ee..6c26e70 100644
--- a/scc.c
+++ b/scc.c
@@ -1923,6 +1923,7 @@ void ParsePostfixExpression(void)
                 LocalOffset  += ArgSize;
                 CurrentType = RetType;
                 if ((CurrentType&~VT_UNSIGNED) == VT_CHAR) {
+                    EmitExtend(CurrentType&VT_UNSIGNED);
                     CurrentType = VT_INT;
                 }
                 CurrentTypeExtra = RetExtra;
-- 
2.43.0


From e6b2738d431f3e499470c7afe3e17fe6d06d122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 043/102] fix: scc: integer plus pointer scales the integer

---
 scc.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/scc.c b/scc.c
index 6c26e70..f6e83d3 100644
--- a/scc.c
+++ b/scc.c
@@ -2655,6 +2655,25 @@ void ParseExpr1(int OuterPrecedence)
             continue;
         }
         int LhsPointeeSize = 0;
+        if (Op == '+' && !(LhsType & VT_PTRMASK)) {
+            if ((CurrentType&VT_BASEMASK) == VT_ARRAY)
+                LvalToRval();
+            if (CurrentType & VT_PTRMASK) {
+                // Integer + pointer
+                if ((LhsType&~VT_UNSIGNED) != VT_INT) Fail();
+                Temp = SizeofType(CurrentType-VT_PTR1, CurrentTypeExtra);
+                LvalToRval();
+                if (LhsLoc) {
+                    EmitAddRegConst(R_AX, LhsVal * Temp);
+                } else {
+                    Output1Byte(I_XCHG_AX|R_SI);
+                    GetStoredVal(R_AX);
+                    EmitScaleAx(Temp);
+                    DoBinOp('+', R_SI);
+                }
+                continue;
+            }
+        }
         if (LhsType & VT_PTRMASK) {
             LhsPointeeSize = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
             if ((CurrentType&VT_BASEMASK) == VT_ARRAY)
-- 
2.43.0


From 3b6750e8cdab93c8e0c8f625da12fa230eb96c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 044/102] fix: scc: every declarator of a declaration gets the
 declared base type

---
 scc.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/scc.c b/scc.c
index f6e83d3..270c42b 100644
--- a/scc.c
+++ b/scc.c
@@ -2763,13 +2763,8 @@ void ParseAssignmentExpression(void)
 
 void SaveBaseType(void)
 {
-    BaseType      = CurrentType & ~VT_PTRMASK;
+    BaseType      = CurrentType;
     BaseTypeExtra = CurrentTypeExtra;
-    if ((CurrentType & VT_BASEMASK) == VT_ARRAY) {
-        struct ArrayDecl* AD = &ArrayDecls[CurrentTypeExtra];
-        BaseType      = AD->Type;
-        BaseTypeExtra = AD->TypeExtra;
-    }
 }
 
 void ParseDeclarator(int* Id);
@@ -3042,9 +3037,8 @@ struct VarDecl* ParseFirstDecl(void)
     ParseDeclSpecs();
     if (TokenType == ';')
         return 0;
-    struct VarDecl* VD = DoDecl();
     SaveBaseType();
-    return VD;
+    return DoDecl();
 }
 
 // Remember to reset CurrentType/CurrentTypeExtra before calling
@@ -3409,6 +3403,7 @@ void ParseExternalDefition(void)
         goto End;
 
     vd->Type &= ~VT_STATIC;
+    BaseType &= ~VT_STATIC;
 
     if ((vd->Type & VT_FUNPTR) == VT_FUN) {
         vd->Type |= VT_LOCGLOB;
-- 
2.43.0


From a5f10047d6cc693f7d8454c2fbc82b6cae4462fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 045/102] fix: scc: a parameter declared as an array is a
 pointer

---
 scc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scc.c b/scc.c
index 270c42b..a986448 100644
--- a/scc.c
+++ b/scc.c
@@ -2969,6 +2969,11 @@ Redo:
             if (ArgsCount == ARGS_MAX) Fail();
             struct Argument* A = &Args[ArgsCount++];
             ParseDeclarator(&A->Id);
+            if (CurrentType == VT_ARRAY) {
+                struct ArrayDecl* AD = &ArrayDecls[CurrentTypeExtra];
+                CurrentType      = AD->Type + VT_PTR1;
+                CurrentTypeExtra = AD->TypeExtra;
+            }
             A->Type      = CurrentType;
             A->TypeExtra = CurrentTypeExtra;
             if (TokenType == ',') {
-- 
2.43.0


From e196e74f534eecf24c23badb34551ab6fff20c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 046/102] fix: scc: parameters of a function pointer parameter
 are not parameters of the function

---
 scc.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/scc.c b/scc.c
index a986448..ed624cc 100644
--- a/scc.c
+++ b/scc.c
@@ -2957,7 +2957,8 @@ Redo:
         const int T = CurrentType | VT_FUN;
         const int E = CurrentTypeExtra;
 
-        ArgsCount = 0;
+        if (!IsFunPtr)
+            ArgsCount = 0;
         while (TokenType != ')') {
             if (TokenType == TOK_ELLIPSIS) {
                 GetToken();
@@ -2966,16 +2967,20 @@ Redo:
             ParseDeclSpecs();
             if (TokenType == ')')
                 break;
-            if (ArgsCount == ARGS_MAX) Fail();
-            struct Argument* A = &Args[ArgsCount++];
-            ParseDeclarator(&A->Id);
+            int ArgId;
+            ParseDeclarator(&ArgId);
             if (CurrentType == VT_ARRAY) {
                 struct ArrayDecl* AD = &ArrayDecls[CurrentTypeExtra];
                 CurrentType      = AD->Type + VT_PTR1;
                 CurrentTypeExtra = AD->TypeExtra;
             }
-            A->Type      = CurrentType;
-            A->TypeExtra = CurrentTypeExtra;
+            if (!IsFunPtr) {
+                if (ArgsCount == ARGS_MAX) Fail();
+                struct Argument* A = &Args[ArgsCount++];
+                A->Id        = ArgId;
+                A->Type      = CurrentType;
+                A->TypeExtra = CurrentTypeExtra;
+            }
             if (TokenType == ',') {
                 GetToken();
                 continue;
-- 
2.43.0


From a38affdb092bdfbb26ea9769f5dcbf833dbfe1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:42 +0000
Subject: [PATCH 047/102] fix: scc: a parameter without a name declares nothing

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index ed624cc..9be1bed 100644
--- a/scc.c
+++ b/scc.c
@@ -3428,6 +3428,8 @@ void ParseExternalDefition(void)
         Scopes[0] -= GLOBAL_RESERVE;
         for (i = 0; i < ArgsCount; ++i) {
             struct Argument* A = &Args[i];
+            if (A->Id < 0)
+                continue;
             CurrentType = A->Type | VT_LOCOFF;
             CurrentTypeExtra = A->TypeExtra;
             struct VarDecl* arg = AddVarDecl(A->Id);
-- 
2.43.0


From ca8ff79e0d2decdaf4384080d9b496e681cc055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 048/102] fix: scc: count the line end directly after a token

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index 9be1bed..6f70237 100644
--- a/scc.c
+++ b/scc.c
@@ -559,6 +559,8 @@ int SkipWhitespace(void)
 {
     for (;;) {
         if (CurChar <= ' ') {
+            if (CurChar == '\n')
+                ++Line;
             while ((CurChar = *InBufPtr++) <= ' ') {
                 switch (CurChar) {
                 case ' ':  continue;
-- 
2.43.0


From 6489b7e7a9efc8258dfe8759cdea01016879d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 049/102] fix: scc: @ and ` are not digits

---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 6f70237..b7487d3 100644
--- a/scc.c
+++ b/scc.c
@@ -625,8 +625,8 @@ unsigned GetNum(unsigned Init, unsigned Base, int MaxLen)
 {
     unsigned d;
     while (MaxLen--) {
-        if ((d = CurChar - '0') > 9)
-            d = (CurChar & 0xdf) - ('A'-10);
+        if ((d = CurChar - '0') > 9 && (d = (CurChar & 0xdf) - ('A'-10)) < 10)
+            break;
         if (d >= Base)
             break;
         Init = Init*Base + d;
-- 
2.43.0


From 5fff096b4bb8ceb6343da4ee46c73f93cc2ba4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 050/102] fix: scc: typedefs name types, not storage

---
 scc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index b7487d3..a22e467 100644
--- a/scc.c
+++ b/scc.c
@@ -2999,8 +2999,8 @@ Redo:
         GetToken();
         if (ArrayCount == ARRAY_MAX) Fail();
         struct ArrayDecl* AD = &ArrayDecls[ArrayCount];
-        const int F = CurrentType & VT_STATIC;
-        AD->Type      = CurrentType & ~VT_STATIC;
+        const int F = CurrentType & (VT_STATIC|VT_TYPEDEF);
+        AD->Type      = CurrentType & ~F;
         AD->TypeExtra = CurrentTypeExtra;
         if (TokenType != ']') {
             ParseExpr();
@@ -3044,13 +3044,20 @@ struct VarDecl* DoDecl(void)
     return AddVarDecl(Id);
 }
 
+struct VarDecl* NextDecl(void);
+
 struct VarDecl* ParseFirstDecl(void)
 {
     ParseDeclSpecs();
     if (TokenType == ';')
         return 0;
     SaveBaseType();
-    return DoDecl();
+    struct VarDecl* vd = DoDecl();
+    if (vd->Type & VT_TYPEDEF) {
+        while (NextDecl());
+        return 0;
+    }
+    return vd;
 }
 
 // Remember to reset CurrentType/CurrentTypeExtra before calling
-- 
2.43.0


From 3730426e7961a56d4964e6203fa579811c1ee62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 051/102] fix: scc: an array type inside an array bound is not
 the array itself

---
 scc.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/scc.c b/scc.c
index a22e467..387fd2a 100644
--- a/scc.c
+++ b/scc.c
@@ -2997,19 +2997,20 @@ Redo:
 
     while (TokenType == '[') {
         GetToken();
-        if (ArrayCount == ARRAY_MAX) Fail();
-        struct ArrayDecl* AD = &ArrayDecls[ArrayCount];
-        const int F = CurrentType & (VT_STATIC|VT_TYPEDEF);
-        AD->Type      = CurrentType & ~F;
-        AD->TypeExtra = CurrentTypeExtra;
+        const int T = CurrentType;
+        const int F = T & (VT_STATIC|VT_TYPEDEF);
+        const int E = CurrentTypeExtra;
+        CurrentVal = 0;
         if (TokenType != ']') {
             ParseExpr();
             if (CurrentType != (VT_INT|VT_LOCLIT)) Fail(); // Need constant expression
-            AD->Bound = CurrentVal;
-            if (AD->Bound <= 0) Fail();
-        } else {
-            AD->Bound = 0;
+            if (CurrentVal <= 0) Fail();
         }
+        if (ArrayCount == ARRAY_MAX) Fail();
+        struct ArrayDecl* AD = &ArrayDecls[ArrayCount];
+        AD->Bound     = CurrentVal;
+        AD->Type      = T & ~F;
+        AD->TypeExtra = E;
         Expect(']');
         CurrentType      = VT_ARRAY | F;
         CurrentTypeExtra = ArrayCount++;
-- 
2.43.0


From 03e990d32486631368f53d9f4ed346a044c7134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 052/102] fix: scc: an array of a typedef'd array type leaves
 the typedef alone

---
 scc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 387fd2a..22b3a98 100644
--- a/scc.c
+++ b/scc.c
@@ -2995,6 +2995,7 @@ Redo:
         return;
     }
 
+    const int OldArrayCount = ArrayCount;
     while (TokenType == '[') {
         GetToken();
         const int T = CurrentType;
@@ -3021,7 +3022,7 @@ Redo:
         // -> (array{0},[[char,2]])
         // -> (array{1},[[char,3],[array{0},2]])
         // -> (array{2},[[char,4],[array{0},3],[array{1},2]])
-        while (AD->Type == VT_ARRAY) {
+        while (AD->Type == VT_ARRAY && AD->TypeExtra >= OldArrayCount) {
             struct ArrayDecl* AD2 = &ArrayDecls[AD->TypeExtra];
             const int Temp = AD->Bound;
             AD->Bound = AD2->Bound;
-- 
2.43.0


From 4274434977320a5849a02c3664f8efed9f40a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 053/102] fix: scc: static locals: unused ones are accepted,
 and the size is taken while the type is known

---
 scc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 22b3a98..3105327 100644
--- a/scc.c
+++ b/scc.c
@@ -1669,8 +1669,8 @@ void PopScope(void)
             continue;
         if (vd->Ref) {
             // Move static variable for real to global scope
-            CurrentType = vd->Type;
-            CurrentTypeExtra = vd->TypeExtra;
+            CurrentType = VT_LOCGLOB;
+            BssSize += CurrentTypeExtra = SizeofType(vd->Type, vd->TypeExtra);
             AddLateGlobalVar(-2)->Ref = vd->Ref;
         }
         VarLookup[vd->Id] = vd->Prev;
@@ -3372,7 +3372,6 @@ Skip:
 
             if (CurrentType & VT_STATIC) {
                 vd->Type = (CurrentType & ~VT_STATIC) | VT_LOCGLOB;
-                BssSize += size;
             } else {
                 vd->Type |= VT_LOCOFF;
                 size = (size+1)&-2;
@@ -3595,7 +3594,8 @@ int main(int argc, char** argv)
             Fatal("Undefined function");
         }
         EmitGlobalLabel(vd);
-        CodeAddress += SizeofType(CurrentType, vd->TypeExtra);
+        // For static variables TypeExtra is the size
+        CodeAddress += vd->Id == -2 ? vd->TypeExtra : SizeofType(CurrentType, vd->TypeExtra);
     }
     if (CodeAddress - SBSS->Offset != BssSize) Fail();
     EmitGlobalLabel(EBSS);
-- 
2.43.0


From 6373d258c16a0486fea12793f67405eb58833ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 054/102] fix: scc: local structs are initialized by
 assignment, arrays are refused

---
 scc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 3105327..9e0a100 100644
--- a/scc.c
+++ b/scc.c
@@ -3375,7 +3375,8 @@ Skip:
             } else {
                 vd->Type |= VT_LOCOFF;
                 size = (size+1)&-2;
-                if (TokenType == '=') {
+                if (CurrentType != VT_STRUCT && TokenType == '=') {
+                    if (CurrentType == VT_ARRAY) Fail();
                     GetToken();
                     ParseAssignmentExpression();
                     GetVal();
@@ -3385,6 +3386,11 @@ Skip:
                 }
                 LocalOffset -= size;
                 vd->Offset = LocalOffset;
+                if (TokenType == '=') {
+                    CurrentType = VT_LOCOFF|VT_LVAL|VT_STRUCT;
+                    CurrentVal = LocalOffset;
+                    ParseExpr1(PREC_ASSIGN);
+                }
             }
             vd = NextDecl();
         }
-- 
2.43.0


From dd896dce2b94b555a4245bcfc8cb7350ae523d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 055/102] fix: scc: only character arrays are initialized with
 a string

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 9e0a100..80238e9 100644
--- a/scc.c
+++ b/scc.c
@@ -3490,7 +3490,7 @@ void ParseExternalDefition(void)
             case VT_LVAL|VT_ARRAY:
                 {
                     struct ArrayDecl* AD = &ArrayDecls[vd->TypeExtra];
-                    if ((AD->Type & ~VT_UNSIGNED) != VT_CHAR) Fail();
+                    if (vd->Type != (VT_LOCGLOB|VT_ARRAY) || (AD->Type & ~VT_UNSIGNED) != VT_CHAR) Fail();
                     if (AD->Bound) Fail(); // TODO
                     AD->Bound = ArrayDecls[CurrentTypeExtra].Bound;
                     if (CurrentTypeExtra != ArrayCount-1) Fail();
-- 
2.43.0


From 739703b49e5873ca100fe227b189208abdfe1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 056/102] fix: scc: the value of a struct assignment is kept

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 80238e9..e7e4fc9 100644
--- a/scc.c
+++ b/scc.c
@@ -2575,7 +2575,7 @@ void ParseExpr1(int OuterPrecedence)
                 if (Temp)
                     EmitLoadAddr(R_SI, Temp, CurrentVal);
                 else
-                    Output1Byte(I_XCHG_AX|R_SI);
+                    EmitMovRR(R_SI, R_AX);
                 EmitMovRImm(R_CX, SizeofCurrentType());
                 Output2Bytes(0xF3, 0xA4); // REP MOVSB
                 continue;
-- 
2.43.0


From 11a3d8367f789d6e6e9e69d113c83fa29f03d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 057/102] fix: scc: a struct without definition has no members
 (StructDecls[-1] was read)

---
 scc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index e7e4fc9..9cc0027 100644
--- a/scc.c
+++ b/scc.c
@@ -170,7 +170,7 @@ enum {
     LABEL_MAX = 320,
     NAMED_LABEL_MAX = 8,
     OUTPUT_MAX = 0x6000,    // Always try to reduce this if something fails unexpectedly... ~600bytes of stack is needed.
-    STRUCT_MAX = 8,
+    STRUCT_MAX = 9,
     STRUCT_MEMBER_MAX = 32,
     ARRAY_MAX = 32,
     GLOBAL_RESERVE = 4,     // How many globals symbols to allow to be defined in functions (where static variables count as globals)
@@ -371,7 +371,7 @@ struct StructMember StructMembers[STRUCT_MEMBER_MAX];
 int StructMemCount;
 
 struct StructDecl StructDecls[STRUCT_MAX];
-int StructCount;
+int StructCount = 1; // The first one is an incomplete struct
 
 struct ArrayDecl ArrayDecls[ARRAY_MAX];
 int ArrayCount;
@@ -1524,6 +1524,7 @@ int SizeofType(int Type, int Extra)
     case VT_STRUCT:
         {
             const int IsUnion = StructDecls[Extra].Id & IS_UNION_FLAG;
+            if (!StructDecls[Extra].Id) Fail();
             int Size = 0;
             struct StructMember* SM = StructDecls[Extra].Members;
             for (; SM; SM = SM->Next) {
@@ -2850,11 +2851,11 @@ void ParseDeclSpecs(void)
                 if (TokenType == TOK_UNION)
                     id = IS_UNION_FLAG;
                 GetToken();
-                CurrentTypeExtra = -1;
+                CurrentTypeExtra = 0;
                 if (TokenType >= TOK_ID) {
                     id |= ExpectId();
                     int i;
-                    for (i = StructCount - 1; i >= 0; --i) {
+                    for (i = StructCount - 1; i; --i) {
                         if (StructDecls[i].Id == id) {
                             CurrentTypeExtra = i;
                             break;
-- 
2.43.0


From 5768b6753c905e71b92a671b20a1d280687071ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 058/102] fix: scc: refuse pointers to arrays instead of taking
 them for arrays of function pointers

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index 9cc0027..df2d40e 100644
--- a/scc.c
+++ b/scc.c
@@ -2953,6 +2953,7 @@ Redo:
     if (IsFunPtr) {
         // More hacks
         Expect(')');
+        if (TokenType != '(') Fail();
     }
 
     if (TokenType == '(') {
-- 
2.43.0


From 3d850e328aa8a751ae3d5deb81e1450cda659c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 059/102] fix: scc: refuse a fourth level of indirection

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index df2d40e..844afd5 100644
--- a/scc.c
+++ b/scc.c
@@ -2923,6 +2923,7 @@ Redo:
     switch (TokenType) {
     case '*':
         GetToken();
+        if ((CurrentType & VT_PTRMASK) == VT_PTRMASK) Fail();
         CurrentType += VT_PTR1;
         goto Redo;
     case TOK_CONST:
-- 
2.43.0


From bd600304337aee58b3d6cc0ba32c445038c1972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 060/102] fix: scc: leave more memory to the stack when it
 compiles itself

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 844afd5..fc95430 100644
--- a/scc.c
+++ b/scc.c
@@ -161,7 +161,7 @@ void _start(void)
 // Misc. constants
 enum {
     CODESTART = 0x100,
-    INBUF_MAX = 512,
+    INBUF_MAX = 128,
     SCOPE_MAX = 16,
     VARDECL_MAX = 380,
     ID_MAX = 580,
-- 
2.43.0


From b066f4a167044184aefa4935e49f88f285a43272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 061/102] fix: scc: a function declared behind an object takes
 no storage

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index fc95430..93fd9cf 100644
--- a/scc.c
+++ b/scc.c
@@ -3503,7 +3503,7 @@ void ParseExternalDefition(void)
             default:
                 Fail();
             }
-        } else {
+        } else if ((vd->Type & VT_FUNPTR) != VT_FUN) {
             BssSize += SizeofCurrentType();
         }
         vd = NextDecl();
-- 
2.43.0


From 4458ce868425b83ad09704a910d51bb941946eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 062/102] fix: scc: refuse extern and function declarations in
 a block instead of making them locals

---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 93fd9cf..a38a233 100644
--- a/scc.c
+++ b/scc.c
@@ -2792,9 +2792,10 @@ void ParseDeclSpecs(void)
         case TOK_VA_LIST:
             CurrentType = VT_CHAR | VT_PTR1;
             break;
+        case TOK_EXTERN:
+            if (ScopeCount > 1) Fail();
         case TOK_AUTO:
         case TOK_CONST:
-        case TOK_EXTERN: // Should only really be allowed in global scope
         case TOK_REGISTER:
         case TOK_VOLATILE:
             // Ignore but accept for now
@@ -3372,6 +3373,7 @@ Skip:
         struct VarDecl* vd = ParseFirstDecl();
         while (vd) {
             int size = SizeofCurrentType();
+            if ((CurrentType & VT_FUNPTR) == VT_FUN) Fail();
 
             if (CurrentType & VT_STATIC) {
                 vd->Type = (CurrentType & ~VT_STATIC) | VT_LOCGLOB;
-- 
2.43.0


From e2b4c3824bf4fb462470722bbba4277ccea85617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 063/102] fix: refuse pointers to and functions returning
 typedef'd function types

---
 scc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index a38a233..c903a85 100644
--- a/scc.c
+++ b/scc.c
@@ -2924,7 +2924,7 @@ Redo:
     switch (TokenType) {
     case '*':
         GetToken();
-        if ((CurrentType & VT_PTRMASK) == VT_PTRMASK) Fail();
+        if ((CurrentType & VT_PTRMASK) == VT_PTRMASK || (CurrentType & VT_FUN)) Fail();
         CurrentType += VT_PTR1;
         goto Redo;
     case TOK_CONST:
@@ -2939,6 +2939,7 @@ Redo:
         // Hacks
         GetToken();
         Expect('*');
+        if (CurrentType & VT_FUN) Fail();
         CurrentType |= VT_FUNPTR;
         IsFunPtr = 1;
     }
@@ -2963,8 +2964,10 @@ Redo:
         const int T = CurrentType | VT_FUN;
         const int E = CurrentTypeExtra;
 
-        if (!IsFunPtr)
+        if (!IsFunPtr) {
+            if (CurrentType & VT_FUN) Fail();
             ArgsCount = 0;
+        }
         while (TokenType != ')') {
             if (TokenType == TOK_ELLIPSIS) {
                 GetToken();
-- 
2.43.0


From 8c4b01183cb1d11579f4b251ee0bf937067790d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 064/102] fix: scpp: > in #if compares the right way round

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index bff8b44..3b301be 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1318,7 +1318,7 @@ int EvalExpr1(int LHS, int OuterPrec)
         case '+': LHS += RHS; break;
         case '-': LHS -= RHS; break;
         case '<': LHS = LHS < RHS; break;
-        case '>': LHS = LHS < RHS; break;
+        case '>': LHS = LHS > RHS; break;
         case TOK_LTEQ: LHS = LHS <= RHS; break;
         case TOK_GTEQ: LHS = LHS >= RHS; break;
         case TOK_EQEQ: LHS = LHS == RHS; break;
-- 
2.43.0


From 50cd4c0e29771ab8dd13783c19da7bc9e1359f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 065/102] fix: scpp: binary operators in #if associate to the
 left

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 3b301be..b4f0104 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1307,7 +1307,7 @@ int EvalExpr1(int LHS, int OuterPrec)
             if (LookAheadOp <= ' ' || LookAheadOp >= TOK_ID)
                 break;
             const int LookAheadPrec = OperatorPrecedence(LookAheadOp);
-            if (LookAheadPrec > Prec)
+            if (LookAheadPrec >= Prec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
-- 
2.43.0


From 76643c0ba995b3023465f61bd1da5afee9633fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 066/102] fix: scpp: the operand of defined is not macro
 expanded

---
 scpp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index b4f0104..2233ff5 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1230,7 +1230,8 @@ int EvalUnary(void)
     } else if (CurTok.Type == TOK_RAW_ID) {
         GetToken();
         return 0;
-    } else if (Accept(TOK_DEFINED)) {
+    } else if (CurTok.Type == TOK_DEFINED) {
+        RawGetToken();
         RawSkipWS();
         int Par = 0;
         if (CurTok.Type == '(') {
-- 
2.43.0


From 41eee01abc761795867cdb879f15d4a2cf6df6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 067/102] fix: scpp: integer suffixes in #if are not digits

---
 scpp.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scpp.c b/scpp.c
index 2233ff5..44f816a 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1218,12 +1218,14 @@ int EvalUnary(void)
         }
         int ch;
         while ((ch = *s++)) {
-            n *= base;
             if (ch >= '0' && ch <= '9')
-                n += ch - '0';
+                ch -= '0';
             else {
-                n += (ch & 0xdf) - ('A' - 10);
+                ch = (ch & 0xdf) - ('A' - 10);
+                if (ch >= base)
+                    break; // Suffix
             }
+            n = n * base + ch;
         }
         GetToken();
         return n;
-- 
2.43.0


From 461023b5c990615da53f2f9432855e1da65c0156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 068/102] fix: scpp: do not divide by zero in the unevaluated
 part of an #if

---
 scpp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index 44f816a..a206ae3 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1316,8 +1316,8 @@ int EvalExpr1(int LHS, int OuterPrec)
         }
         switch (Op) {
         case '*': LHS *= RHS; break;
-        case '/': LHS /= RHS; break;
-        case '%': LHS %= RHS; break;
+        case '/': LHS = RHS ? LHS / RHS : 0; break;
+        case '%': LHS = RHS ? LHS % RHS : 0; break;
         case '+': LHS += RHS; break;
         case '-': LHS -= RHS; break;
         case '<': LHS = LHS < RHS; break;
-- 
2.43.0


From 56f0de4b6f01d46a92b7b1ec43ebe2b21b7e6f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 069/102] fix: scpp: #undef forgets the parameters and the
 replacement of a macro

---
 scpp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scpp.c b/scpp.c
index a206ae3..9cfa317 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1415,10 +1415,13 @@ void HandleDirective(void)
             ReplaceId();
             if (CurTok.Type >= TOK_USER_ID) {
                 // HACK: Just hide #undef'ed macros
-                Macros[CurTok.Type - TOK_USER_ID].Hide = 2;
-                FreeTokenList(Macros[CurTok.Type - TOK_USER_ID].Replacement);
+                struct Macro* M = &Macros[CurTok.Type - TOK_USER_ID];
+                M->Hide = 2;
+                FreeTokenList(M->Replacement);
+                M->Replacement = 0;
+                M->Arguments = 0;
             }
-            GetToken();
+            RawGetToken();
         }
     } else if (Directive == TOK_IFDEF || Directive == TOK_IFNDEF) {
         RawGetToken();
-- 
2.43.0


From 134c62397b3d5103acc2cf4f9adab8c4747920a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 070/102] fix: scpp: do not evaluate the #if and #elif
 expressions of inactive groups

---
 scpp.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scpp.c b/scpp.c
index 9cfa317..b64021a 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1344,6 +1344,12 @@ int EvalExpr(void)
     return EvalExpr1(EvalUnary(), 15);
 }
 
+int EvalCond(void)
+{
+    GetToken();
+    return EvalExpr() != 0;
+}
+
 int CondActive(void)
 {
     return !CondCount || CondState[CondCount-1] == COND_TRUE;
@@ -1442,16 +1448,14 @@ void HandleDirective(void)
             assert(0);
         }
     } else {
-        GetToken();
-
         char* S = CondCount ? &CondState[CondCount-1] : 0;
         if (Directive == TOK_IF) {
-            NewCond(EvalExpr());
+            NewCond(CondActive() && EvalCond());
         } else if (Directive == TOK_ELIF) {
             assert(S);
             if (*S == COND_TRUE)
                 *S = COND_DONE;
-            else if (*S == COND_FALSE && EvalExpr())
+            else if (*S == COND_FALSE && EvalCond())
                 *S = COND_TRUE;
         } else if (Directive == TOK_ELSE) {
             assert(S);
-- 
2.43.0


From 8779de1acac65c995dcfab1536da6e76aee62e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 071/102] fix: scpp: a comment separates tokens like white
 space

---
 scpp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index b64021a..f4f9aff 100644
--- a/scpp.c
+++ b/scpp.c
@@ -649,7 +649,8 @@ Restart:
                 ReadChar();
             }
             ReadChar();
-            goto Restart;
+            CurTok.Type = TOK_WHITESPACE;
+            return;
         }
         CurTok.Type = '/';
         assert(TokenDataPos < TOKEN_DATA_MAX);
-- 
2.43.0


From 6176ea34be60aa828717214e67b89c841f07ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 072/102] fix: scpp: do not expand macros in inactive groups

---
 scpp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index f4f9aff..3efb282 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1509,9 +1509,9 @@ void PPMain(void)
             if (!CurTok.Type)
                 return;
             assert(CurTok.Type == TOK_NEWLINE);
-            GetToken();
             StartOfLine = 1;
             Active = CondActive();
+            if (Active) GetToken();
             continue;
         case 0:
             if (Debug) printf("Exiting '%s' (%d)\n", CurFile->Filename, NumFiles);
@@ -1529,7 +1529,9 @@ void PPMain(void)
         }
 
         if (!Active) {
-            GetToken();
+            if (CurTok.Type != TOK_WHITESPACE)
+                StartOfLine = CurTok.Type == TOK_NEWLINE;
+            RawGetToken();
             continue;
         }
 
@@ -1552,6 +1554,7 @@ void PPMain(void)
             }
             WS = 0;
         }
+        StartOfLine = 0;
         switch (CurTok.Type) {
         case TOK_STRLIT:
         case TOK_CHARLIT:
-- 
2.43.0


From 6de91277dd8504228abe9abe85e9e21efcad3e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 073/102] fix: scpp: characters that form no token are no error
 in inactive groups

---
 scpp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scpp.c b/scpp.c
index 3efb282..dd36b2f 100644
--- a/scpp.c
+++ b/scpp.c
@@ -557,6 +557,7 @@ struct Token* SimpleExpand(struct Token* Tok)
 }
 
 void PrintToken(const struct Token* T);
+int CondActive(void);
 
 void PasteAppend(struct Token* Tok)
 {
@@ -789,6 +790,8 @@ Identifier:
     case '~':
         break;
     default:
+        if (!CondActive())
+            break;
         printf("Unknown token type %c (%02X)\n", CurTok.Type, CurTok.Type);
         assert(0);
     }
-- 
2.43.0


From 1119cb27a885c85ff3b18c3184ab0b83c4800ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 074/102] fix: scpp: an included file that lacks the last
 newline still ends its line

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index dd36b2f..fe98f50 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1526,6 +1526,7 @@ void PPMain(void)
             }
             CurrentChar = CurFile->LastChar;
             CurFileBuf  = CurFile->BufPtr;
+            WS |= WS_NEWLINE;
             StartOfLine = 1;
             GetToken();
             continue;
-- 
2.43.0


From b42c76d6f1a8441c100be461839b9fc601bf5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 075/102] fix: scpp: check the token buffer before writing to
 it

---
 scpp.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/scpp.c b/scpp.c
index fe98f50..d943571 100644
--- a/scpp.c
+++ b/scpp.c
@@ -723,13 +723,8 @@ Restart:
             ReadToTokenData();
             if (CurrentChar == 'x' || CurrentChar == 'X')
                 ReadToTokenData();
-            while ((IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1) {
-                TokenData[TokenDataPos++] = CurrentChar;
-                if ((CurrentChar = *CurFileBuf++))
-                    continue;
-                --CurFileBuf;
-                ReadChar();
-            }
+            while ((IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1)
+                ReadToTokenData();
             goto Out;
         }
     } else if ((CurrentChar&0xDF) <= 'Z') {
@@ -737,6 +732,7 @@ Identifier:
         CurTok.Type = TOK_RAW_ID;
         CurHash = 0;
         do {
+            assert(TokenDataPos < TOKEN_DATA_MAX);
             CurHash += (CurHash<<4)+(TokenData[TokenDataPos++] = CurrentChar);
             if (!(CurrentChar = *CurFileBuf++)) {
                 --CurFileBuf;
@@ -935,6 +931,7 @@ void GetToken(void)
                 if (Debug) printf("Special token! %s\n", CurTok.Text);
                 if (CurTok.Type == TOK___LINE__) {
                     char* T = &TokenData[NextTokenDataPos];
+                    assert(NextTokenDataPos + 12 < TOKEN_DATA_MAX);
                     sprintf(T, "%d", Line);
                     NextTokenDataPos += (int)strlen(T) + 1;
                     CurTok.Text = T;
@@ -1381,8 +1378,10 @@ void HandleInclude(void)
         TokenDataPos = NextTokenDataPos;
         Filename = &TokenData[TokenDataPos];
         while (CurrentChar != '>') {
+            assert(CurrentChar && CurrentChar != '\n');
             ReadToTokenData();
         }
+        assert(TokenDataPos < TOKEN_DATA_MAX);
         TokenData[TokenDataPos++] = 0;
         NextTokenDataPos = TokenDataPos;
     } else {
-- 
2.43.0


From d97c8dd8807257fce4acab675739f14229e4aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 076/102] fix: scpp: do not overrun the buffer of the output
 file's name

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index d943571..44b512a 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1598,6 +1598,7 @@ int main(int argc, char** argv)
     const char* OutName = argv[2];
     char Temp[FNAME_MAX];
     if (!OutName) {
+        assert(strlen(argv[1]) + 3 <= FNAME_MAX);
         MakeOutputFilename(Temp, argv[1]);
         OutName = Temp;
     }
-- 
2.43.0


From 6ecb0081f32fd4b0a7e227c9c13437e5af5d0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 077/102] fix: scpp: no white space before the first token for
 a comment

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 44b512a..c435eb5 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1552,7 +1552,7 @@ void PPMain(void)
         if (WS) {
             if (WS & WS_NEWLINE) {
                 OutputStr("\r\n");
-            } else {
+            } else if (!StartOfLine) {
                 OutputStr(" ");
             }
             WS = 0;
-- 
2.43.0


From 549b76432b08c5caba8d69e1d6b9673dcee6e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 078/102] fix: scpp: fail if the output cannot be written

---
 scpp.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index c435eb5..c401d87 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1479,6 +1479,14 @@ void HandleDirective(void)
     }
 }
 
+void WriteOutput(int Size)
+{
+    if (write(OutFile->FD, OutFile->Buf, Size) != Size) {
+        printf("Error writing %s\n", OutFile->Filename);
+        exit(1);
+    }
+}
+
 void OutputStr(const char* Str)
 {
     char* Buf = OutFile->BufPtr;
@@ -1486,7 +1494,7 @@ void OutputStr(const char* Str)
     while ((*Buf = *Str++)) {
         if (++Buf != End)
             continue;
-        write(OutFile->FD, OutFile->Buf, sizeof(OutFile->Buf));
+        WriteOutput(sizeof(OutFile->Buf));
         Buf = OutFile->Buf;
     }
     OutFile->BufPtr = Buf;
@@ -1635,7 +1643,7 @@ int main(int argc, char** argv)
 
     PPMain();
 
-    write(OutFile->FD, OutFile->Buf, OutFile->BufPtr - OutFile->Buf);
+    WriteOutput((int)(OutFile->BufPtr - OutFile->Buf));
     CloseFile();
     assert(NumFiles == 0);
 
-- 
2.43.0


From 7c5a5a6f81243e9399aac713a6961f939c4ab42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 079/102] fix: scpp: # quotes string and character literals

---
 scpp.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/scpp.c b/scpp.c
index c401d87..cece323 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1031,6 +1031,15 @@ void GetToken(void)
 
 char StrBuf[256]; // HACK HACK
 
+int StringifyChar(int StrPos, int Ch, int Quote)
+{
+    assert(StrPos + 2 < (int)sizeof(StrBuf));
+    if (Ch == '"' || (Ch == '\\' && Quote))
+        StrBuf[StrPos++] = '\\';
+    StrBuf[StrPos++] = (char)Ch;
+    return StrPos;
+}
+
 void Stringify(struct TokenList* TL)
 {
     int StrPos = 0;
@@ -1065,10 +1074,18 @@ void Stringify(struct TokenList* TL)
                 StrBuf[StrPos++] = ' ';
                 PendWS = 0;
             }
-            const int l = (int)strlen(CurTok.Text);
-            assert(StrPos+l < (int)sizeof(StrBuf));
-            memcpy(&StrBuf[StrPos], CurTok.Text, l);
-            StrPos += l;
+            const char* S = CurTok.Text;
+            int Quote = 0;
+            if (CurTok.Type == TOK_STRLIT)
+                Quote = '"';
+            else if (CurTok.Type == TOK_CHARLIT)
+                Quote = '\'';
+            if (Quote)
+                StrPos = StringifyChar(StrPos, Quote, Quote);
+            while (*S)
+                StrPos = StringifyChar(StrPos, *S++, Quote);
+            if (Quote)
+                StrPos = StringifyChar(StrPos, Quote, Quote);
         }
     }
     assert(StrPos < (int)sizeof(StrBuf));
-- 
2.43.0


From 766200c88e4b6688986f7445f71949b9e6ccb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 080/102] fix: scpp: white space before a macro's arguments may
 be a new line

---
 scpp.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scpp.c b/scpp.c
index cece323..dd14298 100644
--- a/scpp.c
+++ b/scpp.c
@@ -963,7 +963,11 @@ void GetToken(void)
         if (M->Arguments) {
             RawGetToken();
             int WS = CurTok.Type;
-            RawSkipWS();
+            while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
+                if (CurTok.Type == TOK_NEWLINE)
+                    WS = TOK_NEWLINE;
+                RawGetToken();
+            }
             if (CurTok.Type != '(') {
                 // Undo consumption of ID and any whitespace
                 if (WS < ' ') {
@@ -976,8 +980,9 @@ void GetToken(void)
                 CurTok.Text = IdText[Id - TOK_ID];
                 return;
             }
-            RawGetToken();
-            RawSkipWS();
+            do {
+                RawGetToken();
+            } while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE);
             if (CurTok.Type != ')') {
                 assert(M->Arguments != (struct Argument*)1);
                 A = M->Arguments;
-- 
2.43.0


From cfe64c4f9a813c5a0f19a664e5cf7bd40cbd09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 081/102] fix: scpp: keep the tokens of an expansion apart from
 their neighbours in the output

---
 scpp.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/scpp.c b/scpp.c
index dd14298..150425f 100644
--- a/scpp.c
+++ b/scpp.c
@@ -419,6 +419,7 @@ struct ReplaceStackElem {
     int Stop;
 } ReplaceStack[MAX_NEST];
 int ReplaceNest;
+int ReplaceEdge; // Nonzero if an expansion began or ended since the last token was output
 
 enum {
     COND_TRUE,        // In active block
@@ -607,6 +608,7 @@ void RawGetToken(void)
             RS->M->Hide = 0;
             FreeArgs(RS->M->Arguments);
         }
+        ReplaceEdge = 1;
         --ReplaceNest;
         if (Debug) printf("Popped replacement list (Stop=%d)\n", RS->Stop);
         if (RS->Stop) {
@@ -877,6 +879,7 @@ void PushHandleArg(struct Argument* A)
     ReplaceStack[ReplaceNest].M  = 0;
     ReplaceStack[ReplaceNest].TL = A->Replacement;
     ReplaceStack[ReplaceNest].Stop = 0;
+    ReplaceEdge = 1;
     ++ReplaceNest;
 }
 
@@ -947,6 +950,7 @@ void GetToken(void)
             return;
         }
         const int Id = CurTok.Type;
+        ReplaceEdge = 1;
         struct Argument* A = GetArg(Id);
         if (A) {
             assert(ReplaceNest < MAX_NEST);
@@ -1522,6 +1526,29 @@ void OutputStr(const char* Str)
     OutFile->BufPtr = Buf;
 }
 
+int IsIdCharacter(int Ch)
+{
+    return (IsIdChar[(unsigned char)Ch>>3]>>(Ch&7)) & 1;
+}
+
+// Could a token ending in Last and one starting with First be taken for another one?
+int MayJoin(int Last, int First)
+{
+    if (IsIdCharacter(Last))
+        return IsIdCharacter(First) || First == '.';
+    if (Last == '.' && IsIdCharacter(First))
+        return 1;
+    switch (First) {
+    case '=': case '.': case '*':
+        return Last != '(' && Last != ')' && Last != '[' && Last != ']' && Last != ',' && Last != ';';
+    case '+': case '-': case '&': case '|': case '<': case '/': case '#': case ':':
+        return Last == First;
+    case '>':
+        return Last == '>' || Last == '-';
+    }
+    return 0;
+}
+
 void PPMain(void)
 {
     ReadChar();
@@ -1531,6 +1558,7 @@ void PPMain(void)
     int WS = WS_NONE;
     int StartOfLine = 1;
     int Active = 1;
+    int Last = 0;
     for (;;) {
         switch (CurTok.Type) {
         case '#':
@@ -1586,7 +1614,10 @@ void PPMain(void)
                 OutputStr(" ");
             }
             WS = 0;
+        } else if (ReplaceEdge && Last && CurTok.Type != TOK_STRLIT && CurTok.Type != TOK_CHARLIT && MayJoin(Last, *CurTok.Text)) {
+            OutputStr(" ");
         }
+        ReplaceEdge = 0;
         StartOfLine = 0;
         switch (CurTok.Type) {
         case TOK_STRLIT:
@@ -1596,10 +1627,13 @@ void PPMain(void)
                 OutputStr(S);
                 OutputStr(CurTok.Text);
                 OutputStr(S);
+                Last = 0;
             }
             break;
         default:
             OutputStr(CurTok.Text);
+            if (*CurTok.Text)
+                Last = CurTok.Text[strlen(CurTok.Text)-1];
         }
         GetToken();
     }
-- 
2.43.0


From 95cca66b94583921dee28e0d8d535e5d8678ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 082/102] fix: scpp: allow white space before the parenthesis
 that ends defined

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index 150425f..8e32234 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1271,6 +1271,7 @@ int EvalUnary(void)
         ReplaceId();
         n = IsDefined(CurTok.Type);
         GetToken();
+        SkipWS();
         if (Par) Expect(')');
         return n;
     } else if (Accept('!')) {
-- 
2.43.0


From 8e3a40e1ca606765f2c42cec1cee7e78439bfc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 083/102] fix: scpp: what follows # is not looked at in
 inactive groups unless it is a conditional

---
 scpp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 8e32234..7c0fd72 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1434,7 +1434,10 @@ void HandleDirective(void)
     if (CurTok.Type == TOK_NEWLINE) {
         return;
     }
-    ReplaceId();
+    if (CurTok.Type == TOK_RAW_ID)
+        ReplaceId();
+    else if (!CondActive())
+        CurTok.Type = TOK_RAW_ID; // Not a directive
     const int Directive = CurTok.Type;
     assert(Directive < TOK_USER_ID);
 
@@ -1459,6 +1462,8 @@ void HandleDirective(void)
             }
             RawGetToken();
         }
+    } else if ((Directive == TOK_IFDEF || Directive == TOK_IFNDEF) && !CondActive()) {
+        NewCond(0);
     } else if (Directive == TOK_IFDEF || Directive == TOK_IFNDEF) {
         RawGetToken();
         RawSkipWS();
-- 
2.43.0


From 25836fdff0b5dc20436b96b2dd487d95b820000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 084/102] fix: scpp: a macro without parameters has no
 parameter list to search

---
 scpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpp.c b/scpp.c
index 7c0fd72..a7154bd 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1172,6 +1172,8 @@ void HandleDefine(void)
             ReplaceId();
             if (CurTok.Type >= TOK_USER_ID) {
                 struct Argument* A = M->Arguments;
+                if (A == (struct Argument*)1)
+                    A = 0;
                 while (A) {
                     if (A->Id == CurTok.Type) {
                         CurTok.Type = TOK_ARG;
-- 
2.43.0


From 7679765a79678c6f7511fd009bade836f9fdc676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 085/102] fix: scpp: ## with an empty argument on its left,
 white space behind a pasted token

---
 scpp.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/scpp.c b/scpp.c
index a7154bd..1b91a5c 100644
--- a/scpp.c
+++ b/scpp.c
@@ -562,8 +562,17 @@ int CondActive(void);
 
 void PasteAppend(struct Token* Tok)
 {
-    CurTok = *SimpleExpand(&CurTok);
+    struct Token* First = SimpleExpand(&CurTok);
     Tok = SimpleExpand(Tok);
+    if (!First || First->Type == TOK_WHITESPACE) {
+        // Nothing on the left
+        if (Tok)
+            CurTok = *Tok;
+        else
+            CurTok.Type = TOK_WHITESPACE;
+        return;
+    }
+    CurTok = *First;
     if (Debug) { printf("Paste "); if(Tok)PrintToken(Tok); printf(" to "); PrintToken(&CurTok); printf("\n"); }
     const char* T2 = Tok ? Tok->Text : "";
     const int l1 = (int)strlen(CurTok.Text);
@@ -596,8 +605,8 @@ void RawGetToken(void)
                 TL = SkipWsNL(TL->Next);
                 assert(TL);
                 PasteAppend(&TL->Tok);
-                TL = SkipWsNL(TL->Next);
-                RS->TL = TL;
+                RS->TL = TL->Next;
+                TL = SkipWsNL(RS->TL);
             }
 
             CurHash = ID_HASH_MAX;
-- 
2.43.0


From 6cd012ec2bdfb55ec4cd3111c7ffea6036eabd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 086/102] fix: scpp: the name of a function-like macro does not
 move the token behind it

---
 scpp.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/scpp.c b/scpp.c
index 1b91a5c..c007a92 100644
--- a/scpp.c
+++ b/scpp.c
@@ -913,6 +913,20 @@ struct Argument* GetArg(int Id)
     return 0;
 }
 
+// Returns zero if the next token of the replacements in progress isn't '('
+int CallFollows(void)
+{
+    int i;
+    for (i = ReplaceNest-1; i >= 0; --i) {
+        struct TokenList* TL = SkipWsNL(ReplaceStack[i].TL);
+        if (TL)
+            return TL->Tok.Type == '(';
+        if (ReplaceStack[i].Stop)
+            return 0;
+    }
+    return 1; // Have to look at what follows
+}
+
 void GetToken(void)
 {
     for (;;) {
@@ -974,6 +988,11 @@ void GetToken(void)
             return;
         if (Debug) printf("Start expanding macro %s\n", IdText[Id-TOK_ID]);
         if (M->Arguments) {
+            if (!CallFollows()) {
+                CurTok.Type = Id;
+                CurTok.Text = IdText[Id - TOK_ID];
+                return;
+            }
             RawGetToken();
             int WS = CurTok.Type;
             while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
-- 
2.43.0


From 7c38d699859fa719b1209413a1d83cd7f75dac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 087/102] fix: scpp: a pasted name is no parameter; a macro
 without parameters has none

---
 scpp.c | 32 +-------------------------------
 1 file changed, 1 insertion(+), 31 deletions(-)

diff --git a/scpp.c b/scpp.c
index c007a92..0b2b34d 100644
--- a/scpp.c
+++ b/scpp.c
@@ -892,27 +892,6 @@ void PushHandleArg(struct Argument* A)
     ++ReplaceNest;
 }
 
-struct Argument* GetArg(int Id)
-{
-    if (ReplaceNest && ReplaceStack[ReplaceNest-1].M) {
-        struct Argument* A = ReplaceStack[ReplaceNest-1].M->Arguments;
-        for (; A; A = A->Next) {
-            if (A->Id == Id) {
-                if (Debug) {
-                    printf("Matched argument %s\n", IdText[Id-TOK_ID]);
-                    struct TokenList* TL = A->Replacement;
-                    while (TL) {
-                        printf("\t"); PrintToken(&TL->Tok); printf("\n");
-                        TL = TL->Next;
-                    }
-                }
-                return A;
-            }
-        }
-    }
-    return 0;
-}
-
 // Returns zero if the next token of the replacements in progress isn't '('
 int CallFollows(void)
 {
@@ -974,15 +953,6 @@ void GetToken(void)
         }
         const int Id = CurTok.Type;
         ReplaceEdge = 1;
-        struct Argument* A = GetArg(Id);
-        if (A) {
-            assert(ReplaceNest < MAX_NEST);
-            ReplaceStack[ReplaceNest].M  = 0;
-            ReplaceStack[ReplaceNest].TL = A->Replacement;
-            ReplaceStack[ReplaceNest].Stop = 0;
-            ++ReplaceNest;
-            continue;
-        }
         struct Macro* M = &Macros[Id - TOK_USER_ID];
         if (M->Hide)
             return;
@@ -1017,7 +987,7 @@ void GetToken(void)
             } while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE);
             if (CurTok.Type != ')') {
                 assert(M->Arguments != (struct Argument*)1);
-                A = M->Arguments;
+                struct Argument* A = M->Arguments;
                 while (A) {
                     struct TokenList** ArgL = &A->Replacement;
                     int Nest = 0;
-- 
2.43.0


From 18dc44466bef00ac6791e6d31020ba57feb6bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 088/102] fix: scpp: the parenthesis of a macro call may come
 from an argument

---
 scpp.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/scpp.c b/scpp.c
index 0b2b34d..e71e6d6 100644
--- a/scpp.c
+++ b/scpp.c
@@ -892,14 +892,27 @@ void PushHandleArg(struct Argument* A)
     ++ReplaceNest;
 }
 
+// Type of the first token that isn't white space, zero if there is none
+int FirstType(struct TokenList* TL)
+{
+    for (; TL; TL = TL->Next) {
+        int T = TL->Tok.Type;
+        if (T == TOK_ARG)
+            T = FirstType(((struct Argument*)TL->Tok.Text)->Replacement);
+        if (T && T != TOK_WHITESPACE && T != TOK_NEWLINE)
+            return T;
+    }
+    return 0;
+}
+
 // Returns zero if the next token of the replacements in progress isn't '('
 int CallFollows(void)
 {
     int i;
     for (i = ReplaceNest-1; i >= 0; --i) {
-        struct TokenList* TL = SkipWsNL(ReplaceStack[i].TL);
-        if (TL)
-            return TL->Tok.Type == '(';
+        const int T = FirstType(ReplaceStack[i].TL);
+        if (T)
+            return T == '(';
         if (ReplaceStack[i].Stop)
             return 0;
     }
@@ -965,9 +978,11 @@ void GetToken(void)
             }
             RawGetToken();
             int WS = CurTok.Type;
-            while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
+            while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE || CurTok.Type == TOK_ARG) {
                 if (CurTok.Type == TOK_NEWLINE)
                     WS = TOK_NEWLINE;
+                else if (CurTok.Type == TOK_ARG)
+                    PushHandleArg((struct Argument*)CurTok.Text);
                 RawGetToken();
             }
             if (CurTok.Type != '(') {
-- 
2.43.0


From 457b4f5c6b667bd13f35f4173216c9b6b439c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 089/102] fix: scpp: lines of an included file are counted from
 one

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index e71e6d6..57c24dd 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1440,6 +1440,7 @@ void HandleInclude(void)
     CurFile->OldLine = Line;
     CurFileBuf = CurFile->Buf;
     Line = 1;
+    CurrentChar = 0;
     ReadChar();
 }
 
-- 
2.43.0


From cb4b291f8f674d6369dd47ac79692d45dde7efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 090/102] fix: sas: the sizes of the operands must agree

---
 sas.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sas.c b/sas.c
index 450f35f..adf3ed7 100644
--- a/sas.c
+++ b/sas.c
@@ -881,6 +881,13 @@ int TranslateMemMod(int Start)
     return -1;
 }
 
+void SetSize(int Size)
+{
+    if (SizeOverride && SizeOverride != Size)
+        Fatal("Operand size mismatch");
+    SizeOverride = Size;
+}
+
 void ParseOperand(struct Operand* Oper)
 {
     int neg = 0;
@@ -945,11 +952,12 @@ DoMem:
                 Oper->ModRM |= 0x80; // Disp16
         }
     } else if (TokenType == TOK_BYTE || TokenType == TOK_WORD) {
-        SizeOverride = TokenType == TOK_BYTE? 1 : 2;
+        SetSize(TokenType == TOK_BYTE? 1 : 2);
         GetToken();
         Expect(TOK_LBRACKET);
         goto DoMem;
     } else if (TokenType >= TOK_AL && TokenType <= TOK_DS) {
+        SetSize(TokenType < TOK_AX ? 1 : 2);
         Oper->Type = OPTYPE_REG;
         Oper->Disp = TokenType;
         GetToken();
@@ -1201,7 +1209,10 @@ void HandleALU(int Base)
 void HandleROT(int r)
 {
     struct Operand op1, op2;
-    Parse2Operands(&op1, &op2);
+    ParseOperand(&op1);
+    Expect(TOK_COMMA);
+    SizeOverride = 0; // The size of the count is independent
+    ParseOperand(&op2);
     assert(op1.Type == OPTYPE_REG);
     const int W = op1.Disp >= TOK_AX;
     int Inst = 0xD0 | W;
@@ -1232,6 +1243,7 @@ void HandleCALL(void)
     struct Operand op;
     ParseOperand(&op);
     if (op.Type == OPTYPE_REG) {
+        assert(op.Disp >= TOK_AX);
         OutputByte(0xFF);
         OutputByte(0xC0 | 2<<3 | (op.Disp&7));
     } else {
@@ -1398,7 +1410,7 @@ void HandleLEA(void)
 {
     struct Operand op1, op2;
     Parse2Operands(&op1, &op2);
-    assert(op1.Type == OPTYPE_REG);
+    assert(op1.Type == OPTYPE_REG && op1.Disp >= TOK_AX);
     assert(op2.Type == OPTYPE_MEM);
     OutputMR(0x8D, &op2, &op1);
 }
-- 
2.43.0


From 4a6815f64ad51fcb545d5168d96d25b9ef3f30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 091/102] fix: sas: refuse segment registers where the
 instruction has no such form

---
 sas.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sas.c b/sas.c
index adf3ed7..2e00a74 100644
--- a/sas.c
+++ b/sas.c
@@ -974,11 +974,19 @@ DoMem:
     }
 }
 
+// For instructions that can't use segment registers
+void ParseRMI(struct Operand* Oper)
+{
+    ParseOperand(Oper);
+    if (Oper->Type == OPTYPE_REG && Oper->Disp >= TOK_ES)
+        Fatal("Invalid use of segment register");
+}
+
 void Parse2Operands(struct Operand* op1, struct Operand* op2)
 {
-    ParseOperand(op1);
+    ParseRMI(op1);
     Expect(TOK_COMMA);
-    ParseOperand(op2);
+    ParseRMI(op2);
 }
 
 void HandleDx(int size)
@@ -1122,7 +1130,9 @@ void OutputMImm(int Inst, int r, struct Operand* M, struct Operand* Imm)
 void HandleMOV(void)
 {
     struct Operand op1, op2;
-    Parse2Operands(&op1, &op2);
+    ParseOperand(&op1);
+    Expect(TOK_COMMA);
+    ParseOperand(&op2);
     if (op1.Type == OPTYPE_REG) {
         int W = op1.Disp >= TOK_AX;
         if (op2.Type == OPTYPE_REG) {
@@ -1131,12 +1141,14 @@ void HandleMOV(void)
             if (op1.Disp < TOK_ES) {
                 Inst = op2.Disp < TOK_ES ? 0x88|W : 0x8c;
             } else {
+                assert(op2.Disp < TOK_ES);
                 Inst  = 0x8e;
                 ModRM = (op2.Disp&7) | (op1.Disp&7)<<3;
             }
             OutputByte(Inst);
             OutputByte(0xC0 | ModRM);
         } else if (op2.Type == OPTYPE_LIT) {
+            assert(op1.Disp < TOK_ES);
             OutputByte(0xB0 + op1.Disp - TOK_AL);
             OutputImm(&op2, W);
         } else {
@@ -1209,7 +1221,7 @@ void HandleALU(int Base)
 void HandleROT(int r)
 {
     struct Operand op1, op2;
-    ParseOperand(&op1);
+    ParseRMI(&op1);
     Expect(TOK_COMMA);
     SizeOverride = 0; // The size of the count is independent
     ParseOperand(&op2);
@@ -1241,7 +1253,7 @@ void HandleRel16(struct Operand* Op)
 void HandleCALL(void)
 {
     struct Operand op;
-    ParseOperand(&op);
+    ParseRMI(&op);
     if (op.Type == OPTYPE_REG) {
         assert(op.Disp >= TOK_AX);
         OutputByte(0xFF);
@@ -1289,7 +1301,7 @@ void HandleIncDec(int Dec)
 {
     (void)Dec;
     struct Operand op;
-    ParseOperand(&op);
+    ParseRMI(&op);
     if (op.Type == OPTYPE_REG) {
         if (op.Disp >= TOK_AX) {
             OutputByte(0x40 | Dec<<3 | (op.Disp&7));
@@ -1390,7 +1402,7 @@ void HandleMulDiv(int r)
 {
     (void)r;
     struct Operand op;
-    ParseOperand(&op);
+    ParseRMI(&op);
     assert(op.Type == OPTYPE_REG);
     OutputByte(0xF6 | (op.Disp >= TOK_AX));
     OutputByte(0xC0 | r<<3 | (op.Disp&7));
@@ -1400,7 +1412,7 @@ void HandleNotNeg(int r)
 {
     (void)r;
     struct Operand op;
-    ParseOperand(&op);
+    ParseRMI(&op);
     assert(op.Type == OPTYPE_REG);
     OutputByte(0xF6 | (op.Disp >= TOK_AX));
     OutputByte(0xC0 | r<<3 | (op.Disp&7));
-- 
2.43.0


From fd8ef830935e047d34809686477732d094f02477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 092/102] fix: sas: a shift count other than 1 or CL is not
 encodable

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index 2e00a74..e217b08 100644
--- a/sas.c
+++ b/sas.c
@@ -1231,6 +1231,8 @@ void HandleROT(int r)
     if (op2.Type == OPTYPE_REG) {
         assert(op2.Disp == TOK_CL);
         Inst |= 2;
+    } else {
+        assert(op2.Type == OPTYPE_LIT && !op2.Fixup && op2.Disp == 1);
     }
     OutputByte(Inst | W);
     OutputByte(0xC0 | r<<3 | (op1.Disp&7));
-- 
2.43.0


From f3484d1367ce96b080f63e5ae6638f6c2bb7f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 093/102] fix: sas: [bp+label] was encoded as a register when
 the label is defined later

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index e217b08..ab473f6 100644
--- a/sas.c
+++ b/sas.c
@@ -938,7 +938,7 @@ DoMem:
         }
         Expect(TOK_RBRACKET);
 
-        if (Oper->ModRM == 6 && !Oper->Disp)
+        if (Oper->ModRM == 6 && !Oper->Disp && !Oper->Fixup)
             Oper->ModRM |= 0x40;
 
         if (Oper->ModRM == -1)
-- 
2.43.0


From bc180bcc678d04d810bdfe35192bd34ed95ccba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 094/102] fix: sas: only numbers can be subtracted in a memory
 operand

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index ab473f6..7568075 100644
--- a/sas.c
+++ b/sas.c
@@ -902,6 +902,8 @@ DoMem:
         Oper->Type  = OPTYPE_MEM;
         Oper->ModRM = -1;
         for (;;) {
+            if (neg && TokenType != TOK_NUMBER)
+                Fatal("Invalid memory operand. %s", TokenText());
             if (TokenType >= TOK_ES && TokenType <= TOK_DS) {
                 // Segment override
                 OutputByte(0x26 | (TokenType-TOK_ES));
-- 
2.43.0


From 8b37c4ece12fc965ed75c2e62c201a468f0f01e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 095/102] fix: sas: refuse backward short jumps whose target is
 out of range

---
 sas.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sas.c b/sas.c
index 7568075..a1023c3 100644
--- a/sas.c
+++ b/sas.c
@@ -1240,10 +1240,18 @@ void HandleROT(int r)
     OutputByte(0xC0 | r<<3 | (op1.Disp&7));
 }
 
+void CheckShort(int Dist)
+{
+    if (!IsShort(Dist))
+        Fatal("Short jump out of range");
+}
+
 void HandleRel8(struct Operand* Op)
 {
     if (Op->Fixup)
         AddFixupHere(Op->Fixup, FIXUP_REL8);
+    else
+        CheckShort(Op->Disp-(VirtAddress+1));
     OutputByte(Op->Disp-(VirtAddress+1));
 }
 
@@ -1293,12 +1301,7 @@ void HandleJCC(int CC)
     ParseOperand(&op);
     assert(op.Type == OPTYPE_LIT);
     OutputByte(0x70|CC);
-    if (op.Fixup) {
-        AddFixupHere(op.Fixup, FIXUP_REL8);
-        OutputByte(-(VirtAddress+1));
-    } else {
-        OutputByte(op.Disp-(VirtAddress+1));
-    }
+    HandleRel8(&op);
 }
 
 void HandleIncDec(int Dec)
-- 
2.43.0


From 13723baa14db8c68406cd822103e8d67e351f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 096/102] fix: sas: diagnose labels that are never defined

---
 sas.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sas.c b/sas.c
index a1023c3..dda30ae 100644
--- a/sas.c
+++ b/sas.c
@@ -1582,6 +1582,12 @@ void HandleInstruction(int Inst)
     Fatal("Instruction not implemented: %s\n", IdText(Inst));
 }
 
+void CheckDefined(int Index)
+{
+    if (Labels[Index].Type == LABEL_NORMAL && Labels[Index].Val == -1)
+        Fatal("Undefined label %s", IdText(Index+TOK_USER_ID));
+}
+
 void AddBuiltins(const char* S)
 {
     char buf[16];
@@ -1684,6 +1690,7 @@ int main(int argc, char** argv)
                     // Retire local labels
                     for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i) {
                         if (Labels[i].Type && *IdText(i+TOK_USER_ID) == '.') {
+                            CheckDefined(i);
                             Labels[i].Type = LABEL_NONE;
                         }
                     }
@@ -1711,6 +1718,9 @@ int main(int argc, char** argv)
         }
     }
 
+    for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i)
+        CheckDefined(i);
+
     if (argv[2])
        strcpy(StringBuf, argv[2]);
     else
-- 
2.43.0


From 209f84bb4301c9f1fc77464241a535b523f8e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 097/102] fix: sas: DW of a label that is defined later

---
 sas.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sas.c b/sas.c
index dda30ae..9d22b93 100644
--- a/sas.c
+++ b/sas.c
@@ -991,6 +991,17 @@ void Parse2Operands(struct Operand* op1, struct Operand* op2)
     ParseRMI(op2);
 }
 
+void AddFixupHere(struct Label* L, char Type)
+{
+    assert(NextFixup);
+    struct Fixup* F = NextFixup;
+    NextFixup = NextFixup->Next;
+    F->Type   = Type;
+    F->Offset = OutputBufPos;
+    F->Next   = L->Fixups;
+    L->Fixups = F;
+}
+
 void HandleDx(int size)
 {
     int n = 0; // Keep count of string output for alignment
@@ -1014,8 +1025,8 @@ void HandleDx(int size)
             if (L->Val != -1) {
                 OutputWord(L->Val);
             } else {
+                AddFixupHere(L, FIXUP_DISP16);
                 OutputWord(0);
-                printf("TODO: Need DISP16 fixup for DW\n");
             }
         } else {
             Fatal("Unexpected token in DB/DW directive: %s", TokenText());
@@ -1060,17 +1071,6 @@ void HandleDirective(int Dir)
     Fatal("Directive not implemented: %s\n", IdText(Dir));
 }
 
-void AddFixupHere(struct Label* L, char Type)
-{
-    assert(NextFixup);
-    struct Fixup* F = NextFixup;
-    NextFixup = NextFixup->Next;
-    F->Type   = Type;
-    F->Offset = OutputBufPos;
-    F->Next   = L->Fixups;
-    L->Fixups = F;
-}
-
 void OutputImm8(struct Operand* Op)
 {
     assert(!Op->Fixup);
-- 
2.43.0


From b1d9d31af29e924f9b92454ba2c0b6fbeb0534f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 098/102] fix: sas: long strings and file names overflowed
 their buffers

---
 sas.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index 9d22b93..787d880 100644
--- a/sas.c
+++ b/sas.c
@@ -447,7 +447,7 @@ int SizeOverride;
 void Fatal(const char* format, ...)
 {
     printf("\nLine %d: Fatal error: ", Line);
-    char msg[80];
+    char msg[200];
     va_list args;
     va_start(args, format);
     vsprintf(msg, format, args);
@@ -678,7 +678,7 @@ SkipSpaces:
         int Len = 0;
         ReadChar();
         while (CurrentChar != '\'') {
-            assert(Len < (int)sizeof(StringBuf));
+            assert(Len < (int)sizeof(StringBuf)-1);
             if (!CurrentChar) Fatal("Unexpected EOF in string literal");
             StringBuf[Len++] = CurrentChar;
             ReadChar();
@@ -1721,6 +1721,7 @@ int main(int argc, char** argv)
     for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i)
         CheckDefined(i);
 
+    assert((int)strlen(argv[2] ? argv[2] : argv[1]) + 5 <= (int)sizeof(StringBuf));
     if (argv[2])
        strcpy(StringBuf, argv[2]);
     else
-- 
2.43.0


From b1cbe9f8ac922a4cd23bdf8ad46f02d6de2bd7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 099/102] fix: sas: check the number and the length of
 identifiers

---
 sas.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sas.c b/sas.c
index 787d880..5425453 100644
--- a/sas.c
+++ b/sas.c
@@ -492,7 +492,7 @@ int HashStr(const char* Str)
 int AddId(const char* Str)
 {
     int l = (int)strlen(Str) + 1;
-    assert(IdBufferIndex + l <= IDBUFFER_MAX);
+    assert(IdCount < ID_MAX && IdBufferIndex + l <= IDBUFFER_MAX);
     memcpy(IdBuffer + IdBufferIndex, Str, l);
     IdOffset[IdCount] = IdBufferIndex;
     IdBufferIndex += l;
@@ -660,11 +660,12 @@ SkipSpaces:
         TokenVal.Num = n;
         return;
     } else if (IsIdChar()) {
-        char Token[17];
+        char Token[33];
         char* Tp = Token;
         do {
-            if (Tp < &Token[sizeof(Token)-1])
-                *Tp++ = CurrentChar;
+            if (Tp == &Token[sizeof(Token)-1])
+                Fatal("Identifier too long");
+            *Tp++ = CurrentChar;
             ReadChar();
         } while (IsDigit() || IsIdChar());
         *Tp++ = 0;
-- 
2.43.0


From cbeb3f6a2e55c9003a625ba8ea3302333f2af9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 100/102] fix: sas: errors of read and write were ignored, and
 the exit code was undefined

---
 sas.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sas.c b/sas.c
index 5425453..eee8db7 100644
--- a/sas.c
+++ b/sas.c
@@ -547,7 +547,9 @@ void ReadChar(void)
     if (InBufCnt == InBufSize) {
         InBufCnt = 0;
         InBufSize = read(InFile, InBuf, INBUF_MAX);
-        if (!InBufSize) {
+        if (InBufSize <= 0) {
+            if (InBufSize)
+                Fatal("Error reading input file");
             CurrentChar = 0;
             return;
         }
@@ -1731,6 +1733,9 @@ int main(int argc, char** argv)
     if (OutFile < 0) {
         Fatal("Error creating output file");
     }
-    write(OutFile, OutputBuf, OutputBufPos);
+    if (write(OutFile, OutputBuf, OutputBufPos) != OutputBufPos) {
+        Fatal("Error writing output file");
+    }
     close(OutFile);
+    return 0;
 }
-- 
2.43.0


From 0b558e540032f6b47e4fefae1e16bbfca3854651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 101/102] fix: sas: printf of a long message overflowed its
 buffer

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index eee8db7..bd633dc 100644
--- a/sas.c
+++ b/sas.c
@@ -219,7 +219,7 @@ void sprintf(char* str, const char* format, ...)
 
 void printf(const char* format, ...)
 {
-    char msg[80];
+    char msg[256];
     va_list args;
     va_start(args, format);
     vsprintf(msg, format, args);
-- 
2.43.0


From 01149bc92dabf9da8bbb7fdd463fdccfec8613af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 102/102] fix: sas: the overrides of CS, SS and DS were encoded
 wrongly

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index bd633dc..0fcb404 100644
--- a/sas.c
+++ b/sas.c
@@ -909,7 +909,7 @@ DoMem:
                 Fatal("Invalid memory operand. %s", TokenText());
             if (TokenType >= TOK_ES && TokenType <= TOK_DS) {
                 // Segment override
-                OutputByte(0x26 | (TokenType-TOK_ES));
+                OutputByte(0x26 | (TokenType-TOK_ES)<<3);
                 GetToken();
                 Expect(TOK_COLON);
                 continue;
-- 
2.43.0

