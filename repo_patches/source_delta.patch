From 751d4417e5d6c0ef3d1ec51e7f366cbeb80bf57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 01/59] fix: VM_Create must not write to the caller's const
 image

VM_LoadQVM byte-swapped the header in place, which writes through a const
pointer and crashes when the image is in read-only memory.
---
 src/vm/vm.c | 56 +++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 88d6092..1827be0 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -276,16 +276,19 @@ const static char* opnames[OPCODE_TABLE_SIZE] = {
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
  * @param[in] bytecode Pointer to bytecode.
  * @param[in] length Number of bytes in bytecode array.
- * @return Pointer to start/header of vm bytecode. */
+ * @param[out] hostHeader The header of the bytecode in host byte order.
+ * @return Pointer to hostHeader. NULL if the bytecode is invalid. */
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length);
+                                    int length, vmHeader_t* hostHeader);
 
 /** Helper function for VM_Create: Set up the virtual machine during loading.
  * Ensure consistency and prepare the jumps.
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
  * @param[in] header Header of .qvm bytecode.
+ * @param[in] bytecode Pointer to bytecode.
  * @return 0 if everything is OK. -1 otherwise. */
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header);
+static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
+                                 const uint8_t* bytecode);
 
 /** Run a function from the virtual machine with the interpreter (i.e. no JIT).
  * @param[in] vm Pointer to initialized virtual machine.
@@ -378,7 +381,8 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 
     Com_Memset(vm, 0, sizeof(vm_t));
     Q_strncpyz(vm->name, name, sizeof(vm->name));
-    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length);
+    vmHeader_t        hostHeader;
+    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length, &hostHeader);
     if (!header)
     {
         vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
@@ -409,7 +413,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     vm->compiled = 0; /* no JIT */
     if (!vm->compiled)
     {
-        if (VM_PrepareInterpreter(vm, header) != 0)
+        if (VM_PrepareInterpreter(vm, header, bytecode) != 0)
         {
             VM_Free(vm);
             return -1;
@@ -440,14 +444,14 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 }
 
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length)
+                                    int length, vmHeader_t* hostHeader)
 {
     int dataLength;
     int i;
-    const union {
+    const struct {
         const vmHeader_t* h;
         const uint8_t*    v;
-    } header = {.v = bytecode };
+    } header = {.h = hostHeader, .v = bytecode };
 
     Com_Printf("Loading vm file %s...\n", vm->name);
 
@@ -458,13 +462,15 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
         return NULL;
     }
 
-    if (LittleLong(header.h->vmMagic) == VM_MAGIC)
+    /* byte swap a copy of the header, the image itself is read-only */
+    Com_Memcpy(hostHeader, bytecode, sizeof(vmHeader_t));
+    for (i = 0; i < (int)(sizeof(vmHeader_t)) / 4; i++)
+    {
+        ((int*)hostHeader)[i] = LittleLong(((int*)hostHeader)[i]);
+    }
+
+    if (header.h->vmMagic == VM_MAGIC)
     {
-        /* byte swap the header */
-        for (i = 0; i < (int)(sizeof(vmHeader_t)) / 4; i++)
-        {
-            ((int*)header.h)[i] = LittleLong(((int*)header.h)[i]);
-        }
 
         /* validate */
         if (header.h->bssLength < 0 || header.h->dataLength < 0 ||
@@ -484,7 +490,7 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
     {
         Com_Printf("Warning: Invalid magic number in header of \"%s\". "
                    "Read: 0x%x, expected: 0x%x\n",
-                   vm->name, LittleLong(header.h->vmMagic), VM_MAGIC);
+                   vm->name, header.h->vmMagic, VM_MAGIC);
         return NULL;
     }
 
@@ -691,14 +697,15 @@ static int LittleEndianToHost(const uint8_t b[4])
     return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
 }
 
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
+static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
+                                 const uint8_t* bytecode)
 {
-    int      op;
-    int      byte_pc;
-    int      int_pc;
-    uint8_t* code;
-    int      instruction;
-    int*     codeBase;
+    int            op;
+    int            byte_pc;
+    int            int_pc;
+    const uint8_t* code;
+    int            instruction;
+    int*           codeBase;
 
     vm->codeBase = (uint8_t*)Com_malloc(
         vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
@@ -709,14 +716,13 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, (uint8_t*)header + header->codeOffset,
-               vm->codeLength);
+    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset, vm->codeLength);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
     int_pc = byte_pc = 0;
     instruction      = 0;
-    code             = (uint8_t*)header + header->codeOffset;
+    code             = bytecode + header->codeOffset;
     codeBase         = (int*)vm->codeBase;
 
     /* Copy and expand instructions to words while
-- 
2.43.0


From ee4015e39ce3d794650ac7e258c0bc6fba0a9903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 02/59] fix: header validation in VM_LoadQVM must not overflow

The sums of segment offsets and lengths wrapped around in 32-bit arithmetic,
so huge values passed the check and were read and copied out of bounds.
---
 src/vm/vm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1827be0..9a76fe8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -478,8 +478,9 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
             header.h->codeOffset < 0 || header.h->dataOffset < 0 ||
             header.h->instructionCount <= 0 ||
             header.h->bssLength > VM_MAX_BSS_LENGTH ||
-            header.h->codeOffset + header.h->codeLength > length ||
-            header.h->dataOffset + header.h->dataLength + header.h->litLength >
+            (int64_t)header.h->codeOffset + header.h->codeLength > length ||
+            (int64_t)header.h->dataOffset + header.h->dataLength +
+                    header.h->litLength >
                 length)
         {
             Com_Printf("Warning: %s has bad header\n", vm->name);
-- 
2.43.0


From 7ae1cdc5702d3c29a3986ee92136056ab6fef8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 03/59] fix: VM_PrepareInterpreter must not read past the code
 segment

The length was only checked after the opcode had been read and stored (and
off by one), and operands were not checked at all.
---
 src/vm/vm.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9a76fe8..97f3570 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -730,17 +730,17 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
      * building instruction table */
     while (instruction < header->instructionCount)
     {
-        vm->instructionPointers[instruction] = int_pc;
-        instruction++;
-
-        op               = (int)code[byte_pc];
-        codeBase[int_pc] = op;
-        if (byte_pc > header->codeLength)
+        if (byte_pc >= header->codeLength)
         {
             Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                       "VM_PrepareInterpreter: pc > header->codeLength");
             return -1;
         }
+        vm->instructionPointers[instruction] = int_pc;
+        instruction++;
+
+        op               = (int)code[byte_pc];
+        codeBase[int_pc] = op;
 
         byte_pc++;
         int_pc++;
@@ -769,11 +769,23 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         case OP_GTF:
         case OP_GEF:
         case OP_BLOCK_COPY:
+            if (header->codeLength - byte_pc < 4)
+            {
+                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                          "VM_PrepareInterpreter: truncated instruction");
+                return -1;
+            }
             codeBase[int_pc] = LittleEndianToHost(&code[byte_pc]);
             byte_pc += 4;
             int_pc++;
             break;
         case OP_ARG:
+            if (header->codeLength - byte_pc < 1)
+            {
+                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                          "VM_PrepareInterpreter: truncated instruction");
+                return -1;
+            }
             codeBase[int_pc] = (int)code[byte_pc];
             byte_pc++;
             int_pc++;
-- 
2.43.0


From f45f51fa29742d0e3e15f22693594e130bc34195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 04/59] fix: reject branches to instructionCount

The branch target equal to the number of instructions passed the check and
read one element past the instruction pointer table.
---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 97f3570..f367fc3 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -832,7 +832,7 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         case OP_LEF:
         case OP_GTF:
         case OP_GEF:
-            if (codeBase[int_pc] < 0 || codeBase[int_pc] > vm->instructionCount)
+            if (codeBase[int_pc] < 0 || codeBase[int_pc] >= vm->instructionCount)
             {
                 Com_Error(vm->lastError = VM_JUMP_TO_INVALID_INSTRUCTION,
                           "VM_PrepareInterpreter: Jump to invalid "
-- 
2.43.0


From df6305a3d04bf5e8ef42e880fa80ba4485a8fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 05/59] fix: execution running past the last instruction must
 stop

The words behind the expanded instructions were raw code bytes and
uninitialized memory, or lay outside the allocation. Fill them with OP_UNDEF
and pad the code.
---
 src/vm/vm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index f367fc3..420f777 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -80,6 +80,11 @@
 /** Mask for a valid opcode (so no one can escape the sandbox) */
 #define OPCODE_TABLE_MASK (OPCODE_TABLE_SIZE - 1)
 
+/** Number of OP_UNDEF words behind the expanded code: execution that leaves the
+ * code (or returns into an operand) stops there. A word that is an op code is
+ * less than this, so it is also a safe branch target. */
+#define CODE_PADDING OPCODE_TABLE_SIZE
+
 /** Max. size of BSS section */
 #define VM_MAX_BSS_LENGTH 10485760
 
@@ -708,8 +713,10 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
     int            instruction;
     int*           codeBase;
 
+    const size_t codeAlloc = ((size_t)vm->codeLength + CODE_PADDING) * 4;
+
     vm->codeBase = (uint8_t*)Com_malloc(
-        vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
+        codeAlloc, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
     if (!vm->codeBase)
     {
         Com_Error(VM_MALLOC_FAILED,
@@ -717,7 +724,8 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset, vm->codeLength);
+    /* no uninitialized memory or raw code behind the expanded instructions */
+    Com_Memset(vm->codeBase, 0, codeAlloc);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
-- 
2.43.0


From 3552f81be4346da26dc32e115361d78a23dc302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 06/59] fix: resume after the CALL of a system call whatever it
 did to the frame

The return position was read back from VM memory without any check, so a
program could have the host overwrite it (memset system call on the stack) and
make the interpreter run outside of the code.
---
 src/vm/vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 420f777..8fcf851 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1105,6 +1105,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             *(int*)&image[programStack] = programCounter;
 
             /* jump to the location on the stack */
+            v1             = programCounter;
             programCounter = r0;
             opStackOfs--;
             if (programCounter < 0) /* system call */
@@ -1151,7 +1152,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                 /* save return value */
                 opStackOfs++;
                 opStack[opStackOfs] = r;
-                programCounter      = *(int*)&image[programStack];
+                programCounter      = v1;
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
-- 
2.43.0


From 6647ee41858d211e7316d741f173129e99cae5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 07/59] fix: keep the program stack inside the VM memory

ENTER and LEAVE operands, recursion and recursive VM_Call could move the
program stack anywhere, and the frame accesses are not masked: a program could
write host memory.
---
 src/vm/vm.c | 24 ++++++++++++++++++++++++
 src/vm/vm.h |  2 +-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 8fcf851..a73f268 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -433,6 +433,10 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     /* the stack is implicitly at the end of the image */
     vm->programStack = vm->dataMask + 1;
     vm->stackBottom  = vm->programStack - VM_PROGRAM_STACK_SIZE;
+    if (vm->stackBottom < 0)
+    {
+        vm->stackBottom = 0;
+    }
 
 #ifdef DEBUG_VM
     Com_Printf("VM:\n");
@@ -903,6 +907,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
     int      programCounter;
     int      programStack;
     int      stackOnEntry;
+    int      stackTop;
     uint8_t* image;
     int*     codeImage;
     int      v1;
@@ -929,6 +934,13 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
     dataMask       = vm->dataMask;
     programCounter = 0;
     programStack -= (8 + 4 * MAX_VMMAIN_ARGS);
+    if (programStack < vm->stackBottom)
+    {
+        vm->lastError = VM_STACK_OVERFLOW;
+        Com_Error(vm->lastError, "VM stack overflow");
+        return -1;
+    }
+    stackTop = programStack;
 
     for (arg = 0; arg < MAX_VMMAIN_ARGS; arg++)
     {
@@ -1186,6 +1198,12 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             v1 = r2;
 
             programCounter += 1;
+            if (v1 < 0 || programStack - v1 < vm->stackBottom)
+            {
+                vm->lastError = VM_STACK_OVERFLOW;
+                Com_Error(vm->lastError, "VM stack overflow");
+                return -1;
+            }
             programStack -= v1;
 #ifdef DEBUG_VM
             profileSymbol = VM_ValueToFunctionSymbol(vm, programCounter);
@@ -1210,6 +1228,12 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             /* remove our stack frame */
             v1 = r2;
 
+            if (v1 < 0 || v1 > stackTop - programStack)
+            {
+                vm->lastError = VM_STACK_ERROR;
+                Com_Error(vm->lastError, "VM stack underflow in OP_LEAVE");
+                return -1;
+            }
             programStack += v1;
 
             /* grab the saved program counter */
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 959e2eb..49304c9 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -69,7 +69,7 @@ typedef enum {
     VM_BLOCKCOPY_OUT_OF_RANGE      = -5,  /**< VM tries to escape sandbox */
     VM_PC_OUT_OF_RANGE             = -6,  /**< Program counter out of range */
     VM_JUMP_TO_INVALID_INSTRUCTION = -7,  /**< VM tries to escape sandbox */
-    VM_STACK_OVERFLOW              = -8,  /**< Only in DEBUG_VM mode */
+    VM_STACK_OVERFLOW              = -8,  /**< Program stack overflow */
     VM_STACK_MISALIGNED            = -9,  /**< Stack not aligned (DEBUG_VM) */
     VM_OP_LOAD4_MISALIGNED         = -10, /**< Access misaligned (DEBUG_VM) */
     VM_STACK_ERROR                 = -11, /**< Stack corrupted after call */
-- 
2.43.0


From 3103eefbce05305ecd0e7ccb50b2d5e81a4f1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 08/59] fix: range checks must not wrap around

A huge or negative length wrapped dest + len back into the valid range in
VM_BlockCopy and VM_MemoryRangeValid, and the latter dropped the upper half of
64-bit addresses.
---
 src/vm/vm.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index a73f268..f287c5c 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -662,9 +662,10 @@ int VM_MemoryRangeValid(intptr_t vmAddr, size_t len, const vm_t* vm)
     {
         return -1;
     }
-    const unsigned dest     = vmAddr;
-    const unsigned dataMask = vm->dataMask;
-    if ((dest & dataMask) != dest || ((dest + len) & dataMask) != dest + len)
+    const uintptr_t dest     = vmAddr;
+    const uintptr_t dataMask = vm->dataMask;
+    if ((dest & dataMask) != dest || len > dataMask ||
+        ((dest + len) & dataMask) != dest + len)
     {
         Com_Error(VM_DATA_OUT_OF_RANGE, "Memory access out of range");
         return -1;
@@ -691,7 +692,7 @@ static void VM_BlockCopy(unsigned int dest, unsigned int src, size_t n,
     unsigned int dataMask = vm->dataMask;
 
     if ((dest & dataMask) != dest || (src & dataMask) != src ||
-        ((dest + n) & dataMask) != dest + n ||
+        n > dataMask || ((dest + n) & dataMask) != dest + n ||
         ((src + n) & dataMask) != src + n)
     {
         Com_Error(vm->lastError = VM_BLOCKCOPY_OUT_OF_RANGE,
-- 
2.43.0


From 3cf3d4488022b2e05ecdefd3f5b6ced6ad71d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 09/59] fix: division by zero in a program must not kill the
 host

DIVI, DIVU, MODI and MODU by zero, and INT_MIN divided by -1, raised SIGFPE.
---
 src/vm/vm.c | 29 +++++++++++++++++++++++++++--
 src/vm/vm.h |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index f287c5c..b86c72c 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1497,18 +1497,43 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             opStack[opStackOfs] = r1 - r0;
             DISPATCH();
         goto_OP_DIVI:
+            if (r0 == 0)
+            {
+                vm->lastError = VM_DIVISION_BY_ZERO;
+                Com_Error(vm->lastError, "VM division by zero");
+                return -1;
+            }
             opStackOfs--;
-            opStack[opStackOfs] = r1 / r0;
+            /* INT_MIN / -1 traps on some CPUs */
+            opStack[opStackOfs] = (r0 == -1) ? (int)(0u - r1) : r1 / r0;
             DISPATCH();
         goto_OP_DIVU:
+            if (r0 == 0)
+            {
+                vm->lastError = VM_DIVISION_BY_ZERO;
+                Com_Error(vm->lastError, "VM division by zero");
+                return -1;
+            }
             opStackOfs--;
             opStack[opStackOfs] = ((unsigned)r1) / ((unsigned)r0);
             DISPATCH();
         goto_OP_MODI:
+            if (r0 == 0)
+            {
+                vm->lastError = VM_DIVISION_BY_ZERO;
+                Com_Error(vm->lastError, "VM division by zero");
+                return -1;
+            }
             opStackOfs--;
-            opStack[opStackOfs] = r1 % r0;
+            opStack[opStackOfs] = (r0 == -1) ? 0 : r1 % r0;
             DISPATCH();
         goto_OP_MODU:
+            if (r0 == 0)
+            {
+                vm->lastError = VM_DIVISION_BY_ZERO;
+                Com_Error(vm->lastError, "VM division by zero");
+                return -1;
+            }
             opStackOfs--;
             opStack[opStackOfs] = ((unsigned)r1) % ((unsigned)r0);
             DISPATCH();
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 49304c9..0f155a7 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -77,6 +77,7 @@ typedef enum {
     VM_MALLOC_FAILED               = -13, /**< Not enough memory */
     VM_BAD_INSTRUCTION             = -14, /**< Unknown OP code in bytecode */
     VM_NOT_LOADED                  = -15, /**< VM not loaded */
+    VM_DIVISION_BY_ZERO            = -16, /**< Division or modulus by zero */
 } vmErrorCode_t;
 
 /** VM alloc type. This is just an information passed to the host malloc
-- 
2.43.0


From cb3ca87fb84fb3b5ddcfdb53df0df02540320e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 10/59] fix: restore the program stack when a VM_Call ends with
 an error

An error after a system call left vm->programStack at the depth of the
failed call, so every failing call leaked program stack.
---
 src/vm/vm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index b86c72c..3b01fac 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -568,9 +568,14 @@ intptr_t VM_Call(vm_t* vm, int command, ...)
     }
     va_end(ap);
 
+    const int programStack = vm->programStack;
+
     ++vm->callLevel;
     r = VM_CallInterpreted(vm, args);
     --vm->callLevel;
+    /* also if the call ended with an error */
+    vm->programStack          = programStack;
+    vm->currentlyInterpreting = 0;
 
     return r;
 }
-- 
2.43.0


From 5def3a3908cf5e6845fa3ac0bfa6e38fc4dd2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 11/59] fix: clear the operand stack

Programs that pop or push more than they should read uninitialized host stack
memory, which discloses host addresses and makes runs nondeterministic.
---
 src/vm/vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 3b01fac..d2230c2 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -959,6 +959,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
     /* leave a free spot at start of stack so
        that as long as opStack is valid, opStack-1 will
        not corrupt anything */
+    Com_Memset(stack, 0, sizeof(stack));
     opStack    = PADP(stack, 16);
     *opStack   = 0x0000BEEF;
     opStackOfs = 0;
-- 
2.43.0


From b981d4e1b59d0a031d9b4f4b0ca0f69715b8ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:08 +0000
Subject: [PATCH 12/59] fix: a system call from the outermost frame read its
 arguments beyond the data memory

---
 src/vm/vm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index d2230c2..8d065bb 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -85,6 +85,11 @@
  * less than this, so it is also a safe branch target. */
 #define CODE_PADDING OPCODE_TABLE_SIZE
 
+/** Number of bytes behind the data memory: a 32-bit access to the last address
+ * needs three, and a system call from the outermost frame reads
+ * MAX_VMSYSCALL_ARGS words, up to eight bytes beyond the data memory. */
+#define DATA_PADDING 8
+
 /** Max. size of BSS section */
 #define VM_MAX_BSS_LENGTH 10485760
 
@@ -515,7 +520,7 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
 
     /* allocate zero filled space for initialized and uninitialized data
      leave some space beyond data mask so we can secure all mask operations */
-    vm->dataAlloc = dataLength + 4;
+    vm->dataAlloc = dataLength + DATA_PADDING;
     vm->dataBase  = (uint8_t*)Com_malloc(vm->dataAlloc, vm, VM_ALLOC_DATA_SEC);
     vm->dataMask  = dataLength - 1;
     if (vm->dataBase == NULL)
-- 
2.43.0


From 71e3d60fff7a0028e8f15da5350588905690a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 13/59] fix: BLOCK_COPY between overlapping ranges must not use
 memcpy

---
 src/vm/vm.c | 3 ++-
 src/vm/vm.h | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 8d065bb..9afa81b 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -710,7 +710,8 @@ static void VM_BlockCopy(unsigned int dest, unsigned int src, size_t n,
         return;
     }
 
-    Com_Memcpy(vm->dataBase + dest, vm->dataBase + src, n);
+    /* the ranges may overlap */
+    Com_Memmove(vm->dataBase + dest, vm->dataBase + src, n);
 }
 
 static int LittleEndianToHost(const uint8_t b[4])
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 0f155a7..c31877f 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -49,6 +49,9 @@
 /** Redirect memcpy() calls with this macro */
 #define Com_Memcpy memcpy
 
+/** Redirect memmove() calls with this macro */
+#define Com_Memmove memmove
+
 /** Translate from virtual machine memory to real machine memory. */
 #define VMA(x, vm) VM_ArgPtr(args[x], vm)
 
-- 
2.43.0


From 6785b5a39b6fa7ffa33219ffb01ec92b82736726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 14/59] fix: reject a header that counts more instructions than
 code bytes

A 40 byte image could make VM_Create allocate and clear many gigabytes.
---
 src/vm/vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 9afa81b..fb3b6b0 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -491,6 +491,7 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
             header.h->litLength < 0 || header.h->codeLength <= 0 ||
             header.h->codeOffset < 0 || header.h->dataOffset < 0 ||
             header.h->instructionCount <= 0 ||
+            header.h->instructionCount > header.h->codeLength ||
             header.h->bssLength > VM_MAX_BSS_LENGTH ||
             (int64_t)header.h->codeOffset + header.h->codeLength > length ||
             (int64_t)header.h->dataOffset + header.h->dataLength +
-- 
2.43.0


From ab5f42c9e7fc9ae759abff44f4ef51973b541805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 15/59] fix: memcpy system call with overlapping ranges in the
 standalone host

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 59f86e2..89dc29a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -163,7 +163,8 @@ intptr_t systemCalls(vm_t* vm, intptr_t* args)
         if (VM_MemoryRangeValid(args[1] /*addr*/, args[3] /*len*/, vm) == 0 &&
             VM_MemoryRangeValid(args[2] /*addr*/, args[3] /*len*/, vm) == 0)
         {
-            memcpy(VMA(1, vm), VMA(2, vm), args[3]);
+            /* the program may pass overlapping ranges */
+            memmove(VMA(1, vm), VMA(2, vm), args[3]);
         }
         return args[1];
 
-- 
2.43.0


From 39eab69ee5057bf7b81f97de988ecd852eaf2862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 16/59] fix: q3asm looped for ever on a line of 1024 or more
 characters

---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 00982df..fad7f42 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -692,7 +692,7 @@ static char* ExtractLine(char* data)
     if ((p - q) >= MAX_LINE_LENGTH)
     {
         CodeError("MAX_LINE_LENGTH");
-        return data;
+        return p + (*p == '\n'); /* skip the line */
     }
 
     memcpy(lineBuffer, data, (p - data));
-- 
2.43.0


From 0b57cecdadda45fd35fc065a20ef3c9c3c1bad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 17/59] fix: q3asm used a negative hash table index for the
 hash value INT_MIN

---
 q3asm/q3asm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index fad7f42..e819541 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -259,7 +259,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
 {
     hashchain_t *hc, **hb;
 
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = (int)((unsigned)hashvalue % H->buckets);
     hb        = &(H->table[hashvalue]);
     if (*hb == 0)
     {
@@ -287,7 +287,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
 
 static hashchain_t* hashtable_get(hashtable_t* H, int hashvalue)
 {
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = (int)((unsigned)hashvalue % H->buckets);
     return (H->table[hashvalue]);
 }
 
@@ -343,7 +343,7 @@ static int hashtable_symbol_exists(hashtable_t* H, int hash, char* sym)
     hashchain_t* hc;
     symbol_t*    s;
 
-    hash = (abs(hash) % H->buckets);
+    hash = (int)((unsigned)hash % H->buckets);
     hc   = H->table[hash];
     if (hc == 0)
     {
-- 
2.43.0


From 2ed3d1c140a687730f63664a49730f0a7e4ccba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 18/59] fix: q3asm skip and align moved segment ends outside
 the image buffers

---
 q3asm/q3asm.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index e819541..b13fbd8 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -540,6 +540,24 @@ static void EmitInt(segment_t* seg, int v)
     seg->imageUsed += 4;
 }
 
+/*
+============
+SkipTo
+
+Move the end of a segment forward. Only the bss segment, which has no image,
+can grow beyond the image size.
+============
+*/
+static void SkipTo(segment_t* seg, int64_t used)
+{
+    if (used < seg->imageUsed ||
+        used > (seg == &segment[BSSSEG] ? 0x40000000 : VM_MAX_IMAGE_SIZE))
+    {
+        Error("VM_MAX_IMAGE_SIZE");
+    }
+    seg->imageUsed = (int)used;
+}
+
 /*
 ============
 DefineSymbol
@@ -1145,8 +1163,13 @@ ASM(ALIGN)
     {
         STAT("ALIGN");
         v = ParseValue();
-        currentSegment->imageUsed =
-            (currentSegment->imageUsed + v - 1) & ~(v - 1);
+        if (v <= 0 || (v & (v - 1)))
+        {
+            CodeError("Bad alignment: %i\n", v);
+            return 1;
+        }
+        SkipTo(currentSegment, ((int64_t)currentSegment->imageUsed + v - 1) &
+                                   ~((int64_t)v - 1));
         return 1;
     }
     return 0;
@@ -1159,7 +1182,7 @@ ASM(SKIP)
     {
         STAT("SKIP");
         v = ParseValue();
-        currentSegment->imageUsed += v;
+        SkipTo(currentSegment, (int64_t)currentSegment->imageUsed + v);
         return 1;
     }
     return 0;
-- 
2.43.0


From 5c1646fb4e365b88b6545fc3d1540457257d0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:24 +0000
Subject: [PATCH 19/59] fix: q3asm tore objects with mixed item widths apart
 and crashed on data without a label

---
 q3asm/q3asm.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index b13fbd8..209610f 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -204,6 +204,9 @@ char token[MAX_LINE_LENGTH];
 
 int instructionCount;
 
+int labelPending;  // a data label was defined, but no data for it yet
+int lastAlign = 1; // operand of the last align directive
+
 typedef struct
 {
     char* name;
@@ -858,7 +861,8 @@ segment, but switch jump tables are emitted in the lit segment and
 initialized strng variables are put in the data segment.
 
 I can change segments here, but I also need to fixup the
-label that was just defined
+label that was just defined. Only the first item behind a label
+selects the segment: the items of one object have to stay together.
 
 Note that the lit segment is read-write in the VM, so strings
 aren't read only as in some architectures.
@@ -866,12 +870,27 @@ aren't read only as in some architectures.
 */
 static void HackToSegment(segmentName_t seg)
 {
+    int fresh = labelPending;
+
+    labelPending = 0;
     if (currentSegment == &segment[seg])
     {
         return;
     }
+    if (!fresh && (currentSegment == &segment[DATASEG] ||
+                   currentSegment == &segment[LITSEG]))
+    {
+        return;
+    }
 
     currentSegment = &segment[seg];
+    if (!fresh)
+    {
+        return;
+    }
+    SkipTo(currentSegment,
+           ((int64_t)currentSegment->imageUsed + lastAlign - 1) &
+               ~((int64_t)lastAlign - 1));
     if (passNumber == 0)
     {
         lastSymbol->segment = currentSegment;
@@ -1170,6 +1189,7 @@ ASM(ALIGN)
         }
         SkipTo(currentSegment, ((int64_t)currentSegment->imageUsed + v - 1) &
                                    ~((int64_t)v - 1));
+        lastAlign = v;
         return 1;
     }
     return 0;
@@ -1183,6 +1203,7 @@ ASM(SKIP)
         STAT("SKIP");
         v = ParseValue();
         SkipTo(currentSegment, (int64_t)currentSegment->imageUsed + v);
+        labelPending = 0;
         return 1;
     }
     return 0;
@@ -1241,6 +1262,7 @@ ASM(LABEL)
         else
         {
             DefineSymbol(token, currentSegment->imageUsed);
+            labelPending = 1;
         }
         return 1;
     }
@@ -1572,6 +1594,8 @@ static void Assemble(void)
         segment[DATASEG].imageUsed =
             4; // skip the 0 byte, so NULL pointers are fixed up properly
         instructionCount = 0;
+        labelPending     = 0;
+        lastAlign        = 1;
 
         for (i = 0; i < numAsmFiles; i++)
         {
-- 
2.43.0


From f485661881a3a37c61c14e3798d9e31ef01db246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 20/59] fix: q3asm exited with status 0 after 256 errors

---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 209610f..0792cba 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1825,5 +1825,5 @@ int main(int argc, char** argv)
     end = I_FloatTime();
     report("%5.0f seconds elapsed\n", end - start);
 
-    return errorCount;
+    return errorCount != 0; /* the exit status has only 8 bits */
 }
-- 
2.43.0


From cf02b3754982f25973395690a74bb31895256bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 21/59] fix: q3asm overran its file tables and names for many
 or long arguments

---
 q3asm/q3asm.c | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 0792cba..5c01e98 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1638,6 +1638,37 @@ static void Assemble(void)
     }
 }
 
+/*
+=============
+AddAsmFile
+SetOutputFile
+
+Names need room for an extension
+=============
+*/
+static void AddAsmFile(const char* name)
+{
+    if (numAsmFiles >= MAX_ASM_FILES)
+    {
+        Error("More than %i files", MAX_ASM_FILES);
+    }
+    if (!*name || strlen(name) + 5 > MAX_OS_PATH)
+    {
+        Error("Bad file name: %s", name);
+    }
+    asmFileNames[numAsmFiles] = copystring(name);
+    numAsmFiles++;
+}
+
+static void SetOutputFile(const char* name)
+{
+    if (!*name || strlen(name) + 5 > MAX_OS_PATH)
+    {
+        Error("Bad file name: %s", name);
+    }
+    strcpy(outputFilename, name);
+}
+
 /*
 =============
 ParseOptionFile
@@ -1649,6 +1680,10 @@ static void ParseOptionFile(const char* filename)
     char  expanded[MAX_OS_PATH];
     char *text, *text_p;
 
+    if (!*filename || strlen(filename) + 8 > sizeof(expanded))
+    {
+        Error("File name too long: %s", filename);
+    }
     strcpy(expanded, filename);
     DefaultExtension(expanded, ".q3asm");
     LoadFile(expanded, (void**)&text);
@@ -1667,13 +1702,12 @@ static void ParseOptionFile(const char* filename)
             text_p = COM_Parse(text_p);
             if (text_p)
             {
-                strcpy(outputFilename, com_token);
+                SetOutputFile(com_token);
             }
             continue;
         }
 
-        asmFileNames[numAsmFiles] = copystring(com_token);
-        numAsmFiles++;
+        AddAsmFile(com_token);
     }
 }
 
@@ -1739,7 +1773,7 @@ int main(int argc, char** argv)
             }
             /* Timbo of Tremulous pointed out -o not working; stock ID q3asm
              * folded in the change. Yay. */
-            strcpy(outputFilename, argv[i + 1]);
+            SetOutputFile(argv[i + 1]);
             i++;
             continue;
         }
@@ -1763,6 +1797,10 @@ int main(int argc, char** argv)
             }
             i++;
             symtablelen = atoiNoCap(argv[i]);
+            if (symtablelen <= 0)
+            {
+                Error("-b requires a positive number");
+            }
             continue;
         }
 
@@ -1796,8 +1834,7 @@ int main(int argc, char** argv)
     // the rest of the command line args are asm files
     for (; i < argc; i++)
     {
-        asmFileNames[numAsmFiles] = copystring(argv[i]);
-        numAsmFiles++;
+        AddAsmFile(argv[i]);
     }
     // In some case it Segfault without this check
     if (numAsmFiles == 0)
-- 
2.43.0


From 5483d6b979555ebe4945b962375165c8dc4af96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 22/59] fix: q3asm list files with long or unterminated tokens
 overran the token buffer

---
 q3asm/cmdlib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/q3asm/cmdlib.c b/q3asm/cmdlib.c
index 592f89e..c1d94e3 100644
--- a/q3asm/cmdlib.c
+++ b/q3asm/cmdlib.c
@@ -496,6 +496,8 @@ skipwhite:
                 com_token[len] = 0;
                 return data;
             }
+            if (c == 0 || len >= (int)sizeof(com_token) - 1)
+                Error("Unterminated or too long string");
             com_token[len] = c;
             len++;
         } while (1);
@@ -513,6 +515,8 @@ skipwhite:
     // parse a regular word
     do
     {
+        if (len >= (int)sizeof(com_token) - 1)
+            Error("Token too long");
         com_token[len] = c;
         data++;
         len++;
-- 
2.43.0


From a9a81c1a9bae94a9b8fe5e2dcfc73daced02bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 23/59] fix: q3asm dereferenced NULL when input starts without
 a segment directive

---
 q3asm/q3asm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 5c01e98..5f32962 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1593,6 +1593,7 @@ static void Assemble(void)
         }
         segment[DATASEG].imageUsed =
             4; // skip the 0 byte, so NULL pointers are fixed up properly
+        currentSegment   = &segment[CODESEG];
         instructionCount = 0;
         labelPending     = 0;
         lastAlign        = 1;
-- 
2.43.0


From aa87b909bd8e35bb6f2dd06819b72f2d088cc7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 24/59] fix: cpp reads past the replacement list of a macro
 that ends in a parameter or #

---
 lcc/cpp/macro.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 2972083..dbd0e68 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -326,7 +326,7 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 		if (rtr->tp->type==SHARP) {	/* string operator */
 			tp = rtr->tp;
 			rtr->tp += 1;
-			if ((argno = lookuparg(np, rtr->tp))<0) {
+			if (rtr->tp>=rtr->lp || (argno = lookuparg(np, rtr->tp))<0) {
 				error(ERROR, "# not followed by macro parameter");
 				continue;
 			}
@@ -337,7 +337,7 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 		}
 		if (rtr->tp->type==NAME
 		 && (argno = lookuparg(np, rtr->tp)) >= 0) {
-			if ((rtr->tp+1)->type==DSHARP
+			if ((rtr->tp+1<rtr->lp && (rtr->tp+1)->type==DSHARP)
 			 || (rtr->tp!=rtr->bp && (rtr->tp-1)->type==DSHARP))
 				insertrow(rtr, 1, atr[argno]);
 			else {
-- 
2.43.0


From 02f2666753814c88be5813617732a2bf3f897f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 25/59] fix: cpp reads past the end of an #include line without
 closing >

---
 lcc/cpp/include.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 5ecd8b3..8e2537f 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -60,7 +60,7 @@ doinclude(Tokenrow *trp)
 		len = 0;
 		trp->tp++;
 		while (trp->tp->type!=GT) {
-			if (trp->tp>trp->lp || len+trp->tp->len+2 >= sizeof(fname))
+			if (trp->tp>=trp->lp || len+trp->tp->len+2 >= sizeof(fname))
 				goto syntax;
 			strncpy(fname+len, (char*)trp->tp->t, trp->tp->len);
 			len += trp->tp->len;
-- 
2.43.0


From 161cf0ee872fc26451f65396849f8f36a11c14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 26/59] fix: cpp overflows the include directory name when it
 is longer than 256 characters

---
 lcc/cpp/include.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 8e2537f..19e944d 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -12,7 +12,8 @@ void appendDirToIncludeList( char *dir )
 	int i;
 	char *fqdir;
 
-	fqdir = (char *)newstring( (uchar *)includelist[NINCLUDE-1].file, 256, 0 );
+	fqdir = (char *)domalloc( strlen( includelist[NINCLUDE-1].file ) + strlen( dir ) + 2 );
+	strcpy( fqdir, includelist[NINCLUDE-1].file );
 	strcat( fqdir, "/" );
 	strcat( fqdir, dir );
 
-- 
2.43.0


From a6cb5c9c83cf1f755c6d850c92b5fb7dab3afe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 27/59] fix: cpp overflows its -I table with more than 32 -I
 options

---
 lcc/cpp/unix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/cpp/unix.c b/lcc/cpp/unix.c
index bac841d..c908194 100644
--- a/lcc/cpp/unix.c
+++ b/lcc/cpp/unix.c
@@ -32,6 +32,8 @@ setup(int argc, char **argv)
 					includelist[i].deleted = 1;
 			break;
 		case 'I':
+			if (numIncludeDirs >= NINCLUDE)
+				error(FATAL, "Too many -I directives");
 			includeDirs[ numIncludeDirs++ ] = newstring( (uchar *)optarg, strlen( optarg ), 0 );
 			break;
 		case 'D':
-- 
2.43.0


From dab2b4d4104e4aecf3c90846144af33856096a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 28/59] fix: cpp writes to a string literal when a -D macro
 without value is used in #if

---
 lcc/cpp/macro.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index dbd0e68..89afd82 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -92,7 +92,8 @@ void
 doadefine(Tokenrow *trp, int type)
 {
 	Nlist *np;
-	static Token onetoken[1] = {{ NUMBER, 0, 0, 0, 1, (uchar*)"1" }};
+	static uchar one[] = "1";
+	static Token onetoken[1] = {{ NUMBER, 0, 0, 0, 1, one }};
 	static Tokenrow onetr = { onetoken, onetoken, onetoken+1, 1 };
 
 	trp->tp = trp->bp;
-- 
2.43.0


From 67a50130a49ea2d7140b455afbfca900098420ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 29/59] fix: cpp overflows a 128 byte buffer when ## pastes
 long tokens

---
 lcc/cpp/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 89afd82..c0e3eae 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -367,7 +367,7 @@ doconcat(Tokenrow *trp)
 		if (trp->tp->type==DSHARP1)
 			trp->tp->type = DSHARP;
 		else if (trp->tp->type==DSHARP) {
-			char tt[128];
+			char *tt;
 			ltp = trp->tp-1;
 			ntp = trp->tp+1;
 			if (ltp<trp->bp || ntp>=trp->lp) {
@@ -375,6 +375,7 @@ doconcat(Tokenrow *trp)
 				continue;
 			}
 			len = ltp->len + ntp->len;
+			tt = domalloc(len+1);
 			strncpy((char*)tt, (char*)ltp->t, ltp->len);
 			strncpy((char*)tt+ltp->len, (char*)ntp->t, ntp->len);
 			tt[len] = '\0';
@@ -382,6 +383,7 @@ doconcat(Tokenrow *trp)
 			maketokenrow(3, &ntr);
 			gettokens(&ntr, 1);
 			unsetsource();
+			dofree(tt);
 			if (ntr.lp-ntr.bp!=2 || ntr.bp->type==UNCLASS)
 				error(WARNING, "Bad token %r produced by ##", &ntr);
 			ntr.lp = ntr.bp+1;
-- 
2.43.0


From 69405dc464727bb6acf88265ce0da77bc1a2b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 30/59] fix: cpp overflows its evaluation stacks on deeply
 nested #if expressions

---
 lcc/cpp/eval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 95a9e11..bbaf9dd 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -122,6 +122,10 @@ eval(Tokenrow *trp, int kw)
 	op = ops;
 	*op++ = END;
 	for (rand=0, tp = trp->bp+ntok; tp < trp->lp; tp++) {
+		if (op >= &ops[NSTAK] || vp >= &vals[NSTAK]) {
+			error(ERROR, "#if/#elif expression too complex");
+			return 0;
+		}
 		switch(tp->type) {
 		case WS:
 		case NL:
-- 
2.43.0


From edb8edf264d377da28f5fbc8192e320b42bd8236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 31/59] fix: cpp crashes on LONG_MIN / -1 and LONG_MIN % -1 in
 #if

---
 lcc/cpp/eval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index bbaf9dd..d955c15 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -351,6 +351,8 @@ evalop(struct pri pri)
 			}
 			if (rtype==UNS)
 				rv1 /= (unsigned long)rv2;
+			else if (rv2==-1)
+				rv1 = -(unsigned long)rv1;
 			else
 				rv1 /= rv2;
 			break;
@@ -361,6 +363,8 @@ evalop(struct pri pri)
 			}
 			if (rtype==UNS)
 				rv1 %= (unsigned long)rv2;
+			else if (rv2==-1)
+				rv1 = 0;
 			else
 				rv1 %= rv2;
 			break;
-- 
2.43.0


From 24f755bdceeb1452c350e94c2b8ce9efeddc7434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 32/59] fix: cpp takes #name for a nested #if in a skipped
 group when name is a macro

---
 lcc/cpp/cpp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 5c0cfd7..bddea7e 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -100,8 +100,9 @@ control(Tokenrow *trp)
 			error(ERROR, "Unidentifiable control line");
 		return;			/* else empty line */
 	}
-	if ((np = lookup(tp, 0))==NULL || ((np->flag&ISKW)==0 && !skipping)) {
-		error(WARNING, "Unknown preprocessor control %t", tp);
+	if ((np = lookup(tp, 0))==NULL || (np->flag&ISKW)==0) {
+		if (np==NULL || !skipping)
+			error(WARNING, "Unknown preprocessor control %t", tp);
 		return;
 	}
 	if (skipping) {
-- 
2.43.0


From a1aff549f981337b7d99b5afa5ddfbff1c82f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 33/59] fix: cpp does not know \a and reads past its escape
 table on \ NUL in #if

---
 lcc/cpp/eval.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index d955c15..1aa4982 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -487,15 +487,15 @@ tokval(Token *tp)
 				}
 			} else {
 				static char cvcon[]
-				  = "b\bf\fn\nr\rt\tv\v''\"\"??\\\\";
-				for (i=0; i<sizeof(cvcon); i+=2) {
+				  = "a\ab\bf\fn\nr\rt\tv\v''\"\"??\\\\";
+				for (i=0; i<sizeof(cvcon)-1; i+=2) {
 					if (*p == cvcon[i]) {
 						n = cvcon[i+1];
 						break;
 					}
 				}
 				p += 1;
-				if (i>=sizeof(cvcon))
+				if (i>=sizeof(cvcon)-1)
 					error(WARNING,
 					 "Undefined escape in character constant");
 			}
-- 
2.43.0


From a420df8ec3e2192de841573777dd8b9747d6bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 34/59] fix: cpp groups equal-priority #if operators right to
 left and rejects ?: nested between ? and :

---
 lcc/cpp/eval.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 1aa4982..2d9cf23 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -90,7 +90,7 @@ struct pri {
 	{ 16, 0, UNARY },	/* UMINUS */
 };
 
-int	evalop(struct pri);
+int	evalop(struct pri, int);
 struct	value tokval(Token *);
 struct value vals[NSTAK], *vp;
 enum toktype ops[NSTAK], *op;
@@ -172,7 +172,7 @@ eval(Tokenrow *trp, int kw)
 		case COLON: case COMMA:
 			if (rand==0)
 				goto syntax;
-			if (evalop(priority[tp->type])!=0)
+			if (evalop(priority[tp->type], tp->type)!=0)
 				return 0;
 			*op++ = tp->type;
 			rand = 0;
@@ -187,7 +187,7 @@ eval(Tokenrow *trp, int kw)
 		case RP:
 			if (!rand)
 				goto syntax;
-			if (evalop(priority[RP])!=0)
+			if (evalop(priority[RP], RP)!=0)
 				return 0;
 			if (op<=ops || op[-1]!=LP) {
 				goto syntax;
@@ -202,7 +202,7 @@ eval(Tokenrow *trp, int kw)
 	}
 	if (rand==0)
 		goto syntax;
-	if (evalop(priority[END])!=0)
+	if (evalop(priority[END], END)!=0)
 		return 0;
 	if (op!=&ops[1] || vp!=&vals[1]) {
 		error(ERROR, "Botch in #if/#elsif");
@@ -217,7 +217,7 @@ syntax:
 }
 
 int
-evalop(struct pri pri)
+evalop(struct pri pri, int tok)
 {
 	struct value v1, v2;
 	long rv1, rv2;
@@ -229,7 +229,9 @@ evalop(struct pri pri)
 
 	rv2=0;
 	rtype=0;
-	while (pri.pri < priority[op[-1]].pri) {
+	/* binary operators group left to right, except that ?: groups right to left */
+	while (pri.pri < priority[op[-1]].pri
+	 || (pri.pri == priority[op[-1]].pri && pri.arity==2 && (pri.ctype!=SPCL || (tok==COLON && op[-1]==COLON)))) {
 		oper = *--op;
 		if (priority[oper].arity==2) {
 			v2 = *--vp;
-- 
2.43.0


From 736877ea9910a113965e4d07890b4bf93e4299db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 35/59] fix: cpp reads one byte past its input when a trigraph
 or line splice is removed

---
 lcc/cpp/cpplex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index 8030354..b36920f 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -492,7 +492,7 @@ trigraph(Source *s)
 	}
 	if (c) {
 		*s->inp = c;
-		memmove(s->inp+1, s->inp+3, s->inl-s->inp+2);
+		memmove(s->inp+1, s->inp+3, s->inl-s->inp+1);
 		s->inl -= 2;
 	}
 	return c;
@@ -504,7 +504,7 @@ foldline(Source *s)
 	while (s->inp+1 >= s->inl && fillbuf(s)!=EOF)
 		;
 	if (s->inp[1] == '\n') {
-		memmove(s->inp, s->inp+2, s->inl-s->inp+3);
+		memmove(s->inp, s->inp+2, s->inl-s->inp+2);
 		s->inl -= 2;
 		return 1;
 	}
-- 
2.43.0


From c55ce99babc30f831135ec2033fbe630da227a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 36/59] fix: cpp skips a character when it discards the read
 part of a long comment

---
 lcc/cpp/cpplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index b36920f..a7f0a22 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -435,7 +435,7 @@ gettokens(Tokenrow *trp, int reset)
 				if (ip >= s->inb+(7*INS/8)) { /* very long comment */
 					memmove(tp->t, ip, 4+s->inl-ip);
 					s->inl -= ip-tp->t;
-					ip = tp->t+1;
+					ip = tp->t;
 				}
 				continue;
 
-- 
2.43.0


From 31527224dd1adc777a70ca75ff7ffcd3b9366e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 37/59] fix: cpp looks for > past the end of an #include line

---
 lcc/cpp/include.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index 19e944d..bf78ee0 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -60,7 +60,7 @@ doinclude(Tokenrow *trp)
 	} else if (trp->tp->type==LT) {
 		len = 0;
 		trp->tp++;
-		while (trp->tp->type!=GT) {
+		while (trp->tp>=trp->lp || trp->tp->type!=GT) {
 			if (trp->tp>=trp->lp || len+trp->tp->len+2 >= sizeof(fname))
 				goto syntax;
 			strncpy(fname+len, (char*)trp->tp->t, trp->tp->len);
-- 
2.43.0


From ddb87067b0acfd5c229160816698fb7465c4888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 38/59] fix: cpp overflows its output buffer with many __FILE__
 or __LINE__ in a line or a long #line name

---
 lcc/cpp/cpp.c     |  4 ----
 lcc/cpp/cpp.h     |  1 -
 lcc/cpp/include.c |  6 +++---
 lcc/cpp/macro.c   | 13 +++++++------
 4 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index bddea7e..e3b73fe 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -7,9 +7,6 @@
 
 char rcsid[] = "cpp.c - faked rcsid";
 
-#define	OUTS	16384
-char	outbuf[OUTS];
-char	*outbufp = outbuf;
 Source	*cursource;
 int	nerrs;
 struct	token nltoken = { NL, 0, 0, 0, 1, (uchar*)"\n" };
@@ -51,7 +48,6 @@ process(Tokenrow *trp)
 	for (;;) {
 		if (trp->tp >= trp->lp) {
 			trp->tp = trp->lp = trp->bp;
-			outbufp = outbuf;
 			anymacros |= gettokens(trp, 1);
 			trp->tp = trp->bp;
 		}
diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index ddd7502..c23def2 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -143,7 +143,6 @@ void	setobjname(char *);
 
 char *basepath( char *fname );
 
-extern	char *outbufp;
 extern	Token	nltoken;
 extern	Source *cursource;
 extern	char *curtime;
diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index bf78ee0..fdc1e5f 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -121,7 +121,7 @@ genline(void)
 	static Tokenrow tr = { &ta, &ta, &ta+1, 1 };
 	uchar *p;
 
-	ta.t = p = (uchar*)outbufp;
+	ta.t = p = (uchar*)domalloc(strlen(wd)+strlen(cursource->filename)+32);
 	strcpy((char*)p, "#line ");
 	p += sizeof("#line ")-1;
 	p = (uchar*)outnum((char*)p, cursource->line);
@@ -134,10 +134,10 @@ genline(void)
 	strcpy((char*)p, cursource->filename);
 	p += strlen((char*)p);
 	*p++ = '"'; *p++ = '\n';
-	ta.len = (char*)p-outbufp;
-	outbufp = (char*)p;
+	ta.len = p-ta.t;
 	tr.tp = tr.bp;
 	puttokens(&tr);
+	dofree(ta.t);
 }
 
 void
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index c0e3eae..aad4e0c 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -458,7 +458,7 @@ stringify(Tokenrow *vp)
 void
 builtin(Tokenrow *trp, int biname)
 {
-	char *op;
+	char *op, *bp;
 	Token *tp;
 	Source *s;
 
@@ -470,13 +470,15 @@ builtin(Tokenrow *trp, int biname)
 		s = s->next;
 	if (s==NULL)
 		s = cursource;
+	/* room for the text, quoted, and a blank before it */
+	bp = domalloc(2*strlen(s->filename)+32);
 	/* most are strings */
 	tp->type = STRING;
 	if (tp->wslen) {
-		*outbufp++ = ' ';
+		*bp++ = ' ';
 		tp->wslen = 1;
 	}
-	op = outbufp;
+	op = bp;
 	*op++ = '"';
 	switch (biname) {
 
@@ -511,7 +513,6 @@ builtin(Tokenrow *trp, int biname)
 	}
 	if (tp->type==STRING)
 		*op++ = '"';
-	tp->t = (uchar*)outbufp;
-	tp->len = op - outbufp;
-	outbufp = op;
+	tp->t = (uchar*)bp;
+	tp->len = op - bp;
 }
-- 
2.43.0


From d67b6dbdc6777428b1f5e8d4b7f703fb55dae66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 39/59] fix: cpp -M reads before a one-character file name

---
 lcc/cpp/include.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/include.c b/lcc/cpp/include.c
index fdc1e5f..074b407 100644
--- a/lcc/cpp/include.c
+++ b/lcc/cpp/include.c
@@ -146,7 +146,7 @@ setobjname(char *f)
 	int n = strlen(f);
 	objname = (char*)domalloc(n+5);
 	strcpy(objname,f);
-	if(objname[n-2]=='.'){
+	if(n>=2 && objname[n-2]=='.'){
 		strcpy(objname+n-1,"$O: ");
 	}else{
 		strcpy(objname+n,"$O: ");
-- 
2.43.0


From a5758b8013dc84e4825af8aca48768bf13de3aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 40/59] fix: cpp drops unsignedness of the arm of ?: that is
 not selected

---
 lcc/cpp/eval.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/eval.c b/lcc/cpp/eval.c
index 2d9cf23..d32ab4b 100644
--- a/lcc/cpp/eval.c
+++ b/lcc/cpp/eval.c
@@ -375,9 +375,11 @@ evalop(struct pri pri, int tok)
 				error(ERROR, "Bad ?: in #if/endif");
 			else {
 				op--;
+				rtype = v1.type==UNS||v2.type==UNS? UNS: SGN;
 				if ((--vp)->val==0)
 					v1 = v2;
-				rtype = v1.type;
+				if (v1.type==UND)
+					rtype = UND;
 				rv1 = v1.val;
 			}
 			break;
-- 
2.43.0


From d87f4a3ddfa9f53a7124672bf091bd9a6b1f3da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:56 +0000
Subject: [PATCH 41/59] fix: cpp rejects or acts on # followed by a number or
 punctuator in a skipped group

---
 lcc/cpp/cpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index e3b73fe..80d1539 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -90,6 +90,8 @@ control(Tokenrow *trp)
 
 	tp = trp->tp;
 	if (tp->type!=NAME) {
+		if (skipping)
+			return;
 		if (tp->type==NUMBER)
 			goto kline;
 		if (tp->type != NL)
-- 
2.43.0


From 5d345c228a2c6eb4e2838960a1691622407c67cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 42/59] fix: cpp does not expand the token after the name of a
 function-like macro that is not called

---
 lcc/cpp/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index aad4e0c..c700f21 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -251,8 +251,10 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		}
 		if (trp->tp->type==LP)
 			break;
-		if (trp->tp->type!=NL)
+		if (trp->tp->type!=NL) {
+			trp->tp -= ntok;
 			return ntok;
+		}
 	}
 	*narg = 0;
 	ntok++;
-- 
2.43.0


From 2481933e417e8076f6047fa19486b12ef342404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 43/59] fix: cpp drops the blank for a newline in the argument
 of #

---
 lcc/cpp/macro.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index c700f21..8bd5007 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -267,7 +267,11 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 			gettokens(trp, 0);
 		if (needspace) {
 			needspace = 0;
-			makespace(trp);
+			if (trp->tp->wslen==0 && trp->tp->len>0) {
+				trp->tp->t = newstring(trp->tp->t, trp->tp->len, 1);
+				*trp->tp->t++ = ' ';
+				trp->tp->wslen = 1;
+			}
 		}
 		if (trp->tp->type==END) {
 			trp->lp -= 1;
-- 
2.43.0


From facfa70faf8da63ebdf9675218dd259131010463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 44/59] fix: cpp takes ## in an expanded macro argument for the
 operator

---
 lcc/cpp/macro.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 8bd5007..72a3731 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -350,6 +350,9 @@ substargs(Nlist *np, Tokenrow *rtr, Tokenrow **atr)
 			else {
 				copytokenrow(&tatr, atr[argno]);
 				expandrow(&tatr, "<macro>");
+				for (tp=tatr.bp; tp<tatr.lp; tp++)
+					if (tp->type==DSHARP)	/* ## not special in arg */
+						tp->type = DSHARP1;
 				insertrow(rtr, 1, &tatr);
 				dofree(tatr.bp);
 			}
-- 
2.43.0


From bb16f4806b7c63b514b1601e76f55d23d02c03d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 45/59] fix: cpp does not process a control line that follows
 the name of a function-like macro

---
 lcc/cpp/cpp.c   |  9 ++++++++-
 lcc/cpp/cpp.h   |  2 ++
 lcc/cpp/macro.c | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/lcc/cpp/cpp.c b/lcc/cpp/cpp.c
index 80d1539..2bc8be9 100644
--- a/lcc/cpp/cpp.c
+++ b/lcc/cpp/cpp.c
@@ -48,7 +48,14 @@ process(Tokenrow *trp)
 	for (;;) {
 		if (trp->tp >= trp->lp) {
 			trp->tp = trp->lp = trp->bp;
-			anymacros |= gettokens(trp, 1);
+			if (heldrow.bp) {
+				adjustrow(trp, rowlen(&heldrow));
+				movetokenrow(trp, &heldrow);
+				dofree(heldrow.bp);
+				heldrow.bp = NULL;
+				cursource->lineinc = heldinc;
+			} else
+				anymacros |= gettokens(trp, 1);
 			trp->tp = trp->bp;
 		}
 		if (trp->tp->type == END) {
diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index c23def2..03fe0f2 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -145,6 +145,8 @@ char *basepath( char *fname );
 
 extern	Token	nltoken;
 extern	Source *cursource;
+extern	Tokenrow heldrow;
+extern	int heldinc;
 extern	char *curtime;
 extern	int incdepth;
 extern	int ifdepth;
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index 72a3731..bd3356d 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -3,6 +3,9 @@
 #include <string.h>
 #include "cpp.h"
 
+Tokenrow heldrow;	/* control line read while looking for the ( of a call */
+int heldinc;		/* and its number of lines */
+
 /*
  * do a macro definition.  tp points to the name being defined in the line
  */
@@ -242,12 +245,23 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 		trp->tp++;
 		ntok++;
 		if (trp->tp >= trp->lp) {
+			int inc = cursource->lineinc;
 			gettokens(trp, 0);
 			if ((trp->lp-1)->type==END) {
 				trp->lp -= 1;
 				trp->tp -= ntok;
 				return ntok;
 			}
+			if (trp->tp->type==SHARP) {	/* leave the control line to process() */
+				ttr = *trp;
+				ttr.bp = trp->tp;
+				copytokenrow(&heldrow, &ttr);
+				heldinc = cursource->lineinc - inc;
+				cursource->lineinc = inc;
+				trp->lp = trp->tp;
+				trp->tp -= ntok;
+				return ntok;
+			}
 		}
 		if (trp->tp->type==LP)
 			break;
-- 
2.43.0


From 4e4267b2624b1d906351d3b3b5ddbba7eb4b8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 46/59] fix: cpp loses the blank in front of a replaced macro
 or parameter in the argument of #

---
 lcc/cpp/cpp.h    |  1 +
 lcc/cpp/macro.c  |  6 +-----
 lcc/cpp/tokens.c | 18 ++++++++++++++++++
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/lcc/cpp/cpp.h b/lcc/cpp/cpp.h
index 03fe0f2..3bf0861 100644
--- a/lcc/cpp/cpp.h
+++ b/lcc/cpp/cpp.h
@@ -130,6 +130,7 @@ long	eval(Tokenrow *, int);
 void	genline(void);
 void	setempty(Tokenrow *);
 void	makespace(Tokenrow *);
+void	leadspace(Token *);
 char	*outnum(char *, int);
 int	digit(int);
 uchar	*newstring(uchar *, int, int);
diff --git a/lcc/cpp/macro.c b/lcc/cpp/macro.c
index bd3356d..8de5cbd 100644
--- a/lcc/cpp/macro.c
+++ b/lcc/cpp/macro.c
@@ -281,11 +281,7 @@ gatherargs(Tokenrow *trp, Tokenrow **atr, int *narg)
 			gettokens(trp, 0);
 		if (needspace) {
 			needspace = 0;
-			if (trp->tp->wslen==0 && trp->tp->len>0) {
-				trp->tp->t = newstring(trp->tp->t, trp->tp->len, 1);
-				*trp->tp->t++ = ' ';
-				trp->tp->wslen = 1;
-			}
+			leadspace(trp->tp);
 		}
 		if (trp->tp->type==END) {
 			trp->lp -= 1;
diff --git a/lcc/cpp/tokens.c b/lcc/cpp/tokens.c
index 964453c..5c5c530 100644
--- a/lcc/cpp/tokens.c
+++ b/lcc/cpp/tokens.c
@@ -122,20 +122,38 @@ comparetokens(Tokenrow *tr1, Tokenrow *tr2)
 	return 0;
 }
 
+/*
+ * Give tp white space that counts as such for #
+ */
+void
+leadspace(Token *tp)
+{
+	if (tp->wslen==0 && tp->len>0) {
+		tp->t = newstring(tp->t, tp->len, 1);
+		*tp->t++ = ' ';
+		tp->wslen = 1;
+	}
+	tp->flag &= ~XPWS;
+}
+
 /*
  * replace ntok tokens starting at dtr->tp with the contents of str.
  * tp ends up pointing just beyond the replacement.
+ * The white space in front of the replaced tokens is kept.
  * Canonical whitespace is assured on each side.
  */
 void
 insertrow(Tokenrow *dtr, int ntok, Tokenrow *str)
 {
 	int nrtok = rowlen(str);
+	int space = ntok>0 && dtr->tp->wslen && (dtr->tp->flag&XPWS)==0;
 
 	dtr->tp += ntok;
 	adjustrow(dtr, nrtok-ntok);
 	dtr->tp -= ntok;
 	movetokenrow(dtr, str);
+	if (space && dtr->tp<dtr->lp && dtr->tp->type!=NL)
+		leadspace(dtr->tp);
 	makespace(dtr);
 	dtr->tp += nrtok;
 	makespace(dtr);
-- 
2.43.0


From 86bea034c55dd8d1bd8edf52a7b3acd7ef4465af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 47/59] fix: cpp splits a preprocessing number at a period that
 follows an e

---
 lcc/cpp/cpplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/cpp/cpplex.c b/lcc/cpp/cpplex.c
index a7f0a22..06615ae 100644
--- a/lcc/cpp/cpplex.c
+++ b/lcc/cpp/cpplex.c
@@ -96,7 +96,7 @@ struct	fsm {
 	/* saw possible start of exponent, digits-e */
 	{NUM2,	{ C_XX },	ACT(NUMBER,S_SELFB)},
 	{NUM2,	{ '+', '-' },	NUM1},
-	{NUM2,	{ C_NUM, C_ALPH },	NUM1},
+	{NUM2,	{ C_NUM, C_ALPH, '.' },	NUM1},
 	{NUM2,	{ '_' },	ACT(NUMBER,S_SELFB)},
 
 	/* saw a '.', which could be a number or an operator */
-- 
2.43.0


From 33c2136a18c42918cd725b72d96a82e5bfd52aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 48/59] fix: rcc does not clear the upper bits when it converts
 from a narrower unsigned value

---
 lcc/src/bytecode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 871056a..690283e 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -113,6 +113,12 @@ static void dumptree(Node p) {
 		assert(p->syms[0]);
 		dumptree(p->kids[0]);
 		print("%s %d\n", opname(p->op), p->syms[0]->u.c.v.i);
+		/* the value on the stack may have more bits than the unsigned
+		   type it is converted from; only a load clears them */
+		if (generic(p->op) == CVU && p->syms[0]->u.c.v.i < 4
+		&& generic(p->kids[0]->op) != INDIR)
+			print("CNSTI4 %d\nBANDI4\n",
+				p->syms[0]->u.c.v.i == 1 ? 0xff : 0xffff);
 		return;
 	case ARG: case BCOM: case NEG: case INDIR: case JUMP: case RET:
 		assert(p->kids[0]);
-- 
2.43.0


From e7e2f11a6adbb0d01719d41d37ab5c15309c5698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 49/59] fix: rcc rejects constant unsigned comparisons and x %
 1 as not constant

---
 lcc/src/simp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index ea26ab6..7263e3f 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -411,24 +411,24 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 		case GE+F: cfoldcnst(F,d,>=); break;
 		case GE+I: cfoldcnst(I,i,>=); break;
 		case GE+U:
-			geu(l,r,1);	/* l >= 0 => (l,1) */
 			cfoldcnst(U,u,>=);
+			geu(l,r,1);	/* l >= 0 => (l,1) */
 			if (l->op == CNST+U && l->u.v.u == 0)	/* 0 >= r => r == 0 */
 				return eqtree(EQ, r, l);
 			break;
 		case GT+F: cfoldcnst(F,d, >); break;
 		case GT+I: cfoldcnst(I,i, >); break;
 		case GT+U:
-			geu(r,l,0);	/* 0 > r => (r,0) */
 			cfoldcnst(U,u, >);
+			geu(r,l,0);	/* 0 > r => (r,0) */
 			if (r->op == CNST+U && r->u.v.u == 0)	/* l > 0 => l != 0 */
 				return eqtree(NE, l, r);
 			break;
 		case LE+F: cfoldcnst(F,d,<=); break;
 		case LE+I: cfoldcnst(I,i,<=); break;
 		case LE+U:
-			geu(r,l,1);	/* 0 <= r => (r,1) */
 			cfoldcnst(U,u,<=);
+			geu(r,l,1);	/* 0 <= r => (r,1) */
 			if (r->op == CNST+U && r->u.v.u == 0)	/* l <= 0 => l == 0 */
 				return eqtree(EQ, l, r);
 			break;
@@ -457,19 +457,19 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 		case LT+F: cfoldcnst(F,d, <); break;
 		case LT+I: cfoldcnst(I,i, <); break;
 		case LT+U:
-			geu(l,r,0);	/* l < 0 => (l,0) */
 			cfoldcnst(U,u, <);
+			geu(l,r,0);	/* l < 0 => (l,0) */
 			if (l->op == CNST+U && l->u.v.u == 0)	/* 0 < r => r != 0 */
 				return eqtree(NE, r, l);
 			break;
 		case MOD+I:
-			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
-				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
 			if ((r->op == CNST+I && r->u.v.i == 0)
 			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
 			&&  r->op == CNST+I && r->u.v.i == -1))
 				break;
 			xfoldcnst(I,i,%,divi);
+			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
+				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
 			break;
 		case MOD+U:		
 			if (r->op == CNST+U && ispow2(r->u.v.u)) /* l%2^n => l&(2^n-1) */
-- 
2.43.0


From 9480df700307e52b2f5c5c198706a1fdad96047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 50/59] fix: rcc gives enumeration constants that are negative
 the wrong value on hosts with 64-bit long

---
 lcc/src/enode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index d59c31b..31a0844 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -195,7 +195,7 @@ Tree consttree(unsigned n, Type ty) {
 	if (isarray(ty))
 		ty = atop(ty);
 	else assert(isint(ty));
-	return cnsttree(ty, (unsigned long)n);
+	return cnsttree(ty, (long)(int)n);	/* long may be wider: keep the sign */
 }
 static Tree cmptree(int op, Tree l, Tree r) {
 	Type ty;
-- 
2.43.0


From b079a7cb827362f40c9b5cc8dd5d608f835de6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 51/59] fix: initialised bit-fields of a bytecode program have
 the bytes of a big-endian machine

---
 lcc/src/bytecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 690283e..7a62b59 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -337,7 +337,7 @@ Interface bytecodeIR = {
 	{4, 4, 0},	/* long double */		// JDC: don't ever emit 8 byte double code
 	{4, 4, 0},	/* T* */
 	{0, 4, 0},	/* struct */
-	0,		/* little_endian */
+	1,		/* little_endian */
 	0,		/* mulops_calls */
 	0,		/* wants_callb */
 	0,		/* wants_argb */
-- 
2.43.0


From eea6143d31e0d439f4946395fe828f3d7eb65f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 52/59] fix: wide string constants keep all of their characters

---
 lcc/src/expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 96eec21..a550b1f 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -347,8 +347,10 @@ static Tree primary(void) {
  break;
 	case SCON: if (ischar(tsym->type->type))
 		   	tsym->u.c.v.p = stringn(tsym->u.c.v.p, tsym->type->size);
-		   else
-		   	tsym->u.c.v.p = memcpy(allocate(tsym->type->size, PERM), tsym->u.c.v.p, tsym->type->size);
+		   else {	/* one unsigned int for each element of a wide string */
+		   	int n = tsym->type->size/widechar->size*sizeof (unsigned int);
+		   	tsym->u.c.v.p = memcpy(allocate(n, PERM), tsym->u.c.v.p, n);
+		   }
 		   tsym = constant(tsym->type, tsym->u.c.v); 
 		   if (tsym->u.c.loc == NULL)
 		   	tsym->u.c.loc = genident(STATIC, tsym->type, GLOBAL);
-- 
2.43.0


From 5a2081d8d32ab6c8305dda8055d6a93c8945826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 53/59] fix: an identifier undeclared outside functions
 outlives the declaration it is in

---
 lcc/src/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index a550b1f..35557a0 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -357,7 +357,7 @@ static Tree primary(void) {
 		   p = idtree(tsym->u.c.loc); break;
 	case ID:   if (tsym == NULL)
 		   	{
-				Symbol p = install(token, &identifiers, level, FUNC);
+				Symbol p = install(token, &identifiers, level, level < LOCAL ? PERM : FUNC);
 				p->src = src;
 				if (getchr() == '(') {
 					Symbol q = lookup(token, externals);
-- 
2.43.0


From 29420d1f377cc1aad3afcc5426d08da4fd9ca8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 54/59] fix: rcc crashed on a call of an undeclared function
 outside functions

---
 lcc/src/expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 35557a0..b5e7e31 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -376,6 +376,8 @@ static Tree primary(void) {
 						(*IR->defsymbol)(q);
 					}
 					p->u.alias = q;
+					if (p->scope == GLOBAL)
+						(*IR->defsymbol)(p);
 				} else {
 					error("undeclared identifier `%s'\n", p->name);
 					p->sclass = AUTO;
-- 
2.43.0


From 9397e84fe8e28350f959a580f27f44a8b1de9483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 55/59] fix: rcc aborted on the use of a void value instead of
 rejecting it

---
 lcc/src/dag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index 420cbe7..d80a4f6 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -40,7 +40,7 @@ void walk(Tree tp, int tlab, int flab) {
 	if (forest) {
 		Node list = forest->link;
 		forest->link = NULL;
-		if (!IR->wants_dag)
+		if (!IR->wants_dag && errcnt <= 0)
 			list = undag(list);
 		code(Gen)->u.forest = list;
 		forest = NULL;
-- 
2.43.0


From 0217cbeb37204f042fc7c1d94b75a0240dca2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:30 +0000
Subject: [PATCH 56/59] fix: rcc crashed on the redeclaration of an enumerator
 or type name

---
 lcc/src/decl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 132241e..99d936a 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -217,6 +217,10 @@ static Symbol dclglobal(int sclass, char *id, Type ty, Coordinate *pos) {
 		else
 			error("redeclaration of `%s' previously declared at %w\n", p->name, &p->src);
 
+		if (p->sclass == TYPEDEF || p->sclass == ENUM) {
+			p->sclass = sclass;
+			(*IR->defsymbol)(p);
+		}
 		if (!isfunc(ty) && p->defined && t == '=')
 			error("redefinition of `%s' previously defined at %w\n", p->name, &p->src);
 
-- 
2.43.0


From 7312d7842ba422fa8ab785fe452d5a82e48967a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:43 +0000
Subject: [PATCH 57/59] fix: rcc crashed on the address of a type name

---
 lcc/src/expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index b5e7e31..e806b08 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -397,9 +397,11 @@ static Tree primary(void) {
 		   if (tsym->sclass == ENUM)
 		   	p = consttree(tsym->u.value, inttype);
 		   else {
-		   	if (tsym->sclass == TYPEDEF)
+		   	if (tsym->sclass == TYPEDEF) {
 		   		error("illegal use of type name `%s'\n", tsym->name);
-		   	p = idtree(tsym);
+		   		p = consttree(0, inttype);
+		   	} else
+		   		p = idtree(tsym);
 		   } break;
 	case FIRSTARG:
 		if (level > PARAM && cfunc && cfunc->u.f.callee[0])
-- 
2.43.0


From 37957ef74e2e929bfb1950de410d15a88c7ab76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 58/59] fix: rcc used a parameter's symbol after it was freed

---
 lcc/src/decl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 99d936a..f1a1875 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -478,6 +478,8 @@ static void exitparams(Symbol params[]) {
 	if (level > PARAM)
 		exitscope();
 	exitscope();
+	if (t == ID)	/* what was looked up in the scope just left */
+		tsym = lookup(token, identifiers);
 }
 
 static Symbol dclparam(int sclass, char *id, Type ty, Coordinate *pos) {
-- 
2.43.0


From 8ea9b21e2abe7ac5a54ce35d6a9f1b04dda79d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:16 +0000
Subject: [PATCH 59/59] fix: rcc aborted on an initialiser of a qualified type
 that does not fit

---
 lcc/src/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 2f015b4..51e397a 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -28,7 +28,7 @@ static int genconst(Tree e, int def) {
 				continue;
 			}
 			if (def)
-				(*IR->defconst)(e->type->op, e->type->size, e->u.v);
+				(*IR->defconst)(unqual(e->type)->op, e->type->size, e->u.v);
 			return e->type->size;
 		case RIGHT:
 			assert(e->kids[0] || e->kids[1]);
-- 
2.43.0

