From f11af507f590c3ef8c7ac26529624d3028fe2745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 01/60] fix: mark the singleton class of maps and regexes, not
 their class twice

---
 memory.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 579a1db..41ce990 100644
--- a/memory.c
+++ b/memory.c
@@ -847,7 +847,7 @@ void blackenObject(Obj *obj) {
             ObjMap *map = (ObjMap*)obj;
             grayObject((Obj*)map->klass);
             if (map->singletonKlass) {
-                grayObject((Obj*)map->klass);
+                grayObject((Obj*)map->singletonKlass);
             }
             if (map->finalizerFunc) {
                 grayObject(map->finalizerFunc);
@@ -861,7 +861,7 @@ void blackenObject(Obj *obj) {
             ObjRegex *reObj = (ObjRegex*)obj;
             grayObject((Obj*)reObj->klass);
             if (reObj->singletonKlass) {
-                grayObject((Obj*)reObj->klass);
+                grayObject((Obj*)reObj->singletonKlass);
             }
             if (reObj->finalizerFunc) {
                 grayObject(reObj->finalizerFunc);
-- 
2.43.0


From 0752a4d48d75f612b9f1c0f8da3fc014c9e4977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 02/60] fix: mark the modules, outer class and singleton owner
 a class refers to, and the class a function belongs to

---
 memory.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 41ce990..3483b4e 100644
--- a/memory.c
+++ b/memory.c
@@ -720,7 +720,12 @@ void blackenObject(Obj *obj) {
             if (klass->classInfo->superclass) {
                 grayObject((Obj*)klass->classInfo->superclass);
             }
-            // TODO: blacken included modules
+            grayObject(klass->classInfo->under);
+            grayObject(klass->classInfo->singletonOf);
+            Obj *includedMod = NULL; int modIdx = 0;
+            vec_foreach(&klass->classInfo->v_includedMods, includedMod, modIdx) {
+                grayObject(includedMod);
+            }
             grayTable(klass->fields);
             grayTable(klass->classInfo->methods);
             grayTable(klass->classInfo->getters);
@@ -747,7 +752,13 @@ void blackenObject(Obj *obj) {
                 GC_TRACE_DEBUG(8, "Graying module name");
                 grayObject((Obj*)mod->classInfo->name);
             }
-
+            grayObject(mod->classInfo->under);
+            grayObject(mod->classInfo->superclass);
+            grayObject(mod->classInfo->singletonOf);
+            Obj *includedMod = NULL; int modIdx = 0;
+            vec_foreach(&mod->classInfo->v_includedMods, includedMod, modIdx) {
+                grayObject(includedMod);
+            }
             grayTable(mod->fields);
             grayTable(mod->classInfo->methods);
             grayTable(mod->classInfo->getters);
@@ -768,6 +779,7 @@ void blackenObject(Obj *obj) {
             if (func->name) {
                 grayObject(TO_OBJ(func->name));
             }
+            grayObject(func->klass);
             grayTable(&func->localsTable);
             LocalVariable *var; int idx = 0;
             vec_foreach(&func->variables, var, idx) {
-- 
2.43.0


From a5d98051231036adad0d81c7fa5b4f9bdf65862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 03/60] fix: mark the context stacks, pending errors, frame
 members, literals and hidden objects that hold references during both
 collections

---
 memory.c | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 3483b4e..6965575 100644
--- a/memory.c
+++ b/memory.c
@@ -304,6 +304,25 @@ static inline bool inRememberSet(Obj *obj) {
 
 // collect all young objects that aren't in the remember set, aren't
 // on the stack (VM and "C" obj stack)
+// Roots held by a thread that both the young and the full collection must mark:
+// `this` and cref stacks, pending errors.
+static void grayThreadErrorsAndContexts(LxThread *th) {
+    Obj *ctxObj = NULL; int ctxObjIdx = 0;
+    vec_foreach(&th->v_thisStack, ctxObj, ctxObjIdx) {
+        grayObject(ctxObj);
+    }
+    vec_foreach(&th->v_crefStack, ctxObj, ctxObjIdx) {
+        grayObject(ctxObj);
+    }
+    grayValue(th->errorToThrow);
+    ErrTagInfo *errInfo = th->errInfo;
+    while (errInfo) {
+        grayObject((Obj*)errInfo->errClass);
+        grayValue(errInfo->caughtError);
+        errInfo = errInfo->prev;
+    }
+}
+
 void collectYoungGarbage() {
     ASSERT(vm.grayCount == 0);
     if (!GCOn || OPTION_T(disableGC)) {
@@ -353,6 +372,7 @@ void collectYoungGarbage() {
             grayObject(th->thisObj);
         }
         grayValue(th->lastErrorThrown);
+        grayThreadErrorsAndContexts(th);
         VMExecContext *ctx = NULL; int k = 0;
         vec_foreach(&th->v_ecs, ctx, k) {
             grayTable(&ctx->roGlobals);
@@ -386,7 +406,16 @@ void collectYoungGarbage() {
     grayTable(&vm.globals);
     grayTable(&vm.constants);
     /*grayTable(&vm.strings);*/
-    /*grayTable(&vm.regexLiterals);*/
+    grayTable(&vm.regexLiterals);
+    grayTable(&vm.autoloadTbl);
+    ObjClosure *exitHandler = NULL; int exitHandlerIdx = 0;
+    vec_foreach(&vm.exitHandlers, exitHandler, exitHandlerIdx) {
+        grayObject((Obj*)exitHandler);
+    }
+    void *hiddenObj = NULL; int hiddenIdx = 0;
+    vec_foreach(&vm.hiddenObjs, hiddenObj, hiddenIdx) {
+        grayObject((Obj*)hiddenObj);
+    }
 
     Value *scriptName; int i = 0;
     vec_foreach_ptr(&vm.loadedScripts, scriptName, i) {
@@ -408,7 +437,6 @@ void collectYoungGarbage() {
             }
             for (unsigned i = 0; i < ctx->frameCount; i++) {
                 CallFrame *frame = &ctx->frames[i];
-                // TODO: gray native function if exists
                 // XXX: is this necessary, they must be on the stack??
                 if (frame->closure)
                     grayObject(TO_OBJ(frame->closure));
@@ -417,6 +445,18 @@ void collectYoungGarbage() {
                 if (frame->scope) {
                     grayObject(TO_OBJ(frame->scope));
                 }
+                if (frame->klass)
+                    grayObject(TO_OBJ(frame->klass));
+                if (frame->nativeFunc)
+                    grayObject(TO_OBJ(frame->nativeFunc));
+                if (frame->file)
+                    grayObject(TO_OBJ(frame->file));
+                if (frame->callInfo && frame->callInfo->blockInstance) {
+                    grayObject(TO_OBJ(frame->callInfo->blockInstance));
+                }
+                if (frame->callInfo && frame->callInfo->blockFunction) {
+                    grayObject(TO_OBJ(frame->callInfo->blockFunction));
+                }
             }
         }
         if (th->openUpvalues) {
@@ -1259,6 +1299,7 @@ void collectGarbage(void) {
             grayObject(TO_OBJ(th->tlsMap));
         }
         grayValue(th->lastErrorThrown);
+        grayThreadErrorsAndContexts(th);
         VMExecContext *ctx = NULL; int k = 0;
         vec_foreach(&th->v_ecs, ctx, k) {
             grayTable(&ctx->roGlobals);
@@ -1325,6 +1366,8 @@ void collectGarbage(void) {
                     grayObject(TO_OBJ(frame->scope));
                 if (frame->nativeFunc)
                     grayObject(TO_OBJ(frame->nativeFunc));
+                if (frame->file)
+                    grayObject(TO_OBJ(frame->file));
                 if (frame->callInfo && frame->callInfo->blockInstance) {
                     grayObject(TO_OBJ(frame->callInfo->blockInstance));
                 }
-- 
2.43.0


From dd68ab1e3dfe6b37f102020ecb8db43f20da3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 04/60] fix: blacken every object greyed during a young
 collection

---
 memory.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/memory.c b/memory.c
index 6965575..21d2535 100644
--- a/memory.c
+++ b/memory.c
@@ -478,18 +478,13 @@ void collectYoungGarbage() {
     int numCollected = 0;
     ObjAny *newFreeList = freeList;
 
-    int grayCount = vm.grayCount;
-    while (grayCount > 0) {
-        // Pop an item from the gray stack.
-        grayCount--;
-        Obj *marked = vm.grayStack[grayCount];
+    // NOTE: the gray stack is kept, its objects are whitened at the end
+    for (int grayIdx = 0; grayIdx < vm.grayCount; grayIdx++) {
+        Obj *marked = vm.grayStack[grayIdx];
         DBG_ASSERT(marked);
-        int oldCount = vm.grayCount;
         if (IS_YOUNG_OBJ(marked)) {
             blackenObject(marked); // NOTE: only grays young references
         }
-        int newCount = vm.grayCount;
-        grayCount += (newCount-oldCount);
     }
 
     int numNotYoung = 0;
-- 
2.43.0


From 86beb022734f507c54b6ae82df5287581ad210fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 05/60] fix: flush printed output before exiting, forking and
 exec

---
 process.c | 2 ++
 vm.c      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/process.c b/process.c
index fc22a55..8c44951 100644
--- a/process.c
+++ b/process.c
@@ -34,6 +34,7 @@ static Value lxForkStatic(int argCount, Value *args) {
             throwArgErrorFmt("Expected argument 1 to be callable, is: %s", typeOfVal(func));
         }
     }
+    fflush(stdout); // or the child's exit prints what's buffered again
     pid_t pid = fork();
     if (pid < 0) { // error, TODO: should throw?
         return NUMBER_VAL(-1);
@@ -139,6 +140,7 @@ static Value lxExecStatic(int argCount, Value *args) {
         argv[i-1] = VAL_TO_STRING(args[i])->chars;
     }
     ASSERT(argv[argCount+1] == NULL);
+    fflush(stdout); // what's buffered is lost if exec() succeeds
     execvp(argv[0], (char *const *)argv);
     fprintf(stderr, "Error during exec: %s\n", strerror(errno));
     xfree(argv);
diff --git a/vm.c b/vm.c
index 928b982..064181a 100644
--- a/vm.c
+++ b/vm.c
@@ -3974,6 +3974,7 @@ NORETURN void stopVM(int status) {
         vm.exited = true;
         vm.numLivingThreads--;
         // NOTE: pthread_exit in last thread always exits with 0, so have to call _exit manually
+        fflush(stdout); // _exit() doesn't flush
         _exit(th->exitStatus);
     } else {
         exitingThread(th);
@@ -4011,6 +4012,7 @@ NORETURN void _stopVM(int status) {
         }
         vm.exited = true;
         vm.numLivingThreads--;
+        fflush(stdout); // _exit() doesn't flush
         _exit(status);
     }
 }
-- 
2.43.0


From 545c4e91b49075fdc73313345bc26d68119fb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 06/60] fix: hold the GVL while allocating, throwing and
 reading strings in IO and File functions, write everything, keep reads inside
 their buffer

---
 file.c | 56 +++++++++++++++++++++++++++++++-------------------------
 io.c   | 43 ++++++++++++++++++++++++-------------------
 2 files changed, 55 insertions(+), 44 deletions(-)

diff --git a/file.c b/file.c
index fe440c6..19ecce2 100644
--- a/file.c
+++ b/file.c
@@ -144,38 +144,31 @@ static Value lxFileReadLinesStatic(int argCount, Value *args) {
     FILE *f = checkFopen(fnameStr->chars, "r");
     Value ary = newArray();
     size_t nread = 0;
-    releaseGVL(THREAD_STOPPED);
     Value line = NIL_VAL;
     bool leftoverLine = false;
     char fileReadBuf[READBUF_SZ];
-    while ((nread = fread(fileReadBuf, 1, sizeof(fileReadBuf), f)) > 0) {
+    while (true) {
+        releaseGVL(THREAD_STOPPED);
+        nread = fread(fileReadBuf, 1, sizeof(fileReadBuf)-1, f);
+        acquireGVL();
+        if (nread == 0) break;
+        fileReadBuf[nread] = '\0';
         size_t nleft = nread;
         char *bufp = fileReadBuf;
-        char *bufpStart = bufp;
-        while (nleft > 0 && *bufp) {
-            while (*bufp != '\0' && *bufp != '\n') {
-                bufp++;
-                if (nleft == 0) break;
-            }
-            if (*bufp == '\n') bufp++;
-            size_t len = bufp - bufpStart;
+        while (nleft > 0) {
+            char *nl = memchr(bufp, '\n', nleft);
+            size_t len = nl ? (size_t)(nl+1 - bufp) : nleft;
             if (leftoverLine) {
-                pushCString(AS_STRING(line), bufpStart, len);
-                leftoverLine = false;
+                pushCString(AS_STRING(line), bufp, len);
             } else {
-                line = OBJ_VAL(copyString(bufpStart, len, NEWOBJ_FLAG_NONE));
+                line = OBJ_VAL(copyString(bufp, len, NEWOBJ_FLAG_NONE));
                 arrayPush(ary, line);
             }
+            leftoverLine = (nl == NULL); // line continues in the next chunk
+            bufp += len;
             nleft -= len;
-            if (!*bufp) {
-                ASSERT(nleft == 0);
-                leftoverLine = true;
-                break; // read more data, reached end of buffer
-            }
-            bufpStart = bufp;
         }
     }
-    acquireGVL();
     checkFerror(f, "reading", fnameStr->chars);
     checkFclose(f);
     return ary;
@@ -207,17 +200,30 @@ static Value lxFileStaticCopy(int argCount, Value *args) {
     ssize_t res = 0;
     ssize_t bytesCopied = 0;
     char *buf = ALLOCATE(char, chunkSz);
+    int srcfd = srcf->fd;
+    int dstfd = dstf->fd;
+    int err = 0;
+    const char *op = "read";
     releaseGVL(THREAD_STOPPED);
-    while ((res = read(srcf->fd, buf, chunkSz)) > 0) {
-      int wres = write(dstf->fd, buf, res);
-      if (wres != res) {
-        FREE_SIZE(chunkSz, buf);
-        throwErrorFmt(sysErrClass(errno), "Error during write: %s", strerror(errno));
+    while ((res = read(srcfd, buf, chunkSz)) > 0) {
+      ssize_t written = 0;
+      ssize_t wres = 0;
+      while (written < res && (wres = write(dstfd, buf+written, res-written)) > 0) {
+        written += wres;
+      }
+      if (written < res) {
+        op = "write";
+        res = -1;
+        break;
       }
       bytesCopied += res;
     }
+    if (res == -1) err = errno;
     acquireGVL();
     FREE_SIZE(chunkSz, buf);
+    if (res == -1) {
+      throwErrorFmt(sysErrClass(err), "Error during %s: %s", op, strerror(err));
+    }
     return NUMBER_VAL(bytesCopied);
 }
 
diff --git a/io.c b/io.c
index 721536d..f0c75b4 100644
--- a/io.c
+++ b/io.c
@@ -13,7 +13,6 @@
 ObjClass *lxIOClass;
 ObjClass *lxEWouldBlockClass;
 #define READBUF_SZ 4092
-#define WRITEBUF_SZ 4092
 
 static void markInternalFile(Obj *obj) {
     ASSERT(obj->type == OBJ_T_INTERNAL);
@@ -99,30 +98,35 @@ ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
     if (nonBlock) {
       fd_set_nonblock(fd);
     }
-    if (!nonBlock) {
-    releaseGVL(THREAD_STOPPED);
-    }
-    /*fprintf(stderr, "read from %d with max %d\n", fd, (int)maxRead);*/
-    while ((justRead = read(fd, fileReadBuf, maxRead)) > 0) {
+    int err = 0;
+    while (true) {
+        /*fprintf(stderr, "read from %d with max %d\n", fd, (int)maxRead);*/
+        if (nonBlock) {
+            justRead = read(fd, fileReadBuf, maxRead);
+            err = errno;
+        } else {
+            releaseGVL(THREAD_STOPPED);
+            justRead = read(fd, fileReadBuf, maxRead);
+            err = errno;
+            acquireGVL();
+        }
+        if (justRead <= 0) break;
         /*fprintf(stderr, "Just read: '%s'", fileReadBuf);*/
         fileReadBuf[justRead] = '\0';
         pushCString(retBuf, fileReadBuf, justRead);
         nread += justRead;
         numBytes -= justRead;
-        maxRead = untilEOF ? READBUF_SZ : (numBytes > READBUF_SZ ? READBUF_SZ : numBytes);
-    }
-    if (!nonBlock) {
-        acquireGVL();
+        maxRead = untilEOF ? READBUF_SZ-1 : (numBytes > (READBUF_SZ-1) ? (READBUF_SZ-1) : numBytes);
     }
     if (justRead == -1) {
-        if (nonBlock && errno == EWOULDBLOCK) {
+        if (nonBlock && err == EWOULDBLOCK) {
             if (nread == 0) {
                 return NULL;
             } else {
                 return retBuf;
             }
         }
-        throwIOSyserr(errno, last, "read");
+        throwIOSyserr(err, last, "read");
     }
 
     return retBuf;
@@ -175,20 +179,21 @@ size_t IOWrite(Value io, const void *buf, size_t count) {
         throwErrorFmt(lxErrClass, "Cannot write to stdin");
     }
     int fd = f->fd;
-    size_t chunkSz = count > WRITEBUF_SZ ? WRITEBUF_SZ : count;
-    char ioWritebuf[WRITEBUF_SZ];
-    memcpy(ioWritebuf, buf, chunkSz);
+    // other threads can change or free what `buf` points to while the GVL is released
+    char *writeBuf = ALLOCATE(char, count+1);
+    memcpy(writeBuf, buf, count);
     size_t written = 0;
     ssize_t res = 0;
     int last = errno;
     releaseGVL(THREAD_STOPPED);
-    while ((res = write(fd, ioWritebuf, chunkSz)) > 0 && (written += res) && written < count) {
-        chunkSz -= written;
-        memcpy(ioWritebuf, buf+written, chunkSz > WRITEBUF_SZ ? WRITEBUF_SZ : chunkSz);
+    while ((res = write(fd, writeBuf+written, count-written)) > 0) {
+        written += res;
+        if (written >= count) break;
     }
+    int err = errno;
     acquireGVL();
+    FREE_SIZE(count+1, writeBuf);
     if (res == -1) {
-        int err = errno;
         errno = last;
         throwErrorFmt(sysErrClass(err), "Error during write: %s", strerror(err));
     }
-- 
2.43.0


From e278c8b0a00774d43a6844195a61a5b7c1cea64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 07/60] fix: release and take the GVL properly around a
 contended mutex, and wait for its owner to give it up

---
 thread.c |  8 +++++---
 vm.h     | 11 -----------
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/thread.c b/thread.c
index a049511..35138c2 100644
--- a/thread.c
+++ b/thread.c
@@ -11,10 +11,10 @@ ObjClass *lxMutexClass;
 ObjNative *nativeThreadInit = NULL;
 
 #define BLOCKING_REGION_CORE(exec) do { \
-    GVL_UNLOCK_BEGIN(); {\
+    releaseGVL(THREAD_STOPPED); {\
 	    exec; \
     } \
-    GVL_UNLOCK_END(); \
+    acquireGVL(); \
 } while(0)
 
 void vmCheckInts(LxThread *th) {
@@ -500,7 +500,9 @@ static void setupMutex(LxMutex *mutex) {
 static void lockFunc(LxMutex *mutex, LxThread *th) {
     pthread_mutex_lock(&mutex->lock); // can block
     mutex->waiting++;
-    pthread_cond_wait(&mutex->cond, &mutex->lock);
+    while (mutex->owner) {
+        pthread_cond_wait(&mutex->cond, &mutex->lock);
+    }
     mutex->waiting--;
     th->mutexCounter++;
     THREAD_DEBUG(1, "Thread %lu LOCKED mutex", th->tid);
diff --git a/vm.h b/vm.h
index f15822f..b2627f6 100644
--- a/vm.h
+++ b/vm.h
@@ -241,17 +241,6 @@ LxThread *THREAD(void);
 LxThread *FIND_THREAD(pthread_t tid);
 ObjInstance *FIND_THREAD_INSTANCE(pthread_t tid);
 
-#define GVL_UNLOCK_BEGIN() do { \
-  LxThread *thStored = THREAD(); \
-  pthread_mutex_unlock(&vm.GVLock); \
-  vm.curThread = NULL; GVLOwner = 0; \
-  vm.GVLockStatus = 0
-
-#define GVL_UNLOCK_END() \
-  pthread_mutex_lock(&vm.GVLock); \
-  threadSetCurrent(thStored); \
-} while(0)
-
 typedef enum {
   INTERPRET_OK = 1,
   INTERPRET_UNINITIALIZED, // tried to call interpret() before initVM()
-- 
2.43.0


From f0dd2872e2c399c317aa5b1d11fd3b3cefce2367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 08/60] fix: record a thread that quits before it ran as ended,
 so exiting doesn't wait for it forever

---
 thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thread.c b/thread.c
index 35138c2..5ea89af 100644
--- a/thread.c
+++ b/thread.c
@@ -265,6 +265,7 @@ static void *runCallableInNewThread(void *arg) {
     unhideFromGC((Obj*)closure);
     if (vm.exiting || vm.exited) {
         THREAD_DEBUG(2, "vm exited, quitting new thread %lu", pthread_self());
+        th->status = THREAD_ZOMBIE;
         releaseGVL(THREAD_ZOMBIE);
         vm.numLivingThreads--;
         pthread_exit(NULL);
-- 
2.43.0


From e5b41953837d987984bf1b933bbd8dd614267a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 09/60] fix: give up the GVL while resolving host names, and
 clear the hints

---
 socket.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/socket.c b/socket.c
index 7d4ae8c..6c26644 100644
--- a/socket.c
+++ b/socket.c
@@ -323,14 +323,21 @@ static Value lxAddrInfoStaticGetAddrInfo(int argCount, Value *args) {
 
   struct addrinfo hints;
   struct addrinfo *res;
+  memset(&hints, 0, sizeof(hints));
   hints.ai_socktype = sockType; // ex: Socket::SOCK_STREAM
   hints.ai_family = afamily; // ex: Socket::AF_INET
   hints.ai_flags = flags;
   hints.ai_protocol = 0;
 
-  int st = getaddrinfo(nodeStr->chars,
-      serviceStr ? serviceStr->chars : NULL,
-      &hints, &res);
+  // these copies outlive a change or a collection of the strings while the
+  // GVL is released
+  char *node = strdup(nodeStr->chars);
+  char *service = serviceStr ? strdup(serviceStr->chars) : NULL;
+  releaseGVL(THREAD_STOPPED);
+  int st = getaddrinfo(node, service, &hints, &res);
+  acquireGVL();
+  free(node);
+  free(service);
   if (st != 0) {
     throwErrorFmt(sysErrClass(errno), "error in getaddrinfo(2): %s", strerror(errno));
   }
-- 
2.43.0


From a071e69a168f09ce1ffaa4bdcdd00e8cf4fd6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 10/60] fix: give back the mutexes of a thread that ends before
 forgetting them, and throw when unlocking a mutex that isn't held

---
 thread.c | 6 +++++-
 vm.c     | 4 +---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/thread.c b/thread.c
index 5ea89af..29f6240 100644
--- a/thread.c
+++ b/thread.c
@@ -70,6 +70,7 @@ void threadExecuteInterrupts(LxThread *th) {
         } else if (interrupt == INTERRUPT_GENERAL) { // sent 'exit' interrupt to living thread
             THREAD_DEBUG(1, "Thread %lu got exit interrupt, exiting", th->tid);
             ASSERT(th != vm.mainThread);
+            forceUnlockMutexes(th);
             if (GVLOwner == th->tid) {
                 THREAD_DEBUG(1, "thread releasing GVL before exit");
                 releaseGVL(THREAD_ZOMBIE);
@@ -561,7 +562,10 @@ void threadForceUnlockMutex(LxThread *th, LxMutex *mutex) {
 static void unlockMutex(LxMutex *mutex) {
     pthread_mutex_lock(&mutex->lock);
     LxThread *th = vm.curThread;
-    ASSERT(mutex->owner == th); // TODO: throw error
+    if (mutex->owner != th) {
+        pthread_mutex_unlock(&mutex->lock);
+        throwErrorFmt(lxErrClass, "Mutex#unlock: mutex is not locked by this thread");
+    }
     mutex->owner = NULL;
     vec_remove(&th->lockedMutexes, mutex);
     THREAD_DEBUG(1, "Thread %lu unlocking mutex...", th->tid);
diff --git a/vm.c b/vm.c
index 064181a..a11e8fd 100644
--- a/vm.c
+++ b/vm.c
@@ -3977,6 +3977,7 @@ NORETURN void stopVM(int status) {
         fflush(stdout); // _exit() doesn't flush
         _exit(th->exitStatus);
     } else {
+        forceUnlockMutexes(th); // before exitingThread() forgets them
         exitingThread(th);
         th->exitStatus = status;
         if (th->detached && vm.numDetachedThreads > 0) {
@@ -3987,9 +3988,6 @@ NORETURN void stopVM(int status) {
         }
         th->status = THREAD_ZOMBIE;
         vm.numLivingThreads--;
-        if (th->mutexCounter > 0) {
-            forceUnlockMutexes(th);
-        }
         th->mutexCounter = 0;
         releaseGVL(THREAD_ZOMBIE);
         pthread_exit(&status);
-- 
2.43.0


From 8702e7225969e81dc5ec34fa668f2c261508a801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 11/60] fix: keep the list of signal handlers whole when
 sigaction() fails, and refuse signal numbers that don't exist

---
 process.c |  3 +++
 signal.c  | 20 +++++++-------------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/process.c b/process.c
index 8c44951..028ead8 100644
--- a/process.c
+++ b/process.c
@@ -190,6 +190,9 @@ static Value lxProcessSignalStatic(int argCount, Value *args) {
     if (signo < 0) {
         throwErrorFmt(lxErrClass, "signo must be non-negative");
     }
+    if (signo >= NSIG) {
+        throwErrorFmt(lxErrClass, "signo must be less than %d", NSIG);
+    }
     bool toSelf = (pid == (int)getpid());
     if (toSelf) {
         switch (signo) {
diff --git a/signal.c b/signal.c
index afc4ae5..bea9ce5 100644
--- a/signal.c
+++ b/signal.c
@@ -79,20 +79,14 @@ static int addSigHandler(int signum, Value callable) {
     handler->callable = AS_OBJ(callable);
     handler->next = NULL;
     bool processHandlerExistsForSig = false;
-    SigHandler *prev = NULL;
-    if (sigHandlers == NULL) {
-        sigHandlers = handler;
-    } else {
-        SigHandler *cur = sigHandlers;
-        while (cur->next) {
-            if (cur->signum == signum) {
-                processHandlerExistsForSig = true;
-            }
-            cur = cur->next;
+    SigHandler **last = &sigHandlers;
+    while (*last) {
+        if ((*last)->signum == signum) {
+            processHandlerExistsForSig = true;
         }
-        cur->next = handler;
-        prev = cur;
+        last = &(*last)->next;
     }
+    *last = handler;
     if (!processHandlerExistsForSig) {
         struct sigaction sa;
         sa.sa_flags = 0|SA_SIGINFO|SA_RESTART;
@@ -103,7 +97,7 @@ static int addSigHandler(int signum, Value callable) {
         struct sigaction saOld;
         int res = sigaction(signum, &sa, &saOld);
         if (res != 0) {
-            prev->next = NULL;
+            *last = NULL;
             FREE(SigHandler, handler);
             return -1;
         }
-- 
2.43.0


From 0677462c4bbb5bd3128b2080ace0c7f6ddd47340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 12/60] fix: set interrupt flags and count signals atomically,
 without taking a lock in the signal handler

---
 signal.c | 11 +++++------
 thread.c |  2 +-
 vm.h     |  5 +++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/signal.c b/signal.c
index bea9ce5..479446a 100644
--- a/signal.c
+++ b/signal.c
@@ -17,13 +17,13 @@ typedef struct SignalBuf {
 SignalBuf sigbuf;
 
 void enqueueSignal(int signo) {
-    sigbuf.cnt[signo]++;
-    sigbuf.size++;
+    __sync_fetch_and_add(&sigbuf.cnt[signo], 1);
+    __sync_fetch_and_add(&sigbuf.size, 1);
 }
 
 static inline void dequeueSignal(int signo) {
-    sigbuf.cnt[signo]--;
-    sigbuf.size--;
+    __sync_fetch_and_sub(&sigbuf.cnt[signo], 1);
+    __sync_fetch_and_sub(&sigbuf.size, 1);
 }
 
 int getSignal() {
@@ -56,9 +56,8 @@ int execSignal(LxThread *th, int signum) {
 // and set the interrupt flag on the main thread.
 static void sigHandlerFunc(int signum, siginfo_t *sinfo, void *_context) {
     enqueueSignal(signum);
-    pthread_mutex_lock(&vm.mainThread->interruptLock);
+    // no lock here: the signal may have interrupted the thread that holds it
     SET_TRAP_INTERRUPT(vm.mainThread);
-    pthread_mutex_unlock(&vm.mainThread->interruptLock);
 }
 
 void removeVMSignalHandlers(void) {
diff --git a/thread.c b/thread.c
index 29f6240..ec372f0 100644
--- a/thread.c
+++ b/thread.c
@@ -60,7 +60,7 @@ void threadExecuteInterrupts(LxThread *th) {
     int interrupt = 0;
     while ((interrupt = threadGetInterrupt(th)) != INTERRUPT_NONE) {
         if (interrupt == INTERRUPT_TRAP && th == vm.mainThread) {
-            th->interruptFlags &= (~interrupt);
+            (void)__sync_fetch_and_and(&th->interruptFlags, ~interrupt);
             int sig;
             while ((sig = getSignal()) != -1) {
                 if (execSignal(th, sig) != 0) {
diff --git a/vm.h b/vm.h
index b2627f6..783034f 100644
--- a/vm.h
+++ b/vm.h
@@ -118,8 +118,9 @@ typedef struct BlockStackEntry {
 #define INTERRUPT_GENERAL 1
 // all signals use this interrupt
 #define INTERRUPT_TRAP 2
-#define SET_TRAP_INTERRUPT(th) (th->interruptFlags |= INTERRUPT_TRAP)
-#define SET_INTERRUPT(th) (th->interruptFlags |= INTERRUPT_GENERAL)
+// atomic, as signal handlers and other threads set them
+#define SET_TRAP_INTERRUPT(th) ((void)__sync_fetch_and_or(&th->interruptFlags, INTERRUPT_TRAP))
+#define SET_INTERRUPT(th) ((void)__sync_fetch_and_or(&th->interruptFlags, INTERRUPT_GENERAL))
 #define INTERRUPTED_ANY(th) (th->interruptFlags != INTERRUPT_NONE)
 typedef struct LxThread {
     pthread_t tid;
-- 
2.43.0


From ee3e7fc57e30ebf9c1420c9e0c42470582e23517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 13/60] fix: let the child of fork() end when the parent had
 other threads

---
 process.c |  1 +
 thread.c  | 19 +++++++++++++++++++
 vm.h      |  1 +
 3 files changed, 21 insertions(+)

diff --git a/process.c b/process.c
index 028ead8..a69ceb8 100644
--- a/process.c
+++ b/process.c
@@ -42,6 +42,7 @@ static Value lxForkStatic(int argCount, Value *args) {
     if (pid) { // in parent
         return NUMBER_VAL(pid);
     } else { // in child
+        threadsAfterFork();
         if (argCount == 2) {
             vm.mainThread->pid = getpid();
             callCallable(func, 0, false, NULL);
diff --git a/thread.c b/thread.c
index ec372f0..da6fcd6 100644
--- a/thread.c
+++ b/thread.c
@@ -434,6 +434,25 @@ static Value lxThreadThrow(int argCount, Value *args) {
     return ret;
 }
 
+// Only the thread that called fork() exists in the child, and it's the main
+// thread there.
+void threadsAfterFork(void) {
+    ObjInstance *thI; int thIdx = 0;
+    vec_foreach(&vm.threads, thI, thIdx) {
+        LxThread *th = THREAD_GETHIDDEN(OBJ_VAL(thI));
+        if (th != vm.curThread) {
+            th->status = THREAD_ZOMBIE;
+        }
+    }
+    vm.mainThread = vm.curThread;
+    vm.numLivingThreads = 1;
+    vm.numDetachedThreads = 0;
+    // other threads may have been waiting for the GVL
+    pthread_mutex_init(&vm.GVLock, NULL);
+    pthread_cond_init(&vm.GVLCond, NULL);
+    vm.GVLWaiters = 0;
+}
+
 void threadDetach(LxThread *th) {
     ASSERT(th && th != vm.curThread);
     ASSERT(th->tid > 0);
diff --git a/vm.h b/vm.h
index 783034f..babcb71 100644
--- a/vm.h
+++ b/vm.h
@@ -382,6 +382,7 @@ void thread_debug(int lvl, const char *format, ...);
 extern volatile pthread_t GVLOwner;
 void threadSetCurrent(LxThread *th);
 void threadDetach(LxThread *th);
+void threadsAfterFork(void);
 void exitingThread(LxThread *th);
 void terminateThreads(void);
 const char *threadStatusName(ThreadStatus status);
-- 
2.43.0


From 6ad2aab6547b962e427f9e1bea6befe42d3482e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 14/60] fix: never move or overrun the value stack and the
 frames, and raise an error when they are used up

---
 thread.c |  3 ++-
 vm.c     | 68 ++++++++++++++++++++++++--------------------------------
 vm.h     |  7 ++++--
 3 files changed, 36 insertions(+), 42 deletions(-)

diff --git a/thread.c b/thread.c
index da6fcd6..d5abe57 100644
--- a/thread.c
+++ b/thread.c
@@ -140,6 +140,7 @@ static void LxThreadSetup(LxThread *th) {
     vec_init(&th->stackObjects);
     th->lastValue = NULL;
     th->hadError = false;
+    th->overflowing = false;
     th->errInfo = NULL;
     th->lastErrorThrown = NIL_VAL;
     th->errorToThrow = NIL_VAL;
@@ -205,7 +206,7 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
         memcpy(newCtx->stack, ctx->stack, sizeof(Value)*newCtx->stack_capa);
         newCtx->frames = ALLOCATE(CallFrame, ctx->frames_capa);
         newCtx->frames_capa = ctx->frames_capa;
-        memcpy(newCtx->frames, ctx->frames, sizeof(CallFrame)*ctx->frames_capa);
+        memcpy(newCtx->frames, ctx->frames, sizeof(CallFrame)*ctx->frameCount);
         newCtx->stackTop = newCtx->stack + (ctx->stackTop-ctx->stack);
         newCtx->stackTop--; // for the two current stack objects that newThread() creates
         newCtx->stackTop--;
diff --git a/vm.c b/vm.c
index a11e8fd..89f8ba1 100644
--- a/vm.c
+++ b/vm.c
@@ -397,13 +397,13 @@ static inline void push_EC(bool allocateStack) {
     initTable(&ectx->roGlobals);
     ectx->frameCount = 0;
     if (allocateStack) {
-      ectx->stack = ALLOCATE(Value, STACK_INITIAL);
-      ectx->stack_capa = STACK_INITIAL;
+      ectx->stack = ALLOCATE(Value, STACK_MAX+STACK_RESERVE);
+      ectx->stack_capa = STACK_MAX+STACK_RESERVE;
       ectx->stackAllocated = true;
       ectx->stackTop = ectx->stack;
     }
-    ectx->frames = ALLOCATE(CallFrame, FRAMES_INITIAL);
-    ectx->frames_capa = FRAMES_INITIAL;
+    ectx->frames = ALLOCATE(CallFrame, FRAMES_MAX+FRAMES_RESERVE);
+    ectx->frames_capa = FRAMES_MAX+FRAMES_RESERVE;
     vec_push(&th->v_ecs, ectx);
     th->ec = ectx; // EC = ectx
 }
@@ -654,7 +654,7 @@ bool VMLoadedScript(char *fname) {
     return false;
 }
 
-#define ASSERT_VALID_STACK() DBG_ASSERT(EC->stackTop >= EC->stack && EC->stackTop < EC->stack + STACK_MAX)
+#define ASSERT_VALID_STACK() DBG_ASSERT(EC->stackTop >= EC->stack && EC->stackTop <= EC->stack + EC->stack_capa)
 
 static inline bool isOpStackEmpty(void) {
     ASSERT_VALID_STACK();
@@ -667,20 +667,27 @@ static inline bool isOpStackEmpty(void) {
 #define VM_PEEK(n) vm_peek(th, ctx, n)
 #define VM_PUSHSWAP(val) vm_pushSwap(th, ctx, val)
 
+// Raises an error. The reserves are usable until it's thrown.
+static NORETURN void throwOverflow(LxThread *th, const char *what, int max) {
+    if (th->overflowing) {
+        die("%s", "Stack overflow while raising an error");
+    }
+    th->overflowing = true;
+    throwErrorFmt(lxErrClass, "Stackoverflow, max number of %s (%d)", what, max);
+}
+
+static inline void checkStack(LxThread *th, VMExecContext *ctx) {
+    if (UNLIKELY(ctx->stackTop + STACK_RESERVE >= ctx->stack + ctx->stack_capa)) {
+        if (!th->overflowing || ctx->stackTop >= ctx->stack + ctx->stack_capa) {
+            throwOverflow(th, "values on the stack", STACK_MAX);
+        }
+    }
+}
+
 void push(Value value) {
     ASSERT_VALID_STACK();
     register VMExecContext *ctx = EC;
-    if (UNLIKELY(ctx->stackTop >= ctx->stack + STACK_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        int status = 1;
-        vm.curThread->status = THREAD_ZOMBIE;
-        vm.numLivingThreads--;
-        pthread_exit(&status);
-    }
-    if (UNLIKELY(ctx->stackTop >= ctx->stack + ctx->stack_capa)) {
-        ctx->stack = GROW_ARRAY(ctx->stack, Value, ctx->stack_capa, ctx->stack_capa*2);
-        ctx->stack_capa *= 2;
-    }
+    checkStack(vm.curThread, ctx);
     if (IS_OBJ(value)) {
         DBG_ASSERT(AS_OBJ(value)->type != OBJ_T_NONE);
         OBJ_SET_PUSHED_VM_STACK(AS_OBJ(value)); // for gen gc
@@ -691,13 +698,7 @@ void push(Value value) {
 
 static inline void vm_push(register LxThread *th, register VMExecContext *ctx, Value value) {
     ASSERT_VALID_STACK();
-    if (UNLIKELY(ctx->stackTop >= ctx->stack + STACK_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        int status = 1;
-        th->status = THREAD_ZOMBIE;
-        vm.numLivingThreads--;
-        pthread_exit(&status);
-    }
+    checkStack(th, ctx);
     if (IS_OBJ(value)) {
         DBG_ASSERT(AS_OBJ(value)->type != OBJ_T_NONE);
         OBJ_SET_PUSHED_VM_STACK(AS_OBJ(value)); // for gen gc
@@ -1381,12 +1382,9 @@ CallFrame *pushFrame(ObjFunction *userFunc) {
     DBG_ASSERT(vm.inited);
     register VMExecContext *ec = EC;
     if (UNLIKELY(ec->frameCount >= FRAMES_MAX)) {
-        throwErrorFmt(lxErrClass, "Stackoverflow, max number of call frames (%d)", FRAMES_MAX);
-        UNREACHABLE_RETURN(NULL);
-    }
-    if (UNLIKELY(ec->frameCount >= ec->frames_capa)) {
-        ec->frames = GROW_ARRAY(ec->frames, CallFrame, ec->frames_capa, ec->frames_capa*2);
-        ec->frames_capa *= 2;
+        if (!vm.curThread->overflowing || (size_t)ec->frameCount >= ec->frames_capa) {
+            throwOverflow(vm.curThread, "call frames", FRAMES_MAX);
+        }
     }
     CallFrame *prev = getFrameOrNull();
     CallFrame *frame = &ec->frames[ec->frameCount++];
@@ -1417,10 +1415,6 @@ static void pushNativeFrame(ObjNative *native) {
     DBG_ASSERT(vm.inited);
     DBG_ASSERT(native);
     VM_DEBUG(2, "Pushing native callframe for %s", native->name->chars);
-    if (UNLIKELY(EC->frameCount == FRAMES_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        return;
-    }
     CallFrame *prevFrame = getFrame();
     CallFrame *newFrame = pushFrame(NULL);
     newFrame->closure = prevFrame->closure;
@@ -1711,11 +1705,6 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         UNREACHABLE("bad callable value given to callCallable: %s", typeOfVal(callable));
     }
 
-    if (UNLIKELY(EC->frameCount >= FRAMES_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        return false;
-    }
-
     VM_DEBUG(2, "doCallCallable found closure");
     // non-native function/method (defined in lox code)
     ASSERT(closure);
@@ -2121,6 +2110,7 @@ NORETURN void throwError(Value self) {
     if (IS_NIL(getProp(self, INTERN("backtrace")))) {
         setBacktrace(self);
     }
+    th->overflowing = false;
     // error from VM
     ObjInstance *obj = AS_INSTANCE(self);
     ObjClass *klass = obj->klass;
@@ -3649,7 +3639,7 @@ static Value doVMEval(char *src, char *filename, int lineno, ObjInstance *instan
     VMExecContext *ectx = EC;
     ectx->evalContext = true;
     ectx->stack = oldFrame->slots;
-    ectx->stack_capa = old_ectx->stack_capa;
+    ectx->stack_capa = old_ectx->stack_capa - (size_t)(oldFrame->slots - old_ectx->stack);
     ectx->stackTop = old_ectx->stackTop;
     VM_DEBUG(1, "VM eval called in func '%s', ip: %d", callFrameName(prevFrame),
         prevFrame->ip - prevFrame->closure->function->chunk->code);
diff --git a/vm.h b/vm.h
index babcb71..b34e8e0 100644
--- a/vm.h
+++ b/vm.h
@@ -16,10 +16,12 @@
 extern "C" {
 #endif
 
-#define STACK_INITIAL 256
+// The value stack and the frames are never moved, as frames, upvalues and error
+// tags point into them. The reserve is for raising the error that reports an overflow.
 #define STACK_MAX 1024
-#define FRAMES_INITIAL 64
+#define STACK_RESERVE 128
 #define FRAMES_MAX 1024
+#define FRAMES_RESERVE 32
 
 #ifndef NDEBUG
 #define THREAD_DEBUG(lvl, ...) thread_debug(lvl, __VA_ARGS__)
@@ -135,6 +137,7 @@ typedef struct LxThread {
     vec_void_t v_blockStack; // pointers to BlockStackEntry
     Value *lastValue;
     bool hadError;
+    bool overflowing; // reporting that the stack or the frames are used up
     ErrTagInfo *errInfo;
     volatile Value lastErrorThrown; // TODO: change to Obj pointer
     volatile Value errorToThrow; // error raised by other thread
-- 
2.43.0


From d135df32e73bd2384a45c39f10dbb7c5f162c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 15/60] fix: don't drop a running thread from the list of
 threads when several ended ones are removed

---
 memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index 21d2535..2b235f6 100644
--- a/memory.c
+++ b/memory.c
@@ -1313,7 +1313,8 @@ void collectGarbage(void) {
     }
 
     int zombieIdx; int zidx = 0;
-    vec_foreach(&v_zombies, zombieIdx, zidx) {
+    // from the last to the first, as removing one shifts the ones after it
+    vec_foreach_rev(&v_zombies, zombieIdx, zidx) {
         vec_splice(&vm.threads, zombieIdx, 1);
     }
     vec_deinit(&v_zombies);
-- 
2.43.0


From 5961c0c08a9b56027aff17d87b0dfa62ab1d9ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 16/60] fix: count living threads while holding the GVL

---
 thread.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thread.c b/thread.c
index d5abe57..5de32ec 100644
--- a/thread.c
+++ b/thread.c
@@ -71,6 +71,7 @@ void threadExecuteInterrupts(LxThread *th) {
             THREAD_DEBUG(1, "Thread %lu got exit interrupt, exiting", th->tid);
             ASSERT(th != vm.mainThread);
             forceUnlockMutexes(th);
+            vm.numLivingThreads--; // while still holding the GVL
             if (GVLOwner == th->tid) {
                 THREAD_DEBUG(1, "thread releasing GVL before exit");
                 releaseGVL(THREAD_ZOMBIE);
@@ -81,7 +82,6 @@ void threadExecuteInterrupts(LxThread *th) {
                 pthread_cond_signal(&vm.GVLCond); // signal waiters
             }
             THREAD_DEBUG(1, "thread exiting");
-            vm.numLivingThreads--;
             th->status = THREAD_ZOMBIE;
             pthread_exit(NULL);
         }
@@ -251,7 +251,6 @@ static void *runCallableInNewThread(void *arg) {
     ASSERT(th->tid > 0);
     THREAD_DEBUG(2, "switching to newly created thread, acquiring lock %lu", th->tid);
     THREAD_DEBUG(2, "acquiring GVL");
-    vm.numLivingThreads++;
     acquireGVL();
     THREAD_DEBUG(2, "acquired GVL");
     th = vm.curThread;
@@ -268,8 +267,8 @@ static void *runCallableInNewThread(void *arg) {
     if (vm.exiting || vm.exited) {
         THREAD_DEBUG(2, "vm exited, quitting new thread %lu", pthread_self());
         th->status = THREAD_ZOMBIE;
-        releaseGVL(THREAD_ZOMBIE);
         vm.numLivingThreads--;
+        releaseGVL(THREAD_ZOMBIE);
         pthread_exit(NULL);
     }
     THREAD_DEBUG(2, "calling callable %lu", pthread_self());
@@ -297,6 +296,7 @@ Value lxNewThread(int argCount, Value *args) {
     thArgs->func = func;
     hideFromGC((Obj*)func); // XXX: this is needed, because it's only pushed onto the stack when the new thread runs
     thArgs->th = th;
+    vm.numLivingThreads++; // counted here, while holding the GVL
     releaseGVL(THREAD_STOPPED);
     if (pthread_create(&tnew, NULL, runCallableInNewThread, thArgs) == 0) {
         acquireGVL();
@@ -307,6 +307,7 @@ Value lxNewThread(int argCount, Value *args) {
         return OBJ_VAL(threadInst);
     } else {
         acquireGVL();
+        vm.numLivingThreads--;
         THREAD_DEBUG(2, "Error making new thread, throwing\n");
         // TODO: throw lxThreadErrClass
         throwErrorFmt(lxErrClass, "Error creating new thread");
-- 
2.43.0


From a1dd2ad9fe91d0e238ca7ad59a0b6f6a52aa6f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 17/60] fix: check script-supplied arguments before unboxing
 them (String#index, Map#merge, File, Socket, Binding, Iterator, IO.select)

---
 binding.c |  1 +
 file.c    | 34 +++++++++++++++++++---------------
 io.c      |  1 +
 map.c     | 11 +++++++----
 runtime.c |  9 +++++----
 socket.c  | 13 +++++++++----
 string.c  |  1 +
 7 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/binding.c b/binding.c
index 289937a..694a378 100644
--- a/binding.c
+++ b/binding.c
@@ -150,6 +150,7 @@ static Value lxBindingEval(int argCount, Value *args) {
     Value self = args[0];
     LxBinding *binding = getBinding(self);
     Value src = args[1];
+    CHECK_ARG_IS_A(src, lxStringClass, 1);
     char *csrc = VAL_TO_STRING(src)->chars;
     if (strlen(csrc) == 0) {
         return NIL_VAL;
diff --git a/file.c b/file.c
index 19ecce2..ee4990e 100644
--- a/file.c
+++ b/file.c
@@ -251,9 +251,10 @@ static Value lxFileStaticJoin(int argCount, Value *args) {
         lastPart = true;
       }
       Value part = args[argIdx];
+      CHECK_ARG_IS_A(part, lxStringClass, argIdx);
       char *partStr = AS_CSTRING(part);
       pushCString(pathBuf, partStr, strlen(partStr));
-      if (!lastPart && partStr[strlen(partStr)-1] != DIR_SEPARATOR_CHR) {
+      if (!lastPart && partStr[0] != '\0' && partStr[strlen(partStr)-1] != DIR_SEPARATOR_CHR) {
         pushCString(pathBuf, DIR_SEPARATOR_STR, 1);
       }
       argIdx++;
@@ -276,6 +277,7 @@ static ObjString *getcwdStr(void) {
 static Value lxFileStaticExpandPath(int argCount, Value *args) {
     CHECK_ARITY("File.expandPath", 2, 3, argCount);
     Value path = args[1];
+    CHECK_ARG_IS_A(path, lxStringClass, 1);
     char *pathStr = AS_CSTRING(path);
     ObjString *buf = emptyString();
     bool isAbs = pathStr[0] == DIR_SEPARATOR_CHR;
@@ -682,6 +684,7 @@ static Value lxFileStatInit(int argCount, Value *args) {
     Value path = args[1];
     bool dolstat = false;
     if (argCount == 3) {
+      CHECK_ARG_BUILTIN_TYPE(args[2], IS_BOOL_FUNC, "bool", 2);
       dolstat = AS_BOOL(args[2]);
     }
     if (!IS_A_STRING(path)) {
@@ -711,52 +714,53 @@ static Value lxFileStatInit(int argCount, Value *args) {
     return self;
 }
 
+static int fileStatMode(Value self) {
+  Value modeVal = propertyGet(AS_INSTANCE(self), INTERN("mode"));
+  if (!IS_NUMBER(modeVal)) { // FileStat#init wasn't called, or the property was changed
+    throwErrorFmt(lxTypeErrClass, "FileStat has no mode");
+  }
+  return (int)AS_NUMBER(modeVal);
+}
+
 static Value lxFileStatIsSymlink(int argCount, Value *args) {
   Value self = args[0];
-  Value modeVal = propertyGet(AS_INSTANCE(self), INTERN("mode"));
-  int mode = AS_NUMBER(modeVal);
+  int mode = fileStatMode(self);
   return BOOL_VAL(S_ISLNK(mode));
 }
 
 static Value lxFileStatIsReg(int argCount, Value *args) {
   Value self = args[0];
-  Value modeVal = propertyGet(AS_INSTANCE(self), INTERN("mode"));
-  int mode = AS_NUMBER(modeVal);
+  int mode = fileStatMode(self);
   return BOOL_VAL(S_ISREG(mode));
 }
 
 static Value lxFileStatIsSock(int argCount, Value *args) {
   Value self = args[0];
-  Value modeVal = propertyGet(AS_INSTANCE(self), INTERN("mode"));
-  int mode = AS_NUMBER(modeVal);
+  int mode = fileStatMode(self);
   return BOOL_VAL(S_ISSOCK(mode));
 }
 
 static Value lxFileStatIsBlock(int argCount, Value *args) {
   Value self = args[0];
-  Value modeVal = propertyGet(AS_INSTANCE(self), INTERN("mode"));
-  int mode = AS_NUMBER(modeVal);
+  int mode = fileStatMode(self);
   return BOOL_VAL(S_ISBLK(mode));
 }
 
 static Value lxFileStatIsDir(int argCount, Value *args) {
   Value self = args[0];
-  Value modeVal = propertyGet(AS_INSTANCE(self), INTERN("mode"));
-  int mode = AS_NUMBER(modeVal);
+  int mode = fileStatMode(self);
   return BOOL_VAL(S_ISDIR(mode));
 }
 
 static Value lxFileStatIsChar(int argCount, Value *args) {
   Value self = args[0];
-  Value modeVal = propertyGet(AS_INSTANCE(self), INTERN("mode"));
-  int mode = AS_NUMBER(modeVal);
+  int mode = fileStatMode(self);
   return BOOL_VAL(S_ISCHR(mode));
 }
 
 static Value lxFileStatIsFifo(int argCount, Value *args) {
   Value self = args[0];
-  Value modeVal = propertyGet(AS_INSTANCE(self), INTERN("mode"));
-  int mode = AS_NUMBER(modeVal);
+  int mode = fileStatMode(self);
   return BOOL_VAL(S_ISFIFO(mode));
 }
 
diff --git a/io.c b/io.c
index f0c75b4..012acea 100644
--- a/io.c
+++ b/io.c
@@ -356,6 +356,7 @@ static Value lxIOSelectStatic(int argCount, Value *args) {
         ValueArray *ary = valueArrays[i];
         Value io; int valIdx = 0;
         VALARRAY_FOREACH(ary, io, valIdx) {
+            if (!IS_A(io, lxIOClass)) continue; // changed by another thread
             LxFile *f = FILE_GETHIDDEN(io);
             if (FD_ISSET(f->fd, &fds[i])) {
                 arrayPush(ioArrays[i], io);
diff --git a/map.c b/map.c
index 47088ad..c944342 100644
--- a/map.c
+++ b/map.c
@@ -250,15 +250,18 @@ static Value lxMapMerge(int argCount, Value *args) {
     CHECK_ARITY("Map#merge", 2, 2, argCount);
     Value self = args[0];
     Value other = args[1];
-    Table *otherMap = AS_MAP(other)->table;
     CHECK_ARG_IS_A(other, lxMapClass, 1);
     Value ret = callMethod(AS_OBJ(self), INTERN("dup"), 0, NULL, NULL);
+    if (!IS_A_MAP(ret)) {
+        throwErrorFmt(lxTypeErrClass, "dup() of a Map must return a Map");
+    }
+    Table *otherMap = AS_MAP(other)->table;
     Table *retMap = AS_MAP(ret)->table;
     Entry e; int idx = 0;
     TABLE_FOREACH(otherMap, e, idx, {
         tableSet(retMap, e.key, e.value);
-        OBJ_WRITE(other, e.key);
-        OBJ_WRITE(other, e.value);
+        OBJ_WRITE(ret, e.key);
+        OBJ_WRITE(ret, e.value);
     });
     return ret;
 }
@@ -268,9 +271,9 @@ static Value lxMapMergeWith(int argCount, Value *args) {
     CHECK_ARITY("Map#mergeWith", 2, 2, argCount);
     Value self = args[0];
     Value other = args[1];
+    CHECK_ARG_IS_A(other, lxMapClass, 1);
     Table *myMap = AS_MAP(self)->table;
     Table *otherMap = AS_MAP(other)->table;
-    CHECK_ARG_IS_A(other, lxMapClass, 1);
     if (isFrozen(AS_OBJ(self))) {
         throwErrorFmt(lxErrClass, "%s", "Map is frozen, cannot modify");
     }
diff --git a/runtime.c b/runtime.c
index b1ff811..2a7da38 100644
--- a/runtime.c
+++ b/runtime.c
@@ -224,7 +224,7 @@ Value lxTypeof(int argCount, Value *args) {
 
 Value lxClassof(int argCount, Value *args) {
     CHECK_ARITY("classof", 1, 1, argCount);
-    if (IS_OBJ(*args)) {
+    if (IS_INSTANCE_LIKE(*args)) {
         return OBJ_VAL(AS_INSTANCE(*args)->klass);
     } else {
         return NIL_VAL;
@@ -1205,6 +1205,9 @@ Value lxIteratorInit(int argCount, Value *args) {
     Value self = args[0];
     Value iterable = args[1];
     ObjInstance *selfObj = AS_INSTANCE(self);
+    if (!IS_AN_ARRAY(iterable) && !IS_A_MAP(iterable) && !IS_INSTANCE(iterable)) {
+        throwErrorFmt(lxTypeErrClass, "Expected Array/Map/Instance");
+    }
     Iterator *iter = ALLOCATE(Iterator, 1);
     iter->index = -1;
     iter->lastRealIndex = -1;
@@ -1215,10 +1218,8 @@ Value lxIteratorInit(int argCount, Value *args) {
         iter->flags |= FLAG_ITER_ARRAY;
     } else if (IS_A_MAP(iterable)) {
         iter->flags |= FLAG_ITER_MAP;
-    } else if (IS_INSTANCE(iterable)) {
-        iter->flags |= FLAG_ITER_INSTANCE;
     } else {
-        throwErrorFmt(lxTypeErrClass, "Expected Array/Map/Instance");
+        iter->flags |= FLAG_ITER_INSTANCE;
     }
     ObjInternal *internalIter = newInternalObject(false,
         iter, sizeof(Iterator), markInternalIter, freeInternalIter,
diff --git a/socket.c b/socket.c
index 6c26644..580f189 100644
--- a/socket.c
+++ b/socket.c
@@ -94,19 +94,22 @@ static Value lxSocketConnect(int argCount, Value *args) {
     LxSocket *sock = f->sock;
     int res = 0;
     if (sock->domain == AF_INET) {
+      if (IS_NIL(port)) {
+        throwArgErrorFmt("%s", "Socket#connect needs a port");
+      }
       struct sockaddr_in in_serv_addr;
       in_serv_addr.sin_family = sock->domain;
       in_serv_addr.sin_port = htons(AS_NUMBER(port));
       // Convert IPv4 and IPv6 addresses from text to binary form
       if (inet_pton(sock->domain, AS_CSTRING(addr), &in_serv_addr.sin_addr) <= 0) {
         throwErrorFmt(lxArgErrClass, "Invalid address to Socket#connect: %s", strerror(errno));
-        return -1;
       }
       releaseGVL(THREAD_STOPPED);
       res = connect(f->fd, (struct sockaddr *)&in_serv_addr, sizeof(in_serv_addr));
       acquireGVL();
     } else if (sock->domain == AF_UNIX) {
       struct sockaddr_un un_serv_addr;
+      memset(&un_serv_addr, 0, sizeof(un_serv_addr));
       un_serv_addr.sun_family = AF_UNIX;
       strncpy(un_serv_addr.sun_path, AS_CSTRING(addr), sizeof(un_serv_addr.sun_path)-1);
       releaseGVL(THREAD_STOPPED);
@@ -140,6 +143,7 @@ static Value lxSocketBind(int argCount, Value *args) {
     struct sockaddr *my_addr;
     if (sock->domain == AF_UNIX) {
       struct sockaddr_un my_un_addr;
+      memset(&my_un_addr, 0, sizeof(my_un_addr));
       Value path = args[1];
       CHECK_ARG_IS_A(path, lxStringClass, 1);
       my_un_addr.sun_family = AF_UNIX;
@@ -157,6 +161,7 @@ static Value lxSocketBind(int argCount, Value *args) {
       return BOOL_VAL(true);
     } else {
       Value addr = args[1];
+      CHECK_ARG_IS_A(addr, lxStringClass, 1);
       int port = 80;
       if (argCount == 3) {
         Value portVal = args[2];
@@ -339,7 +344,7 @@ static Value lxAddrInfoStaticGetAddrInfo(int argCount, Value *args) {
   free(node);
   free(service);
   if (st != 0) {
-    throwErrorFmt(sysErrClass(errno), "error in getaddrinfo(2): %s", strerror(errno));
+    throwErrorFmt(st == EAI_SYSTEM ? sysErrClass(errno) : lxErrClass, "error in getaddrinfo(2): %s", gai_strerror(st));
   }
 
   // When given a numbered port, sin_port is not set correctly
@@ -348,14 +353,14 @@ static Value lxAddrInfoStaticGetAddrInfo(int argCount, Value *args) {
     if (addr->ai_family == AF_INET6) {
       // START WORKAROUND
       struct sockaddr_in6 *sockaddr_v6 = (struct sockaddr_in6 *)addr->ai_addr;
-      if (sockaddr_v6->sin6_port == 0) {
+      if (sockaddr_v6->sin6_port == 0 && IS_NUMBER(serviceVal)) {
         sockaddr_v6->sin6_port = htons(AS_NUMBER(serviceVal));
       }
       // END WORKAROUND
     } else if (addr->ai_family == AF_INET) {
       // START WORKAROUND
       struct sockaddr_in *sockadr = (struct sockaddr_in *)addr->ai_addr;
-      if (sockadr->sin_port == 0) {
+      if (sockadr->sin_port == 0 && IS_NUMBER(serviceVal)) {
         sockadr->sin_port = htons(AS_NUMBER(serviceVal));
       }
       // END WORKAROUND
diff --git a/string.c b/string.c
index 6b6ac1a..c5bef8a 100644
--- a/string.c
+++ b/string.c
@@ -342,6 +342,7 @@ static Value lxStringIndex(int argCount, Value *args) {
     CHECK_ARITY("String#index", 2, 2, argCount);
     Value self = args[0];
     Value needleVal = args[1];
+    CHECK_ARG_IS_A(needleVal, lxStringClass, 1);
     char *hay = AS_CSTRING(self);
     char *needle = AS_CSTRING(needleVal);
     char *found = strstr(hay, needle);
-- 
2.43.0


From e4a1beb282f2b5af202da7b14cce329f89e7368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:09 +0000
Subject: [PATCH 18/60] fix: a constant path or catch clause naming a value
 that isn't a class no longer crashes

---
 runtime.c | 8 +++++---
 vm.c      | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime.c b/runtime.c
index 2a7da38..ce1fea9 100644
--- a/runtime.c
+++ b/runtime.c
@@ -156,14 +156,16 @@ foundBase:
         ObjString *partName = constantQualifiedPart(origName, partsProcessed+1);
         /*fprintf(stderr, "Qualified part (partName): \"%s\"\n", partName->chars);*/
         ASSERT(partName);
-        if (tableGet(CLASSINFO(TO_CLASS(baseConstant))->constants, OBJ_VAL(partName), valOut)) {
-            baseConstant = AS_OBJ(*valOut);
+        // NOTE: other values have no constants
+        if (!IS_CLASS(*valOut) && !IS_MODULE(*valOut)) {
+            return false;
+        }
+        if (tableGet(CLASSINFO(AS_CLASS(*valOut))->constants, OBJ_VAL(partName), valOut)) {
             partsProcessed++;
         } else {
             return false;
         }
     }
-    ASSERT(baseConstant);
     return partsProcessed == qualifiedParts;
 }
 
diff --git a/vm.c b/vm.c
index 89f8ba1..ffe62f3 100644
--- a/vm.c
+++ b/vm.c
@@ -2053,6 +2053,10 @@ static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **r
             row = row->next;
             continue;
         }
+        if (!IS_CLASS(klassFound) && !IS_MODULE(klassFound)) { // constant isn't a class
+            row = row->next;
+            continue;
+        }
         VM_DEBUG(2, "a class found for row: %s", classNameFull(AS_CLASS(klassFound))->chars);
         if (IS_SUBCLASS(klass, AS_CLASS(klassFound))) {
             VM_DEBUG(2, "good class found for row");
-- 
2.43.0


From 8e22c47298d2affea153325e6c4aaa83e4b31639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 19/60] fix: full GC keeps free slots, survives finalizer
 errors and keeps objects created by finalizers; hashKey errors aren't
 swallowed

---
 memory.c | 153 ++++++++++++++++++++++++++-----------------------------
 thread.c |   8 +--
 2 files changed, 77 insertions(+), 84 deletions(-)

diff --git a/memory.c b/memory.c
index 2b235f6..f42d5cd 100644
--- a/memory.c
+++ b/memory.c
@@ -1221,17 +1221,30 @@ static bool hasFinalizer(Obj *obj) {
     return instance->finalizerFunc != NULL;
 }
 
+static void *callFinalizerProtected(void *arg) {
+    ObjInstance *instance = (ObjInstance*)arg;
+    Value instanceVal = OBJ_VAL(instance);
+    Value func = OBJ_VAL(instance->finalizerFunc);
+    instance->finalizerFunc = NULL;
+    activeFinalizers--;
+    callFunctionValue(func, 1, &instanceVal);
+    return NULL;
+}
+
+// NOTE: an error thrown by the finalizer ends only the finalizer
 static void callFinalizer(Obj *obj) {
-    ObjInstance *instance = (ObjInstance*)obj;
-    Value instanceVal = OBJ_VAL(obj);
     GC_TRACE_DEBUG(3, "Calling finalizer");
+    bool prevInGC = inGC;
+    bool prevDontGC = dontGC;
     inGC = false; // so we can allocate objects in the function
     dontGC = true;
-    callFunctionValue(OBJ_VAL(instance->finalizerFunc), 1, &instanceVal);
-    inGC = true;
-    dontGC = false;
-    instance->finalizerFunc = NULL;
-    activeFinalizers--;
+    ErrTag status = TAG_NONE;
+    vm_protect(callFinalizerProtected, obj, NULL, &status);
+    if (status == TAG_RAISE) {
+        unsetErrInfo();
+    }
+    inGC = prevInGC;
+    dontGC = prevDontGC;
 }
 
 // Full collection single-phase mark and sweep
@@ -1456,27 +1469,38 @@ void collectGarbage(void) {
     }
     GC_TRACE_DEBUG(3, "Done blackening references");
 
+    ObjAny *p, *pend;
+
+    // Unmarked objects with finalizers are kept during this run, along with
+    // everything they refer to. Their finalizers are called when the run is
+    // over, and they're freed in the next run if they're still unreachable.
+    vec_void_t v_finalize;
+    vec_init(&v_finalize);
+    for (int i = 0; i < heapsUsed && activeFinalizers > 0; i++) {
+        for (p = heapList[i], pend = p + HEAP_SLOTS; p < pend; p++) {
+            Obj *obj = (Obj*)p;
+            if (obj->type == OBJ_T_NONE || OBJ_IS_DARK(obj) || OBJ_IS_HIDDEN(obj)) continue;
+            if (hasFinalizer(obj)) vec_push(&v_finalize, obj);
+        }
+    }
+    for (int i = 0; i < v_finalize.length; i++) {
+        grayObject(v_finalize.data[i]);
+    }
+    while (vm.grayCount > 0) {
+        Obj *marked = vm.grayStack[--vm.grayCount];
+        blackenObject(marked);
+    }
+
     GC_TRACE_DEBUG(2, "Begin FREE process");
     // Collect the white (unmarked) objects.
-    int iter = 0; (void)iter;
     unsigned long numObjectsFreed = 0;
     unsigned long numObjectsKept = 0;
     unsigned long numObjectsHiddenNotMarked = 0; // got saved by NoGC flag
+    unsigned long numSlotsFree = 0;
 
-    ObjAny *p, *pend;
-
-    int phase = 1; // call finalizers in phase 1
-    vec_void_t vFreeHeaps;
-    vec_init(&vFreeHeaps);
-    freeList = NULL; // build up a new free list in phase 2
-    if (activeFinalizers == 0) {
-        phase = 2;
-    }
-    bool hasOtherFreeishHeap = false;
-freeLoop:
+    freeList = NULL; // build up a new free list
     for (int i = 0; i < heapsUsed; i++) {
-        ObjAny *newFreeList = NULL;
-        if (phase == 2) newFreeList = freeList;
+        ObjAny *newFreeList = freeList;
         p = heapList[i];
         if (UNLIKELY(!p)) {
             fprintf(stderr, "NULL heap page? %p, i=%d, heapsUsed: %d, heapListSize: %d\n", p, i, heapsUsed, heapListSize);
@@ -1484,83 +1508,41 @@ freeLoop:
         }
         pend = p + HEAP_SLOTS;
 
-        int objectsFree = 0;
         while (p < pend) {
             Obj *obj = (Obj*)p;
             if (obj->type == OBJ_T_NONE) {
-                if (phase == 2) objectsFree++;
+                obj->nextFree = newFreeList;
+                newFreeList = p;
+                numSlotsFree++;
                 p++;
                 continue;
             }
 
             int rootedCStack = -1;
             vec_find(&v_stackObjs, obj, rootedCStack);
-            if (!OBJ_IS_DARK(obj) && !OBJ_IS_HIDDEN(obj)) {
-                if (phase == 2) { // phase 2, reclaim unmarked objects
-                    if (rootedCStack == -1) {
-                        numObjectsFreed++;
-                        obj->nextFree = newFreeList;
-                        freeObject(obj);
-                        newFreeList = p;
-                        numObjectsFreed++;
-                    } else {
-                        GC_TRACE_DEBUG(4, "Skipped freeing stack object: p=%p", obj);
-                    }
-                } else { // phase 1, call finalizers
-                    ASSERT(phase == 1);
-                    if (rootedCStack == -1) {
-                        if (UNLIKELY(hasFinalizer(obj))) {
-                            ASSERT(((ObjInstance*) obj)->finalizerFunc->type != OBJ_T_NONE);
-                            callFinalizer(obj);
-                            if (activeFinalizers == 0) {
-                                phase = 2; i = 0;
-                                goto freeLoop;
-                            }
-                        }
-                    }
+            if (!OBJ_IS_DARK(obj) && !OBJ_IS_HIDDEN(obj)) { // reclaim unmarked objects
+                if (rootedCStack == -1) {
+                    obj->nextFree = newFreeList;
+                    freeObject(obj);
+                    newFreeList = p;
+                    numObjectsFreed++;
+                    numSlotsFree++;
+                } else {
+                    GC_TRACE_DEBUG(4, "Skipped freeing stack object: p=%p", obj);
                 }
             } else if (OBJ_IS_HIDDEN(obj) && !OBJ_IS_DARK(obj)) { // keep
-                if (phase == 2) {
-                    numObjectsHiddenNotMarked++;
-                }
+                numObjectsHiddenNotMarked++;
             } else { // unmark for next run
-                if (phase == 2) {
-                    GCPromoteOnce(obj);
-                    OBJ_UNSET_DARK(obj);
-                    numObjectsKept++;
-                }
+                GCPromoteOnce(obj);
+                OBJ_UNSET_DARK(obj);
+                numObjectsKept++;
             }
             p++;
         }
-
-        if (phase == 2) {
-            freeList = newFreeList;
-            if (objectsFree == HEAP_SLOTS) {
-                vec_push(&vFreeHeaps, heapList[i]);
-            } else if (objectsFree >= (HEAP_SLOTS/2)) {
-                hasOtherFreeishHeap = true;
-            }
-        }
-
+        freeList = newFreeList;
     }
-    if (phase == 1) {
-        phase = 2; i = 0;
-        freeList = NULL;
-        goto freeLoop;
-    }
-
-    bool freedHeap = false;
-    (void)hasOtherFreeishHeap;
-    /*if (vFreeHeaps.length > 1 && hasOtherFreeishHeap) {*/
-        /*ObjAny *heap; int heapIdx = 0;*/
-        /*vec_foreach(&vFreeHeaps, heap, heapIdx) {*/
-            /*ASSERT(heap);*/
-            /*freeHeap(heap);*/
-        /*}*/
-        /*freedHeap = true;*/
-    /*}*/
 
-    if (!freedHeap && numObjectsFreed < FREE_MIN) {
+    if (numSlotsFree < FREE_MIN) {
         addHeap();
     }
 
@@ -1581,6 +1563,15 @@ freeLoop:
     inGC = false;
     inFullGC = false;
     vm.grayCount = 0;
+
+    for (int i = 0; i < v_finalize.length; i++) {
+        hideFromGC(v_finalize.data[i]);
+    }
+    for (int i = 0; i < v_finalize.length; i++) {
+        callFinalizer(v_finalize.data[i]);
+        unhideFromGC(v_finalize.data[i]);
+    }
+    vec_deinit(&v_finalize);
 }
 
 // Force free all objects, regardless of noGC field on the object.
diff --git a/thread.c b/thread.c
index 5de32ec..84feff4 100644
--- a/thread.c
+++ b/thread.c
@@ -689,11 +689,13 @@ Value execStopRecursion(stopRecursionFn fn, Value obj, Value arg) {
         removeSeenSet(p.seenSet, AS_OBJ(p.obj));
     }
     if (status != TAG_NONE) {
+        ErrTagInfo *errInfo = THREAD()->errInfo;
+        if (!IS_A(errInfo->caughtError, lxRecursionErrClass)) {
+            rethrowErrInfo(errInfo);
+        }
         popErrInfo();
-        return result;
-    } else {
-        return result;
     }
+    return result;
 }
 
 void Init_ThreadClass() {
-- 
2.43.0


From fcc9c14d506ef264944a9c3fe52349c9ed073c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:53 +0000
Subject: [PATCH 20/60] fix: failing system calls in Process, Dir and IO are
 reported, with their own errno

---
 dir.c     | 15 ++++++++++-----
 io.c      |  4 ++--
 process.c | 13 +++++++++----
 vm.c      |  5 +++++
 4 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/dir.c b/dir.c
index 0fa5ab2..a1e8260 100644
--- a/dir.c
+++ b/dir.c
@@ -138,8 +138,8 @@ static Value lxDirGlobStatic(int argCount, Value *args) {
         return ary;
     } else if (res != 0) {
         globfree(&globBuf);
-        // TODO: raise?
-        return ary;
+        throwErrorFmt(lxErrClass, "Error during glob '%s': %s", AS_CSTRING(globStrVal),
+                res == GLOB_NOSPACE ? "out of memory" : "read error");
     }
     int i = 0;
     char *path = NULL;
@@ -158,9 +158,14 @@ static Value lxDirChdirStatic(int argCount, Value *args) {
     CHECK_ARG_IS_A(newDir, lxStringClass, 1);
     char *oldDir = NULL;
     char buf[4096];
-    oldDir = getcwd(buf, 4096);
-    char *dirStr = AS_STRING(newDir)->chars;
     int last = errno;
+    char *dirStr = AS_STRING(newDir)->chars;
+    bool hasBlock = blockGiven();
+    if (hasBlock && (oldDir = getcwd(buf, 4096)) == NULL) {
+        int err = errno;
+        errno = last;
+        throwErrorFmt(sysErrClass(err), "Couldn't get current directory to change back to: %s", strerror(err));
+    }
     int res = chdir(dirStr);
     if (res != 0) {
         int err = errno;
@@ -170,7 +175,7 @@ static Value lxDirChdirStatic(int argCount, Value *args) {
                 strerror(err));
     }
     Value ret = newDir;
-    if (blockGiven()) {
+    if (hasBlock) {
         Value err = NIL_VAL;
         ret = yieldBlockCatch(0, NULL, &err);
         int res = 0;
diff --git a/io.c b/io.c
index 012acea..899a9ec 100644
--- a/io.c
+++ b/io.c
@@ -95,8 +95,8 @@ ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
     char fileReadBuf[READBUF_SZ];
     size_t maxRead = untilEOF ? READBUF_SZ-1 : (numBytes > (READBUF_SZ-1) ? (READBUF_SZ-1) : numBytes);
     int last = errno;
-    if (nonBlock) {
-      fd_set_nonblock(fd);
+    if (nonBlock && fd_set_nonblock(fd) == -1) {
+      throwIOSyserr(errno, last, "fcntl");
     }
     int err = 0;
     while (true) {
diff --git a/process.c b/process.c
index a69ceb8..a9ee625 100644
--- a/process.c
+++ b/process.c
@@ -162,8 +162,8 @@ static Value lxSystemStatic(int argCount, Value *args) {
     releaseGVL(THREAD_STOPPED);
     int status = system(cmdStr); // man 3 system
     acquireGVL();
-    int exitStatus = WEXITSTATUS(status);
-    if (exitStatus != 0) {
+    // ended by a signal, or could not be run: not successful
+    if (status == -1 || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
         return BOOL_VAL(false);
     }
     return BOOL_VAL(true);
@@ -195,6 +195,7 @@ static Value lxProcessSignalStatic(int argCount, Value *args) {
         throwErrorFmt(lxErrClass, "signo must be less than %d", NSIG);
     }
     bool toSelf = (pid == (int)getpid());
+    int res = 0;
     if (toSelf) {
         switch (signo) {
             // synchronous signals
@@ -204,7 +205,7 @@ static Value lxProcessSignalStatic(int argCount, Value *args) {
             case SIGILL:
             case SIGFPE:
             case SIGSTOP: {
-                kill((pid_t)pid, signo); // man 2 kill
+                res = kill((pid_t)pid, signo); // man 2 kill
                 break;
             }
             // async signals
@@ -214,7 +215,11 @@ static Value lxProcessSignalStatic(int argCount, Value *args) {
                 break;
         }
     } else {
-        kill((pid_t)pid, signo); // man 2 kill
+        res = kill((pid_t)pid, signo); // man 2 kill
+    }
+    if (res != 0) {
+        int err = errno;
+        throwErrorFmt(sysErrClass(err), "Error signaling process %d: %s", pid, strerror(err));
     }
     return NIL_VAL;
 }
diff --git a/vm.c b/vm.c
index ffe62f3..7eaa8eb 100644
--- a/vm.c
+++ b/vm.c
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <setjmp.h>
 #include <signal.h>
+#include <errno.h>
 #include <unistd.h>
 #include "common.h"
 #include "vm.h"
@@ -4010,6 +4011,7 @@ NORETURN void _stopVM(int status) {
 }
 
 void acquireGVL(void) {
+    int lastErrno = errno; // callers look at it after a system call made without the GVL
     pthread_mutex_lock(&vm.GVLock);
     LxThread *th = vm.curThread;
     // this is because a releaseGVL() call may not have actually released the
@@ -4017,6 +4019,7 @@ void acquireGVL(void) {
     if (th && th->mutexCounter > 0 && GVLOwner == th->tid && th->tid == pthread_self()) {
         THREAD_DEBUG(1, "Thread %lu skipping acquire of GVL due to held mutex\n", pthread_self());
         pthread_mutex_unlock(&vm.GVLock);
+        errno = lastErrno;
         return;
     }
     // This happens when an interrupt occurs while the GVL was released
@@ -4027,6 +4030,7 @@ void acquireGVL(void) {
     if (th && GVLOwner == th->tid && th->tid == pthread_self()) {
         THREAD_DEBUG(1, "Thread %lu skipping acquire of GVL due to already being held\n", pthread_self());
         pthread_mutex_unlock(&vm.GVLock);
+        errno = lastErrno;
         return;
     }
     vm.GVLWaiters++;
@@ -4050,6 +4054,7 @@ void acquireGVL(void) {
         throwError(err);
     }
     VM_CHECK_INTS(vm.curThread);
+    errno = lastErrno;
 }
 
 void releaseGVL(ThreadStatus thStatus) {
-- 
2.43.0


From 6234fb515be7f9569ae94b7b2e6755a533dbd4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 21/60] fix: IO#readline raises when the read fails

---
 io.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io.c b/io.c
index 899a9ec..20aaff7 100644
--- a/io.c
+++ b/io.c
@@ -145,6 +145,9 @@ static ObjString *IOReadlineFd(int fd, size_t maxLen) {
     line = fgets(fileReadBuf, maxLen, file);
     acquireGVL();
     if (line == NULL) {
+        if (ferror(file)) {
+            throwIOSyserr(errno, last, "read");
+        }
         errno = last;
         return copyString("", 0, NEWOBJ_FLAG_NONE);
     }
-- 
2.43.0


From cc5a9a838320f234f4e050eb6db7b56bbc09fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 22/60] fix: init, []= and padRight respect frozen objects and
 copy shared contents before changing them

---
 array.c   | 5 +++++
 map.c     | 6 ++++++
 runtime.c | 3 +++
 string.c  | 7 +++++++
 4 files changed, 21 insertions(+)

diff --git a/array.c b/array.c
index 80f9f84..0dc9d25 100644
--- a/array.c
+++ b/array.c
@@ -16,7 +16,11 @@ static Value lxArrayInit(int argCount, Value *args) {
     Value self = *args;
     DBG_ASSERT(IS_AN_ARRAY(self));
     ObjArray *selfObj = AS_ARRAY(self);
+    if (isFrozen((Obj*)selfObj)) {
+        throwErrorFmt(lxErrClass, "%s", "Array is frozen, cannot modify");
+    }
     ValueArray *ary = &selfObj->valAry;
+    ARRAY_UNSET_SHARED(selfObj);
     int capa = argCount-1;
     if (capa > 1) {
         initValueArrayWithCapa(ary, capa);
@@ -256,6 +260,7 @@ static Value lxArrayOpIndexSet(int argCount, Value *args) {
     if (isFrozen((Obj*)selfObj)) {
         throwErrorFmt(lxErrClass, "%s", "Array is frozen, cannot modify");
     }
+    arrayDedup(selfObj);
     ValueArray *ary = &selfObj->valAry;
     int idx = (int)AS_NUMBER(num);
     if (idx < 0) {
diff --git a/map.c b/map.c
index c944342..1d8bb33 100644
--- a/map.c
+++ b/map.c
@@ -24,6 +24,9 @@ static Value lxMapInit(int argCount, Value *args) {
     if (argCount == 1) {
         return self;
     }
+    if (isFrozen((Obj*)selfObj)) {
+        throwErrorFmt(lxErrClass, "%s", "Map is frozen, cannot modify");
+    }
 
     if (argCount == 2) {
         Value ary = args[1];
@@ -255,6 +258,9 @@ static Value lxMapMerge(int argCount, Value *args) {
     if (!IS_A_MAP(ret)) {
         throwErrorFmt(lxTypeErrClass, "dup() of a Map must return a Map");
     }
+    if (isFrozen(AS_OBJ(ret))) {
+        throwErrorFmt(lxErrClass, "%s", "Map is frozen, cannot modify");
+    }
     Table *otherMap = AS_MAP(other)->table;
     Table *retMap = AS_MAP(ret)->table;
     Entry e; int idx = 0;
diff --git a/runtime.c b/runtime.c
index ce1fea9..2988292 100644
--- a/runtime.c
+++ b/runtime.c
@@ -1280,6 +1280,9 @@ Value lxErrInit(int argCount, Value *args) {
     CHECK_ARITY("Error#init", 1, 2, argCount);
     callSuper(0, NULL, NULL);
     Value self = args[0];
+    if (isFrozen(AS_OBJ(self))) {
+        throwErrorFmt(lxErrClass, "%s", "Error is frozen, cannot modify");
+    }
     Value msg;
     if (argCount == 2) {
         msg = args[1];
diff --git a/string.c b/string.c
index c5bef8a..3cb732b 100644
--- a/string.c
+++ b/string.c
@@ -18,6 +18,9 @@ static Value lxStringInit(int argCount, Value *args) {
     Value self = *args;
     ObjString *selfStr = AS_STRING(self);
     ObjString *otherStr = NULL;
+    if (isFrozen((Obj*)selfStr)) {
+        throwErrorFmt(lxErrClass, "%s", "String is frozen, cannot modify");
+    }
     if (argCount == 1) {
         otherStr = INTERN("");
     } else {
@@ -256,6 +259,10 @@ static Value lxStringPadRight(int argCount, Value *args) {
     if (newLen <= oldLen) {
       return self;
     }
+    if (isFrozen((Obj*)selfStr)) {
+        throwErrorFmt(lxErrClass, "%s", "String is frozen, cannot modify");
+    }
+    dedupString(selfStr);
     int bytesToPad = newLen - oldLen;
     while (bytesToPad > 0) {
       pushCString(selfStr, padStr->chars, 1);
-- 
2.43.0


From 67a97aa3fe9be7c7aac5b05a2d000ad10c3dfa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 23/60] fix: strings with the same hash but different
 characters aren't equal

---
 object.c | 4 ++--
 table.c  | 3 ---
 value.c  | 5 +----
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/object.c b/object.c
index dc1f4ad..44923b8 100644
--- a/object.c
+++ b/object.c
@@ -157,8 +157,8 @@ void pushString(Value self, Value pushed) {
 bool objStringEquals(ObjString *a, ObjString *b) {
     DBG_ASSERT(a && b);
     if (a->length != b->length) return false;
-    if (a->hash > 0 && b->hash > 0) return a->hash == b->hash;
-    return strcmp(a->chars, b->chars) == 0;
+    if (a->hash > 0 && b->hash > 0 && a->hash != b->hash) return false;
+    return memcmp(a->chars, b->chars, a->length) == 0;
 }
 
 // Copies `chars`, adds them to end of string.
diff --git a/table.c b/table.c
index fd83380..142acd5 100644
--- a/table.c
+++ b/table.c
@@ -203,9 +203,6 @@ ObjString *tableFindString(Table *table, const char* chars, size_t length,
         if (UNLIKELY(IS_UNDEF(entry->key))) return NULL;
         if (IS_STRING(entry->key)) {
             ObjString *stringKey = AS_STRING(entry->key);
-            if (stringKey->hash && stringKey->hash == hash) {
-                return stringKey;
-            }
             if (stringKey->length == length &&
                     memcmp(stringKey->chars, chars, length) == 0) {
                 // We found it.
diff --git a/value.c b/value.c
index 1958653..5c5b831 100644
--- a/value.c
+++ b/value.c
@@ -486,10 +486,7 @@ bool valEqual(Value a, Value b) {
             if (IS_STRING(a) && IS_STRING(b)) {
                 ObjString *aStr = AS_STRING(a);
                 ObjString *bStr = AS_STRING(b);
-                if (aStr->hash && bStr->hash) {
-                    return aStr->hash == bStr->hash;
-                }
-                return aStr->length == bStr->length && strcmp(aStr->chars, bStr->chars) == 0;
+                return objStringEquals(aStr, bStr);
             }
             if (IS_INSTANCE_LIKE(a)) {
                 return AS_BOOL(callMethod(AS_OBJ(a), vm.opEqualsString, 1, &b, NULL));
-- 
2.43.0


From 59ef60030ca8fe4c17ac401c6ea93aec1c599dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:32 +0000
Subject: [PATCH 24/60] fix: adding to the front of an array keeps every
 element

---
 value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.c b/value.c
index 5c5b831..17c2e42 100644
--- a/value.c
+++ b/value.c
@@ -57,7 +57,7 @@ void writeValueArrayBeg(ValueArray *array, Value value) {
 
     Value *dest = array->values+1;
     Value *src = array->values;
-    memmove(dest, src, sizeof(Value));
+    memmove(dest, src, sizeof(Value)*array->count);
     array->values[0] = value;
     array->count++;
 }
-- 
2.43.0


From 6e8f0248de0c67bf34bf2101d9b246193caeae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 25/60] fix: the optimizer doesn't take a closure's upvalue
 words for instructions

---
 chunk.h    |  1 +
 compiler.c | 35 ++++++++++++++++++++++++-----------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/chunk.h b/chunk.h
index 6b4b09a..2ebea0d 100644
--- a/chunk.h
+++ b/chunk.h
@@ -59,6 +59,7 @@ typedef struct NodeLvl {
 #define INSN_FL_NUMBER 1
 #define INSN_FL_BREAK 2
 #define INSN_FL_CONTINUE 4
+#define INSN_FL_DATA 8 // data for the previous instruction
 // single instruction
 typedef struct Insn {
     bytecode_t code;
diff --git a/compiler.c b/compiler.c
index 613d016..c8c95d7 100644
--- a/compiler.c
+++ b/compiler.c
@@ -189,6 +189,12 @@ static Insn *emitOp1(bytecode_t code, bytecode_t op1) {
     in.numOperands = 1;
     return emitInsn(in);
 }
+// A word of data that follows the previous instruction, not an instruction itself
+static Insn *emitData(bytecode_t word) {
+    Insn *in = emitOp0(word);
+    in->flags |= INSN_FL_DATA;
+    return in;
+}
 static Insn *emitOp2(bytecode_t code, bytecode_t op1, bytecode_t op2) {
     Insn in;
     memset(&in, 0, sizeof(Insn));
@@ -386,8 +392,13 @@ static int resolveUpvalue(Compiler *compiler, Token *name) {
     return -1;
 }
 
+static inline bool isData(Insn *in) {
+    return (in->flags & INSN_FL_DATA) != 0;
+}
+
 static bool isBinOp(Insn *in) {
     bytecode_t code = in->code;
+    if (isData(in)) return false;
     switch (code) {
         case OP_ADD:
         case OP_SUBTRACT:
@@ -461,6 +472,7 @@ static void changeConstant(Iseq *seq, bytecode_t constIdx, Value newVal) {
 }
 
 static bool isJump(Insn *in) {
+    if (isData(in)) return false;
     switch (in->code) {
         case OP_JUMP:
         case OP_JUMP_IF_FALSE:
@@ -474,7 +486,11 @@ static bool isJump(Insn *in) {
 }
 
 static bool isLoop(Insn *in) {
-    return in->code == OP_LOOP;
+    return !isData(in) && in->code == OP_LOOP;
+}
+
+static inline bool isBreak(Insn *in) {
+    return !isData(in) && in->code == OP_BREAK;
 }
 
 static inline bool isJumpNextInsn(Insn *in) {
@@ -574,6 +590,7 @@ static int replaceJumpInsn(Iseq *seq, Insn *jumpInsn) {
 }
 
 static bool isConst(Insn *insn) {
+    if (isData(insn)) return false;
     switch (insn->code) {
     case OP_CONSTANT:
     case OP_FALSE:
@@ -611,16 +628,16 @@ static inline bool isJumpIfTrue(Insn *insn) {
 }
 
 static inline bool isPop(Insn *insn) {
-    return insn->code == OP_POP;
+    return !isData(insn) && insn->code == OP_POP;
 }
 
 static inline bool isPopType(Insn *insn) {
-    return insn->code == OP_POP || insn->code == OP_POP_N;
+    return !isData(insn) && (insn->code == OP_POP || insn->code == OP_POP_N);
 }
 
 static inline bool isPopType2(Insn *insn) {
-    return insn->code == OP_POP || insn->code == OP_POP_N ||
-        insn->code == OP_POP_DEBUG;
+    return !isData(insn) && (insn->code == OP_POP || insn->code == OP_POP_N ||
+        insn->code == OP_POP_DEBUG);
 }
 
 static inline bool isJumpTarget(Insn *insn) {
@@ -985,10 +1002,6 @@ static void emitLoop(int loopStart) {
   loopInsn->jumpTo->isLabel = true;
 }
 
-static inline bool isBreak(Insn *in) {
-    return (in->code == OP_BREAK);
-}
-
 static void patchBreak(Insn *br, int offset, Insn *label) {
     br->operands[0] = offset;
     if (label) {
@@ -1678,8 +1691,8 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     ASSERT_MEM(func->upvaluesInfo);
     for (int i = 0; i < func->upvalueCount; i++) {
         if (ftype != FUN_TYPE_BLOCK) {
-            emitOp0(fCompiler.upvalues[i].isLocal ? 1 : 0);
-            emitOp0(fCompiler.upvalues[i].index);
+            emitData(fCompiler.upvalues[i].isLocal ? 1 : 0);
+            emitData(fCompiler.upvalues[i].index);
         }
         func->upvaluesInfo[i] = fCompiler.upvalues[i]; // copy upvalue info
     }
-- 
2.43.0


From a76534f83db666ae36bd18a63377b7bd109bd4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:16 +0000
Subject: [PATCH 26/60] fix: the optimizer keeps break jumps, catch tables and
 variable positions right when it adds or removes words

---
 compiler.c | 182 +++++++++++++++++++++++++----------------------------
 1 file changed, 87 insertions(+), 95 deletions(-)

diff --git a/compiler.c b/compiler.c
index c8c95d7..c530616 100644
--- a/compiler.c
+++ b/compiler.c
@@ -507,66 +507,98 @@ static void patchJumpInsnWithOffset(Insn *jump, int offset) {
     jump->operands[0] += offset;
 }
 
-/* Remove the given instruction. If there's a forward jump to this instruction or
- * to an instruction after it, the jump needs to be patched. If there's a backwards jump
- * to this instruction or to an instruction before it, the jump needs to be patched.
+static inline void shiftPosition(int *pos, int at, int by) {
+    if (*pos > at) *pos += by;
+}
+
+/* The given instruction grows or shrinks by `by` words. Patch every jump, loop and break
+ * across it, and the positions that the catch table, scopes and variables keep.
  */
-static void rmInsnAndPatchJumps(Iseq *seq, Insn *insn) {
+static void shiftPositionsAfter(Iseq *seq, Insn *insn, int by) {
     int insnIdx = iseqInsnIndex(seq, insn);
     ASSERT(insnIdx >= 0);
-    OPT_DEBUG(2, "rmInsnAndPatchLabels insnIdx: %d\n", insnIdx);
+    OPT_DEBUG(2, "shiftPositionsAfter insnIdx: %d\n", insnIdx);
     Insn *in = seq->insns;
-    int idx = 0;
+    int idx = 0, at = 0;
     while (in) {
-        if (in == insn) { // it will be removed at the end of the function
-            in = in->next;
-            idx++;
-            continue;
-        }
-        // jump instruction found before removed instruction, if it jumps
-        // to the removed instruction or after it, then patch the jump
-        if (idx < insnIdx && isJump(in)) {
-            OPT_DEBUG(2, "Found jump at %d", idx);
-            ASSERT(in->jumpTo || in->jumpToPrev);
-            Insn *jumpTo = in->jumpTo;
-            if (!jumpTo) {
-                jumpTo = in->jumpToPrev->next;
-            }
-            ASSERT(jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, jumpTo);
+        if (idx < insnIdx) at += in->numOperands+1;
+        // forward jump to after the instruction
+        if (idx < insnIdx && (isJump(in) || isBreak(in)) && in->jumpTo) {
+            int jumpToIndex = iseqInsnIndex(seq, in->jumpTo);
             ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex >= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next; // TODO: might be last instruction, in which case the jump should be removed
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, -(insn->numOperands+1));
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
+            if (jumpToIndex > insnIdx) {
+                patchJumpInsnWithOffset(in, by);
             }
-        // loop instruction found after removed instruction, if it jumps
-        // to the removed instruction or before it, then patch the loop
+        // backwards jump to the instruction or to before it
         } else if (idx > insnIdx && isLoop(in)) {
-            OPT_DEBUG(2, "Found loop at %d", idx);
             ASSERT(in->jumpTo);
             int jumpToIndex = iseqInsnIndex(seq, in->jumpTo);
             ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
             if (jumpToIndex <= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, -(insn->numOperands+1));
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
+                patchJumpInsnWithOffset(in, by);
             }
         }
         in = in->next;
         idx++;
     }
+    CatchTable *row = seq->catchTbl;
+    while (row) {
+        shiftPosition(&row->ifrom, at, by);
+        shiftPosition(&row->ito, at, by);
+        shiftPosition(&row->itarget, at, by);
+        row = row->next;
+    }
+    ObjFunction *func = currentFunction();
+    Scope *scope = NULL; int i = 0;
+    vec_foreach(&func->scopes, scope, i) {
+        shiftPosition(&scope->bytecode_start, at, by);
+        shiftPosition(&scope->bytecode_end, at, by);
+    }
+    LocalVariable *var = NULL; int j = 0;
+    vec_foreach(&func->variables, var, j) {
+        shiftPosition(&var->bytecode_declare_start, at, by);
+    }
+}
+
+/* Remove the given instruction. Jumps to this instruction go to the next one. */
+static void rmInsnAndPatchJumps(Iseq *seq, Insn *insn) {
+    shiftPositionsAfter(seq, insn, -(insn->numOperands+1));
+    Insn *in = seq->insns;
+    while (in) {
+        if (in->jumpTo == insn) {
+            in->jumpTo = insn->next; // TODO: might be last instruction, in which case the jump should be removed
+        }
+        in = in->next;
+    }
+    if (insn->isLabel && insn->next) {
+        insn->next->isLabel = true;
+    }
     iseqRmInsn(seq, insn);
 }
 
+/* Mark the instructions that are jumped to, now that all of them are there */
+static void resolveLabels(Iseq *seq) {
+    Insn *in = seq->insns;
+    while (in) {
+        if (isJump(in) || isBreak(in)) {
+            if (!in->jumpTo && in->jumpToPrev) {
+                in->jumpTo = in->jumpToPrev->next;
+            }
+            if (in->jumpTo) in->jumpTo->isLabel = true;
+        }
+        in = in->next;
+    }
+    CatchTable *row = seq->catchTbl;
+    while (row) {
+        int at = 0;
+        for (in = seq->insns; in && at < row->itarget; in = in->next) {
+            at += in->numOperands+1;
+        }
+        if (in) in->isLabel = true;
+        row = row->next;
+    }
+}
+
 static int replaceJumpInsn(Iseq *seq, Insn *jumpInsn) {
     switch (jumpInsn->code) {
         case OP_JUMP:
@@ -580,6 +612,8 @@ static int replaceJumpInsn(Iseq *seq, Insn *jumpInsn) {
             }
         case OP_JUMP_IF_FALSE:
             if (!jumpInsn->isLabel) {
+                shiftPositionsAfter(seq, jumpInsn, -jumpInsn->numOperands);
+                seq->wordCount -= jumpInsn->numOperands;
                 jumpInsn->code = OP_POP;
                 jumpInsn->numOperands = 0;
             }
@@ -652,55 +686,7 @@ static void addInsnOperand(Iseq *seq, Insn *insn, bytecode_t operand) {
     insn->operands[insn->numOperands] = operand;
     insn->numOperands+=1;
     seq->wordCount += 1;
-    int insnIdx = iseqInsnIndex(seq, insn);
-    ASSERT(insnIdx >= 0);
-    Insn *in = seq->insns;
-    int idx = 0;
-    while (in) {
-        if (in == insn) {
-            in = in->next;
-            idx++;
-            continue;
-        }
-        // jump instruction found before altered instruction, if it jumps
-        // to the altered instruction or after it, then patch the jump
-        if (idx < insnIdx && isJump(in)) {
-            OPT_DEBUG(2, "Found jump at %d", idx);
-            Insn *jumpTo = in->jumpTo;
-            if (!jumpTo) {
-                jumpTo = in->jumpToPrev->next;
-            }
-            ASSERT(jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex >= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next; // TODO: might be last instruction, in which case the jump should be removed
-                    in->jumpToPrev = NULL;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, 1);
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
-            }
-        } else if (idx > insnIdx && isLoop(in)) {
-            OPT_DEBUG(2, "Found loop at %d", idx);
-            ASSERT(in->jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, in->jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex <= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d\n", in->operands[0]);
-                patchJumpInsnWithOffset(in, 1);
-                OPT_DEBUG(2, "Patched jump, offset after: %d\n", in->operands[0]);
-            }
-        }
-        in = in->next;
-        idx++;
-    }
+    shiftPositionsAfter(seq, insn, 1);
 }
 
 static void optimizeIseq(Iseq *iseq) {
@@ -709,6 +695,7 @@ static void optimizeIseq(Iseq *iseq) {
     Insn *prev = NULL;
     Insn *prevp = NULL;
     int idx = 0;
+    resolveLabels(iseq);
     while (cur) {
         COMP_TRACE("optimize idx %d", idx);
         prev = cur->prev; // can be NULL
@@ -716,7 +703,7 @@ static void optimizeIseq(Iseq *iseq) {
         // constant folding, ex: turn 2+2 into 4
         if (isBinOp(cur)) {
             if (prev && ((prevp = prev->prev) != NULL)) {
-                if (isNumConstOp(prev) && isNumConstOp(prevp)) {
+                if (isNumConstOp(prev) && isNumConstOp(prevp) && !isJumpTarget(prev) && !isJumpTarget(cur)) {
                     COMP_TRACE("constant folding candidate found");
                     Value newVal = foldConstant(iseq, cur, prev, prevp);
                     if (IS_UNDEF(newVal)) { // such as divide by 0
@@ -782,7 +769,7 @@ static void optimizeIseq(Iseq *iseq) {
 
         // 1+1; OP_CONSTANT '2', OP_POP => nothing (unused constant expression)
         if (!compilerOpts.noRemoveUnusedExpressions) {
-            if (isPop(cur) && (prev && noSideEffectsConst(prev))) {
+            if (isPop(cur) && !isJumpTarget(cur) && (prev && noSideEffectsConst(prev))) {
                 Insn *next = cur->next;
                 // OP_BLOCK_CONTINUE takes the popped value from previous pop, so needs it
                 if (!next || next->code != OP_BLOCK_CONTINUE) {
@@ -944,8 +931,11 @@ static void patchJump(Insn *toPatch, int jumpoffset, Insn *jumpTo) {
             jumpTo = currentIseq()->tail;
         }
         jumpoffset = insnOffset(toPatch, jumpTo)+jumpTo->numOperands;
+        // the jump goes to after the given instruction
         if (jumpTo->next == NULL) {
             jumpToNext = true;
+        } else {
+            jumpTo = jumpTo->next;
         }
     }
     toPatch->operands[0] = jumpoffset;
@@ -1002,8 +992,10 @@ static void emitLoop(int loopStart) {
   loopInsn->jumpTo->isLabel = true;
 }
 
-static void patchBreak(Insn *br, int offset, Insn *label) {
+static void patchBreak(Insn *br, int offset, Insn *label, Insn *prev) {
     br->operands[0] = offset;
+    br->jumpTo = label;
+    br->jumpToPrev = prev;
     if (label) {
         label->isLabel = true;
     }
@@ -1022,7 +1014,7 @@ static void patchBreaks(Insn *start, Insn *end, int offset) {
                 off += end->numOperands+1;
             }
             COMP_TRACE("break found, patching break: %d", off);
-            patchBreak(cur, off, offset == 0 ? end : NULL);
+            patchBreak(cur, off, offset == 0 ? end : NULL, offset == 0 ? NULL : end);
             numFound++;
         }
         cur = cur->next;
@@ -1886,13 +1878,13 @@ static void emitNode(Node *n) {
             Insn *skipRhsJump = emitJump(OP_JUMP_IF_FALSE_PEEK);
             emitNode(vec_last(n->children)); // rhs
             emitOp0(OP_AND);
-            patchJump(skipRhsJump, insnOffset(skipRhsJump, currentIseq()->tail), currentIseq()->tail);
+            patchJump(skipRhsJump, -1, NULL);
         } else if (n->tok.type == TOKEN_OR) {
             emitNode(vec_first(n->children)); // lhs
             Insn *skipRhsJump = emitJump(OP_JUMP_IF_TRUE_PEEK);
             emitNode(vec_last(n->children)); // rhs
             emitOp0(OP_OR);
-            patchJump(skipRhsJump, insnOffset(skipRhsJump, currentIseq()->tail), currentIseq()->tail);
+            patchJump(skipRhsJump, -1, NULL);
         } else {
             UNREACHABLE("invalid logical expression node (token: %s)", tokStr(&n->tok));
         }
-- 
2.43.0


From d0c62505f4445469a06d2d19e57f7295ac8db5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 27/60] fix: the bytecode listing steps over every
 instruction's operands

---
 debug.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/debug.c b/debug.c
index ccffebb..851fd79 100644
--- a/debug.c
+++ b/debug.c
@@ -436,7 +436,7 @@ static int printUnpackSetVarInstruction(FILE *f, const char *op, Chunk *chunk, i
 
 static int unpackSetVarInstruction(ObjString *buf, const char *op, Chunk *chunk, int i) {
     // TODO
-    return i+3;
+    return i+4;
 }
 
 static int printUnpackDefGlobalInstruction(FILE *f, const char *op, Chunk *chunk, int i) {
@@ -528,6 +528,17 @@ static int loopInstruction(ObjString *buf, const char *op, Chunk *chunk, int i)
     return i+2;
 }
 
+static int breakInstruction(ObjString *buf, const char *op, Chunk *chunk, int i) {
+    char *cbuf = (char*)calloc(1, strlen(op)+1+60);
+    ASSERT_MEM(cbuf);
+    bytecode_t breakOffset = chunk->code[i + 1];
+    bytecode_t numpops = chunk->code[i + 2];
+    sprintf(cbuf, "%s\t%4d\t(addr=%04d)\t(pops=%d)\n", op, breakOffset, (i+breakOffset), numpops);
+    pushCString(buf, cbuf, strlen(cbuf));
+    xfree(cbuf);
+    return i+3;
+}
+
 static int printCallInstruction(FILE *f, const char *op, Chunk *chunk, int i, vec_funcp_t *funcs) {
     bytecode_t numArgs = chunk->code[i + 1];
     (void)numArgs; // unused
@@ -669,6 +680,16 @@ static int simpleInstruction(ObjString *buf, const char *op, int i) {
     return i+1;
 }
 
+static int opPopDebugInstruction(ObjString *buf, const char *op, Chunk *chunk, int i) {
+    bytecode_t constantIdx = chunk->code[i+1];
+    ObjString *localName = AS_STRING(getConstant(chunk, constantIdx));
+    pushCString(buf, op, strlen(op));
+    pushCString(buf, " (", 2);
+    pushCString(buf, localName->chars, localName->length);
+    pushCString(buf, ")\n", 2);
+    return i+2;
+}
+
 static int byteInstruction(ObjString *buf, const char *op, Chunk *chunk, int i) {
     pushCString(buf, op, strlen(op));
     pushCString(buf, "\n", 1);
@@ -852,6 +873,8 @@ static int disassembledInstruction(ObjString *buf, Chunk *chunk, int i, vec_func
             return jumpInstruction(buf, opName(byte), chunk, i);
         case OP_LOOP:
             return loopInstruction(buf, opName(byte), chunk, i);
+        case OP_BREAK:
+            return breakInstruction(buf, opName(byte), chunk, i);
         case OP_CALL:
             return callInstruction(buf, opName(byte), chunk, i, funcs);
         case OP_INVOKE:
@@ -902,6 +925,8 @@ static int disassembledInstruction(ObjString *buf, Chunk *chunk, int i, vec_func
             return simpleInstruction(buf, opName(byte), i);
         case OP_POP_N:
             return byteInstruction(buf, opName(byte), chunk, i);
+        case OP_POP_DEBUG:
+            return opPopDebugInstruction(buf, opName(byte), chunk, i);
         default: {
             ASSERT(0);
             char *cBuf = calloc(1, 19+1);
-- 
2.43.0


From dbb485d648ab063afd6f733b02733617e7b0f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:02 +0000
Subject: [PATCH 28/60] fix: giving some of the optional arguments sets the
 others' defaults, optimized or not

---
 compiler.c | 15 +++++++++++----
 nodes.h    |  2 +-
 vm.c       | 20 +++++++-------------
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/compiler.c b/compiler.c
index c530616..9250fa9 100644
--- a/compiler.c
+++ b/compiler.c
@@ -558,6 +558,15 @@ static void shiftPositionsAfter(Iseq *seq, Insn *insn, int by) {
     vec_foreach(&func->variables, var, j) {
         shiftPosition(&var->bytecode_declare_start, at, by);
     }
+    if (func->numDefaultArgs > 0) {
+        vec_nodep_t *params = (vec_nodep_t*)nodeGetData(func->funcNode);
+        Node *param = NULL; int k = 0;
+        vec_foreach(params, param, k) {
+            if (param->type.kind == PARAM_NODE_DEFAULT_ARG) {
+                shiftPosition(&((ParamNodeInfo*)param->data)->defaultArgIPOffset, at, by);
+            }
+        }
+    }
 }
 
 /* Remove the given instruction. Jumps to this instruction go to the next one. */
@@ -1607,17 +1616,15 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
             uint8_t localSlot = declareVariable(&param->tok);
             defineVariable(&param->tok, localSlot, true);
             func->numDefaultArgs++;
-            Insn *insnBefore = currentIseq()->tail; // NOTE: can be NULL
             emitNode(vec_first(param->children)); // default arg
             // the VM skips these instructions if the argument is supplied
             emitOp2(OP_SET_LOCAL, (bytecode_t)localSlot, identifierConstant(&param->tok));
             emitOp0(OP_POP);
-            Insn *insnAfter = currentIseq()->tail;
-            size_t codeDiff = iseqInsnWordDiff(insnBefore, insnAfter);
+            nextInsnIsLabel = true; // the VM jumps to the next instruction
             // TODO: use ALLOCATE, and make sure to free when freeing the node
             ParamNodeInfo *paramNodeInfo = xcalloc(1, sizeof(ParamNodeInfo));
             ASSERT_MEM(paramNodeInfo);
-            paramNodeInfo->defaultArgIPOffset = codeDiff;
+            paramNodeInfo->defaultArgIPOffset = currentIseq()->wordCount;
             ASSERT(param->data == NULL);
             param->data = paramNodeInfo;
         } else if (param->type.kind == PARAM_NODE_SPLAT) {
diff --git a/nodes.h b/nodes.h
index 447cc47..5a08f6f 100644
--- a/nodes.h
+++ b/nodes.h
@@ -150,7 +150,7 @@ static const char *otherTypeNames[] = {
 };
 
 typedef struct ParamNodeInfo {
-    size_t defaultArgIPOffset;
+    int defaultArgIPOffset; // where the code that sets the argument's default ends
 } ParamNodeInfo;
 
 typedef enum eNodeType {
diff --git a/vm.c b/vm.c
index 7eaa8eb..8c57f04 100644
--- a/vm.c
+++ b/vm.c
@@ -1830,19 +1830,13 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         Node *param = NULL;
         int pi = 0;
         int unused = numDefaultArgsUnused;
-        vec_foreach_rev(params, param, pi) {
-            if (param->type.kind == PARAM_NODE_SPLAT) continue;
-            if (param->type.kind == PARAM_NODE_BLOCK) continue;
-            if (param->type.kind == PARAM_NODE_DEFAULT_ARG) {
-                size_t offset = ((ParamNodeInfo*)param->data)->defaultArgIPOffset;
-                VM_DEBUG(2, "default param found: offset=%d", (int)offset);
-                funcOffset += offset;
-                unused--;
-                if (unused == 0) break;
-            } else {
-                ASSERT(0); // unreachable, default args should be last args, not including splat or block arg
-                break;
-            }
+        // the arguments given are for the first default params
+        vec_foreach(params, param, pi) {
+            if (param->type.kind != PARAM_NODE_DEFAULT_ARG) continue;
+            funcOffset = ((ParamNodeInfo*)param->data)->defaultArgIPOffset;
+            VM_DEBUG(2, "default param found: offset=%d", (int)funcOffset);
+            unused--;
+            if (unused == 0) break;
         }
     }
 
-- 
2.43.0


From 08e83f3ce5dcf6c876af35c3ca65d7bf693c27d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:50 +0000
Subject: [PATCH 29/60] fix: keyword arguments aren't taken for optional or
 rest arguments

---
 vm.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vm.c b/vm.c
index 8c57f04..b7af749 100644
--- a/vm.c
+++ b/vm.c
@@ -1719,6 +1719,7 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     vec_nodep_t *params = (vec_nodep_t*)nodeGetData(func->funcNode);
 
     Value kwargsMap = NIL_VAL;
+    int numKwargsGiven = 0; // these aren't positional arguments
     // keyword arg processing
     if (func->numKwargs > 0 && callInfo) {
         ASSERT(params);
@@ -1740,6 +1741,7 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
                     // keyword argument given, is on stack, we pop it off
                     if (strcmp(kwname, tokStr(callInfo->kwargNames+i)) == 0) {
                         mapSet(kwargsMap, OBJ_VAL(kwStr), pop());
+                        numKwargsGiven++;
                     }
                     // when keyword argument not given, we need to add UNDEF_VAL to
                     // stack later
@@ -1756,7 +1758,8 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     }
 
     // default arg processing
-    int numDefaultArgsUsed = (func->arity + func->numDefaultArgs)-argCount;
+    int numPosArgs = argCount - numKwargsGiven;
+    int numDefaultArgsUsed = (func->arity + func->numDefaultArgs)-numPosArgs;
     if (numDefaultArgsUsed < 0) numDefaultArgsUsed = 0;
     int numDefaultArgsUnused = func->numDefaultArgs - numDefaultArgsUsed;
 
@@ -1768,8 +1771,8 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     bool hasRestArg = func->hasRestArg;
     int numRestArgs = 0;
     int argCountWithRestAry = argCount;
-    if (hasRestArg && argCount > (func->arity + func->numDefaultArgs)) {
-        numRestArgs = argCount - (func->arity + func->numDefaultArgs);
+    if (hasRestArg && numPosArgs > (func->arity + func->numDefaultArgs)) {
+        numRestArgs = numPosArgs - (func->arity + func->numDefaultArgs);
         if (numRestArgs > 0) {
             Value restAry = newArray();
             for (int i = numRestArgs; i > 0; i--) {
-- 
2.43.0


From 5cd044998bac003adde35c691ba534beb5fb3490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 30/60] fix: % and random() don't crash on fractions, -1, and
 objects without the operator

---
 compiler.c |  3 ++-
 rand.c     |  4 +++-
 vm.c       | 10 +++++++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/compiler.c b/compiler.c
index 9250fa9..52a0e50 100644
--- a/compiler.c
+++ b/compiler.c
@@ -443,10 +443,11 @@ static Value foldConstant(Iseq *seq, Insn *cur, Insn *bin, Insn *ain) {
             }
             return NUMBER_VAL(aNum / bNum);
         case OP_MODULO:
-            if (bNum == 0.00) {
+            if ((int)bNum == 0) {
                 fprintf(stderr, "[Warning]: Divide by 0 found on line %d during constant folding\n", bin->lineno);
                 return UNDEF_VAL;
             }
+            if ((int)bNum == -1) return NUMBER_VAL(0); // INT_MIN % -1 traps
             return NUMBER_VAL((int)aNum % (int)bNum);
         case OP_BITOR:
             return NUMBER_VAL((double)((int)aNum | (int)bNum));
diff --git a/rand.c b/rand.c
index 72e3850..696e04e 100644
--- a/rand.c
+++ b/rand.c
@@ -17,8 +17,10 @@ static Value lxRandom(int argCount, Value *args) {
         CHECK_ARG_BUILTIN_TYPE(maxVal, IS_NUMBER_FUNC, "number", 1);
         double max = AS_NUMBER(maxVal);
         if (max < 0) max = -max;
-        if (max == 0) {
+        if (max < 1) {
             return NUMBER_VAL(0);
+        } else if (max > RAND_MAX) {
+            return NUMBER_VAL(res);
         } else {
             return NUMBER_VAL(res % (int)max);
         }
diff --git a/vm.c b/vm.c
index b7af749..aa53053 100644
--- a/vm.c
+++ b/vm.c
@@ -2377,11 +2377,15 @@ static InterpretResult vm_run() {
       Value b = VM_PEEK(0);\
       Value a = VM_PEEK(1);\
       if (IS_NUMBER(a) && IS_NUMBER(b)) {\
-          if (UNLIKELY(((opcode == OP_DIVIDE || opcode == OP_MODULO) && AS_NUMBER(b) == 0.00))) {\
+          if (UNLIKELY(((opcode == OP_DIVIDE || opcode == OP_MODULO) && (type)AS_NUMBER(b) == 0))) {\
               throwErrorFmt(lxErrClass, "Can't divide by 0");\
           }\
           VM_POP();\
-          VM_PUSHSWAP(NUMBER_VAL((type)AS_NUMBER(a) op (type)AS_NUMBER(b)));\
+          if (UNLIKELY(opcode == OP_MODULO && (type)AS_NUMBER(b) == -1)) {\
+              VM_PUSHSWAP(NUMBER_VAL(0)); /* INT_MIN % -1 traps */\
+          } else {\
+              VM_PUSHSWAP(NUMBER_VAL((type)AS_NUMBER(a) op (type)AS_NUMBER(b)));\
+          }\
       } else if (IS_INSTANCE_LIKE(a)) {\
           ObjInstance *inst = AS_INSTANCE(a);\
           ObjString *methodName = methodNameForBinop(opcode);\
@@ -2390,7 +2394,7 @@ static InterpretResult vm_run() {
             callable = instanceFindMethod(inst, methodName);\
           }\
           if (UNLIKELY(!callable)) {\
-              throwErrorFmt(lxNameErrClass, "Method %s#%s not found for operation '%s'", className(inst->klass), methodName->chars, #op);\
+              throwErrorFmt(lxNameErrClass, "Method %s#%s not found for operation '%s'", className(inst->klass), methodName ? methodName->chars : #op, #op);\
           }\
           callCallable(OBJ_VAL(callable), 1, true, NULL);\
       } else {\
-- 
2.43.0


From e46841f1d8b1880415c5a8dfc27a769419c60079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 31/60] fix: open variables captured by collected closures stay
 alive until their scope ends

---
 memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memory.c b/memory.c
index f42d5cd..9053b22 100644
--- a/memory.c
+++ b/memory.c
@@ -463,6 +463,7 @@ void collectYoungGarbage() {
             ObjUpvalue *up = th->openUpvalues;
             while (up) {
                 ASSERT(up->value);
+                grayObject((Obj*)up); // the list needs it, even if its closure is gone
                 grayValue(*up->value);
                 up = up->next;
             }
@@ -1390,6 +1391,7 @@ void collectGarbage(void) {
             ObjUpvalue *up = th->openUpvalues;
             while (up) {
                 ASSERT(up->value);
+                grayObject((Obj*)up); // the list needs it, even if its closure is gone
                 grayValue(*up->value);
                 up = up->next;
                 numOpenUpsFound++;
-- 
2.43.0


From eb507c2a0f63d581a4376defa93d3e26f23bf696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:29 +0000
Subject: [PATCH 32/60] fix: captured variables given young objects are
 remembered by the young collection

---
 vm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index aa53053..e5489e3 100644
--- a/vm.c
+++ b/vm.c
@@ -2286,6 +2286,7 @@ static void closeUpvalues(Value *last) {
         // Copy the value into the upvalue itself and point the upvalue to it.
         upvalue->closed = *upvalue->value;
         upvalue->value = &upvalue->closed;
+        OBJ_WRITE(OBJ_VAL(upvalue), upvalue->closed);
 
         // Pop it off the open upvalue list.
         th->openUpvalues = upvalue->next;
@@ -2780,7 +2781,9 @@ vmLoop:
           bytecode_t slot = READ_WORD();
           bytecode_t varName = READ_WORD(); // for debugging
           (void)varName;
-          *frame->closure->upvalues[slot]->value = peek(0);
+          Value val = peek(0);
+          *frame->closure->upvalues[slot]->value = val;
+          OBJ_WRITE(OBJ_VAL(frame->closure->upvalues[slot]), val);
           DISPATCH_BOTTOM();
       }
       CASE_OP(CLOSE_UPVALUE): {
-- 
2.43.0


From 223092952adc73a822dcafefb3877558462672df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 33/60] fix: locals kept by a Binding survive young collections

---
 binding.c | 14 ++++++++++++++
 vm.c      |  7 +++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/binding.c b/binding.c
index 694a378..b4f7a4a 100644
--- a/binding.c
+++ b/binding.c
@@ -29,6 +29,14 @@ static void freeInternalBinding(Obj *obj) {
     FREE(LxBinding, b);
 }
 
+// The scope lives on without its frame: make it old, and remember its locals
+static void keepScope(ObjScope *scope) {
+    for (int i = 0; i < scope->localsTable.size; i++) {
+        OBJ_WRITE(OBJ_VAL(scope), scope->localsTable.tbl[i]);
+    }
+    GC_OLD(scope);
+}
+
 static Value lxBindingInit(int argCount, Value *args) {
     CHECK_ARITY("Binding#init", 1, 1, argCount);
     Value self = *args;
@@ -55,6 +63,10 @@ static Value lxBindingInit(int argCount, Value *args) {
 
     ASSERT(!frame->isCCall);
     ASSERT(frame->scope);
+    keepScope(binding->scope);
+    if (binding->thisObj) {
+        OBJ_WRITE(OBJ_VAL(internalObj), OBJ_VAL(binding->thisObj));
+    }
 
     internalObj->data = binding;
     bindObj->internal = internalObj;
@@ -111,10 +123,12 @@ static Value lxBindingLocalVariableSet(int argCount, Value *args) {
     if (!res) {
         slotVal = NUMBER_VAL(func->localsTable.count+1);
         tableSet(&func->localsTable, name, slotVal);
+        OBJ_WRITE(OBJ_VAL(func), name);
     }
     int slot = AS_NUMBER(slotVal);
     growLocalsTable(binding->scope, slot+1);
     binding->scope->localsTable.tbl[slot] = val;
+    OBJ_WRITE(OBJ_VAL(binding->scope), val);
     return val;
 }
 
diff --git a/vm.c b/vm.c
index e5489e3..b6332be 100644
--- a/vm.c
+++ b/vm.c
@@ -2738,8 +2738,11 @@ vmLoop:
           if ((int)slot+1 > scope->localsTable.size) {
             growLocalsTable(scope, (int)slot+1);
           }
-          scope->localsTable.tbl[slot] = VM_PEEK(0); // locals are popped at end of scope by VM
-          frame->slots[slot] = VM_PEEK(0);
+          Value val = VM_PEEK(0);
+          scope->localsTable.tbl[slot] = val; // locals are popped at end of scope by VM
+          frame->slots[slot] = val;
+          // young scopes are on the frame, their locals are marked through them
+          if (IS_OLD_OBJ(TO_OBJ(scope))) OBJ_WRITE(OBJ_VAL(scope), val);
           DISPATCH_BOTTOM();
       }
       CASE_OP(UNPACK_SET_LOCAL): {
-- 
2.43.0


From 109d6e00560536eee4ce34ea067fb9a8f6696ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:45 +0000
Subject: [PATCH 34/60] fix: remember young objects stored in old ones, where
 stores didn't announce them

---
 block.c   |  1 +
 file.c    |  1 +
 io.c      |  1 +
 regex.c   |  2 ++
 runtime.c | 10 ++++++++++
 thread.c  |  2 ++
 vm.c      |  6 +++++-
 7 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/block.c b/block.c
index e98398c..0e6ea43 100644
--- a/block.c
+++ b/block.c
@@ -57,6 +57,7 @@ static Value lxBlockInit(int argCount, Value *args) {
     hideFromGC(TO_OBJ(internalObj));
     LxBlock *blk = ALLOCATE(LxBlock, 1);
     blk->callable = AS_OBJ(callableVal);
+    OBJ_WRITE(self, callableVal);
     internalObj->data = blk;
     internalObj->dataSz = sizeof(LxBlock);
     selfObj->internal = internalObj;
diff --git a/file.c b/file.c
index ee4990e..1ae0ba5 100644
--- a/file.c
+++ b/file.c
@@ -437,6 +437,7 @@ static Value lxFileRename(int argCount, Value *args) {
     int last = errno;
     if (rename(oldPath, newPath) == 0) {
         f->name = dupString(newPathStr);
+        OBJ_WRITE(self, OBJ_VAL(f->name));
         return BOOL_VAL(true);
     } else {
         int err = errno;
diff --git a/io.c b/io.c
index 20aaff7..d9d7e88 100644
--- a/io.c
+++ b/io.c
@@ -45,6 +45,7 @@ LxFile *initIOAfterOpen(Value ioVal, ObjString *fname, int fd, int mode, int ofl
     hideFromGC((Obj*)ioObj);
     LxFile *file = ALLOCATE(LxFile, 1);
     file->name = dupString(fname);
+    OBJ_WRITE(ioVal, OBJ_VAL(file->name));
     hideFromGC((Obj*)file->name);
     file->fd = fd;
     file->mode = mode;
diff --git a/regex.c b/regex.c
index 79fea0a..c9b9d17 100644
--- a/regex.c
+++ b/regex.c
@@ -46,6 +46,7 @@ static LxMatchData *getMatchData(Value self) {
 static void matchDataSetRegex(Value md, Value regex) {
   LxMatchData *lmd = getMatchData(md);
   lmd->re = AS_REGEX(regex);
+  OBJ_WRITE(md, regex);
 }
 
 static void matchDataPopulateCaptures(Value md) {
@@ -65,6 +66,7 @@ static void matchDataPopulateCaptures(Value md) {
         gn = gn->next;
     }
     lmd->captures = captures;
+    OBJ_WRITE(md, captures);
 }
 
 static Value lxRegexMatch(int argCount, Value *args) {
diff --git a/runtime.c b/runtime.c
index 2988292..df1ebda 100644
--- a/runtime.c
+++ b/runtime.c
@@ -968,6 +968,7 @@ Value lxModuleInit(int argCount, Value *args) {
     ASSERT(CLASSINFO(mod)->name == NULL);
     ObjString *nameCpy = dupString(nameStr);
     CLASSINFO(mod)->name = nameCpy;
+    OBJ_WRITE(self, OBJ_VAL(nameCpy));
     return self;
 }
 
@@ -1009,6 +1010,9 @@ Value lxClassInit(int argCount, Value *args) {
         superClass = AS_CLASS(args[2]);
     }
     CLASSINFO(klass)->name = name;
+    if (name) {
+        OBJ_WRITE(OBJ_VAL(klass), OBJ_VAL(name));
+    }
     CLASSINFO(klass)->superclass = (Obj*)superClass;
     if (superClass) {
         OBJ_WRITE(OBJ_VAL(klass), OBJ_VAL(superClass));
@@ -1301,16 +1305,22 @@ Value lxGCStats(int argCount, Value *args) {
     Value map = newMap();
     Value totalKey = OBJ_VAL(copyString("totalAllocated", 14, NEWOBJ_FLAG_NONE));
     mapSet(map, totalKey, NUMBER_VAL(GCStats.totalAllocated));
+    OBJ_WRITE(map, totalKey);
     Value heapSizeKey = OBJ_VAL(copyString("heapSize", 8, NEWOBJ_FLAG_NONE));
     mapSet(map, heapSizeKey, NUMBER_VAL(GCStats.heapSize));
+    OBJ_WRITE(map, heapSizeKey);
     Value heapUsedKey = OBJ_VAL(copyString("heapUsed", 8, NEWOBJ_FLAG_NONE));
     mapSet(map, heapUsedKey, NUMBER_VAL(GCStats.heapUsed));
+    OBJ_WRITE(map, heapUsedKey);
     Value heapWasteKey = OBJ_VAL(copyString("heapUsedWaste", 13, NEWOBJ_FLAG_NONE));
     mapSet(map, heapWasteKey, NUMBER_VAL(GCStats.heapUsedWaste));
+    OBJ_WRITE(map, heapWasteKey);
     Value runsYoungKey = OBJ_VAL(copyString("runsYoung", 9, NEWOBJ_FLAG_NONE));
     mapSet(map, runsYoungKey, NUMBER_VAL(GCProf.runsYoung));
+    OBJ_WRITE(map, runsYoungKey);
     Value runsFullKey = OBJ_VAL(copyString("runsFull", 8, NEWOBJ_FLAG_NONE));
     mapSet(map, runsFullKey, NUMBER_VAL(GCProf.runsFull));
+    OBJ_WRITE(map, runsFullKey);
     return map;
 }
 
diff --git a/thread.c b/thread.c
index 84feff4..e9d1220 100644
--- a/thread.c
+++ b/thread.c
@@ -503,6 +503,8 @@ static Value lxThreadSetTLS(int argCount, Value *args) {
         th->tlsMap = AS_MAP(newMap());
     }
     mapSet(OBJ_VAL(th->tlsMap), key, val);
+    OBJ_WRITE(OBJ_VAL(th->tlsMap), key);
+    OBJ_WRITE(OBJ_VAL(th->tlsMap), val);
     return val;
 }
 
diff --git a/vm.c b/vm.c
index b6332be..076c113 100644
--- a/vm.c
+++ b/vm.c
@@ -1120,6 +1120,7 @@ void propertySet(ObjInstance *obj, ObjString *propName, Value rval) {
         if (IS_OBJ(rval)) {
             OBJ_WRITE(OBJ_VAL(obj), rval);
         }
+        OBJ_WRITE(OBJ_VAL(obj), OBJ_VAL(propName));
     }
 }
 
@@ -1146,6 +1147,7 @@ static ObjFunction *funcFromCallable(Value callable) {
 void defineMethod(Value classOrMod, ObjString *name, Value method) {
     ASSERT(isCallable(method));
     ObjFunction *func = funcFromCallable(method);
+    OBJ_WRITE(classOrMod, OBJ_VAL(name)); // may be a new string, see Class#defineMethod
     // FIXME: a function can be attached to multiple classes because of
     // runtime defineMethod(). I don't think this field should exist anymore,
     // not sure if it's currently used anywhere.
@@ -1740,7 +1742,9 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
                     ObjString *kwStr = INTERN(kwname);
                     // keyword argument given, is on stack, we pop it off
                     if (strcmp(kwname, tokStr(callInfo->kwargNames+i)) == 0) {
-                        mapSet(kwargsMap, OBJ_VAL(kwStr), pop());
+                        Value kwVal = pop();
+                        mapSet(kwargsMap, OBJ_VAL(kwStr), kwVal);
+                        OBJ_WRITE(kwargsMap, kwVal);
                         numKwargsGiven++;
                     }
                     // when keyword argument not given, we need to add UNDEF_VAL to
-- 
2.43.0


From 022417b78f60b2e4c36413d09e4199e0d98ea1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:18 +0000
Subject: [PATCH 35/60] fix: an error, not a crash, when an object's native
 data isn't set up

---
 binding.c |  4 +---
 block.c   |  2 +-
 dir.c     |  2 +-
 io.c      |  5 +----
 memory.c  |  6 ++++--
 object.c  |  8 ++++++++
 object.h  |  8 ++++----
 regex.c   | 17 +++++++++++------
 runtime.c |  4 +---
 socket.c  |  5 +----
 thread.c  |  5 +----
 time.c    |  6 ++----
 12 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/binding.c b/binding.c
index b4f7a4a..77e18b2 100644
--- a/binding.c
+++ b/binding.c
@@ -75,9 +75,7 @@ static Value lxBindingInit(int argCount, Value *args) {
 }
 
 static LxBinding *getBinding(Value b) {
-    ObjInstance *bindObj = AS_INSTANCE(b);
-    ObjInternal *i = bindObj->internal;
-    return (LxBinding*)i->data;
+    return (LxBinding*)instanceData(b);
 }
 
 static Value lxBindingLocalVariables(int argCount, Value *args) {
diff --git a/block.c b/block.c
index 0e6ea43..c71a485 100644
--- a/block.c
+++ b/block.c
@@ -22,7 +22,7 @@ static void markInternalBlock(Obj *internalObj) {
 }
 
 static inline LxBlock *blockGetHidden(Value block) {
-    return (LxBlock*) AS_INSTANCE(block)->internal->data;
+    return (LxBlock*)instanceData(block);
 }
 
 Obj *blockCallable(Value block) {
diff --git a/dir.c b/dir.c
index a1e8260..c72cc11 100644
--- a/dir.c
+++ b/dir.c
@@ -19,7 +19,7 @@ typedef struct LxDir {
 } LxDir;
 
 static inline LxDir *dirGetHidden(Value dir) {
-    return (LxDir*)AS_INSTANCE(dir)->internal->data;
+    return (LxDir*)instanceData(dir);
 }
 
 static void freeInternalDir(Obj *internalObj) {
diff --git a/io.c b/io.c
index d9d7e88..fbf8bb8 100644
--- a/io.c
+++ b/io.c
@@ -32,10 +32,7 @@ static void freeInternalFile(Obj *obj) {
 }
 
 LxFile *fileGetHidden(Value io) {
-    ObjInstance *inst = AS_INSTANCE(io);
-    ObjInternal *internalObj = inst->internal;
-    LxFile *f = (LxFile*)internalGetData(internalObj);
-    return f;
+    return (LxFile*)instanceData(io);
 }
 
 LxFile *initIOAfterOpen(Value ioVal, ObjString *fname, int fd, int mode, int oflags) {
diff --git a/memory.c b/memory.c
index 9053b22..d886130 100644
--- a/memory.c
+++ b/memory.c
@@ -1107,8 +1107,10 @@ void freeObject(Obj *obj) {
             GC_TRACE_DEBUG(5, "Freeing regex: p=%p", reObj);
             freeTable(reObj->fields);
             FREE(Table, reObj->fields);
-            regex_free(reObj->regex);
-            FREE(Regex, reObj->regex);
+            if (reObj->regex) { // NULL if its init wasn't run
+                regex_free(reObj->regex);
+                FREE(Regex, reObj->regex);
+            }
             obj->type = OBJ_T_NONE;
             break;
         }
diff --git a/object.c b/object.c
index 44923b8..e815f21 100644
--- a/object.c
+++ b/object.c
@@ -1068,6 +1068,14 @@ Value compileRegex(ObjString *str) {
     return pop();
 }
 
+void *instanceData(Value instance) {
+    ObjInternal *internal = AS_INSTANCE(instance)->internal;
+    if (UNLIKELY(!internal || !internal->data)) {
+        throwErrorFmt(lxErrClass, "%s", "Object is not initialized, super() was not called in its init()");
+    }
+    return internal->data;
+}
+
 Value getProp(Value self, ObjString *propName) {
     DBG_ASSERT(IS_INSTANCE_LIKE(self));
     ObjInstance *inst = AS_INSTANCE(self);
diff --git a/object.h b/object.h
index f10fb2a..c7c0b5f 100644
--- a/object.h
+++ b/object.h
@@ -529,6 +529,8 @@ Value getProp(Value self, ObjString *propName);
 static inline void *internalGetData(ObjInternal *obj) {
     return obj->data;
 }
+// native data of an instance, throws if the class's init hasn't made it
+void *instanceData(Value instance);
 void setObjectFinalizer(ObjInstance *obj, Obj *callable);
 
 // arrays
@@ -581,8 +583,7 @@ Value newMap(void);
 Value  newMapConstant(void);
 bool mapEquals(Value map, Value other);
 static inline Table *mapGetHidden(Value mapVal) {
-    ObjInstance *inst = AS_INSTANCE(mapVal);
-    return (Table*)inst->internal->data;
+    return (Table*)instanceData(mapVal);
 }
 static inline bool mapGet(Value mapVal, Value key, Value *ret) {
     Table *map = AS_MAP(mapVal)->table;
@@ -619,8 +620,7 @@ static inline void mapClear(Value mapVal) {
 // threads
 Value newThread(void);
 static inline struct LxThread *threadGetHidden(Value thread) {
-    ObjInternal *i = AS_INSTANCE(thread)->internal;
-    return (struct LxThread*)i->data;
+    return (struct LxThread*)instanceData(thread);
 }
 
 Value mapDup(Value other);
diff --git a/regex.c b/regex.c
index c9b9d17..10a8368 100644
--- a/regex.c
+++ b/regex.c
@@ -26,10 +26,18 @@ static Value lxRegexInit(int argCount, Value *args) {
     return *args;
 }
 
+static Regex *getRegex(Value self) {
+    Regex *re = AS_REGEX(self)->regex;
+    if (UNLIKELY(!re)) {
+        throwErrorFmt(lxErrClass, "%s", "Regex is not initialized, super() was not called in its init()");
+    }
+    return re;
+}
+
 static Value lxRegexInspect(int argCount, Value *args) {
     CHECK_ARITY("Regex#inspect", 1, 1, argCount);
     Value self = args[0];
-    Regex *re = AS_REGEX(self)->regex;
+    Regex *re = getRegex(self);
     ObjString *buf = emptyString();
     pushCStringFmt(buf, "%s", "#<Regex %\"");
     pushCString(buf, re->src, strlen(re->src));
@@ -38,9 +46,7 @@ static Value lxRegexInspect(int argCount, Value *args) {
 }
 
 static LxMatchData *getMatchData(Value self) {
-    ObjInstance *selfInst = AS_INSTANCE(self);
-    ObjInternal *internal = selfInst->internal;
-    return (LxMatchData*)internal->data;
+    return (LxMatchData*)instanceData(self);
 }
 
 static void matchDataSetRegex(Value md, Value regex) {
@@ -78,8 +84,7 @@ static Value lxRegexMatch(int argCount, Value *args) {
     if (argCount == 3) {
       giveMatchData = isTruthy(args[2]);
     }
-    Regex *re = AS_REGEX(*args)->regex;
-    DBG_ASSERT(re);
+    Regex *re = getRegex(self);
     MatchData mdata = regex_match(re, AS_STRING(str)->chars);
     if (mdata.matched) {
       if (giveMatchData) {
diff --git a/runtime.c b/runtime.c
index df1ebda..0004313 100644
--- a/runtime.c
+++ b/runtime.c
@@ -1238,9 +1238,7 @@ Value lxIteratorInit(int argCount, Value *args) {
 Value lxIteratorNext(int argCount, Value *args) {
     CHECK_ARITY("Iterator#next", 1, 1, argCount);
     Value self = args[0];
-    ObjInstance *selfObj = AS_INSTANCE(self);
-    ObjInternal *internalObj = selfObj->internal;
-    Iterator *iter = internalGetData(internalObj);
+    Iterator *iter = instanceData(self);
     DBG_ASSERT(iter);
     ObjInstance *iterableObj = iter->instance;
     Value iterable = OBJ_VAL(iterableObj);
diff --git a/socket.c b/socket.c
index 580f189..cdf1fcc 100644
--- a/socket.c
+++ b/socket.c
@@ -264,10 +264,7 @@ static void freeInternalAddrInfo(Obj *obj) {
 }
 
 static LxAddrInfo *getAddrInfoHidden(Value addrInfoVal) {
-    ObjInstance *addrInfoInst = AS_INSTANCE(addrInfoVal);
-    ObjInternal *internal = addrInfoInst->internal;
-    LxAddrInfo *lai = internal->data;
-    return lai;
+    return (LxAddrInfo*)instanceData(addrInfoVal);
 }
 
 static Value makeNewAddrInfo(struct addrinfo *ai) {
diff --git a/thread.c b/thread.c
index e9d1220..aae4f73 100644
--- a/thread.c
+++ b/thread.c
@@ -602,10 +602,7 @@ static void unlockMutex(LxMutex *mutex) {
 }
 
 static LxMutex *mutexGetHidden(Value mutex) {
-    ObjInternal *internal = AS_INSTANCE(mutex)->internal;
-    LxMutex *m = (LxMutex*)internal->data;
-    ASSERT(m);
-    return m;
+    return (LxMutex*)instanceData(mutex);
 }
 
 static Value lxMutexInit(int argCount, Value *args) {
diff --git a/time.c b/time.c
index 2e72f03..2c3e971 100644
--- a/time.c
+++ b/time.c
@@ -65,13 +65,11 @@ ObjClass *lxTimeClass;
 ObjClass *lxTimerClass;
 
 static inline LxTime *timeGetHidden(Value timeVal) {
-    ObjInternal *internal = AS_INSTANCE(timeVal)->internal;
-    return (LxTime*)internal->data;
+    return (LxTime*)instanceData(timeVal);
 }
 
 static inline LxTimer *timerGethidden(Value timerVal) {
-    ObjInternal *internal = AS_INSTANCE(timerVal)->internal;
-    return (LxTimer*)internal->data;
+    return (LxTimer*)instanceData(timerVal);
 }
 
 static Value lxTimeInit(int argCount, Value *args) {
-- 
2.43.0


From 63250c7a541a2cf67dec5b672c31a84690124dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:58 +0000
Subject: [PATCH 36/60] fix: closed files, sockets and directories are not
 operated on

---
 dir.c     |  3 +++
 file.c    |  8 ++++----
 io.c      | 21 +++++++++++++++------
 runtime.h |  1 +
 socket.c  |  6 ++++--
 5 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/dir.c b/dir.c
index c72cc11..1feef15 100644
--- a/dir.c
+++ b/dir.c
@@ -56,6 +56,9 @@ static Value lxDirInit(int argCount, Value *args) {
 
 static Value lxDirIterNext(int argCount, Value *args) {
     LxDir *dir = dirGetHidden(*args);
+    if (!dir->open) {
+        throwErrorFmt(lxErrClass, "Directory is closed");
+    }
     struct dirent *de;
     if ((de = readdir(dir->dir))) {
         return OBJ_VAL(copyString(de->d_name, strlen(de->d_name), NEWOBJ_FLAG_NONE));
diff --git a/file.c b/file.c
index 1ae0ba5..559fdff 100644
--- a/file.c
+++ b/file.c
@@ -194,8 +194,8 @@ static Value lxFileStaticCopy(int argCount, Value *args) {
     Value dst = args[2];
     CHECK_ARG_IS_A(src, lxFileClass, 1);
     CHECK_ARG_IS_A(dst, lxFileClass, 2);
-    LxFile *srcf = FILE_GETHIDDEN(src);
-    LxFile *dstf = FILE_GETHIDDEN(dst);
+    LxFile *srcf = fileGetOpen(src);
+    LxFile *dstf = fileGetOpen(dst);
     size_t chunkSz = 1024 * 16;
     ssize_t res = 0;
     ssize_t bytesCopied = 0;
@@ -416,7 +416,7 @@ static Value lxFileUnlink(int argCount, Value *args) {
     LxFile *f = FILE_GETHIDDEN(self);
     int last = errno;
     if (unlink(f->name->chars) == 0) {
-        f->isOpen = false;
+        IOClose(self);
         return BOOL_VAL(true);
     } else {
         int err = errno;
@@ -455,7 +455,7 @@ static Value lxFileSeek(int argCount, Value *args) {
     CHECK_ARG_BUILTIN_TYPE(whenceVal, IS_NUMBER_FUNC, "number", 2);
     off_t offset = (off_t)AS_NUMBER(offsetVal);
     off_t whence = (off_t)AS_NUMBER(whenceVal);
-    LxFile *f = FILE_GETHIDDEN(self);
+    LxFile *f = fileGetOpen(self);
     int last = errno;
     off_t pos = lseek(f->fd, offset, whence);
     if (pos == -1) {
diff --git a/io.c b/io.c
index fbf8bb8..dd1eeac 100644
--- a/io.c
+++ b/io.c
@@ -35,6 +35,16 @@ LxFile *fileGetHidden(Value io) {
     return (LxFile*)instanceData(io);
 }
 
+// for operations on the file descriptor: once it's closed, the system can give
+// its number to another file.
+LxFile *fileGetOpen(Value io) {
+    LxFile *f = FILE_GETHIDDEN(io);
+    if (!f->isOpen) {
+        throwErrorFmt(lxErrClass, "IO error: fd is closed: %d", f->fd);
+    }
+    return f;
+}
+
 LxFile *initIOAfterOpen(Value ioVal, ObjString *fname, int fd, int mode, int oflags) {
     ObjInstance *ioObj = AS_INSTANCE(ioVal);
     ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxFile), markInternalFile, freeInternalFile,
@@ -62,12 +72,12 @@ void IOClose(Value ioVal) {
     if (f->isOpen) {
         int res = 0;
         int last = errno;
+        f->isOpen = false; // even on error, the fd is released
         if ((res = close(f->fd)) != 0) {
             int err = errno;
             errno = last;
             throwErrorFmt(sysErrClass(err), "Error closing fd: %d, %s", f->fd, strerror(err));
         }
-        f->isOpen = false;
     }
 }
 
@@ -169,13 +179,12 @@ static ObjString *IOReadNonBlock(Value io, size_t numBytes, bool untilEOF) {
 }
 
 static ObjString *IOReadline(Value io, size_t maxBytes) {
-    // TODO: checks
-    LxFile *f = FILE_GETHIDDEN(io);
+    LxFile *f = fileGetOpen(io);
     return IOReadlineFd(f->fd, maxBytes);
 }
 
 size_t IOWrite(Value io, const void *buf, size_t count) {
-    LxFile *f = FILE_GETHIDDEN(io);
+    LxFile *f = fileGetOpen(io);
     if (f->fd == STDIN_FILENO) {
         throwErrorFmt(lxErrClass, "Cannot write to stdin");
     }
@@ -202,7 +211,7 @@ size_t IOWrite(Value io, const void *buf, size_t count) {
 }
 
 static int IOFcntl(Value io, int cmd, int arg) {
-    int fd = FILE_GETHIDDEN(io)->fd;
+    int fd = fileGetOpen(io)->fd;
     int last = errno;
     int res = fcntl(fd, cmd, arg);
     if (res == -1) {
@@ -306,7 +315,7 @@ static Value lxIOSelectStatic(int argCount, Value *args) {
             if (!IS_A(el, lxIOClass)) {
                 throwErrorFmt(lxErrClass, "Non-IO object given to IO.select");
             }
-            LxFile *f = FILE_GETHIDDEN(el);
+            LxFile *f = fileGetOpen(el);
             FD_SET(f->fd, &fds[i-1]);
             if (f->fd > highestFd) {
                 highestFd = f->fd;
diff --git a/runtime.h b/runtime.h
index cbbccee..c4e4c78 100644
--- a/runtime.h
+++ b/runtime.h
@@ -175,6 +175,7 @@ void Init_RegexClass(void);
 // class IO
 void Init_IOClass(void);
 LxFile *fileGetHidden(Value io);
+LxFile *fileGetOpen(Value io); // throws if closed
 LxFile *fileGetInternal(Value io);
 LxFile *initIOAfterOpen(Value io, ObjString *fname, int fd, int mode, int oflags);
 size_t IOWrite(Value io, const void *buf, size_t count);
diff --git a/socket.c b/socket.c
index cdf1fcc..5e07d6e 100644
--- a/socket.c
+++ b/socket.c
@@ -77,6 +77,9 @@ static LxFile *checkSocket(Value sock) {
   if (f->fd < 0) {
     throwErrorFmt(lxErrClass, "uninitialized socket");
   }
+  if (!f->isOpen) {
+    throwErrorFmt(lxErrClass, "socket is closed");
+  }
   return f;
 }
 
@@ -122,7 +125,6 @@ static Value lxSocketConnect(int argCount, Value *args) {
       throwErrorFmt(sysErrClass(errno), "Error during connect: %s", strerror(errno));
     }
     sock->connected = true;
-    f->isOpen = true;
     return self;
 }
 
@@ -228,7 +230,7 @@ static Value lxSocketAccept(int argCount, Value *args) {
 
 static Value lxSocketGetFd(int argCount, Value *args) {
     Value self = args[0];
-    LxFile *f = checkSocket(self);
+    LxFile *f = FILE_GETHIDDEN(self);
     int sfd = f->fd;
     return NUMBER_VAL(sfd);
 }
-- 
2.43.0


From b21f8acc3ea57fad82adb9d9429e3c9ee11e4ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:46 +0000
Subject: [PATCH 37/60] fix: getline reads no further than the line and leaks
 no stream

---
 io.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/io.c b/io.c
index dd1eeac..8f6bd10 100644
--- a/io.c
+++ b/io.c
@@ -141,26 +141,24 @@ ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
 }
 
 static ObjString *IOReadlineFd(int fd, size_t maxLen) {
-    ObjString *retBuf = NULL;
     if (maxLen == 0) maxLen = READBUF_SZ;
     if (maxLen > READBUF_SZ) maxLen = READBUF_SZ;
     char fileReadBuf[READBUF_SZ];
-    FILE *file = fdopen(fd, "r");
-    ASSERT(file); // TODO: handle uncommon error, as it's already open this should not fail
-    char *line = NULL;
+    size_t nread = 0;
+    ssize_t justRead = 0;
     int last = errno;
     releaseGVL(THREAD_STOPPED);
-    line = fgets(fileReadBuf, maxLen, file);
+    // A byte at a time, what follows the line has to stay in the file for the
+    // next read.
+    while (nread < maxLen-1 && (justRead = read(fd, fileReadBuf+nread, 1)) > 0) {
+        if (fileReadBuf[nread++] == '\n') break;
+    }
+    int err = errno;
     acquireGVL();
-    if (line == NULL) {
-        if (ferror(file)) {
-            throwIOSyserr(errno, last, "read");
-        }
-        errno = last;
-        return copyString("", 0, NEWOBJ_FLAG_NONE);
+    if (justRead == -1) {
+        throwIOSyserr(err, last, "read");
     }
-    retBuf = copyString(line, strlen(line), NEWOBJ_FLAG_NONE);
-    return retBuf;
+    return copyString(fileReadBuf, nread, NEWOBJ_FLAG_NONE);
 }
 
 ObjString *IORead(Value io, size_t numBytes, bool untilEOF, bool nonBlock) {
-- 
2.43.0


From 497a08855fe55866bc63b1088930b8b7e7e40e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:09 +0000
Subject: [PATCH 38/60] fix: only threads given by scripts are checked for
 being set up

---
 object.h |  3 ++-
 thread.c | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/object.h b/object.h
index c7c0b5f..445beba 100644
--- a/object.h
+++ b/object.h
@@ -620,7 +620,8 @@ static inline void mapClear(Value mapVal) {
 // threads
 Value newThread(void);
 static inline struct LxThread *threadGetHidden(Value thread) {
-    return (struct LxThread*)instanceData(thread);
+    ObjInternal *i = AS_INSTANCE(thread)->internal;
+    return (struct LxThread*)i->data;
 }
 
 Value mapDup(Value other);
diff --git a/thread.c b/thread.c
index aae4f73..6329fe2 100644
--- a/thread.c
+++ b/thread.c
@@ -88,6 +88,11 @@ void threadExecuteInterrupts(LxThread *th) {
     }
 }
 
+// thread given by a script, throws if the class's init hasn't set it up
+static LxThread *getThread(Value thread) {
+    return (LxThread*)instanceData(thread);
+}
+
 void threadSetStatus(Value thread, ThreadStatus status) {
     LxThread *th = THREAD_GETHIDDEN(thread);
     th->status = status;
@@ -319,7 +324,7 @@ Value lxJoinThread(int argCount, Value *args) {
     CHECK_ARITY("joinThread", 1, 1, argCount);
     Value threadVal = *args;
     CHECK_ARG_IS_A(threadVal, lxThreadClass, 1);
-    LxThread *th = THREAD_GETHIDDEN(threadVal);
+    LxThread *th = getThread(threadVal);
     ASSERT(th);
     ASSERT(th->tid != 0);
     THREAD_DEBUG(2, "Joining thread id %lu\n", th->tid);
@@ -425,7 +430,7 @@ static Value lxThreadThrow(int argCount, Value *args) {
     Value self = *args;
     Value err = args[1];
     CHECK_ARG_IS_A(err, lxErrClass, 1);
-    LxThread *th = THREAD_GETHIDDEN(self);
+    LxThread *th = getThread(self);
     Value ret = NIL_VAL;
     if (th->status == THREAD_SLEEPING || th->status == THREAD_STOPPED || th->status == THREAD_RUNNING) {
         if (IS_NIL(th->lastErrorThrown)) {
@@ -466,7 +471,7 @@ void threadDetach(LxThread *th) {
 static Value lxThreadDetach(int argCount, Value *args) {
     CHECK_ARITY("Thread#detach", 1, 1, argCount);
     Value self = *args;
-    LxThread *th = THREAD_GETHIDDEN(self);
+    LxThread *th = getThread(self);
     if (th == vm.mainThread) {
         return BOOL_VAL(false); // throw?
     }
@@ -481,7 +486,7 @@ static Value lxThreadGetTLS(int argCount, Value *args) {
     CHECK_ARITY("Thread#opIndexGet", 2, 2, argCount);
     Value self = *args;
     Value key = args[1];
-    LxThread *th = THREAD_GETHIDDEN(self);
+    LxThread *th = getThread(self);
     if (!th->tlsMap) {
         th->tlsMap = AS_MAP(newMap());
     }
@@ -498,7 +503,7 @@ static Value lxThreadSetTLS(int argCount, Value *args) {
     Value self = *args;
     Value key = args[1];
     Value val = args[2];
-    LxThread *th = THREAD_GETHIDDEN(self);
+    LxThread *th = getThread(self);
     if (!th->tlsMap) {
         th->tlsMap = AS_MAP(newMap());
     }
-- 
2.43.0


From 72783a1e0a0e5c8aad1e1dfacae5f53d9d9ba166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 39/60] fix: growing a map does not call its keys' hashKey()
 again

---
 table.c | 36 +++++++++++++++++++++++-------------
 table.h |  1 +
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/table.c b/table.c
index 142acd5..89a5d3a 100644
--- a/table.c
+++ b/table.c
@@ -70,9 +70,8 @@ void freeTable(Table *table) {
     initTable(table);
 }
 
-uint32_t findEntry(Entry *entries, int capacityMask, Value key) {
-    // NOTE: valHash() can call method `hashKey()` if key is an instance
-    uint32_t index = valHash(key) & capacityMask;
+static uint32_t findEntryHash(Entry *entries, int capacityMask, Value key, uint32_t hash) {
+    uint32_t index = hash & capacityMask;
 
     // We don't worry about an infinite loop here because resize() ensures
     // there are empty slots in the array.
@@ -88,6 +87,21 @@ uint32_t findEntry(Entry *entries, int capacityMask, Value key) {
     }
 }
 
+uint32_t findEntry(Entry *entries, int capacityMask, Value key) {
+    // NOTE: valHash() can call method `hashKey()` if key is an instance
+    return findEntryHash(entries, capacityMask, key, valHash(key));
+}
+
+// Put an entry whose key isn't in `entries` into a free slot. Doesn't call any
+// method of the key, so it can't throw an error or come back to the table.
+static void placeEntry(Entry *entries, int capacityMask, Entry entry) {
+    uint32_t index = entry.hash & capacityMask;
+    while (!IS_UNDEF(entries[index].key)) {
+        index = (index + 1) & capacityMask;
+    }
+    entries[index] = entry;
+}
+
 static void resize(Table *table, int capacityMask) {
     /*fprintf(stderr, "Resize\n");*/
     Entry *entries = ALLOCATE(Entry, capacityMask + 1);
@@ -100,10 +114,7 @@ static void resize(Table *table, int capacityMask) {
         Entry *entry = &table->entries[i];
         if (IS_UNDEF(entry->key)) continue;
 
-        uint32_t index = findEntry(entries, capacityMask, entry->key);
-        Entry *dest = &entries[index];
-        dest->key = entry->key;
-        dest->value = entry->value;
+        placeEntry(entries, capacityMask, *entry);
         table->count++;
     }
 
@@ -117,6 +128,7 @@ static void resize(Table *table, int capacityMask) {
 
 bool tableSet(Table *table, Value key, Value value) {
     /*fprintf(stderr, "tableSet\n");*/
+    uint32_t hash = valHash(key); // NOTE: can call method `hashKey()`
     if (table->count + 1 > (table->capacityMask + 1) * TABLE_MAX_LOAD) {
         // Figure out the new table size.
         int capacityMask = GROW_CAPACITY(table->capacityMask + 1) - 1;
@@ -124,12 +136,13 @@ bool tableSet(Table *table, Value key, Value value) {
     }
 
     /*fprintf(stderr, "findEntry\n");*/
-    uint32_t index = findEntry(table->entries, table->capacityMask, key);
+    uint32_t index = findEntryHash(table->entries, table->capacityMask, key, hash);
     /*fprintf(stderr, "/findEntry\n");*/
     Entry *entry = &table->entries[index];
     bool isNewKey = IS_UNDEF(entry->key);
     entry->key = key;
     entry->value = value;
+    entry->hash = hash;
 
     if (isNewKey) table->count++;
     /*fprintf(stderr, "/tableSet\n");*/
@@ -157,13 +170,10 @@ bool tableDelete(Table* table, Value key) {
 
         if (IS_UNDEF(entry->key)) break;
 
-        Value tempKey = entry->key;
-        Value tempValue = entry->value;
+        Entry temp = *entry;
         entry->key = TBL_EMPTY_KEY;
         entry->value = NIL_VAL;
-        table->count--;
-
-        tableSet(table, tempKey, tempValue);
+        placeEntry(table->entries, table->capacityMask, temp);
     }
 
     return true;
diff --git a/table.h b/table.h
index f659a8e..cced19a 100644
--- a/table.h
+++ b/table.h
@@ -12,6 +12,7 @@ extern "C" {
  * iteration. */
 
 typedef struct Entry {
+  uint32_t hash; // of key, taken when the key was added
   Value key;
   Value value;
 } Entry;
-- 
2.43.0


From 39d2e0a8b711f9833db46fb364c88a75cb8b7431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 40/60] fix: Map#rehash keeps the new entries in a map while it
 calls hashKey()

---
 map.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/map.c b/map.c
index 1d8bb33..347ad2c 100644
--- a/map.c
+++ b/map.c
@@ -316,15 +316,16 @@ static Value lxMapRehash(int argCount, Value *args) {
         throwErrorFmt(lxErrClass, "%s", "Map is frozen, cannot modify");
     }
     Table *mapOld = selfObj->table;
-    Table *mapNew = ALLOCATE(Table, 1);
-    initTableWithCapa(mapNew, tableCapacity(mapOld));
+    // the new entries belong to a map from the start: the keys' hashKey() can
+    // throw an error, or run the GC
+    Value ret = newMap();
+    Table *mapNew = AS_MAP(ret)->table;
     Entry e; int idx = 0;
     TABLE_FOREACH(mapOld, e, idx, {
-        tableSet(mapNew, e.key, e.value);
+        mapSet(ret, e.key, e.value);
     })
-    freeTable(mapOld);
-    FREE(Table, mapOld);
     selfObj->table = mapNew;
+    AS_MAP(ret)->table = mapOld;
     return self;
 }
 
-- 
2.43.0


From 02380affd180d3243beb9b16dd3ebb8416a2e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 41/60] fix: release the buffer when the working directory
 cannot be had

---
 file.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index 559fdff..b7211f8 100644
--- a/file.c
+++ b/file.c
@@ -264,10 +264,10 @@ static Value lxFileStaticJoin(int argCount, Value *args) {
 
 static ObjString *getcwdStr(void) {
   char *buf = ALLOCATE(char, READBUF_SZ);
-  buf = getcwd(buf, READBUF_SZ);
-  if (!buf) {
+  if (!getcwd(buf, READBUF_SZ)) {
+    int err = errno;
     FREE_SIZE(READBUF_SZ, buf);
-    throwErrorFmt(sysErrClass(errno), "Unable to get current working directory");
+    throwErrorFmt(sysErrClass(err), "Unable to get current working directory");
   }
   ObjString *ret = copyString(buf, strlen(buf), NEWOBJ_FLAG_NONE);
   FREE_SIZE(READBUF_SZ, buf);
-- 
2.43.0


From 47bd187739ab56d2a6685cdf7262cde512fff018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 42/60] fix: Process.exec does not allocate what a wrong
 argument would leave behind

---
 process.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/process.c b/process.c
index a9ee625..b58c806 100644
--- a/process.c
+++ b/process.c
@@ -132,8 +132,7 @@ static Value lxProcessWTERMSIGStatic(int argCount, Value *args) {
 static Value lxExecStatic(int argCount, Value *args) {
     CHECK_ARITY("Process.exec", 2, -1, argCount);
 
-    char const **argv = xmalloc(sizeof(char*)*(argCount+2));
-    ASSERT_MEM(argv);
+    char const *argv[argCount+2];
     memset(argv, 0, sizeof(char*)*(argCount+2));
     for (int i = 1; i < argCount; i++) {
         CHECK_ARG_IS_A(args[i], lxStringClass, i+1);
@@ -144,7 +143,6 @@ static Value lxExecStatic(int argCount, Value *args) {
     fflush(stdout); // what's buffered is lost if exec() succeeds
     execvp(argv[0], (char *const *)argv);
     fprintf(stderr, "Error during exec: %s\n", strerror(errno));
-    xfree(argv);
     // got here, error execing. TODO: throw error?
     return NUMBER_VAL(-1);
 }
-- 
2.43.0


From 0a45d9d20001445db66b7c65802d379da0c9904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 43/60] fix: File#init does not leave a stream behind

---
 file.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/file.c b/file.c
index b7211f8..b5d9cbd 100644
--- a/file.c
+++ b/file.c
@@ -318,8 +318,7 @@ static Value lxFileInit(int argCount, Value *args) {
     Value fname = args[1];
     CHECK_ARG_IS_A(fname, lxStringClass, 1);
     ObjString *fnameStr = VAL_TO_STRING(fname);
-    FILE *f = checkFopen(fnameStr->chars, "r+");
-    int fd = fileno(f);
+    int fd = checkOpen(fnameStr->chars, O_RDWR, 0);
     initIOAfterOpen(self, fnameStr, fd, 0, O_RDWR);
     return self;
 }
-- 
2.43.0


From df29ca7eb752c00a702f7766aa61cdc4208ff440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 44/60] fix: File.readLines closes the file when reading fails

---
 file.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/file.c b/file.c
index b5d9cbd..9bbc007 100644
--- a/file.c
+++ b/file.c
@@ -71,16 +71,6 @@ static int checkFclose(FILE *stream) {
     return res;
 }
 
-static void checkFerror(FILE *f, const char *op, const char *fname) {
-    int last = errno;
-    int readErr = ferror(f);
-    if (readErr != 0) {
-        int err = errno;
-        errno = last;
-        throwErrorFmt(sysErrClass(err), "Error %s File '%s': %s", op, fname, strerror(err));
-    }
-}
-
 static void checkFileExists(char *fname) {
     int err = 0;
     if ((err = fileExists(fname)) != 0) {
@@ -146,12 +136,20 @@ static Value lxFileReadLinesStatic(int argCount, Value *args) {
     size_t nread = 0;
     Value line = NIL_VAL;
     bool leftoverLine = false;
+    int last = errno;
+    int readErr = 0;
+    bool failed = false;
     char fileReadBuf[READBUF_SZ];
     while (true) {
         releaseGVL(THREAD_STOPPED);
         nread = fread(fileReadBuf, 1, sizeof(fileReadBuf)-1, f);
+        int err = errno;
         acquireGVL();
-        if (nread == 0) break;
+        if (nread == 0) {
+            failed = ferror(f) != 0;
+            readErr = err;
+            break;
+        }
         fileReadBuf[nread] = '\0';
         size_t nleft = nread;
         char *bufp = fileReadBuf;
@@ -169,8 +167,11 @@ static Value lxFileReadLinesStatic(int argCount, Value *args) {
             nleft -= len;
         }
     }
-    checkFerror(f, "reading", fnameStr->chars);
     checkFclose(f);
+    if (failed) {
+        errno = last;
+        throwErrorFmt(sysErrClass(readErr), "Error reading File '%s': %s", fnameStr->chars, strerror(readErr));
+    }
     return ary;
 }
 
-- 
2.43.0


From 55d49da6421fe162f2a0853b74b6b129b5c77740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 45/60] fix: File.read closes the file when reading fails

---
 file.c    |  8 +++++++-
 io.c      | 21 +++++++++++++++++----
 runtime.h |  1 +
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/file.c b/file.c
index 9bbc007..191a32e 100644
--- a/file.c
+++ b/file.c
@@ -89,8 +89,14 @@ static Value lxFileReadStatic(int argCount, Value *args) {
     ObjString *fnameStr = VAL_TO_STRING(fname);
     checkFileExists(fnameStr->chars);
     FILE *f = checkFopen(fnameStr->chars, "r");
-    ObjString *buf = IOReadFd(fileno(f), 0, true, false);
+    int last = errno;
+    int err = 0;
+    ObjString *buf = IOTryReadFd(fileno(f), 0, true, false, &err);
     checkFclose(f);
+    if (err != 0) {
+        errno = last;
+        throwErrorFmt(sysErrClass(err), "Error reading File '%s': %s", fnameStr->chars, strerror(err));
+    }
     return OBJ_VAL(buf);
 }
 
diff --git a/io.c b/io.c
index 8f6bd10..1c93466 100644
--- a/io.c
+++ b/io.c
@@ -95,16 +95,18 @@ static int fd_set_nonblock(int fd) {
     return 0;
 }
 
-ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
+// Doesn't throw: on error, returns NULL and puts the error number in *errOut
+ObjString *IOTryReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock, int *errOut) {
     ASSERT(fd >= 0);
+    *errOut = 0;
     ObjString *retBuf = copyString("", 0, NEWOBJ_FLAG_NONE);
     size_t nread = 0;
     ssize_t justRead = 0;
     char fileReadBuf[READBUF_SZ];
     size_t maxRead = untilEOF ? READBUF_SZ-1 : (numBytes > (READBUF_SZ-1) ? (READBUF_SZ-1) : numBytes);
-    int last = errno;
     if (nonBlock && fd_set_nonblock(fd) == -1) {
-      throwIOSyserr(errno, last, "fcntl");
+      *errOut = errno;
+      return NULL;
     }
     int err = 0;
     while (true) {
@@ -134,12 +136,23 @@ ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
                 return retBuf;
             }
         }
-        throwIOSyserr(err, last, "read");
+        *errOut = err;
+        return NULL;
     }
 
     return retBuf;
 }
 
+ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
+    int last = errno;
+    int err = 0;
+    ObjString *ret = IOTryReadFd(fd, numBytes, untilEOF, nonBlock, &err);
+    if (err != 0) {
+        throwIOSyserr(err, last, "read");
+    }
+    return ret;
+}
+
 static ObjString *IOReadlineFd(int fd, size_t maxLen) {
     if (maxLen == 0) maxLen = READBUF_SZ;
     if (maxLen > READBUF_SZ) maxLen = READBUF_SZ;
diff --git a/runtime.h b/runtime.h
index c4e4c78..1a77826 100644
--- a/runtime.h
+++ b/runtime.h
@@ -181,6 +181,7 @@ LxFile *initIOAfterOpen(Value io, ObjString *fname, int fd, int mode, int oflags
 size_t IOWrite(Value io, const void *buf, size_t count);
 void IOClose(Value io);
 ObjString *IORead(Value io, size_t bytesMax, bool untilEOF, bool nonblock);
+ObjString *IOTryReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock, int *errOut);
 ObjString *IOReadFd(int fd, size_t bytesMax, bool untilEOF, bool nonblock);
 //ObjString *IOGetline(Value io, size_t bytesMax);
 //ObjString *IOGetchar(Value io);
-- 
2.43.0


From 0794bd2d1b596cd4a30b97d883f5e7b11ffe2d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 46/60] fix: Timer#init reads the clock before it allocates

---
 time.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/time.c b/time.c
index 2c3e971..aa3efc6 100644
--- a/time.c
+++ b/time.c
@@ -127,13 +127,15 @@ static Value lxTimerInit(int argCount, Value *args) {
     }
     Value self = *args;
     ObjInstance *selfObj = AS_INSTANCE(self);
-    ObjInternal *internalObj = newInternalObject(false, NULL, 0, NULL, NULL, NEWOBJ_FLAG_NONE);
-    LxTimer *t = ALLOCATE(LxTimer, 1);
-    t->clock = clock;
-    int res = clock_gettime(t->clock, &t->tp);
+    struct timespec tp;
+    int res = clock_gettime(clock, &tp);
     if (res == -1) {
         throwErrorFmt(lxErrClass, "Could not get timer time");
     }
+    ObjInternal *internalObj = newInternalObject(false, NULL, 0, NULL, NULL, NEWOBJ_FLAG_NONE);
+    LxTimer *t = ALLOCATE(LxTimer, 1);
+    t->clock = clock;
+    t->tp = tp;
     internalObj->data = t;
     internalObj->dataSz = sizeof(LxTime);
     selfObj->internal = internalObj;
-- 
2.43.0


From 4600f9082ba875cc1b25ceea7837cbe029330d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 47/60] fix: no accepted connection is lost before it belongs
 to a socket

---
 socket.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/socket.c b/socket.c
index 5e07d6e..0cdb00c 100644
--- a/socket.c
+++ b/socket.c
@@ -196,12 +196,10 @@ static Value lxSocketBind(int argCount, Value *args) {
     return self;
 }
 
-static Value newSocketFromAccept(Value serverSock, int newFd, struct sockaddr *peer_addr, size_t addr_size) {
+static Value newSocketFromAccept(LxSocket *servSock, int newFd, struct sockaddr *peer_addr, size_t addr_size) {
   // NOTE: call newInstance directly to avoid call to Socket#init, which calls
   // the socket(2) system call
   ObjInstance *newSockObj = newInstance(lxSocketClass, NEWOBJ_FLAG_NONE);
-  LxFile *servFile = FILE_GETHIDDEN(serverSock);
-  LxSocket *servSock = servFile->sock;
   Value newSock = OBJ_VAL(newSockObj);
   // TODO: save peer information in new socket's servSock
   initSocketFromFd(newSock, servSock->domain, servSock->type, servSock->proto, newFd);
@@ -224,7 +222,7 @@ static Value lxSocketAccept(int argCount, Value *args) {
     if (newFd == -1) {
       throwErrorFmt(sysErrClass(errno), "Error during accept: %s", strerror(errno));
     }
-    Value newSock = newSocketFromAccept(self, newFd, peer_addr, addr_size);
+    Value newSock = newSocketFromAccept(f->sock, newFd, peer_addr, addr_size);
     return newSock;
 }
 
-- 
2.43.0


From f987961f28588b67894f3693d227dcc71e9b6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 48/60] fix: every AddrInfo has a copy of its address, the list
 is freed once

---
 socket.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/socket.c b/socket.c
index 0cdb00c..714b3af 100644
--- a/socket.c
+++ b/socket.c
@@ -244,10 +244,19 @@ static ObjString *numberToString(int num) {
 }
 
 typedef struct LxAddrInfo {
-  struct addrinfo *ai;
-  int ai_is_freed;
+  struct addrinfo *ai; // a copy of its own: getaddrinfo(3) lists are freed as a whole
 } LxAddrInfo;
 
+static struct addrinfo *copyAddrInfo(struct addrinfo *ai) {
+  struct addrinfo *copy = ALLOCATE(struct addrinfo, 1);
+  *copy = *ai;
+  copy->ai_next = NULL;
+  copy->ai_canonname = NULL; // not asked for
+  copy->ai_addr = (struct sockaddr*)ALLOCATE(char, ai->ai_addrlen);
+  memcpy(copy->ai_addr, ai->ai_addr, ai->ai_addrlen);
+  return copy;
+}
+
 static void markInternalAddrInfo(Obj *obj) {
   // do nothing
 }
@@ -256,10 +265,8 @@ static void freeInternalAddrInfo(Obj *obj) {
     ASSERT(obj->type == OBJ_T_INTERNAL);
     ObjInternal *internal = (ObjInternal*)obj;
     LxAddrInfo *lai = internal->data;
-    if (!lai->ai_is_freed) {
-      freeaddrinfo(lai->ai);
-    }
-    lai->ai_is_freed = true;
+    FREE_SIZE(lai->ai->ai_addrlen, lai->ai->ai_addr);
+    FREE(struct addrinfo, lai->ai);
     FREE(LxAddrInfo, lai);
 }
 
@@ -268,14 +275,13 @@ static LxAddrInfo *getAddrInfoHidden(Value addrInfoVal) {
 }
 
 static Value makeNewAddrInfo(struct addrinfo *ai) {
-    Value addrInfoVal = callFunctionValue(OBJ_VAL(lxAddrInfoClass), 0, NULL);
-    ObjInstance *addrInfoInst = AS_INSTANCE(addrInfoVal);
+    ObjInstance *addrInfoInst = newInstance(lxAddrInfoClass, NEWOBJ_FLAG_NONE);
+    Value addrInfoVal = OBJ_VAL(addrInfoInst);
     ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxAddrInfo), markInternalAddrInfo, freeInternalAddrInfo,
             NEWOBJ_FLAG_NONE);
     hideFromGC((Obj*)internalObj);
     LxAddrInfo *lai = ALLOCATE(LxAddrInfo, 1);
-    lai->ai = ai;
-    lai->ai_is_freed = false;
+    lai->ai = copyAddrInfo(ai);
     internalObj->data = lai;
     addrInfoInst->internal = internalObj;
     unhideFromGC((Obj*)internalObj);
@@ -363,7 +369,9 @@ static Value lxAddrInfoStaticGetAddrInfo(int argCount, Value *args) {
       // END WORKAROUND
     }
   }
-  return addrInfoArrayList(res);
+  Value ret = addrInfoArrayList(res);
+  freeaddrinfo(res);
+  return ret;
 }
 
 static Value lxAddrInfoIp(int argCount, Value *args) {
-- 
2.43.0


From 6f26811886162cc65f590f250e9be1fdda18e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:27 +0000
Subject: [PATCH 49/60] fix: Array#deleteAt with a negative index deletes
 nothing

---
 object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object.c b/object.c
index e815f21..50f4fcc 100644
--- a/object.c
+++ b/object.c
@@ -945,7 +945,7 @@ bool arrayDeleteAt(Value self, int idx, Value *found) {
     }
     arrayDedup(AS_ARRAY(self));
     ValueArray *ary = &AS_ARRAY(self)->valAry;
-    if (ary->count > idx) {
+    if (idx >= 0 && idx < ary->count) {
         Value val = ary->values[idx];
         removeValueArray(ary, idx);
         *found = val;
-- 
2.43.0


From 01eb18bf1ee71f44509b97f98d83fc9e92b64ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:27 +0000
Subject: [PATCH 50/60] fix: inserting outside a string raises an error instead
 of aborting

---
 object.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/object.c b/object.c
index 50f4fcc..c79df74 100644
--- a/object.c
+++ b/object.c
@@ -842,6 +842,9 @@ void stringInsertAt(Value self, Value insert, size_t at, bool replaceAt) {
     }
     ObjString *selfBuf = AS_STRING(self);
     ObjString *insertBuf = AS_STRING(insert);
+    if (at > selfBuf->length) {
+        throwArgErrorFmt("%s", "index too big");
+    }
     insertObjString(selfBuf, insertBuf, at, replaceAt);
 }
 
-- 
2.43.0


From 7d829f91ffdc326f96a94da92185fa3016d4f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:27 +0000
Subject: [PATCH 51/60] fix: a binding does not read variables its scope has no
 room for

---
 binding.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binding.c b/binding.c
index 77e18b2..3f7b741 100644
--- a/binding.c
+++ b/binding.c
@@ -87,6 +87,8 @@ static Value lxBindingLocalVariables(int argCount, Value *args) {
     Entry e; int idx = 0;
     TABLE_FOREACH(&func->localsTable, e, idx, {
         int slot = AS_NUMBER(e.value);
+        // variables added through another binding have no slot in this scope
+        if (slot >= binding->scope->localsTable.size) continue;
         mapSet(ret, e.key, binding->scope->localsTable.tbl[slot]);
     });
     return ret;
@@ -103,6 +105,8 @@ static Value lxBindingLocalVariableGet(int argCount, Value *args) {
     int res = tableGet(&func->localsTable, name, &slotVal);
     if (!res) { return NIL_VAL; }
     int slot = AS_NUMBER(slotVal);
+    // added through another binding, it has no slot in this scope
+    if (slot >= binding->scope->localsTable.size) return NIL_VAL;
     return binding->scope->localsTable.tbl[slot];
 }
 
-- 
2.43.0


From 9fa94ea66750ecea0a20ed3167d717135d3af133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:27 +0000
Subject: [PATCH 52/60] fix: setting a variable through a binding keeps the
 variables after it

---
 vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vm.c b/vm.c
index 076c113..69fcae0 100644
--- a/vm.c
+++ b/vm.c
@@ -1499,6 +1499,7 @@ static void setupLocalsTable(CallFrame *frame) {
 }
 
 void growLocalsTable(ObjScope *scope, int size) {
+  if (scope->localsTable.size >= size) return; // never shrinks
   if (scope->localsTable.capacity >= size) {
     scope->localsTable.size = size;
     return;
-- 
2.43.0


From d533da3fbecafb60f615810e870181136e2bb2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:27 +0000
Subject: [PATCH 53/60] fix: IO.select refuses descriptors that do not fit its
 sets

---
 io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/io.c b/io.c
index 1c93466..0047f6b 100644
--- a/io.c
+++ b/io.c
@@ -327,6 +327,9 @@ static Value lxIOSelectStatic(int argCount, Value *args) {
                 throwErrorFmt(lxErrClass, "Non-IO object given to IO.select");
             }
             LxFile *f = fileGetOpen(el);
+            if (f->fd >= FD_SETSIZE) {
+                throwErrorFmt(lxErrClass, "IO.select can only wait for descriptors below %d", FD_SETSIZE);
+            }
             FD_SET(f->fd, &fds[i-1]);
             if (f->fd > highestFd) {
                 highestFd = f->fd;
@@ -379,6 +382,7 @@ static Value lxIOSelectStatic(int argCount, Value *args) {
         VALARRAY_FOREACH(ary, io, valIdx) {
             if (!IS_A(io, lxIOClass)) continue; // changed by another thread
             LxFile *f = FILE_GETHIDDEN(io);
+            if (f->fd < 0 || f->fd >= FD_SETSIZE) continue; // changed by another thread
             if (FD_ISSET(f->fd, &fds[i])) {
                 arrayPush(ioArrays[i], io);
                 numReady--;
-- 
2.43.0


From 4f233aba8234a7fd2f03ddbebabdb8b186631663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:18 +0000
Subject: [PATCH 54/60] fix: map lookups follow the table when a key's opEquals
 makes it grow

---
 table.c | 65 ++++++++++++++++++++++++++++++++++++---------------------
 table.h |  7 +++----
 2 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/table.c b/table.c
index 89a5d3a..e81faaa 100644
--- a/table.c
+++ b/table.c
@@ -70,26 +70,39 @@ void freeTable(Table *table) {
     initTable(table);
 }
 
-static uint32_t findEntryHash(Entry *entries, int capacityMask, Value key, uint32_t hash) {
+// Gives the entry of the key, or the empty entry it'd be put in, or NULL if there
+// are no entries.
+static Entry *findEntryHash(Table *table, Value key, uint32_t hash) {
+    Entry *entries = table->entries;
+    int capacityMask = table->capacityMask;
     uint32_t index = hash & capacityMask;
 
-    // We don't worry about an infinite loop here because resize() ensures
+    // We don't worry about an infinite loop here because tableSet() ensures
     // there are empty slots in the array.
-    for (;;) {
+    while (entries != NULL) {
         Entry *entry = &entries[index];
-
-        // NOTE: valEqual() can call `opEquals()` if entry key is an instance
-        if ((IS_UNDEF(entry->key)) || (valEqual(entry->key, key))) {
-            return index;
+        if (IS_UNDEF(entry->key)) return entry;
+
+        // NOTE: valEqual() can call `opEquals()` if entry key is an instance,
+        // and that method can use the table too
+        bool found = valEqual(entry->key, key);
+        if (table->entries != entries || table->capacityMask != capacityMask) {
+            entries = table->entries;
+            capacityMask = table->capacityMask;
+            index = hash & capacityMask;
+            continue;
         }
+        if (found) return &entries[index];
 
         index = (index + 1) & capacityMask;
     }
+    return NULL;
 }
 
-uint32_t findEntry(Entry *entries, int capacityMask, Value key) {
+Entry *findEntry(Table *table, Value key) {
     // NOTE: valHash() can call method `hashKey()` if key is an instance
-    return findEntryHash(entries, capacityMask, key, valHash(key));
+    uint32_t hash = valHash(key);
+    return findEntryHash(table, key, hash);
 }
 
 // Put an entry whose key isn't in `entries` into a free slot. Doesn't call any
@@ -129,32 +142,36 @@ static void resize(Table *table, int capacityMask) {
 bool tableSet(Table *table, Value key, Value value) {
     /*fprintf(stderr, "tableSet\n");*/
     uint32_t hash = valHash(key); // NOTE: can call method `hashKey()`
+
+    /*fprintf(stderr, "findEntry\n");*/
+    Entry *entry = findEntryHash(table, key, hash);
+    /*fprintf(stderr, "/findEntry\n");*/
+    bool isNewKey = entry == NULL || IS_UNDEF(entry->key);
+    if (!isNewKey) {
+        entry->key = key;
+        entry->value = value;
+        entry->hash = hash;
+        return false;
+    }
+    // Looked up first, because the methods of the key may have added entries
     if (table->count + 1 > (table->capacityMask + 1) * TABLE_MAX_LOAD) {
         // Figure out the new table size.
         int capacityMask = GROW_CAPACITY(table->capacityMask + 1) - 1;
         resize(table, capacityMask);
     }
-
-    /*fprintf(stderr, "findEntry\n");*/
-    uint32_t index = findEntryHash(table->entries, table->capacityMask, key, hash);
-    /*fprintf(stderr, "/findEntry\n");*/
-    Entry *entry = &table->entries[index];
-    bool isNewKey = IS_UNDEF(entry->key);
-    entry->key = key;
-    entry->value = value;
-    entry->hash = hash;
-
-    if (isNewKey) table->count++;
+    Entry newEntry = { .hash = hash, .key = key, .value = value };
+    placeEntry(table->entries, table->capacityMask, newEntry);
+    table->count++;
     /*fprintf(stderr, "/tableSet\n");*/
-    return isNewKey;
+    return true;
 }
 
 bool tableDelete(Table* table, Value key) {
     if (table->count == 0) return false;
 
-    uint32_t index = findEntry(table->entries, table->capacityMask, key);
-    Entry *entry = &table->entries[index];
-    if (IS_UNDEF(entry->key)) return false;
+    Entry *entry = findEntry(table, key);
+    if (entry == NULL || IS_UNDEF(entry->key)) return false;
+    uint32_t index = (uint32_t)(entry - table->entries);
 
     // Remove the entry.
     entry->key = TBL_EMPTY_KEY;
diff --git a/table.h b/table.h
index cced19a..044737a 100644
--- a/table.h
+++ b/table.h
@@ -29,14 +29,13 @@ void initTable(Table *table);
 void initTableWithCapa(Table *table, size_t capa);
 void freeTable(Table *table); // free internal table structures, not table itself
 
-uint32_t findEntry(Entry *entries, int capacityMask, Value key);
+Entry *findEntry(Table *table, Value key);
 static inline bool tableGet(Table *table, Value key, Value *value) {
     // If the table is empty, we definitely won't find it.
     if (table->entries == NULL) return false;
 
-    uint32_t index = findEntry(table->entries, table->capacityMask, key);
-    Entry *entry = &table->entries[index];
-    if (IS_UNDEF(entry->key)) return false;
+    Entry *entry = findEntry(table, key);
+    if (entry == NULL || IS_UNDEF(entry->key)) return false;
     *value = entry->value;
     return true;
 }
-- 
2.43.0


From 5263fc4aaecbf802cd8e3052ae4fe856c48cc3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:17 +0000
Subject: [PATCH 55/60] fix: pushing a string onto or into itself keeps its
 characters

---
 object.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/object.c b/object.c
index c79df74..f6cfc19 100644
--- a/object.c
+++ b/object.c
@@ -172,10 +172,16 @@ void pushCString(ObjString *string, const char *chars, size_t lenToAdd) {
     if (UNLIKELY(lenToAdd == 0)) return;
 
     size_t newLen = string->length + lenToAdd;
+    char *oldChars = NULL;
+    size_t oldCapacity = string->capacity;
     if (newLen > string->capacity) {
         size_t newCapa = GROW_CAPACITY(string->capacity);
         size_t newSz = newLen > newCapa ? newLen : newCapa;
-        string->chars = GROW_ARRAY(string->chars, char, string->capacity+1, newSz+1);
+        char *newChars = ALLOCATE(char, newSz+1);
+        memcpy(newChars, string->chars, string->length);
+        // freed below, `chars` may be (part of) the string itself
+        oldChars = string->chars;
+        string->chars = newChars;
         string->capacity = newSz;
     }
     size_t i = 0;
@@ -187,6 +193,7 @@ void pushCString(ObjString *string, const char *chars, size_t lenToAdd) {
     string->chars[string->length + i] = '\0';
     string->length += lenToAdd;
     string->hash = 0;
+    if (oldChars != NULL) FREE_ARRAY(char, oldChars, oldCapacity+1);
 }
 
 void insertCString(ObjString *string, const char *chars, size_t lenToAdd, size_t at, bool replaceAt) {
@@ -205,6 +212,9 @@ void insertCString(ObjString *string, const char *chars, size_t lenToAdd, size_t
     if (replaceAt) {
       newLen--;
     }
+    // `chars` may be (part of) the string itself, which is moved below
+    char *added = ALLOCATE(char, lenToAdd);
+    memcpy(added, chars, lenToAdd);
     if (newLen > string->capacity) {
         size_t newCapa = GROW_CAPACITY(string->capacity);
         size_t newSz = newLen > newCapa ? newLen : newCapa;
@@ -218,8 +228,9 @@ void insertCString(ObjString *string, const char *chars, size_t lenToAdd, size_t
     if (replaceAt) charsToMove--;
     memmove(dest, src, sizeof(char)*charsToMove);
     for (size_t i = 0; i < lenToAdd; i++) {
-        string->chars[at+i] = chars[i];
+        string->chars[at+i] = added[i];
     }
+    FREE_ARRAY(char, added, lenToAdd);
     string->length = newLen;
     string->chars[string->length] = '\0';
     string->hash = 0;
-- 
2.43.0


From b4bcd5c807ed6351fc8919500b29a9f857e29ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:53 +0000
Subject: [PATCH 56/60] fix: Array#join takes the separator's length after
 toString() of the elements ran

---
 array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array.c b/array.c
index 0dc9d25..1368a04 100644
--- a/array.c
+++ b/array.c
@@ -163,7 +163,6 @@ static Value lxArrayJoin(int argCount, Value *args) {
     Value joinVal = args[1];
     CHECK_ARG_IS_A(joinVal, lxStringClass, 1);
     ObjString *joinStr = AS_STRING(joinVal);
-    size_t joinStrLen = strlen(joinStr->chars);
     ObjString *buf = copyString("", 0, NEWOBJ_FLAG_NONE);
     Value el; int elIdx = 0;
     int count = valAry->count;
@@ -176,7 +175,8 @@ static Value lxArrayJoin(int argCount, Value *args) {
         }
         pushCString(buf, (const char*)elStr->chars, strlen(elStr->chars));
         if (elIdx+1 < count) {
-            pushCString(buf, (const char*)joinStr->chars, joinStrLen);
+            // toString() of an element can change the string
+            pushCString(buf, (const char*)joinStr->chars, strlen(joinStr->chars));
         }
     }
     return OBJ_VAL(buf);
-- 
2.43.0


From c343967f0962dc11cc29c06f17da6c3f0eeba136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:53 +0000
Subject: [PATCH 57/60] fix: Array#delete checks the position again after
 opEquals() ran

---
 object.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/object.c b/object.c
index f6cfc19..ab35708 100644
--- a/object.c
+++ b/object.c
@@ -937,7 +937,6 @@ int arrayDelete(Value self, Value el) {
     if (isFrozen((Obj*)selfObj)) {
         throwErrorFmt(lxErrClass, "%s", "Array is frozen, cannot modify");
     }
-    arrayDedup(AS_ARRAY(self));
     ValueArray *ary = &AS_ARRAY(self)->valAry;
     Value val; int idx = 0; int found = -1;
     VALARRAY_FOREACH(ary, val, idx) {
@@ -946,8 +945,9 @@ int arrayDelete(Value self, Value el) {
             break;
         }
     }
-    if (found != -1) {
-        removeValueArray(ary, found);
+    // opEquals() can have changed, duplicated or frozen the array
+    if (found != -1 && !arrayDeleteAt(self, found, &val)) {
+        return -1;
     }
     return found;
 }
-- 
2.43.0


From b847003849b703ac13bea4f80102d16562556754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:58 +0000
Subject: [PATCH 58/60] fix: results of calls stay alive while the native
 function that called uses them

---
 vm.c | 12 ++++++++++++
 vm.h |  1 +
 2 files changed, 13 insertions(+)

diff --git a/vm.c b/vm.c
index 69fcae0..78a2427 100644
--- a/vm.c
+++ b/vm.c
@@ -1918,6 +1918,13 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
 }
 
 
+// Keeps an object alive until the native function that's running returns.
+void keepDuringCCall(Value val) {
+    if (IS_OBJ(val) && vm.curThread->inCCall > 0) {
+        vec_push(&vm.curThread->stackObjects, AS_OBJ(val));
+    }
+}
+
 /**
  * see doCallCallable
  * argCount does NOT include the instance if `isMethod` is true
@@ -1931,6 +1938,11 @@ bool callCallable(Value callable, int argCount, bool isMethod, CallInfo *info) {
     // allow collection of new stack-created objects if they're not rooted now
     th->stackObjects.length = lenBefore;
 
+    // but not of the result, which native functions pop and go on using
+    if (EC->frameCount > 0 && getFrame()->isCCall) {
+        keepDuringCCall(peek(0));
+    }
+
     return ret;
 }
 
diff --git a/vm.h b/vm.h
index b34e8e0..f809d7e 100644
--- a/vm.h
+++ b/vm.h
@@ -334,6 +334,7 @@ Value yieldBlockCatch(int argCount, Value *args, Value *err);
 // low-level call function, arguments must be pushed to stack, including
 // callable if it's not a method, or the instance if it is. Argcount does not
 // include the instance, if it's a method. `cinfo` can be NULL.
+void keepDuringCCall(Value val);
 bool callCallable(Value callable, int argCount, bool isMethod, struct CallInfo *cinfo);
 // higher-level call function, but callable must be provided. Return value is
 // pushed to stack. argCount does not include instance.
-- 
2.43.0


From 8df715f6efaf64a11cff2e9f613aa5258f332716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:58 +0000
Subject: [PATCH 59/60] fix: map values stay alive when a key's method removes
 the entry

---
 map.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/map.c b/map.c
index 347ad2c..d2b2455 100644
--- a/map.c
+++ b/map.c
@@ -81,6 +81,8 @@ static Value lxMapInspect(int argCount, Value *args) {
     Entry e; int idx = 0;
     ObjString *inspectKey, *inspectVal;
     TABLE_FOREACH(selfMap, e, idx, {
+        // inspect() of the key can remove the entry
+        keepDuringCCall(e.value);
         inspectKey = inspectString(e.key);
         inspectVal = inspectString(e.value);
         pushCString(buf, inspectKey->chars, inspectKey->length);
@@ -104,6 +106,8 @@ static Value lxMapToString(int argCount, Value *args) {
     Entry e; int idx = 0;
     int sz = map->count; int i = 0;
     TABLE_FOREACH(map, e, idx, {
+        // toString() of the key can remove the entry
+        keepDuringCCall(e.value);
         if (IS_OBJ(e.key) && AS_OBJ(e.key) == selfObj) {
             pushCString(bufRet, "{...}", 5);
         } else {
@@ -205,6 +209,9 @@ static Value lxMapHashKey(int argCount, Value *args) {
             hash = hash ^ 16667; // XXX: no reason for this number
             continue;
         }
+        // hashKey() of the one can remove the entry
+        keepDuringCCall(e.key);
+        keepDuringCCall(e.value);
         hash = hash ^ (valHash(e.key) ^ valHash(e.value));
     })
     return NUMBER_VAL(hash);
-- 
2.43.0


From d882d573bfab71e05ea4197c4bebb272755d1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:29 +0000
Subject: [PATCH 60/60] fix: Block.new refuses what cannot be called

---
 block.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/block.c b/block.c
index c71a485..56a8263 100644
--- a/block.c
+++ b/block.c
@@ -52,6 +52,10 @@ static Value lxBlockInit(int argCount, Value *args) {
     CHECK_ARITY("Block#init", 2, 2, argCount);
     Value self = args[0];
     Value callableVal = args[1];
+    if (!isCallable(callableVal)) {
+        throwArgErrorFmt("Argument 1 given to Block() must be callable, got: %s",
+            typeOfVal(callableVal));
+    }
     ObjInstance *selfObj = AS_INSTANCE(self);
     ObjInternal *internalObj = newInternalObject(false, NULL, 0, markInternalBlock, NULL, NEWOBJ_FLAG_NONE);
     hideFromGC(TO_OBJ(internalObj));
-- 
2.43.0

