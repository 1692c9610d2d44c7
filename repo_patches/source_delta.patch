From 890debfe0d9b404869c60b0cfb58db875d8bc9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 01/98] add a guarded collection hook for simulation builds

With AVIAN_SIMULATION and VM_STRESS defined, the simulator decides at each
stress point whether a collection happens.  Off by default.
---
 src/avian/machine.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 46b3909..430c74f 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -1531,14 +1531,29 @@ void shutDown(Thread* t);
 
 #ifdef VM_STRESS
 
+#ifdef AVIAN_SIMULATION
+// decides whether a collection happens at this point: 0 for none, 1 for
+// a minor and 2 for a major one
+extern "C" int avianSimGcPoint(void);
+#endif
+
 inline void stress(Thread* t)
 {
   if ((not t->m->unsafe)
       and (t->getFlags() & (Thread::StressFlag | Thread::TracingFlag)) == 0
       and t->state != Thread::NoState and t->state != Thread::IdleState) {
+#ifdef AVIAN_SIMULATION
+    int kind = avianSimGcPoint();
+    if (kind == 0) {
+      return;
+    }
+#endif  // AVIAN_SIMULATION
+
     t->setFlag(Thread::StressFlag);
 
-#ifdef VM_STRESS_MAJOR
+#ifdef AVIAN_SIMULATION
+    collect(t, kind == 2 ? Heap::MajorCollection : Heap::MinorCollection);
+#elif defined VM_STRESS_MAJOR
     collect(t, Heap::MajorCollection);
 #else   // not VM_STRESS_MAJOR
     collect(t, Heap::MinorCollection);
-- 
2.43.0


From f551efbd0397894a752844a121e5b5b06181b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 02/98] fix: save locals before null-checking invokevirtual and
 arraylength in a try block

The compiled code of these two instructions may trap on a null reference
while locals assigned in the try block live only in registers, so the
exception handler (and the garbage collector, which scans the handler's
frame) read uninitialized stack slots.
---
 src/compile.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 37ff053..f0138fd 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -4378,9 +4378,16 @@ loop:
       goto next;
 
     case arraylength: {
+      ir::Value* array = frame->pop(ir::Type::object());
+
+      if (inTryBlock(t, code, ip - 1)) {
+        c->saveLocals();
+        frame->trace(0, 0);
+      }
+
       frame->push(ir::Type::i4(),
                   c->load(ir::ExtendMode::Signed,
-                          c->memory(frame->pop(ir::Type::object()),
+                          c->memory(array,
                                     ir::Type::iptr(),
                                     TargetArrayLength),
                           ir::Type::i4()));
@@ -5482,6 +5489,11 @@ loop:
 
             ir::Value* instance = c->peek(1, parameterFootprint - 1);
 
+            if (inTryBlock(t, code, ip - 3)) {
+              c->saveLocals();
+              frame->trace(0, 0);
+            }
+
             frame->stackCall(
                 c->memory(c->binaryOp(
                               lir::And,
-- 
2.43.0


From c409400f1f55bea35013b97f8986f4f463a57b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 03/98] give up the exclusive state without a collection in
 simulation builds

---
 src/machine.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/machine.cpp b/src/machine.cpp
index 1383da4..dd29189 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4040,7 +4040,14 @@ void shutDown(Thread* t)
 
 void enter(Thread* t, Thread::State s)
 {
+#ifdef AVIAN_SIMULATION
+  // no collection can happen while the exclusive state is given up
+  if (t->state != Thread::ExclusiveState) {
+    stress(t);
+  }
+#else   // not AVIAN_SIMULATION
   stress(t);
+#endif  // not AVIAN_SIMULATION
 
   if (s == t->state)
     return;
-- 
2.43.0


From 56c3eaae31d1a38cb0765eefc22a89c5f6353bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 04/98] no collection under stateLock in simulation builds

---
 src/machine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index dd29189..3be9172 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4041,8 +4041,10 @@ void shutDown(Thread* t)
 void enter(Thread* t, Thread::State s)
 {
 #ifdef AVIAN_SIMULATION
-  // no collection can happen while the exclusive state is given up
-  if (t->state != Thread::ExclusiveState) {
+  // no collection can happen while the exclusive state is given up or
+  // stateLock is held
+  if (t->state != Thread::ExclusiveState
+      and t->m->stateLock->owner() != t->systemThread) {
     stress(t);
   }
 #else   // not AVIAN_SIMULATION
-- 
2.43.0


From 05c790cb94ebb8bf97515cd7f0bc77ad4c66c357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 05/98] fix: keep Thread.interrupt from crashing on an
 unstarted or finished thread and from setting the status twice

---
 classpath/java/lang/Thread.java | 6 +-----
 src/classpath-avian.cpp         | 5 +----
 src/machine.cpp                 | 3 ++-
 3 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 0dea70a..44c7077 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -142,11 +142,7 @@ public class Thread implements Runnable {
 
   public static native Thread currentThread();
 
-  public void interrupt() {
-    interrupt(peer);
-  }
-
-  private static native boolean interrupt(long peer);
+  public native void interrupt();
 
   public static boolean interrupted() {
     return interrupted(currentThread().peer);
diff --git a/src/classpath-avian.cpp b/src/classpath-avian.cpp
index 41ca4b1..f61d6ff 100644
--- a/src/classpath-avian.cpp
+++ b/src/classpath-avian.cpp
@@ -554,10 +554,7 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
 extern "C" AVIAN_EXPORT void JNICALL
     Avian_java_lang_Thread_interrupt(Thread* t, object, uintptr_t* arguments)
 {
-  int64_t peer;
-  memcpy(&peer, arguments, 8);
-
-  threadInterrupt(t, reinterpret_cast<Thread*>(peer)->javaThread);
+  threadInterrupt(t, cast<GcThread>(t, reinterpret_cast<object>(arguments[0])));
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
diff --git a/src/machine.cpp b/src/machine.cpp
index 3be9172..071df54 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -6043,8 +6043,9 @@ void threadInterrupt(Thread* t, GcThread* thread)
   Thread* p = reinterpret_cast<Thread*>(thread->peer());
   if (p) {
     interrupt(t, p);
+  } else {
+    thread->interrupted() = true;
   }
-  thread->interrupted() = true;
   monitorRelease(t, cast<GcMonitor>(t, interruptLock(t, thread)));
 }
 
-- 
2.43.0


From e24670381f383eb9362754eb77128a07c0364ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 06/98] fix: do not lose a notification when the notified
 thread is interrupted as well

---
 src/avian/machine.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 430c74f..fa10d14 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -3029,6 +3029,13 @@ inline bool monitorWait(Thread* t, GcMonitor* monitor, int64_t time)
     monitorRemoveWait(t, monitor);
   } else {
     expect(t, not monitorFindWait(t, monitor));
+
+    if (interrupted) {
+      // we have been notified as well, so report that and leave the
+      // interrupt pending; otherwise the notification would be lost
+      t->javaThread->interrupted() = true;
+      interrupted = false;
+    }
   }
 
   assertT(t, monitor->owner() == t);
-- 
2.43.0


From 7e4d542458ed971437e7c8cae65521a961d48172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 07/98] fix: a failed class initialization wakes its waiters,
 and they and later users fail as well

---
 src/machine.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 071df54..307128d 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5218,10 +5218,12 @@ bool preInitClass(Thread* t, GcClass* c)
           ENTER(t, Thread::IdleState);
           t->m->classLock->wait(t->systemThread, 0);
         }
-      } else if (c->vmFlags() & InitErrorFlag) {
+      }
+
+      if (c->vmFlags() & InitErrorFlag) {
         throwNew(
             t, GcNoClassDefFoundError::Type, "%s", c->name()->body().begin());
-      } else {
+      } else if (c->vmFlags() & NeedInitFlag) {
         c->vmFlags() |= InitFlag;
         return true;
       }
@@ -5235,11 +5237,18 @@ void postInitClass(Thread* t, GcClass* c)
   PROTECT(t, c);
   ACQUIRE(t, t->m->classLock);
 
-  if (t->exception
-      and instanceOf(t, type(t, GcException::Type), t->exception)) {
+  if (t->exception) {
     c->vmFlags() |= NeedInitFlag | InitErrorFlag;
     c->vmFlags() &= ~InitFlag;
+  } else {
+    c->vmFlags() &= ~(NeedInitFlag | InitFlag);
+  }
 
+  // wake up the waiters before we throw anything
+  t->m->classLock->notifyAll(t->systemThread);
+
+  if (t->exception
+      and instanceOf(t, type(t, GcException::Type), t->exception)) {
     GcThrowable* exception = t->exception;
     t->exception = 0;
 
@@ -5250,10 +5259,7 @@ void postInitClass(Thread* t, GcClass* c)
     initExecption->setException(t, exception->cause());
 
     throw_(t, initExecption->as<GcThrowable>(t));
-  } else {
-    c->vmFlags() &= ~(NeedInitFlag | InitFlag);
   }
-  t->m->classLock->notifyAll(t->systemThread);
 }
 
 void initClass(Thread* t, GcClass* c)
-- 
2.43.0


From ccd118b00944ab58c2a16a78e9bff1bd14285092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 08/98] fix: protect the result of a synchronized method and
 the exception of a failed class initializer from collections

---
 src/interpret.cpp | 4 ++++
 src/machine.cpp   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index 6ed8fef..9f5937b 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -905,6 +905,9 @@ loop:
   case areturn: {
     object result = popObject(t);
     if (frame > base) {
+      // releasing the monitor of a synchronized method may let another
+      // thread collect garbage
+      PROTECT(t, result);
       popFrame(t);
       pushObject(t, result);
       goto loop;
@@ -3213,6 +3216,7 @@ object invoke(Thread* t, GcMethod* method)
     result = interpret(t);
 
     if (LIKELY(t->exception == 0)) {
+      PROTECT(t, result);
       popFrame(t);
     } else {
       GcThrowable* exception = t->exception;
diff --git a/src/machine.cpp b/src/machine.cpp
index 307128d..5171b44 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5251,6 +5251,7 @@ void postInitClass(Thread* t, GcClass* c)
       and instanceOf(t, type(t, GcException::Type), t->exception)) {
     GcThrowable* exception = t->exception;
     t->exception = 0;
+    PROTECT(t, exception);
 
     GcExceptionInInitializerError* initExecption
         = makeThrowable(t, GcExceptionInInitializerError::Type, 0, 0, exception)
-- 
2.43.0


From 76d4bf173ed8f3c5a4c10967b86ffb4b6dda0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 09/98] fix: start a thread at most once, join(0) waits for the
 end, sleep does not end early on a spurious wakeup

---
 classpath/java/lang/Thread.java | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 44c7077..433c856 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -83,14 +83,14 @@ public class Thread implements Runnable {
   }
 
   public synchronized void start() {
-    if (peer != 0) {
+    if (getState() != State.NEW) {
       throw new IllegalStateException("thread already started");
     }
 
     state = (byte) State.RUNNABLE.ordinal();
 
-    peer = doStart();
-    if (peer == 0) {
+    // this sets peer, and the new thread clears it again when it ends
+    if (doStart() == 0) {
       state = (byte) State.NEW.ordinal();
       throw new RuntimeException("unable to start native thread");
     }
@@ -164,7 +164,13 @@ public class Thread implements Runnable {
       t.sleepLock = new Object();
     }
     synchronized (t.sleepLock) {
-      t.sleepLock.wait(milliseconds);
+      long then = System.currentTimeMillis();
+      long remaining = milliseconds;
+      while (remaining > 0) {
+        t.sleepLock.wait(remaining);
+
+        remaining = milliseconds - (System.currentTimeMillis() - then);
+      }
     }
   }
 
@@ -267,6 +273,11 @@ public class Thread implements Runnable {
 
   public synchronized void join(long milliseconds) throws InterruptedException
   {
+    if (milliseconds == 0) {
+      join();
+      return;
+    }
+
     long then = System.currentTimeMillis();
     long remaining = milliseconds;
     while (remaining > 0 && getState() != State.TERMINATED) {
-- 
2.43.0


From 818c48ccfadf4bf91b86874ba60a217fda1a265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 10/98] fix: removing a cell from a hash map does not drop the
 cells before it

---
 classpath/java/util/HashMap.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/classpath/java/util/HashMap.java b/classpath/java/util/HashMap.java
index c86f1dd..26bbb6b 100644
--- a/classpath/java/util/HashMap.java
+++ b/classpath/java/util/HashMap.java
@@ -125,6 +125,7 @@ public class HashMap<K, V> implements Map<K, V> {
         -- size;
         break;
       }
+      p = c;
     }
 
     shrink();
-- 
2.43.0


From 2a2d12fef8b5d50fc8ca33583c8a9a221164acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 11/98] fix: polling a reference queue and enqueueing a
 reference are safe against collections and other threads

---
 classpath/java/lang/ref/Reference.java      |  9 +---
 classpath/java/lang/ref/ReferenceQueue.java | 57 ++++++++++++++++-----
 2 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/classpath/java/lang/ref/Reference.java b/classpath/java/lang/ref/Reference.java
index 443e0c8..4507870 100644
--- a/classpath/java/lang/ref/Reference.java
+++ b/classpath/java/lang/ref/Reference.java
@@ -39,12 +39,7 @@ public abstract class Reference<T> {
   }
 
   public boolean enqueue() {
-    if (queue != null) {
-      queue.add(this);
-      queue = null;
-      return true;
-    } else {
-      return false;
-    }
+    ReferenceQueue q = queue;
+    return q != null && q.enqueue(this);
   }
 }
diff --git a/classpath/java/lang/ref/ReferenceQueue.java b/classpath/java/lang/ref/ReferenceQueue.java
index c5ccd6b..0acc250 100644
--- a/classpath/java/lang/ref/ReferenceQueue.java
+++ b/classpath/java/lang/ref/ReferenceQueue.java
@@ -10,27 +10,58 @@
 
 package java.lang.ref;
 
+import sun.misc.Unsafe;
+
 public class ReferenceQueue<T> {
-  private Reference<? extends T> front;
+  private static final Unsafe unsafe = Unsafe.getUnsafe();
+  private static final long frontOffset;
+  private static final long queueOffset;
+
+  static {
+    try {
+      frontOffset = unsafe.objectFieldOffset
+        (ReferenceQueue.class.getDeclaredField("front"));
+      queueOffset = unsafe.objectFieldOffset
+        (Reference.class.getDeclaredField("queue"));
+    } catch (NoSuchFieldException e) {
+      throw new Error(e);
+    }
+  }
+
+  // the VM adds references here in the middle of a garbage collection,
+  // so this may change at any time
+  private volatile Reference<? extends T> front;
 
   public Reference<? extends T> poll() {
-    Reference<? extends T> r = front;
-    if (front != null) {
-      if (front == front.jNext) {
-        front = null;
-      } else {
-        front = front.jNext;
+    while (true) {
+      Reference<? extends T> r = front;
+      if (r == null) {
+        return null;
+      }
+      Reference next = r.jNext;
+      if (unsafe.compareAndSwapObject
+          (this, frontOffset, r, next == r ? null : next))
+      {
+        return r;
       }
     }
-    return r;
   }
 
-  void add(Reference<? extends T> r) {
-    if (front == null) {
-      r.jNext = r;
+  // add the reference unless the VM or another thread already did
+  boolean enqueue(Reference<? extends T> r) {
+    if (unsafe.compareAndSwapObject(r, queueOffset, this, null)) {
+      add(r);
+      return true;
     } else {
-      r.jNext = front;
+      return false;
     }
-    front = r;
+  }
+
+  private void add(Reference<? extends T> r) {
+    Reference<? extends T> f;
+    do {
+      f = front;
+      r.jNext = (f == null ? r : f);
+    } while (! unsafe.compareAndSwapObject(this, frontOffset, f, r));
   }
 }
-- 
2.43.0


From 34be8a137be95696fe2c720ce71031002411b8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 12/98] fix: compile shifts by any constant distance

---
 src/codegen/target/x86/operations.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/codegen/target/x86/operations.cpp b/src/codegen/target/x86/operations.cpp
index d9cbde1..16105b8 100644
--- a/src/codegen/target/x86/operations.cpp
+++ b/src/codegen/target/x86/operations.cpp
@@ -1370,14 +1370,15 @@ void doShift(Context* c,
     moveCR(c, 4, &masked, 4, &cx);
     shift(c, aSize, &cx, bSize, b);
   } else {
+    // only the low bits of the distance count
+    v &= (bSize == 8 ? 0x3F : 0x1F);
+
     maybeRex(c, bSize, b);
     if (v == 1) {
       opcode(c, 0xd1, type + regCode(b));
-    } else if (vm::fitsInInt8(v)) {
+    } else {
       opcode(c, 0xc1, type + regCode(b));
       c->code.append(v);
-    } else {
-      abort(c);
     }
   }
 }
-- 
2.43.0


From 2e7739bd3970c2bd40914e18820eea77bcce1f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 13/98] fix: ConcurrentHashMap keeps mappings whose keys have
 equal or far apart hash codes

---
 classpath/java/util/concurrent/ConcurrentHashMap.java | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/concurrent/ConcurrentHashMap.java b/classpath/java/util/concurrent/ConcurrentHashMap.java
index abb0713..d986a9a 100644
--- a/classpath/java/util/concurrent/ConcurrentHashMap.java
+++ b/classpath/java/util/concurrent/ConcurrentHashMap.java
@@ -212,7 +212,8 @@ public class ConcurrentHashMap<K,V>
         return null;
       }
 
-      node.value = new Cell(key, value, null);
+      // keep the mappings of other keys with the same hash code
+      node.value = new Cell(key, value, path.value().value);
       if (unsafe.compareAndSwapObject
           (this, Content, content, new Content
            (path.fresh() ? path.add() : path.replaceWith(node),
@@ -365,7 +366,7 @@ public class ConcurrentHashMap<K,V>
     }
 
     public int compareTo(Node<T> n) {
-      return key - n.key;
+      return key < n.key ? -1 : (key == n.key ? 0 : 1);
     }
   }
 
-- 
2.43.0


From d4944593820d47280043448948204a3d5266a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 14/98] fix: views of a ConcurrentHashMap cope with absent
 keys, and setValue returns the old value

---
 classpath/java/util/concurrent/ConcurrentHashMap.java | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/classpath/java/util/concurrent/ConcurrentHashMap.java b/classpath/java/util/concurrent/ConcurrentHashMap.java
index d986a9a..7099cc5 100644
--- a/classpath/java/util/concurrent/ConcurrentHashMap.java
+++ b/classpath/java/util/concurrent/ConcurrentHashMap.java
@@ -308,12 +308,14 @@ public class ConcurrentHashMap<K,V>
     }
 
     public Map.Entry<K,V> find(Object key) {
-      return new MyEntry(ConcurrentHashMap.this.find(key));
+      Cell<K,V> cell = ConcurrentHashMap.this.find(key);
+      return cell == null ? null : new MyEntry(cell);
     }
 
     public Map.Entry<K,V> remove(Object key) {
-      return new MyEntry
-        (ConcurrentHashMap.this.remove(key, RemoveCondition.Always, null));
+      Cell<K,V> cell = ConcurrentHashMap.this.remove
+        (key, RemoveCondition.Always, null);
+      return cell == null ? null : new MyEntry(cell);
     }
 
     public void clear() {
@@ -388,7 +390,7 @@ public class ConcurrentHashMap<K,V>
     }
 
     public V setValue(V value) {
-      V v = value;
+      V v = this.value;
       this.value = value;
       put(key, value);
       return v;
-- 
2.43.0


From 512da7125cef368379792b0151bdcbbce4c2c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 15/98] fix: LinkedBlockingQueue.addAll and clear wake up the
 threads they allow to go on

---
 classpath/java/util/concurrent/LinkedBlockingQueue.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classpath/java/util/concurrent/LinkedBlockingQueue.java b/classpath/java/util/concurrent/LinkedBlockingQueue.java
index 49be16c..6de785c 100644
--- a/classpath/java/util/concurrent/LinkedBlockingQueue.java
+++ b/classpath/java/util/concurrent/LinkedBlockingQueue.java
@@ -143,6 +143,7 @@ public class LinkedBlockingQueue<T> extends AbstractQueue<T>
         return false;
       } else {
         storage.addAll(c);
+        handleAdd();
         
         return true;
       }
@@ -278,6 +279,7 @@ public class LinkedBlockingQueue<T> extends AbstractQueue<T>
   public void clear() {
     synchronized (collectionLock) {
       storage.clear();
+      handleRemove();
     }
   }
 
-- 
2.43.0


From c956419b635f7c619a4e708046a39f00a9514f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 16/98] fix: FutureTask.cancel does not hang or misreport, and
 get with a short time-out gives the result of a finished task

---
 .../java/util/concurrent/FutureTask.java      | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/classpath/java/util/concurrent/FutureTask.java b/classpath/java/util/concurrent/FutureTask.java
index 967d2c8..09b18f6 100644
--- a/classpath/java/util/concurrent/FutureTask.java
+++ b/classpath/java/util/concurrent/FutureTask.java
@@ -59,15 +59,12 @@ public class FutureTask<T> implements RunnableFuture<T> {
            * interrupted and what the callable did with the state. 
            */
         } else {
-          /* Should be in canceling state, so block forever till we are 
-           * interrupted.  If state already transitioned into canceled 
-           * and thus thread is in interrupted status, the exception should 
-           * throw immediately on the sleep call.
+          /* Should be in canceling state, so wait till the canceling thread 
+           * has interrupted us.  The callable may have seen and cleared that 
+           * interrupt already, so we can not wait for the interrupt itself.
            */
-          try {
-            Thread.sleep(Long.MAX_VALUE);
-          } catch (InterruptedException e) {
-            // expected
+          while (currentState.get() == State.Canceling) {
+            Thread.yield();
           }
         }
 
@@ -100,12 +97,14 @@ public class FutureTask<T> implements RunnableFuture<T> {
                currentState.compareAndSet(State.Running, State.Canceling)) {
       // handleDone will be called from running thread
       try {
-        Thread runningThread = this.runningThread;
-        if (runningThread != null) {
-          runningThread.interrupt();
-          
-          return true;
+        Thread runningThread;
+        while ((runningThread = this.runningThread) == null) {
+          // the thread that runs the task is about to set this
+          Thread.yield();
         }
+        runningThread.interrupt();
+          
+        return true;
       } finally {
         // we can not set to canceled until interrupt status has been set
         currentState.set(State.Canceled);
@@ -156,7 +155,7 @@ public class FutureTask<T> implements RunnableFuture<T> {
       }
     }
     
-    if (remainingTime <= 0) {
+    if (! isDone()) {
       throw new TimeoutException();
     } else if (currentState.get() == State.Canceled) {
       throw new CancellationException();
-- 
2.43.0


From de270ddf00bf0fa84f53d92c70debd3ddad2750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 17/98] fix: char fields of interpreted code and of classes
 resolved late are not sign-extended

---
 src/compile.cpp   | 2 ++
 src/interpret.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index f0138fd..39630f4 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2899,6 +2899,8 @@ uint64_t getFieldValue(Thread* t, object target, GcField* field)
     return fieldAtOffset<int8_t>(target, field->offset());
 
   case CharField:
+    return fieldAtOffset<uint16_t>(target, field->offset());
+
   case ShortField:
     return fieldAtOffset<int16_t>(target, field->offset());
 
diff --git a/src/interpret.cpp b/src/interpret.cpp
index 9f5937b..cabdaff 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -733,6 +733,9 @@ void pushField(Thread* t, object target, GcField* field)
     break;
 
   case CharField:
+    pushInt(t, fieldAtOffset<uint16_t>(target, field->offset()));
+    break;
+
   case ShortField:
     pushInt(t, fieldAtOffset<int16_t>(target, field->offset()));
     break;
-- 
2.43.0


From 2b5d1d1cb421dc301b0f5518b1a5cc2cb4b7784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 18/98] fix: Unsafe.getChar and getCharVolatile do not
 sign-extend

---
 src/builtin.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/builtin.cpp b/src/builtin.cpp
index 4369ec6..dac9fd8 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -730,7 +730,8 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
                                      object method,
                                      uintptr_t* arguments)
 {
-  return Avian_sun_misc_Unsafe_getShort__J(t, method, arguments);
+  return static_cast<uint16_t>(
+      Avian_sun_misc_Unsafe_getShort__J(t, method, arguments));
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
@@ -1221,7 +1222,8 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
                                           object method,
                                           uintptr_t* arguments)
 {
-  return Avian_sun_misc_Unsafe_getShortVolatile(t, method, arguments);
+  return static_cast<uint16_t>(
+      Avian_sun_misc_Unsafe_getShortVolatile(t, method, arguments));
 }
 
 extern "C" AVIAN_EXPORT void JNICALL
-- 
2.43.0


From d20ac9180f6f81a01bca570f4abd2570f3d79e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 19/98] fix: protect the thread from collections in
 Unsafe.unpark

---
 src/builtin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builtin.cpp b/src/builtin.cpp
index dac9fd8..420f337 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -1055,6 +1055,7 @@ extern "C" AVIAN_EXPORT void JNICALL
     Avian_sun_misc_Unsafe_unpark(Thread* t, object, uintptr_t* arguments)
 {
   GcThread* thread = cast<GcThread>(t, reinterpret_cast<object>(arguments[1]));
+  PROTECT(t, thread);
 
   monitorAcquire(t, cast<GcMonitor>(t, interruptLock(t, thread)));
   thread->unparked() = true;
-- 
2.43.0


From 4f45e530c20a28a54093882db549540a7b415f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 20/98] fix: HashSet.remove tells whether the element was there

---
 classpath/java/util/HashSet.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/util/HashSet.java b/classpath/java/util/HashSet.java
index 3c70cda..f325bca 100644
--- a/classpath/java/util/HashSet.java
+++ b/classpath/java/util/HashSet.java
@@ -51,7 +51,7 @@ public class HashSet<T> extends AbstractSet<T> implements Set<T> {
   }
 
   public boolean remove(Object element) {
-    return map.remove(element) != Value;
+    return map.remove(element) == Value;
   }
 
   public void clear() {
-- 
2.43.0


From 5de2cf3a1188047a0fb6b726f6def59fcff51a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 21/98] fix: synchronized collections lock themselves, and
 toArray is atomic

---
 classpath/java/util/Collections.java | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/classpath/java/util/Collections.java b/classpath/java/util/Collections.java
index 9a6f998..0391b6a 100644
--- a/classpath/java/util/Collections.java
+++ b/classpath/java/util/Collections.java
@@ -221,7 +221,7 @@ public class Collections {
     protected final Collection<T> collection;
 
     public SynchronizedCollection(Object lock, Collection<T> collection) {
-      this.lock = lock;
+      this.lock = lock == null ? this : lock;
       this.collection = collection;
     }
 
@@ -250,7 +250,7 @@ public class Collections {
     }
 
     public Object[] toArray() {
-      return toArray(new Object[size()]);      
+      synchronized (lock) { return collection.toArray(); }
     }
 
     public <T> T[] toArray(T[] array) {
@@ -340,7 +340,7 @@ public class Collections {
   }
 
   public static <V> Set<V> synchronizedSet(Set<V> set) {
-    return new SynchronizedSet<V> (set, set);
+    return new SynchronizedSet<V> (null, set);
   }
   
   static class SynchronizedList<T>
@@ -350,7 +350,7 @@ public class Collections {
     private final List<T> list;
     
     public SynchronizedList(List<T> list) {
-      super(list, list);
+      super(null, list);
       
       this.list = list;
     }
-- 
2.43.0


From 1cba4419e8bd543a16da586962249a16a869c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 22/98] fix: make the compound operations of Vector and Stack
 atomic

---
 classpath/java/util/Stack.java  | 10 ++++++++--
 classpath/java/util/Vector.java | 26 ++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/classpath/java/util/Stack.java b/classpath/java/util/Stack.java
index 9d7def9..b4ae443 100644
--- a/classpath/java/util/Stack.java
+++ b/classpath/java/util/Stack.java
@@ -15,11 +15,17 @@ public class Stack<T> extends Vector<T> {
     return size() == 0;
   }
 
-  public T peek() {
+  public synchronized T peek() {
+    if (isEmpty()) {
+      throw new EmptyStackException();
+    }
     return get(size() - 1);
   }
 
-  public T pop() {
+  public synchronized T pop() {
+    if (isEmpty()) {
+      throw new EmptyStackException();
+    }
     return remove(size() - 1);
   }
 
diff --git a/classpath/java/util/Vector.java b/classpath/java/util/Vector.java
index 3b8a9d8..751df66 100644
--- a/classpath/java/util/Vector.java
+++ b/classpath/java/util/Vector.java
@@ -105,6 +105,32 @@ public class Vector<T> extends AbstractList<T> implements java.io.Serializable,
     return list.lastIndexOf(element);
   }
 
+  public synchronized boolean addAll(int index,
+                                     Collection<? extends T> collection)
+  {
+    return super.addAll(index, collection);
+  }
+
+  public synchronized boolean containsAll(Collection<?> collection) {
+    return super.containsAll(collection);
+  }
+
+  public synchronized boolean removeAll(Collection<?> collection) {
+    return super.removeAll(collection);
+  }
+
+  public synchronized Object[] toArray() {
+    return super.toArray();
+  }
+
+  public synchronized <S> S[] toArray(S[] array) {
+    return super.toArray(array);
+  }
+
+  public synchronized String toString() {
+    return super.toString();
+  }
+
   public synchronized void copyInto(Object[] array) {
     for (int i = 0; i < size(); ++i) {
       array[i] = list.get(i);
-- 
2.43.0


From 462da7839e32c7a867217cbc18c83a4e2eb0ebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 23/98] fix: synchronize StringBuffer.substring and subSequence

---
 classpath/java/lang/StringBuffer.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/StringBuffer.java b/classpath/java/lang/StringBuffer.java
index 66ff105..6c63ae7 100644
--- a/classpath/java/lang/StringBuffer.java
+++ b/classpath/java/lang/StringBuffer.java
@@ -149,11 +149,11 @@ public class StringBuffer implements CharSequence {
     return sb.toString();
   }
   
-  public String substring(int start, int end) {
+  public synchronized String substring(int start, int end) {
     return sb.substring(start, end);
   }
   
-  public CharSequence subSequence(int start, int end) {
+  public synchronized CharSequence subSequence(int start, int end) {
     return sb.subSequence(start, end);
   }
 }
-- 
2.43.0


From 9ad3c100e671ee66e7455b2268f3270ac79f32ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 24/98] fix: synchronize ByteArrayOutputStream

---
 classpath/java/io/ByteArrayOutputStream.java | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/classpath/java/io/ByteArrayOutputStream.java b/classpath/java/io/ByteArrayOutputStream.java
index 96b0cd5..2e3a45b 100644
--- a/classpath/java/io/ByteArrayOutputStream.java
+++ b/classpath/java/io/ByteArrayOutputStream.java
@@ -25,7 +25,7 @@ public class ByteArrayOutputStream extends OutputStream {
     this(0);
   }
 
-  public void reset() {
+  public synchronized void reset() {
     firstCell = null;
     curCell = null;
     length = 0;
@@ -33,11 +33,11 @@ public class ByteArrayOutputStream extends OutputStream {
     position = 0;
   }
 
-  public int size() {
+  public synchronized int size() {
     return length;
   }
 
-  public void write(int c) {
+  public synchronized void write(int c) {
     if (buffer == null) {
       buffer = new byte[BufferSize];
     } else if (position >= buffer.length) {
@@ -55,7 +55,7 @@ public class ByteArrayOutputStream extends OutputStream {
     return array;
   }
 
-  public void write(byte[] b, int offset, int length) {
+  public synchronized void write(byte[] b, int offset, int length) {
     if (b == null) {
       throw new NullPointerException();
     }
@@ -98,7 +98,7 @@ public class ByteArrayOutputStream extends OutputStream {
     }    
   }
 
-  public byte[] toByteArray() {
+  public synchronized byte[] toByteArray() {
     flushBuffer();
     
     byte[] array = new byte[length];
-- 
2.43.0


From a5385afc47a35bfa3bca1138e4fc3169a01cf313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 25/98] fix: LinkedList.add at an index counts and links the
 element, and can append

---
 classpath/java/util/LinkedList.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/java/util/LinkedList.java b/classpath/java/util/LinkedList.java
index 6896b1e..b5ea9af 100644
--- a/classpath/java/util/LinkedList.java
+++ b/classpath/java/util/LinkedList.java
@@ -140,10 +140,14 @@ public class LinkedList<T> extends AbstractSequentialList<T> implements Deque<T>
   public void add(int index, T element) {
     if (index == 0) {
       addFirst(element);
+    } else if (index == size) {
+      addLast(element);
     } else {
       Cell<T> cell = find(index);
       Cell<T> newCell = new Cell(element, cell.prev, cell);
       cell.prev.next = newCell;
+      cell.prev = newCell;
+      ++ size;
     }
   }
 
-- 
2.43.0


From b178b8f4dfa6c0fedb3222714d26ca6f4a2496da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 26/98] fix: StringBuilder.delete keeps the text behind the
 range, setLength resets and pads

---
 classpath/java/lang/StringBuilder.java | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index 8e78d1f..498ec7d 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -195,7 +195,9 @@ public class StringBuilder implements CharSequence, Appendable {
       int s = index - c.value.length();
       index = s;
       
-      if (end >= e) {
+      if (end <= s) {
+        p = c;
+      } else if (end >= e) {
         if (start <= s) {
           if (p == null) {
             chain = c.next;
@@ -209,6 +211,7 @@ public class StringBuilder implements CharSequence, Appendable {
       } else {
         if (start <= s) {
           c.value = c.value.substring(end - s, e - s);
+          p = c;
         } else {
           String v = c.value;
           c.value = v.substring(end - s, e - s);
@@ -291,9 +294,15 @@ public class StringBuilder implements CharSequence, Appendable {
     if (v == 0) {
       length = 0;
       chain = null;
+      buffer = null;
+      position = 0;
       return;
     }
 
+    while (length < v) {
+      append('\0');
+    }
+
     flush();
 
     int index = length;
-- 
2.43.0


From d47d60f5d55cf55c90b7dc7531a9c88246b15ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 27/98] no collection where the thread state does not change in
 simulation builds

---
 src/machine.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 5171b44..e02baa2 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4041,9 +4041,9 @@ void shutDown(Thread* t)
 void enter(Thread* t, Thread::State s)
 {
 #ifdef AVIAN_SIMULATION
-  // no collection can happen while the exclusive state is given up or
-  // stateLock is held
-  if (t->state != Thread::ExclusiveState
+  // no collection can happen while the exclusive state is given up,
+  // stateLock is held or the state does not change
+  if (s != t->state and t->state != Thread::ExclusiveState
       and t->m->stateLock->owner() != t->systemThread) {
     stress(t);
   }
-- 
2.43.0


From cae55c6a5e595cec1e42398505a87f1352085a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 28/98] fix: cloning an array does not hand its hash code mark
 to the clone

---
 src/machine.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index e02baa2..d173637 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5531,9 +5531,11 @@ object clone(Thread* t, object o)
 
   if (class_->arrayElementSize()) {
     clone = static_cast<object>(allocate(t, size, class_->objectMask()));
-    memcpy(clone, o, size);
-    // clear any object header flags:
-    setObjectClass(t, o, objectClass(t, o));
+    // the header flags of the original are not those of the clone:
+    memcpy(reinterpret_cast<void**>(clone) + 1,
+           reinterpret_cast<void**>(o) + 1,
+           size - BytesPerWord);
+    setObjectClass(t, clone, objectClass(t, o));
   } else if (instanceOf(t, type(t, GcCloneable::Type), o)) {
     clone = make(t, class_);
     memcpy(reinterpret_cast<void**>(clone) + 1,
-- 
2.43.0


From e2607203538ac0ce0d826b60418ea8e55eaa3c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 29/98] fix: Thread.enumerate gives the live threads, not those
 that have ended

---
 src/classpath-avian.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/classpath-avian.cpp b/src/classpath-avian.cpp
index f61d6ff..f8df9bc 100644
--- a/src/classpath-avian.cpp
+++ b/src/classpath-avian.cpp
@@ -232,8 +232,11 @@ void enumerateThreads(Thread* t,
                       unsigned limit)
 {
   if (*index < limit) {
-    array->setBodyElement(t, *index, x->javaThread);
-    ++(*index);
+    // threads which have ended may still wait to be reaped
+    if (x->state != Thread::ZombieState and x->state != Thread::JoinedState) {
+      array->setBodyElement(t, *index, x->javaThread);
+      ++(*index);
+    }
 
     if (x->peer)
       enumerateThreads(t, x->peer, array, index, limit);
@@ -600,7 +603,7 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
                        objectArrayLength(t, reinterpret_cast<object>(array)));
   unsigned index = 0;
   local::enumerateThreads(t, t->m->rootThread, array, &index, count);
-  return count;
+  return index;
 }
 
 extern "C" AVIAN_EXPORT int64_t JNICALL
-- 
2.43.0


From 8981d14dec4b9dd7c2d6f1883f481a5899fe25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 30/98] fix: StringBuilder.delete and replace accept an end
 beyond the text

---
 classpath/java/lang/StringBuilder.java | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/StringBuilder.java b/classpath/java/lang/StringBuilder.java
index 498ec7d..fd6053f 100644
--- a/classpath/java/lang/StringBuilder.java
+++ b/classpath/java/lang/StringBuilder.java
@@ -178,11 +178,15 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public StringBuilder delete(int start, int end) {
-    if (start >= end) {
+    if (end > length) {
+      end = length;
+    }
+
+    if (start == end) {
       return this;
     }
 
-    if (start < 0 || end > length) {
+    if (start < 0 || start > end) {
       throw new IndexOutOfBoundsException();
     }
 
@@ -227,6 +231,10 @@ public class StringBuilder implements CharSequence, Appendable {
   }
 
   public StringBuilder deleteCharAt(int i) {
+    if (i < 0 || i >= length) {
+      throw new IndexOutOfBoundsException();
+    }
+
     return delete(i, i + 1);
   }
 
-- 
2.43.0


From 2c528175abf7dca5cdf47d990748c418d8f33d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 31/98] fix: AbstractCollection.removeAll removes every
 occurrence

---
 classpath/java/util/AbstractCollection.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/AbstractCollection.java b/classpath/java/util/AbstractCollection.java
index d6b6dda..15edf17 100644
--- a/classpath/java/util/AbstractCollection.java
+++ b/classpath/java/util/AbstractCollection.java
@@ -84,7 +84,10 @@ public abstract class AbstractCollection<T> implements Collection<T> {
 
     Iterator<?> it = c.iterator();
     while (it.hasNext()) {
-      changed = remove(it.next()) || changed;
+      Object element = it.next();
+      while (remove(element)) {
+        changed = true;
+      }
     }
 
     return changed;
-- 
2.43.0


From dff4c1f22d76a7bcf9070754b43984014bafe46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 32/98] fix: continue after partial writes to files

---
 classpath/java-io.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/classpath/java-io.cpp b/classpath/java-io.cpp
index dc76e5f..6248733 100644
--- a/classpath/java-io.cpp
+++ b/classpath/java-io.cpp
@@ -174,9 +174,15 @@ inline int doRead(JNIEnv* e, jint fd, jbyte* data, jint length)
 
 inline void doWrite(JNIEnv* e, jint fd, const jbyte* data, jint length)
 {
-  int r = WRITE(fd, data, length);
-  if (r != length) {
-    throwNewErrno(e, "java/io/IOException");
+  while (length > 0) {
+    int r = WRITE(fd, data, length);
+    if (r < 0) {
+      throwNewErrno(e, "java/io/IOException");
+      return;
+    }
+    // the transfer may have been partial, so continue with the rest
+    data += r;
+    length -= r;
   }
 }
 
-- 
2.43.0


From fae530ec36882190b921abd925197f49acd78e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 33/98] fix: FileInputStream.read leaves the array beyond the
 bytes read alone

---
 classpath/java-io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classpath/java-io.cpp b/classpath/java-io.cpp
index 6248733..fb8334f 100644
--- a/classpath/java-io.cpp
+++ b/classpath/java-io.cpp
@@ -776,7 +776,9 @@ extern "C" JNIEXPORT jint JNICALL
 
   int r = doRead(e, fd, data, length);
 
-  e->SetByteArrayRegion(b, offset, length, data);
+  if (r > 0) {
+    e->SetByteArrayRegion(b, offset, r, data);
+  }
 
   free(data);
 
-- 
2.43.0


From bec3912379a2e6bda34606533cd4cd27ad91d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 34/98] fix: BufferedInputStream gave old data again after a
 failed read

---
 classpath/java/io/BufferedInputStream.java | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/classpath/java/io/BufferedInputStream.java b/classpath/java/io/BufferedInputStream.java
index 25a7441..5df93b8 100644
--- a/classpath/java/io/BufferedInputStream.java
+++ b/classpath/java/io/BufferedInputStream.java
@@ -28,10 +28,14 @@ public class BufferedInputStream extends InputStream {
   }
 
   private int fill() throws IOException {
-    position = 0;
-    limit = in.read(buffer);
+    position = limit = 0;
 
-    return limit;
+    int count = in.read(buffer);
+    if (count > 0) {
+      limit = count;
+    }
+
+    return count;
   }
 
   public int read() throws IOException {
-- 
2.43.0


From 9f750ec22154a6580c81f43e79d8e2030ebc9cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 35/98] fix: RandomAccessFile could not read what it wrote, and
 misread multi-byte values

---
 classpath/java/io/RandomAccessFile.java | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/classpath/java/io/RandomAccessFile.java b/classpath/java/io/RandomAccessFile.java
index 4739b9e..48173a1 100644
--- a/classpath/java/io/RandomAccessFile.java
+++ b/classpath/java/io/RandomAccessFile.java
@@ -155,21 +155,21 @@ public class RandomAccessFile implements DataInput, Closeable {
   public short readShort() throws IOException {
     final byte[] buffer = new byte[2];
     readFully(buffer);
-    return (short)((buffer[0] << 8) | buffer[1]);
+    return (short)((buffer[0] << 8) | (buffer[1] & 0xff));
   }
 
   public int readInt() throws IOException {
     byte[] buf = new byte[4];
     readFully(buf);
-    return ((buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3]);
+    return ((buf[0] << 24) | ((buf[1] & 0xff) << 16) | ((buf[2] & 0xff) << 8) | (buf[3] & 0xff));
   }
 
   public float readFloat() throws IOException {
-    return Float.floatToIntBits(readInt());
+    return Float.intBitsToFloat(readInt());
   }
 
   public double readDouble() throws IOException {
-    return Double.doubleToLongBits(readLong());
+    return Double.longBitsToDouble(readLong());
   }
 
   public long readLong() throws IOException {
@@ -216,6 +216,7 @@ public class RandomAccessFile implements DataInput, Closeable {
   public void write(int b) throws IOException {
     int count = writeBytes(peer, position, new byte[] { (byte)b }, 0, 1);
     if (count > 0) position += count;
+    if (position > length) length = position;
   }
 
   private static native int writeBytes(long peer, long position, byte[] buffer,
-- 
2.43.0


From 5192ccc4315f1549ec9a33062172f34ac9885f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 36/98] fix: DataInputStream.readFloat and readDouble converted
 the bits as a number

---
 classpath/java/io/DataInputStream.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/DataInputStream.java b/classpath/java/io/DataInputStream.java
index a80d93c..f1f9a6b 100644
--- a/classpath/java/io/DataInputStream.java
+++ b/classpath/java/io/DataInputStream.java
@@ -73,11 +73,11 @@ public class DataInputStream extends InputStream implements DataInput {
   }
 
   public float readFloat() throws IOException {
-    return Float.floatToIntBits(readInt());
+    return Float.intBitsToFloat(readInt());
   }
 
   public double readDouble() throws IOException {
-    return Double.doubleToLongBits(readLong());
+    return Double.longBitsToDouble(readLong());
   }
 
   public long readLong() throws IOException {
-- 
2.43.0


From 11fd1deef79cf92ff31d227cce9fc0c6f6353720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 37/98] fix: File.createTempFile gave the same file to
 concurrent callers

---
 classpath/java/io/File.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/File.java b/classpath/java/io/File.java
index 10c3314..a35ee62 100644
--- a/classpath/java/io/File.java
+++ b/classpath/java/io/File.java
@@ -70,8 +70,8 @@ public class File implements Serializable {
       ret = generateFile(directory, prefix, state, suffix);
       state *= 7;
       state += 3;
-    } while(ret == null);
-    ret.createNewFile();
+      // another thread or process may have made this file in the meantime
+    } while(ret == null || !ret.createNewFile());
     return ret;
   }
 
-- 
2.43.0


From 7c44ee03477277841a5cf3d75e68e7b004660655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 38/98] fix: BufferedReader split a line end that came in two
 pieces, and held back what it had

---
 classpath/java/io/BufferedReader.java | 71 +++++++++++++++++----------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/classpath/java/io/BufferedReader.java b/classpath/java/io/BufferedReader.java
index 8d5a69b..7312e3e 100644
--- a/classpath/java/io/BufferedReader.java
+++ b/classpath/java/io/BufferedReader.java
@@ -15,6 +15,7 @@ public class BufferedReader extends Reader {
   private final char[] buffer;
   private int position;
   private int limit;
+  private boolean skipNewline;
 
   public BufferedReader(Reader in, int bufferSize) {
     this.in = in;
@@ -26,8 +27,11 @@ public class BufferedReader extends Reader {
   }
   
   private void fill() throws IOException {
-    position = 0;
-    limit = in.read(buffer);
+    position = limit = 0;
+    int c = in.read(buffer);
+    if (c > 0) {
+      limit = c;
+    }
   }
 
   public String readLine() throws IOException {
@@ -41,12 +45,25 @@ public class BufferedReader extends Reader {
         return sb.length() == 0 ? null : sb.toString();
       }
 
+      if (skipNewline) {
+        skipNewline = false;
+        if (buffer[position] == '\n') {
+          ++ position;
+          continue;
+        }
+      }
+
       for (int i = position; i < limit; ++i) {
         if(buffer[i] == '\r') {
           sb.append(buffer, position, i - position);
           position = i + 1;
-          if(i+1 < limit && buffer[i+1] == '\n') {
-            position = i + 2;
+          if(i+1 < limit) {
+            if(buffer[i+1] == '\n') {
+              position = i + 2;
+            }
+          } else {
+            // the second half of this line's end may be yet to come
+            skipNewline = true;
           }
           return sb.toString();
         } else if (buffer[i] == '\n') {
@@ -61,38 +78,42 @@ public class BufferedReader extends Reader {
   }
 
   public int read(char[] b, int offset, int length) throws IOException {
-    int count = 0;
-
-    if (position >= limit && length < buffer.length) {
-      fill();
+    if (length == 0) {
+      return 0;
     }
 
-    if (position < limit) {
+    while (true) {
+      if (position >= limit) {
+        if (length >= buffer.length && ! skipNewline) {
+          return in.read(b, offset, length);
+        }
+
+        fill();
+
+        if (position >= limit) {
+          return -1;
+        }
+      }
+
+      if (skipNewline) {
+        skipNewline = false;
+        if (buffer[position] == '\n') {
+          ++ position;
+          continue;
+        }
+      }
+
+      // what is here must not wait for what is not
       int remaining = limit - position;
       if (remaining > length) {
         remaining = length;
       }
 
       System.arraycopy(buffer, position, b, offset, remaining);
-
-      count += remaining;
       position += remaining;
-      offset += remaining;
-      length -= remaining;
-    }
 
-    if (length > 0) {
-      int c = in.read(b, offset, length);
-      if (c == -1) {
-        if (count == 0) {
-          count = -1;
-        }
-      } else {
-        count += c;
-      }
+      return remaining;
     }
-
-    return count;
   }
 
   public void close() throws IOException {
-- 
2.43.0


From 9c50658e41544f287ab416e2203d28ae28657719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 39/98] fix: PushbackReader held a pushed back character back
 until more came

---
 classpath/java/io/PushbackReader.java | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/classpath/java/io/PushbackReader.java b/classpath/java/io/PushbackReader.java
index 49acf98..d1ed1ac 100644
--- a/classpath/java/io/PushbackReader.java
+++ b/classpath/java/io/PushbackReader.java
@@ -28,25 +28,14 @@ public class PushbackReader extends Reader {
   }
 
   public int read(char[] b, int offset, int length) throws IOException {
-    int count = 0;
     if (hasSavedChar && length > 0) {
-      length--;
-      b[offset++] = savedChar;
+      // do not wait for more: there may be none yet
+      b[offset] = savedChar;
       hasSavedChar = false;
-      count = 1;
-    }
-    if (length > 0) {
-      int c = in.read(b, offset, length);
-      if (c == -1) {
-        if (count == 0) {
-          count = -1;
-        }
-      } else {
-        count += c;
-      }
+      return 1;
     }
 
-    return count;
+    return in.read(b, offset, length);
   }
 
   public void unread(char[] b, int offset, int length) throws IOException {
-- 
2.43.0


From f14d74e64c7244bc10780ef556461897a81bb385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 40/98] fix: ObjectInputStream misread longs, and blocks that
 are longer than 255 bytes

---
 classpath/java/io/ObjectInputStream.java | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/classpath/java/io/ObjectInputStream.java b/classpath/java/io/ObjectInputStream.java
index 6667714..25a61b0 100644
--- a/classpath/java/io/ObjectInputStream.java
+++ b/classpath/java/io/ObjectInputStream.java
@@ -84,7 +84,7 @@ public class ObjectInputStream extends InputStream implements DataInput {
   }
 
   private long rawLong() throws IOException {
-    return ((rawInt() & 0xffffffffl) << 32) | rawInt();
+    return ((rawInt() & 0xffffffffl) << 32) | (rawInt() & 0xffffffffl);
   }
 
   private String rawString() throws IOException {
@@ -141,6 +141,8 @@ public class ObjectInputStream extends InputStream implements DataInput {
       int b = rawByte();
       if (b == TC_BLOCKDATA) {
         remainingBlockData = rawByte();
+      } else if (b == TC_BLOCKDATALONG) {
+        remainingBlockData = rawInt();
       } else {
         throw new UnsupportedOperationException("Unknown token: 0x"
             + Integer.toHexString(b));
@@ -159,7 +161,8 @@ public class ObjectInputStream extends InputStream implements DataInput {
   }
 
   private long rawBlockDataLong() throws IOException {
-    return ((rawBlockDataInt() & 0xffffffffl) << 32) | rawBlockDataInt();
+    return ((rawBlockDataInt() & 0xffffffffl) << 32)
+      | (rawBlockDataInt() & 0xffffffffl);
   }
 
   public boolean readBoolean() throws IOException {
-- 
2.43.0


From b86d23951830f6abb613f94e123ba3096f9a4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 41/98] fix: Deflater and InflaterInputStream failed on an
 empty input

---
 classpath/java/util/zip/Deflater.java            | 7 ++++++-
 classpath/java/util/zip/InflaterInputStream.java | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/classpath/java/util/zip/Deflater.java b/classpath/java/util/zip/Deflater.java
index 7a86294..44e222f 100644
--- a/classpath/java/util/zip/Deflater.java
+++ b/classpath/java/util/zip/Deflater.java
@@ -107,10 +107,15 @@ public class Deflater {
       throw new IllegalStateException();      
     }
 
-    if (input == null || output == null) {
+    if (output == null) {
       throw new NullPointerException();
     }
 
+    if (input == null) {
+      // nothing to compress but the end
+      input = new byte[0];
+    }
+
     int[] results = new int[3];
     deflate(peer, 
             input, this.offset, this.length,
diff --git a/classpath/java/util/zip/InflaterInputStream.java b/classpath/java/util/zip/InflaterInputStream.java
index fcefaec..eb49bd6 100644
--- a/classpath/java/util/zip/InflaterInputStream.java
+++ b/classpath/java/util/zip/InflaterInputStream.java
@@ -41,6 +41,10 @@ public class InflaterInputStream extends InputStream {
   }
 
   public int read(byte[] b, int offset, int length) throws IOException {
+    if (length == 0) {
+      return 0;
+    }
+
     if (inflater.finished()) {
       return -1;
     }
-- 
2.43.0


From a62c2e66d7b19fe25ae1f3c0f4a51fe7cc291138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 42/98] fix: ZipOutputStream put bytes out of order, garbage on
 flush, and cut non-ASCII names short

---
 classpath/java/util/zip/ZipOutputStream.java | 34 ++++++++++++--------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/classpath/java/util/zip/ZipOutputStream.java b/classpath/java/util/zip/ZipOutputStream.java
index e5b929a..ea7b51e 100644
--- a/classpath/java/util/zip/ZipOutputStream.java
+++ b/classpath/java/util/zip/ZipOutputStream.java
@@ -70,12 +70,7 @@ public class ZipOutputStream extends DeflaterOutputStream {
   }
   
   public void closeEntry() throws IOException {
-    // write remainder of buffer if partially full
-    if (bufferIndex != 0) {
-      write(inputBuffer, 0, bufferIndex);
-      bufferIndex = 0;
-    }
-
+    drain();
     finish();
 
     currentEntry.crc = (int) crc.getValue();
@@ -88,6 +83,21 @@ public class ZipOutputStream extends DeflaterOutputStream {
     if (offset < 0 || length < 0 || b.length - (offset + length) < 0)
       throw new IndexOutOfBoundsException();
 
+    // single bytes written before these come first
+    drain();
+    compress(b, offset, length);
+  }
+
+  // write remainder of buffer if partially full
+  private void drain() throws IOException {
+    int count = bufferIndex;
+    if (count != 0) {
+      bufferIndex = 0;
+      compress(inputBuffer, 0, count);
+    }
+  }
+
+  private void compress(byte[] b, int offset, int length) throws IOException {
     currentEntry.uncompSize += length;
     crc.update(b, offset, length);
     currentEntry.crc = (int) crc.getValue();
@@ -101,9 +111,8 @@ public class ZipOutputStream extends DeflaterOutputStream {
   public void write(int b) throws IOException {
     inputBuffer[bufferIndex] = (byte)(b & 0xff);
     bufferIndex += 1;
-    if (bufferIndex == 1024) {
-      write(inputBuffer, 0, bufferIndex);
-      bufferIndex = 0;
+    if (bufferIndex == INPUT_BUFFER_SIZE) {
+      drain();
     }
   }
 
@@ -129,7 +138,7 @@ public class ZipOutputStream extends DeflaterOutputStream {
     // is written here as 0 and written correctly in the data descripter
     addFourBytes(0, 18, tmpBuffer);               // compressed size
     addFourBytes(0, 22, tmpBuffer);               // uncompressed size
-    addTwoBytes(e.name.length(), 26, tmpBuffer);  // length of file name
+    addTwoBytes(e.name.getBytes("UTF-8").length, 26, tmpBuffer);  // length of file name
 
     // extra field length, in this implementation extra field in not used
     addTwoBytes(0, 28, tmpBuffer);
@@ -167,7 +176,7 @@ public class ZipOutputStream extends DeflaterOutputStream {
     addFourBytes((int)e.compSize, 20, tmpBuffer);          // compressed size
     addFourBytes((int)e.uncompSize, 24, tmpBuffer);        // uncompressed size
    
-    addTwoBytes(e.getName().length(), 28, tmpBuffer); // file name length
+    addTwoBytes(e.getName().getBytes("UTF-8").length, 28, tmpBuffer); // file name length
 
     // the following 5 fields are all 0 for a simple default compression
     addTwoBytes(0, 30, tmpBuffer);                    // extra field length (not used)
@@ -214,8 +223,7 @@ public class ZipOutputStream extends DeflaterOutputStream {
 
   @Override
   public void flush() throws IOException {
-    out.write(inputBuffer, 0, inputBuffer.length);
-    inputBuffer = new byte[INPUT_BUFFER_SIZE];
+    out.flush();
   }
 
   private void finish() throws IOException {
-- 
2.43.0


From b689129b687f9afd29d0500efeca38f7df998220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 43/98] fix: ZipFile mixed up its entries when threads shared
 it or a read failed

---
 classpath/java/util/zip/ZipFile.java | 64 ++++++++++++++++++----------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/classpath/java/util/zip/ZipFile.java b/classpath/java/util/zip/ZipFile.java
index 17159ea..026d613 100644
--- a/classpath/java/util/zip/ZipFile.java
+++ b/classpath/java/util/zip/ZipFile.java
@@ -89,7 +89,8 @@ public class ZipFile {
     final int pointer = ((MyEntry) entry).pointer();
     int method = compressionMethod(window, pointer);
     int size = compressedSize(window, pointer);
-    InputStream in = new MyInputStream(file, fileData(window, pointer), size);
+    InputStream in = new MyInputStream
+      (window, file, fileData(window, pointer), size);
 
     final int Stored = 0;
     final int Deflated = 8;
@@ -142,19 +143,23 @@ public class ZipFile {
   }
 
   private static int get2(Window w, int p) throws IOException {
-    int offset = w.seek(p, 2);
-    return
-      ((w.data[offset + 1] & 0xFF) <<  8) |
-      ((w.data[offset    ] & 0xFF)      );
+    synchronized (w) {
+      int offset = w.seek(p, 2);
+      return
+        ((w.data[offset + 1] & 0xFF) <<  8) |
+        ((w.data[offset    ] & 0xFF)      );
+    }
   }
 
   private static int get4(Window w, int p) throws IOException {
-    int offset = w.seek(p, 4);
-    return
-      ((w.data[offset + 3] & 0xFF) << 24) |
-      ((w.data[offset + 2] & 0xFF) << 16) |
-      ((w.data[offset + 1] & 0xFF) <<  8) |
-      ((w.data[offset    ] & 0xFF)      );
+    synchronized (w) {
+      int offset = w.seek(p, 4);
+      return
+        ((w.data[offset + 3] & 0xFF) << 24) |
+        ((w.data[offset + 2] & 0xFF) << 16) |
+        ((w.data[offset + 1] & 0xFF) <<  8) |
+        ((w.data[offset    ] & 0xFF)      );
+    }
   }
 
   private static int directoryOffset(Window w, int p) throws IOException {
@@ -167,7 +172,9 @@ public class ZipFile {
 
   protected static String entryName(Window w, int p) throws IOException {
     int length = entryNameLength(w, p);
-    return new String(w.data, w.seek(p + 46, length), length);
+    synchronized (w) {
+      return new String(w.data, w.seek(p + 46, length), length);
+    }
   }
 
   private static int compressionMethod(Window w, int p) throws IOException {
@@ -229,6 +236,8 @@ public class ZipFile {
     file.close();
   }
 
+  // threads that read entries of the same file share its position and
+  // this window on it: whoever uses either locks the window
   protected static class Window {
     private final RandomAccessFile file;
     public final byte[] data;
@@ -259,15 +268,18 @@ public class ZipFile {
       }
 
       if (start < this.start || start + length > this.start + this.length) {
-        this.length = Math.min(data.length, fileLength);
-        this.start = start - ((this.length - length) / 2);
-        if (this.start < 0) {
-          this.start = 0;
-        } else if (this.start + this.length > fileLength) {
-          this.start = fileLength - this.length;
+        int newLength = Math.min(data.length, fileLength);
+        int newStart = start - ((newLength - length) / 2);
+        if (newStart < 0) {
+          newStart = 0;
+        } else if (newStart + newLength > fileLength) {
+          newStart = fileLength - newLength;
         }
-        file.seek(this.start);
-        file.readFully(data, 0, this.length);
+        this.length = 0; // nothing is valid if reading fails
+        file.seek(newStart);
+        file.readFully(data, 0, newLength);
+        this.start = newStart;
+        this.length = newLength;
       }
 
       return start - this.start;
@@ -352,11 +364,15 @@ public class ZipFile {
   }
 
   private static class MyInputStream extends InputStream {
+    private final Window window;
     private RandomAccessFile file;
     private int offset;
     private int length;
 
-    public MyInputStream(RandomAccessFile file, int start, int length) {
+    public MyInputStream(Window window, RandomAccessFile file, int start,
+                         int length)
+    {
+      this.window = window;
       this.file = file;
       this.offset = start;
       this.length = length;
@@ -373,8 +389,10 @@ public class ZipFile {
 
       if (length > this.length) length = this.length;
 
-      file.seek(this.offset);
-      file.readFully(b, offset, length);
+      synchronized (window) {
+        file.seek(this.offset);
+        file.readFully(b, offset, length);
+      }
 
       this.offset += length;
       this.length -= length;
-- 
2.43.0


From b1d4978ba8847fb60332e90c123f537ff476ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 44/98] fix: Writer.append failed on a part of a CharSequence
 that is not a String

---
 classpath/java/io/Writer.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/io/Writer.java b/classpath/java/io/Writer.java
index 60f0ccd..dba9a51 100644
--- a/classpath/java/io/Writer.java
+++ b/classpath/java/io/Writer.java
@@ -50,7 +50,7 @@ public abstract class Writer implements Closeable, Flushable, Appendable {
     } else {
       final char[] charArray = new char[length];
       for (int i = start; i < end; i++) { 
-        charArray[i] = sequence.charAt(i);
+        charArray[i - start] = sequence.charAt(i);
       }
       write(charArray, 0, length);
     }
-- 
2.43.0


From 951f9d7783788a99d8490e71901c5abbe1626b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 45/98] fix: InflaterInputStream failed when its output was
 still to come after its last input

---
 classpath/java/util/zip/Inflater.java           | 10 ++++++++--
 .../java/util/zip/InflaterInputStream.java      | 17 ++++++++---------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/classpath/java/util/zip/Inflater.java b/classpath/java/util/zip/Inflater.java
index 2c0b7e0..902b42b 100644
--- a/classpath/java/util/zip/Inflater.java
+++ b/classpath/java/util/zip/Inflater.java
@@ -14,6 +14,7 @@ public class Inflater {
   private static final int Z_OK = 0;
   private static final int Z_STREAM_END = 1;
   private static final int Z_NEED_DICT = 2;
+  private static final int Z_BUF_ERROR = -5;
 
 //   static {
 //     System.loadLibrary("natives");
@@ -93,15 +94,20 @@ public class Inflater {
       throw new IllegalStateException();      
     }
 
-    if (input == null || output == null) {
+    if (output == null) {
       throw new NullPointerException();
     }
 
+    if (input == null) {
+      input = new byte[0];
+    }
+
     int[] results = new int[3];
     inflate(peer, input, this.offset, this.length,
             output, offset, length, results);
 
-    if (results[zlibResult] < 0) {
+    // Z_BUF_ERROR means that it needs input (or room) to go on
+    if (results[zlibResult] < 0 && results[zlibResult] != Z_BUF_ERROR) {
       throw new DataFormatException();
     }
 
diff --git a/classpath/java/util/zip/InflaterInputStream.java b/classpath/java/util/zip/InflaterInputStream.java
index eb49bd6..c5461b1 100644
--- a/classpath/java/util/zip/InflaterInputStream.java
+++ b/classpath/java/util/zip/InflaterInputStream.java
@@ -50,15 +50,7 @@ public class InflaterInputStream extends InputStream {
     }
 
     while (true) {
-      if (inflater.needsInput()) {
-        int count = in.read(buffer);
-        if (count > 0) {
-          inflater.setInput(buffer, 0, count);
-        } else {
-          throw new EOFException();
-        }
-      }
-
+      // what has been read may be more than what has come out
       try {
         int count = inflater.inflate(b, offset, length);
         if (count > 0) {
@@ -67,6 +59,13 @@ public class InflaterInputStream extends InputStream {
           throw new IOException("missing dictionary");
         } else if (inflater.finished()) {
           return -1;
+        } else if (inflater.needsInput()) {
+          count = in.read(buffer);
+          if (count > 0) {
+            inflater.setInput(buffer, 0, count);
+          } else {
+            throw new EOFException();
+          }
         }
       } catch (DataFormatException e) {
         throw new IOException(e);
-- 
2.43.0


From 1f6b4a2295ab1f8bb41d822adfb969c3fb90cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 46/98] fix: sockets kept the collector out while they waited

---
 classpath/java-net.cpp | 52 +++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/classpath/java-net.cpp b/classpath/java-net.cpp
index 71a128a..c681212 100644
--- a/classpath/java-net.cpp
+++ b/classpath/java-net.cpp
@@ -69,27 +69,41 @@ extern "C" JNIEXPORT void JNICALL
 }
 
 extern "C" JNIEXPORT void JNICALL
-    Avian_java_net_Socket_send(vm::Thread* t, vm::object, uintptr_t* arguments)
-{ /* SOCKET s, object buffer_obj, int start_pos, int count  */
-  SOCKET& s = *(reinterpret_cast<SOCKET*>(&arguments[0]));
-  vm::GcByteArray* buffer_obj = vm::cast<vm::GcByteArray>(
-      t, reinterpret_cast<vm::object>(arguments[2]));
-  int32_t& start_pos = *(reinterpret_cast<int32_t*>(&arguments[3]));
-  int32_t& count = *(reinterpret_cast<int32_t*>(&arguments[4]));
-  char* buffer = reinterpret_cast<char*>(&buffer_obj->body()[start_pos]);
-  avian::classpath::sockets::send((JNIEnv*)t, s, buffer, count);
+    Java_java_net_Socket_send(JNIEnv* e,
+                              jclass,
+                              jlong sock,
+                              jbyteArray buffer,
+                              jint start,
+                              jint count)
+{
+  char* buf = static_cast<char*>(allocate(e, count));
+  if (buf) {
+    e->GetByteArrayRegion(buffer, start, count, reinterpret_cast<jbyte*>(buf));
+    if (not e->ExceptionCheck()) {
+      send(e, static_cast<SOCKET>(sock), buf, count);
+    }
+    free(buf);
+  }
 }
 
-extern "C" JNIEXPORT int64_t JNICALL
-    Avian_java_net_Socket_recv(vm::Thread* t, vm::object, uintptr_t* arguments)
-{ /* SOCKET s, object buffer_obj, int start_pos, int count  */
-  SOCKET& s = *(reinterpret_cast<SOCKET*>(&arguments[0]));
-  vm::GcByteArray* buffer_obj = vm::cast<vm::GcByteArray>(
-      t, reinterpret_cast<vm::object>(arguments[2]));
-  int32_t& start_pos = *(reinterpret_cast<int32_t*>(&arguments[3]));
-  int32_t& count = *(reinterpret_cast<int32_t*>(&arguments[4]));
-  char* buffer = reinterpret_cast<char*>(&buffer_obj->body()[start_pos]);
-  return avian::classpath::sockets::recv((JNIEnv*)t, s, buffer, count);
+extern "C" JNIEXPORT jint JNICALL
+    Java_java_net_Socket_recv(JNIEnv* e,
+                              jclass,
+                              jlong sock,
+                              jbyteArray buffer,
+                              jint start,
+                              jint count)
+{
+  int r = 0;
+  char* buf = static_cast<char*>(allocate(e, count));
+  if (buf) {
+    r = recv(e, static_cast<SOCKET>(sock), buf, count);
+    if (r > 0 and not e->ExceptionCheck()) {
+      e->SetByteArrayRegion(buffer, start, r, reinterpret_cast<jbyte*>(buf));
+    }
+    free(buf);
+  }
+  return r;
 }
 
 extern "C" JNIEXPORT jint JNICALL
-- 
2.43.0


From 148a3573582499b4ae318b498c2a1538d4c5c84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 47/98] fix: Socket lost what the system did not take at once

---
 classpath/sockets.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/classpath/sockets.cpp b/classpath/sockets.cpp
index becccfd..067fbb6 100644
--- a/classpath/sockets.cpp
+++ b/classpath/sockets.cpp
@@ -127,13 +127,19 @@ SOCKET accept(JNIEnv* e, SOCKET sock, long* client_addr, short* client_port)
 
 void send(JNIEnv* e, SOCKET sock, const char* buff_ptr, int buff_size)
 {
-  if (SOCKET_ERROR == ::send(sock, buff_ptr, buff_size, 0)) {
-    char buf[255];
-    sprintf(buf,
-            "Can't send data through the socket. System error: %d",
-            last_socket_error());
-    throwNew(e, "java/io/IOException", buf);
-    return;
+  // the system may take only a part of the data at a time
+  while (buff_size > 0) {
+    int r = ::send(sock, buff_ptr, buff_size, 0);
+    if (SOCKET_ERROR == r) {
+      char buf[255];
+      sprintf(buf,
+              "Can't send data through the socket. System error: %d",
+              last_socket_error());
+      throwNew(e, "java/io/IOException", buf);
+      return;
+    }
+    buff_ptr += r;
+    buff_size -= r;
   }
 }
 
-- 
2.43.0


From 8b72aa1ebb67e524b14f64abfa20dadd6d4d0cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 48/98] fix: SocketInputStream took 0xff for the end, and
 waited to fill the array

---
 classpath/java/net/Socket.java | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/classpath/java/net/Socket.java b/classpath/java/net/Socket.java
index 9a32b88..eec6bfd 100644
--- a/classpath/java/net/Socket.java
+++ b/classpath/java/net/Socket.java
@@ -81,16 +81,22 @@ public class Socket implements Closeable, AutoCloseable {
 			if (size == 0) {
 				return -1;
 			}
-			return buffer[0];
+			return buffer[0] & 0xFF;
 		}
 		
 		@Override
 		public int read(byte[] buffer) throws IOException {
-			if(buffer.length == 0) return 0; //spec says return 0 if buffer length is zero.
-			int fullSize = buffer.length;
+			return read(buffer, 0, buffer.length);
+		}
+
+		@Override
+		public int read(byte[] buffer, int offset, int length) throws IOException {
+			if (offset < 0 || length < 0 || length > buffer.length - offset) {
+				throw new IndexOutOfBoundsException();
+			}
+			if(length == 0) return 0; //spec says return 0 if buffer length is zero.
 			int size;
-			size = recv(sock, buffer, 0, Math.min(fullSize, Socket.BUFFER_SIZE));
-			fullSize -= size;
+			size = recv(sock, buffer, offset, Math.min(length, Socket.BUFFER_SIZE));
 			//removed loop, because otherwise interactive protocols will not work.
 			if(size < 0) throw new IOException("Error while reading stream"); //as the manpage of recv says, a value below zero indicates an error.
 			if(size == 0) return -1; // if the stream is closed (size == 0), then return -1 to indicate end of stream. 
-- 
2.43.0


From 87595c8a4a60b94167f11f333879d5a7dcb5ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 49/98] fix: Socket.close never freed the socket

---
 classpath/java/net/Socket.java | 80 +++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 16 deletions(-)

diff --git a/classpath/java/net/Socket.java b/classpath/java/net/Socket.java
index eec6bfd..ccb7077 100644
--- a/classpath/java/net/Socket.java
+++ b/classpath/java/net/Socket.java
@@ -61,8 +61,10 @@ public class Socket implements Closeable, AutoCloseable {
 		
 		@Override
 		public void close() throws IOException {
-			if (!closed) {
-				closeInput(sock);
+			synchronized (lock) {
+				if (!closed && !Socket.this.closed) {
+					closeInput(sock);
+				}
 				closed = true;
 			}
 			super.close();
@@ -77,8 +79,8 @@ public class Socket implements Closeable, AutoCloseable {
 		@Override
 		public int read() throws IOException {
 			byte[] buffer = new byte[1];
-			int size = recv(sock, buffer, 0, 1);
-			if (size == 0) {
+			int size = read(buffer, 0, 1);
+			if (size <= 0) {
 				return -1;
 			}
 			return buffer[0] & 0xFF;
@@ -96,7 +98,12 @@ public class Socket implements Closeable, AutoCloseable {
 			}
 			if(length == 0) return 0; //spec says return 0 if buffer length is zero.
 			int size;
-			size = recv(sock, buffer, offset, Math.min(length, Socket.BUFFER_SIZE));
+			acquire();
+			try {
+				size = recv(sock, buffer, offset, Math.min(length, Socket.BUFFER_SIZE));
+			} finally {
+				release();
+			}
 			//removed loop, because otherwise interactive protocols will not work.
 			if(size < 0) throw new IOException("Error while reading stream"); //as the manpage of recv says, a value below zero indicates an error.
 			if(size == 0) return -1; // if the stream is closed (size == 0), then return -1 to indicate end of stream. 
@@ -110,8 +117,10 @@ public class Socket implements Closeable, AutoCloseable {
 		
 		@Override
 		public void close() throws IOException {
-			if (!closed) {
-				closeOutput(sock);
+			synchronized (lock) {
+				if (!closed && !Socket.this.closed) {
+					closeOutput(sock);
+				}
 				closed = true;
 			}
 			super.close();
@@ -127,7 +136,7 @@ public class Socket implements Closeable, AutoCloseable {
 		public void write(int c) throws IOException {
 			byte[] res = new byte[1];
 			res[0] = (byte)c;
-			send(sock, res, 0, 1);
+			write(res);
 		}
 		
 		@Override
@@ -135,23 +144,34 @@ public class Socket implements Closeable, AutoCloseable {
 			int fullSize = buffer.length;
 			int index = 0;
 			int size;
-			do {
-				size = Math.min(fullSize, Socket.BUFFER_SIZE);
-				send(sock, buffer, index, size);
-				fullSize -= size;
-				index += size;
-			} while (fullSize != 0 && size != 0);
+			acquire();
+			try {
+				do {
+					size = Math.min(fullSize, Socket.BUFFER_SIZE);
+					send(sock, buffer, index, size);
+					fullSize -= size;
+					index += size;
+				} while (fullSize != 0 && size != 0);
+			} finally {
+				release();
+			}
 		}
 
 	}
 
 	private long sock;
+	private final Object lock = new Object();
+	// how many threads use the native socket at the moment, and whether it
+	// is to be freed after that
+	private int users = 0;
+	private boolean closed = true;
 	private SocketInputStream inputStream;
 	private SocketOutputStream outputStream;
 	
 	public Socket() throws IOException {
 		Socket.init();
 		sock = create();
+		closed = false;
 		inputStream = new SocketInputStream();
 		outputStream = new SocketOutputStream();
 	}
@@ -166,7 +186,13 @@ public class Socket implements Closeable, AutoCloseable {
 	
 	public Socket(InetAddress address, int port) throws IOException {
 		this();
-		connect(sock, address.getRawAddress(), (short)port);
+		boolean connected = false;
+		try {
+			connect(sock, address.getRawAddress(), (short)port);
+			connected = true;
+		} finally {
+			if (!connected) close();
+		}
 	}
 	
 	public Socket(String host, int port) throws UnknownHostException, IOException {
@@ -182,9 +208,31 @@ public class Socket implements Closeable, AutoCloseable {
 	
 	public void setTcpNoDelay(boolean on) throws SocketException {}
 
+	private void acquire() throws IOException {
+		synchronized (lock) {
+			if (closed) throw new SocketException("Socket closed");
+			++users;
+		}
+	}
+
+	private void release() {
+		synchronized (lock) {
+			if (--users == 0 && closed) abort(sock);
+		}
+	}
+
 	@Override
 	public void close() throws IOException {
-		close(sock);
+		synchronized (lock) {
+			if (!closed) {
+				closed = true;
+				try {
+					close(sock); // ends the calls that are waiting
+				} finally {
+					if (users == 0) abort(sock);
+				}
+			}
+		}
 	}
 	
 	public void shutdownInput() throws IOException {
-- 
2.43.0


From 3b8f789852d828f014b6158e466d56747c507f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 50/98] fix: ServerSocketChannel.accept lost a socket each
 time, and failed when there was nothing to accept

---
 classpath/java-nio.cpp                               |  2 +-
 classpath/java/nio/channels/ServerSocketChannel.java |  9 ++++++---
 classpath/java/nio/channels/SocketChannel.java       | 10 +++++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/classpath/java-nio.cpp b/classpath/java-nio.cpp
index 9f8a44a..d90da49 100644
--- a/classpath/java-nio.cpp
+++ b/classpath/java-nio.cpp
@@ -307,7 +307,7 @@ int doAccept(JNIEnv* e, int s)
   int r = ::accept(s, &address, &length);
   if (r >= 0) {
     return r;
-  } else if (errno != EINTR) {
+  } else if (errno != EINTR and not eagain()) {
     throwIOException(e);
   }
   return -1;
diff --git a/classpath/java/nio/channels/ServerSocketChannel.java b/classpath/java/nio/channels/ServerSocketChannel.java
index 6f0d601..b1635be 100644
--- a/classpath/java/nio/channels/ServerSocketChannel.java
+++ b/classpath/java/nio/channels/ServerSocketChannel.java
@@ -47,8 +47,11 @@ public class ServerSocketChannel extends SelectableChannel {
   }
 
   public SocketChannel accept() throws IOException {
-    SocketChannel c = new SocketChannel();
-    c.socket = doAccept();
+    int s = doAccept();
+    if (s == -1) {
+      return null;
+    }
+    SocketChannel c = new SocketChannel(s);
     c.connected = true;
     return c;
   }
@@ -60,7 +63,7 @@ public class ServerSocketChannel extends SelectableChannel {
   private int doAccept() throws IOException {
     while (true) {
       int s = natDoAccept(channel.socket);
-      if (s != -1) {
+      if (s != -1 || ! channel.isBlocking()) {
         return s;
       }
       // todo: throw ClosedByInterruptException if this thread was
diff --git a/classpath/java/nio/channels/SocketChannel.java b/classpath/java/nio/channels/SocketChannel.java
index f551eb1..c61d0e9 100644
--- a/classpath/java/nio/channels/SocketChannel.java
+++ b/classpath/java/nio/channels/SocketChannel.java
@@ -22,11 +22,19 @@ public class SocketChannel extends SelectableChannel
 {
   public static final int InvalidSocket = -1;
 
-  int socket = makeSocket();
+  int socket;
   boolean connected = false;
   boolean readyToConnect = false;
   boolean blocking = true;
 
+  SocketChannel(int socket) {
+    this.socket = socket;
+  }
+
+  public SocketChannel() {
+    this(makeSocket());
+  }
+
   public static SocketChannel open() throws IOException {
     Socket.init();
 
-- 
2.43.0


From aebf478b71a92afa8eb50c6349ec3a6432af860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 51/98] fix: Channels.newOutputStream lost what the channel did
 not take at once

---
 classpath/java/nio/channels/Channels.java | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/classpath/java/nio/channels/Channels.java b/classpath/java/nio/channels/Channels.java
index 9d0e377..b2365ad 100644
--- a/classpath/java/nio/channels/Channels.java
+++ b/classpath/java/nio/channels/Channels.java
@@ -73,7 +73,12 @@ public class Channels {
     public void write(byte[] buffer, int offset, int length)
       throws IOException
     {
-      channel.write(ByteBuffer.wrap(buffer, offset, length));
+      ByteBuffer b = ByteBuffer.wrap(buffer, offset, length);
+      while (b.remaining() > 0) {
+        if (channel.write(b) <= 0) {
+          throw new IOException("the channel takes nothing now");
+        }
+      }
     }
 
     public void close() throws IOException {
-- 
2.43.0


From 311d53a29ceba57035699b4c26b9607372d31780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 52/98] fix: DatagramChannel.receive failed for addresses from
 128.0.0.0 on

---
 classpath/java/nio/channels/DatagramChannel.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classpath/java/nio/channels/DatagramChannel.java b/classpath/java/nio/channels/DatagramChannel.java
index f0a2b39..eb93888 100644
--- a/classpath/java/nio/channels/DatagramChannel.java
+++ b/classpath/java/nio/channels/DatagramChannel.java
@@ -175,7 +175,7 @@ public class DatagramChannel extends SelectableChannel
   private static String ipv4ToString(int address) {
     StringBuilder sb = new StringBuilder();
 
-    sb.append( address >> 24        ).append('.')
+    sb.append((address >> 24) & 0xFF).append('.')
       .append((address >> 16) & 0xFF).append('.')
       .append((address >>  8) & 0xFF).append('.')
       .append( address        & 0xFF);
-- 
2.43.0


From 3068d362b5c811d0366c8b1a7e028d00c3fb8670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 53/98] fix: ServerSocketChannel stayed open after close

---
 classpath/java/nio/channels/ServerSocketChannel.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classpath/java/nio/channels/ServerSocketChannel.java b/classpath/java/nio/channels/ServerSocketChannel.java
index b1635be..a5596e6 100644
--- a/classpath/java/nio/channels/ServerSocketChannel.java
+++ b/classpath/java/nio/channels/ServerSocketChannel.java
@@ -39,10 +39,12 @@ public class ServerSocketChannel extends SelectableChannel {
   }
 
   public SelectableChannel configureBlocking(boolean v) throws IOException {
-    return channel.configureBlocking(v);
+    channel.configureBlocking(v);
+    return this;
   }
 
   public void close() throws IOException {
+    super.close();
     channel.close();
   }
 
-- 
2.43.0


From 27125aeb8b016e9873d1aa742a2be033d7a1be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 54/98] fix: a selector lost keys registered meanwhile, and
 events of reused sockets

---
 classpath/java/nio/channels/Selector.java     |  8 +++-
 .../java/nio/channels/SocketSelector.java     | 44 +++++++++++--------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/classpath/java/nio/channels/Selector.java b/classpath/java/nio/channels/Selector.java
index ceb4503..b103c44 100644
--- a/classpath/java/nio/channels/Selector.java
+++ b/classpath/java/nio/channels/Selector.java
@@ -23,11 +23,15 @@ public abstract class Selector {
   }
   
   public void add(SelectionKey key) {
-    keys.add(key);
+    synchronized (keys) {
+      keys.add(key);
+    }
   }
 
   public void remove(SelectionKey key) {
-    keys.remove(key);
+    synchronized (keys) {
+      keys.remove(key);
+    }
   }
 
   public Set<SelectionKey> keys() {
diff --git a/classpath/java/nio/channels/SocketSelector.java b/classpath/java/nio/channels/SocketSelector.java
index c17d2af..6e16f44 100644
--- a/classpath/java/nio/channels/SocketSelector.java
+++ b/classpath/java/nio/channels/SocketSelector.java
@@ -75,33 +75,39 @@ class SocketSelector extends Selector {
     if (clearWoken()) interval = -1;
 
     int max=0;
-    for (Iterator<SelectionKey> it = keys.iterator();
-         it.hasNext();)
-    {
-      SelectionKey key = it.next();
-      SelectableChannel c = key.channel();
-      int socket = c.socketFD();
-      if (c.isOpen()) {
+    synchronized (keys) {
+      // the channels that were closed come first, since others may have
+      // got their sockets by now
+      for (Iterator<SelectionKey> it = keys.iterator();
+           it.hasNext();)
+      {
+        SelectableChannel c = it.next().channel();
+        if (! c.isOpen()) {
+          natSelectClearAll(c.socketFD(), state);
+          it.remove();
+        }
+      }
+
+      for (SelectionKey key : keys) {
         key.readyOps(0);
         max = natSelectUpdateInterestSet
-          (socket, key.interestOps(), state, max);
-      } else {
-        natSelectClearAll(socket, state);
-        it.remove();
+          (key.channel().socketFD(), key.interestOps(), state, max);
       }
     }
 
     int r = natDoSocketSelect(state, max, interval);
 
     if (r > 0) {
-      for (SelectionKey key : keys) {
-        SelectableChannel c = key.channel();
-        int socket = c.socketFD();
-        int ready = natUpdateReadySet(socket, key.interestOps(), state);
-        key.readyOps(ready);
-        if (ready != 0) {
-          c.handleReadyOps(ready);
-          selectedKeys.add(key);
+      synchronized (keys) {
+        for (SelectionKey key : keys) {
+          SelectableChannel c = key.channel();
+          int socket = c.socketFD();
+          int ready = natUpdateReadySet(socket, key.interestOps(), state);
+          key.readyOps(ready);
+          if (ready != 0) {
+            c.handleReadyOps(ready);
+            selectedKeys.add(key);
+          }
         }
       }
     }
-- 
2.43.0


From 1e653871882b3870423a19c000af010f428af338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 55/98] fix: registering a channel again left its old interest
 in force

---
 classpath/java/nio/channels/SelectableChannel.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/classpath/java/nio/channels/SelectableChannel.java b/classpath/java/nio/channels/SelectableChannel.java
index 3e544f9..0b2fc1c 100644
--- a/classpath/java/nio/channels/SelectableChannel.java
+++ b/classpath/java/nio/channels/SelectableChannel.java
@@ -27,6 +27,10 @@ public abstract class SelectableChannel implements Channel {
   public SelectionKey register(Selector selector, int interestOps,
                                Object attachment)
   {
+    SelectionKey old = key;
+    if (old != null && old.selector() == selector) {
+      selector.remove(old);
+    }
     key = new SelectionKey(this, selector, interestOps, attachment);
     selector.add(key);
     return key;
-- 
2.43.0


From cd38a1de4e0eed54cc6f1b3c45f50dd80edaf2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 56/98] fix: SocketChannel.finishConnect never closed its
 selectors

---
 classpath/java/nio/channels/SocketChannel.java | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/classpath/java/nio/channels/SocketChannel.java b/classpath/java/nio/channels/SocketChannel.java
index c61d0e9..7a5818a 100644
--- a/classpath/java/nio/channels/SocketChannel.java
+++ b/classpath/java/nio/channels/SocketChannel.java
@@ -81,13 +81,17 @@ public class SocketChannel extends SelectableChannel
     if (! connected) {
       while (! readyToConnect) {
         Selector selector = Selector.open();
-        SelectionKey key = register(selector, SelectionKey.OP_CONNECT, null);
-
-        if (blocking) {
-          selector.select();
-        } else {
-          selector.selectNow();
-          break;
+        try {
+          selector.add
+            (new SelectionKey(this, selector, SelectionKey.OP_CONNECT, null));
+          if (blocking) {
+            selector.select();
+          } else {
+            selector.selectNow();
+            break;
+          }
+        } finally {
+          selector.close();
         }
       }
 
-- 
2.43.0


From 9992443eb3fedd22794976085c116362181e915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 57/98] fix: Selector.close waited for a selection that nothing
 else ends

---
 classpath/java/nio/channels/SocketSelector.java | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/classpath/java/nio/channels/SocketSelector.java b/classpath/java/nio/channels/SocketSelector.java
index 6e16f44..1a9ddcf 100644
--- a/classpath/java/nio/channels/SocketSelector.java
+++ b/classpath/java/nio/channels/SocketSelector.java
@@ -18,6 +18,7 @@ class SocketSelector extends Selector {
   protected volatile long state;
   protected final Object lock = new Object();
   protected boolean woken = false;
+  private volatile boolean closed = false;
 
   public SocketSelector() throws IOException {
     Socket.init();
@@ -26,7 +27,7 @@ class SocketSelector extends Selector {
   }
 
   public boolean isOpen() {
-    return state != 0;
+    return ! closed && state != 0;
   }
 
   public Selector wakeup() {
@@ -116,11 +117,19 @@ class SocketSelector extends Selector {
     return selectedKeys.size();
   }
 
-  public synchronized void close() {
+  public void close() {
     synchronized (lock) {
       if (isOpen()) {
-        natClose(state);
-        state = 0;
+        closed = true;
+        natWakeup(state); // ends a selection in progress
+      }
+    }
+    synchronized (this) {
+      synchronized (lock) {
+        if (state != 0) {
+          natClose(state);
+          state = 0;
+        }
       }
     }
   }
-- 
2.43.0


From 2b81703f59fa22d73ac32c60c656c4089350d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 58/98] fix: two threads could close a channel's socket twice

---
 classpath/java/nio/channels/DatagramChannel.java | 2 +-
 classpath/java/nio/channels/SocketChannel.java   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/nio/channels/DatagramChannel.java b/classpath/java/nio/channels/DatagramChannel.java
index eb93888..c0cd8b5 100644
--- a/classpath/java/nio/channels/DatagramChannel.java
+++ b/classpath/java/nio/channels/DatagramChannel.java
@@ -210,7 +210,7 @@ public class DatagramChannel extends SelectableChannel
     return this;
   }
 
-  public void close() throws IOException {
+  public synchronized void close() throws IOException {
     if (isOpen()) {
       super.close();
       close(socket);
diff --git a/classpath/java/nio/channels/SocketChannel.java b/classpath/java/nio/channels/SocketChannel.java
index 7a5818a..5e2c9b9 100644
--- a/classpath/java/nio/channels/SocketChannel.java
+++ b/classpath/java/nio/channels/SocketChannel.java
@@ -103,7 +103,7 @@ public class SocketChannel extends SelectableChannel
     return connected;
   }
 
-  public void close() throws IOException {
+  public synchronized void close() throws IOException {
     if (isOpen()) {
       super.close();
       closeSocket();
-- 
2.43.0


From 841446baa27ba856c09c363ad72995629410ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 59/98] fix: select failed when another thread closed a channel

---
 classpath/java-nio.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/classpath/java-nio.cpp b/classpath/java-nio.cpp
index d90da49..6feedf9 100644
--- a/classpath/java-nio.cpp
+++ b/classpath/java-nio.cpp
@@ -1001,7 +1001,11 @@ extern "C" JNIEXPORT jint JNICALL
   int r = ::select(max + 1, &(s->read), &(s->write), &(s->except), &time);
 
   if (r < 0) {
-    if (errno != EINTR) {
+    if (errno == EBADF) {
+      // a channel was closed after we took its socket; the next selection
+      // goes without it
+      return 0;
+    } else if (errno != EINTR) {
       throwIOException(e);
       return 0;
     }
-- 
2.43.0


From 75004100fd2224f9f93fc3ca808e3b6d231784ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 60/98] fix: class loaders were asked for a class again, and
 could define it twice

---
 classpath/avian/Classes.java         |  3 +++
 classpath/java/lang/ClassLoader.java |  5 +++--
 src/builtin.cpp                      | 12 ++++++++++++
 src/machine.cpp                      | 15 ++++++++++++++-
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index b827ab2..610d382 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -35,6 +35,9 @@ public class Classes {
   public static native VMClass defineVMClass
     (ClassLoader loader, byte[] b, int offset, int length);
 
+  public static native VMClass findLoadedVMClass
+    (ClassLoader loader, String name);
+
   public static native VMClass primitiveClass(char name);
 
   public static native void initialize(VMClass vmClass);
diff --git a/classpath/java/lang/ClassLoader.java b/classpath/java/lang/ClassLoader.java
index 8cc4329..cb7e1d7 100644
--- a/classpath/java/lang/ClassLoader.java
+++ b/classpath/java/lang/ClassLoader.java
@@ -126,7 +126,8 @@ public abstract class ClassLoader {
   }
 
   protected Class reallyFindLoadedClass(String name) {
-    return null;
+    avian.VMClass c = avian.Classes.findLoadedVMClass(this, name);
+    return c == null ? null : avian.SystemClassLoader.getClass(c);
   }
 
   protected final Class findLoadedClass(String name) {
@@ -137,7 +138,7 @@ public abstract class ClassLoader {
     return loadClass(name, false);
   }
 
-  protected Class loadClass(String name, boolean resolve)
+  protected synchronized Class loadClass(String name, boolean resolve)
     throws ClassNotFoundException
   {
     Class c = findLoadedClass(name);
diff --git a/src/builtin.cpp b/src/builtin.cpp
index 420f337..e834707 100644
--- a/src/builtin.cpp
+++ b/src/builtin.cpp
@@ -201,6 +201,18 @@ extern "C" AVIAN_EXPORT int64_t JNICALL
   return search(t, loader, name, findLoadedClass, true);
 }
 
+extern "C" AVIAN_EXPORT int64_t JNICALL
+    Avian_avian_Classes_findLoadedVMClass(Thread* t,
+                                          object,
+                                          uintptr_t* arguments)
+{
+  GcClassLoader* loader
+      = cast<GcClassLoader>(t, reinterpret_cast<object>(arguments[0]));
+  GcString* name = cast<GcString>(t, reinterpret_cast<object>(arguments[1]));
+
+  return search(t, loader, name, findLoadedClass, true);
+}
+
 extern "C" AVIAN_EXPORT int64_t JNICALL
     Avian_avian_SystemClassLoader_vmClass(Thread* t,
                                           object,
diff --git a/src/machine.cpp b/src/machine.cpp
index d173637..d136a2c 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -5103,7 +5103,11 @@ GcClass* resolveClass(Thread* t,
     if (LIKELY(c)) {
       PROTECT(t, c);
 
-      saveLoadedClass(t, loader, c);
+      ACQUIRE(t, t->m->classLock);
+
+      if (findLoadedClass(t, loader, spec) == 0) {
+        saveLoadedClass(t, loader, c);
+      }
     } else if (throw_) {
       throwNew(t, throwType, "%s", spec->body().begin());
     }
@@ -5974,6 +5978,15 @@ GcClass* defineClass(Thread* t,
 
   PROTECT(t, c);
 
+  ACQUIRE(t, t->m->classLock);
+
+  if (findLoadedClass(t, loader, c->name())) {
+    throwNew(t,
+             GcLinkageError::Type,
+             "duplicate class definition: %s",
+             c->name()->body().begin());
+  }
+
   saveLoadedClass(t, loader, c);
 
   return c;
-- 
2.43.0


From 9dd1ae4c5be88fccc0abe93de11a795b28268e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 61/98] fix: linking a class held the class lock while it
 called class loaders, and asked the wrong ones

---
 classpath/avian/Classes.java | 97 +++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 36 deletions(-)

diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index 610d382..9b98df8 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -177,16 +177,26 @@ public class Classes {
   private static void parseAnnotationTable(ClassLoader loader,
                                            Addendum addendum)
   {
-    if (addendum != null && addendum.annotationTable instanceof byte[]) {
+    Object bytes = addendum == null ? null : addendum.annotationTable;
+    if (bytes instanceof byte[]) {
+      Object[] table;
       try {
-        addendum.annotationTable = parseAnnotationTable
-          (loader, addendum.pool, new ByteArrayInputStream
-           ((byte[]) addendum.annotationTable));
+        table = parseAnnotationTable
+          (loader, addendum.pool, new ByteArrayInputStream((byte[]) bytes));
       } catch (IOException e) {
         AssertionError error = new AssertionError();
         error.initCause(e);
         throw error;
       }
+
+      acquireClassLock();
+      try {
+        if (addendum.annotationTable == bytes) {
+          addendum.annotationTable = table;
+        }
+      } finally {
+        releaseClassLock();
+      }
     }
   }
 
@@ -239,54 +249,69 @@ public class Classes {
   }
 
   public static void link(VMClass c, ClassLoader loader) {
-    acquireClassLock();
-    try {
-      if ((c.vmFlags & LinkFlag) == 0) {
-        if (c.super_ != null) {
-          link(c.super_, loader);
-        }
+    link(c);
+  }
+
+  public static void link(VMClass c) {
+    // We must not hold the class lock while we resolve classes, since
+    // this may call application classloaders and thus deadlock.
+    if (isLinked(c)) {
+      return;
+    }
 
-        parseAnnotationTable(loader, c.addendum);
+    ClassLoader loader = c.loader;
 
-        if (c.interfaceTable != null) {
-          int stride = ((c.flags & Modifier.INTERFACE) != 0 ? 1 : 2);
-          for (int i = 0; i < c.interfaceTable.length; i += stride) {
-            link((VMClass) c.interfaceTable[i], loader);
-          }
-        }
+    if (c.super_ != null) {
+      link(c.super_);
+    }
 
-        VMMethod[] methodTable = c.methodTable;
-        if (methodTable != null) {
-          for (int i = 0; i < methodTable.length; ++i) {
-            VMMethod m = methodTable[i];
+    parseAnnotationTable(loader, c.addendum);
 
-            for (int j = 1; j < m.spec.length;) {
-              j = resolveSpec(loader, m.spec, j);
-            }
+    if (c.interfaceTable != null) {
+      int stride = ((c.flags & Modifier.INTERFACE) != 0 ? 1 : 2);
+      for (int i = 0; i < c.interfaceTable.length; i += stride) {
+        link((VMClass) c.interfaceTable[i]);
+      }
+    }
 
-            parseAnnotationTable(loader, m.addendum);
-          }
+    VMMethod[] methodTable = c.methodTable;
+    if (methodTable != null) {
+      for (int i = 0; i < methodTable.length; ++i) {
+        VMMethod m = methodTable[i];
+
+        for (int j = 1; j < m.spec.length;) {
+          j = resolveSpec(loader, m.spec, j);
         }
 
-        if (c.fieldTable != null) {
-          for (int i = 0; i < c.fieldTable.length; ++i) {
-            VMField f = c.fieldTable[i];
+        parseAnnotationTable(loader, m.addendum);
+      }
+    }
 
-            resolveSpec(loader, f.spec, 0);
+    if (c.fieldTable != null) {
+      for (int i = 0; i < c.fieldTable.length; ++i) {
+        VMField f = c.fieldTable[i];
 
-            parseAnnotationTable(loader, f.addendum);
-          }
-        }
+        resolveSpec(loader, f.spec, 0);
 
-        c.vmFlags |= LinkFlag;
+        parseAnnotationTable(loader, f.addendum);
       }
+    }
+
+    acquireClassLock();
+    try {
+      c.vmFlags |= LinkFlag;
     } finally {
       releaseClassLock();
     }
   }
 
-  public static void link(VMClass c) {
-    link(c, c.loader);
+  private static boolean isLinked(VMClass c) {
+    acquireClassLock();
+    try {
+      return (c.vmFlags & LinkFlag) != 0;
+    } finally {
+      releaseClassLock();
+    }
   }
 
   public static Class forName(String name, boolean initialize,
-- 
2.43.0


From 84776877ecefb246b9ed9d3c05acf099b5ba716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 62/98] fix: Class.forName did not find array classes of other
 loaders, and getParameterTypes made array classes of its own

---
 classpath/avian/Classes.java | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index 9b98df8..d14f307 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -321,7 +321,8 @@ public class Classes {
     if (loader == null) {
       loader = Class.class.getClassLoader();
     }
-    Class c = loader.loadClass(name.replace('/', '.'));
+    Class c = name.startsWith("[") ? arrayForName(name, loader)
+      : loader.loadClass(name.replace('/', '.'));
     VMClass vmc = SystemClassLoader.vmClass(c);
     link(vmc, loader);
     if (initialize) {
@@ -330,6 +331,29 @@ public class Classes {
     return c;
   }
 
+  private static Class arrayForName(String name, ClassLoader loader)
+    throws ClassNotFoundException
+  {
+    int start = name.lastIndexOf('[') + 1;
+    int length = name.length() - start;
+    if (! (length > 0 && name.charAt(start) == 'L'
+           ? length > 2 && name.indexOf(';') == name.length() - 1
+           : length == 1 && "ZBSCIFJD".indexOf(name.charAt(start)) >= 0))
+    {
+      throw new ClassNotFoundException(name);
+    }
+    for (int i = 0; i < start; ++i) {
+      if (name.charAt(i) != '[') {
+        throw new ClassNotFoundException(name);
+      }
+    }
+
+    byte[] bytes = name.replace('.', '/').getBytes();
+    byte[] spec = new byte[bytes.length + 1];
+    System.arraycopy(bytes, 0, spec, 0, bytes.length);
+    return SystemClassLoader.getClass(resolveVMClass(loader, spec));
+  }
+
   public static Class forCanonicalName(String name) {
     return forCanonicalName(null, name);
   }
@@ -385,7 +409,7 @@ public class Classes {
 
           if (spec.charAt(i) == 'L') {
             i = next(';', spec, i + 1);
-            String name = spec.substring(start, i).replace('/', '.');
+            String name = spec.substring(start, i + 1).replace('/', '.');
             types[index++] = Class.forName
               (name, true, vmMethod.class_.loader);
           } else {
-- 
2.43.0


From b0d7ed1cec9ef44667ccb5266f20d02c2993994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 63/98] fix: a class lost an interface when it had another of
 the same name from another loader

---
 src/machine.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index d136a2c..de4d948 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -1200,6 +1200,18 @@ GcSingleton* parsePool(Thread* t, Stream& s, GcList* invocations)
   return pool;
 }
 
+// Interfaces are told apart by identity, since different loaders may
+// define interfaces of the same name:
+uint32_t classNameHash(Thread* t, object c)
+{
+  return byteArrayHash(t, cast<GcClass>(t, c)->name());
+}
+
+bool classEqual(Thread*, object a, object b)
+{
+  return a == b;
+}
+
 void addInterfaces(Thread* t, GcClass* class_, GcHashMap* map)
 {
   GcArray* table = cast<GcArray>(t, class_->interfaceTable());
@@ -1214,9 +1226,8 @@ void addInterfaces(Thread* t, GcClass* class_, GcHashMap* map)
 
     for (unsigned i = 0; i < table->length(); i += increment) {
       GcClass* interface = cast<GcClass>(t, table->body()[i]);
-      GcByteArray* name = interface->name();
       hashMapInsertMaybe(
-          t, map, name, interface, byteArrayHash, byteArrayEqual);
+          t, map, interface, interface, classNameHash, classEqual);
     }
   }
 }
@@ -1272,7 +1283,7 @@ void parseInterfaceTable(Thread* t,
 
     table->setBodyElement(t, i, interface);
 
-    hashMapInsertMaybe(t, map, name, interface, byteArrayHash, byteArrayEqual);
+    hashMapInsertMaybe(t, map, interface, interface, classNameHash, classEqual);
 
     addInterfaces(t, interface, map);
   }
-- 
2.43.0


From 19b73d696519f179f1578547631c134745c9ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 64/98] fix: reflection initialized the classes that methods
 and fields name

---
 classpath/avian/Classes.java | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index d14f307..7c3aec2 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -361,9 +361,9 @@ public class Classes {
   public static Class forCanonicalName(ClassLoader loader, String name) {
     try {
       if (name.startsWith("[")) {
-        return forName(name, true, loader);
+        return forName(name, false, loader);
       } else if (name.startsWith("L")) {
-        return forName(name.substring(1, name.length() - 1), true, loader);
+        return forName(name.substring(1, name.length() - 1), false, loader);
       } else {
         if (name.length() == 1) {
           return SystemClassLoader.getClass
@@ -402,7 +402,7 @@ public class Classes {
           int start = i + 1;
           i = next(';', spec, start);
           String name = spec.substring(start, i).replace('/', '.');
-          types[index++] = Class.forName(name, true, vmMethod.class_.loader);
+          types[index++] = Class.forName(name, false, vmMethod.class_.loader);
         } else if (c == '[') {
           int start = i;
           while (spec.charAt(i) == '[') ++i;
@@ -411,7 +411,7 @@ public class Classes {
             i = next(';', spec, i + 1);
             String name = spec.substring(start, i + 1).replace('/', '.');
             types[index++] = Class.forName
-              (name, true, vmMethod.class_.loader);
+              (name, false, vmMethod.class_.loader);
           } else {
             String name = spec.substring(start, i + 1);
             types[index++] = forCanonicalName(vmMethod.class_.loader, name);
-- 
2.43.0


From 1eb3a9c6e3d757ba28417149200fccf2dfcfadf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 65/98] fix: creating a thread failed when a collection took an
 inheritable thread local meanwhile

---
 classpath/java/lang/Thread.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 433c856..4f0fee8 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -48,8 +48,10 @@ public class Thread implements Runnable {
     Map<ThreadLocal, Object> map = current.locals;
     if (map != null) {
       for (Map.Entry<ThreadLocal, Object> e: map.entrySet()) {
-        if (e.getKey() instanceof InheritableThreadLocal) {
-          InheritableThreadLocal itl = (InheritableThreadLocal) e.getKey();
+        // the key is held weakly: it may be gone the next time we ask
+        ThreadLocal key = e.getKey();
+        if (key instanceof InheritableThreadLocal) {
+          InheritableThreadLocal itl = (InheritableThreadLocal) key;
           locals().put(itl, itl.childValue(e.getValue()));
         }
       }
-- 
2.43.0


From 10eef85bd42f5b3c7409ee26fb15419dc2314abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 66/98] fix: inheritable thread locals gave childValue an
 internal object for null, and lost the null it returned

---
 classpath/java/lang/Thread.java      |  3 ++-
 classpath/java/lang/ThreadLocal.java | 25 ++++++++++++-------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index 4f0fee8..fe57fb6 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -52,7 +52,8 @@ public class Thread implements Runnable {
         ThreadLocal key = e.getKey();
         if (key instanceof InheritableThreadLocal) {
           InheritableThreadLocal itl = (InheritableThreadLocal) key;
-          locals().put(itl, itl.childValue(e.getValue()));
+          locals().put(itl, ThreadLocal.wrap
+                       (itl.childValue(ThreadLocal.unwrap(e.getValue()))));
         }
       }
     }
diff --git a/classpath/java/lang/ThreadLocal.java b/classpath/java/lang/ThreadLocal.java
index b15112a..71f4a32 100644
--- a/classpath/java/lang/ThreadLocal.java
+++ b/classpath/java/lang/ThreadLocal.java
@@ -23,24 +23,23 @@ public class ThreadLocal<T> {
     Map<ThreadLocal, Object> map = Thread.currentThread().locals();
     Object o = map.get(this);
     if (o == null) {
-      o = initialValue();
-      if (o == null) {
-        o = Null;
-      }
+      o = wrap(initialValue());
       map.put(this, o);
     }
-    if (o == Null) {
-      o = null;
-    }
-    return (T) o;
+    return (T) unwrap(o);
   }
 
   public void set(T value) {
     Map<ThreadLocal, Object> map = Thread.currentThread().locals();
-    Object o = value;
-    if (o == null) {
-      o = Null;
-    }
-    map.put(this, o);
+    map.put(this, wrap(value));
+  }
+
+  // the table keeps null as an object of its own:
+  static Object wrap(Object value) {
+    return value == null ? Null : value;
+  }
+
+  static Object unwrap(Object o) {
+    return o == Null ? null : o;
   }
 }
-- 
2.43.0


From d3760ec3fad14dfbf8f88515501841dac9cb418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 67/98] fix: threads that ran when the first dynamic call was
 compiled had no table for it

---
 src/compile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index 39630f4..71e9cd3 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -1292,7 +1292,7 @@ unsigned& dynamicTableSize(MyThread* t);
 
 void updateDynamicTable(MyThread* t, MyThread* o)
 {
-  o->dynamicTable = dynamicTable(t);
+  t->dynamicTable = dynamicTable(o);
   if (t->peer)
     updateDynamicTable(static_cast<MyThread*>(t->peer), o);
   if (t->child)
@@ -8547,6 +8547,9 @@ object invoke(Thread* thread, GcMethod* method, ArgumentList* arguments)
                   stackLimit,
                   static_cast<MyThread*>(t)->stackLimit = stackLimit);
 
+  // the table may have grown while this thread was being attached
+  t->dynamicTable = dynamicTable(t);
+
   unsigned returnCode = method->returnCode();
   unsigned returnType = fieldType(t, returnCode);
 
-- 
2.43.0


From 2cd2c75efca98a3be7ec204bd27db52cdacfa8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 68/98] fix: proxies made by several threads at once could lose
 their methods

---
 classpath/java/lang/reflect/Proxy.java | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/reflect/Proxy.java b/classpath/java/lang/reflect/Proxy.java
index 60bbedc..5415a4f 100644
--- a/classpath/java/lang/reflect/Proxy.java
+++ b/classpath/java/lang/reflect/Proxy.java
@@ -45,7 +45,9 @@ public class Proxy {
   protected final Method[] methodRefs;
 
   public Proxy() {
-    methodRefs = methodRefsMap.get(getClass());
+    synchronized (methodRefsMap) {
+      methodRefs = methodRefsMap.get(getClass());
+    }
   }
 
   public static Class getProxyClass(ClassLoader loader,
@@ -409,7 +411,9 @@ public class Proxy {
     byte[] classData = out.toByteArray();
     Class result = avian.SystemClassLoader.getClass
       (avian.Classes.defineVMClass(loader, classData, 0, classData.length));
-    methodRefsMap.put(result, refs.toArray(new Method[refs.size()]));
+    synchronized (methodRefsMap) {
+      methodRefsMap.put(result, refs.toArray(new Method[refs.size()]));
+    }
     return result;
   }
 
-- 
2.43.0


From 98d5d7ca1b01a4f1dd61a720d7fc9f09006aceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 69/98] fix: a subtype test that resolves a bootstrap class
 could use objects the collector moved

isAssignableFrom resolves the bootstrap class of the object tested
against an interface, which can collect, without protecting the classes
it goes on to use; its callers did not protect theirs either.
---
 src/compile.cpp   | 3 +++
 src/interpret.cpp | 2 ++
 src/machine.cpp   | 5 +++++
 3 files changed, 10 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 71e9cd3..f8f972f 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -2838,6 +2838,9 @@ void NO_RETURN throw_(MyThread* t, GcThrowable* o)
 
 void checkCast(MyThread* t, GcClass* class_, object o)
 {
+  PROTECT(t, class_);
+  PROTECT(t, o);
+
   if (UNLIKELY(o and not isAssignableFrom(t, class_, objectClass(t, o)))) {
     GcByteArray* classNameFrom = objectClass(t, o)->name();
     GcByteArray* classNameTo = class_->name();
diff --git a/src/interpret.cpp b/src/interpret.cpp
index cabdaff..ea7da20 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -1103,6 +1103,8 @@ loop:
       if (UNLIKELY(exception))
         goto throw_;
 
+      PROTECT(t, class_);
+
       if (not instanceOf(t, class_, peekObject(t, sp - 1))) {
         exception = makeThrowable(
             t,
diff --git a/src/machine.cpp b/src/machine.cpp
index de4d948..bac92ea 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4618,6 +4618,9 @@ bool isAssignableFrom(Thread* t, GcClass* a, GcClass* b)
 
   if (a->flags() & ACC_INTERFACE) {
     if (b->vmFlags() & BootstrapFlag) {
+      PROTECT(t, a);
+      PROTECT(t, b);
+
       uintptr_t arguments[] = {reinterpret_cast<uintptr_t>(b->name())};
 
       if (run(t, resolveBootstrap, arguments) == 0) {
@@ -5541,6 +5544,8 @@ object clone(Thread* t, object o)
   PROTECT(t, o);
 
   GcClass* class_ = objectClass(t, o);
+  PROTECT(t, class_);
+
   unsigned size = baseSize(t, o, class_) * BytesPerWord;
   object clone;
 
-- 
2.43.0


From be11f8ce1936ceb6feda69a10de5a3c6d2dd8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 70/98] fix: reflective calls passed negative bytes and shorts
 without their sign

The arguments were read as 32 bit values from boxes that hold less.
---
 src/avian/machine.h | 17 +++++++++++++++++
 src/compile.cpp     |  6 +++---
 src/interpret.cpp   |  7 +++----
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index fa10d14..ca1f842 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -3246,6 +3246,23 @@ inline bool exceptionMatch(Thread* t, GcClass* type, GcThrowable* exception)
                        and instanceOf(t, type, t->exception));
 }
 
+// the value of a Boolean, Byte, Character, Short, Integer or Float
+inline int32_t unboxInt(Thread* t UNUSED, object o, char type)
+{
+  switch (type) {
+  case 'Z':
+    return fieldAtOffset<uint8_t>(o, BytesPerWord);
+  case 'B':
+    return fieldAtOffset<int8_t>(o, BytesPerWord);
+  case 'C':
+    return fieldAtOffset<uint16_t>(o, BytesPerWord);
+  case 'S':
+    return fieldAtOffset<int16_t>(o, BytesPerWord);
+  default:
+    return fieldAtOffset<int32_t>(o, BytesPerWord);
+  }
+}
+
 object intern(Thread* t, object s);
 
 object clone(Thread* t, object o);
diff --git a/src/compile.cpp b/src/compile.cpp
index f8f972f..0fdb762 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -8447,7 +8447,8 @@ class ArgumentList {
 
     unsigned index = 0;
     for (MethodSpecIterator it(t, spec); it.hasNext();) {
-      switch (*it.next()) {
+      char type = *it.next();
+      switch (type) {
       case 'L':
       case '[':
         addObject(objectArrayBody(t, arguments, index++));
@@ -8460,8 +8461,7 @@ class ArgumentList {
         break;
 
       default:
-        addInt(fieldAtOffset<int32_t>(objectArrayBody(t, arguments, index++),
-                                      BytesPerWord));
+        addInt(unboxInt(t, objectArrayBody(t, arguments, index++), type));
         break;
       }
     }
diff --git a/src/interpret.cpp b/src/interpret.cpp
index ea7da20..f4c9aff 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3135,7 +3135,8 @@ void pushArguments(Thread* t, object this_, const char* spec, object a)
 
   unsigned index = 0;
   for (MethodSpecIterator it(t, spec); it.hasNext();) {
-    switch (*it.next()) {
+    char type = *it.next();
+    switch (type) {
     case 'L':
     case '[':
       pushObject(t, objectArrayBody(t, a, index++));
@@ -3147,9 +3148,7 @@ void pushArguments(Thread* t, object this_, const char* spec, object a)
       break;
 
     default:
-      pushInt(
-          t,
-          fieldAtOffset<int32_t>(objectArrayBody(t, a, index++), BytesPerWord));
+      pushInt(t, unboxInt(t, objectArrayBody(t, a, index++), type));
       break;
     }
   }
-- 
2.43.0


From 7897ed80c0748a09fc1dff67c1a5a1101053c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 71/98] fix: proxies passed wrong values after a long or
 double, and results of any type

Arguments were stored at the index of their local variable, handlers'
results were not checked, and a method of two interfaces came twice.
---
 classpath/avian/Assembler.java         |  7 ++++
 classpath/java/lang/reflect/Proxy.java | 54 +++++++++++++++++++-------
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/classpath/avian/Assembler.java b/classpath/avian/Assembler.java
index 64a06fd..3f5cc94 100644
--- a/classpath/avian/Assembler.java
+++ b/classpath/avian/Assembler.java
@@ -32,13 +32,18 @@ public class Assembler {
   public static final int astore_0 = 0x4b;
   public static final int anewarray = 0xbd;
   public static final int areturn = 0xb0;
+  public static final int checkcast = 0xc0;
   public static final int dload = 0x18;
   public static final int dreturn = 0xaf;
   public static final int dup = 0x59;
+  public static final int f2d = 0x8d;
   public static final int fload = 0x17;
   public static final int freturn = 0xae;
   public static final int getfield = 0xb4;
   public static final int goto_ = 0xa7;
+  public static final int i2d = 0x87;
+  public static final int i2f = 0x86;
+  public static final int i2l = 0x85;
   public static final int iload = 0x15;
   public static final int invokeinterface = 0xb9;
   public static final int invokespecial = 0xb7;
@@ -46,6 +51,8 @@ public class Assembler {
   public static final int invokevirtual = 0xb6;
   public static final int ireturn = 0xac;
   public static final int jsr = 0xa8;
+  public static final int l2d = 0x8a;
+  public static final int l2f = 0x89;
   public static final int ldc_w = 0x13;
   public static final int lload = 0x16;
   public static final int lreturn = 0xad;
diff --git a/classpath/java/lang/reflect/Proxy.java b/classpath/java/lang/reflect/Proxy.java
index 5415a4f..36b3083 100644
--- a/classpath/java/lang/reflect/Proxy.java
+++ b/classpath/java/lang/reflect/Proxy.java
@@ -81,6 +81,15 @@ public class Proxy {
     return ((Proxy) proxy).h;
   }
 
+  private static void writeCast(ByteArrayOutputStream out,
+                                List<PoolEntry> pool,
+                                String type)
+    throws IOException
+  {
+    write1(out, checkcast);
+    write2(out, ConstantPool.addClass(pool, type) + 1);
+  }
+
   private static byte[] makeInvokeCode(List<PoolEntry> pool,
                                        String className,
                                        byte[] spec,
@@ -116,7 +125,8 @@ public class Proxy {
     write1(out, anewarray);
     write2(out, ConstantPool.addClass(pool, "java/lang/Object") + 1);
 
-    int ai = 0;
+    int ai = 0; // index of the argument
+    int li = 1; // index of its first local variable
     int si;
     for (si = 1; spec[si] != ')'; ++si) {
       write1(out, dup);
@@ -130,7 +140,7 @@ public class Proxy {
         while (spec[si] != ';') ++si;
       
         write1(out, aload);
-        write1(out, ai + 1);
+        write1(out, li);
         break;
 
       case '[':
@@ -147,12 +157,12 @@ public class Proxy {
         }
 
         write1(out, aload);
-        write1(out, ai + 1);
+        write1(out, li);
         break;
 
       case 'Z':
         write1(out, iload);
-        write1(out, ai + 1);
+        write1(out, li);
 
         write1(out, invokestatic);
         write2(out, ConstantPool.addMethodRef
@@ -162,7 +172,7 @@ public class Proxy {
 
       case 'B':
         write1(out, iload);
-        write1(out, ai + 1);
+        write1(out, li);
 
         write1(out, invokestatic);
         write2(out, ConstantPool.addMethodRef
@@ -172,7 +182,7 @@ public class Proxy {
 
       case 'S':
         write1(out, iload);
-        write1(out, ai + 1);
+        write1(out, li);
 
         write1(out, invokestatic);
         write2(out, ConstantPool.addMethodRef
@@ -182,7 +192,7 @@ public class Proxy {
 
       case 'C':
         write1(out, iload);
-        write1(out, ai + 1);
+        write1(out, li);
 
         write1(out, invokestatic);
         write2(out, ConstantPool.addMethodRef
@@ -192,7 +202,7 @@ public class Proxy {
 
       case 'I':
         write1(out, iload);
-        write1(out, ai + 1);
+        write1(out, li);
 
         write1(out, invokestatic);
         write2(out, ConstantPool.addMethodRef
@@ -202,7 +212,7 @@ public class Proxy {
 
       case 'F':
         write1(out, fload);
-        write1(out, ai + 1);
+        write1(out, li);
 
         write1(out, invokestatic);
         write2(out, ConstantPool.addMethodRef
@@ -212,24 +222,24 @@ public class Proxy {
 
       case 'J':
         write1(out, lload);
-        write1(out, ai + 1);
+        write1(out, li);
 
         write1(out, invokestatic);
         write2(out, ConstantPool.addMethodRef
                (pool, "java/lang/Long",
                 "valueOf", "(J)Ljava/lang/Long;") + 1);
-        ++ ai;
+        ++ li;
         break;
 
       case 'D':
         write1(out, dload);
-        write1(out, ai + 1);
+        write1(out, li);
 
         write1(out, invokestatic);
         write2(out, ConstantPool.addMethodRef
                (pool, "java/lang/Double",
                 "valueOf", "(D)Ljava/lang/Double;") + 1);
-        ++ ai;
+        ++ li;
         break;
 
       default: throw new IllegalArgumentException();
@@ -238,6 +248,7 @@ public class Proxy {
       write1(out, aastore);
 
       ++ ai;
+      ++ li;
     }
 
     write1(out, invokeinterface);
@@ -252,11 +263,19 @@ public class Proxy {
 
     switch (spec[si + 1]) {
     case 'L':
+      writeCast(out, pool, Classes.makeString
+                (spec, si + 2, spec.length - si - 4));
+      write1(out, areturn);
+      break;
+
     case '[':
+      writeCast(out, pool, Classes.makeString
+                (spec, si + 1, spec.length - si - 2));
       write1(out, areturn);
       break;
 
     case 'Z':
+      writeCast(out, pool, "java/lang/Boolean");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Boolean", "booleanValue", "()Z") + 1);
@@ -264,6 +283,7 @@ public class Proxy {
       break;
 
     case 'B':
+      writeCast(out, pool, "java/lang/Byte");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Byte", "byteValue", "()B") + 1);
@@ -271,6 +291,7 @@ public class Proxy {
       break;
 
     case 'C':
+      writeCast(out, pool, "java/lang/Character");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Character", "charValue", "()C") + 1);
@@ -278,6 +299,7 @@ public class Proxy {
       break;
 
     case 'S':
+      writeCast(out, pool, "java/lang/Short");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Short", "shortValue", "()S") + 1);
@@ -285,6 +307,7 @@ public class Proxy {
       break;
 
     case 'I':
+      writeCast(out, pool, "java/lang/Integer");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Integer", "intValue", "()I") + 1);
@@ -292,6 +315,7 @@ public class Proxy {
       break;
 
     case 'F':
+      writeCast(out, pool, "java/lang/Float");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Float", "floatValue", "()F") + 1);
@@ -299,6 +323,7 @@ public class Proxy {
       break;
 
     case 'J':
+      writeCast(out, pool, "java/lang/Long");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Long", "longValue", "()J") + 1);
@@ -306,6 +331,7 @@ public class Proxy {
       break;
 
     case 'D':
+      writeCast(out, pool, "java/lang/Double");
       write1(out, invokevirtual);
       write2(out, ConstantPool.addMethodRef
              (pool, "java/lang/Double", "doubleValue", "()D") + 1);
@@ -378,7 +404,7 @@ public class Proxy {
       if (ivtable != null) {
         for (avian.VMMethod m: ivtable) {
           String spec = Classes.toString(m.name) + Classes.toString(m.spec);
-          if (specs.contains(spec)) {
+          if (! specs.add(spec)) {
             continue;
           }
           methodTable.add(new MethodData
-- 
2.43.0


From dcbf7eb8dca19fad18773585b1e402baf68c045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 72/98] fix: lambdas did not convert between primitive types,
 nor call constructors with arguments

Arguments and results are converted as the language says: unboxing and
widening by the instantiated type, with a cast where the types demand
it; new comes before the arguments of a constructor.
---
 .../java/lang/invoke/LambdaMetafactory.java   | 262 +++++++++---------
 1 file changed, 137 insertions(+), 125 deletions(-)

diff --git a/classpath/java/lang/invoke/LambdaMetafactory.java b/classpath/java/lang/invoke/LambdaMetafactory.java
index bc18e9d..65e876d 100644
--- a/classpath/java/lang/invoke/LambdaMetafactory.java
+++ b/classpath/java/lang/invoke/LambdaMetafactory.java
@@ -147,124 +147,121 @@ public class LambdaMetafactory {
     return result;
   }
 
-  private static void maybeBoxOrUnbox(ByteArrayOutputStream out,
-                                      List<PoolEntry> pool,
-                                      MethodType.TypeSpec from,
-                                      MethodType.TypeSpec to)
+  private static Class boxed(MethodType.TypeSpec primitive) {
+    switch (primitive.spec()) {
+    case "Z": return Boolean.class;
+    case "B": return Byte.class;
+    case "S": return Short.class;
+    case "C": return Character.class;
+    case "I": return Integer.class;
+    case "F": return Float.class;
+    case "J": return Long.class;
+    case "D": return Double.class;
+    default: throw new AssertionError("no box for " + primitive.spec());
+    }
+  }
+
+  /** The primitive type that a boxed type holds, or 0. */
+  private static char unboxed(Class c) {
+    return c == Boolean.class ? 'Z'
+      : c == Byte.class ? 'B'
+      : c == Short.class ? 'S'
+      : c == Character.class ? 'C'
+      : c == Integer.class ? 'I'
+      : c == Float.class ? 'F'
+      : c == Long.class ? 'J'
+      : c == Double.class ? 'D' : 0;
+  }
+
+  private static void widen(OutputStream out, char from, char to)
     throws IOException
   {
+    switch (from) {
+    case 'B':
+    case 'S':
+    case 'C':
+    case 'I':
+      switch (to) {
+      case 'J': write1(out, i2l); break;
+      case 'F': write1(out, i2f); break;
+      case 'D': write1(out, i2d); break;
+      }
+      break;
+
+    case 'J':
+      switch (to) {
+      case 'F': write1(out, l2f); break;
+      case 'D': write1(out, l2d); break;
+      }
+      break;
+
+    case 'F':
+      if (to == 'D') write1(out, f2d);
+      break;
+    }
+  }
+
+  private static void writeCast(OutputStream out,
+                                List<PoolEntry> pool,
+                                Class class_)
+    throws IOException
+  {
+    write1(out, checkcast);
+    write2(out, ConstantPool.addClass
+           (pool, class_.getName().replace('.', '/')) + 1);
+  }
+
+  private static void convert(OutputStream out,
+                              List<PoolEntry> pool,
+                              MethodType.TypeSpec from,
+                              MethodType.TypeSpec to)
+    throws IOException
+  {
+    if ("V".equals(to.spec())) {
+      return;
+    }
+
     if (to.type().isPrimitive()) {
-      if (! (from.type().isPrimitive() || "V".equals(to.spec()))) {
-        write1(out, invokevirtual);
+      char type;
+      if (from.type().isPrimitive()) {
+        type = from.spec().charAt(0);
+      } else {
+        Class box = from.type();
+        type = unboxed(box);
+        if (type == 0) {
+          type = to.spec().charAt(0);
+          box = type == 'Z' ? Boolean.class
+            : type == 'C' ? Character.class : Number.class;
+          writeCast(out, pool, box);
+        }
 
-        try {
-          switch (to.spec()) {
-          case "Z":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Boolean.class.getMethod("booleanValue")));
-            break;
-
-          case "B":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Byte.class.getMethod("byteValue")));
-            break;
-
-          case "S":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Short.class.getMethod("shortValue")));
-            break;
-
-          case "C":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Character.class.getMethod("charValue")));
-            break;
-
-          case "I":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Integer.class.getMethod("intValue")));
-            break;
-
-          case "F":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Float.class.getMethod("floatValue")));
-            break;
-
-          case "J":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Long.class.getMethod("longValue")));
-            break;
-
-          case "D":
-            writeMethodReference(out, pool, Classes.toVMMethod
-                                 (Double.class.getMethod("doubleValue")));
-            break;
-
-          default:
-            throw new AssertionError("don't know how to auto-unbox to " + to.spec());
-          }
-        } catch (NoSuchMethodException e) {
-          throw new Error(e);
+        String name;
+        switch (type) {
+        case 'Z': name = "booleanValue"; break;
+        case 'B': name = "byteValue"; break;
+        case 'S': name = "shortValue"; break;
+        case 'C': name = "charValue"; break;
+        case 'I': name = "intValue"; break;
+        case 'F': name = "floatValue"; break;
+        case 'J': name = "longValue"; break;
+        default: name = "doubleValue"; break;
         }
+
+        write1(out, invokevirtual);
+        write2(out, ConstantPool.addMethodRef
+               (pool, box.getName().replace('.', '/'), name, "()" + type) + 1);
       }
+
+      widen(out, type, to.spec().charAt(0));
     } else if (from.type().isPrimitive()) {
-      write1(out, invokestatic);
+      String box = boxed(from).getName().replace('.', '/');
 
-      try {
-        switch (from.spec()) {
-        case "Z":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Boolean.class.getMethod
-                                ("valueOf", Boolean.TYPE)));
-          break;
-
-        case "B":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Byte.class.getMethod
-                                ("valueOf", Byte.TYPE)));
-          break;
-
-        case "S":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Short.class.getMethod
-                                ("valueOf", Short.TYPE)));
-          break;
-
-        case "C":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Character.class.getMethod
-                                ("valueOf", Character.TYPE)));
-          break;
-
-        case "I":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Integer.class.getMethod
-                                ("valueOf", Integer.TYPE)));
-          break;
-
-        case "F":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Float.class.getMethod
-                                ("valueOf", Float.TYPE)));
-          break;
-
-        case "J":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Long.class.getMethod
-                                ("valueOf", Long.TYPE)));
-          break;
-
-        case "D":
-          writeMethodReference(out, pool, Classes.toVMMethod
-                               (Double.class.getMethod
-                                ("valueOf", Double.TYPE)));
-          break;
-
-        default:
-          throw new AssertionError("don't know how to autobox from " + from.spec());
-        }
-      } catch (NoSuchMethodException e) {
-        throw new Error(e);
-      }
+      write1(out, invokestatic);
+      write2(out, ConstantPool.addMethodRef
+             (pool, box, "valueOf",
+              "(" + from.spec() + ")L" + box + ";") + 1);
+    } else if (! to.type().isAssignableFrom(from.type())) {
+      writeCast(out, pool, to.type());
     }
   }
 
@@ -273,20 +270,32 @@ public class LambdaMetafactory {
                                            String constructorSpec,
                                            MethodType fieldType,
                                            MethodType localType,
+                                           MethodType instantiatedType,
                                            MethodHandle implementation)
     throws IOException
   {
     ByteArrayOutputStream out = new ByteArrayOutputStream();
     write2(out, fieldType.footprint()
+           + implementation.type().footprint()
            + localType.footprint() + 4); // max stack
     write2(out, localType.footprint() + 1); // max locals
     write4(out, 0); // length (we'll set the real value later)
 
-    write1(out, aload_0);
+    if (implementation.kind == MethodHandle.REF_newInvokeSpecial) {
+      write1(out, new_);
+      write2(out, ConstantPool.addClass
+             (pool,
+              Classes.makeString
+              (implementation.method.class_.name, 0,
+               implementation.method.class_.name.length - 1)) + 1);
+      write1(out, dup);
+    }
 
     Iterator<MethodType.Parameter> dst = implementation.type().parameters().iterator();
 
-    boolean skip = implementation.kind != MethodHandle.REF_invokeStatic;
+    // the receiver is not among the parameters of the implementation:
+    boolean skip = implementation.kind != MethodHandle.REF_invokeStatic
+      && implementation.kind != MethodHandle.REF_newInvokeSpecial;
 
     for (MethodType.Parameter p: fieldType.parameters()) {
       write1(out, aload_0);
@@ -296,17 +305,24 @@ public class LambdaMetafactory {
       if (skip) {
         skip = false;
       } else {
-        maybeBoxOrUnbox(out, pool, p, dst.next());
+        convert(out, pool, p, dst.next());
       }
     }
 
+    Iterator<MethodType.Parameter> actual
+      = instantiatedType.parameters().iterator();
+
     for (MethodType.Parameter p: localType.parameters()) {
       write1(out, p.load());
       write1(out, p.position() + 1);
+
+      MethodType.Parameter a = actual.next();
+      convert(out, pool, p, a);
+
       if (skip) {
         skip = false;
       } else {
-        maybeBoxOrUnbox(out, pool, p, dst.next());
+        convert(out, pool, a, dst.next());
       }
     }
 
@@ -327,13 +343,6 @@ public class LambdaMetafactory {
       break;
 
     case MethodHandle.REF_newInvokeSpecial:
-      write1(out, new_);
-      write2(out, ConstantPool.addClass
-             (pool,
-              Classes.makeString
-              (implementation.method.class_.name, 0,
-               implementation.method.class_.name.length - 1)) + 1);
-      write1(out, dup);
       write1(out, invokespecial);
       writeMethodReference(out, pool, implementation.method);
       break;
@@ -350,7 +359,7 @@ public class LambdaMetafactory {
     }
 
     if (implementation.kind != MethodHandle.REF_newInvokeSpecial) {
-      maybeBoxOrUnbox(out, pool, implementation.type().result(), localType.result());
+      convert(out, pool, implementation.type().result(), localType.result());
     }
     write1(out, localType.result().return_());
 
@@ -404,6 +413,7 @@ public class LambdaMetafactory {
     return makeLambda(invokedName,
                       new MethodType(invokedType),
                       new MethodType(methodType),
+                      new MethodType(methodType),
                       new MethodHandle(implementationClass,
                                        implementationName,
                                        implementationSpec,
@@ -414,6 +424,7 @@ public class LambdaMetafactory {
   private static byte[] makeLambda(String invokedName,
                                    MethodType invokedType,
                                    MethodType methodType,
+                                   MethodType instantiatedMethodType,
                                    MethodHandle methodImplementation,
                                    Class[] interfaces)
   {
@@ -468,7 +479,8 @@ public class LambdaMetafactory {
           ConstantPool.addUtf8(pool, invokedName),
           ConstantPool.addUtf8(pool, methodType.toMethodDescriptorString()),
           makeInvocationCode(pool, className, constructorSpec, invokedType,
-                             methodType, methodImplementation)));
+                             methodType, instantiatedMethodType,
+                             methodImplementation)));
     } catch (IOException e) {
       AssertionError error = new AssertionError();
       error.initCause(e);
@@ -519,7 +531,7 @@ public class LambdaMetafactory {
                                      MethodType instantiatedMethodType)
     throws LambdaConversionException
   {
-    byte[] classData = makeLambda(invokedName, invokedType, methodType, methodImplementation, emptyInterfaceList);
+    byte[] classData = makeLambda(invokedName, invokedType, methodType, instantiatedMethodType, methodImplementation, emptyInterfaceList);
     return makeCallSite(invokedType, classData);
   }
 
@@ -591,7 +603,7 @@ public class LambdaMetafactory {
     if (serializable)
       interfaces[0] = java.io.Serializable.class;
 
-    byte[] classData = makeLambda(invokedName, invokedType, methodType, methodImplementation, interfaces);
+    byte[] classData = makeLambda(invokedName, invokedType, methodType, (MethodType) args[2], methodImplementation, interfaces);
     return makeCallSite(invokedType, classData);
   }
 }
-- 
2.43.0


From 92c11ccf0e3b1c4473bf07dabee9691cdf0dbccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:53 +0000
Subject: [PATCH 73/98] fix: the invocation of a dynamic call was not protected
 from collections while it was given its index

---
 src/compile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 0fdb762..41c64dd 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -1311,6 +1311,8 @@ Allocator* allocator(MyThread* t);
 
 unsigned addDynamic(MyThread* t, GcInvocation* invocation)
 {
+  PROTECT(t, invocation);
+
   ACQUIRE(t, t->m->classLock);
 
   int index = invocation->index();
-- 
2.43.0


From 25056f1075fcea788e27e741198764f58da012e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:33 +0000
Subject: [PATCH 74/98] fix: after a call, compiled code could use a copy of a
 reference that the collector had not updated

---
 src/codegen/compiler/event.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/codegen/compiler/event.cpp b/src/codegen/compiler/event.cpp
index 575bede..9d22130 100644
--- a/src/codegen/compiler/event.cpp
+++ b/src/codegen/compiler/event.cpp
@@ -1897,6 +1897,23 @@ void clean(Context* c, Value* v, unsigned popIndex)
   }
 }
 
+// Whether the site is one where the collector looks for this value: the
+// place in the frame of a local variable or of an operand which holds
+// it.  A copy anywhere else in the frame is not updated when a
+// collection moves the object it refers to.
+bool inFrameMap(Context* c, Stack* stack, Local* locals, Value* v, Site* s)
+{
+  for (FrameIterator it(c, stack, locals); it.hasMore();) {
+    FrameIterator::Element e = it.next(c);
+    if ((e.value == v or e.value->isBuddyOf(v))
+        and s->match(
+                c, SiteMask(lir::Operand::MemoryMask, 0, e.frameIndex(c)))) {
+      return true;
+    }
+  }
+  return false;
+}
+
 void clean(Context* c,
            Event* e,
            Stack* stack,
@@ -1907,6 +1924,12 @@ void clean(Context* c,
   for (FrameIterator it(c, stack, locals); it.hasMore();) {
     FrameIterator::Element e = it.next(c);
     clean(c, e.value, popIndex);
+
+    for (SiteIterator sites(c, e.value); sites.hasMore();) {
+      if (not inFrameMap(c, stack, locals, e.value, sites.next())) {
+        sites.remove(c);
+      }
+    }
   }
 
   for (Read* r = reads; r; r = r->eventNext) {
-- 
2.43.0


From aba3c3e8eb80fd7f57b0e1af74fa56e0d9bb271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:42 +0000
Subject: [PATCH 75/98] fix: elements of annotations with array types had
 values of type Object[]

---
 .../avian/AnnotationInvocationHandler.java     |  2 +-
 classpath/avian/Classes.java                   | 18 ++++++++++++++++++
 classpath/java/lang/reflect/Method.java        |  4 +++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/classpath/avian/AnnotationInvocationHandler.java b/classpath/avian/AnnotationInvocationHandler.java
index a15e716..8d8dc19 100644
--- a/classpath/avian/AnnotationInvocationHandler.java
+++ b/classpath/avian/AnnotationInvocationHandler.java
@@ -24,7 +24,7 @@ public class AnnotationInvocationHandler implements InvocationHandler {
     String name = method.getName();
     for (int i = 2; i < data.length; i += 2) {
       if (name.equals(data[i])) {
-        return data[i + 1];
+        return Classes.annotationElement(method.getReturnType(), data[i + 1]);
       }
     }
     return method.getDefaultValue();
diff --git a/classpath/avian/Classes.java b/classpath/avian/Classes.java
index 7c3aec2..aae438a 100644
--- a/classpath/avian/Classes.java
+++ b/classpath/avian/Classes.java
@@ -20,6 +20,7 @@ import java.security.AllPermission;
 import java.security.Permissions;
 import java.security.ProtectionDomain;
 import java.security.cert.Certificate;
+import java.lang.reflect.Array;
 import java.lang.reflect.Modifier;
 import java.lang.reflect.Method;
 import java.lang.reflect.Field;
@@ -614,6 +615,23 @@ public class Classes {
     }
   }
 
+  /**
+   * The value of an element of an annotation, given what it was parsed
+   * as: an array of Object, whatever the type of the element, if it is
+   * an array.
+   */
+  public static Object annotationElement(Class type, Object value) {
+    if (value instanceof Object[] && type.isArray()) {
+      Object[] source = (Object[]) value;
+      Object array = Array.newInstance(type.getComponentType(), source.length);
+      for (int i = 0; i < source.length; ++i) {
+        Array.set(array, i, source[i]);
+      }
+      return array;
+    }
+    return value;
+  }
+
   private static int index(VMMethod m) {
     VMMethod[] table = m.class_.methodTable;
     for (int i = 0; i < table.length; ++i) {
diff --git a/classpath/java/lang/reflect/Method.java b/classpath/java/lang/reflect/Method.java
index 705fc8e..ab6d13d 100644
--- a/classpath/java/lang/reflect/Method.java
+++ b/classpath/java/lang/reflect/Method.java
@@ -155,7 +155,9 @@ public class Method<T> extends AccessibleObject implements Member {
 
   public Object getDefaultValue() {
     ClassLoader loader = getDeclaringClass().getClassLoader();
-    return Classes.getAnnotationDefaultValue(loader, vmMethod.addendum);
+    return Classes.annotationElement
+      (getReturnType(),
+       Classes.getAnnotationDefaultValue(loader, vmMethod.addendum));
   }
 
   public Class<?>[] getExceptionTypes() {
-- 
2.43.0


From 5a1efb7c616fc744af8c5512fbd34596741ed37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 76/98] fix: native code's calls with double arguments got
 other values in the interpreter

The interpreter took a double argument of a Call<Type>Method or
Call<Type>MethodV from where the calling convention puts integers.
---
 src/interpret.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index f4c9aff..ae5d648 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3078,10 +3078,13 @@ void pushArguments(Thread* t,
       break;
 
     case 'J':
-    case 'D':
       pushLong(t, va_arg(a, uint64_t));
       break;
 
+    case 'D':
+      pushLong(t, doubleToBits(va_arg(a, double)));
+      break;
+
     case 'F': {
       pushFloat(t, va_arg(a, double));
     } break;
-- 
2.43.0


From 69debd5fe1a5a7ab90277d5e7231410d6462b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 77/98] fix: arguments of native code's Call<Type>MethodA calls
 kept bits beyond their type

Only the member of a jvalue that the argument's type names is defined;
for boolean, byte, char and short the whole int was passed.
---
 src/compile.cpp   | 16 ++++++++++++++++
 src/interpret.cpp | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 41c64dd..c0b79d8 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -8422,6 +8422,22 @@ class ArgumentList {
         addInt(floatToBits(arguments[index++].f));
         break;
 
+      case 'Z':
+        addInt(arguments[index++].z);
+        break;
+
+      case 'B':
+        addInt(arguments[index++].b);
+        break;
+
+      case 'C':
+        addInt(arguments[index++].c);
+        break;
+
+      case 'S':
+        addInt(arguments[index++].s);
+        break;
+
       default:
         addInt(arguments[index++].i);
         break;
diff --git a/src/interpret.cpp b/src/interpret.cpp
index ae5d648..ce7787e 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3123,6 +3123,22 @@ void pushArguments(Thread* t,
       pushFloat(t, arguments[index++].f);
     } break;
 
+    case 'Z':
+      pushInt(t, arguments[index++].z);
+      break;
+
+    case 'B':
+      pushInt(t, arguments[index++].b);
+      break;
+
+    case 'C':
+      pushInt(t, arguments[index++].c);
+      break;
+
+    case 'S':
+      pushInt(t, arguments[index++].s);
+      break;
+
     default:
       pushInt(t, arguments[index++].i);
       break;
-- 
2.43.0


From 307682aacae2b0fd3e18f4d698e85cfa90746fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 78/98] fix: GetStringRegion wrote a character beyond those
 asked for

The caller's buffer has room for the region only; unlike
GetStringUTFRegion this function adds no terminator.
---
 src/jnienv.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 82eb3d3..e27eb40 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -166,7 +166,9 @@ void JNICALL
 {
   ENTER(t, Thread::ActiveState);
 
-  stringChars(t, *s, start, length, dst);
+  for (jsize i = 0; i < length; ++i) {
+    dst[i] = stringCharAt(t, *s, start + i);
+  }
 }
 
 const jchar* JNICALL GetStringCritical(Thread* t, jstring s, jboolean* isCopy)
-- 
2.43.0


From c9cee3e9edb212942fd281cbfb24bfd5d284a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:53 +0000
Subject: [PATCH 79/98] fix: local references of a native method that throws
 were kept

Compiled code released the local references of a native method only when
it returned normally.
---
 src/compile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index c0b79d8..e6a5364 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -7721,6 +7721,10 @@ uint64_t invokeNativeSlow(MyThread* t, GcMethod* method, void* function)
   }
 
   if (UNLIKELY(t->exception)) {
+    while (t->reference != reference) {
+      dispose(t, t->reference);
+    }
+
     GcThrowable* exception = t->exception;
     t->exception = 0;
     vm::throw_(t, exception);
-- 
2.43.0


From 4be4b550c143abe5b14394f1bbd81dfbf92efe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:53 +0000
Subject: [PATCH 80/98] fix: DeleteLocalRef of a native method's argument
 corrupted the stack

Arguments of native methods are no Reference objects in compiled code.
---
 src/compile.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index e6a5364..98b9828 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -9085,10 +9085,17 @@ class MyProcessor : public Processor {
     }
   }
 
-  virtual void disposeLocalReference(Thread* t, object* r)
+  virtual void disposeLocalReference(Thread* vmt, object* r)
   {
-    if (r) {
-      release(t, reinterpret_cast<Reference*>(r));
+    MyThread* t = static_cast<MyThread*>(vmt);
+
+    // the arguments of a native method are references to its caller's
+    // stack, which are not to be released
+    for (Reference* p = t->reference; p; p = p->next) {
+      if (&(p->target) == r) {
+        release(t, p);
+        break;
+      }
     }
   }
 
-- 
2.43.0


From 18e2fe89e8872291f68388c7c300b3d726c3f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:53 +0000
Subject: [PATCH 81/98] fix: the interpreter's stack ran full of deleted local
 references

A native method that makes and deletes many local references, as in a
loop over an array, ended the process.
---
 src/interpret.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/interpret.cpp b/src/interpret.cpp
index ce7787e..fff506d 100644
--- a/src/interpret.cpp
+++ b/src/interpret.cpp
@@ -3380,6 +3380,21 @@ class MyProcessor : public Processor {
   {
     Thread* t = static_cast<Thread*>(vmt);
 
+    if (o and t->sp >= stackSizeInWords(t) / 4
+        and (t->frame < 0
+             or (frameMethod(t, t->frame)->flags() & ACC_NATIVE))) {
+      // make use of a reference that has been deleted before the stack
+      // is full
+      for (unsigned i = t->frame < 0 ? 0 : t->frame + FrameFootprint; i < t->sp;
+           ++i) {
+        uintptr_t* p = t->stack + (i * 2);
+        if (p[0] == ObjectTag and p[1] == 0) {
+          p[1] = reinterpret_cast<uintptr_t>(o);
+          return reinterpret_cast<object*>(p + 1);
+        }
+      }
+    }
+
     return pushReference(t, o);
   }
 
-- 
2.43.0


From 343d704497156e3bedeea8c1e90933bf526307c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:53 +0000
Subject: [PATCH 82/98] fix: cleared weak references were not the same as null
 for native code

IsSameObject gave false for a cleared weak global reference and NULL,
NewGlobalRef made a reference to null, and NewLocalRef(NULL) crashed.
---
 src/jnienv.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index e27eb40..0c80051 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -418,7 +418,7 @@ jobject JNICALL NewLocalRef(Thread* t, jobject o)
 {
   ENTER(t, Thread::ActiveState);
 
-  return makeLocalReference(t, *o);
+  return makeLocalReference(t, o ? *o : 0);
 }
 
 void JNICALL DeleteLocalRef(Thread* t, jobject r)
@@ -2263,7 +2263,7 @@ jobject JNICALL newGlobalRef(Thread* t, jobject o, bool weak)
 
   ACQUIRE(t, t->m->referenceLock);
 
-  if (o) {
+  if (o and *o) {
     for (Reference* r = t->m->jniReferences; r; r = r->next) {
       if (r->target == *o and r->weak == weak) {
         acquire(t, r);
@@ -3174,13 +3174,9 @@ jint JNICALL GetJavaVM(Thread* t, Machine** m)
 
 jboolean JNICALL IsSameObject(Thread* t, jobject a, jobject b)
 {
-  if (a and b) {
-    ENTER(t, Thread::ActiveState);
+  ENTER(t, Thread::ActiveState);
 
-    return *a == *b;
-  } else {
-    return a == b;
-  }
+  return (a ? *a : 0) == (b ? *b : 0);
 }
 
 uint64_t pushLocalFrame(Thread* t, uintptr_t* arguments)
-- 
2.43.0


From 9d0d451abdfe756bd2a5653aaba1d2151413ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:29 +0000
Subject: [PATCH 83/98] fix: native code used stale or other classes' static
 fields

Get/SetStatic<Type>Field initialized the class and then used a reference
to it that a collection in the initializer leaves stale; and took the
field's offset into the static fields of the class given even when a
superclass declares the field.
---
 src/jnienv.cpp | 112 ++++++++++---------------------------------------
 1 file changed, 22 insertions(+), 90 deletions(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 0c80051..40c9575 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -1830,22 +1830,22 @@ GcField* getStaticField(Thread* t, jfieldID f)
 
   assertT(t, field->flags() & ACC_STATIC);
 
+  PROTECT(t, field);
+
+  initClass(t, field->class_());
+
   return field;
 }
 
 uint64_t getStaticObjectField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return reinterpret_cast<uintptr_t>(makeLocalReference(
-      t, fieldAtOffset<object>(c->vmClass()->staticTable(), field->offset())));
+      t, fieldAtOffset<object>(field->class_()->staticTable(), field->offset())));
 }
 
 jobject JNICALL GetStaticObjectField(Thread* t, jclass c, jfieldID field)
@@ -1857,16 +1857,12 @@ jobject JNICALL GetStaticObjectField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticBooleanField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jboolean>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jboolean>(field->class_()->staticTable(), field->offset());
 }
 
 jboolean JNICALL GetStaticBooleanField(Thread* t, jclass c, jfieldID field)
@@ -1878,16 +1874,12 @@ jboolean JNICALL GetStaticBooleanField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticByteField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jbyte>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jbyte>(field->class_()->staticTable(), field->offset());
 }
 
 jbyte JNICALL GetStaticByteField(Thread* t, jclass c, jfieldID field)
@@ -1899,16 +1891,12 @@ jbyte JNICALL GetStaticByteField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticCharField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jchar>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jchar>(field->class_()->staticTable(), field->offset());
 }
 
 jchar JNICALL GetStaticCharField(Thread* t, jclass c, jfieldID field)
@@ -1920,16 +1908,12 @@ jchar JNICALL GetStaticCharField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticShortField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jshort>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jshort>(field->class_()->staticTable(), field->offset());
 }
 
 jshort JNICALL GetStaticShortField(Thread* t, jclass c, jfieldID field)
@@ -1941,16 +1925,12 @@ jshort JNICALL GetStaticShortField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticIntField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jint>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jint>(field->class_()->staticTable(), field->offset());
 }
 
 jint JNICALL GetStaticIntField(Thread* t, jclass c, jfieldID field)
@@ -1962,16 +1942,12 @@ jint JNICALL GetStaticIntField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticLongField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_READ(t, field);
 
-  return fieldAtOffset<jlong>(c->vmClass()->staticTable(), field->offset());
+  return fieldAtOffset<jlong>(field->class_()->staticTable(), field->offset());
 }
 
 jlong JNICALL GetStaticLongField(Thread* t, jclass c, jfieldID field)
@@ -1983,17 +1959,13 @@ jlong JNICALL GetStaticLongField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticFloatField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return floatToBits(
-      fieldAtOffset<jfloat>(c->vmClass()->staticTable(), field->offset()));
+      fieldAtOffset<jfloat>(field->class_()->staticTable(), field->offset()));
 }
 
 jfloat JNICALL GetStaticFloatField(Thread* t, jclass c, jfieldID field)
@@ -2005,17 +1977,13 @@ jfloat JNICALL GetStaticFloatField(Thread* t, jclass c, jfieldID field)
 
 uint64_t getStaticDoubleField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_READ(t, field);
 
   return doubleToBits(
-      fieldAtOffset<jdouble>(c->vmClass()->staticTable(), field->offset()));
+      fieldAtOffset<jdouble>(field->class_()->staticTable(), field->offset()));
 }
 
 jdouble JNICALL GetStaticDoubleField(Thread* t, jclass c, jfieldID field)
@@ -2027,17 +1995,13 @@ jdouble JNICALL GetStaticDoubleField(Thread* t, jclass c, jfieldID field)
 
 uint64_t setStaticObjectField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jobject v = reinterpret_cast<jobject>(arguments[2]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  setField(t, c->vmClass()->staticTable(), field->offset(), (v ? *v : 0));
+  setField(t, field->class_()->staticTable(), field->offset(), (v ? *v : 0));
 
   return 1;
 }
@@ -2053,17 +2017,13 @@ void JNICALL
 
 uint64_t setStaticBooleanField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jboolean v = arguments[2];
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jboolean>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jboolean>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2078,17 +2038,13 @@ void JNICALL
 
 uint64_t setStaticByteField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jbyte v = arguments[2];
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jbyte>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jbyte>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2103,17 +2059,13 @@ void JNICALL SetStaticByteField(Thread* t, jclass c, jfieldID field, jbyte v)
 
 uint64_t setStaticCharField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jchar v = arguments[2];
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jchar>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jchar>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2127,17 +2079,13 @@ void JNICALL SetStaticCharField(Thread* t, jclass c, jfieldID field, jchar v)
 
 uint64_t setStaticShortField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jshort v = arguments[2];
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jshort>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jshort>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2152,17 +2100,13 @@ void JNICALL SetStaticShortField(Thread* t, jclass c, jfieldID field, jshort v)
 
 uint64_t setStaticIntField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jint v = arguments[2];
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jint>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jint>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2177,10 +2121,6 @@ void JNICALL SetStaticIntField(Thread* t, jclass c, jfieldID field, jint v)
 
 uint64_t setStaticLongField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jlong v;
   memcpy(&v, arguments + 2, sizeof(jlong));
@@ -2188,7 +2128,7 @@ uint64_t setStaticLongField(Thread* t, uintptr_t* arguments)
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jlong>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jlong>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2205,17 +2145,13 @@ void JNICALL SetStaticLongField(Thread* t, jclass c, jfieldID field, jlong v)
 
 uint64_t setStaticFloatField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jfloat v = bitsToFloat(arguments[2]);
 
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jfloat>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jfloat>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
@@ -2230,10 +2166,6 @@ void JNICALL SetStaticFloatField(Thread* t, jclass c, jfieldID field, jfloat v)
 
 uint64_t setStaticDoubleField(Thread* t, uintptr_t* arguments)
 {
-  GcJclass* c = cast<GcJclass>(t, *reinterpret_cast<jobject>(arguments[0]));
-
-  initClass(t, c->vmClass());
-
   GcField* field = getStaticField(t, arguments[1]);
   jdouble v;
   memcpy(&v, arguments + 2, sizeof(jdouble));
@@ -2241,7 +2173,7 @@ uint64_t setStaticDoubleField(Thread* t, uintptr_t* arguments)
   PROTECT(t, field);
   ACQUIRE_FIELD_FOR_WRITE(t, field);
 
-  fieldAtOffset<jdouble>(c->vmClass()->staticTable(), field->offset()) = v;
+  fieldAtOffset<jdouble>(field->class_()->staticTable(), field->offset()) = v;
 
   return 1;
 }
-- 
2.43.0


From 148eaf6f120dff61bb82ace957ceafe3e64c6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:29 +0000
Subject: [PATCH 84/98] fix: the main thread and attached native threads were
 not alive

Thread.isAlive and getState of them told what is true of threads that
have not been started.
---
 src/classpath-avian.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/classpath-avian.cpp b/src/classpath-avian.cpp
index f8df9bc..7d61e19 100644
--- a/src/classpath-avian.cpp
+++ b/src/classpath-avian.cpp
@@ -48,7 +48,8 @@ class MyClasspath : public Classpath {
       group = makeThreadGroup(t, 0, 0, 0);
     }
 
-    const unsigned NewState = 0;
+    // threads made here run already, or are about to
+    const unsigned RunnableState = 1;
     const unsigned NormalPriority = 5;
 
     return vm::makeThread(t,
@@ -57,7 +58,7 @@ class MyClasspath : public Classpath {
                           0,
                           0,
                           0,
-                          NewState,
+                          RunnableState,
                           NormalPriority,
                           0,
                           0,
-- 
2.43.0


From 71a66a7b561752d8e0be750d8f69a8d8139bd301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:18 +0000
Subject: [PATCH 85/98] fix: threads joining an attached native thread waited
 forever

DetachCurrentThread neither ended the thread's state nor notified.
---
 src/avian/machine.h     |  6 ++++++
 src/classpath-avian.cpp | 10 ++++++++++
 src/jnienv.cpp          |  9 +++++++++
 3 files changed, 25 insertions(+)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index ca1f842..2836821 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -1390,6 +1390,12 @@ class Classpath {
 
   virtual void runThread(Thread* t) = 0;
 
+  // called when a thread that was attached by native code is about to be
+  // detached
+  virtual void threadDetached(Thread*)
+  {
+  }
+
   virtual void resolveNative(Thread* t, GcMethod* method) = 0;
 
   virtual void interceptMethods(Thread* t) = 0;
diff --git a/src/classpath-avian.cpp b/src/classpath-avian.cpp
index 7d61e19..38c9996 100644
--- a/src/classpath-avian.cpp
+++ b/src/classpath-avian.cpp
@@ -114,6 +114,16 @@ class MyClasspath : public Classpath {
     t->m->processor->invoke(t, method, 0, t->javaThread);
   }
 
+  virtual void threadDetached(Thread* t)
+  {
+    const unsigned TerminatedState = 5;
+
+    vm::acquire(t, t->javaThread);
+    t->javaThread->state() = TerminatedState;
+    vm::notifyAll(t, t->javaThread);
+    vm::release(t, t->javaThread);
+  }
+
   virtual void resolveNative(Thread* t, GcMethod* method)
   {
     vm::resolveNative(t, method);
diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 40c9575..27d19d7 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -40,6 +40,13 @@ jint JNICALL AttachCurrentThreadAsDaemon(Machine* m, Thread** t, void*)
   return 0;
 }
 
+uint64_t threadDetached(Thread* t, uintptr_t*)
+{
+  t->m->classpath->threadDetached(t);
+
+  return 1;
+}
+
 jint JNICALL DetachCurrentThread(Machine* m)
 {
   Thread* t = static_cast<Thread*>(m->localThread->get());
@@ -49,6 +56,8 @@ jint JNICALL DetachCurrentThread(Machine* m)
     // thoroughly.  Meanwhile, we just ignore requests to detach it,
     // which leaks a bit of memory but should be harmless otherwise.
     if (m->rootThread != t) {
+      run(t, threadDetached, 0);
+
       m->localThread->set(0);
 
       ACQUIRE_RAW(t, t->m->stateLock);
-- 
2.43.0


From 350829d3179b537eed3daf5778616d66cb74d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 86/98] fix: GetStringCritical of an empty string failed an
 assertion

---
 src/jnienv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jnienv.cpp b/src/jnienv.cpp
index 27d19d7..d2eba21 100644
--- a/src/jnienv.cpp
+++ b/src/jnienv.cpp
@@ -196,7 +196,7 @@ const jchar* JNICALL GetStringCritical(Thread* t, jstring s, jboolean* isCopy)
   if (objectClass(t, data) == type(t, GcByteArray::Type)) {
     return GetStringChars(t, s, isCopy);
   } else {
-    return &cast<GcCharArray>(t, data)->body()[(*s)->offset(t)];
+    return cast<GcCharArray>(t, data)->body().begin() + (*s)->offset(t);
   }
 }
 
-- 
2.43.0


From 754dc813895f760e0cd31d80fc4e1d81de78a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:45 +0000
Subject: [PATCH 87/98] fix: PopLocalFrame crashed when an older local
 reference had been deleted

The frame ends at the reference that was the newest when it was pushed;
if that one had been deleted, all of the thread's references were
released, and then a null pointer.
---
 src/compile.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 98b9828..9070151 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -9093,6 +9093,15 @@ class MyProcessor : public Processor {
     // stack, which are not to be released
     for (Reference* p = t->reference; p; p = p->next) {
       if (&(p->target) == r) {
+        if (p->count == 1) {
+          // local frames end at the reference that was newest when they
+          // were pushed
+          for (List<Reference*>* f = t->referenceFrame; f; f = f->next) {
+            if (f->item == p) {
+              f->item = p->next;
+            }
+          }
+        }
         release(t, p);
         break;
       }
-- 
2.43.0


From 94fd3dc3ec0dee7b810a4a745cc4fefd84c217f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 88/98] fix: UnregisterNatives used a stale reference to the
 class's methods

Making a method's runtime data may collect garbage.
---
 src/avian/machine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 2836821..14ed0e3 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -3795,6 +3795,8 @@ inline void registerNative(Thread* t, GcMethod* method, void* function)
 inline void unregisterNatives(Thread* t, GcClass* c)
 {
   GcArray* table = cast<GcArray>(t, c->methodTable());
+  PROTECT(t, table);
+
   if (table) {
     for (unsigned i = 0; i < table->length(); ++i) {
       GcMethod* method = cast<GcMethod>(t, table->body()[i]);
-- 
2.43.0


From 306ec223b014da5320395d4a0a4effb59a7dc4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 89/98] fix: a thread's lock could be disposed of while a
 thread that wakes it waits for the lock

---
 src/avian/machine.h | 19 +++++++++++++++----
 src/machine.cpp     |  4 ++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 14ed0e3..6c3030e 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -1139,9 +1139,12 @@ class Thread {
     DaemonFlag = 1 << 3,
     StressFlag = 1 << 4,
     ActiveFlag = 1 << 5,
-    SystemFlag = 1 << 6,
     JoinFlag = 1 << 7,
-    TryNativeFlag = 1 << 8
+    TryNativeFlag = 1 << 8,
+    // the upper half counts the threads that use this one's lock or
+    // system thread
+    SystemCount = 1 << 16,
+    SystemMask = -SystemCount
   };
 
   class Protector {
@@ -1336,6 +1339,14 @@ class Thread {
     return flags;
   }
 
+  void addSystemCount(int v)
+  {
+    for (uint32_t old = flags;
+         not atomicCompareAndSwap32(&flags, old, old + (v * SystemCount));
+         old = flags) {
+    }
+  }
+
   JNIEnvVTable* vtable;
   Machine* m;
   Thread* parent;
@@ -2762,7 +2773,7 @@ inline bool acquireSystem(Thread* t, Thread* target)
   ACQUIRE_RAW(t, t->m->stateLock);
 
   if (t->state != Thread::JoinedState) {
-    target->setFlag(Thread::SystemFlag);
+    target->addSystemCount(1);
     return true;
   } else {
     return false;
@@ -2775,7 +2786,7 @@ inline void releaseSystem(Thread* t, Thread* target)
 
   assertT(t, t->state != Thread::JoinedState);
 
-  target->clearFlag(Thread::SystemFlag);
+  target->addSystemCount(-1);
 }
 
 inline bool atomicCompareAndSwapObject(Thread* t,
diff --git a/src/machine.cpp b/src/machine.cpp
index bac92ea..ca361da 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -47,7 +47,7 @@ void join(Thread* t, Thread* o)
 {
   if (t != o) {
     assertT(t, o->state != Thread::JoinedState);
-    assertT(t, (o->getFlags() & Thread::SystemFlag) == 0);
+    assertT(t, (o->getFlags() & Thread::SystemMask) == 0);
     if (o->getFlags() & Thread::JoinFlag) {
       o->systemThread->join();
     }
@@ -257,7 +257,7 @@ void killZombies(Thread* t, Thread* o)
     killZombies(t, child);
   }
 
-  if ((o->getFlags() & Thread::SystemFlag) == 0) {
+  if ((o->getFlags() & Thread::SystemMask) == 0) {
     switch (o->state) {
     case Thread::ZombieState:
       join(t, o);
-- 
2.43.0


From 591ca2fab7b4e81af8735dc40cf15a356dc24e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 90/98] fix: code memory was given back when compiling failed
 after the heap had objects in it

---
 src/compile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 9070151..b2e0fe1 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -7233,6 +7233,10 @@ void finish(MyThread* t, FixedAllocator* allocator, Context* context)
 
       setField(t, pool, offset, p->target);
     }
+
+    // the pool is part of the heap from here on, so we can't give its
+    // memory back if an allocation below fails
+    context->executableAllocator = 0;
   }
 
   c->write();
@@ -7276,6 +7280,9 @@ void finish(MyThread* t, FixedAllocator* allocator, Context* context)
   }
 
   if (context->traceLogCount) {
+    // neither can we once call nodes refer to addresses in it
+    context->executableAllocator = 0;
+
     THREAD_RUNTIME_ARRAY(t, TraceElement*, elements, context->traceLogCount);
     unsigned index = 0;
     // unsigned pathFootprint = 0;
-- 
2.43.0


From 64e45d1d08e6049bf4b20f7e904468aede8b8d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 91/98] fix: compiling gave code memory back after releasing
 the class lock

---
 src/compile.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/compile.cpp b/src/compile.cpp
index b2e0fe1..4cb6c19 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -1228,6 +1228,17 @@ class Context {
     dispose();
   }
 
+  // gives the code's memory back unless the compilation succeeded.
+  // This must happen before the class lock is released, since another
+  // thread may then allocate more.
+  void releaseExecutable()
+  {
+    if (executableAllocator) {
+      executableAllocator->free(executableStart, executableSize);
+      executableAllocator = 0;
+    }
+  }
+
   void dispose()
   {
     if (compiler) {
@@ -1236,10 +1247,6 @@ class Context {
 
     assembler->dispose();
 
-    if (executableAllocator) {
-      executableAllocator->free(executableStart, executableSize);
-    }
-
     eventLog.dispose();
 
     zone.dispose();
@@ -10752,7 +10759,10 @@ void compile(MyThread* t,
     return;
   }
 
-  finish(t, allocator, &context);
+  Context* c = &context;
+  THREAD_RESOURCE(t, Context*, c, c->releaseExecutable());
+
+  finish(t, allocator, c);
 
   if (DebugMethodTree) {
     fprintf(stderr,
-- 
2.43.0


From 7e37c8d23d3513b26a073ef0d6ccc8c0d7cfde18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 92/98] simulation hook: failing allocations of objects

---
 src/avian/machine.h | 14 ++++++++++++++
 src/machine.cpp     | 10 ++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 6c3030e..2c5547b 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -1552,6 +1552,9 @@ void shutDown(Thread* t);
 // decides whether a collection happens at this point: 0 for none, 1 for
 // a minor and 2 for a major one
 extern "C" int avianSimGcPoint(void);
+
+// decides whether the allocation to be made fails
+extern "C" int avianSimAllocationFails(void);
 #endif
 
 inline void stress(Thread* t)
@@ -1683,10 +1686,21 @@ inline object allocateSmall(Thread* t, unsigned sizeInBytes)
   return o;
 }
 
+#ifdef AVIAN_SIMULATION
+// throws an OutOfMemoryError instead of an allocation, where allocate3 may
+void simulateAllocationFailure(Thread* t);
+#endif
+
 inline object allocate(Thread* t, unsigned sizeInBytes, bool objectMask)
 {
   stress(t);
 
+#ifdef AVIAN_SIMULATION
+  if (avianSimAllocationFails()) {
+    simulateAllocationFailure(t);
+  }
+#endif
+
   if (UNLIKELY(t->heapIndex + ceilingDivide(sizeInBytes, BytesPerWord)
                > ThreadHeapSizeInWords or t->m->exclusive)) {
     return allocate2(t, sizeInBytes, objectMask);
diff --git a/src/machine.cpp b/src/machine.cpp
index ca361da..9a6d3e3 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4253,6 +4253,16 @@ void enter(Thread* t, Thread::State s)
   }
 }
 
+#ifdef AVIAN_SIMULATION
+void simulateAllocationFailure(Thread* t)
+{
+  if ((t->getFlags() & (Thread::UseBackupHeapFlag | Thread::TracingFlag)) == 0
+      and not t->m->exclusive) {
+    throw_(t, roots(t)->outOfMemoryError());
+  }
+}
+#endif  // AVIAN_SIMULATION
+
 object allocate2(Thread* t, unsigned sizeInBytes, bool objectMask)
 {
   return allocate3(
-- 
2.43.0


From d25c506155d851aefbc183225eeb4d80da60c312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:01 +0000
Subject: [PATCH 93/98] fix: OutOfMemoryError was thrown though a second
 collection would have made room

---
 src/machine.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/machine.cpp b/src/machine.cpp
index 9a6d3e3..a40d4df 100644
--- a/src/machine.cpp
+++ b/src/machine.cpp
@@ -4407,7 +4407,9 @@ void collect(Thread* t, Heap::CollectionType type, int pendingAllocation)
 
   doCollect(t, type, pendingAllocation);
 
-  if (t->m->heap->limitExceeded(pending)) {
+  // the pool's memory was given back, so the allocation now needs all
+  // it asks for
+  if (t->m->heap->limitExceeded(pendingAllocation)) {
     // try once more, giving the heap a chance to squeeze everything
     // into the smallest possible space:
     doCollect(t, Heap::MajorCollection, pendingAllocation);
-- 
2.43.0


From e94cb2e24f6f0fb935b8279962141793ff6aeac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:10 +0000
Subject: [PATCH 94/98] fix: a collection while the table of virtual thunks
 grows left a stale table to copy from

---
 src/compile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compile.cpp b/src/compile.cpp
index 4cb6c19..7cd73a9 100644
--- a/src/compile.cpp
+++ b/src/compile.cpp
@@ -10674,6 +10674,7 @@ uintptr_t virtualThunk(MyThread* t, unsigned index)
 
   GcWordArray* oldArray = compileRoots(t)->virtualThunks();
   if (oldArray == 0 or oldArray->length() <= index * 2) {
+    PROTECT(t, oldArray);
     GcWordArray* newArray = makeWordArray(t, nextPowerOfTwo((index + 1) * 2));
     if (compileRoots(t)->virtualThunks()) {
       memcpy(newArray->body().begin(),
-- 
2.43.0


From 276b529dbbade28b9db74f9d97154bea6cfa7763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:54 +0000
Subject: [PATCH 95/98] fix: the VM aborted when the system could not start a
 thread

---
 src/avian/machine.h  | 7 +++----
 src/system/posix.cpp | 4 +---
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/avian/machine.h b/src/avian/machine.h
index 2c5547b..acea0e2 100644
--- a/src/avian/machine.h
+++ b/src/avian/machine.h
@@ -1903,17 +1903,16 @@ inline void removeThread(Thread* t, Thread* p)
   assertT(t, p->state == Thread::IdleState);
 
   --t->m->liveCount;
-  --t->m->threadCount;
 
   t->m->stateLock->notifyAll(t->systemThread);
 
-  p->parent->child = p->peer;
-
   if (p->javaThread) {
     p->javaThread->peer() = 0;
   }
 
-  p->dispose();
+  // other threads may be using it, so leave it to the next collection
+  p->clearFlag(Thread::JoinFlag);
+  p->state = Thread::ZombieState;
 }
 
 inline Thread* startThread(Thread* t, GcThread* javaThread)
diff --git a/src/system/posix.cpp b/src/system/posix.cpp
index 64a6678..9f8ca0e 100644
--- a/src/system/posix.cpp
+++ b/src/system/posix.cpp
@@ -683,9 +683,7 @@ class MySystem : public System {
   {
     Thread* t = new (allocate(this, sizeof(Thread))) Thread(this, r);
     r->attach(t);
-    int rv UNUSED = pthread_create(&(t->thread), 0, run, r);
-    expect(this, rv == 0);
-    return 0;
+    return pthread_create(&(t->thread), 0, run, r);
   }
 
   virtual Status make(System::Mutex** m)
-- 
2.43.0


From a03a91d7f49efdf845b94c875ba9aaa609505a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:05 +0000
Subject: [PATCH 96/98] fix: Thread.join waited for ever for a thread that was
 not started

---
 classpath/java/lang/Thread.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classpath/java/lang/Thread.java b/classpath/java/lang/Thread.java
index fe57fb6..ddc33bd 100644
--- a/classpath/java/lang/Thread.java
+++ b/classpath/java/lang/Thread.java
@@ -269,7 +269,7 @@ public class Thread implements Runnable {
   public static native void yield();
 
   public synchronized void join() throws InterruptedException {
-    while (getState() != State.TERMINATED) {
+    while (isAlive()) {
       wait();
     }
   }
@@ -283,7 +283,7 @@ public class Thread implements Runnable {
 
     long then = System.currentTimeMillis();
     long remaining = milliseconds;
-    while (remaining > 0 && getState() != State.TERMINATED) {
+    while (remaining > 0 && isAlive()) {
       wait(remaining);
 
       remaining = milliseconds - (System.currentTimeMillis() - then);
-- 
2.43.0


From 2fe5ef022ede2ae730d97944b38a701992ce98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:26 +0000
Subject: [PATCH 97/98] fix: HashMap counted an entry that there was no memory
 for, and a lost entry's reference broke WeakHashMap

---
 classpath/java/util/HashMap.java | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/classpath/java/util/HashMap.java b/classpath/java/util/HashMap.java
index 26bbb6b..07328b0 100644
--- a/classpath/java/util/HashMap.java
+++ b/classpath/java/util/HashMap.java
@@ -54,7 +54,7 @@ public class HashMap<K, V> implements Map<K, V> {
   }
 
   private void grow() {
-    if (array == null || size >= array.length * 2) {
+    if (array == null || size + 1 >= array.length * 2) {
       resize(array == null ? MinimumCapacity : array.length * 2);
     }
   }
@@ -103,16 +103,21 @@ public class HashMap<K, V> implements Map<K, V> {
   }
 
   private void insert(Cell<K, V> cell) {
-    ++ size;
-
+    // nothing changes if there is no memory for this
     grow();
 
+    ++ size;
+
     int index = cell.hashCode() & (array.length - 1);
     cell.setNext(array[index]);
     array[index] = cell;
   }
 
   public void remove(Cell<K, V> cell) {
+    if (array == null) {
+      return;
+    }
+
     int index = cell.hashCode() & (array.length - 1);
     Cell<K, V> p = null;
     for (Cell<K, V> c = array[index]; c != null; c = c.next()) {
-- 
2.43.0


From 78cf89961fcb85b5cc1a09cb6036591b950faa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 98/98] fix: LinkedHashMap linked a key that there was no
 memory for, and removed what was not in it any more

---
 classpath/java/util/LinkedHashMap.java | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/classpath/java/util/LinkedHashMap.java b/classpath/java/util/LinkedHashMap.java
index 2b9bcce..c843737 100644
--- a/classpath/java/util/LinkedHashMap.java
+++ b/classpath/java/util/LinkedHashMap.java
@@ -49,6 +49,9 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
   public V put(K key, V value) {
     if (!super.containsKey(key)) {
       LinkedKey<K> k = new LinkedKey<K>(key);
+      lookup.put(key, k);
+      super.put(key, value);
+      // only now that there was memory for everything
       if (first == null) {
         first = k;
       } else {
@@ -56,16 +59,16 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
         k.previous = last;
       }
       last = k;
-      lookup.put(key, k);
+      return null;
     }
     return super.put(key, value);
   }
 
   public V remove(Object key) {
-    LinkedKey<K> linked = lookup.get(key);
-    if (linked == null) {
+    if (!super.containsKey(key)) {
       return null;
     }
+    LinkedKey<K> linked = lookup.get(key);
     if (linked.previous == null) {
       first = linked.next;
     } else {
@@ -76,11 +79,14 @@ public class LinkedHashMap<K, V> extends HashMap<K, V> {
     } else {
       linked.next.previous = linked.previous;
     }
-    return super.remove(key);
+    V value = super.remove(key);
+    lookup.remove(key);
+    return value;
   }
 
   public void clear() {
     first = last = null;
+    lookup.clear();
     super.clear();
   }
 
-- 
2.43.0

