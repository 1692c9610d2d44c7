HOOKS = ["890debfe0d9b404869c60b0cfb58db875d8bc9f6", "c409400f1f55bea35013b97f8986f4f463a57b1d",
         "56c3eaae31d1a38cb0765eefc22a89c5f6353bc8",
         "d47d60f5d55cf55c90b7dc7531a9c88246b15ed7",
         "7e37c8d23d3513b26a073ef0d6ccc8c0d7cfde18"]
SAMPLED = ("Sampled schedules and faults from seeded search, not exhaustive; sequentially consistent interleavings only "
           "(no hardware memory reordering). The VM, its engines and class library are the real code; libc, pthreads, the "
           "clock and the kernel below them are the simulator's. ")
TODO = "not claimed yet: its workload is not built"
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique="", note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, technique=technique, note=SAMPLED + note, na=na))


WHY_SCHED = ("The tests run a few threads on whatever schedule the machine gives, a handful of times; the guarantee is over "
             "every interleaving, collection point and wakeup order, and the windows are a few instructions wide. ")

prop("C01", "Monitors give mutual exclusion, reentrancy, visibility and no deadlock",
     "At most one thread at a time executes code guarded by an object's monitor, whether through synchronized methods or "
     "blocks, nested to any depth, left normally or by an exception, or released by a non-owner attempt that is refused. "
     "What a thread wrote while holding the monitor is visible to the next holder. "
     "A thread that waits for a monitor its holders keep releasing gets it; no wakeup is lost.",
     ["schedules", "histories"],
     "all interleavings of threads acquiring, releasing, nesting and contending for shared monitors, with collections at any point",
     WHY_SCHED, ["src/avian/machine.h", "src/machine.cpp", "src/interpret.cpp", "src/compile.cpp"],
     [("monitor acquire/release with lock-free acquire queue", "src/avian/machine.h monitorAcquire, monitorRelease"),
      ("object to monitor map", "src/machine.cpp objectMonitor")],
     "invariants inside the critical sections, history and deadlock checks",
     "Oracle: ownership counters and unsynchronized counters checked inside the sections, deadlock detection over all threads.")

prop("C02", "wait, notify, timed wait and interrupt follow the monitor contract",
     "A notification wakes one waiting thread (notifyAll: all of them), is never lost, also not to a thread that is "
     "interrupted or times out at the same moment, and a woken thread owns the monitor again at its former depth. "
     "A timed wait ends no earlier than its time-out unless notified, interrupted or woken spuriously, and ends once it has passed. "
     "An interrupt ends a wait with InterruptedException and a cleared status, exactly once.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of waiters, notifiers, interrupters and time-outs, with spurious wakeups, clock jumps and collections",
     WHY_SCHED, ["src/avian/machine.h", "src/system/posix.cpp", "classpath/java/lang/Object.java", "classpath/java/lang/Thread.java"],
     [("wait set and notification", "src/avian/machine.h monitorWait, monitorNotify"),
      ("system monitors with time-outs", "src/system/posix.cpp Monitor")],
     "token conservation, exact wake counts, deadline and lost-wakeup (deadlock) checks under injected spurious wakeups, signals and clock jumps",
     "Oracle: small counting models of who must have been woken, virtual-clock deadlines, deadlock detection.")

prop("C05", "A class is initialized once, before use, by one thread; failures stick",
     "A class initializer runs exactly once, in one thread, after the superclass's, and before any other thread sees a static "
     "field, static method or instance of the class. Other threads that need the class wait for it; requests by the "
     "initializing thread proceed. If the initializer fails, its waiters and all later users get an error and nobody runs it again.",
     ["schedules", "programs"],
     "all interleavings of threads that trigger initialization of related classes in different ways, with failing initializers",
     WHY_SCHED, ["src/machine.cpp", "src/interpret.cpp", "src/compile.cpp", "src/avian/classpath-common.h"],
     [("initialization state and class lock", "src/machine.cpp preInitClass, postInitClass, initClass")],
     "per-class reference state (not run, running by, complete, failed) checked at each use",
     "Generated initializer graphs without cycles between threads; triggers by static access, construction, reflection.")

prop("C06", "A loader and a name give one class, defined by the loader delegation leads to",
     "However many threads ask at once, by loadClass, Class.forName, arrays, reflection or the resolution of code, a class loader and a "
     "name give one Class object, defined once by the loader that delegation leads to, with the superclass, interfaces and array classes "
     "resolved by that loader; a second definition is refused. No request deadlocks, asks a loader for, or initializes, what nothing refers to. "
     "A failing loader's exception reaches the requests that needed the class, and later ones succeed when it recovered.",
     ["schedules", "programs", "fault_sequences"],
     "all generated class and loader graphs, interleavings of threads that request, define, link and initialize classes, failures of "
     "loaders, and collections",
     WHY_SCHED, ["src/machine.cpp", "src/builtin.cpp", "src/compile.cpp", "classpath/java/lang/ClassLoader.java",
                 "classpath/avian/Classes.java", "classpath/avian/SystemClassLoader.java"],
     [("resolution and loader maps", "src/machine.cpp resolveClass, resolveSystemClass, saveLoadedClass, makeArrayClass"),
      ("linking and reflection", "classpath/avian/Classes.java link, forName, getParameterTypes")],
     "identity, definer, definition and initialization counts of generated class files checked at each request; deadlock detection",
     "Oracle: the delegation rules applied to the generated loader graph. Delegation is hierarchical; each array of classes is bounded by 14 classes, 4 loaders.")

prop("C22", "First execution of any code links to what the language says, for all threads",
     "Whichever threads execute a piece of code first, and whenever the collector runs, each call (virtual, interface, default, super, "
     "private, static, constructor, lambda, method reference, proxy, reflective), field access, cast, instance test, class or string "
     "constant, switch, enum, inner and array class gives what the language says, in both engines, the first time and each time after. "
     "A reference that does not resolve throws the linkage error the language gives, each time, and affects nothing else. "
     "No thread sees a half linked call, method, class or proxy.",
     ["schedules", "programs"],
     "all generated groups of classes, entry points and parameters, interleavings of the threads that run them first, and collections",
     "Linking happens once per call site and is raced by every thread that gets there first; tests run it in one thread, once, without "
     "collections in the middle.",
     ["src/compile.cpp", "src/interpret.cpp", "src/machine.cpp", "classpath/java/lang/reflect/Proxy.java",
      "classpath/java/lang/invoke/LambdaMetafactory.java"],
     [("call and field linking in compiled code", "src/compile.cpp findMethod thunks, linkDynamicMethod2, updateDynamicTable"),
      ("resolution", "src/machine.cpp resolveMethod, resolveField, findInInterfaces, isAssignableFrom"),
      ("proxies", "classpath/java/lang/reflect/Proxy.java")],
     "results of generated class groups compared with a reference JVM, under simulated schedules and injected collections",
     "Oracle: results of the same 40 generated groups x 8 entries x 10 parameters on OpenJDK, including the kind of linkage error.")

prop("C23", "Native code (JNI): handles, exact values, exceptions, attached threads",
     "Whatever native code does through the invocation interface, in any thread and with collections moving objects at any point, "
     "each handle (local, global, weak, argument, those of pushed frames) denotes the same object until it is deleted, its frame is "
     "popped or the native method ends, and keeps it from being collected no longer than that; a weak one is null once its object is "
     "gone. Values pass exactly between Java and native code for every signature, both ways, in arguments, results, fields and static "
     "fields (of uninitialized and of super classes too), arrays, regions, critical sections, strings and buffers. Pending exceptions, "
     "monitors, registered natives and the state of attached threads are what the specification says.",
     ["schedules", "programs"],
     "all sequences of native operations, signatures, interleavings of the threads that do them, and collections",
     "A handle that goes stale shows only if a collection happens at one point, and a wrong register only for one signature; tests call "
     "few natives, in one thread.",
     ["src/jnienv.cpp", "src/compile.cpp", "src/interpret.cpp", "src/machine.cpp", "src/x86.S"],
     [("handles", "src/compile.cpp makeLocalReference, src/interpret.cpp pushReference, src/jnienv.cpp newGlobalRef"),
      ("argument passing", "src/compile.cpp invokeNativeSlow, ArgumentList; src/interpret.cpp marshalArguments, pushArguments"),
      ("attached threads", "src/avian/machine.h attachThread, src/jnienv.cpp DetachCurrentThread")],
     "random native scripts checked against a model held outside the heap, under simulated schedules and injected collections",
     "Real native functions (sim/jni.cpp) run as seeded scripts on up to 4 Java threads and attached native threads; 48 generated signatures.")

prop("C03", "Threads start once, end properly; join, sleep and thread locals keep contract",
     "A started thread runs its code exactly once, and join (also timed) returns after it ended or its time-out passed, seeing "
     "all it wrote; isAlive and enumerate tell which threads run. An uncaught exception reaches the handler once and ends only its "
     "thread. A start that the system refuses throws, and the thread can be started later. Sleep ends no earlier than asked unless "
     "interrupted, and thread locals are private to their thread and survive collections.",
     ["schedules", "histories"],
     "all interleavings of threads starting, joining, interrupting and ending each other, with collections, clock jumps, spurious wakeups and threads the system does not start",
     WHY_SCHED, ["src/machine.cpp", "src/system/posix.cpp", "classpath/java/lang/Thread.java", "classpath/java/lang/ThreadLocal.java",
                 "classpath/java/lang/InheritableThreadLocal.java"],
     [("thread start and end", "src/machine.cpp, classpath/java/lang/Thread.java"),
      ("join, sleep", "classpath/java/lang/Thread.java")],
     "counters, happens-before checks over shared data, virtual-clock deadlines, deadlock detection",
     "Oracle: per-thread run counters, data written before the end, deadlines on the virtual clock.")

prop("C07", "Collections preserve the object graph and every live value",
     "Whatever the moment of a collection, a program computes what it would compute without one: every object reachable from "
     "locals, operands, temporaries, fields, statics and arrays survives with its identity, class, contents and hash code, in "
     "both engines, while other threads run, allocate and switch modes.",
     ["schedules", "histories", "programs"],
     "collections (minor and major) at every allocation and safepoint of generated programs, in interpreter and compiler, with several mutators",
     "A collection at exactly the wrong instruction loses a reference that a root map misses; tests collect at a few chance points, and "
     "never relate results to the collection points.",
     ["src/heap/heap.cpp", "src/machine.cpp", "src/compile.cpp", "src/interpret.cpp", "src/codegen/compiler.cpp"],
     [("copying generational collector", "src/heap/heap.cpp"), ("frame maps and stack walk", "src/compile.cpp, src/machine.cpp visitRoots")],
     "generated programs compared with a reference JVM, and a shadow model of the object graph, under injected collections",
     "Oracle: results of the same 150 generated methods x 40 parameters on OpenJDK; shadow arrays of scalars for the heap graphs.")

prop("C08", "References, queues, finalizers and weak maps follow reachability",
     "A soft, weak or phantom reference is never cleared while its referent is strongly reachable; it is cleared before it is "
     "enqueued, and enqueued at most once, on its own queue. A finalizer runs at most once and only after its object is "
     "unreachable. Weak maps never lose a mapping whose key is in use.",
     ["schedules", "histories"],
     "all interleavings of mutators, queue pollers, explicit clear and enqueue, and collections of both kinds",
     WHY_SCHED, ["src/machine.cpp", "classpath/java/lang/ref/Reference.java", "classpath/java/lang/ref/ReferenceQueue.java",
                 "classpath/java/util/WeakHashMap.java", "classpath/java/util/HashMap.java"],
     [("reference processing", "src/machine.cpp postVisit, visitReference"), ("queues", "classpath/java/lang/ref/ReferenceQueue.java")],
     "per-object records of strong holders, enqueue and finalizer counts checked at each step, under injected collections",
     "Eventual clearing is checked only where the statement needs it (after the faults stop).")

prop("C11", "Atomic variables and volatile fields are linearizable",
     "Every get, set, compareAndSet and read-modify-write of an atomic variable, and every access to a volatile field or through "
     "Unsafe's volatile and compare-and-swap operations, takes effect at once between its call and its return, on exactly its "
     "field or array element and with the full range of its type. Reference variants keep identity across collections.",
     ["schedules", "histories"],
     "all interleavings of up to four threads on one register of each kind, all boundary values, with collections that move the objects",
     WHY_SCHED, ["classpath/java/util/concurrent/atomic", "src/builtin.cpp", "src/compile.cpp", "src/interpret.cpp", "classpath/sun/misc/Unsafe.java"],
     [("compare and swap, volatile accesses", "src/builtin.cpp Avian_sun_misc_Unsafe_*"), ("volatile fields", "src/interpret.cpp, src/compile.cpp getfield/putfield")],
     "linearizability (Wing-Gong search) of recorded histories against a register model, and checks of neighbouring fields",
     "Oracle: sim/lin.py register model over the recorded invocation/response history.")

prop("C12", "ConcurrentHashMap is linearizable and its traversals weakly consistent",
     "put, putIfAbsent, replace, remove, get, containsKey, size and clear each take effect atomically for any keys, also with equal "
     "or extreme hash codes. A traversal gives each untouched mapping exactly once and no key twice, and does not fail while others modify the map.",
     ["schedules", "histories"],
     "all interleavings of up to four threads on a few keys with chosen hash codes, and of many keys with one owner each",
     WHY_SCHED, ["classpath/java/util/concurrent/ConcurrentHashMap.java", "classpath/avian/PersistentSet.java", "classpath/avian/Data.java"],
     [("compare-and-swap on a persistent tree", "classpath/java/util/concurrent/ConcurrentHashMap.java put, remove")],
     "linearizability of recorded histories against a map model; per-owner models for many keys; traversal checks",
     "Oracle: sim/lin.py map model.")

prop("C13", "Concurrent queues are FIFO, lose nothing, and block only as they must",
     "Each operation of ConcurrentLinkedQueue and LinkedBlockingQueue takes effect atomically in FIFO order, within the capacity. "
     "put and take block exactly while the queue is full or empty and go on when that changes; timed operations give up no earlier "
     "than their time-out; an interrupted operation has no effect.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of producers, consumers, bulk operations, time-outs and interrupts, with capacities from 1 up",
     WHY_SCHED, ["classpath/java/util/concurrent/LinkedBlockingQueue.java", "classpath/java/util/concurrent/ConcurrentLinkedQueue.java"],
     [("blocking", "classpath/java/util/concurrent/LinkedBlockingQueue.java"), ("lock-free queue", "classpath/java/util/concurrent/ConcurrentLinkedQueue.java")],
     "linearizability against a bounded queue model, progress once faults stop, virtual-clock deadlines",
     "Iterators and size of ConcurrentLinkedQueue are unsupported by the library and not covered.")

prop("C14", "A FutureTask runs once and has one outcome that everybody sees",
     "The callable runs at most once; get, isDone, isCancelled and cancel agree on one outcome (value, exception or cancellation), "
     "which never changes once seen; done is called once. get ends when the outcome is there or its time-out passed, and a "
     "cancellation's interrupt does not outlast run. A completion service delivers each submitted task once.",
     ["schedules", "histories"],
     "all interleavings of runners, cancellers and getters of one task, and of submitters, workers and takers",
     WHY_SCHED, ["classpath/java/util/concurrent/FutureTask.java", "classpath/java/util/concurrent/ExecutorCompletionService.java"],
     [("task state", "classpath/java/util/concurrent/FutureTask.java run, cancel, get")],
     "history checks of outcomes and their order, call counters, deadlock and deadline checks",
     "cancel(false) of a running task may be refused; only consistency is required.")

prop("C15", "park and unpark never lose a permit, a wakeup or an interrupt",
     "An unpark before or during a park lets exactly one park of that thread return; permits do not accumulate. A timed park ends "
     "when its time has passed. An interrupt ends a park and stays set. Unparking an "
     "unstarted or finished thread is harmless.",
     ["schedules", "histories"],
     "all interleavings of parkers, unparkers and interrupters, with spurious wakeups, clock jumps and collections that move the threads",
     WHY_SCHED, ["src/builtin.cpp", "classpath/java/util/concurrent/locks/LockSupport.java", "src/machine.cpp"],
     [("permit under the interrupt lock", "src/builtin.cpp Avian_sun_misc_Unsafe_park, unpark")],
     "hand-over loops that hang when a permit is lost, a lock built on park with an exclusion check, virtual-clock deadlines",
     "")

prop("C17", "The synchronized library classes are atomic per operation and lockable",
     "Each operation of Vector, Stack, Hashtable, the synchronized collection wrappers, StringBuffer and ByteArrayOutputStream takes "
     "effect atomically with the result its contract gives; holding the object's monitor excludes all others, so locked traversals see one "
     "state. Lines printed by different threads through one PrintStream or PrintWriter never mix.",
     ["schedules", "histories"],
     "all interleavings of up to four threads applying random operations to one object",
     WHY_SCHED, ["classpath/java/util/Vector.java", "classpath/java/util/Stack.java", "classpath/java/util/Hashtable.java",
                 "classpath/java/util/Collections.java", "classpath/java/lang/StringBuffer.java", "classpath/java/lang/StringBuilder.java",
                 "classpath/java/io/ByteArrayOutputStream.java", "classpath/java/io/PrintStream.java", "classpath/java/util/Observable.java"],
     [("synchronized methods and wrappers", "classpath/java/util/Collections.java SynchronizedCollection")],
     "linearizability of recorded histories against list, map and text models",
     "Oracle: sim/lin.py sequential models; ArrayList insertion behind the end is left out.")

prop("C04", "The VM ends when it should, runs its shutdown hooks and keeps the output",
     "The VM goes on until main and every non-daemon thread ended, whatever daemons do, and then ends with main's outcome; exit "
     "ends it at once with the first caller's status, whoever calls it and however many do. Every shutdown hook registered before that "
     "runs exactly once and to its end, not earlier and at the same time as the others, also when another hook fails or hooks wait for each other. "
     "Output written before the end is not lost.",
     ["schedules", "programs"],
     "all interleavings of ending, failing and exiting threads, daemons, locks held, late starts and hooks, for generated programs",
     WHY_SCHED, ["src/machine.cpp", "src/main.cpp", "classpath/java/lang/Runtime.java", "classpath/java/lang/Thread.java",
                 "classpath/avian/Machine.java"],
     [("end of threads, shutDown and hooks", "src/machine.cpp shutDown, joinAll, Thread::exit"),
      ("exit", "classpath/java/lang/Runtime.java exit, src/jnienv.cpp DestroyJavaVM")],
     "oracle over the recorded history of the program, the exit status and the output",
     "Oracle: sim/lin.py ending. Hooks registered while hooks run are not generated.")

prop("C18", "Files hold exactly what was written, also when the disk fails",
     "A stream or RandomAccessFile reads what the file holds and writes what it is given, where it says, in order, whatever part of a "
     "transfer the system makes at a time; appended records of several threads stay whole and each byte of a shared stream is read once. "
     "A failed operation throws IOException; what succeeded before stays, nothing is invented. "
     "Names are created, renamed and deleted atomically, and temporary files are never given twice.",
     ["schedules", "fault_sequences", "histories"],
     "all sequences of file operations with short transfers, interrupted, failing and full-disk operations, and all interleavings of "
     "threads that share files, streams or names",
     "The tests use a disk that never fails and always transfers everything; the guarantee is over partial transfers, errors at any "
     "operation, a full disk, and interleavings of threads on one file or name. ",
     ["classpath/java-io.cpp", "classpath/java/io/File.java", "classpath/java/io/FileInputStream.java",
      "classpath/java/io/FileOutputStream.java", "classpath/java/io/RandomAccessFile.java", "classpath/java/io/BufferedInputStream.java",
      "classpath/java/io/BufferedOutputStream.java", "classpath/java/io/DataInputStream.java"],
     [("native transfers", "classpath/java-io.cpp doRead, doWrite"), ("buffers", "classpath/java/io/BufferedInputStream.java")],
     "model of each file's bytes compared with the simulated disk after each operation under injected short transfers, EINTR, EIO and full "
     "disk; linearizability of name operations",
     "Oracle: byte array model, the simulated disk, sim/lin.py names.")

prop("C21", "Stream layers carry data unchanged, in any pieces, and deliver what is there",
     "Characters, data values, objects, compressed data and zip entries read back are those written, whatever the source's read sizes, the "
     "buffers' boundaries, and the mix of operations; the end comes exactly at the end. Layers over a pipe between threads "
     "pass on what has arrived and wait for no more than asked. A source that fails gives an error, not other data, and "
     "entries of one archive read by several threads do not mix.",
     ["schedules", "inputs", "fault_sequences"],
     "all generated contents, operation sequences, transfer splits and interleavings of threads at both ends of a pipe or on one archive",
     "The tests read small inputs from sources that give everything at once; the guarantee is over every place where a "
     "transfer can be cut, every buffer boundary, and threads that talk through the layers. ",
     ["classpath/java/io/InputStreamReader.java", "classpath/java/io/OutputStreamWriter.java", "classpath/java/io/BufferedReader.java",
      "classpath/java/io/PushbackReader.java", "classpath/java/io/PipedInputStream.java", "classpath/java/io/DataInputStream.java",
      "classpath/java/io/DataOutputStream.java", "classpath/java/io/ObjectInputStream.java", "classpath/java/io/ObjectOutputStream.java",
      "classpath/java/util/zip/InflaterInputStream.java", "classpath/java/util/zip/DeflaterOutputStream.java",
      "classpath/java/util/zip/ZipFile.java", "classpath/java/util/zip/ZipOutputStream.java", "classpath/java-util-zip.cpp"],
     [("character decoding across reads", "classpath/java/io/InputStreamReader.java read"),
      ("shared archive file", "classpath/java/util/zip/ZipFile.java Window")],
     "model contents compared with what arrives under simulated split transfers and thread schedules; deadlock detection",
     "Oracle: the contents generated from the seed; UTF-8 by the workload's own coder. zlib below the inflater is real.")

prop("C09", "Without memory, OutOfMemoryError is thrown and nothing else is affected",
     "Whichever allocation finds no room in the Java heap, made by a program or by the VM on its behalf (loading, linking, compiling, "
     "initializing, reflection, proxies, strings, monitors, exceptions, threads), the operation either succeeds with its right result or "
     "throws OutOfMemoryError (or an error it caused). Monitors are released, other threads go on, and no class, method, string or other "
     "structure is left half made: with memory again, the same operations give what they should. It is thrown only if collecting all "
     "garbage does not make room below the limit.",
     ["faults", "schedules"],
     "allocations that fail at any point of any operation, in several threads, and real exhaustion of a small heap",
     "A failing allocation has to be met at one of thousands of points inside the VM; a test fills the heap and meets one of a few.",
     ["src/machine.cpp", "src/heap/heap.cpp", "src/compile.cpp", "src/interpret.cpp", "src/avian/machine.h"],
     [("failing allocations", "src/machine.cpp allocate3, collect; src/avian/machine.h throw_"),
      ("resources given back", "src/machine.cpp popResources; src/compile.cpp Context"),
      ("the limit", "src/heap/heap.cpp limitExceeded")],
     "seeded failing allocations in operations with known results, first and repeated; accounting of a heap filled by threads",
     "Injected by a guarded hook where allocate3 may throw; a separate scenario really fills a heap of 10 MB. C allocations never fail.")

prop("C10", "Exceptions reach the right handler, release the locks and name their frames",
     "Whatever raises it - a throw, a failed check in code or in the VM, a library or native method, an error while linking -, an exception "
     "ends exactly the calls between it and the innermost handler that accepts it, in both engines: each finally block runs once, each monitor "
     "taken on the way is released and no other, locals keep their values, a method called by reflection wraps it. Its stack trace "
     "names the calls that were active, innermost first.",
     ["programs", "schedules", "histories"],
     "all generated trees of calls, locks, handlers and failing operations, run by several threads at once, with collections at any point",
     "The tests raise some exceptions in small methods of one thread; the guarantee is over every nesting of calls, locks and handlers, "
     "with collections and other threads in between. ",
     ["src/machine.cpp", "src/compile.cpp", "src/interpret.cpp", "src/avian/machine.h", "classpath/java/lang/Throwable.java"],
     [("unwinding", "src/compile.cpp findUnwindTarget, unwind; src/interpret.cpp throw"),
      ("traces", "src/machine.cpp makeTrace, getTrace; classpath/java/lang/Throwable.java")],
     "generated programs compared with a model that uses no exceptions, lock ownership checked by other threads, under injected collections and schedules",
     "Oracle: a model of the program that returns outcomes in place of throwing; validated on OpenJDK. Line numbers and stack overflow are left out.")

prop("C16", "Equal strings have one interned representative for as long as it is in use",
     "intern gives, for equal strings asked for by any threads at any time, one and the same equal object for as long as any thread "
     "can reach it, and literals and constants of all classes, also of those resolved meanwhile, are that object. "
     "The table keeps no string that nothing else reaches, and an entry that is cleared never hides or loses another.",
     ["schedules", "histories"],
     "all interleavings of threads that intern, drop, and resolve equal strings of all kinds, with collections at any point",
     WHY_SCHED, ["src/machine.cpp", "src/util.cpp", "classpath/java/lang/String.java", "classpath/avian/Code.java"],
     [("string map of weak references", "src/machine.cpp intern, postCollect; src/util.cpp hashMapFind")],
     "identity of all representatives that are held, checked at each intern; heap growth checked at the end",
     "Oracle: a table of the representatives in use, maintained by the workload.")

prop("C19", "Sockets, selectors and datagrams deliver what was sent and lose no event",
     "A connection delivers the bytes written to it in order, none lost, added or changed, and its end comes after all of them, whatever "
     "part of a transfer the system makes at a time; when it is reset, reading gives a prefix and an IOException. A selector reports "
     "each registered channel that is ready for what it wants, and returns for each wakeup and for its close, also while channels are registered, "
     "changed and closed; datagrams arrive whole with their source. Closing frees every descriptor and ends the waits, and a thread that waits for the network holds up nobody else.",
     ["schedules", "fault_sequences", "histories"],
     "all interleavings of clients, servers, selector and other threads, with partial transfers, small windows, delays, resets, lost, "
     "doubled and reordered datagrams, exhausted descriptors and collections",
     "The tests make one or two local connections that transfer everything at once; the guarantee is over every split, delay, "
     "reset and interleaving of the threads at both ends and in the selector. ",
     ["classpath/java/net/Socket.java", "classpath/java-net.cpp", "classpath/sockets.cpp", "classpath/java-nio.cpp",
      "classpath/java/nio/channels/SocketChannel.java", "classpath/java/nio/channels/ServerSocketChannel.java",
      "classpath/java/nio/channels/SocketSelector.java", "classpath/java/nio/channels/Selector.java",
      "classpath/java/nio/channels/DatagramChannel.java", "classpath/java/nio/channels/Channels.java"],
     [("selection and wakeup pipe", "classpath/java/nio/channels/SocketSelector.java doSelect, classpath/java-nio.cpp natDoSocketSelect"),
      ("transfers", "classpath/sockets.cpp send, recv; classpath/java-nio.cpp natRead, natWrite")],
     "positions of generated streams checked at each read over a simulated network with partial transfers, delay, reset and loss; "
     "deadlock, virtual-time and descriptor-leak checks",
     "Oracle: contents computed from connection and position, counts of datagrams and wakeups. Interrupts of threads in network calls are left out.")
