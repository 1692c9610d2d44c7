#!/usr/bin/env python3
"""Builds the simulated VM from /repo's working tree (never writes there).

  build.py [variant...]     variants: interp jit jitc

Objects are cached under /verif/build/cache by the hash of everything they depend
on (compiler flags, source, all headers, generated files), so that a change in any
input rebuilds exactly what it can affect.
"""
import concurrent.futures as cf
import hashlib, os, shutil, subprocess, sys, tempfile, zipfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CACHE = os.path.join(BUILD, "cache")
JAVA_HOME = "/usr/lib/jvm/java-8-openjdk-amd64"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

# libc entry points the simulator owns: renamed to sim_<name> in the VM's objects
REDIRECT = """malloc free calloc realloc strdup
pthread_create pthread_join pthread_detach pthread_self pthread_kill pthread_sigmask
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait
pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific
sched_yield gettimeofday time clock_gettime clock nanosleep usleep
sigaction signal sigprocmask abort exit _exit _Exit __stack_chk_fail
open open64 close read write lseek lseek64 stat lstat fstat access chmod mkdir remove
unlink rmdir rename opendir readdir closedir getcwd getenv environ mmap munmap msync
fsync ftruncate fopen uname sysconf pipe dup2 fcntl ioctl fork execvp waitpid kill
getpid socket bind listen connect accept recv recvfrom send sendto shutdown getsockopt
setsockopt getsockname getpeername select poll getaddrinfo freeaddrinfo""".split()

# pure functions left to the real libc; anything else undefined is reported
PURE = set("""__errno_location memcpy memmove memset memcmp strchr strcmp strlen
strncmp strrchr strncasecmp strtod strtof strtol strtoul strtoll strtoull islower
isupper qsort strerror
sprintf snprintf vsnprintf fprintf printf vfprintf fwrite fflush fclose stderr stdout
__isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull
__assert_fail ctime_r dlopen dlsym dlclose dlerror acos asin atan atan2 cos cosh fmod fmodf log
pow sin sinh sqrt tan tanh exp floor ceil _GLOBAL_OFFSET_TABLE_ strcpy strncpy strcat memchr
deflate deflateEnd deflateInit2_ inflate inflateEnd inflateInit2_ zError crc32
inflateReset inflateSetDictionary deflateReset deflateParams __isoc99_sscanf sscanf fputs fputc putc puts""".split())


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        out = r.stdout.decode(errors="replace")
        raise BuildError("command failed: %s\n%s" % (" ".join(map(str, cmd))[:400], out[-4000:]))
    return r.stdout


class BuildError(Exception):
    pass


def fhash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def shash(*strs):
    h = hashlib.sha256()
    for s in strs:
        h.update(s.encode() if isinstance(s, str) else s)
        h.update(b"\0")
    return h.hexdigest()


def files(root, exts):
    r = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        r += [os.path.join(d, f) for f in sorted(fs) if f.endswith(exts)]
    return r


def cached(key, name, make):
    """make(tmpdir) -> path of the file or directory to keep"""
    dst = os.path.join(CACHE, key[:32] + "-" + name)
    if os.path.exists(dst):
        try:
            os.utime(dst)
        except OSError:
            pass
        return dst
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
    try:
        src = make(tmp)
        try:
            os.rename(src, dst)
        except OSError:
            if not os.path.exists(dst):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


def cpp_list(*pats):
    r = []
    for p in pats:
        full = os.path.join(REPO, p)
        if p.endswith("/*.cpp"):
            d = os.path.dirname(full)
            r += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
        else:
            r.append(full)
    return r


COMPAT = """
#define fadd glibc_fadd
#define fsub glibc_fsub
#define fmul glibc_fmul
#define fdiv glibc_fdiv
#include <math.h>
#undef fadd
#undef fsub
#undef fmul
#undef fdiv
"""


class Builder:
    def __init__(self, variant):
        self.variant = variant
        self.repo_h = files(REPO + "/src", (".h", ".inc", ".def", ".inc.cpp")) + \
            files(REPO + "/include", (".h",)) + files(REPO + "/classpath", (".h",)) + \
            cpp_list("src/thunks.cpp", "src/bootimage-fields.cpp", "src/bootimage-template.cpp")
        self.headers = fhash(*self.repo_h)

    # ------------------------------------------------------------ java
    def classes(self):
        srcs = files(REPO + "/classpath", (".java",))
        key = shash("javac-1", fhash(*srcs))

        def make(tmp):
            out = os.path.join(tmp, "classes")
            os.mkdir(out)
            lst = os.path.join(tmp, "l")
            with open(lst, "w") as f:
                f.write("\n".join(srcs))
            sh([JAVA_HOME + "/bin/javac", "-J-XX:TieredStopAtLevel=1", "-J-Xshare:auto",
                "-encoding", "UTF-8", "-source", "1.8", "-target", "1.8", "-nowarn",
                "-sourcepath", REPO + "/classpath",
                "-bootclasspath", REPO + "/classpath", "-d", out, "@" + lst])
            return out
        return cached(key, "classes", make)

    def workload(self, classes):
        srcs = files(VERIF + "/java", (".java",))
        key = shash("javac-w2", os.path.basename(classes), fhash(*srcs))
        late = [f for f in srcs if "/java/late/" in f]
        srcs = [f for f in srcs if f not in late]

        def make(tmp):
            out = os.path.join(tmp, "wclasses")
            os.mkdir(out)
            sh([JAVA_HOME + "/bin/javac", "-J-XX:TieredStopAtLevel=1", "-encoding", "UTF-8",
                "-source", "1.8", "-target", "1.8",
                "-nowarn", "-XDignore.symbol.file",
                "-bootclasspath", classes, "-d", out] + srcs)
            # these replace what the others were compiled with
            sh([JAVA_HOME + "/bin/javac", "-J-XX:TieredStopAtLevel=1", "-source", "1.8", "-target", "1.8",
                "-nowarn", "-bootclasspath", classes, "-d", out] + late)
            return out
        return cached(key, "wclasses", make)

    def jar(self, *dirs):
        key = shash("jar-2", *[os.path.basename(d) for d in dirs])

        def make(tmp):
            p = os.path.join(tmp, "cp.jar")
            with zipfile.ZipFile(p, "w", zipfile.ZIP_STORED) as z:
                for d in dirs:
                    for f in files(d, (".class",)):
                        zi = zipfile.ZipInfo(os.path.relpath(f, d), (2020, 1, 1, 0, 0, 0))
                        with open(f, "rb") as fh:
                            z.writestr(zi, fh.read())
            return p
        return cached(key, "cp.jar", make)

    # ------------------------------------------------------------ generator
    def common_flags(self):
        return ["-m64", "-std=c++0x", "-fno-rtti", "-fno-exceptions", "-I" + REPO + "/classpath",
                "-I" + JAVA_HOME + "/include", "-I" + JAVA_HOME + "/include/linux",
                "-I" + REPO + "/src", "-I" + REPO + "/include",
                "-D__STDC_LIMIT_MACROS", "-D_JNI_IMPLEMENTATION_",
                "-DAVIAN_VERSION=\"1.3.0-SNAPSHOT\"", "-DAVIAN_INFO=\"\"",
                "-DUSE_ATOMIC_OPERATIONS", "-DAVIAN_JAVA_HOME=\"\"",
                "-DAVIAN_EMBED_PREFIX=\"/avian-embedded\"", "-DTARGET_BYTES_PER_WORD=8",
                "-fvisibility=hidden", "-pthread", "-w", os.environ.get("VERIF_G", "-g0"), "-U_FORTIFY_SOURCE",
                "-fno-pie", "-fno-pic"]

    def generator(self):
        srcs = cpp_list("src/tools/type-generator/main.cpp", "src/system/posix.cpp",
                        "src/system/posix/*.cpp", "src/finder.cpp", "src/util/arg-parser.cpp")
        key = shash("gen-2", self.headers, fhash(*srcs))

        def make(tmp):
            out = os.path.join(tmp, "generator")
            objs = []
            for i, s in enumerate(srcs):
                objs.append(os.path.join(tmp, "%d.o" % i))
            with cf.ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(lambda so: sh(["g++", "-DPOINTER_SIZE=8", "-O0"] + self.common_flags()
                                          + ["-c", so[0], "-o", so[1]]), zip(srcs, objs)))
            sh(["g++", "-no-pie"] + objs + ["-lz", "-lpthread", "-ldl", "-o", out])
            return out
        return cached(key, "generator", make)

    def generated(self, classes):
        gen = self.generator()
        key = shash("types-1", os.path.basename(gen), os.path.basename(classes),
                    fhash(REPO + "/src/types.def"))

        def make(tmp):
            out = os.path.join(tmp, "types")
            os.mkdir(out)
            for t in ["enums", "declarations", "constructors", "initializations",
                      "java-initializations", "name-initializations", "maps"]:
                sh([gen, "-cp", classes, "-i", REPO + "/src/types.def",
                    "-o", os.path.join(out, "type-%s.cpp" % t), "-t", t])
            with open(os.path.join(out, "compat.h"), "w") as f:
                f.write(COMPAT)
            return out
        return cached(key, "types", make)

    # ------------------------------------------------------------ objects
    def sources(self):
        v = self.variant
        vm = cpp_list("src/system/posix.cpp", "src/system/posix/*.cpp", "src/finder.cpp",
                      "src/machine.cpp", "src/util.cpp", "src/heap/heap.cpp",
                      "src/classpath-avian.cpp", "src/builtin.cpp", "src/jnienv.cpp",
                      "src/process.cpp", "src/heapdump.cpp", "src/heapwalk.cpp", "src/main.cpp", "src/boot.cpp")
        asm = cpp_list("src/x86_64.S")
        if v == "interp":
            vm += cpp_list("src/interpret.cpp")
        else:
            vm += cpp_list("src/compile.cpp", "src/codegen/compiler.cpp", "src/codegen/compiler/*.cpp",
                           "src/debug-util.cpp", "src/codegen/runtime.cpp", "src/codegen/targets.cpp",
                           "src/util/fixed-allocator.cpp", "src/codegen/target/x86/*.cpp")
            asm += cpp_list("src/compile-x86_64.S")
        # every .cpp the native part of the class library has
        d = REPO + "/classpath"
        vm += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
        return vm, asm

    def build(self):
        classes = self.classes()
        wclasses = self.workload(classes)
        jar = self.jar(classes, wclasses)
        gen = self.generated(classes)
        genhash = fhash(*files(gen, (".cpp", ".h")))
        genhash = shash(*[os.path.basename(f) + fhash_content(f) for f in files(gen, (".cpp", ".h"))])
        vm, asm = self.sources()
        v = self.variant
        defs = ["-DNDEBUG", "-DBOOT_CLASSPATH=\"[classpathJar]\"", "-DAVIAN_CLASSPATH=\"[classpathJar]\"",
                "-DAVIAN_TARGET_ARCH=AVIAN_ARCH_X86_64", "-DAVIAN_TARGET_FORMAT=AVIAN_FORMAT_ELF",
                "-DAVIAN_SIMULATION", "-DVM_STRESS"]
        adefs = []
        if v == "jitc":
            defs += ["-DAVIAN_TAILS", "-DAVIAN_CONTINUATIONS"]
            adefs += ["-DAVIAN_CONTINUATIONS"]
        redir = [x for n in REDIRECT for x in ("--redefine-sym", "%s=sim_%s" % (n, n))]
        tsan = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
        jobs = []

        def cpp(src):
            rel = os.path.relpath(src, REPO)
            f = self.common_flags() + defs
            heavy = rel.startswith("src/codegen/") or rel.endswith("fixed-allocator.cpp") or rel.endswith("debug-util.cpp")
            f += ["-O1"] if not heavy else ["-O1"]
            if not heavy:
                f += tsan
            if rel == "classpath/java-lang.cpp":
                f.append("-D__ANDROID__")
            if rel == "src/main.cpp":
                f.append("-Dmain=avian_main")
            key = shash("obj-5", " ".join(f), " ".join(redir), self.headers, genhash, rel, fhash_content(src))

            def make(tmp):
                o = os.path.join(tmp, "o.o")
                sh(["g++"] + f + ["-I" + gen, "-include", gen + "/compat.h", "-c", src, "-o", o], cwd=tmp)
                extra = ["--redefine-sym", "_Z10avian_mainiPPKc=avian_main"] if rel == "src/main.cpp" else []
                sh(["objcopy"] + redir + extra + [o])
                return o
            return cached(key, rel.replace("/", "_") + ".o", make)

        def assemble(src):
            rel = os.path.relpath(src, REPO)
            deps = files(REPO + "/src", (".S",))
            key = shash("asm-1", " ".join(adefs), rel, fhash(*deps), self.headers)

            def make(tmp):
                o = os.path.join(tmp, "o.o")
                sh(["gcc", "-m64", "-DTARGET_BYTES_PER_WORD=8", "-I" + REPO + "/src"] + adefs
                   + ["-o", o, "-c", src])
                return o
            return cached(key, rel.replace("/", "_") + ".o", make)

        def simobj(src):
            hdr = VERIF + "/sim/sim.h"
            key = shash("sim-1", fhash_content(src), fhash_content(hdr), fhash_content(VERIF + "/sim/jnisigs.inc") if src.endswith("jni.cpp") else "")

            def make(tmp):
                o = os.path.join(tmp, "o.o")
                sh(["g++", "-std=c++17", "-O2", "-g", "-w", "-fno-pie", "-fno-exceptions", "-U_FORTIFY_SOURCE",
                    "-fno-stack-protector",
                    "-I" + JAVA_HOME + "/include", "-I" + JAVA_HOME + "/include/linux",
                    "-c", src, "-o", o])
                return o
            return cached(key, os.path.basename(src) + ".o", make)

        def jarobj(_):
            key = shash("jarobj-1", os.path.basename(jar))

            def make(tmp):
                s = os.path.join(tmp, "jar.S")
                with open(s, "w") as f:
                    f.write(".section .rodata\n.globl _binary_classpath_jar_start\n"
                            ".globl _binary_classpath_jar_end\n.balign 16\n_binary_classpath_jar_start:\n"
                            ".incbin \"%s\"\n_binary_classpath_jar_end:\n.byte 0\n"
                            ".section .note.GNU-stack,\"\",@progbits\n" % jar)
                o = os.path.join(tmp, "jar.o")
                sh(["gcc", "-c", s, "-o", o])
                return o
            return cached(key, "jar.o", make)

        big = {"machine.cpp": 0, "compile.cpp": 1, "interpret.cpp": 1, "jnienv.cpp": 2, "builtin.cpp": 3}
        vm.sort(key=lambda s: big.get(os.path.basename(s), 9))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(cpp, s) for s in vm] + [ex.submit(assemble, s) for s in asm] + \
                [ex.submit(simobj, VERIF + "/sim/" + s) for s in ("core.cpp", "io.cpp", "jni.cpp")] + \
                [ex.submit(jarobj, 0)]
            objs = [f.result() for f in futs]

        key = shash("exe-1", *[os.path.basename(o) for o in objs])

        def link(tmp):
            exe = os.path.join(tmp, "sim")
            sh(["g++", "-no-pie", "-rdynamic"] + objs + ["-lm", "-lz", "-lpthread", "-ldl", "-o", exe])
            und = sh(["nm", "-u"] + objs).decode().split("\n")
            und = {l.split()[-1] for l in und if l.strip().startswith("U ")}
            return exe
        exe = cached(key, "sim-" + v, link)
        prune()
        return exe


def fhash_content(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def prune(limit=3 << 30):
    """keep the cache small"""
    try:
        ents = []
        for n in os.listdir(CACHE):
            p = os.path.join(CACHE, n)
            if os.path.isfile(p):
                s = os.stat(p)
                ents.append((s.st_mtime, s.st_size, p))
        total = sum(e[1] for e in ents)
        for m, s, p in sorted(ents):
            if total <= limit:
                break
            os.unlink(p)
            total -= s
    except OSError:
        pass


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return Builder(variant).build()


if __name__ == "__main__":
    for v in sys.argv[1:] or ["interp", "jit"]:
        try:
            print(v, build(v))
        except BuildError as e:
            print(e)
            sys.exit(2)
