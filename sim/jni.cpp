// Native code that uses the VM's JNI functions against a model of its own: what w.JniW calls.
#include "sim.h"
#include <jni.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <map>
using namespace sim;

extern "C" int sim_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int sim_pthread_join(pthread_t, void**);
#define JN(ret) extern "C" __attribute__((visibility("default"))) ret

namespace {
struct Rng {
  uint32_t s;
  explicit Rng(uint32_t x) : s(x * 2654435761u ^ 0x9e3779b9u) { if (!s) s = 1; for (int i = 0; i < 4; ++i) next(); }
  uint32_t next()
  {
    s ^= s << 13;
    s ^= s >> 17;
    s ^= s << 5;
    return s;
  }
  int below(int n) { return (next() >> 3) % n; }
  bool chance(int p) { return below(100) < p; }
};

struct Obj {
  int id;
  bool sub;
  jboolean z;
  jbyte b;
  jchar c;
  jshort s;
  jint i;
  jlong j;
  jfloat f;
  jdouble d;
  int o;  // id, or -1
  jlong vj;
  jdouble vd;
  int vo;
  jint vi;
};
struct Statics {
  jboolean z;
  jbyte b;
  jchar c;
  jshort s;
  jint i;
  jlong j;
  jfloat f;
  jdouble d;
  int o;
  jlong vj, up;
  int upo;
};
struct Model {
  int thread;
  int next;
  std::map<int, Obj> all;
  std::vector<int> now;  // ids in os[]
};
Model* models[1024];  // of the fibers
std::vector<Model*> made;
Statics statics[4];
bool staticsKnown[4];
int regs[4];  // 0: the linked function, 1 and 2: registered ones
jlong lasts[1024];
struct Handle {
  jobject h;
  int id;
  int kind;  // 0 local 1 global 2 weak
};

JavaVM* vm;
jclass classes[32];
jmethodID methods[400];
jfieldID fields[64];
int owner, ownerDepth;

const char* classNames[] = {"w/JnO", "w/JnO$Sub", "w/JnBase$JnEx", "w/JniW", "w/JnO$Late0", "w/JnO$Late1", "w/JnO$Late2", "w/JnO$Late3",
                            "w/JnO$Reg0", "w/JnO$Reg1", "w/JnO$Reg2", "w/JnO$Reg3", "w/JnO$Named", "java/lang/Object", "java/lang/NullPointerException",
                            "java/lang/Class", "w/JnBase", "java/lang/String"};
enum { CO, CSUB, CEX, CW, CLATE, CREG = 8, CNAMED = 12, COBJECT, CNPE, CCLASS, CBASE, CSTRING };

void err(const char* fmt, ...)
{
  char b[400];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  failMsg("native code: %s", b);
}

jclass cls(JNIEnv* e, int k)
{
  if (!classes[k]) {
    jclass c = e->FindClass(classNames[k]);
    if (!c) {
      err("class %s not found", classNames[k]);
      e->ExceptionClear();
      finish("done", 0, "%s", "");
    }
    jclass g = (jclass) e->NewGlobalRef(c);
    e->DeleteLocalRef(c);
    if (classes[k]) e->DeleteGlobalRef(g);
    else classes[k] = g;
  }
  return classes[k];
}

// ids 200.. of methods[] are JnO's and JniW's
jmethodID method(JNIEnv* e, jclass c, int k, bool st, const char* name, const char* sig)
{
  if (methods[k] && (cur->acc & 3)) return methods[k];
  jmethodID m = st ? e->GetStaticMethodID(c, name, sig) : e->GetMethodID(c, name, sig);
  if (!m || e->ExceptionCheck()) {
    err("method %s %s not found", name, sig);
    e->ExceptionClear();
    return 0;
  }
  if (methods[k] && methods[k] != m) err("the id of method %s changed", name);
  return methods[k] = m;
}
jmethodID om(JNIEnv* e, int k, const char* name, const char* sig) { return method(e, cls(e, CO), 200 + k, false, name, sig); }
jmethodID osm(JNIEnv* e, int k, const char* name, const char* sig) { return method(e, cls(e, CO), 200 + k, true, name, sig); }
jmethodID wm(JNIEnv* e, int k, const char* name, const char* sig) { return method(e, cls(e, CW), 200 + k, true, name, sig); }

jfieldID field(JNIEnv* e, int k, const char* name, const char* sig)
{
  if (fields[k] && (cur->acc & 3)) return fields[k];
  jfieldID f = e->GetFieldID(cls(e, CO), name, sig);
  if (!f) {
    err("field %s not found", name);
    e->ExceptionClear();
  }
  if (fields[k] && fields[k] != f) err("the id of field %s changed", name);
  return fields[k] = f;
}

jlong id(JNIEnv* e, jobject o) { return o ? e->GetIntField(o, field(e, 0, "id", "I")) : -5; }
int sid(JNIEnv* e, jobject o)
{
  static jfieldID f;
  if (!f) {
    jclass c = e->GetObjectClass(o);
    f = e->GetFieldID(c, "id", "I");
    e->DeleteLocalRef(c);
  }
  return e->GetIntField(o, f);
}

void point() { schedPoint(__builtin_return_address(0)); }

// something that gives other threads and the collector an occasion
void disturb(JNIEnv* e, Rng& r)
{
  switch (r.below(6)) {
  case 0: point(); break;
  case 1: {
    jobject a = e->NewIntArray(r.below(20));
    if (r.chance(70)) e->DeleteLocalRef(a);
    break;
  }
  case 2: {
    jstring s = e->NewStringUTF("disturb");
    if (r.chance(70)) e->DeleteLocalRef(s);
    break;
  }
  case 3: e->CallStaticVoidMethod(cls(e, CBASE), method(e, cls(e, CBASE), 200, true, "junk", "(J)V"), (jlong) r.next()); break;
  case 4: {
    jobject g = e->NewGlobalRef(cls(e, CO));
    e->DeleteGlobalRef(g);
    break;
  }
  }
}
void disturb(JNIEnv* e, jobject* os, int n, int k)
{
  Rng r(k * 31 + (uint32_t) cur->acc);
  for (int q = r.below(4); q > 0; --q) {
    disturb(e, r);
    if (n) {
      int x = 1 + r.below(n);
      if (os[x]) {
        jobject l = r.chance(50) ? e->NewLocalRef(os[x]) : e->NewGlobalRef(os[x]);
        if (!l || !e->IsSameObject(l, os[x])) err("a new reference is not to the same object");
      }
    }
  }
}

void toss(JNIEnv* e, jlong h)
{
  jobject x = e->NewObject(cls(e, CEX), method(e, cls(e, CEX), 250, false, "<init>", "(J)V"), h);
  if (!x) {
    err("NewObject of an exception failed");
    return;
  }
  if (e->Throw((jthrowable) x) != 0) err("Throw failed");
  if (!e->ExceptionCheck()) err("nothing is pending after Throw");
}
// the exception that is pending is a JnEx with h
bool pending(JNIEnv* e, jlong* h)
{
  if (!e->ExceptionCheck()) return false;
  jthrowable x = e->ExceptionOccurred();
  e->ExceptionClear();
  if (e->ExceptionCheck()) err("ExceptionClear left an exception");
  if (!x) {
    err("ExceptionOccurred gives null");
    return true;
  }
  if (e->IsInstanceOf(x, cls(e, CEX))) {
    static jfieldID f;
    if (!f) f = e->GetFieldID(cls(e, CEX), "h", "J");
    *h = e->GetLongField(x, f);
  } else if (e->IsInstanceOf(x, cls(e, CNPE)))
    *h = -77;
  else
    *h = -99;
  e->DeleteLocalRef(x);
  return true;
}
bool thrown(JNIEnv* e, jlong h, int k)
{
  jlong g = 0;
  bool p = pending(e, &g), want = (h & 63) == 5;
  if (p != want) err("signature %d: %s", k, p ? "an unexpected exception" : "no exception");
  else if (p && g != h) err("signature %d: exception %lld instead of %lld", k, (long long) g, (long long) h);
  return p || want;
}
void setLast(JNIEnv*, jlong h) { lasts[cur->id & 1023] = h; }
void checkLast(JNIEnv*, jlong h, int k)
{
  if (lasts[cur->id & 1023] != h) err("signature %d: the Java method got other arguments", k);
}
void sameObject(JNIEnv* e, jobject g, jobject w, int k)
{
  if (!e->IsSameObject(g, w)) err("signature %d: another object returned", k);
  if (g) e->DeleteLocalRef(g);
}
void wrong(int k, int w, double g, double h) { err("signature %d (way %d): the Java method returned %.9g instead of %.9g", k, w, g, h); }

#include "jnisigs.inc"

// ------------------------------------------------------------ scripts
struct Script {
  JNIEnv* e;
  jobjectArray os;
  Model* m;
  Rng r;
  std::vector<Handle> hs;
  int depth;
  Script(JNIEnv* e, jobjectArray os, Model* m, int seed, int depth) : e(e), os(os), m(m), r(seed), depth(depth) {}

  Obj& obj(int id) { return m->all.at(id); }

  bool live(int id)
  {
    for (int x : m->now) if (x == id) return true;
    return false;
  }
  // a handle that must be usable
  jobject any(int* id)
  {
    std::vector<Handle*> ok;
    for (Handle& h : hs) if (h.kind != 2 || live(h.id)) ok.push_back(&h);
    if (!ok.empty() && r.chance(80)) {
      Handle* h = ok[r.below(ok.size())];
      *id = h->id;
      return h->h;
    }
    int k = r.below(m->now.size());
    *id = m->now[k];
    jobject o = e->GetObjectArrayElement(os, k);
    if (!o) err("element %d is null", k);
    hs.push_back({o, *id, 0});
    return o;
  }
  void verify(jobject h, int id, const char* what)
  {
    if (!h) err("%s: null for object %d", what, id);
    else {
      jlong g = ::id(e, h);
      if (g != id) err("%s: object %lld instead of %d", what, (long long) g, id);
    }
  }
  void verifyAll(const char* what)
  {
    for (Handle& h : hs)
      if (h.kind != 2 || live(h.id)) verify(h.h, h.id, what);
      else if (!e->IsSameObject(h.h, 0)) {
        jobject l = e->NewLocalRef(h.h);
        if (l) {
          verify(l, h.id, "weak");
          e->DeleteLocalRef(l);
        }
      }
  }
  int pickObj()  // id of an object, or -1 for null
  {
    if (r.chance(25)) return -1;
    return m->now[r.below(m->now.size())];
  }
  jobject byId(int id)
  {
    if (id < 0) return 0;
    for (Handle& h : hs) if (h.id == id && h.kind == 0 && r.chance(50)) return h.h;
    for (size_t k = 0; k < m->now.size(); ++k)
      if (m->now[k] == id) {
        jobject o = e->GetObjectArrayElement(os, k);
        hs.push_back({o, id, 0});
        return o;
      }
    return 0;
  }

  void fieldOp()
  {
    int id;
    jobject h = any(&id);
    Obj& x = obj(id);
    int w = r.below(13);
    bool set = r.chance(50);
    uint32_t v = r.next();
#define F(n, name, sig, T, mem, value)                                              \
  case n: {                                                                         \
    jfieldID f = field(e, n + 1, name, sig);                                        \
    if (set) {                                                                      \
      x.mem = value;                                                                \
      e->Set##T##Field(h, f, x.mem);                                                \
      if (r.chance(50)) disturb(e, r);                                              \
    }                                                                               \
    auto g = e->Get##T##Field(h, f);                                                \
    if (g != x.mem) err("field %s of %d holds another value", name, id);            \
    break;                                                                          \
  }
    switch (w) {
      F(0, "z", "Z", Boolean, z, v & 1)
      F(1, "b", "B", Byte, b, v)
      F(2, "c", "C", Char, c, v)
      F(3, "s", "S", Short, s, v)
      F(4, "i", "I", Int, i, v)
      F(5, "j", "J", Long, j, (jlong) ((uint64_t) v * 0x123456789ULL))
      F(6, "f", "F", Float, f, (jfloat) (jshort) v / 8)
      F(7, "d", "D", Double, d, (jdouble) (jint) v / 64)
      F(8, "vj", "J", Long, vj, (jlong) ((uint64_t) v * 0x123456789ULL))
      F(9, "vd", "D", Double, vd, (jdouble) (jint) v / 64)
      F(10, "vi", "I", Int, vi, v)
    case 11:
    case 12: {
      bool vol = w == 12;
      jfieldID f = field(e, w + 1, vol ? "vo" : "o", "Lw/JnO;");
      int& o = vol ? x.vo : x.o;
      if (set) {
        int t = pickObj();
        jobject n = byId(t);
        e->SetObjectField(h, f, n);
        o = t;
        disturb(e, r);
      }
      jobject g = e->GetObjectField(h, f);
      if (o < 0) {
        if (g) err("reference field of %d is not null", id);
      } else {
        verify(g, o, "reference field");
        hs.push_back({g, o, 0});
      }
    }
    }
#undef F
  }

  void staticOp()
  {
    int t = m->thread & 3;
    Statics& x = statics[t];
    if (!staticsKnown[t]) {
      x = {1, -3, 'c', -300, 70000, (jlong) 1 << 40, 1.5f, -2.25, 77, 9, 5, 78};
      staticsKnown[t] = true;
    }
    jclass c;
    bool local = true;
    if (r.chance(30)) {
      c = cls(e, CLATE + t);
      local = false;
    } else if (r.chance(50))
      c = e->FindClass(classNames[CLATE + t]);
    else
      c = (jclass) e->CallStaticObjectMethod(cls(e, CO), osm(e, 1, "late", "(I)Ljava/lang/Class;"), t);
    if (!c) {
      err("no class for statics");
      return;
    }
    bool set = r.chance(50);
    uint32_t v = r.next();
#define F(n, name, sig, T, mem, value)                                              \
  case n: {                                                                         \
    jfieldID f = e->GetStaticFieldID(c, name, sig);                                 \
    if (!f) { err("no static field %s", name); e->ExceptionClear(); break; }        \
    if (set) {                                                                      \
      x.mem = value;                                                                \
      e->SetStatic##T##Field(c, f, x.mem);                                          \
      if (r.chance(50)) disturb(e, r);                                              \
    }                                                                               \
    auto g = e->GetStatic##T##Field(c, f);                                          \
    if (g != x.mem) err("static field %s holds %.9g instead of %.9g", name, (double) g, (double) x.mem);  \
    break;                                                                          \
  }
    switch (r.below(t > 1 ? 12 : 10)) {
      F(10, "up", "J", Long, up, (jlong) ((uint64_t) v * 0x123456789ULL))
      F(0, "z", "Z", Boolean, z, v & 1)
      F(1, "b", "B", Byte, b, v)
      F(2, "c", "C", Char, c, v)
      F(3, "s", "S", Short, s, v)
      F(4, "i", "I", Int, i, v)
      F(5, "j", "J", Long, j, (jlong) ((uint64_t) v * 0x123456789ULL))
      F(6, "f", "F", Float, f, (jfloat) (jshort) v / 8)
      F(7, "d", "D", Double, d, (jdouble) (jint) v / 64)
      F(8, "vj", "J", Long, vj, (jlong) ((uint64_t) v * 0x123456789ULL))
    case 9:
    case 11: {
      bool u = r.chance(50) && t > 1;
      int& xo = u ? x.upo : x.o;
      jfieldID f = e->GetStaticFieldID(c, u ? "upo" : "o", "Lw/JnO;");
      if (!f) { err("no static field o"); break; }
      jobject g = e->GetStaticObjectField(c, f);
      verify(g, xo, "static reference field");
      if (set) {
        int q = m->now[r.below(m->now.size())];
        jobject n = byId(q);
        disturb(e, r);
        e->SetStaticObjectField(c, f, n);
        xo = q;
        jobject g2 = e->GetStaticObjectField(c, f);
        verify(g2, xo, "static reference field");
        e->DeleteLocalRef(g2);
      }
      e->DeleteLocalRef(g);
    }
    }
#undef F
    if (local) e->DeleteLocalRef(c);
  }

  jlong mix(Obj& x, jint a, jlong b, int o)
  {
    uint64_t h = ((((uint64_t) (jlong) x.id * 31 + (jlong) a) * 31 + b) * 31) + (jlong) (o < 0 ? -1 : o);
    return (jlong) (x.sub ? h ^ 0x55 : h);
  }

  void callOp()
  {
    int id;
    jobject h = any(&id);
    Obj& x = obj(id);
    switch (r.below(5)) {
    case 0: {
      jint a = r.next();
      jlong b = (jlong) r.next() << 20;
      int o = pickObj();
      jobject oh = byId(o);
      jlong want = mix(x, a, b, o), g;
      jmethodID mm = om(e, 2, "mix", "(IJLw/JnO;)J");
      if (r.chance(50)) g = e->CallLongMethod(h, mm, a, b, oh);
      else {
        jvalue v[3];
        v[0].i = a;
        v[1].j = b;
        v[2].l = oh;
        g = e->CallLongMethodA(h, mm, v);
      }
      if (e->ExceptionCheck()) { err("mix threw"); e->ExceptionClear(); }
      if (g != want) err("mix of %d returned another value", id);
      break;
    }
    case 1: {
      int o = pickObj();
      bool me = r.chance(50);
      jobject g = e->CallObjectMethod(h, om(e, 3, "pick", "(ZLw/JnO;)Lw/JnO;"), (jboolean) me, byId(o));
      int want = me ? id : o;
      if (want < 0) {
        if (g) err("pick returned an object");
      } else {
        verify(g, want, "pick");
        hs.push_back({g, want, 0});
      }
      break;
    }
    case 2: {
      int k = r.below(100);
      jint g = e->CallIntMethod(h, om(e, 4, "boom", "(I)I"), k);
      if (r.chance(30)) point();
      jlong ex = 0;
      bool p = pending(e, &ex);
      if (k % 3 == 2) {
        if (p || g != k) err("boom(%d) threw %lld", k, (long long) ex);
      } else if (!p || ex != (k % 3 == 0 ? k : -77))
        err("boom(%d): exception %d %lld", k, p, (long long) ex);
      break;
    }
    case 3: {
      int k = r.below(1000);
      jint g;
      if (!x.sub) break;
      jclass c = e->FindClass("w/JnO$Named");
      jmethodID im = e->GetMethodID(c, "name", "(I)I");
      g = e->CallIntMethod(h, im, k);
      if (g != id * 3 + k) err("interface method of %d returned %d", id, g);
      break;
    }
    case 4: {
      if (depth > 1) break;
      int seed = r.next() >> 1;
      jint g = e->CallIntMethod(h, om(e, 5, "again", "([Lw/JnO;III)I"), os, seed, 1 + r.below(5), depth + 1);
      jlong ex = 0;
      bool p = pending(e, &ex);
      if (p != ((seed & 15) == 9) || (p && ex != seed)) err("nested native code: exception %d %lld", p, (long long) ex);
      if (!p && g != seed) err("nested native code returned %d", g);
      break;
    }
    }
  }

  void newObject()
  {
    int k = r.below(m->now.size());
    bool sub = r.chance(40), fail = r.chance(10);
    jclass c = cls(e, sub ? CSUB : CO);
    jmethodID ctor = method(e, c, sub ? 211 : 210, false, "<init>", "(IJD)V");
    int id = fail ? -2 : m->next++;
    jlong j = r.next();
    jdouble d = (jdouble) (int) r.next() / 4;
    jobject o;
    if (r.chance(50)) o = e->NewObject(c, ctor, id, j, d);
    else {
      jvalue v[3];
      v[0].i = id;
      v[1].j = j;
      v[2].d = d;
      o = e->NewObjectA(c, ctor, v);
    }
    jlong ex = 0;
    bool p = pending(e, &ex);
    if (fail) {
      if (!p || ex != id || o) err("a failed constructor: %d %lld %p", p, (long long) ex, (void*) o);
      return;
    }
    if (p || !o) {
      err("NewObject failed");
      return;
    }
    Obj x = {};
    x.id = id;
    x.sub = sub;
    x.j = sub ? j + 1 : j;
    x.d = d;
    x.o = x.vo = -1;
    m->all[id] = x;
    m->now[k] = id;
    if (r.chance(50)) disturb(e, r);
    e->SetObjectArrayElement(os, k, o);
    hs.push_back({o, id, 0});
    verify(o, id, "new object");
  }

  void strings()
  {
    int n = r.below(30);
    std::vector<jchar> cs(n + 1);
    int range = r.below(3);
    for (int i = 0; i < n; ++i) cs[i] = range == 0 ? 32 + r.below(90) : range == 1 ? 1 + r.below(0x7ff) : 1 + r.below(0xd7ff);
    jstring s;
    if (range == 0 && r.chance(50)) {
      std::string b;
      for (int i = 0; i < n; ++i) b += (char) cs[i];
      s = e->NewStringUTF(b.c_str());
    } else
      s = e->NewString(cs.data(), n);
    if (!s) {
      err("no string");
      return;
    }
    disturb(e, r);
    if (n > 3 && r.chance(50)) {
      int x = r.below(n / 2), y = x + r.below(n - x + 1);
      jstring t = (jstring) e->CallStaticObjectMethod(cls(e, CO), osm(e, 7, "cut", "(Ljava/lang/String;II)Ljava/lang/String;"), s, x, y);
      e->DeleteLocalRef(s);
      s = t;
      cs = std::vector<jchar>(cs.begin() + x, cs.begin() + y);
      n = y - x;
      cs.push_back(0);
    }
    if (e->GetStringLength(s) != n) {
      err("GetStringLength gives %d instead of %d", e->GetStringLength(s), n);
      return;
    }
    std::string u;
    for (int i = 0; i < n; ++i) {
      jchar c = cs[i];
      if (c && c < 0x80) u += (char) c;
      else if (c < 0x800) {
        u += (char) (0xc0 | c >> 6);
        u += (char) (0x80 | (c & 63));
      } else {
        u += (char) (0xe0 | c >> 12);
        u += (char) (0x80 | (c >> 6 & 63));
        u += (char) (0x80 | (c & 63));
      }
    }
    switch (r.below(6)) {
    case 0: {
      const jchar* p = e->GetStringChars(s, 0);
      disturb(e, r);
      if (memcmp(p, cs.data(), n * 2)) err("GetStringChars gives other characters");
      e->ReleaseStringChars(s, p);
      break;
    }
    case 1: {
      int x = r.below(n + 1), y = r.below(n - x + 1);
      jchar b[64];
      b[y] = 0x1234;
      e->GetStringRegion(s, x, y, b);
      if (memcmp(b, cs.data() + x, y * 2) || b[y] != 0x1234) err("GetStringRegion gives other characters");
      break;
    }
    case 2: {
      if (e->GetStringUTFLength(s) != (jsize) u.size()) err("GetStringUTFLength gives %d instead of %d", e->GetStringUTFLength(s), (int) u.size());
      const char* p = e->GetStringUTFChars(s, 0);
      disturb(e, r);
      if (u != p) err("GetStringUTFChars gives other bytes");
      e->ReleaseStringUTFChars(s, p);
      break;
    }
    case 3: {
      const jchar* p = e->GetStringCritical(s, 0);
      for (int i = r.below(5); i > 0; --i) point();
      if (memcmp(p, cs.data(), n * 2)) err("GetStringCritical gives other characters");
      e->ReleaseStringCritical(s, p);
      break;
    }
    case 4: {
      jint h = 0;
      for (int i = 0; i < n; ++i) h = (jint) ((uint32_t) h * 31 + cs[i]);
      jint g = e->CallStaticIntMethod(cls(e, CO), osm(e, 8, "hash", "(Ljava/lang/String;)I"), s);
      if (g != h) err("a string of native code has another content in Java");
      break;
    }
    case 5: {
      int k = r.below(100000);
      jstring t = (jstring) e->CallStaticObjectMethod(cls(e, CO), osm(e, 9, "text", "(Ljava/lang/String;I)Ljava/lang/String;"), s, k);
      const char* p = e->GetStringUTFChars(t, 0);
      if (u + std::to_string(k) != p) err("a string of Java has another content in native code");
      e->ReleaseStringUTFChars(t, p);
      e->DeleteLocalRef(t);
      break;
    }
    }
    e->DeleteLocalRef(s);
  }

#define ARR(T, J)                                                                                   \
  void arr##T()                                                                                     \
  {                                                                                                 \
    int n = r.below(40);                                                                            \
    J##Array a = e->New##T##Array(n);                                                               \
    if (!a || e->GetArrayLength(a) != n) { err("New" #T "Array"); return; }                         \
    std::vector<J> v(n + 1), w(n + 1);                                                              \
    for (int i = 0; i < n; ++i) v[i] = sizeof(J) == 1 ? (J) (r.next() & 1) : (J) r.next();          \
    int x = r.below(n + 1), y = r.below(n - x + 1);                                                 \
    e->Set##T##ArrayRegion(a, x, y, v.data() + x);                                                  \
    for (int i = 0; i < n; ++i) if (i < x || i >= x + y) v[i] = 0;                                  \
    for (int k = r.below(4); k >= 0; --k) {                                                         \
      disturb(e, r);                                                                                \
      x = r.below(n + 1), y = r.below(n - x + 1);                                                   \
      switch (r.below(4)) {                                                                         \
      case 0:                                                                                       \
        e->Get##T##ArrayRegion(a, x, y, w.data());                                                  \
        if (memcmp(w.data(), v.data() + x, y * sizeof(J))) err("Get" #T "ArrayRegion gives other values");  \
        break;                                                                                      \
      case 1: {                                                                                     \
        int mode = r.below(3);                                                                      \
        J* p = e->Get##T##ArrayElements(a, 0);                                                      \
        disturb(e, r);                                                                              \
        if (memcmp(p, v.data(), n * sizeof(J))) err("Get" #T "ArrayElements gives other values");   \
        for (int i = x; i < x + y; ++i) p[i] = (J) (p[i] ? 0 : 1);                                  \
        if (mode != 2) for (int i = x; i < x + y; ++i) v[i] = p[i];                                 \
        if (mode == 1) {                                                                            \
          e->Release##T##ArrayElements(a, p, JNI_COMMIT);                                           \
          disturb(e, r);                                                                            \
          e->Get##T##ArrayRegion(a, 0, n, w.data());                                                \
          if (memcmp(w.data(), v.data(), n * sizeof(J))) err("Release" #T "ArrayElements did not commit");  \
          e->Release##T##ArrayElements(a, p, JNI_ABORT);                                            \
        } else                                                                                      \
          e->Release##T##ArrayElements(a, p, mode == 2 ? JNI_ABORT : 0);                            \
        break;                                                                                      \
      }                                                                                             \
      case 2: {                                                                                     \
        bool mixed = r.chance(25);                                                                  \
        jstring s = mixed ? e->NewStringUTF("critical") : 0;                                        \
        J* p = (J*) e->GetPrimitiveArrayCritical(a, 0);                                             \
        if (mixed) {                                                                                \
          const jchar* c = e->GetStringCritical(s, 0);                                              \
          point();                                                                                  \
          if (c[0] != 'c' || c[7] != 'l') err("GetStringCritical in a critical region");            \
          e->ReleaseStringCritical(s, c);                                                           \
          point();                                                                                  \
        }                                                                                           \
        for (int i = x; i < x + y; ++i) {                                                           \
          if (p[i] != v[i]) err("GetPrimitiveArrayCritical gives other values");                    \
          p[i] = v[i] = (J) (v[i] ? 0 : 1);                                                         \
          if (r.chance(20)) point();                                                                \
        }                                                                                           \
        if (r.chance(30)) {                                                                         \
          J* q = (J*) e->GetPrimitiveArrayCritical(a, 0);                                           \
          point();                                                                                  \
          if (q != p) for (int i = 0; i < n; ++i) if (q[i] != v[i]) { err("nested critical region"); break; }  \
          e->ReleasePrimitiveArrayCritical(a, q, 0);                                                \
          point();                                                                                  \
          for (int i = 0; i < n; ++i) if (p[i] != v[i]) { err("array moved in a critical region"); break; }  \
        }                                                                                           \
        e->ReleasePrimitiveArrayCritical(a, p, 0);                                                  \
        if (s) e->DeleteLocalRef(s);                                                                \
        break;                                                                                      \
      }                                                                                             \
      case 3:                                                                                       \
        for (int i = x; i < x + y; ++i) v[i] = (J) (v[i] ? 0 : 1);                                  \
        e->Set##T##ArrayRegion(a, x, y, v.data() + x);                                              \
        break;                                                                                      \
      }                                                                                             \
    }                                                                                               \
    e->Get##T##ArrayRegion(a, 0, n, w.data());                                                      \
    if (memcmp(w.data(), v.data(), n * sizeof(J))) err(#T " array holds other values");             \
    e->DeleteLocalRef(a);                                                                           \
  }
  ARR(Boolean, jboolean)
  ARR(Byte, jbyte)
  ARR(Char, jchar)
  ARR(Short, jshort)
  ARR(Int, jint)
  ARR(Long, jlong)
  ARR(Float, jfloat)
  ARR(Double, jdouble)

  void objectArray()
  {
    int n = r.below(12), init = pickObj();
    jobjectArray a = e->NewObjectArray(n, cls(e, CO), byId(init));
    if (!a || e->GetArrayLength(a) != n) {
      err("NewObjectArray");
      return;
    }
    std::vector<int> v(n, init);
    for (int k = r.below(12); k > 0 && n; --k) {
      int i = r.below(n);
      if (r.chance(50)) {
        int o = pickObj();
        e->SetObjectArrayElement(a, i, byId(o));
        v[i] = o;
      } else {
        jobject g = e->GetObjectArrayElement(a, i);
        if (v[i] < 0) {
          if (g) err("an element is not null");
        } else {
          verify(g, v[i], "element");
          if (r.chance(50)) e->DeleteLocalRef(g);
          else hs.push_back({g, v[i], 0});
        }
      }
      disturb(e, r);
    }
    jclass c = e->GetObjectClass(a);
    jclass oc = e->FindClass("[Lw/JnO;");
    if (!oc || !e->IsSameObject(c, oc)) err("the class of an object array");
    e->DeleteLocalRef(a);
  }

  void classesOp()
  {
    int id;
    jobject h = any(&id);
    Obj& x = obj(id);
    jclass c = e->GetObjectClass(h);
    if (!e->IsSameObject(c, cls(e, x.sub ? CSUB : CO))) err("GetObjectClass of %d", id);
    disturb(e, r);
    if (e->IsInstanceOf(h, cls(e, CSUB)) != x.sub || !e->IsInstanceOf(h, cls(e, CO)) || e->IsInstanceOf(h, cls(e, CNAMED)) != x.sub
        || !e->IsInstanceOf(h, cls(e, COBJECT)) || e->IsInstanceOf(h, cls(e, CEX)))
      err("IsInstanceOf of %d", id);
    if (!e->IsAssignableFrom(cls(e, CSUB), cls(e, CO)) || e->IsAssignableFrom(cls(e, CO), cls(e, CSUB)) || !e->IsAssignableFrom(c, cls(e, CBASE)))
      err("IsAssignableFrom");
    jclass s = e->GetSuperclass(c);
    if (!e->IsSameObject(s, cls(e, x.sub ? CO : CBASE))) err("GetSuperclass of %d", id);
    if (r.chance(20)) {
      if (e->ThrowNew(cls(e, CNPE), "thrown") != 0) err("ThrowNew");
      jlong ex = 0;
      if (!pending(e, &ex) || ex != -77) err("ThrowNew threw something else");
    }
    if (r.chance(20)) {
      JavaVM* v = 0;
      JNIEnv* e2 = 0;
      if (e->GetJavaVM(&v) != 0 || v->GetEnv((void**) &e2, JNI_VERSION_1_6) != 0 || e2 != e) err("GetEnv");
      if (v->AttachCurrentThread((void**) &e2, 0) != 0 || e2 != e) err("attaching a thread that is attached");
    }
    if (r.chance(30)) {
      if (e->FindClass("w/NoSuchClass") || !e->ExceptionCheck()) err("a missing class");
      e->ExceptionClear();
    }
    if (r.chance(30)) {
      jobject m = e->ToReflectedMethod(cls(e, CO), om(e, 2, "mix", "(IJLw/JnO;)J"), false);
      disturb(e, r);
      if (e->FromReflectedMethod(m) != om(e, 2, "mix", "(IJLw/JnO;)J")) err("reflected method");
      jobject f = e->ToReflectedField(cls(e, CO), field(e, 5, "i", "I"), false);
      disturb(e, r);
      if (e->FromReflectedField(f) != field(e, 5, "i", "I")) err("reflected field");
      e->DeleteLocalRef(m);
      e->DeleteLocalRef(f);
    }
    e->DeleteLocalRef(s);
    e->DeleteLocalRef(c);
  }

  // an object that only global references refer to
  void globals()
  {
    jobject o = e->NewObject(cls(e, CEX), method(e, cls(e, CEX), 250, false, "<init>", "(J)V"), (jlong) 4711);
    if (!o) {
      err("NewObject gives null");
      return;
    }
    jobject g[2] = {0, 0};
    jweak w[2] = {0, 0};
    int ng = 0, nw = 0;
    for (int k = 1 + (int) r.below(4); k > 0; --k) {
      if (r.chance(50) && ng < 2) g[ng++] = e->NewGlobalRef(nw && r.chance(30) ? w[0] : o);
      else if (nw < 2) w[nw++] = e->NewWeakGlobalRef(ng && r.chance(30) ? g[0] : o);
      if (r.chance(20)) disturb(e, r);
    }
    if (!ng) g[ng++] = e->NewGlobalRef(o);
    e->DeleteLocalRef(o);
    if (ng == 2 && r.chance(60)) e->DeleteGlobalRef(g[--ng]);
    if (nw == 2 && r.chance(60)) e->DeleteWeakGlobalRef(w[--nw]);
    for (int k = r.below(3); k >= 0; --k) {
      disturb(e, r);
      if (r.chance(15)) {
        jclass c = e->FindClass("java/lang/System");
        e->CallStaticVoidMethod(c, e->GetStaticMethodID(c, "gc", "()V"));
        e->DeleteLocalRef(c);
      }
      point();
    }
    for (int k = 0; k < ng; ++k)
      if (!e->IsInstanceOf(g[k], cls(e, CEX)) || e->IsSameObject(g[k], 0)) err("a global reference lost its object");
      else if (!e->IsSameObject(g[k], g[0])) err("two global references to different objects");
    for (int k = 0; k < nw; ++k)
      if (!e->IsSameObject(g[0], w[k])) err("a weak reference lost an object that a global reference refers to");
    // in any order
    if (r.chance(50)) while (nw) e->DeleteWeakGlobalRef(w[--nw]);
    while (ng) e->DeleteGlobalRef(g[--ng]);
    while (nw) e->DeleteWeakGlobalRef(w[--nw]);
  }

  void refs()
  {
    int id;
    switch (r.below(10)) {
    case 8:
    case 9: globals(); break;
    case 0: {
      jobject h = any(&id);
      jobject g = e->NewLocalRef(h);
      verify(g, id, "NewLocalRef");
      hs.push_back({g, id, 0});
      break;
    }
    case 1: {
      jobject h = any(&id);
      jobject g = e->NewGlobalRef(h);
      verify(g, id, "NewGlobalRef");
      hs.push_back({g, id, 1});
      break;
    }
    case 2: {
      jobject h = any(&id);
      jobject g = e->NewWeakGlobalRef(h);
      verify(g, id, "NewWeakGlobalRef");
      hs.push_back({g, id, 2});
      break;
    }
    case 3:
    case 4: {
      if (hs.empty()) break;
      size_t k = r.below(hs.size());
      Handle h = hs[k];
      if (h.kind == 0) e->DeleteLocalRef(h.h);
      if (h.kind == 1) e->DeleteGlobalRef(h.h);
      if (h.kind == 2) e->DeleteWeakGlobalRef(h.h);
      hs.erase(hs.begin() + k);
      break;
    }
    case 5: {
      int b;
      jobject x = any(&id), y = any(&b);
      if (e->IsSameObject(x, y) != (id == b)) err("IsSameObject of %d and %d", id, b);
      if (e->IsSameObject(x, 0) || !e->IsSameObject(0, 0)) err("IsSameObject of null");
      break;
    }
    case 6: {
      if (e->PushLocalFrame(16) != 0) {
        err("PushLocalFrame");
        break;
      }
      std::vector<Handle> outer = hs;
      for (int k = r.below(5); k > 0; --k) step(false);
      jobject res = any(&id);
      jobject g = e->PopLocalFrame(r.chance(70) ? res : (id = -1, (jobject) 0));
      // local handles made inside are gone
      std::vector<Handle> in = hs;
      hs.clear();
      for (Handle& h : in) {
        bool was = h.kind != 0;
        for (Handle& o : outer) if (o.h == h.h && o.kind == 0) was = true;
        if (was) hs.push_back(h);
      }
      if (id >= 0) {
        verify(g, id, "PopLocalFrame");
        hs.push_back({g, id, 0});
      } else if (g)
        err("PopLocalFrame gives an object");
      break;
    }
    case 7: {
      e->EnsureLocalCapacity(20);
      if (!r.chance(4)) break;
      // as in a loop over a long array
      jobject last = 0;
      int lid = 0;
      for (int k = 0; k < 9000; ++k) {
        int i = k % m->now.size();
        jobject o = e->GetObjectArrayElement(os, i);
        if (last) {
          if (k % 64 == 0) verify(last, lid, "one of many local references");
          e->DeleteLocalRef(last);
        }
        last = o;
        lid = m->now[i];
      }
      hs.push_back({last, lid, 0});
      break;
    }
    }
  }

  void monitor()
  {
    static jfieldID f;
    if (!f) f = e->GetStaticFieldID(cls(e, CW), "shared", "Lw/JnO;");
    jobject s = e->GetStaticObjectField(cls(e, CW), f);
    if (e->MonitorEnter(s) != 0) err("MonitorEnter");
    enter();
    disturb(e, r);
    if (r.chance(40)) {
      if (e->CallIntMethod(s, om(e, 6, "locked", "()I")) != 1) err("a method synchronized on a monitor that native code holds");
    }
    if (r.chance(30)) point();
    leave();
    if (r.chance(40)) locks(s);
    if (e->MonitorExit(s) != 0) err("MonitorExit");
    if (r.chance(40)) locks(s);
    e->DeleteLocalRef(s);
  }
  void locks(jobject s)
  {
    int k = r.below(1000);
    jint g = e->CallIntMethod(s, om(e, 13, "locks", "(I)I"), k);
    jlong ex = 0;
    bool p = pending(e, &ex);
    if (p != (k % 3 == 0) || (p && ex != k) || (!p && g != k)) err("a synchronized native method: %d %d %lld", g, p, (long long) ex);
  }
  static void enter()
  {
    if (owner && owner != cur->id + 1) err("two threads own a monitor");
    owner = cur->id + 1;
    ++ownerDepth;
  }
  static void leave()
  {
    if (owner != cur->id + 1) err("a monitor was lost");
    if (--ownerDepth == 0) owner = 0;
  }

  static jint JNICALL reg1(JNIEnv*, jclass, jint k) { return k * 3 + 1; }
  static jint JNICALL reg2(JNIEnv*, jclass, jint k) { return k * 5 + 2; }
  void registered()
  {
    int t = m->thread & 3;
    jclass c = cls(e, CREG + t);
    int w = r.below(5);
    if (w == 0) {
      if (e->UnregisterNatives(c) != 0) err("UnregisterNatives");
      regs[t] = 0;
    } else if (w < 3) {
      JNINativeMethod nm = {(char*) "which", (char*) "(I)I", w == 1 ? (void*) reg1 : (void*) reg2};
      if (e->RegisterNatives(c, &nm, 1) != 0) err("RegisterNatives");
      regs[t] = w;
    }
    disturb(e, r);
    int k = r.below(1000);
    jint g = e->CallStaticIntMethod(cls(e, CO), osm(e, 12, "callReg", "(II)I"), t, k);
    int want = regs[t] == 0 ? k + 7 : regs[t] == 1 ? k * 3 + 1 : k * 5 + 2;
    if (g != want) err("a registered native method: %d gives %d instead of %d", regs[t], g, want);
  }

  void step(bool top)
  {
    switch (r.below(20)) {
    case 0:
    case 1:
    case 2: fieldOp(); break;
    case 3: staticOp(); break;
    case 4:
    case 5:
    case 6: callOp(); break;
    case 7: newObject(); break;
    case 8: strings(); break;
    case 9:
    case 10:
      switch (r.below(8)) {
      case 0: arrBoolean(); break;
      case 1: arrByte(); break;
      case 2: arrChar(); break;
      case 3: arrShort(); break;
      case 4: arrInt(); break;
      case 5: arrLong(); break;
      case 6: arrFloat(); break;
      case 7: arrDouble(); break;
      }
      break;
    case 11: objectArray(); break;
    case 12: classesOp(); break;
    case 13: monitor(); break;
    case 14: registered(); break;
    case 15: disturb(e, r); break;
    default: if (top || r.chance(50)) refs();
    }
    if (e->ExceptionCheck()) {
      err("an exception is left over");
      e->ExceptionClear();
    }
  }
  void run(int steps)
  {
    for (int i = 0; i < steps; ++i) {
      step(true);
      if (r.chance(30)) verifyAll("handle");
    }
    verifyAll("handle at the end");
    for (Handle& h : hs) {
      if (h.kind == 1) e->DeleteGlobalRef(h.h);
      if (h.kind == 2) e->DeleteWeakGlobalRef(h.h);
      if (h.kind == 0 && r.chance(30)) e->DeleteLocalRef(h.h);
    }
  }
};

struct Native {
  jobject os;
  Model* m;
  int seed, steps, times, done;
  bool daemon;
};
void* nativeThread(void* p)
{
  Native* n = (Native*) p;
  models[cur->id & 1023] = n->m;
  for (int i = 0; i < n->times; ++i) {
    JNIEnv* e = 0;
    if (vm->GetEnv((void**) &e, JNI_VERSION_1_6) != JNI_EDETACHED) err("a thread is attached before it attaches");
    int rc = n->daemon ? vm->AttachCurrentThreadAsDaemon((void**) &e, 0) : vm->AttachCurrentThread((void**) &e, 0);
    if (rc != 0 || !e) {
      err("a thread could not attach");
      return 0;
    }
    JNIEnv* e2 = 0;
    if (vm->GetEnv((void**) &e2, JNI_VERSION_1_6) != JNI_OK || e2 != e) err("GetEnv of an attached thread");
    if (vm->AttachCurrentThread((void**) &e2, 0) != 0 || e2 != e) err("attaching twice");
    jstring who = (jstring) e->CallStaticObjectMethod(cls(e, CW), wm(e, 20, "whoAmI", "()Ljava/lang/String;"));
    if (!who || e->ExceptionCheck()) err("no current thread");
    else {
      const char* c = e->GetStringUTFChars(who, 0);
      if (strcmp(c, n->daemon ? "true true true" : "false true true")) err("an attached thread sees itself as %s", c);
      e->ReleaseStringUTFChars(who, c);
      e->DeleteLocalRef(who);
    }
    e->CallStaticVoidMethod(cls(e, CW), wm(e, 21, "here", "(I)V"), n->m->thread);
    jobject t1 = e->CallStaticObjectMethod(cls(e, CW), wm(e, 22, "self", "()Ljava/lang/Thread;"));
    {
      Script s(e, (jobjectArray) n->os, n->m, n->seed + i, 1);
      s.run(n->steps);
    }
    jobject t2 = e->CallStaticObjectMethod(cls(e, CW), wm(e, 22, "self", "()Ljava/lang/Thread;"));
    if (!t1 || !e->IsSameObject(t1, t2)) err("the current thread of an attached thread changed");
    if (vm->DetachCurrentThread() != 0) err("a thread could not detach");
    if (vm->GetEnv((void**) &e, JNI_VERSION_1_6) != JNI_EDETACHED) err("a thread is attached after it detached");
    ++n->done;
    point();
  }
  return 0;
}
}  // namespace

JN(void) Java_w_JniSigs_back(JNIEnv* e, jclass c, jint k, jint q, jobject r, jobjectArray os)
{
  jobject o[4];
  for (int i = 0; i < 4; ++i) o[i] = e->GetObjectArrayElement(os, i);
  Rng g(q);
  backCall(e, k, g.below(6), q, r, c, o);
}
JN(void) Java_w_JnBase_setLast(JNIEnv*, jclass, jlong h) { lasts[cur->id & 1023] = h; }
JN(jlong) Java_w_JnBase_last(JNIEnv*, jclass) { return lasts[cur->id & 1023]; }
JN(void) Java_w_JniW_reset(JNIEnv* e, jclass)
{
  e->GetJavaVM(&vm);
  memset(models, 0, sizeof models);
  owner = ownerDepth = 0;
}
JN(void) Java_w_JniW_adopt(JNIEnv* e, jclass, jobjectArray os, jint thread)
{
  Model* m = new Model;
  made.push_back(m);
  models[cur->id & 1023] = m;
  m->thread = thread;
  m->next = thread * 1000 + 100;
  int n = e->GetArrayLength(os);
  for (int i = 0; i < n; ++i) {
    jobject o = e->GetObjectArrayElement(os, i);
    Obj x = {};
    x.id = e->GetIntField(o, field(e, 0, "id", "I"));
    x.j = e->GetLongField(o, field(e, 6, "j", "J"));
    x.d = e->GetDoubleField(o, field(e, 8, "d", "D"));
    x.sub = e->IsInstanceOf(o, cls(e, CSUB));
    x.o = x.vo = -1;
    m->all[x.id] = x;
    m->now.push_back(x.id);
    e->DeleteLocalRef(o);
  }
}
JN(jlong) Java_w_JniW_modelSum(JNIEnv*, jclass)
{
  Model* m = models[cur->id & 1023];
  uint64_t h = 0;
  for (int id : m->now) {
    Obj& x = m->all.at(id);
    for (jlong v : {(jlong) x.id, (jlong) x.z, (jlong) x.b, (jlong) x.c, (jlong) x.s, (jlong) x.i, x.j, (jlong) (x.f * 8), (jlong) (x.d * 64), (jlong) x.o, x.vj,
                    (jlong) (x.vd * 64), (jlong) x.vo, (jlong) x.vi})
      h = h * 31 + (uint64_t) v;
  }
  return (jlong) h;
}
JN(void) Java_w_JniW_explain(JNIEnv* e, jclass, jobjectArray os)
{
  Model* m = models[cur->id & 1023];
  for (size_t k = 0; k < m->now.size(); ++k) {
    jobject o = e->GetObjectArrayElement(os, k);
    Obj& x = m->all.at(m->now[k]);
    if (id(e, o) != x.id) err("element %d is object %lld instead of %d", (int) k, (long long) id(e, o), x.id);
#define F(n, name, sig, T, mem) \
    { auto g = e->Get##T##Field(o, field(e, n + 1, name, sig)); if (g != x.mem) err("field %s of %d holds %.17g instead of %.17g", name, x.id, (double) g, (double) x.mem); }
    F(0, "z", "Z", Boolean, z)
    F(1, "b", "B", Byte, b)
    F(2, "c", "C", Char, c)
    F(3, "s", "S", Short, s)
    F(4, "i", "I", Int, i)
    F(5, "j", "J", Long, j)
    F(6, "f", "F", Float, f)
    F(7, "d", "D", Double, d)
    F(8, "vj", "J", Long, vj)
    F(9, "vd", "D", Double, vd)
    F(10, "vi", "I", Int, vi)
#undef F
    for (int v = 0; v < 2; ++v) {
      jobject f = e->GetObjectField(o, field(e, v + 12, v ? "vo" : "o", "Lw/JnO;"));
      int w = v ? x.vo : x.o;
      if ((f ? id(e, f) : -1) != w) err("a reference field of %d is to %lld instead of %d", x.id, f ? (long long) id(e, f) : -1, w);
      if (f) e->DeleteLocalRef(f);
    }
    e->DeleteLocalRef(o);
  }
}
JN(jint) Java_w_JniW_script(JNIEnv* e, jclass, jobjectArray os, jint seed, jint steps, jint depth)
{
  Model* m = models[cur->id & 1023];
  Script s(e, os, m, seed, depth);
  s.run(steps);
  if ((seed & 15) == 9) {
    toss(e, seed);
    if (s.r.chance(50)) point();
    return -1;
  }
  return seed;
}
JN(jobject) Java_w_JniW_drop(JNIEnv* e, jclass, jobjectArray xs, jint mode)
{
  int n = e->GetArrayLength(xs);
  jobject ret = 0;
  if (mode == 1) e->PushLocalFrame(4);
  for (int i = 0; i < n; ++i) {
    jobject o = e->GetObjectArrayElement(xs, i);
    e->NewLocalRef(o);
    if (mode == 2) {
      jobject g = e->NewGlobalRef(o), w = e->NewWeakGlobalRef(o);
      e->DeleteWeakGlobalRef(w);
      e->DeleteGlobalRef(g);
    }
    if (i == 2) ret = o;
    if (i == 4) point();
  }
  if (mode == 1) ret = e->PopLocalFrame(ret);
  if (mode == 0) e->DeleteLocalRef(xs);
  if (mode == 3) {
    toss(e, 5);
    return 0;
  }
  return ret;
}
JN(jint) Java_w_JniW_attached(JNIEnv* e, jclass, jobjectArray os, jint thread, jint seed, jint steps, jboolean daemon, jint times)
{
  Native n = {};
  n.os = e->NewGlobalRef(os);
  n.m = models[cur->id & 1023];
  n.seed = seed;
  n.steps = steps;
  n.times = times;
  n.daemon = daemon;
  pthread_t t;
  if (sim_pthread_create(&t, 0, nativeThread, &n)) {
    err("no thread");
    return times;
  }
  sim_pthread_join(t, 0);
  e->DeleteGlobalRef(n.os);
  return n.done;
}
JN(jobject) Java_w_JniW_buffer(JNIEnv* e, jclass, jint n, jint seed)
{
  Rng r(seed);
  char* p = (char*) malloc(n);
  for (int i = 0; i < n; ++i) p[i] = (char) r.next();
  jobject b = e->NewDirectByteBuffer(p, n);
  disturb(e, r);
  if (e->GetDirectBufferAddress(b) != p || e->GetDirectBufferCapacity(b) != n) err("a direct buffer's address or capacity");
  return b;
}
JN(jint) Java_w_JniW_bufferSum(JNIEnv* e, jclass, jobject b)
{
  signed char* p = (signed char*) e->GetDirectBufferAddress(b);
  uint32_t s = 0;
  for (int i = 0; i < e->GetDirectBufferCapacity(b); ++i) s = s * 31 + (uint32_t) (int32_t) p[i];
  return (jint) s;
}
JN(jint) Java_w_JniW_inside(JNIEnv* e, jclass, jobject)
{
  Script::enter();
  point();
  Script::leave();
  return 1;
}
static jobject weaks[64];
JN(void) Java_w_JniW_weakMake(JNIEnv* e, jclass, jobjectArray xs)
{
  int n = e->GetArrayLength(xs);
  for (int i = 0; i < n; ++i) {
    jobject o = e->GetObjectArrayElement(xs, i);
    weaks[i] = e->NewWeakGlobalRef(o);
    e->DeleteLocalRef(o);
  }
}
JN(jint) Java_w_JniW_weakLeft(JNIEnv* e, jclass, jint k)
{
  int r = 0;
  if (!e->IsSameObject(weaks[k], 0)) {
    jobject l = e->NewLocalRef(weaks[k]);
    r = l ? (int) id(e, l) : -1;
  } else {
    if (e->NewLocalRef(weaks[k])) err("a local reference from a cleared weak one");
    jobject g = e->NewGlobalRef(weaks[k]);
    if (g) err("a global reference from a cleared weak one");
  }
  e->DeleteWeakGlobalRef(weaks[k]);
  return r;
}
JN(jint) Java_w_JnO_locks(JNIEnv* e, jobject o, jint k)
{
  Script::enter();
  jint x = e->GetIntField(o, field(e, 5, "i", "I"));
  if (k & 1) point();
  if (x != e->GetIntField(o, field(e, 5, "i", "I"))) err("the receiver of a synchronized native method changed");
  Script::leave();
  if (k % 3 == 0) toss(e, k);
  return k;
}
#define REG(n) JN(jint) Java_w_JnO_00024Reg##n##_which(JNIEnv*, jclass, jint k) { return k + 7; }
REG(0) REG(1) REG(2) REG(3)
