// Generated by tools/genjni.py.
static jlong x(int q, int k) { return ((jlong) q * 1103515245LL + (jlong) k * 12345LL * (q | 1)) >> 3; }
JN(jboolean) Java_w_JniSigs_n0(JNIEnv* e, jclass)
{
  uint64_t hu = 7ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 0);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jboolean) (h & 1);
}
JN(jboolean) Java_w_JniSigs_v0(JNIEnv* e, jobject self)
{
  uint64_t hu = 7ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 0);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jboolean) (h & 1);
}
static jboolean vj0(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jboolean g;
  if (st) g = e->CallStaticBooleanMethodV(c, m, a); else g = e->CallBooleanMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jbyte) Java_w_JniSigs_n1(JNIEnv* e, jclass, jfloat a0, jfloat a1, jfloat a2, jfloat a3, jdouble a4, jdouble a5)
{
  uint64_t hu = 38ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 64);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jbyte) h;
}
JN(jbyte) Java_w_JniSigs_v1(JNIEnv* e, jobject self, jfloat a0, jfloat a1, jfloat a2, jfloat a3, jdouble a4, jdouble a5)
{
  uint64_t hu = 38ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 64);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jbyte) h;
}
static jbyte vj1(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jbyte g;
  if (st) g = e->CallStaticByteMethodV(c, m, a); else g = e->CallByteMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jchar) Java_w_JniSigs_n2(JNIEnv* e, jclass, jfloat a0, jfloat a1, jdouble a2, jint a3, jdouble a4, jlong a5, jfloat a6)
{
  uint64_t hu = 69ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 2);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jchar) h;
}
JN(jchar) Java_w_JniSigs_v2(JNIEnv* e, jobject self, jfloat a0, jfloat a1, jdouble a2, jint a3, jdouble a4, jlong a5, jfloat a6)
{
  uint64_t hu = 69ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 2);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jchar) h;
}
static jchar vj2(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jchar g;
  if (st) g = e->CallStaticCharMethodV(c, m, a); else g = e->CallCharMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jshort) Java_w_JniSigs_n3(JNIEnv* e, jclass, jobject a0, jfloat a1, jchar a2, jlong a3, jlong a4, jbyte a5, jbyte a6, jobject a7, jint a8, jobject a9, jdouble a10, jshort a11, jshort a12, jshort a13, jbyte a14, jbyte a15, jshort a16, jobject a17, jdouble a18, jobject a19, jobject a20, jbyte a21)
{
  uint64_t hu = 100ULL;
  jobject os[] = {0, a0, a7, a9, a17, a19, a20};
  disturb(e, os, 6, 3);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a10 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) a12;
  hu = hu * 31 + (uint64_t) (jlong) a13;
  hu = hu * 31 + (uint64_t) (jlong) a14;
  hu = hu * 31 + (uint64_t) (jlong) a15;
  hu = hu * 31 + (uint64_t) (jlong) a16;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a17);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a18 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a19);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a20);
  hu = hu * 31 + (uint64_t) (jlong) a21;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jshort) h;
}
JN(jshort) Java_w_JniSigs_v3(JNIEnv* e, jobject self, jobject a0, jfloat a1, jchar a2, jlong a3, jlong a4, jbyte a5, jbyte a6, jobject a7, jint a8, jobject a9, jdouble a10, jshort a11, jshort a12, jshort a13, jbyte a14, jbyte a15, jshort a16, jobject a17, jdouble a18, jobject a19, jobject a20, jbyte a21)
{
  uint64_t hu = 100ULL;
  jobject os[] = {0, a0, a7, a9, a17, a19, a20};
  disturb(e, os, 6, 3);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a10 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) a12;
  hu = hu * 31 + (uint64_t) (jlong) a13;
  hu = hu * 31 + (uint64_t) (jlong) a14;
  hu = hu * 31 + (uint64_t) (jlong) a15;
  hu = hu * 31 + (uint64_t) (jlong) a16;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a17);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a18 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a19);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a20);
  hu = hu * 31 + (uint64_t) (jlong) a21;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jshort) h;
}
static jshort vj3(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jshort g;
  if (st) g = e->CallStaticShortMethodV(c, m, a); else g = e->CallShortMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jint) Java_w_JniSigs_n4(JNIEnv* e, jclass, jlong a0)
{
  uint64_t hu = 131ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 4);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jint) h;
}
JN(jint) Java_w_JniSigs_v4(JNIEnv* e, jobject self, jlong a0)
{
  uint64_t hu = 131ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 4);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jint) h;
}
static jint vj4(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jint g;
  if (st) g = e->CallStaticIntMethodV(c, m, a); else g = e->CallIntMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jlong) Java_w_JniSigs_n5(JNIEnv* e, jclass, jbyte a0, jobject a1, jdouble a2, jbyte a3, jobject a4, jbyte a5, jint a6, jdouble a7, jobject a8, jobject a9, jbyte a10, jlong a11, jobject a12, jboolean a13, jfloat a14, jobject a15, jobject a16, jobject a17, jshort a18, jshort a19)
{
  uint64_t hu = 162ULL;
  jobject os[] = {0, a1, a4, a8, a9, a12, a15, a16, a17};
  disturb(e, os, 8, 5);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
  hu = hu * 31 + (uint64_t) (jlong) (a13 == 1 ? 1 : a13 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a14 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a15);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a16);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a17);
  hu = hu * 31 + (uint64_t) (jlong) a18;
  hu = hu * 31 + (uint64_t) (jlong) a19;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return h;
}
JN(jlong) Java_w_JniSigs_v5(JNIEnv* e, jobject self, jbyte a0, jobject a1, jdouble a2, jbyte a3, jobject a4, jbyte a5, jint a6, jdouble a7, jobject a8, jobject a9, jbyte a10, jlong a11, jobject a12, jboolean a13, jfloat a14, jobject a15, jobject a16, jobject a17, jshort a18, jshort a19)
{
  uint64_t hu = 162ULL;
  jobject os[] = {0, a1, a4, a8, a9, a12, a15, a16, a17};
  disturb(e, os, 8, 5);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
  hu = hu * 31 + (uint64_t) (jlong) (a13 == 1 ? 1 : a13 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a14 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a15);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a16);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a17);
  hu = hu * 31 + (uint64_t) (jlong) a18;
  hu = hu * 31 + (uint64_t) (jlong) a19;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return h;
}
static jlong vj5(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jlong g;
  if (st) g = e->CallStaticLongMethodV(c, m, a); else g = e->CallLongMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jfloat) Java_w_JniSigs_n6(JNIEnv* e, jclass, jlong a0, jobject a1, jint a2, jlong a3, jint a4, jint a5, jint a6, jlong a7, jobject a8)
{
  uint64_t hu = 193ULL;
  jobject os[] = {0, a1, a8};
  disturb(e, os, 2, 6);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) a7;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jfloat) (jshort) h / 4;
}
JN(jfloat) Java_w_JniSigs_v6(JNIEnv* e, jobject self, jlong a0, jobject a1, jint a2, jlong a3, jint a4, jint a5, jint a6, jlong a7, jobject a8)
{
  uint64_t hu = 193ULL;
  jobject os[] = {0, a1, a8};
  disturb(e, os, 2, 6);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) a7;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jfloat) (jshort) h / 4;
}
static jfloat vj6(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jfloat g;
  if (st) g = e->CallStaticFloatMethodV(c, m, a); else g = e->CallFloatMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jdouble) Java_w_JniSigs_n7(JNIEnv* e, jclass)
{
  uint64_t hu = 224ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 7);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jdouble) (jint) h / 32;
}
JN(jdouble) Java_w_JniSigs_v7(JNIEnv* e, jobject self)
{
  uint64_t hu = 224ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 7);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jdouble) (jint) h / 32;
}
static jdouble vj7(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jdouble g;
  if (st) g = e->CallStaticDoubleMethodV(c, m, a); else g = e->CallDoubleMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jobject) Java_w_JniSigs_n8(JNIEnv* e, jclass, jint a0, jlong a1, jobject a2, jobject a3, jobject a4, jlong a5, jint a6, jobject a7, jlong a8, jobject a9, jobject a10, jint a11, jint a12, jlong a13, jobject a14)
{
  uint64_t hu = 255ULL;
  jobject os[] = {0, a2, a3, a4, a7, a9, a10, a14};
  disturb(e, os, 7, 8);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a10);
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) a12;
  hu = hu * 31 + (uint64_t) (jlong) a13;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a14);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return a2;
}
JN(jobject) Java_w_JniSigs_v8(JNIEnv* e, jobject self, jint a0, jlong a1, jobject a2, jobject a3, jobject a4, jlong a5, jint a6, jobject a7, jlong a8, jobject a9, jobject a10, jint a11, jint a12, jlong a13, jobject a14)
{
  uint64_t hu = 255ULL;
  jobject os[] = {0, a2, a3, a4, a7, a9, a10, a14};
  disturb(e, os, 7, 8);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a10);
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) a12;
  hu = hu * 31 + (uint64_t) (jlong) a13;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a14);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return a2;
}
static jobject vj8(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jobject g;
  if (st) g = e->CallStaticObjectMethodV(c, m, a); else g = e->CallObjectMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(void) Java_w_JniSigs_n9(JNIEnv* e, jclass, jdouble a0)
{
  uint64_t hu = 286ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 9);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return; }
  setLast(e, h);
}
JN(void) Java_w_JniSigs_v9(JNIEnv* e, jobject self, jdouble a0)
{
  uint64_t hu = 286ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 9);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return; }
  setLast(e, h);
}
static void vj9(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  if (st) e->CallStaticVoidMethodV(c, m, a); else e->CallVoidMethodV(r, m, a);
  va_end(a);
}
JN(jboolean) Java_w_JniSigs_n10(JNIEnv* e, jclass, jobject a0, jint a1, jint a2, jlong a3, jint a4)
{
  uint64_t hu = 317ULL;
  jobject os[] = {0, a0};
  disturb(e, os, 1, 10);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jboolean) (h & 1);
}
JN(jboolean) Java_w_JniSigs_v10(JNIEnv* e, jobject self, jobject a0, jint a1, jint a2, jlong a3, jint a4)
{
  uint64_t hu = 317ULL;
  jobject os[] = {0, a0};
  disturb(e, os, 1, 10);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jboolean) (h & 1);
}
static jboolean vj10(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jboolean g;
  if (st) g = e->CallStaticBooleanMethodV(c, m, a); else g = e->CallBooleanMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jbyte) Java_w_JniSigs_n11(JNIEnv* e, jclass, jboolean a0, jshort a1, jbyte a2, jobject a3, jdouble a4, jbyte a5, jfloat a6, jdouble a7, jbyte a8, jchar a9, jshort a10, jint a11, jshort a12, jbyte a13, jchar a14)
{
  uint64_t hu = 348ULL;
  jobject os[] = {0, a3};
  disturb(e, os, 1, 11);
  hu = hu * 31 + (uint64_t) (jlong) (a0 == 1 ? 1 : a0 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) a9;
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) a12;
  hu = hu * 31 + (uint64_t) (jlong) a13;
  hu = hu * 31 + (uint64_t) (jlong) a14;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jbyte) h;
}
JN(jbyte) Java_w_JniSigs_v11(JNIEnv* e, jobject self, jboolean a0, jshort a1, jbyte a2, jobject a3, jdouble a4, jbyte a5, jfloat a6, jdouble a7, jbyte a8, jchar a9, jshort a10, jint a11, jshort a12, jbyte a13, jchar a14)
{
  uint64_t hu = 348ULL;
  jobject os[] = {0, a3};
  disturb(e, os, 1, 11);
  hu = hu * 31 + (uint64_t) (jlong) (a0 == 1 ? 1 : a0 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) a9;
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) a12;
  hu = hu * 31 + (uint64_t) (jlong) a13;
  hu = hu * 31 + (uint64_t) (jlong) a14;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jbyte) h;
}
static jbyte vj11(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jbyte g;
  if (st) g = e->CallStaticByteMethodV(c, m, a); else g = e->CallByteMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jchar) Java_w_JniSigs_n12(JNIEnv* e, jclass, jboolean a0, jboolean a1)
{
  uint64_t hu = 379ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 12);
  hu = hu * 31 + (uint64_t) (jlong) (a0 == 1 ? 1 : a0 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) (a1 == 1 ? 1 : a1 == 0 ? 2 : 77777);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jchar) h;
}
JN(jchar) Java_w_JniSigs_v12(JNIEnv* e, jobject self, jboolean a0, jboolean a1)
{
  uint64_t hu = 379ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 12);
  hu = hu * 31 + (uint64_t) (jlong) (a0 == 1 ? 1 : a0 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) (a1 == 1 ? 1 : a1 == 0 ? 2 : 77777);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jchar) h;
}
static jchar vj12(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jchar g;
  if (st) g = e->CallStaticCharMethodV(c, m, a); else g = e->CallCharMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jshort) Java_w_JniSigs_n13(JNIEnv* e, jclass, jobject a0, jobject a1, jfloat a2, jobject a3, jobject a4, jfloat a5, jdouble a6, jobject a7, jint a8, jobject a9, jbyte a10, jdouble a11, jobject a12, jfloat a13, jint a14, jobject a15, jint a16, jint a17, jdouble a18, jshort a19)
{
  uint64_t hu = 410ULL;
  jobject os[] = {0, a0, a1, a3, a4, a7, a9, a12, a15};
  disturb(e, os, 8, 13);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a13 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a14;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a15);
  hu = hu * 31 + (uint64_t) (jlong) a16;
  hu = hu * 31 + (uint64_t) (jlong) a17;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a18 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a19;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jshort) h;
}
JN(jshort) Java_w_JniSigs_v13(JNIEnv* e, jobject self, jobject a0, jobject a1, jfloat a2, jobject a3, jobject a4, jfloat a5, jdouble a6, jobject a7, jint a8, jobject a9, jbyte a10, jdouble a11, jobject a12, jfloat a13, jint a14, jobject a15, jint a16, jint a17, jdouble a18, jshort a19)
{
  uint64_t hu = 410ULL;
  jobject os[] = {0, a0, a1, a3, a4, a7, a9, a12, a15};
  disturb(e, os, 8, 13);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a13 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a14;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a15);
  hu = hu * 31 + (uint64_t) (jlong) a16;
  hu = hu * 31 + (uint64_t) (jlong) a17;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a18 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a19;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jshort) h;
}
static jshort vj13(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jshort g;
  if (st) g = e->CallStaticShortMethodV(c, m, a); else g = e->CallShortMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jint) Java_w_JniSigs_n14(JNIEnv* e, jclass)
{
  uint64_t hu = 441ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 14);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jint) h;
}
JN(jint) Java_w_JniSigs_v14(JNIEnv* e, jobject self)
{
  uint64_t hu = 441ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 14);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jint) h;
}
static jint vj14(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jint g;
  if (st) g = e->CallStaticIntMethodV(c, m, a); else g = e->CallIntMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jlong) Java_w_JniSigs_n15(JNIEnv* e, jclass, jboolean a0, jboolean a1, jchar a2, jboolean a3, jbyte a4, jobject a5, jbyte a6)
{
  uint64_t hu = 472ULL;
  jobject os[] = {0, a5};
  disturb(e, os, 1, 15);
  hu = hu * 31 + (uint64_t) (jlong) (a0 == 1 ? 1 : a0 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) (a1 == 1 ? 1 : a1 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) (a3 == 1 ? 1 : a3 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return h;
}
JN(jlong) Java_w_JniSigs_v15(JNIEnv* e, jobject self, jboolean a0, jboolean a1, jchar a2, jboolean a3, jbyte a4, jobject a5, jbyte a6)
{
  uint64_t hu = 472ULL;
  jobject os[] = {0, a5};
  disturb(e, os, 1, 15);
  hu = hu * 31 + (uint64_t) (jlong) (a0 == 1 ? 1 : a0 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) (a1 == 1 ? 1 : a1 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) (a3 == 1 ? 1 : a3 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return h;
}
static jlong vj15(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jlong g;
  if (st) g = e->CallStaticLongMethodV(c, m, a); else g = e->CallLongMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jfloat) Java_w_JniSigs_n16(JNIEnv* e, jclass, jobject a0, jbyte a1, jfloat a2, jchar a3, jbyte a4, jobject a5, jfloat a6, jint a7)
{
  uint64_t hu = 503ULL;
  jobject os[] = {0, a0, a5};
  disturb(e, os, 2, 16);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jfloat) (jshort) h / 4;
}
JN(jfloat) Java_w_JniSigs_v16(JNIEnv* e, jobject self, jobject a0, jbyte a1, jfloat a2, jchar a3, jbyte a4, jobject a5, jfloat a6, jint a7)
{
  uint64_t hu = 503ULL;
  jobject os[] = {0, a0, a5};
  disturb(e, os, 2, 16);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a7;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jfloat) (jshort) h / 4;
}
static jfloat vj16(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jfloat g;
  if (st) g = e->CallStaticFloatMethodV(c, m, a); else g = e->CallFloatMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jdouble) Java_w_JniSigs_n17(JNIEnv* e, jclass, jobject a0, jobject a1, jlong a2, jint a3, jobject a4, jlong a5, jlong a6)
{
  uint64_t hu = 534ULL;
  jobject os[] = {0, a0, a1, a4};
  disturb(e, os, 3, 17);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jdouble) (jint) h / 32;
}
JN(jdouble) Java_w_JniSigs_v17(JNIEnv* e, jobject self, jobject a0, jobject a1, jlong a2, jint a3, jobject a4, jlong a5, jlong a6)
{
  uint64_t hu = 534ULL;
  jobject os[] = {0, a0, a1, a4};
  disturb(e, os, 3, 17);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jdouble) (jint) h / 32;
}
static jdouble vj17(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jdouble g;
  if (st) g = e->CallStaticDoubleMethodV(c, m, a); else g = e->CallDoubleMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jobject) Java_w_JniSigs_n18(JNIEnv* e, jclass, jobject a0, jlong a1, jlong a2, jshort a3)
{
  uint64_t hu = 565ULL;
  jobject os[] = {0, a0};
  disturb(e, os, 1, 18);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return a0;
}
JN(jobject) Java_w_JniSigs_v18(JNIEnv* e, jobject self, jobject a0, jlong a1, jlong a2, jshort a3)
{
  uint64_t hu = 565ULL;
  jobject os[] = {0, a0};
  disturb(e, os, 1, 18);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return a0;
}
static jobject vj18(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jobject g;
  if (st) g = e->CallStaticObjectMethodV(c, m, a); else g = e->CallObjectMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(void) Java_w_JniSigs_n19(JNIEnv* e, jclass, jdouble a0, jobject a1, jobject a2, jdouble a3, jobject a4, jobject a5, jobject a6, jdouble a7, jobject a8, jobject a9, jdouble a10, jdouble a11, jdouble a12, jobject a13, jobject a14)
{
  uint64_t hu = 596ULL;
  jobject os[] = {0, a1, a2, a4, a5, a6, a8, a9, a13, a14};
  disturb(e, os, 9, 19);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a6);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a10 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a12 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a13);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a14);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return; }
  setLast(e, h);
}
JN(void) Java_w_JniSigs_v19(JNIEnv* e, jobject self, jdouble a0, jobject a1, jobject a2, jdouble a3, jobject a4, jobject a5, jobject a6, jdouble a7, jobject a8, jobject a9, jdouble a10, jdouble a11, jdouble a12, jobject a13, jobject a14)
{
  uint64_t hu = 596ULL;
  jobject os[] = {0, a1, a2, a4, a5, a6, a8, a9, a13, a14};
  disturb(e, os, 9, 19);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a6);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a10 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a12 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a13);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a14);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return; }
  setLast(e, h);
}
static void vj19(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  if (st) e->CallStaticVoidMethodV(c, m, a); else e->CallVoidMethodV(r, m, a);
  va_end(a);
}
JN(jboolean) Java_w_JniSigs_n20(JNIEnv* e, jclass, jfloat a0, jdouble a1, jobject a2, jfloat a3, jfloat a4, jfloat a5, jdouble a6, jobject a7, jfloat a8, jfloat a9, jobject a10, jobject a11, jobject a12, jobject a13, jobject a14, jobject a15, jfloat a16, jobject a17, jfloat a18, jobject a19)
{
  uint64_t hu = 627ULL;
  jobject os[] = {0, a2, a7, a10, a11, a12, a13, a14, a15, a17, a19};
  disturb(e, os, 10, 20);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a8 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a10);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a11);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a13);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a14);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a15);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a16 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a17);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a18 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a19);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jboolean) (h & 1);
}
JN(jboolean) Java_w_JniSigs_v20(JNIEnv* e, jobject self, jfloat a0, jdouble a1, jobject a2, jfloat a3, jfloat a4, jfloat a5, jdouble a6, jobject a7, jfloat a8, jfloat a9, jobject a10, jobject a11, jobject a12, jobject a13, jobject a14, jobject a15, jfloat a16, jobject a17, jfloat a18, jobject a19)
{
  uint64_t hu = 627ULL;
  jobject os[] = {0, a2, a7, a10, a11, a12, a13, a14, a15, a17, a19};
  disturb(e, os, 10, 20);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a8 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a10);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a11);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a13);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a14);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a15);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a16 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a17);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a18 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a19);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jboolean) (h & 1);
}
static jboolean vj20(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jboolean g;
  if (st) g = e->CallStaticBooleanMethodV(c, m, a); else g = e->CallBooleanMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jbyte) Java_w_JniSigs_n21(JNIEnv* e, jclass, jobject a0, jchar a1, jint a2, jchar a3, jobject a4, jlong a5, jboolean a6, jobject a7, jobject a8)
{
  uint64_t hu = 658ULL;
  jobject os[] = {0, a0, a4, a7, a8};
  disturb(e, os, 4, 21);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) (a6 == 1 ? 1 : a6 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jbyte) h;
}
JN(jbyte) Java_w_JniSigs_v21(JNIEnv* e, jobject self, jobject a0, jchar a1, jint a2, jchar a3, jobject a4, jlong a5, jboolean a6, jobject a7, jobject a8)
{
  uint64_t hu = 658ULL;
  jobject os[] = {0, a0, a4, a7, a8};
  disturb(e, os, 4, 21);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) (a6 == 1 ? 1 : a6 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jbyte) h;
}
static jbyte vj21(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jbyte g;
  if (st) g = e->CallStaticByteMethodV(c, m, a); else g = e->CallByteMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jchar) Java_w_JniSigs_n22(JNIEnv* e, jclass, jlong a0, jdouble a1, jint a2, jdouble a3, jint a4, jlong a5, jdouble a6, jdouble a7, jlong a8, jfloat a9, jlong a10, jlong a11)
{
  uint64_t hu = 689ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 22);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) a11;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jchar) h;
}
JN(jchar) Java_w_JniSigs_v22(JNIEnv* e, jobject self, jlong a0, jdouble a1, jint a2, jdouble a3, jint a4, jlong a5, jdouble a6, jdouble a7, jlong a8, jfloat a9, jlong a10, jlong a11)
{
  uint64_t hu = 689ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 22);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jchar) h;
}
static jchar vj22(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jchar g;
  if (st) g = e->CallStaticCharMethodV(c, m, a); else g = e->CallCharMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jshort) Java_w_JniSigs_n23(JNIEnv* e, jclass, jdouble a0, jlong a1, jdouble a2, jdouble a3, jdouble a4, jlong a5, jfloat a6, jdouble a7, jint a8, jint a9, jfloat a10, jdouble a11, jdouble a12, jdouble a13, jlong a14)
{
  uint64_t hu = 720ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 23);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) a9;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a10 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a12 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a13 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a14;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jshort) h;
}
JN(jshort) Java_w_JniSigs_v23(JNIEnv* e, jobject self, jdouble a0, jlong a1, jdouble a2, jdouble a3, jdouble a4, jlong a5, jfloat a6, jdouble a7, jint a8, jint a9, jfloat a10, jdouble a11, jdouble a12, jdouble a13, jlong a14)
{
  uint64_t hu = 720ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 23);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) a9;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a10 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a12 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a13 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a14;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jshort) h;
}
static jshort vj23(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jshort g;
  if (st) g = e->CallStaticShortMethodV(c, m, a); else g = e->CallShortMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jint) Java_w_JniSigs_n24(JNIEnv* e, jclass, jchar a0, jdouble a1, jshort a2, jobject a3, jobject a4, jlong a5, jlong a6, jdouble a7)
{
  uint64_t hu = 751ULL;
  jobject os[] = {0, a3, a4};
  disturb(e, os, 2, 24);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jint) h;
}
JN(jint) Java_w_JniSigs_v24(JNIEnv* e, jobject self, jchar a0, jdouble a1, jshort a2, jobject a3, jobject a4, jlong a5, jlong a6, jdouble a7)
{
  uint64_t hu = 751ULL;
  jobject os[] = {0, a3, a4};
  disturb(e, os, 2, 24);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jint) h;
}
static jint vj24(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jint g;
  if (st) g = e->CallStaticIntMethodV(c, m, a); else g = e->CallIntMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jlong) Java_w_JniSigs_n25(JNIEnv* e, jclass, jdouble a0, jobject a1, jfloat a2)
{
  uint64_t hu = 782ULL;
  jobject os[] = {0, a1};
  disturb(e, os, 1, 25);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return h;
}
JN(jlong) Java_w_JniSigs_v25(JNIEnv* e, jobject self, jdouble a0, jobject a1, jfloat a2)
{
  uint64_t hu = 782ULL;
  jobject os[] = {0, a1};
  disturb(e, os, 1, 25);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return h;
}
static jlong vj25(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jlong g;
  if (st) g = e->CallStaticLongMethodV(c, m, a); else g = e->CallLongMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jfloat) Java_w_JniSigs_n26(JNIEnv* e, jclass, jobject a0, jobject a1, jobject a2, jint a3, jlong a4, jobject a5, jint a6, jint a7, jobject a8)
{
  uint64_t hu = 813ULL;
  jobject os[] = {0, a0, a1, a2, a5, a8};
  disturb(e, os, 5, 26);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) a7;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jfloat) (jshort) h / 4;
}
JN(jfloat) Java_w_JniSigs_v26(JNIEnv* e, jobject self, jobject a0, jobject a1, jobject a2, jint a3, jlong a4, jobject a5, jint a6, jint a7, jobject a8)
{
  uint64_t hu = 813ULL;
  jobject os[] = {0, a0, a1, a2, a5, a8};
  disturb(e, os, 5, 26);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) a7;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jfloat) (jshort) h / 4;
}
static jfloat vj26(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jfloat g;
  if (st) g = e->CallStaticFloatMethodV(c, m, a); else g = e->CallFloatMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jdouble) Java_w_JniSigs_n27(JNIEnv* e, jclass, jobject a0, jobject a1, jdouble a2, jdouble a3, jobject a4, jdouble a5, jfloat a6, jobject a7, jobject a8, jdouble a9)
{
  uint64_t hu = 844ULL;
  jobject os[] = {0, a0, a1, a4, a7, a8};
  disturb(e, os, 5, 27);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 64);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jdouble) (jint) h / 32;
}
JN(jdouble) Java_w_JniSigs_v27(JNIEnv* e, jobject self, jobject a0, jobject a1, jdouble a2, jdouble a3, jobject a4, jdouble a5, jfloat a6, jobject a7, jobject a8, jdouble a9)
{
  uint64_t hu = 844ULL;
  jobject os[] = {0, a0, a1, a4, a7, a8};
  disturb(e, os, 5, 27);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 64);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jdouble) (jint) h / 32;
}
static jdouble vj27(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jdouble g;
  if (st) g = e->CallStaticDoubleMethodV(c, m, a); else g = e->CallDoubleMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jobject) Java_w_JniSigs_n28(JNIEnv* e, jclass, jint a0, jlong a1, jshort a2, jchar a3, jlong a4, jobject a5, jchar a6, jint a7, jobject a8, jdouble a9, jint a10, jint a11, jdouble a12, jshort a13, jbyte a14)
{
  uint64_t hu = 875ULL;
  jobject os[] = {0, a5, a8};
  disturb(e, os, 2, 28);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) a7;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a12 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a13;
  hu = hu * 31 + (uint64_t) (jlong) a14;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return a5;
}
JN(jobject) Java_w_JniSigs_v28(JNIEnv* e, jobject self, jint a0, jlong a1, jshort a2, jchar a3, jlong a4, jobject a5, jchar a6, jint a7, jobject a8, jdouble a9, jint a10, jint a11, jdouble a12, jshort a13, jbyte a14)
{
  uint64_t hu = 875ULL;
  jobject os[] = {0, a5, a8};
  disturb(e, os, 2, 28);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) a7;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a12 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a13;
  hu = hu * 31 + (uint64_t) (jlong) a14;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return a5;
}
static jobject vj28(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jobject g;
  if (st) g = e->CallStaticObjectMethodV(c, m, a); else g = e->CallObjectMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(void) Java_w_JniSigs_n29(JNIEnv* e, jclass, jdouble a0, jint a1, jint a2, jfloat a3, jdouble a4, jint a5, jlong a6)
{
  uint64_t hu = 906ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 29);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return; }
  setLast(e, h);
}
JN(void) Java_w_JniSigs_v29(JNIEnv* e, jobject self, jdouble a0, jint a1, jint a2, jfloat a3, jdouble a4, jint a5, jlong a6)
{
  uint64_t hu = 906ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 29);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return; }
  setLast(e, h);
}
static void vj29(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  if (st) e->CallStaticVoidMethodV(c, m, a); else e->CallVoidMethodV(r, m, a);
  va_end(a);
}
JN(jboolean) Java_w_JniSigs_n30(JNIEnv* e, jclass, jlong a0, jlong a1, jdouble a2, jlong a3, jint a4, jlong a5)
{
  uint64_t hu = 937ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 30);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) a5;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jboolean) (h & 1);
}
JN(jboolean) Java_w_JniSigs_v30(JNIEnv* e, jobject self, jlong a0, jlong a1, jdouble a2, jlong a3, jint a4, jlong a5)
{
  uint64_t hu = 937ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 30);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jboolean) (h & 1);
}
static jboolean vj30(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jboolean g;
  if (st) g = e->CallStaticBooleanMethodV(c, m, a); else g = e->CallBooleanMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jbyte) Java_w_JniSigs_n31(JNIEnv* e, jclass, jint a0, jlong a1, jlong a2, jobject a3, jlong a4, jobject a5, jlong a6)
{
  uint64_t hu = 968ULL;
  jobject os[] = {0, a3, a5};
  disturb(e, os, 2, 31);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jbyte) h;
}
JN(jbyte) Java_w_JniSigs_v31(JNIEnv* e, jobject self, jint a0, jlong a1, jlong a2, jobject a3, jlong a4, jobject a5, jlong a6)
{
  uint64_t hu = 968ULL;
  jobject os[] = {0, a3, a5};
  disturb(e, os, 2, 31);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jbyte) h;
}
static jbyte vj31(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jbyte g;
  if (st) g = e->CallStaticByteMethodV(c, m, a); else g = e->CallByteMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jchar) Java_w_JniSigs_n32(JNIEnv* e, jclass)
{
  uint64_t hu = 999ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 32);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jchar) h;
}
JN(jchar) Java_w_JniSigs_v32(JNIEnv* e, jobject self)
{
  uint64_t hu = 999ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 32);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jchar) h;
}
static jchar vj32(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jchar g;
  if (st) g = e->CallStaticCharMethodV(c, m, a); else g = e->CallCharMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jshort) Java_w_JniSigs_n33(JNIEnv* e, jclass, jdouble a0, jobject a1, jdouble a2, jobject a3)
{
  uint64_t hu = 1030ULL;
  jobject os[] = {0, a1, a3};
  disturb(e, os, 2, 33);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jshort) h;
}
JN(jshort) Java_w_JniSigs_v33(JNIEnv* e, jobject self, jdouble a0, jobject a1, jdouble a2, jobject a3)
{
  uint64_t hu = 1030ULL;
  jobject os[] = {0, a1, a3};
  disturb(e, os, 2, 33);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jshort) h;
}
static jshort vj33(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jshort g;
  if (st) g = e->CallStaticShortMethodV(c, m, a); else g = e->CallShortMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jint) Java_w_JniSigs_n34(JNIEnv* e, jclass, jobject a0, jbyte a1, jfloat a2, jlong a3, jlong a4, jobject a5, jint a6, jobject a7, jbyte a8)
{
  uint64_t hu = 1061ULL;
  jobject os[] = {0, a0, a5, a7};
  disturb(e, os, 3, 34);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jint) h;
}
JN(jint) Java_w_JniSigs_v34(JNIEnv* e, jobject self, jobject a0, jbyte a1, jfloat a2, jlong a3, jlong a4, jobject a5, jint a6, jobject a7, jbyte a8)
{
  uint64_t hu = 1061ULL;
  jobject os[] = {0, a0, a5, a7};
  disturb(e, os, 3, 34);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jint) h;
}
static jint vj34(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jint g;
  if (st) g = e->CallStaticIntMethodV(c, m, a); else g = e->CallIntMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jlong) Java_w_JniSigs_n35(JNIEnv* e, jclass, jfloat a0, jfloat a1, jdouble a2, jobject a3, jfloat a4)
{
  uint64_t hu = 1092ULL;
  jobject os[] = {0, a3};
  disturb(e, os, 1, 35);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 8);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return h;
}
JN(jlong) Java_w_JniSigs_v35(JNIEnv* e, jobject self, jfloat a0, jfloat a1, jdouble a2, jobject a3, jfloat a4)
{
  uint64_t hu = 1092ULL;
  jobject os[] = {0, a3};
  disturb(e, os, 1, 35);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 8);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return h;
}
static jlong vj35(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jlong g;
  if (st) g = e->CallStaticLongMethodV(c, m, a); else g = e->CallLongMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jfloat) Java_w_JniSigs_n36(JNIEnv* e, jclass, jdouble a0, jobject a1)
{
  uint64_t hu = 1123ULL;
  jobject os[] = {0, a1};
  disturb(e, os, 1, 36);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jfloat) (jshort) h / 4;
}
JN(jfloat) Java_w_JniSigs_v36(JNIEnv* e, jobject self, jdouble a0, jobject a1)
{
  uint64_t hu = 1123ULL;
  jobject os[] = {0, a1};
  disturb(e, os, 1, 36);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jfloat) (jshort) h / 4;
}
static jfloat vj36(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jfloat g;
  if (st) g = e->CallStaticFloatMethodV(c, m, a); else g = e->CallFloatMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jdouble) Java_w_JniSigs_n37(JNIEnv* e, jclass, jdouble a0, jfloat a1, jobject a2, jdouble a3)
{
  uint64_t hu = 1154ULL;
  jobject os[] = {0, a2};
  disturb(e, os, 1, 37);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jdouble) (jint) h / 32;
}
JN(jdouble) Java_w_JniSigs_v37(JNIEnv* e, jobject self, jdouble a0, jfloat a1, jobject a2, jdouble a3)
{
  uint64_t hu = 1154ULL;
  jobject os[] = {0, a2};
  disturb(e, os, 1, 37);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jdouble) (jint) h / 32;
}
static jdouble vj37(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jdouble g;
  if (st) g = e->CallStaticDoubleMethodV(c, m, a); else g = e->CallDoubleMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jobject) Java_w_JniSigs_n38(JNIEnv* e, jclass, jchar a0, jlong a1, jfloat a2, jboolean a3, jdouble a4, jobject a5, jbyte a6, jobject a7, jobject a8, jfloat a9, jshort a10, jshort a11, jobject a12, jobject a13, jboolean a14)
{
  uint64_t hu = 1185ULL;
  jobject os[] = {0, a5, a7, a8, a12, a13};
  disturb(e, os, 5, 38);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (a3 == 1 ? 1 : a3 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a13);
  hu = hu * 31 + (uint64_t) (jlong) (a14 == 1 ? 1 : a14 == 0 ? 2 : 77777);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return a5;
}
JN(jobject) Java_w_JniSigs_v38(JNIEnv* e, jobject self, jchar a0, jlong a1, jfloat a2, jboolean a3, jdouble a4, jobject a5, jbyte a6, jobject a7, jobject a8, jfloat a9, jshort a10, jshort a11, jobject a12, jobject a13, jboolean a14)
{
  uint64_t hu = 1185ULL;
  jobject os[] = {0, a5, a7, a8, a12, a13};
  disturb(e, os, 5, 38);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (a3 == 1 ? 1 : a3 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 8);
  hu = hu * 31 + (uint64_t) (jlong) a10;
  hu = hu * 31 + (uint64_t) (jlong) a11;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a13);
  hu = hu * 31 + (uint64_t) (jlong) (a14 == 1 ? 1 : a14 == 0 ? 2 : 77777);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return a5;
}
static jobject vj38(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jobject g;
  if (st) g = e->CallStaticObjectMethodV(c, m, a); else g = e->CallObjectMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(void) Java_w_JniSigs_n39(JNIEnv* e, jclass, jobject a0, jfloat a1, jboolean a2, jbyte a3, jboolean a4, jboolean a5, jlong a6)
{
  uint64_t hu = 1216ULL;
  jobject os[] = {0, a0};
  disturb(e, os, 1, 39);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (a2 == 1 ? 1 : a2 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) (a4 == 1 ? 1 : a4 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) (a5 == 1 ? 1 : a5 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return; }
  setLast(e, h);
}
JN(void) Java_w_JniSigs_v39(JNIEnv* e, jobject self, jobject a0, jfloat a1, jboolean a2, jbyte a3, jboolean a4, jboolean a5, jlong a6)
{
  uint64_t hu = 1216ULL;
  jobject os[] = {0, a0};
  disturb(e, os, 1, 39);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (a2 == 1 ? 1 : a2 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) (a4 == 1 ? 1 : a4 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) (a5 == 1 ? 1 : a5 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return; }
  setLast(e, h);
}
static void vj39(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  if (st) e->CallStaticVoidMethodV(c, m, a); else e->CallVoidMethodV(r, m, a);
  va_end(a);
}
JN(jboolean) Java_w_JniSigs_n40(JNIEnv* e, jclass, jlong a0, jlong a1, jobject a2, jint a3, jint a4, jobject a5, jlong a6)
{
  uint64_t hu = 1247ULL;
  jobject os[] = {0, a2, a5};
  disturb(e, os, 2, 40);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jboolean) (h & 1);
}
JN(jboolean) Java_w_JniSigs_v40(JNIEnv* e, jobject self, jlong a0, jlong a1, jobject a2, jint a3, jint a4, jobject a5, jlong a6)
{
  uint64_t hu = 1247ULL;
  jobject os[] = {0, a2, a5};
  disturb(e, os, 2, 40);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jboolean) (h & 1);
}
static jboolean vj40(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jboolean g;
  if (st) g = e->CallStaticBooleanMethodV(c, m, a); else g = e->CallBooleanMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jbyte) Java_w_JniSigs_n41(JNIEnv* e, jclass, jobject a0, jboolean a1, jobject a2, jobject a3, jobject a4, jchar a5, jchar a6, jobject a7)
{
  uint64_t hu = 1278ULL;
  jobject os[] = {0, a0, a2, a3, a4, a7};
  disturb(e, os, 5, 41);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) (a1 == 1 ? 1 : a1 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jbyte) h;
}
JN(jbyte) Java_w_JniSigs_v41(JNIEnv* e, jobject self, jobject a0, jboolean a1, jobject a2, jobject a3, jobject a4, jchar a5, jchar a6, jobject a7)
{
  uint64_t hu = 1278ULL;
  jobject os[] = {0, a0, a2, a3, a4, a7};
  disturb(e, os, 5, 41);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) (a1 == 1 ? 1 : a1 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jbyte) h;
}
static jbyte vj41(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jbyte g;
  if (st) g = e->CallStaticByteMethodV(c, m, a); else g = e->CallByteMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jchar) Java_w_JniSigs_n42(JNIEnv* e, jclass, jint a0, jlong a1, jint a2, jboolean a3, jobject a4, jobject a5, jbyte a6, jobject a7, jshort a8, jlong a9, jobject a10, jdouble a11, jobject a12, jdouble a13, jshort a14)
{
  uint64_t hu = 1309ULL;
  jobject os[] = {0, a4, a5, a7, a10, a12};
  disturb(e, os, 5, 42);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) (a3 == 1 ? 1 : a3 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) a9;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a10);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a13 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a14;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jchar) h;
}
JN(jchar) Java_w_JniSigs_v42(JNIEnv* e, jobject self, jint a0, jlong a1, jint a2, jboolean a3, jobject a4, jobject a5, jbyte a6, jobject a7, jshort a8, jlong a9, jobject a10, jdouble a11, jobject a12, jdouble a13, jshort a14)
{
  uint64_t hu = 1309ULL;
  jobject os[] = {0, a4, a5, a7, a10, a12};
  disturb(e, os, 5, 42);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) (a3 == 1 ? 1 : a3 == 0 ? 2 : 77777);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
  hu = hu * 31 + (uint64_t) (jlong) a8;
  hu = hu * 31 + (uint64_t) (jlong) a9;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a10);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a13 * 64);
  hu = hu * 31 + (uint64_t) (jlong) a14;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jchar) h;
}
static jchar vj42(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jchar g;
  if (st) g = e->CallStaticCharMethodV(c, m, a); else g = e->CallCharMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jshort) Java_w_JniSigs_n43(JNIEnv* e, jclass, jlong a0)
{
  uint64_t hu = 1340ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 43);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jshort) h;
}
JN(jshort) Java_w_JniSigs_v43(JNIEnv* e, jobject self, jlong a0)
{
  uint64_t hu = 1340ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 43);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jshort) h;
}
static jshort vj43(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jshort g;
  if (st) g = e->CallStaticShortMethodV(c, m, a); else g = e->CallShortMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jint) Java_w_JniSigs_n44(JNIEnv* e, jclass, jobject a0, jlong a1, jobject a2, jlong a3, jint a4, jlong a5, jint a6)
{
  uint64_t hu = 1371ULL;
  jobject os[] = {0, a0, a2};
  disturb(e, os, 2, 44);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jint) h;
}
JN(jint) Java_w_JniSigs_v44(JNIEnv* e, jobject self, jobject a0, jlong a1, jobject a2, jlong a3, jint a4, jlong a5, jint a6)
{
  uint64_t hu = 1371ULL;
  jobject os[] = {0, a0, a2};
  disturb(e, os, 2, 44);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu = hu * 31 + (uint64_t) (jlong) a4;
  hu = hu * 31 + (uint64_t) (jlong) a5;
  hu = hu * 31 + (uint64_t) (jlong) a6;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jint) h;
}
static jint vj44(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jint g;
  if (st) g = e->CallStaticIntMethodV(c, m, a); else g = e->CallIntMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jlong) Java_w_JniSigs_n45(JNIEnv* e, jclass, jint a0)
{
  uint64_t hu = 1402ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 45);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return h;
}
JN(jlong) Java_w_JniSigs_v45(JNIEnv* e, jobject self, jint a0)
{
  uint64_t hu = 1402ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 45);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return h;
}
static jlong vj45(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jlong g;
  if (st) g = e->CallStaticLongMethodV(c, m, a); else g = e->CallLongMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jfloat) Java_w_JniSigs_n46(JNIEnv* e, jclass, jint a0, jint a1, jint a2, jlong a3)
{
  uint64_t hu = 1433ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 46);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jfloat) (jshort) h / 4;
}
JN(jfloat) Java_w_JniSigs_v46(JNIEnv* e, jobject self, jint a0, jint a1, jint a2, jlong a3)
{
  uint64_t hu = 1433ULL;
  jobject os[] = {0};
  disturb(e, os, 0, 46);
  hu = hu * 31 + (uint64_t) (jlong) a0;
  hu = hu * 31 + (uint64_t) (jlong) a1;
  hu = hu * 31 + (uint64_t) (jlong) a2;
  hu = hu * 31 + (uint64_t) (jlong) a3;
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jfloat) (jshort) h / 4;
}
static jfloat vj46(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jfloat g;
  if (st) g = e->CallStaticFloatMethodV(c, m, a); else g = e->CallFloatMethodV(r, m, a);
  va_end(a);
  return g;
}
JN(jdouble) Java_w_JniSigs_n47(JNIEnv* e, jclass, jfloat a0, jfloat a1, jfloat a2, jfloat a3, jobject a4)
{
  uint64_t hu = 1464ULL;
  jobject os[] = {0, a4};
  disturb(e, os, 1, 47);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jdouble) (jint) h / 32;
}
JN(jdouble) Java_w_JniSigs_v47(JNIEnv* e, jobject self, jfloat a0, jfloat a1, jfloat a2, jfloat a3, jobject a4)
{
  uint64_t hu = 1464ULL;
  jobject os[] = {0, a4};
  disturb(e, os, 1, 47);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
  hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
  hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
  hu += (uint64_t) sid(e, self) * 7;
  jlong h = (jlong) hu;
  if ((h & 63) == 5) { toss(e, h); return 0; }
  return (jdouble) (jint) h / 32;
}
static jdouble vj47(JNIEnv* e, int st, jobject r, jclass c, jmethodID m, ...)
{
  va_list a;
  va_start(a, m);
  jdouble g;
  if (st) g = e->CallStaticDoubleMethodV(c, m, a); else g = e->CallDoubleMethodV(r, m, a);
  va_end(a);
  return g;
}
static void backCall(JNIEnv* e, int k, int w, int q, jobject r, jclass c, jobject* o)
{
  switch (k) {
  case 0: {
    jvalue av[1];
    memset(av, 0x5a, sizeof av);
    uint64_t hu = 7ULL;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 0, true, "s0", "()Z"), mj = method(e, c, 1, false, "j0", "()Z");
    if (!ms || !mj) break;
    if (w == 0) {
      jboolean g = e->CallStaticBooleanMethod(c, ms);
      if (!thrown(e, hs, 0) && g != (jboolean) (hs & 1)) wrong(0, 0, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 1) {
      jboolean g = e->CallStaticBooleanMethodA(c, ms, av);
      if (!thrown(e, hs, 0) && g != (jboolean) (hs & 1)) wrong(0, 1, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 2) {
      jboolean g = vj0(e, 1, 0, c, ms);
      if (!thrown(e, hs, 0) && g != (jboolean) (hs & 1)) wrong(0, 2, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 3) {
      jboolean g = e->CallBooleanMethod(r, mj);
      if (!thrown(e, hj, 0) && g != (jboolean) (hj & 1)) wrong(0, 3, (double) g, (double) ((jboolean) (hj & 1)));
    }
    if (w == 4) {
      jboolean g = e->CallBooleanMethodA(r, mj, av);
      if (!thrown(e, hj, 0) && g != (jboolean) (hj & 1)) wrong(0, 4, (double) g, (double) ((jboolean) (hj & 1)));
    }
    if (w == 5) {
      jboolean g = vj0(e, 0, r, c, mj);
      if (!thrown(e, hj, 0) && g != (jboolean) (hj & 1)) wrong(0, 5, (double) g, (double) ((jboolean) (hj & 1)));
    }
    break;
  }
  case 1: {
    jfloat a0 = (jfloat) (jshort) x(q, 0) / 8;
    jfloat a1 = (jfloat) (jshort) x(q, 1) / 8;
    jfloat a2 = (jfloat) (jshort) x(q, 2) / 8;
    jfloat a3 = (jfloat) (jshort) x(q, 3) / 8;
    jdouble a4 = (jdouble) (jint) x(q, 4) / 64;
    jdouble a5 = (jdouble) (jint) x(q, 5) / 64;
    jvalue av[6];
    memset(av, 0x5a, sizeof av);
    av[0].f = a0;
    av[1].f = a1;
    av[2].f = a2;
    av[3].f = a3;
    av[4].d = a4;
    av[5].d = a5;
    uint64_t hu = 38ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 64);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 2, true, "s1", "(FFFFDD)B"), mj = method(e, c, 3, false, "j1", "(FFFFDD)B");
    if (!ms || !mj) break;
    if (w == 0) {
      jbyte g = e->CallStaticByteMethod(c, ms, a0, a1, a2, a3, a4, a5);
      if (!thrown(e, hs, 1) && g != (jbyte) hs) wrong(1, 0, (double) g, (double) ((jbyte) hs));
    }
    if (w == 1) {
      jbyte g = e->CallStaticByteMethodA(c, ms, av);
      if (!thrown(e, hs, 1) && g != (jbyte) hs) wrong(1, 1, (double) g, (double) ((jbyte) hs));
    }
    if (w == 2) {
      jbyte g = vj1(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5);
      if (!thrown(e, hs, 1) && g != (jbyte) hs) wrong(1, 2, (double) g, (double) ((jbyte) hs));
    }
    if (w == 3) {
      jbyte g = e->CallByteMethod(r, mj, a0, a1, a2, a3, a4, a5);
      if (!thrown(e, hj, 1) && g != (jbyte) hj) wrong(1, 3, (double) g, (double) ((jbyte) hj));
    }
    if (w == 4) {
      jbyte g = e->CallByteMethodA(r, mj, av);
      if (!thrown(e, hj, 1) && g != (jbyte) hj) wrong(1, 4, (double) g, (double) ((jbyte) hj));
    }
    if (w == 5) {
      jbyte g = vj1(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5);
      if (!thrown(e, hj, 1) && g != (jbyte) hj) wrong(1, 5, (double) g, (double) ((jbyte) hj));
    }
    break;
  }
  case 2: {
    jfloat a0 = (jfloat) (jshort) x(q, 0) / 8;
    jfloat a1 = (jfloat) (jshort) x(q, 1) / 8;
    jdouble a2 = (jdouble) (jint) x(q, 2) / 64;
    jint a3 = (jint) x(q, 3);
    jdouble a4 = (jdouble) (jint) x(q, 4) / 64;
    jlong a5 = (jlong) ((uint64_t) x(q, 5) * 2654435761ULL);
    jfloat a6 = (jfloat) (jshort) x(q, 6) / 8;
    jvalue av[7];
    memset(av, 0x5a, sizeof av);
    av[0].f = a0;
    av[1].f = a1;
    av[2].d = a2;
    av[3].i = a3;
    av[4].d = a4;
    av[5].j = a5;
    av[6].f = a6;
    uint64_t hu = 69ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 4, true, "s2", "(FFDIDJF)C"), mj = method(e, c, 5, false, "j2", "(FFDIDJF)C");
    if (!ms || !mj) break;
    if (w == 0) {
      jchar g = e->CallStaticCharMethod(c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 2) && g != (jchar) hs) wrong(2, 0, (double) g, (double) ((jchar) hs));
    }
    if (w == 1) {
      jchar g = e->CallStaticCharMethodA(c, ms, av);
      if (!thrown(e, hs, 2) && g != (jchar) hs) wrong(2, 1, (double) g, (double) ((jchar) hs));
    }
    if (w == 2) {
      jchar g = vj2(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 2) && g != (jchar) hs) wrong(2, 2, (double) g, (double) ((jchar) hs));
    }
    if (w == 3) {
      jchar g = e->CallCharMethod(r, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 2) && g != (jchar) hj) wrong(2, 3, (double) g, (double) ((jchar) hj));
    }
    if (w == 4) {
      jchar g = e->CallCharMethodA(r, mj, av);
      if (!thrown(e, hj, 2) && g != (jchar) hj) wrong(2, 4, (double) g, (double) ((jchar) hj));
    }
    if (w == 5) {
      jchar g = vj2(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 2) && g != (jchar) hj) wrong(2, 5, (double) g, (double) ((jchar) hj));
    }
    break;
  }
  case 3: {
    jobject a0 = o[x(q, 0) & 3];
    jfloat a1 = (jfloat) (jshort) x(q, 1) / 8;
    jchar a2 = (jchar) x(q, 2);
    jlong a3 = (jlong) ((uint64_t) x(q, 3) * 2654435761ULL);
    jlong a4 = (jlong) ((uint64_t) x(q, 4) * 2654435761ULL);
    jbyte a5 = (jbyte) x(q, 5);
    jbyte a6 = (jbyte) x(q, 6);
    jobject a7 = o[x(q, 7) & 3];
    jint a8 = (jint) x(q, 8);
    jobject a9 = o[x(q, 9) & 3];
    jdouble a10 = (jdouble) (jint) x(q, 10) / 64;
    jshort a11 = (jshort) x(q, 11);
    jshort a12 = (jshort) x(q, 12);
    jshort a13 = (jshort) x(q, 13);
    jbyte a14 = (jbyte) x(q, 14);
    jbyte a15 = (jbyte) x(q, 15);
    jshort a16 = (jshort) x(q, 16);
    jobject a17 = o[x(q, 17) & 3];
    jdouble a18 = (jdouble) (jint) x(q, 18) / 64;
    jobject a19 = o[x(q, 19) & 3];
    jobject a20 = o[x(q, 20) & 3];
    jbyte a21 = (jbyte) x(q, 21);
    jvalue av[22];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].f = a1;
    av[2].c = a2;
    av[3].j = a3;
    av[4].j = a4;
    av[5].b = a5;
    av[6].b = a6;
    av[7].l = a7;
    av[8].i = a8;
    av[9].l = a9;
    av[10].d = a10;
    av[11].s = a11;
    av[12].s = a12;
    av[13].s = a13;
    av[14].b = a14;
    av[15].b = a15;
    av[16].s = a16;
    av[17].l = a17;
    av[18].d = a18;
    av[19].l = a19;
    av[20].l = a20;
    av[21].b = a21;
    uint64_t hu = 100ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
    hu = hu * 31 + (uint64_t) (jlong) a8;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a10 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a11;
    hu = hu * 31 + (uint64_t) (jlong) a12;
    hu = hu * 31 + (uint64_t) (jlong) a13;
    hu = hu * 31 + (uint64_t) (jlong) a14;
    hu = hu * 31 + (uint64_t) (jlong) a15;
    hu = hu * 31 + (uint64_t) (jlong) a16;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a17);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a18 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a19);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a20);
    hu = hu * 31 + (uint64_t) (jlong) a21;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 6, true, "s3", "(Lw/JnO;FCJJBBLw/JnO;ILw/JnO;DSSSBBSLw/JnO;DLw/JnO;Lw/JnO;B)S"), mj = method(e, c, 7, false, "j3", "(Lw/JnO;FCJJBBLw/JnO;ILw/JnO;DSSSBBSLw/JnO;DLw/JnO;Lw/JnO;B)S");
    if (!ms || !mj) break;
    if (w == 0) {
      jshort g = e->CallStaticShortMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21);
      if (!thrown(e, hs, 3) && g != (jshort) hs) wrong(3, 0, (double) g, (double) ((jshort) hs));
    }
    if (w == 1) {
      jshort g = e->CallStaticShortMethodA(c, ms, av);
      if (!thrown(e, hs, 3) && g != (jshort) hs) wrong(3, 1, (double) g, (double) ((jshort) hs));
    }
    if (w == 2) {
      jshort g = vj3(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21);
      if (!thrown(e, hs, 3) && g != (jshort) hs) wrong(3, 2, (double) g, (double) ((jshort) hs));
    }
    if (w == 3) {
      jshort g = e->CallShortMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21);
      if (!thrown(e, hj, 3) && g != (jshort) hj) wrong(3, 3, (double) g, (double) ((jshort) hj));
    }
    if (w == 4) {
      jshort g = e->CallShortMethodA(r, mj, av);
      if (!thrown(e, hj, 3) && g != (jshort) hj) wrong(3, 4, (double) g, (double) ((jshort) hj));
    }
    if (w == 5) {
      jshort g = vj3(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21);
      if (!thrown(e, hj, 3) && g != (jshort) hj) wrong(3, 5, (double) g, (double) ((jshort) hj));
    }
    break;
  }
  case 4: {
    jlong a0 = (jlong) ((uint64_t) x(q, 0) * 2654435761ULL);
    jvalue av[1];
    memset(av, 0x5a, sizeof av);
    av[0].j = a0;
    uint64_t hu = 131ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 8, true, "s4", "(J)I"), mj = method(e, c, 9, false, "j4", "(J)I");
    if (!ms || !mj) break;
    if (w == 0) {
      jint g = e->CallStaticIntMethod(c, ms, a0);
      if (!thrown(e, hs, 4) && g != (jint) hs) wrong(4, 0, (double) g, (double) ((jint) hs));
    }
    if (w == 1) {
      jint g = e->CallStaticIntMethodA(c, ms, av);
      if (!thrown(e, hs, 4) && g != (jint) hs) wrong(4, 1, (double) g, (double) ((jint) hs));
    }
    if (w == 2) {
      jint g = vj4(e, 1, 0, c, ms, a0);
      if (!thrown(e, hs, 4) && g != (jint) hs) wrong(4, 2, (double) g, (double) ((jint) hs));
    }
    if (w == 3) {
      jint g = e->CallIntMethod(r, mj, a0);
      if (!thrown(e, hj, 4) && g != (jint) hj) wrong(4, 3, (double) g, (double) ((jint) hj));
    }
    if (w == 4) {
      jint g = e->CallIntMethodA(r, mj, av);
      if (!thrown(e, hj, 4) && g != (jint) hj) wrong(4, 4, (double) g, (double) ((jint) hj));
    }
    if (w == 5) {
      jint g = vj4(e, 0, r, c, mj, a0);
      if (!thrown(e, hj, 4) && g != (jint) hj) wrong(4, 5, (double) g, (double) ((jint) hj));
    }
    break;
  }
  case 5: {
    jbyte a0 = (jbyte) x(q, 0);
    jobject a1 = o[x(q, 1) & 3];
    jdouble a2 = (jdouble) (jint) x(q, 2) / 64;
    jbyte a3 = (jbyte) x(q, 3);
    jobject a4 = o[x(q, 4) & 3];
    jbyte a5 = (jbyte) x(q, 5);
    jint a6 = (jint) x(q, 6);
    jdouble a7 = (jdouble) (jint) x(q, 7) / 64;
    jobject a8 = o[x(q, 8) & 3];
    jobject a9 = o[x(q, 9) & 3];
    jbyte a10 = (jbyte) x(q, 10);
    jlong a11 = (jlong) ((uint64_t) x(q, 11) * 2654435761ULL);
    jobject a12 = o[x(q, 12) & 3];
    jboolean a13 = (jboolean) ((x(q, 13) & 1) != 0);
    jfloat a14 = (jfloat) (jshort) x(q, 14) / 8;
    jobject a15 = o[x(q, 15) & 3];
    jobject a16 = o[x(q, 16) & 3];
    jobject a17 = o[x(q, 17) & 3];
    jshort a18 = (jshort) x(q, 18);
    jshort a19 = (jshort) x(q, 19);
    jvalue av[20];
    memset(av, 0x5a, sizeof av);
    av[0].b = a0;
    av[1].l = a1;
    av[2].d = a2;
    av[3].b = a3;
    av[4].l = a4;
    av[5].b = a5;
    av[6].i = a6;
    av[7].d = a7;
    av[8].l = a8;
    av[9].l = a9;
    av[10].b = a10;
    av[11].j = a11;
    av[12].l = a12;
    av[13].z = a13;
    av[14].f = a14;
    av[15].l = a15;
    av[16].l = a16;
    av[17].l = a17;
    av[18].s = a18;
    av[19].s = a19;
    uint64_t hu = 162ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
    hu = hu * 31 + (uint64_t) (jlong) a10;
    hu = hu * 31 + (uint64_t) (jlong) a11;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
    hu = hu * 31 + (uint64_t) (jlong) (a13 == 1 ? 1 : a13 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a14 * 8);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a15);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a16);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a17);
    hu = hu * 31 + (uint64_t) (jlong) a18;
    hu = hu * 31 + (uint64_t) (jlong) a19;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 10, true, "s5", "(BLw/JnO;DBLw/JnO;BIDLw/JnO;Lw/JnO;BJLw/JnO;ZFLw/JnO;Lw/JnO;Lw/JnO;SS)J"), mj = method(e, c, 11, false, "j5", "(BLw/JnO;DBLw/JnO;BIDLw/JnO;Lw/JnO;BJLw/JnO;ZFLw/JnO;Lw/JnO;Lw/JnO;SS)J");
    if (!ms || !mj) break;
    if (w == 0) {
      jlong g = e->CallStaticLongMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hs, 5) && g != hs) wrong(5, 0, (double) g, (double) (hs));
    }
    if (w == 1) {
      jlong g = e->CallStaticLongMethodA(c, ms, av);
      if (!thrown(e, hs, 5) && g != hs) wrong(5, 1, (double) g, (double) (hs));
    }
    if (w == 2) {
      jlong g = vj5(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hs, 5) && g != hs) wrong(5, 2, (double) g, (double) (hs));
    }
    if (w == 3) {
      jlong g = e->CallLongMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hj, 5) && g != hj) wrong(5, 3, (double) g, (double) (hj));
    }
    if (w == 4) {
      jlong g = e->CallLongMethodA(r, mj, av);
      if (!thrown(e, hj, 5) && g != hj) wrong(5, 4, (double) g, (double) (hj));
    }
    if (w == 5) {
      jlong g = vj5(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hj, 5) && g != hj) wrong(5, 5, (double) g, (double) (hj));
    }
    break;
  }
  case 6: {
    jlong a0 = (jlong) ((uint64_t) x(q, 0) * 2654435761ULL);
    jobject a1 = o[x(q, 1) & 3];
    jint a2 = (jint) x(q, 2);
    jlong a3 = (jlong) ((uint64_t) x(q, 3) * 2654435761ULL);
    jint a4 = (jint) x(q, 4);
    jint a5 = (jint) x(q, 5);
    jint a6 = (jint) x(q, 6);
    jlong a7 = (jlong) ((uint64_t) x(q, 7) * 2654435761ULL);
    jobject a8 = o[x(q, 8) & 3];
    jvalue av[9];
    memset(av, 0x5a, sizeof av);
    av[0].j = a0;
    av[1].l = a1;
    av[2].i = a2;
    av[3].j = a3;
    av[4].i = a4;
    av[5].i = a5;
    av[6].i = a6;
    av[7].j = a7;
    av[8].l = a8;
    uint64_t hu = 193ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) a7;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 12, true, "s6", "(JLw/JnO;IJIIIJLw/JnO;)F"), mj = method(e, c, 13, false, "j6", "(JLw/JnO;IJIIIJLw/JnO;)F");
    if (!ms || !mj) break;
    if (w == 0) {
      jfloat g = e->CallStaticFloatMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hs, 6) && g != (jfloat) (jshort) hs / 4) wrong(6, 0, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 1) {
      jfloat g = e->CallStaticFloatMethodA(c, ms, av);
      if (!thrown(e, hs, 6) && g != (jfloat) (jshort) hs / 4) wrong(6, 1, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 2) {
      jfloat g = vj6(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hs, 6) && g != (jfloat) (jshort) hs / 4) wrong(6, 2, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 3) {
      jfloat g = e->CallFloatMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hj, 6) && g != (jfloat) (jshort) hj / 4) wrong(6, 3, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    if (w == 4) {
      jfloat g = e->CallFloatMethodA(r, mj, av);
      if (!thrown(e, hj, 6) && g != (jfloat) (jshort) hj / 4) wrong(6, 4, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    if (w == 5) {
      jfloat g = vj6(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hj, 6) && g != (jfloat) (jshort) hj / 4) wrong(6, 5, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    break;
  }
  case 7: {
    jvalue av[1];
    memset(av, 0x5a, sizeof av);
    uint64_t hu = 224ULL;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 14, true, "s7", "()D"), mj = method(e, c, 15, false, "j7", "()D");
    if (!ms || !mj) break;
    if (w == 0) {
      jdouble g = e->CallStaticDoubleMethod(c, ms);
      if (!thrown(e, hs, 7) && g != (jdouble) (jint) hs / 32) wrong(7, 0, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 1) {
      jdouble g = e->CallStaticDoubleMethodA(c, ms, av);
      if (!thrown(e, hs, 7) && g != (jdouble) (jint) hs / 32) wrong(7, 1, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 2) {
      jdouble g = vj7(e, 1, 0, c, ms);
      if (!thrown(e, hs, 7) && g != (jdouble) (jint) hs / 32) wrong(7, 2, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 3) {
      jdouble g = e->CallDoubleMethod(r, mj);
      if (!thrown(e, hj, 7) && g != (jdouble) (jint) hj / 32) wrong(7, 3, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    if (w == 4) {
      jdouble g = e->CallDoubleMethodA(r, mj, av);
      if (!thrown(e, hj, 7) && g != (jdouble) (jint) hj / 32) wrong(7, 4, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    if (w == 5) {
      jdouble g = vj7(e, 0, r, c, mj);
      if (!thrown(e, hj, 7) && g != (jdouble) (jint) hj / 32) wrong(7, 5, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    break;
  }
  case 8: {
    jint a0 = (jint) x(q, 0);
    jlong a1 = (jlong) ((uint64_t) x(q, 1) * 2654435761ULL);
    jobject a2 = o[x(q, 2) & 3];
    jobject a3 = o[x(q, 3) & 3];
    jobject a4 = o[x(q, 4) & 3];
    jlong a5 = (jlong) ((uint64_t) x(q, 5) * 2654435761ULL);
    jint a6 = (jint) x(q, 6);
    jobject a7 = o[x(q, 7) & 3];
    jlong a8 = (jlong) ((uint64_t) x(q, 8) * 2654435761ULL);
    jobject a9 = o[x(q, 9) & 3];
    jobject a10 = o[x(q, 10) & 3];
    jint a11 = (jint) x(q, 11);
    jint a12 = (jint) x(q, 12);
    jlong a13 = (jlong) ((uint64_t) x(q, 13) * 2654435761ULL);
    jobject a14 = o[x(q, 14) & 3];
    jvalue av[15];
    memset(av, 0x5a, sizeof av);
    av[0].i = a0;
    av[1].j = a1;
    av[2].l = a2;
    av[3].l = a3;
    av[4].l = a4;
    av[5].j = a5;
    av[6].i = a6;
    av[7].l = a7;
    av[8].j = a8;
    av[9].l = a9;
    av[10].l = a10;
    av[11].i = a11;
    av[12].i = a12;
    av[13].j = a13;
    av[14].l = a14;
    uint64_t hu = 255ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
    hu = hu * 31 + (uint64_t) (jlong) a8;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a10);
    hu = hu * 31 + (uint64_t) (jlong) a11;
    hu = hu * 31 + (uint64_t) (jlong) a12;
    hu = hu * 31 + (uint64_t) (jlong) a13;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a14);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 16, true, "s8", "(IJLw/JnO;Lw/JnO;Lw/JnO;JILw/JnO;JLw/JnO;Lw/JnO;IIJLw/JnO;)Lw/JnO;"), mj = method(e, c, 17, false, "j8", "(IJLw/JnO;Lw/JnO;Lw/JnO;JILw/JnO;JLw/JnO;Lw/JnO;IIJLw/JnO;)Lw/JnO;");
    if (!ms || !mj) break;
    if (w == 0) {
      jobject g = e->CallStaticObjectMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 8)) sameObject(e, g, a2, 8);
    }
    if (w == 1) {
      jobject g = e->CallStaticObjectMethodA(c, ms, av);
      if (!thrown(e, hs, 8)) sameObject(e, g, a2, 8);
    }
    if (w == 2) {
      jobject g = vj8(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 8)) sameObject(e, g, a2, 8);
    }
    if (w == 3) {
      jobject g = e->CallObjectMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 8)) sameObject(e, g, a2, 8);
    }
    if (w == 4) {
      jobject g = e->CallObjectMethodA(r, mj, av);
      if (!thrown(e, hj, 8)) sameObject(e, g, a2, 8);
    }
    if (w == 5) {
      jobject g = vj8(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 8)) sameObject(e, g, a2, 8);
    }
    break;
  }
  case 9: {
    jdouble a0 = (jdouble) (jint) x(q, 0) / 64;
    jvalue av[1];
    memset(av, 0x5a, sizeof av);
    av[0].d = a0;
    uint64_t hu = 286ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 18, true, "s9", "(D)V"), mj = method(e, c, 19, false, "j9", "(D)V");
    if (!ms || !mj) break;
    if (w == 0) {
      e->CallStaticVoidMethod(c, ms, a0);
      if (!thrown(e, hs, 9)) checkLast(e, hs, 9);
    }
    if (w == 1) {
      e->CallStaticVoidMethodA(c, ms, av);
      if (!thrown(e, hs, 9)) checkLast(e, hs, 9);
    }
    if (w == 2) {
      vj9(e, 1, 0, c, ms, a0);
      if (!thrown(e, hs, 9)) checkLast(e, hs, 9);
    }
    if (w == 3) {
      e->CallVoidMethod(r, mj, a0);
      if (!thrown(e, hj, 9)) checkLast(e, hj, 9);
    }
    if (w == 4) {
      e->CallVoidMethodA(r, mj, av);
      if (!thrown(e, hj, 9)) checkLast(e, hj, 9);
    }
    if (w == 5) {
      vj9(e, 0, r, c, mj, a0);
      if (!thrown(e, hj, 9)) checkLast(e, hj, 9);
    }
    break;
  }
  case 10: {
    jobject a0 = o[x(q, 0) & 3];
    jint a1 = (jint) x(q, 1);
    jint a2 = (jint) x(q, 2);
    jlong a3 = (jlong) ((uint64_t) x(q, 3) * 2654435761ULL);
    jint a4 = (jint) x(q, 4);
    jvalue av[5];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].i = a1;
    av[2].i = a2;
    av[3].j = a3;
    av[4].i = a4;
    uint64_t hu = 317ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) a4;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 20, true, "s10", "(Lw/JnO;IIJI)Z"), mj = method(e, c, 21, false, "j10", "(Lw/JnO;IIJI)Z");
    if (!ms || !mj) break;
    if (w == 0) {
      jboolean g = e->CallStaticBooleanMethod(c, ms, a0, a1, a2, a3, a4);
      if (!thrown(e, hs, 10) && g != (jboolean) (hs & 1)) wrong(10, 0, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 1) {
      jboolean g = e->CallStaticBooleanMethodA(c, ms, av);
      if (!thrown(e, hs, 10) && g != (jboolean) (hs & 1)) wrong(10, 1, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 2) {
      jboolean g = vj10(e, 1, 0, c, ms, a0, a1, a2, a3, a4);
      if (!thrown(e, hs, 10) && g != (jboolean) (hs & 1)) wrong(10, 2, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 3) {
      jboolean g = e->CallBooleanMethod(r, mj, a0, a1, a2, a3, a4);
      if (!thrown(e, hj, 10) && g != (jboolean) (hj & 1)) wrong(10, 3, (double) g, (double) ((jboolean) (hj & 1)));
    }
    if (w == 4) {
      jboolean g = e->CallBooleanMethodA(r, mj, av);
      if (!thrown(e, hj, 10) && g != (jboolean) (hj & 1)) wrong(10, 4, (double) g, (double) ((jboolean) (hj & 1)));
    }
    if (w == 5) {
      jboolean g = vj10(e, 0, r, c, mj, a0, a1, a2, a3, a4);
      if (!thrown(e, hj, 10) && g != (jboolean) (hj & 1)) wrong(10, 5, (double) g, (double) ((jboolean) (hj & 1)));
    }
    break;
  }
  case 11: {
    jboolean a0 = (jboolean) ((x(q, 0) & 1) != 0);
    jshort a1 = (jshort) x(q, 1);
    jbyte a2 = (jbyte) x(q, 2);
    jobject a3 = o[x(q, 3) & 3];
    jdouble a4 = (jdouble) (jint) x(q, 4) / 64;
    jbyte a5 = (jbyte) x(q, 5);
    jfloat a6 = (jfloat) (jshort) x(q, 6) / 8;
    jdouble a7 = (jdouble) (jint) x(q, 7) / 64;
    jbyte a8 = (jbyte) x(q, 8);
    jchar a9 = (jchar) x(q, 9);
    jshort a10 = (jshort) x(q, 10);
    jint a11 = (jint) x(q, 11);
    jshort a12 = (jshort) x(q, 12);
    jbyte a13 = (jbyte) x(q, 13);
    jchar a14 = (jchar) x(q, 14);
    jvalue av[15];
    memset(av, 0x5a, sizeof av);
    av[0].z = a0;
    av[1].s = a1;
    av[2].b = a2;
    av[3].l = a3;
    av[4].d = a4;
    av[5].b = a5;
    av[6].f = a6;
    av[7].d = a7;
    av[8].b = a8;
    av[9].c = a9;
    av[10].s = a10;
    av[11].i = a11;
    av[12].s = a12;
    av[13].b = a13;
    av[14].c = a14;
    uint64_t hu = 348ULL;
    hu = hu * 31 + (uint64_t) (jlong) (a0 == 1 ? 1 : a0 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a8;
    hu = hu * 31 + (uint64_t) (jlong) a9;
    hu = hu * 31 + (uint64_t) (jlong) a10;
    hu = hu * 31 + (uint64_t) (jlong) a11;
    hu = hu * 31 + (uint64_t) (jlong) a12;
    hu = hu * 31 + (uint64_t) (jlong) a13;
    hu = hu * 31 + (uint64_t) (jlong) a14;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 22, true, "s11", "(ZSBLw/JnO;DBFDBCSISBC)B"), mj = method(e, c, 23, false, "j11", "(ZSBLw/JnO;DBFDBCSISBC)B");
    if (!ms || !mj) break;
    if (w == 0) {
      jbyte g = e->CallStaticByteMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 11) && g != (jbyte) hs) wrong(11, 0, (double) g, (double) ((jbyte) hs));
    }
    if (w == 1) {
      jbyte g = e->CallStaticByteMethodA(c, ms, av);
      if (!thrown(e, hs, 11) && g != (jbyte) hs) wrong(11, 1, (double) g, (double) ((jbyte) hs));
    }
    if (w == 2) {
      jbyte g = vj11(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 11) && g != (jbyte) hs) wrong(11, 2, (double) g, (double) ((jbyte) hs));
    }
    if (w == 3) {
      jbyte g = e->CallByteMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 11) && g != (jbyte) hj) wrong(11, 3, (double) g, (double) ((jbyte) hj));
    }
    if (w == 4) {
      jbyte g = e->CallByteMethodA(r, mj, av);
      if (!thrown(e, hj, 11) && g != (jbyte) hj) wrong(11, 4, (double) g, (double) ((jbyte) hj));
    }
    if (w == 5) {
      jbyte g = vj11(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 11) && g != (jbyte) hj) wrong(11, 5, (double) g, (double) ((jbyte) hj));
    }
    break;
  }
  case 12: {
    jboolean a0 = (jboolean) ((x(q, 0) & 1) != 0);
    jboolean a1 = (jboolean) ((x(q, 1) & 1) != 0);
    jvalue av[2];
    memset(av, 0x5a, sizeof av);
    av[0].z = a0;
    av[1].z = a1;
    uint64_t hu = 379ULL;
    hu = hu * 31 + (uint64_t) (jlong) (a0 == 1 ? 1 : a0 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) (a1 == 1 ? 1 : a1 == 0 ? 2 : 77777);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 24, true, "s12", "(ZZ)C"), mj = method(e, c, 25, false, "j12", "(ZZ)C");
    if (!ms || !mj) break;
    if (w == 0) {
      jchar g = e->CallStaticCharMethod(c, ms, a0, a1);
      if (!thrown(e, hs, 12) && g != (jchar) hs) wrong(12, 0, (double) g, (double) ((jchar) hs));
    }
    if (w == 1) {
      jchar g = e->CallStaticCharMethodA(c, ms, av);
      if (!thrown(e, hs, 12) && g != (jchar) hs) wrong(12, 1, (double) g, (double) ((jchar) hs));
    }
    if (w == 2) {
      jchar g = vj12(e, 1, 0, c, ms, a0, a1);
      if (!thrown(e, hs, 12) && g != (jchar) hs) wrong(12, 2, (double) g, (double) ((jchar) hs));
    }
    if (w == 3) {
      jchar g = e->CallCharMethod(r, mj, a0, a1);
      if (!thrown(e, hj, 12) && g != (jchar) hj) wrong(12, 3, (double) g, (double) ((jchar) hj));
    }
    if (w == 4) {
      jchar g = e->CallCharMethodA(r, mj, av);
      if (!thrown(e, hj, 12) && g != (jchar) hj) wrong(12, 4, (double) g, (double) ((jchar) hj));
    }
    if (w == 5) {
      jchar g = vj12(e, 0, r, c, mj, a0, a1);
      if (!thrown(e, hj, 12) && g != (jchar) hj) wrong(12, 5, (double) g, (double) ((jchar) hj));
    }
    break;
  }
  case 13: {
    jobject a0 = o[x(q, 0) & 3];
    jobject a1 = o[x(q, 1) & 3];
    jfloat a2 = (jfloat) (jshort) x(q, 2) / 8;
    jobject a3 = o[x(q, 3) & 3];
    jobject a4 = o[x(q, 4) & 3];
    jfloat a5 = (jfloat) (jshort) x(q, 5) / 8;
    jdouble a6 = (jdouble) (jint) x(q, 6) / 64;
    jobject a7 = o[x(q, 7) & 3];
    jint a8 = (jint) x(q, 8);
    jobject a9 = o[x(q, 9) & 3];
    jbyte a10 = (jbyte) x(q, 10);
    jdouble a11 = (jdouble) (jint) x(q, 11) / 64;
    jobject a12 = o[x(q, 12) & 3];
    jfloat a13 = (jfloat) (jshort) x(q, 13) / 8;
    jint a14 = (jint) x(q, 14);
    jobject a15 = o[x(q, 15) & 3];
    jint a16 = (jint) x(q, 16);
    jint a17 = (jint) x(q, 17);
    jdouble a18 = (jdouble) (jint) x(q, 18) / 64;
    jshort a19 = (jshort) x(q, 19);
    jvalue av[20];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].l = a1;
    av[2].f = a2;
    av[3].l = a3;
    av[4].l = a4;
    av[5].f = a5;
    av[6].d = a6;
    av[7].l = a7;
    av[8].i = a8;
    av[9].l = a9;
    av[10].b = a10;
    av[11].d = a11;
    av[12].l = a12;
    av[13].f = a13;
    av[14].i = a14;
    av[15].l = a15;
    av[16].i = a16;
    av[17].i = a17;
    av[18].d = a18;
    av[19].s = a19;
    uint64_t hu = 410ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
    hu = hu * 31 + (uint64_t) (jlong) a8;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
    hu = hu * 31 + (uint64_t) (jlong) a10;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a13 * 8);
    hu = hu * 31 + (uint64_t) (jlong) a14;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a15);
    hu = hu * 31 + (uint64_t) (jlong) a16;
    hu = hu * 31 + (uint64_t) (jlong) a17;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a18 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a19;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 26, true, "s13", "(Lw/JnO;Lw/JnO;FLw/JnO;Lw/JnO;FDLw/JnO;ILw/JnO;BDLw/JnO;FILw/JnO;IIDS)S"), mj = method(e, c, 27, false, "j13", "(Lw/JnO;Lw/JnO;FLw/JnO;Lw/JnO;FDLw/JnO;ILw/JnO;BDLw/JnO;FILw/JnO;IIDS)S");
    if (!ms || !mj) break;
    if (w == 0) {
      jshort g = e->CallStaticShortMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hs, 13) && g != (jshort) hs) wrong(13, 0, (double) g, (double) ((jshort) hs));
    }
    if (w == 1) {
      jshort g = e->CallStaticShortMethodA(c, ms, av);
      if (!thrown(e, hs, 13) && g != (jshort) hs) wrong(13, 1, (double) g, (double) ((jshort) hs));
    }
    if (w == 2) {
      jshort g = vj13(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hs, 13) && g != (jshort) hs) wrong(13, 2, (double) g, (double) ((jshort) hs));
    }
    if (w == 3) {
      jshort g = e->CallShortMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hj, 13) && g != (jshort) hj) wrong(13, 3, (double) g, (double) ((jshort) hj));
    }
    if (w == 4) {
      jshort g = e->CallShortMethodA(r, mj, av);
      if (!thrown(e, hj, 13) && g != (jshort) hj) wrong(13, 4, (double) g, (double) ((jshort) hj));
    }
    if (w == 5) {
      jshort g = vj13(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hj, 13) && g != (jshort) hj) wrong(13, 5, (double) g, (double) ((jshort) hj));
    }
    break;
  }
  case 14: {
    jvalue av[1];
    memset(av, 0x5a, sizeof av);
    uint64_t hu = 441ULL;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 28, true, "s14", "()I"), mj = method(e, c, 29, false, "j14", "()I");
    if (!ms || !mj) break;
    if (w == 0) {
      jint g = e->CallStaticIntMethod(c, ms);
      if (!thrown(e, hs, 14) && g != (jint) hs) wrong(14, 0, (double) g, (double) ((jint) hs));
    }
    if (w == 1) {
      jint g = e->CallStaticIntMethodA(c, ms, av);
      if (!thrown(e, hs, 14) && g != (jint) hs) wrong(14, 1, (double) g, (double) ((jint) hs));
    }
    if (w == 2) {
      jint g = vj14(e, 1, 0, c, ms);
      if (!thrown(e, hs, 14) && g != (jint) hs) wrong(14, 2, (double) g, (double) ((jint) hs));
    }
    if (w == 3) {
      jint g = e->CallIntMethod(r, mj);
      if (!thrown(e, hj, 14) && g != (jint) hj) wrong(14, 3, (double) g, (double) ((jint) hj));
    }
    if (w == 4) {
      jint g = e->CallIntMethodA(r, mj, av);
      if (!thrown(e, hj, 14) && g != (jint) hj) wrong(14, 4, (double) g, (double) ((jint) hj));
    }
    if (w == 5) {
      jint g = vj14(e, 0, r, c, mj);
      if (!thrown(e, hj, 14) && g != (jint) hj) wrong(14, 5, (double) g, (double) ((jint) hj));
    }
    break;
  }
  case 15: {
    jboolean a0 = (jboolean) ((x(q, 0) & 1) != 0);
    jboolean a1 = (jboolean) ((x(q, 1) & 1) != 0);
    jchar a2 = (jchar) x(q, 2);
    jboolean a3 = (jboolean) ((x(q, 3) & 1) != 0);
    jbyte a4 = (jbyte) x(q, 4);
    jobject a5 = o[x(q, 5) & 3];
    jbyte a6 = (jbyte) x(q, 6);
    jvalue av[7];
    memset(av, 0x5a, sizeof av);
    av[0].z = a0;
    av[1].z = a1;
    av[2].c = a2;
    av[3].z = a3;
    av[4].b = a4;
    av[5].l = a5;
    av[6].b = a6;
    uint64_t hu = 472ULL;
    hu = hu * 31 + (uint64_t) (jlong) (a0 == 1 ? 1 : a0 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) (a1 == 1 ? 1 : a1 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) (a3 == 1 ? 1 : a3 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
    hu = hu * 31 + (uint64_t) (jlong) a6;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 30, true, "s15", "(ZZCZBLw/JnO;B)J"), mj = method(e, c, 31, false, "j15", "(ZZCZBLw/JnO;B)J");
    if (!ms || !mj) break;
    if (w == 0) {
      jlong g = e->CallStaticLongMethod(c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 15) && g != hs) wrong(15, 0, (double) g, (double) (hs));
    }
    if (w == 1) {
      jlong g = e->CallStaticLongMethodA(c, ms, av);
      if (!thrown(e, hs, 15) && g != hs) wrong(15, 1, (double) g, (double) (hs));
    }
    if (w == 2) {
      jlong g = vj15(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 15) && g != hs) wrong(15, 2, (double) g, (double) (hs));
    }
    if (w == 3) {
      jlong g = e->CallLongMethod(r, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 15) && g != hj) wrong(15, 3, (double) g, (double) (hj));
    }
    if (w == 4) {
      jlong g = e->CallLongMethodA(r, mj, av);
      if (!thrown(e, hj, 15) && g != hj) wrong(15, 4, (double) g, (double) (hj));
    }
    if (w == 5) {
      jlong g = vj15(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 15) && g != hj) wrong(15, 5, (double) g, (double) (hj));
    }
    break;
  }
  case 16: {
    jobject a0 = o[x(q, 0) & 3];
    jbyte a1 = (jbyte) x(q, 1);
    jfloat a2 = (jfloat) (jshort) x(q, 2) / 8;
    jchar a3 = (jchar) x(q, 3);
    jbyte a4 = (jbyte) x(q, 4);
    jobject a5 = o[x(q, 5) & 3];
    jfloat a6 = (jfloat) (jshort) x(q, 6) / 8;
    jint a7 = (jint) x(q, 7);
    jvalue av[8];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].b = a1;
    av[2].f = a2;
    av[3].c = a3;
    av[4].b = a4;
    av[5].l = a5;
    av[6].f = a6;
    av[7].i = a7;
    uint64_t hu = 503ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
    hu = hu * 31 + (uint64_t) (jlong) a7;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 32, true, "s16", "(Lw/JnO;BFCBLw/JnO;FI)F"), mj = method(e, c, 33, false, "j16", "(Lw/JnO;BFCBLw/JnO;FI)F");
    if (!ms || !mj) break;
    if (w == 0) {
      jfloat g = e->CallStaticFloatMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hs, 16) && g != (jfloat) (jshort) hs / 4) wrong(16, 0, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 1) {
      jfloat g = e->CallStaticFloatMethodA(c, ms, av);
      if (!thrown(e, hs, 16) && g != (jfloat) (jshort) hs / 4) wrong(16, 1, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 2) {
      jfloat g = vj16(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hs, 16) && g != (jfloat) (jshort) hs / 4) wrong(16, 2, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 3) {
      jfloat g = e->CallFloatMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hj, 16) && g != (jfloat) (jshort) hj / 4) wrong(16, 3, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    if (w == 4) {
      jfloat g = e->CallFloatMethodA(r, mj, av);
      if (!thrown(e, hj, 16) && g != (jfloat) (jshort) hj / 4) wrong(16, 4, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    if (w == 5) {
      jfloat g = vj16(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hj, 16) && g != (jfloat) (jshort) hj / 4) wrong(16, 5, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    break;
  }
  case 17: {
    jobject a0 = o[x(q, 0) & 3];
    jobject a1 = o[x(q, 1) & 3];
    jlong a2 = (jlong) ((uint64_t) x(q, 2) * 2654435761ULL);
    jint a3 = (jint) x(q, 3);
    jobject a4 = o[x(q, 4) & 3];
    jlong a5 = (jlong) ((uint64_t) x(q, 5) * 2654435761ULL);
    jlong a6 = (jlong) ((uint64_t) x(q, 6) * 2654435761ULL);
    jvalue av[7];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].l = a1;
    av[2].j = a2;
    av[3].i = a3;
    av[4].l = a4;
    av[5].j = a5;
    av[6].j = a6;
    uint64_t hu = 534ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) a6;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 34, true, "s17", "(Lw/JnO;Lw/JnO;JILw/JnO;JJ)D"), mj = method(e, c, 35, false, "j17", "(Lw/JnO;Lw/JnO;JILw/JnO;JJ)D");
    if (!ms || !mj) break;
    if (w == 0) {
      jdouble g = e->CallStaticDoubleMethod(c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 17) && g != (jdouble) (jint) hs / 32) wrong(17, 0, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 1) {
      jdouble g = e->CallStaticDoubleMethodA(c, ms, av);
      if (!thrown(e, hs, 17) && g != (jdouble) (jint) hs / 32) wrong(17, 1, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 2) {
      jdouble g = vj17(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 17) && g != (jdouble) (jint) hs / 32) wrong(17, 2, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 3) {
      jdouble g = e->CallDoubleMethod(r, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 17) && g != (jdouble) (jint) hj / 32) wrong(17, 3, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    if (w == 4) {
      jdouble g = e->CallDoubleMethodA(r, mj, av);
      if (!thrown(e, hj, 17) && g != (jdouble) (jint) hj / 32) wrong(17, 4, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    if (w == 5) {
      jdouble g = vj17(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 17) && g != (jdouble) (jint) hj / 32) wrong(17, 5, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    break;
  }
  case 18: {
    jobject a0 = o[x(q, 0) & 3];
    jlong a1 = (jlong) ((uint64_t) x(q, 1) * 2654435761ULL);
    jlong a2 = (jlong) ((uint64_t) x(q, 2) * 2654435761ULL);
    jshort a3 = (jshort) x(q, 3);
    jvalue av[4];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].j = a1;
    av[2].j = a2;
    av[3].s = a3;
    uint64_t hu = 565ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) a3;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 36, true, "s18", "(Lw/JnO;JJS)Lw/JnO;"), mj = method(e, c, 37, false, "j18", "(Lw/JnO;JJS)Lw/JnO;");
    if (!ms || !mj) break;
    if (w == 0) {
      jobject g = e->CallStaticObjectMethod(c, ms, a0, a1, a2, a3);
      if (!thrown(e, hs, 18)) sameObject(e, g, a0, 18);
    }
    if (w == 1) {
      jobject g = e->CallStaticObjectMethodA(c, ms, av);
      if (!thrown(e, hs, 18)) sameObject(e, g, a0, 18);
    }
    if (w == 2) {
      jobject g = vj18(e, 1, 0, c, ms, a0, a1, a2, a3);
      if (!thrown(e, hs, 18)) sameObject(e, g, a0, 18);
    }
    if (w == 3) {
      jobject g = e->CallObjectMethod(r, mj, a0, a1, a2, a3);
      if (!thrown(e, hj, 18)) sameObject(e, g, a0, 18);
    }
    if (w == 4) {
      jobject g = e->CallObjectMethodA(r, mj, av);
      if (!thrown(e, hj, 18)) sameObject(e, g, a0, 18);
    }
    if (w == 5) {
      jobject g = vj18(e, 0, r, c, mj, a0, a1, a2, a3);
      if (!thrown(e, hj, 18)) sameObject(e, g, a0, 18);
    }
    break;
  }
  case 19: {
    jdouble a0 = (jdouble) (jint) x(q, 0) / 64;
    jobject a1 = o[x(q, 1) & 3];
    jobject a2 = o[x(q, 2) & 3];
    jdouble a3 = (jdouble) (jint) x(q, 3) / 64;
    jobject a4 = o[x(q, 4) & 3];
    jobject a5 = o[x(q, 5) & 3];
    jobject a6 = o[x(q, 6) & 3];
    jdouble a7 = (jdouble) (jint) x(q, 7) / 64;
    jobject a8 = o[x(q, 8) & 3];
    jobject a9 = o[x(q, 9) & 3];
    jdouble a10 = (jdouble) (jint) x(q, 10) / 64;
    jdouble a11 = (jdouble) (jint) x(q, 11) / 64;
    jdouble a12 = (jdouble) (jint) x(q, 12) / 64;
    jobject a13 = o[x(q, 13) & 3];
    jobject a14 = o[x(q, 14) & 3];
    jvalue av[15];
    memset(av, 0x5a, sizeof av);
    av[0].d = a0;
    av[1].l = a1;
    av[2].l = a2;
    av[3].d = a3;
    av[4].l = a4;
    av[5].l = a5;
    av[6].l = a6;
    av[7].d = a7;
    av[8].l = a8;
    av[9].l = a9;
    av[10].d = a10;
    av[11].d = a11;
    av[12].d = a12;
    av[13].l = a13;
    av[14].l = a14;
    uint64_t hu = 596ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a6);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a9);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a10 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a12 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a13);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a14);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 38, true, "s19", "(DLw/JnO;Lw/JnO;DLw/JnO;Lw/JnO;Lw/JnO;DLw/JnO;Lw/JnO;DDDLw/JnO;Lw/JnO;)V"), mj = method(e, c, 39, false, "j19", "(DLw/JnO;Lw/JnO;DLw/JnO;Lw/JnO;Lw/JnO;DLw/JnO;Lw/JnO;DDDLw/JnO;Lw/JnO;)V");
    if (!ms || !mj) break;
    if (w == 0) {
      e->CallStaticVoidMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 19)) checkLast(e, hs, 19);
    }
    if (w == 1) {
      e->CallStaticVoidMethodA(c, ms, av);
      if (!thrown(e, hs, 19)) checkLast(e, hs, 19);
    }
    if (w == 2) {
      vj19(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 19)) checkLast(e, hs, 19);
    }
    if (w == 3) {
      e->CallVoidMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 19)) checkLast(e, hj, 19);
    }
    if (w == 4) {
      e->CallVoidMethodA(r, mj, av);
      if (!thrown(e, hj, 19)) checkLast(e, hj, 19);
    }
    if (w == 5) {
      vj19(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 19)) checkLast(e, hj, 19);
    }
    break;
  }
  case 20: {
    jfloat a0 = (jfloat) (jshort) x(q, 0) / 8;
    jdouble a1 = (jdouble) (jint) x(q, 1) / 64;
    jobject a2 = o[x(q, 2) & 3];
    jfloat a3 = (jfloat) (jshort) x(q, 3) / 8;
    jfloat a4 = (jfloat) (jshort) x(q, 4) / 8;
    jfloat a5 = (jfloat) (jshort) x(q, 5) / 8;
    jdouble a6 = (jdouble) (jint) x(q, 6) / 64;
    jobject a7 = o[x(q, 7) & 3];
    jfloat a8 = (jfloat) (jshort) x(q, 8) / 8;
    jfloat a9 = (jfloat) (jshort) x(q, 9) / 8;
    jobject a10 = o[x(q, 10) & 3];
    jobject a11 = o[x(q, 11) & 3];
    jobject a12 = o[x(q, 12) & 3];
    jobject a13 = o[x(q, 13) & 3];
    jobject a14 = o[x(q, 14) & 3];
    jobject a15 = o[x(q, 15) & 3];
    jfloat a16 = (jfloat) (jshort) x(q, 16) / 8;
    jobject a17 = o[x(q, 17) & 3];
    jfloat a18 = (jfloat) (jshort) x(q, 18) / 8;
    jobject a19 = o[x(q, 19) & 3];
    jvalue av[20];
    memset(av, 0x5a, sizeof av);
    av[0].f = a0;
    av[1].d = a1;
    av[2].l = a2;
    av[3].f = a3;
    av[4].f = a4;
    av[5].f = a5;
    av[6].d = a6;
    av[7].l = a7;
    av[8].f = a8;
    av[9].f = a9;
    av[10].l = a10;
    av[11].l = a11;
    av[12].l = a12;
    av[13].l = a13;
    av[14].l = a14;
    av[15].l = a15;
    av[16].f = a16;
    av[17].l = a17;
    av[18].f = a18;
    av[19].l = a19;
    uint64_t hu = 627ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a8 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 8);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a10);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a11);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a13);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a14);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a15);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a16 * 8);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a17);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a18 * 8);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a19);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 40, true, "s20", "(FDLw/JnO;FFFDLw/JnO;FFLw/JnO;Lw/JnO;Lw/JnO;Lw/JnO;Lw/JnO;Lw/JnO;FLw/JnO;FLw/JnO;)Z"), mj = method(e, c, 41, false, "j20", "(FDLw/JnO;FFFDLw/JnO;FFLw/JnO;Lw/JnO;Lw/JnO;Lw/JnO;Lw/JnO;Lw/JnO;FLw/JnO;FLw/JnO;)Z");
    if (!ms || !mj) break;
    if (w == 0) {
      jboolean g = e->CallStaticBooleanMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hs, 20) && g != (jboolean) (hs & 1)) wrong(20, 0, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 1) {
      jboolean g = e->CallStaticBooleanMethodA(c, ms, av);
      if (!thrown(e, hs, 20) && g != (jboolean) (hs & 1)) wrong(20, 1, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 2) {
      jboolean g = vj20(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hs, 20) && g != (jboolean) (hs & 1)) wrong(20, 2, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 3) {
      jboolean g = e->CallBooleanMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hj, 20) && g != (jboolean) (hj & 1)) wrong(20, 3, (double) g, (double) ((jboolean) (hj & 1)));
    }
    if (w == 4) {
      jboolean g = e->CallBooleanMethodA(r, mj, av);
      if (!thrown(e, hj, 20) && g != (jboolean) (hj & 1)) wrong(20, 4, (double) g, (double) ((jboolean) (hj & 1)));
    }
    if (w == 5) {
      jboolean g = vj20(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19);
      if (!thrown(e, hj, 20) && g != (jboolean) (hj & 1)) wrong(20, 5, (double) g, (double) ((jboolean) (hj & 1)));
    }
    break;
  }
  case 21: {
    jobject a0 = o[x(q, 0) & 3];
    jchar a1 = (jchar) x(q, 1);
    jint a2 = (jint) x(q, 2);
    jchar a3 = (jchar) x(q, 3);
    jobject a4 = o[x(q, 4) & 3];
    jlong a5 = (jlong) ((uint64_t) x(q, 5) * 2654435761ULL);
    jboolean a6 = (jboolean) ((x(q, 6) & 1) != 0);
    jobject a7 = o[x(q, 7) & 3];
    jobject a8 = o[x(q, 8) & 3];
    jvalue av[9];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].c = a1;
    av[2].i = a2;
    av[3].c = a3;
    av[4].l = a4;
    av[5].j = a5;
    av[6].z = a6;
    av[7].l = a7;
    av[8].l = a8;
    uint64_t hu = 658ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) (a6 == 1 ? 1 : a6 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 42, true, "s21", "(Lw/JnO;CICLw/JnO;JZLw/JnO;Lw/JnO;)B"), mj = method(e, c, 43, false, "j21", "(Lw/JnO;CICLw/JnO;JZLw/JnO;Lw/JnO;)B");
    if (!ms || !mj) break;
    if (w == 0) {
      jbyte g = e->CallStaticByteMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hs, 21) && g != (jbyte) hs) wrong(21, 0, (double) g, (double) ((jbyte) hs));
    }
    if (w == 1) {
      jbyte g = e->CallStaticByteMethodA(c, ms, av);
      if (!thrown(e, hs, 21) && g != (jbyte) hs) wrong(21, 1, (double) g, (double) ((jbyte) hs));
    }
    if (w == 2) {
      jbyte g = vj21(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hs, 21) && g != (jbyte) hs) wrong(21, 2, (double) g, (double) ((jbyte) hs));
    }
    if (w == 3) {
      jbyte g = e->CallByteMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hj, 21) && g != (jbyte) hj) wrong(21, 3, (double) g, (double) ((jbyte) hj));
    }
    if (w == 4) {
      jbyte g = e->CallByteMethodA(r, mj, av);
      if (!thrown(e, hj, 21) && g != (jbyte) hj) wrong(21, 4, (double) g, (double) ((jbyte) hj));
    }
    if (w == 5) {
      jbyte g = vj21(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hj, 21) && g != (jbyte) hj) wrong(21, 5, (double) g, (double) ((jbyte) hj));
    }
    break;
  }
  case 22: {
    jlong a0 = (jlong) ((uint64_t) x(q, 0) * 2654435761ULL);
    jdouble a1 = (jdouble) (jint) x(q, 1) / 64;
    jint a2 = (jint) x(q, 2);
    jdouble a3 = (jdouble) (jint) x(q, 3) / 64;
    jint a4 = (jint) x(q, 4);
    jlong a5 = (jlong) ((uint64_t) x(q, 5) * 2654435761ULL);
    jdouble a6 = (jdouble) (jint) x(q, 6) / 64;
    jdouble a7 = (jdouble) (jint) x(q, 7) / 64;
    jlong a8 = (jlong) ((uint64_t) x(q, 8) * 2654435761ULL);
    jfloat a9 = (jfloat) (jshort) x(q, 9) / 8;
    jlong a10 = (jlong) ((uint64_t) x(q, 10) * 2654435761ULL);
    jlong a11 = (jlong) ((uint64_t) x(q, 11) * 2654435761ULL);
    jvalue av[12];
    memset(av, 0x5a, sizeof av);
    av[0].j = a0;
    av[1].d = a1;
    av[2].i = a2;
    av[3].d = a3;
    av[4].i = a4;
    av[5].j = a5;
    av[6].d = a6;
    av[7].d = a7;
    av[8].j = a8;
    av[9].f = a9;
    av[10].j = a10;
    av[11].j = a11;
    uint64_t hu = 689ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a8;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 8);
    hu = hu * 31 + (uint64_t) (jlong) a10;
    hu = hu * 31 + (uint64_t) (jlong) a11;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 44, true, "s22", "(JDIDIJDDJFJJ)C"), mj = method(e, c, 45, false, "j22", "(JDIDIJDDJFJJ)C");
    if (!ms || !mj) break;
    if (w == 0) {
      jchar g = e->CallStaticCharMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
      if (!thrown(e, hs, 22) && g != (jchar) hs) wrong(22, 0, (double) g, (double) ((jchar) hs));
    }
    if (w == 1) {
      jchar g = e->CallStaticCharMethodA(c, ms, av);
      if (!thrown(e, hs, 22) && g != (jchar) hs) wrong(22, 1, (double) g, (double) ((jchar) hs));
    }
    if (w == 2) {
      jchar g = vj22(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
      if (!thrown(e, hs, 22) && g != (jchar) hs) wrong(22, 2, (double) g, (double) ((jchar) hs));
    }
    if (w == 3) {
      jchar g = e->CallCharMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
      if (!thrown(e, hj, 22) && g != (jchar) hj) wrong(22, 3, (double) g, (double) ((jchar) hj));
    }
    if (w == 4) {
      jchar g = e->CallCharMethodA(r, mj, av);
      if (!thrown(e, hj, 22) && g != (jchar) hj) wrong(22, 4, (double) g, (double) ((jchar) hj));
    }
    if (w == 5) {
      jchar g = vj22(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
      if (!thrown(e, hj, 22) && g != (jchar) hj) wrong(22, 5, (double) g, (double) ((jchar) hj));
    }
    break;
  }
  case 23: {
    jdouble a0 = (jdouble) (jint) x(q, 0) / 64;
    jlong a1 = (jlong) ((uint64_t) x(q, 1) * 2654435761ULL);
    jdouble a2 = (jdouble) (jint) x(q, 2) / 64;
    jdouble a3 = (jdouble) (jint) x(q, 3) / 64;
    jdouble a4 = (jdouble) (jint) x(q, 4) / 64;
    jlong a5 = (jlong) ((uint64_t) x(q, 5) * 2654435761ULL);
    jfloat a6 = (jfloat) (jshort) x(q, 6) / 8;
    jdouble a7 = (jdouble) (jint) x(q, 7) / 64;
    jint a8 = (jint) x(q, 8);
    jint a9 = (jint) x(q, 9);
    jfloat a10 = (jfloat) (jshort) x(q, 10) / 8;
    jdouble a11 = (jdouble) (jint) x(q, 11) / 64;
    jdouble a12 = (jdouble) (jint) x(q, 12) / 64;
    jdouble a13 = (jdouble) (jint) x(q, 13) / 64;
    jlong a14 = (jlong) ((uint64_t) x(q, 14) * 2654435761ULL);
    jvalue av[15];
    memset(av, 0x5a, sizeof av);
    av[0].d = a0;
    av[1].j = a1;
    av[2].d = a2;
    av[3].d = a3;
    av[4].d = a4;
    av[5].j = a5;
    av[6].f = a6;
    av[7].d = a7;
    av[8].i = a8;
    av[9].i = a9;
    av[10].f = a10;
    av[11].d = a11;
    av[12].d = a12;
    av[13].d = a13;
    av[14].j = a14;
    uint64_t hu = 720ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a8;
    hu = hu * 31 + (uint64_t) (jlong) a9;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a10 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a12 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a13 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a14;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 46, true, "s23", "(DJDDDJFDIIFDDDJ)S"), mj = method(e, c, 47, false, "j23", "(DJDDDJFDIIFDDDJ)S");
    if (!ms || !mj) break;
    if (w == 0) {
      jshort g = e->CallStaticShortMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 23) && g != (jshort) hs) wrong(23, 0, (double) g, (double) ((jshort) hs));
    }
    if (w == 1) {
      jshort g = e->CallStaticShortMethodA(c, ms, av);
      if (!thrown(e, hs, 23) && g != (jshort) hs) wrong(23, 1, (double) g, (double) ((jshort) hs));
    }
    if (w == 2) {
      jshort g = vj23(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 23) && g != (jshort) hs) wrong(23, 2, (double) g, (double) ((jshort) hs));
    }
    if (w == 3) {
      jshort g = e->CallShortMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 23) && g != (jshort) hj) wrong(23, 3, (double) g, (double) ((jshort) hj));
    }
    if (w == 4) {
      jshort g = e->CallShortMethodA(r, mj, av);
      if (!thrown(e, hj, 23) && g != (jshort) hj) wrong(23, 4, (double) g, (double) ((jshort) hj));
    }
    if (w == 5) {
      jshort g = vj23(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 23) && g != (jshort) hj) wrong(23, 5, (double) g, (double) ((jshort) hj));
    }
    break;
  }
  case 24: {
    jchar a0 = (jchar) x(q, 0);
    jdouble a1 = (jdouble) (jint) x(q, 1) / 64;
    jshort a2 = (jshort) x(q, 2);
    jobject a3 = o[x(q, 3) & 3];
    jobject a4 = o[x(q, 4) & 3];
    jlong a5 = (jlong) ((uint64_t) x(q, 5) * 2654435761ULL);
    jlong a6 = (jlong) ((uint64_t) x(q, 6) * 2654435761ULL);
    jdouble a7 = (jdouble) (jint) x(q, 7) / 64;
    jvalue av[8];
    memset(av, 0x5a, sizeof av);
    av[0].c = a0;
    av[1].d = a1;
    av[2].s = a2;
    av[3].l = a3;
    av[4].l = a4;
    av[5].j = a5;
    av[6].j = a6;
    av[7].d = a7;
    uint64_t hu = 751ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a7 * 64);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 48, true, "s24", "(CDSLw/JnO;Lw/JnO;JJD)I"), mj = method(e, c, 49, false, "j24", "(CDSLw/JnO;Lw/JnO;JJD)I");
    if (!ms || !mj) break;
    if (w == 0) {
      jint g = e->CallStaticIntMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hs, 24) && g != (jint) hs) wrong(24, 0, (double) g, (double) ((jint) hs));
    }
    if (w == 1) {
      jint g = e->CallStaticIntMethodA(c, ms, av);
      if (!thrown(e, hs, 24) && g != (jint) hs) wrong(24, 1, (double) g, (double) ((jint) hs));
    }
    if (w == 2) {
      jint g = vj24(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hs, 24) && g != (jint) hs) wrong(24, 2, (double) g, (double) ((jint) hs));
    }
    if (w == 3) {
      jint g = e->CallIntMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hj, 24) && g != (jint) hj) wrong(24, 3, (double) g, (double) ((jint) hj));
    }
    if (w == 4) {
      jint g = e->CallIntMethodA(r, mj, av);
      if (!thrown(e, hj, 24) && g != (jint) hj) wrong(24, 4, (double) g, (double) ((jint) hj));
    }
    if (w == 5) {
      jint g = vj24(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hj, 24) && g != (jint) hj) wrong(24, 5, (double) g, (double) ((jint) hj));
    }
    break;
  }
  case 25: {
    jdouble a0 = (jdouble) (jint) x(q, 0) / 64;
    jobject a1 = o[x(q, 1) & 3];
    jfloat a2 = (jfloat) (jshort) x(q, 2) / 8;
    jvalue av[3];
    memset(av, 0x5a, sizeof av);
    av[0].d = a0;
    av[1].l = a1;
    av[2].f = a2;
    uint64_t hu = 782ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 50, true, "s25", "(DLw/JnO;F)J"), mj = method(e, c, 51, false, "j25", "(DLw/JnO;F)J");
    if (!ms || !mj) break;
    if (w == 0) {
      jlong g = e->CallStaticLongMethod(c, ms, a0, a1, a2);
      if (!thrown(e, hs, 25) && g != hs) wrong(25, 0, (double) g, (double) (hs));
    }
    if (w == 1) {
      jlong g = e->CallStaticLongMethodA(c, ms, av);
      if (!thrown(e, hs, 25) && g != hs) wrong(25, 1, (double) g, (double) (hs));
    }
    if (w == 2) {
      jlong g = vj25(e, 1, 0, c, ms, a0, a1, a2);
      if (!thrown(e, hs, 25) && g != hs) wrong(25, 2, (double) g, (double) (hs));
    }
    if (w == 3) {
      jlong g = e->CallLongMethod(r, mj, a0, a1, a2);
      if (!thrown(e, hj, 25) && g != hj) wrong(25, 3, (double) g, (double) (hj));
    }
    if (w == 4) {
      jlong g = e->CallLongMethodA(r, mj, av);
      if (!thrown(e, hj, 25) && g != hj) wrong(25, 4, (double) g, (double) (hj));
    }
    if (w == 5) {
      jlong g = vj25(e, 0, r, c, mj, a0, a1, a2);
      if (!thrown(e, hj, 25) && g != hj) wrong(25, 5, (double) g, (double) (hj));
    }
    break;
  }
  case 26: {
    jobject a0 = o[x(q, 0) & 3];
    jobject a1 = o[x(q, 1) & 3];
    jobject a2 = o[x(q, 2) & 3];
    jint a3 = (jint) x(q, 3);
    jlong a4 = (jlong) ((uint64_t) x(q, 4) * 2654435761ULL);
    jobject a5 = o[x(q, 5) & 3];
    jint a6 = (jint) x(q, 6);
    jint a7 = (jint) x(q, 7);
    jobject a8 = o[x(q, 8) & 3];
    jvalue av[9];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].l = a1;
    av[2].l = a2;
    av[3].i = a3;
    av[4].j = a4;
    av[5].l = a5;
    av[6].i = a6;
    av[7].i = a7;
    av[8].l = a8;
    uint64_t hu = 813ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) a7;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 52, true, "s26", "(Lw/JnO;Lw/JnO;Lw/JnO;IJLw/JnO;IILw/JnO;)F"), mj = method(e, c, 53, false, "j26", "(Lw/JnO;Lw/JnO;Lw/JnO;IJLw/JnO;IILw/JnO;)F");
    if (!ms || !mj) break;
    if (w == 0) {
      jfloat g = e->CallStaticFloatMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hs, 26) && g != (jfloat) (jshort) hs / 4) wrong(26, 0, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 1) {
      jfloat g = e->CallStaticFloatMethodA(c, ms, av);
      if (!thrown(e, hs, 26) && g != (jfloat) (jshort) hs / 4) wrong(26, 1, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 2) {
      jfloat g = vj26(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hs, 26) && g != (jfloat) (jshort) hs / 4) wrong(26, 2, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 3) {
      jfloat g = e->CallFloatMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hj, 26) && g != (jfloat) (jshort) hj / 4) wrong(26, 3, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    if (w == 4) {
      jfloat g = e->CallFloatMethodA(r, mj, av);
      if (!thrown(e, hj, 26) && g != (jfloat) (jshort) hj / 4) wrong(26, 4, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    if (w == 5) {
      jfloat g = vj26(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hj, 26) && g != (jfloat) (jshort) hj / 4) wrong(26, 5, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    break;
  }
  case 27: {
    jobject a0 = o[x(q, 0) & 3];
    jobject a1 = o[x(q, 1) & 3];
    jdouble a2 = (jdouble) (jint) x(q, 2) / 64;
    jdouble a3 = (jdouble) (jint) x(q, 3) / 64;
    jobject a4 = o[x(q, 4) & 3];
    jdouble a5 = (jdouble) (jint) x(q, 5) / 64;
    jfloat a6 = (jfloat) (jshort) x(q, 6) / 8;
    jobject a7 = o[x(q, 7) & 3];
    jobject a8 = o[x(q, 8) & 3];
    jdouble a9 = (jdouble) (jint) x(q, 9) / 64;
    jvalue av[10];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].l = a1;
    av[2].d = a2;
    av[3].d = a3;
    av[4].l = a4;
    av[5].d = a5;
    av[6].f = a6;
    av[7].l = a7;
    av[8].l = a8;
    av[9].d = a9;
    uint64_t hu = 844ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a5 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a6 * 8);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 64);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 54, true, "s27", "(Lw/JnO;Lw/JnO;DDLw/JnO;DFLw/JnO;Lw/JnO;D)D"), mj = method(e, c, 55, false, "j27", "(Lw/JnO;Lw/JnO;DDLw/JnO;DFLw/JnO;Lw/JnO;D)D");
    if (!ms || !mj) break;
    if (w == 0) {
      jdouble g = e->CallStaticDoubleMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
      if (!thrown(e, hs, 27) && g != (jdouble) (jint) hs / 32) wrong(27, 0, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 1) {
      jdouble g = e->CallStaticDoubleMethodA(c, ms, av);
      if (!thrown(e, hs, 27) && g != (jdouble) (jint) hs / 32) wrong(27, 1, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 2) {
      jdouble g = vj27(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
      if (!thrown(e, hs, 27) && g != (jdouble) (jint) hs / 32) wrong(27, 2, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 3) {
      jdouble g = e->CallDoubleMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
      if (!thrown(e, hj, 27) && g != (jdouble) (jint) hj / 32) wrong(27, 3, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    if (w == 4) {
      jdouble g = e->CallDoubleMethodA(r, mj, av);
      if (!thrown(e, hj, 27) && g != (jdouble) (jint) hj / 32) wrong(27, 4, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    if (w == 5) {
      jdouble g = vj27(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
      if (!thrown(e, hj, 27) && g != (jdouble) (jint) hj / 32) wrong(27, 5, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    break;
  }
  case 28: {
    jint a0 = (jint) x(q, 0);
    jlong a1 = (jlong) ((uint64_t) x(q, 1) * 2654435761ULL);
    jshort a2 = (jshort) x(q, 2);
    jchar a3 = (jchar) x(q, 3);
    jlong a4 = (jlong) ((uint64_t) x(q, 4) * 2654435761ULL);
    jobject a5 = o[x(q, 5) & 3];
    jchar a6 = (jchar) x(q, 6);
    jint a7 = (jint) x(q, 7);
    jobject a8 = o[x(q, 8) & 3];
    jdouble a9 = (jdouble) (jint) x(q, 9) / 64;
    jint a10 = (jint) x(q, 10);
    jint a11 = (jint) x(q, 11);
    jdouble a12 = (jdouble) (jint) x(q, 12) / 64;
    jshort a13 = (jshort) x(q, 13);
    jbyte a14 = (jbyte) x(q, 14);
    jvalue av[15];
    memset(av, 0x5a, sizeof av);
    av[0].i = a0;
    av[1].j = a1;
    av[2].s = a2;
    av[3].c = a3;
    av[4].j = a4;
    av[5].l = a5;
    av[6].c = a6;
    av[7].i = a7;
    av[8].l = a8;
    av[9].d = a9;
    av[10].i = a10;
    av[11].i = a11;
    av[12].d = a12;
    av[13].s = a13;
    av[14].b = a14;
    uint64_t hu = 875ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) a7;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a10;
    hu = hu * 31 + (uint64_t) (jlong) a11;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a12 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a13;
    hu = hu * 31 + (uint64_t) (jlong) a14;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 56, true, "s28", "(IJSCJLw/JnO;CILw/JnO;DIIDSB)Lw/JnO;"), mj = method(e, c, 57, false, "j28", "(IJSCJLw/JnO;CILw/JnO;DIIDSB)Lw/JnO;");
    if (!ms || !mj) break;
    if (w == 0) {
      jobject g = e->CallStaticObjectMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 28)) sameObject(e, g, a5, 28);
    }
    if (w == 1) {
      jobject g = e->CallStaticObjectMethodA(c, ms, av);
      if (!thrown(e, hs, 28)) sameObject(e, g, a5, 28);
    }
    if (w == 2) {
      jobject g = vj28(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 28)) sameObject(e, g, a5, 28);
    }
    if (w == 3) {
      jobject g = e->CallObjectMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 28)) sameObject(e, g, a5, 28);
    }
    if (w == 4) {
      jobject g = e->CallObjectMethodA(r, mj, av);
      if (!thrown(e, hj, 28)) sameObject(e, g, a5, 28);
    }
    if (w == 5) {
      jobject g = vj28(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 28)) sameObject(e, g, a5, 28);
    }
    break;
  }
  case 29: {
    jdouble a0 = (jdouble) (jint) x(q, 0) / 64;
    jint a1 = (jint) x(q, 1);
    jint a2 = (jint) x(q, 2);
    jfloat a3 = (jfloat) (jshort) x(q, 3) / 8;
    jdouble a4 = (jdouble) (jint) x(q, 4) / 64;
    jint a5 = (jint) x(q, 5);
    jlong a6 = (jlong) ((uint64_t) x(q, 6) * 2654435761ULL);
    jvalue av[7];
    memset(av, 0x5a, sizeof av);
    av[0].d = a0;
    av[1].i = a1;
    av[2].i = a2;
    av[3].f = a3;
    av[4].d = a4;
    av[5].i = a5;
    av[6].j = a6;
    uint64_t hu = 906ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) a6;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 58, true, "s29", "(DIIFDIJ)V"), mj = method(e, c, 59, false, "j29", "(DIIFDIJ)V");
    if (!ms || !mj) break;
    if (w == 0) {
      e->CallStaticVoidMethod(c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 29)) checkLast(e, hs, 29);
    }
    if (w == 1) {
      e->CallStaticVoidMethodA(c, ms, av);
      if (!thrown(e, hs, 29)) checkLast(e, hs, 29);
    }
    if (w == 2) {
      vj29(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 29)) checkLast(e, hs, 29);
    }
    if (w == 3) {
      e->CallVoidMethod(r, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 29)) checkLast(e, hj, 29);
    }
    if (w == 4) {
      e->CallVoidMethodA(r, mj, av);
      if (!thrown(e, hj, 29)) checkLast(e, hj, 29);
    }
    if (w == 5) {
      vj29(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 29)) checkLast(e, hj, 29);
    }
    break;
  }
  case 30: {
    jlong a0 = (jlong) ((uint64_t) x(q, 0) * 2654435761ULL);
    jlong a1 = (jlong) ((uint64_t) x(q, 1) * 2654435761ULL);
    jdouble a2 = (jdouble) (jint) x(q, 2) / 64;
    jlong a3 = (jlong) ((uint64_t) x(q, 3) * 2654435761ULL);
    jint a4 = (jint) x(q, 4);
    jlong a5 = (jlong) ((uint64_t) x(q, 5) * 2654435761ULL);
    jvalue av[6];
    memset(av, 0x5a, sizeof av);
    av[0].j = a0;
    av[1].j = a1;
    av[2].d = a2;
    av[3].j = a3;
    av[4].i = a4;
    av[5].j = a5;
    uint64_t hu = 937ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) a5;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 60, true, "s30", "(JJDJIJ)Z"), mj = method(e, c, 61, false, "j30", "(JJDJIJ)Z");
    if (!ms || !mj) break;
    if (w == 0) {
      jboolean g = e->CallStaticBooleanMethod(c, ms, a0, a1, a2, a3, a4, a5);
      if (!thrown(e, hs, 30) && g != (jboolean) (hs & 1)) wrong(30, 0, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 1) {
      jboolean g = e->CallStaticBooleanMethodA(c, ms, av);
      if (!thrown(e, hs, 30) && g != (jboolean) (hs & 1)) wrong(30, 1, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 2) {
      jboolean g = vj30(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5);
      if (!thrown(e, hs, 30) && g != (jboolean) (hs & 1)) wrong(30, 2, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 3) {
      jboolean g = e->CallBooleanMethod(r, mj, a0, a1, a2, a3, a4, a5);
      if (!thrown(e, hj, 30) && g != (jboolean) (hj & 1)) wrong(30, 3, (double) g, (double) ((jboolean) (hj & 1)));
    }
    if (w == 4) {
      jboolean g = e->CallBooleanMethodA(r, mj, av);
      if (!thrown(e, hj, 30) && g != (jboolean) (hj & 1)) wrong(30, 4, (double) g, (double) ((jboolean) (hj & 1)));
    }
    if (w == 5) {
      jboolean g = vj30(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5);
      if (!thrown(e, hj, 30) && g != (jboolean) (hj & 1)) wrong(30, 5, (double) g, (double) ((jboolean) (hj & 1)));
    }
    break;
  }
  case 31: {
    jint a0 = (jint) x(q, 0);
    jlong a1 = (jlong) ((uint64_t) x(q, 1) * 2654435761ULL);
    jlong a2 = (jlong) ((uint64_t) x(q, 2) * 2654435761ULL);
    jobject a3 = o[x(q, 3) & 3];
    jlong a4 = (jlong) ((uint64_t) x(q, 4) * 2654435761ULL);
    jobject a5 = o[x(q, 5) & 3];
    jlong a6 = (jlong) ((uint64_t) x(q, 6) * 2654435761ULL);
    jvalue av[7];
    memset(av, 0x5a, sizeof av);
    av[0].i = a0;
    av[1].j = a1;
    av[2].j = a2;
    av[3].l = a3;
    av[4].j = a4;
    av[5].l = a5;
    av[6].j = a6;
    uint64_t hu = 968ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
    hu = hu * 31 + (uint64_t) (jlong) a6;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 62, true, "s31", "(IJJLw/JnO;JLw/JnO;J)B"), mj = method(e, c, 63, false, "j31", "(IJJLw/JnO;JLw/JnO;J)B");
    if (!ms || !mj) break;
    if (w == 0) {
      jbyte g = e->CallStaticByteMethod(c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 31) && g != (jbyte) hs) wrong(31, 0, (double) g, (double) ((jbyte) hs));
    }
    if (w == 1) {
      jbyte g = e->CallStaticByteMethodA(c, ms, av);
      if (!thrown(e, hs, 31) && g != (jbyte) hs) wrong(31, 1, (double) g, (double) ((jbyte) hs));
    }
    if (w == 2) {
      jbyte g = vj31(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 31) && g != (jbyte) hs) wrong(31, 2, (double) g, (double) ((jbyte) hs));
    }
    if (w == 3) {
      jbyte g = e->CallByteMethod(r, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 31) && g != (jbyte) hj) wrong(31, 3, (double) g, (double) ((jbyte) hj));
    }
    if (w == 4) {
      jbyte g = e->CallByteMethodA(r, mj, av);
      if (!thrown(e, hj, 31) && g != (jbyte) hj) wrong(31, 4, (double) g, (double) ((jbyte) hj));
    }
    if (w == 5) {
      jbyte g = vj31(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 31) && g != (jbyte) hj) wrong(31, 5, (double) g, (double) ((jbyte) hj));
    }
    break;
  }
  case 32: {
    jvalue av[1];
    memset(av, 0x5a, sizeof av);
    uint64_t hu = 999ULL;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 64, true, "s32", "()C"), mj = method(e, c, 65, false, "j32", "()C");
    if (!ms || !mj) break;
    if (w == 0) {
      jchar g = e->CallStaticCharMethod(c, ms);
      if (!thrown(e, hs, 32) && g != (jchar) hs) wrong(32, 0, (double) g, (double) ((jchar) hs));
    }
    if (w == 1) {
      jchar g = e->CallStaticCharMethodA(c, ms, av);
      if (!thrown(e, hs, 32) && g != (jchar) hs) wrong(32, 1, (double) g, (double) ((jchar) hs));
    }
    if (w == 2) {
      jchar g = vj32(e, 1, 0, c, ms);
      if (!thrown(e, hs, 32) && g != (jchar) hs) wrong(32, 2, (double) g, (double) ((jchar) hs));
    }
    if (w == 3) {
      jchar g = e->CallCharMethod(r, mj);
      if (!thrown(e, hj, 32) && g != (jchar) hj) wrong(32, 3, (double) g, (double) ((jchar) hj));
    }
    if (w == 4) {
      jchar g = e->CallCharMethodA(r, mj, av);
      if (!thrown(e, hj, 32) && g != (jchar) hj) wrong(32, 4, (double) g, (double) ((jchar) hj));
    }
    if (w == 5) {
      jchar g = vj32(e, 0, r, c, mj);
      if (!thrown(e, hj, 32) && g != (jchar) hj) wrong(32, 5, (double) g, (double) ((jchar) hj));
    }
    break;
  }
  case 33: {
    jdouble a0 = (jdouble) (jint) x(q, 0) / 64;
    jobject a1 = o[x(q, 1) & 3];
    jdouble a2 = (jdouble) (jint) x(q, 2) / 64;
    jobject a3 = o[x(q, 3) & 3];
    jvalue av[4];
    memset(av, 0x5a, sizeof av);
    av[0].d = a0;
    av[1].l = a1;
    av[2].d = a2;
    av[3].l = a3;
    uint64_t hu = 1030ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 66, true, "s33", "(DLw/JnO;DLw/JnO;)S"), mj = method(e, c, 67, false, "j33", "(DLw/JnO;DLw/JnO;)S");
    if (!ms || !mj) break;
    if (w == 0) {
      jshort g = e->CallStaticShortMethod(c, ms, a0, a1, a2, a3);
      if (!thrown(e, hs, 33) && g != (jshort) hs) wrong(33, 0, (double) g, (double) ((jshort) hs));
    }
    if (w == 1) {
      jshort g = e->CallStaticShortMethodA(c, ms, av);
      if (!thrown(e, hs, 33) && g != (jshort) hs) wrong(33, 1, (double) g, (double) ((jshort) hs));
    }
    if (w == 2) {
      jshort g = vj33(e, 1, 0, c, ms, a0, a1, a2, a3);
      if (!thrown(e, hs, 33) && g != (jshort) hs) wrong(33, 2, (double) g, (double) ((jshort) hs));
    }
    if (w == 3) {
      jshort g = e->CallShortMethod(r, mj, a0, a1, a2, a3);
      if (!thrown(e, hj, 33) && g != (jshort) hj) wrong(33, 3, (double) g, (double) ((jshort) hj));
    }
    if (w == 4) {
      jshort g = e->CallShortMethodA(r, mj, av);
      if (!thrown(e, hj, 33) && g != (jshort) hj) wrong(33, 4, (double) g, (double) ((jshort) hj));
    }
    if (w == 5) {
      jshort g = vj33(e, 0, r, c, mj, a0, a1, a2, a3);
      if (!thrown(e, hj, 33) && g != (jshort) hj) wrong(33, 5, (double) g, (double) ((jshort) hj));
    }
    break;
  }
  case 34: {
    jobject a0 = o[x(q, 0) & 3];
    jbyte a1 = (jbyte) x(q, 1);
    jfloat a2 = (jfloat) (jshort) x(q, 2) / 8;
    jlong a3 = (jlong) ((uint64_t) x(q, 3) * 2654435761ULL);
    jlong a4 = (jlong) ((uint64_t) x(q, 4) * 2654435761ULL);
    jobject a5 = o[x(q, 5) & 3];
    jint a6 = (jint) x(q, 6);
    jobject a7 = o[x(q, 7) & 3];
    jbyte a8 = (jbyte) x(q, 8);
    jvalue av[9];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].b = a1;
    av[2].f = a2;
    av[3].j = a3;
    av[4].j = a4;
    av[5].l = a5;
    av[6].i = a6;
    av[7].l = a7;
    av[8].b = a8;
    uint64_t hu = 1061ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
    hu = hu * 31 + (uint64_t) (jlong) a8;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 68, true, "s34", "(Lw/JnO;BFJJLw/JnO;ILw/JnO;B)I"), mj = method(e, c, 69, false, "j34", "(Lw/JnO;BFJJLw/JnO;ILw/JnO;B)I");
    if (!ms || !mj) break;
    if (w == 0) {
      jint g = e->CallStaticIntMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hs, 34) && g != (jint) hs) wrong(34, 0, (double) g, (double) ((jint) hs));
    }
    if (w == 1) {
      jint g = e->CallStaticIntMethodA(c, ms, av);
      if (!thrown(e, hs, 34) && g != (jint) hs) wrong(34, 1, (double) g, (double) ((jint) hs));
    }
    if (w == 2) {
      jint g = vj34(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hs, 34) && g != (jint) hs) wrong(34, 2, (double) g, (double) ((jint) hs));
    }
    if (w == 3) {
      jint g = e->CallIntMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hj, 34) && g != (jint) hj) wrong(34, 3, (double) g, (double) ((jint) hj));
    }
    if (w == 4) {
      jint g = e->CallIntMethodA(r, mj, av);
      if (!thrown(e, hj, 34) && g != (jint) hj) wrong(34, 4, (double) g, (double) ((jint) hj));
    }
    if (w == 5) {
      jint g = vj34(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8);
      if (!thrown(e, hj, 34) && g != (jint) hj) wrong(34, 5, (double) g, (double) ((jint) hj));
    }
    break;
  }
  case 35: {
    jfloat a0 = (jfloat) (jshort) x(q, 0) / 8;
    jfloat a1 = (jfloat) (jshort) x(q, 1) / 8;
    jdouble a2 = (jdouble) (jint) x(q, 2) / 64;
    jobject a3 = o[x(q, 3) & 3];
    jfloat a4 = (jfloat) (jshort) x(q, 4) / 8;
    jvalue av[5];
    memset(av, 0x5a, sizeof av);
    av[0].f = a0;
    av[1].f = a1;
    av[2].d = a2;
    av[3].l = a3;
    av[4].f = a4;
    uint64_t hu = 1092ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 8);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 70, true, "s35", "(FFDLw/JnO;F)J"), mj = method(e, c, 71, false, "j35", "(FFDLw/JnO;F)J");
    if (!ms || !mj) break;
    if (w == 0) {
      jlong g = e->CallStaticLongMethod(c, ms, a0, a1, a2, a3, a4);
      if (!thrown(e, hs, 35) && g != hs) wrong(35, 0, (double) g, (double) (hs));
    }
    if (w == 1) {
      jlong g = e->CallStaticLongMethodA(c, ms, av);
      if (!thrown(e, hs, 35) && g != hs) wrong(35, 1, (double) g, (double) (hs));
    }
    if (w == 2) {
      jlong g = vj35(e, 1, 0, c, ms, a0, a1, a2, a3, a4);
      if (!thrown(e, hs, 35) && g != hs) wrong(35, 2, (double) g, (double) (hs));
    }
    if (w == 3) {
      jlong g = e->CallLongMethod(r, mj, a0, a1, a2, a3, a4);
      if (!thrown(e, hj, 35) && g != hj) wrong(35, 3, (double) g, (double) (hj));
    }
    if (w == 4) {
      jlong g = e->CallLongMethodA(r, mj, av);
      if (!thrown(e, hj, 35) && g != hj) wrong(35, 4, (double) g, (double) (hj));
    }
    if (w == 5) {
      jlong g = vj35(e, 0, r, c, mj, a0, a1, a2, a3, a4);
      if (!thrown(e, hj, 35) && g != hj) wrong(35, 5, (double) g, (double) (hj));
    }
    break;
  }
  case 36: {
    jdouble a0 = (jdouble) (jint) x(q, 0) / 64;
    jobject a1 = o[x(q, 1) & 3];
    jvalue av[2];
    memset(av, 0x5a, sizeof av);
    av[0].d = a0;
    av[1].l = a1;
    uint64_t hu = 1123ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a1);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 72, true, "s36", "(DLw/JnO;)F"), mj = method(e, c, 73, false, "j36", "(DLw/JnO;)F");
    if (!ms || !mj) break;
    if (w == 0) {
      jfloat g = e->CallStaticFloatMethod(c, ms, a0, a1);
      if (!thrown(e, hs, 36) && g != (jfloat) (jshort) hs / 4) wrong(36, 0, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 1) {
      jfloat g = e->CallStaticFloatMethodA(c, ms, av);
      if (!thrown(e, hs, 36) && g != (jfloat) (jshort) hs / 4) wrong(36, 1, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 2) {
      jfloat g = vj36(e, 1, 0, c, ms, a0, a1);
      if (!thrown(e, hs, 36) && g != (jfloat) (jshort) hs / 4) wrong(36, 2, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 3) {
      jfloat g = e->CallFloatMethod(r, mj, a0, a1);
      if (!thrown(e, hj, 36) && g != (jfloat) (jshort) hj / 4) wrong(36, 3, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    if (w == 4) {
      jfloat g = e->CallFloatMethodA(r, mj, av);
      if (!thrown(e, hj, 36) && g != (jfloat) (jshort) hj / 4) wrong(36, 4, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    if (w == 5) {
      jfloat g = vj36(e, 0, r, c, mj, a0, a1);
      if (!thrown(e, hj, 36) && g != (jfloat) (jshort) hj / 4) wrong(36, 5, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    break;
  }
  case 37: {
    jdouble a0 = (jdouble) (jint) x(q, 0) / 64;
    jfloat a1 = (jfloat) (jshort) x(q, 1) / 8;
    jobject a2 = o[x(q, 2) & 3];
    jdouble a3 = (jdouble) (jint) x(q, 3) / 64;
    jvalue av[4];
    memset(av, 0x5a, sizeof av);
    av[0].d = a0;
    av[1].f = a1;
    av[2].l = a2;
    av[3].d = a3;
    uint64_t hu = 1154ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 64);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 64);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 74, true, "s37", "(DFLw/JnO;D)D"), mj = method(e, c, 75, false, "j37", "(DFLw/JnO;D)D");
    if (!ms || !mj) break;
    if (w == 0) {
      jdouble g = e->CallStaticDoubleMethod(c, ms, a0, a1, a2, a3);
      if (!thrown(e, hs, 37) && g != (jdouble) (jint) hs / 32) wrong(37, 0, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 1) {
      jdouble g = e->CallStaticDoubleMethodA(c, ms, av);
      if (!thrown(e, hs, 37) && g != (jdouble) (jint) hs / 32) wrong(37, 1, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 2) {
      jdouble g = vj37(e, 1, 0, c, ms, a0, a1, a2, a3);
      if (!thrown(e, hs, 37) && g != (jdouble) (jint) hs / 32) wrong(37, 2, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 3) {
      jdouble g = e->CallDoubleMethod(r, mj, a0, a1, a2, a3);
      if (!thrown(e, hj, 37) && g != (jdouble) (jint) hj / 32) wrong(37, 3, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    if (w == 4) {
      jdouble g = e->CallDoubleMethodA(r, mj, av);
      if (!thrown(e, hj, 37) && g != (jdouble) (jint) hj / 32) wrong(37, 4, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    if (w == 5) {
      jdouble g = vj37(e, 0, r, c, mj, a0, a1, a2, a3);
      if (!thrown(e, hj, 37) && g != (jdouble) (jint) hj / 32) wrong(37, 5, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    break;
  }
  case 38: {
    jchar a0 = (jchar) x(q, 0);
    jlong a1 = (jlong) ((uint64_t) x(q, 1) * 2654435761ULL);
    jfloat a2 = (jfloat) (jshort) x(q, 2) / 8;
    jboolean a3 = (jboolean) ((x(q, 3) & 1) != 0);
    jdouble a4 = (jdouble) (jint) x(q, 4) / 64;
    jobject a5 = o[x(q, 5) & 3];
    jbyte a6 = (jbyte) x(q, 6);
    jobject a7 = o[x(q, 7) & 3];
    jobject a8 = o[x(q, 8) & 3];
    jfloat a9 = (jfloat) (jshort) x(q, 9) / 8;
    jshort a10 = (jshort) x(q, 10);
    jshort a11 = (jshort) x(q, 11);
    jobject a12 = o[x(q, 12) & 3];
    jobject a13 = o[x(q, 13) & 3];
    jboolean a14 = (jboolean) ((x(q, 14) & 1) != 0);
    jvalue av[15];
    memset(av, 0x5a, sizeof av);
    av[0].c = a0;
    av[1].j = a1;
    av[2].f = a2;
    av[3].z = a3;
    av[4].d = a4;
    av[5].l = a5;
    av[6].b = a6;
    av[7].l = a7;
    av[8].l = a8;
    av[9].f = a9;
    av[10].s = a10;
    av[11].s = a11;
    av[12].l = a12;
    av[13].l = a13;
    av[14].z = a14;
    uint64_t hu = 1185ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (a3 == 1 ? 1 : a3 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a4 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a9 * 8);
    hu = hu * 31 + (uint64_t) (jlong) a10;
    hu = hu * 31 + (uint64_t) (jlong) a11;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a13);
    hu = hu * 31 + (uint64_t) (jlong) (a14 == 1 ? 1 : a14 == 0 ? 2 : 77777);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 76, true, "s38", "(CJFZDLw/JnO;BLw/JnO;Lw/JnO;FSSLw/JnO;Lw/JnO;Z)Lw/JnO;"), mj = method(e, c, 77, false, "j38", "(CJFZDLw/JnO;BLw/JnO;Lw/JnO;FSSLw/JnO;Lw/JnO;Z)Lw/JnO;");
    if (!ms || !mj) break;
    if (w == 0) {
      jobject g = e->CallStaticObjectMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 38)) sameObject(e, g, a5, 38);
    }
    if (w == 1) {
      jobject g = e->CallStaticObjectMethodA(c, ms, av);
      if (!thrown(e, hs, 38)) sameObject(e, g, a5, 38);
    }
    if (w == 2) {
      jobject g = vj38(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 38)) sameObject(e, g, a5, 38);
    }
    if (w == 3) {
      jobject g = e->CallObjectMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 38)) sameObject(e, g, a5, 38);
    }
    if (w == 4) {
      jobject g = e->CallObjectMethodA(r, mj, av);
      if (!thrown(e, hj, 38)) sameObject(e, g, a5, 38);
    }
    if (w == 5) {
      jobject g = vj38(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 38)) sameObject(e, g, a5, 38);
    }
    break;
  }
  case 39: {
    jobject a0 = o[x(q, 0) & 3];
    jfloat a1 = (jfloat) (jshort) x(q, 1) / 8;
    jboolean a2 = (jboolean) ((x(q, 2) & 1) != 0);
    jbyte a3 = (jbyte) x(q, 3);
    jboolean a4 = (jboolean) ((x(q, 4) & 1) != 0);
    jboolean a5 = (jboolean) ((x(q, 5) & 1) != 0);
    jlong a6 = (jlong) ((uint64_t) x(q, 6) * 2654435761ULL);
    jvalue av[7];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].f = a1;
    av[2].z = a2;
    av[3].b = a3;
    av[4].z = a4;
    av[5].z = a5;
    av[6].j = a6;
    uint64_t hu = 1216ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (a2 == 1 ? 1 : a2 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) (a4 == 1 ? 1 : a4 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) (a5 == 1 ? 1 : a5 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) a6;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 78, true, "s39", "(Lw/JnO;FZBZZJ)V"), mj = method(e, c, 79, false, "j39", "(Lw/JnO;FZBZZJ)V");
    if (!ms || !mj) break;
    if (w == 0) {
      e->CallStaticVoidMethod(c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 39)) checkLast(e, hs, 39);
    }
    if (w == 1) {
      e->CallStaticVoidMethodA(c, ms, av);
      if (!thrown(e, hs, 39)) checkLast(e, hs, 39);
    }
    if (w == 2) {
      vj39(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 39)) checkLast(e, hs, 39);
    }
    if (w == 3) {
      e->CallVoidMethod(r, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 39)) checkLast(e, hj, 39);
    }
    if (w == 4) {
      e->CallVoidMethodA(r, mj, av);
      if (!thrown(e, hj, 39)) checkLast(e, hj, 39);
    }
    if (w == 5) {
      vj39(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 39)) checkLast(e, hj, 39);
    }
    break;
  }
  case 40: {
    jlong a0 = (jlong) ((uint64_t) x(q, 0) * 2654435761ULL);
    jlong a1 = (jlong) ((uint64_t) x(q, 1) * 2654435761ULL);
    jobject a2 = o[x(q, 2) & 3];
    jint a3 = (jint) x(q, 3);
    jint a4 = (jint) x(q, 4);
    jobject a5 = o[x(q, 5) & 3];
    jlong a6 = (jlong) ((uint64_t) x(q, 6) * 2654435761ULL);
    jvalue av[7];
    memset(av, 0x5a, sizeof av);
    av[0].j = a0;
    av[1].j = a1;
    av[2].l = a2;
    av[3].i = a3;
    av[4].i = a4;
    av[5].l = a5;
    av[6].j = a6;
    uint64_t hu = 1247ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
    hu = hu * 31 + (uint64_t) (jlong) a6;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 80, true, "s40", "(JJLw/JnO;IILw/JnO;J)Z"), mj = method(e, c, 81, false, "j40", "(JJLw/JnO;IILw/JnO;J)Z");
    if (!ms || !mj) break;
    if (w == 0) {
      jboolean g = e->CallStaticBooleanMethod(c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 40) && g != (jboolean) (hs & 1)) wrong(40, 0, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 1) {
      jboolean g = e->CallStaticBooleanMethodA(c, ms, av);
      if (!thrown(e, hs, 40) && g != (jboolean) (hs & 1)) wrong(40, 1, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 2) {
      jboolean g = vj40(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 40) && g != (jboolean) (hs & 1)) wrong(40, 2, (double) g, (double) ((jboolean) (hs & 1)));
    }
    if (w == 3) {
      jboolean g = e->CallBooleanMethod(r, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 40) && g != (jboolean) (hj & 1)) wrong(40, 3, (double) g, (double) ((jboolean) (hj & 1)));
    }
    if (w == 4) {
      jboolean g = e->CallBooleanMethodA(r, mj, av);
      if (!thrown(e, hj, 40) && g != (jboolean) (hj & 1)) wrong(40, 4, (double) g, (double) ((jboolean) (hj & 1)));
    }
    if (w == 5) {
      jboolean g = vj40(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 40) && g != (jboolean) (hj & 1)) wrong(40, 5, (double) g, (double) ((jboolean) (hj & 1)));
    }
    break;
  }
  case 41: {
    jobject a0 = o[x(q, 0) & 3];
    jboolean a1 = (jboolean) ((x(q, 1) & 1) != 0);
    jobject a2 = o[x(q, 2) & 3];
    jobject a3 = o[x(q, 3) & 3];
    jobject a4 = o[x(q, 4) & 3];
    jchar a5 = (jchar) x(q, 5);
    jchar a6 = (jchar) x(q, 6);
    jobject a7 = o[x(q, 7) & 3];
    jvalue av[8];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].z = a1;
    av[2].l = a2;
    av[3].l = a3;
    av[4].l = a4;
    av[5].c = a5;
    av[6].c = a6;
    av[7].l = a7;
    uint64_t hu = 1278ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) (a1 == 1 ? 1 : a1 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a3);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 82, true, "s41", "(Lw/JnO;ZLw/JnO;Lw/JnO;Lw/JnO;CCLw/JnO;)B"), mj = method(e, c, 83, false, "j41", "(Lw/JnO;ZLw/JnO;Lw/JnO;Lw/JnO;CCLw/JnO;)B");
    if (!ms || !mj) break;
    if (w == 0) {
      jbyte g = e->CallStaticByteMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hs, 41) && g != (jbyte) hs) wrong(41, 0, (double) g, (double) ((jbyte) hs));
    }
    if (w == 1) {
      jbyte g = e->CallStaticByteMethodA(c, ms, av);
      if (!thrown(e, hs, 41) && g != (jbyte) hs) wrong(41, 1, (double) g, (double) ((jbyte) hs));
    }
    if (w == 2) {
      jbyte g = vj41(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hs, 41) && g != (jbyte) hs) wrong(41, 2, (double) g, (double) ((jbyte) hs));
    }
    if (w == 3) {
      jbyte g = e->CallByteMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hj, 41) && g != (jbyte) hj) wrong(41, 3, (double) g, (double) ((jbyte) hj));
    }
    if (w == 4) {
      jbyte g = e->CallByteMethodA(r, mj, av);
      if (!thrown(e, hj, 41) && g != (jbyte) hj) wrong(41, 4, (double) g, (double) ((jbyte) hj));
    }
    if (w == 5) {
      jbyte g = vj41(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7);
      if (!thrown(e, hj, 41) && g != (jbyte) hj) wrong(41, 5, (double) g, (double) ((jbyte) hj));
    }
    break;
  }
  case 42: {
    jint a0 = (jint) x(q, 0);
    jlong a1 = (jlong) ((uint64_t) x(q, 1) * 2654435761ULL);
    jint a2 = (jint) x(q, 2);
    jboolean a3 = (jboolean) ((x(q, 3) & 1) != 0);
    jobject a4 = o[x(q, 4) & 3];
    jobject a5 = o[x(q, 5) & 3];
    jbyte a6 = (jbyte) x(q, 6);
    jobject a7 = o[x(q, 7) & 3];
    jshort a8 = (jshort) x(q, 8);
    jlong a9 = (jlong) ((uint64_t) x(q, 9) * 2654435761ULL);
    jobject a10 = o[x(q, 10) & 3];
    jdouble a11 = (jdouble) (jint) x(q, 11) / 64;
    jobject a12 = o[x(q, 12) & 3];
    jdouble a13 = (jdouble) (jint) x(q, 13) / 64;
    jshort a14 = (jshort) x(q, 14);
    jvalue av[15];
    memset(av, 0x5a, sizeof av);
    av[0].i = a0;
    av[1].j = a1;
    av[2].i = a2;
    av[3].z = a3;
    av[4].l = a4;
    av[5].l = a5;
    av[6].b = a6;
    av[7].l = a7;
    av[8].s = a8;
    av[9].j = a9;
    av[10].l = a10;
    av[11].d = a11;
    av[12].l = a12;
    av[13].d = a13;
    av[14].s = a14;
    uint64_t hu = 1309ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) (a3 == 1 ? 1 : a3 == 0 ? 2 : 77777);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a5);
    hu = hu * 31 + (uint64_t) (jlong) a6;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a7);
    hu = hu * 31 + (uint64_t) (jlong) a8;
    hu = hu * 31 + (uint64_t) (jlong) a9;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a10);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a11 * 64);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a12);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a13 * 64);
    hu = hu * 31 + (uint64_t) (jlong) a14;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 84, true, "s42", "(IJIZLw/JnO;Lw/JnO;BLw/JnO;SJLw/JnO;DLw/JnO;DS)C"), mj = method(e, c, 85, false, "j42", "(IJIZLw/JnO;Lw/JnO;BLw/JnO;SJLw/JnO;DLw/JnO;DS)C");
    if (!ms || !mj) break;
    if (w == 0) {
      jchar g = e->CallStaticCharMethod(c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 42) && g != (jchar) hs) wrong(42, 0, (double) g, (double) ((jchar) hs));
    }
    if (w == 1) {
      jchar g = e->CallStaticCharMethodA(c, ms, av);
      if (!thrown(e, hs, 42) && g != (jchar) hs) wrong(42, 1, (double) g, (double) ((jchar) hs));
    }
    if (w == 2) {
      jchar g = vj42(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hs, 42) && g != (jchar) hs) wrong(42, 2, (double) g, (double) ((jchar) hs));
    }
    if (w == 3) {
      jchar g = e->CallCharMethod(r, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 42) && g != (jchar) hj) wrong(42, 3, (double) g, (double) ((jchar) hj));
    }
    if (w == 4) {
      jchar g = e->CallCharMethodA(r, mj, av);
      if (!thrown(e, hj, 42) && g != (jchar) hj) wrong(42, 4, (double) g, (double) ((jchar) hj));
    }
    if (w == 5) {
      jchar g = vj42(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
      if (!thrown(e, hj, 42) && g != (jchar) hj) wrong(42, 5, (double) g, (double) ((jchar) hj));
    }
    break;
  }
  case 43: {
    jlong a0 = (jlong) ((uint64_t) x(q, 0) * 2654435761ULL);
    jvalue av[1];
    memset(av, 0x5a, sizeof av);
    av[0].j = a0;
    uint64_t hu = 1340ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 86, true, "s43", "(J)S"), mj = method(e, c, 87, false, "j43", "(J)S");
    if (!ms || !mj) break;
    if (w == 0) {
      jshort g = e->CallStaticShortMethod(c, ms, a0);
      if (!thrown(e, hs, 43) && g != (jshort) hs) wrong(43, 0, (double) g, (double) ((jshort) hs));
    }
    if (w == 1) {
      jshort g = e->CallStaticShortMethodA(c, ms, av);
      if (!thrown(e, hs, 43) && g != (jshort) hs) wrong(43, 1, (double) g, (double) ((jshort) hs));
    }
    if (w == 2) {
      jshort g = vj43(e, 1, 0, c, ms, a0);
      if (!thrown(e, hs, 43) && g != (jshort) hs) wrong(43, 2, (double) g, (double) ((jshort) hs));
    }
    if (w == 3) {
      jshort g = e->CallShortMethod(r, mj, a0);
      if (!thrown(e, hj, 43) && g != (jshort) hj) wrong(43, 3, (double) g, (double) ((jshort) hj));
    }
    if (w == 4) {
      jshort g = e->CallShortMethodA(r, mj, av);
      if (!thrown(e, hj, 43) && g != (jshort) hj) wrong(43, 4, (double) g, (double) ((jshort) hj));
    }
    if (w == 5) {
      jshort g = vj43(e, 0, r, c, mj, a0);
      if (!thrown(e, hj, 43) && g != (jshort) hj) wrong(43, 5, (double) g, (double) ((jshort) hj));
    }
    break;
  }
  case 44: {
    jobject a0 = o[x(q, 0) & 3];
    jlong a1 = (jlong) ((uint64_t) x(q, 1) * 2654435761ULL);
    jobject a2 = o[x(q, 2) & 3];
    jlong a3 = (jlong) ((uint64_t) x(q, 3) * 2654435761ULL);
    jint a4 = (jint) x(q, 4);
    jlong a5 = (jlong) ((uint64_t) x(q, 5) * 2654435761ULL);
    jint a6 = (jint) x(q, 6);
    jvalue av[7];
    memset(av, 0x5a, sizeof av);
    av[0].l = a0;
    av[1].j = a1;
    av[2].l = a2;
    av[3].j = a3;
    av[4].i = a4;
    av[5].j = a5;
    av[6].i = a6;
    uint64_t hu = 1371ULL;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a0);
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) id(e, a2);
    hu = hu * 31 + (uint64_t) (jlong) a3;
    hu = hu * 31 + (uint64_t) (jlong) a4;
    hu = hu * 31 + (uint64_t) (jlong) a5;
    hu = hu * 31 + (uint64_t) (jlong) a6;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 88, true, "s44", "(Lw/JnO;JLw/JnO;JIJI)I"), mj = method(e, c, 89, false, "j44", "(Lw/JnO;JLw/JnO;JIJI)I");
    if (!ms || !mj) break;
    if (w == 0) {
      jint g = e->CallStaticIntMethod(c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 44) && g != (jint) hs) wrong(44, 0, (double) g, (double) ((jint) hs));
    }
    if (w == 1) {
      jint g = e->CallStaticIntMethodA(c, ms, av);
      if (!thrown(e, hs, 44) && g != (jint) hs) wrong(44, 1, (double) g, (double) ((jint) hs));
    }
    if (w == 2) {
      jint g = vj44(e, 1, 0, c, ms, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hs, 44) && g != (jint) hs) wrong(44, 2, (double) g, (double) ((jint) hs));
    }
    if (w == 3) {
      jint g = e->CallIntMethod(r, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 44) && g != (jint) hj) wrong(44, 3, (double) g, (double) ((jint) hj));
    }
    if (w == 4) {
      jint g = e->CallIntMethodA(r, mj, av);
      if (!thrown(e, hj, 44) && g != (jint) hj) wrong(44, 4, (double) g, (double) ((jint) hj));
    }
    if (w == 5) {
      jint g = vj44(e, 0, r, c, mj, a0, a1, a2, a3, a4, a5, a6);
      if (!thrown(e, hj, 44) && g != (jint) hj) wrong(44, 5, (double) g, (double) ((jint) hj));
    }
    break;
  }
  case 45: {
    jint a0 = (jint) x(q, 0);
    jvalue av[1];
    memset(av, 0x5a, sizeof av);
    av[0].i = a0;
    uint64_t hu = 1402ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 90, true, "s45", "(I)J"), mj = method(e, c, 91, false, "j45", "(I)J");
    if (!ms || !mj) break;
    if (w == 0) {
      jlong g = e->CallStaticLongMethod(c, ms, a0);
      if (!thrown(e, hs, 45) && g != hs) wrong(45, 0, (double) g, (double) (hs));
    }
    if (w == 1) {
      jlong g = e->CallStaticLongMethodA(c, ms, av);
      if (!thrown(e, hs, 45) && g != hs) wrong(45, 1, (double) g, (double) (hs));
    }
    if (w == 2) {
      jlong g = vj45(e, 1, 0, c, ms, a0);
      if (!thrown(e, hs, 45) && g != hs) wrong(45, 2, (double) g, (double) (hs));
    }
    if (w == 3) {
      jlong g = e->CallLongMethod(r, mj, a0);
      if (!thrown(e, hj, 45) && g != hj) wrong(45, 3, (double) g, (double) (hj));
    }
    if (w == 4) {
      jlong g = e->CallLongMethodA(r, mj, av);
      if (!thrown(e, hj, 45) && g != hj) wrong(45, 4, (double) g, (double) (hj));
    }
    if (w == 5) {
      jlong g = vj45(e, 0, r, c, mj, a0);
      if (!thrown(e, hj, 45) && g != hj) wrong(45, 5, (double) g, (double) (hj));
    }
    break;
  }
  case 46: {
    jint a0 = (jint) x(q, 0);
    jint a1 = (jint) x(q, 1);
    jint a2 = (jint) x(q, 2);
    jlong a3 = (jlong) ((uint64_t) x(q, 3) * 2654435761ULL);
    jvalue av[4];
    memset(av, 0x5a, sizeof av);
    av[0].i = a0;
    av[1].i = a1;
    av[2].i = a2;
    av[3].j = a3;
    uint64_t hu = 1433ULL;
    hu = hu * 31 + (uint64_t) (jlong) a0;
    hu = hu * 31 + (uint64_t) (jlong) a1;
    hu = hu * 31 + (uint64_t) (jlong) a2;
    hu = hu * 31 + (uint64_t) (jlong) a3;
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 92, true, "s46", "(IIIJ)F"), mj = method(e, c, 93, false, "j46", "(IIIJ)F");
    if (!ms || !mj) break;
    if (w == 0) {
      jfloat g = e->CallStaticFloatMethod(c, ms, a0, a1, a2, a3);
      if (!thrown(e, hs, 46) && g != (jfloat) (jshort) hs / 4) wrong(46, 0, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 1) {
      jfloat g = e->CallStaticFloatMethodA(c, ms, av);
      if (!thrown(e, hs, 46) && g != (jfloat) (jshort) hs / 4) wrong(46, 1, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 2) {
      jfloat g = vj46(e, 1, 0, c, ms, a0, a1, a2, a3);
      if (!thrown(e, hs, 46) && g != (jfloat) (jshort) hs / 4) wrong(46, 2, (double) g, (double) ((jfloat) (jshort) hs / 4));
    }
    if (w == 3) {
      jfloat g = e->CallFloatMethod(r, mj, a0, a1, a2, a3);
      if (!thrown(e, hj, 46) && g != (jfloat) (jshort) hj / 4) wrong(46, 3, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    if (w == 4) {
      jfloat g = e->CallFloatMethodA(r, mj, av);
      if (!thrown(e, hj, 46) && g != (jfloat) (jshort) hj / 4) wrong(46, 4, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    if (w == 5) {
      jfloat g = vj46(e, 0, r, c, mj, a0, a1, a2, a3);
      if (!thrown(e, hj, 46) && g != (jfloat) (jshort) hj / 4) wrong(46, 5, (double) g, (double) ((jfloat) (jshort) hj / 4));
    }
    break;
  }
  case 47: {
    jfloat a0 = (jfloat) (jshort) x(q, 0) / 8;
    jfloat a1 = (jfloat) (jshort) x(q, 1) / 8;
    jfloat a2 = (jfloat) (jshort) x(q, 2) / 8;
    jfloat a3 = (jfloat) (jshort) x(q, 3) / 8;
    jobject a4 = o[x(q, 4) & 3];
    jvalue av[5];
    memset(av, 0x5a, sizeof av);
    av[0].f = a0;
    av[1].f = a1;
    av[2].f = a2;
    av[3].f = a3;
    av[4].l = a4;
    uint64_t hu = 1464ULL;
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a0 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a1 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a2 * 8);
    hu = hu * 31 + (uint64_t) (jlong) (jlong) (a3 * 8);
    hu = hu * 31 + (uint64_t) (jlong) id(e, a4);
    jlong hs = (jlong) hu, hj = (jlong) (hu + (uint64_t) sid(e, r) * 7);
    jmethodID ms = method(e, c, 94, true, "s47", "(FFFFLw/JnO;)D"), mj = method(e, c, 95, false, "j47", "(FFFFLw/JnO;)D");
    if (!ms || !mj) break;
    if (w == 0) {
      jdouble g = e->CallStaticDoubleMethod(c, ms, a0, a1, a2, a3, a4);
      if (!thrown(e, hs, 47) && g != (jdouble) (jint) hs / 32) wrong(47, 0, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 1) {
      jdouble g = e->CallStaticDoubleMethodA(c, ms, av);
      if (!thrown(e, hs, 47) && g != (jdouble) (jint) hs / 32) wrong(47, 1, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 2) {
      jdouble g = vj47(e, 1, 0, c, ms, a0, a1, a2, a3, a4);
      if (!thrown(e, hs, 47) && g != (jdouble) (jint) hs / 32) wrong(47, 2, (double) g, (double) ((jdouble) (jint) hs / 32));
    }
    if (w == 3) {
      jdouble g = e->CallDoubleMethod(r, mj, a0, a1, a2, a3, a4);
      if (!thrown(e, hj, 47) && g != (jdouble) (jint) hj / 32) wrong(47, 3, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    if (w == 4) {
      jdouble g = e->CallDoubleMethodA(r, mj, av);
      if (!thrown(e, hj, 47) && g != (jdouble) (jint) hj / 32) wrong(47, 4, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    if (w == 5) {
      jdouble g = vj47(e, 0, r, c, mj, a0, a1, a2, a3, a4);
      if (!thrown(e, hj, 47) && g != (jdouble) (jint) hj / 32) wrong(47, 5, (double) g, (double) ((jdouble) (jint) hj / 32));
    }
    break;
  }
  }
}
