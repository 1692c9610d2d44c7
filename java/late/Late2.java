package w;
class Late2 {
  static long gone(int p) { return p; }
  static long now = 7;
  int inst = 4;
  Late2() { }
  Late2(long x) { }
  long virt(long p) { return p + 1; }
}
