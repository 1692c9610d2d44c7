package w;
class Late2 {
  static long gone(int p) { return p; }
  static long here(int p) { return p * 2; }
  static long field = 5;
  static int now = 7;
  int inst = 3;
  Late2() { }
  Late2(int x) { }
  long virt(int p) { return p + 1; }
}
