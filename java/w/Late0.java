package w;
class Late0 {
  static long gone(int p) { return p; }
  static long here(int p) { return p * 2; }
  static long field = 5;
  static int now = 7;
  int inst = 3;
  Late0() { }
  Late0(int x) { }
  long virt(int p) { return p + 1; }
}
