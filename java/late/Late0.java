package w;
class Late0 {
  static long here(int p) { return p * 2; }
  static int now = 7;
  int inst = 3;
  Late0() { }
  long virt(int p) { return p + 100; }
}
