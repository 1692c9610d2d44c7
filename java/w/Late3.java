package w;
class Late3 {
  static long gone(int p) { return p; }
  static long here(int p) { return p * 2; }
  static long field = 5;
  static int now = 7;
  int inst = 3;
  Late3() { }
  Late3(int x) { }
  long virt(int p) { return p + 1; }
}
