package w;
class Late3 {
  static long here(long p) { return p * 2; }
  static long field = 6;
  int inst = 3;
  Late3() { }
  Late3(int x) { }
  long virt(int p) { return p - 1; }
}
