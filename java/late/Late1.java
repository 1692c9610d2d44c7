package w;
class Late1 {
  static long here(int p) { return p * 3; }
  static long field = 5;
  static int now = 8;
  Late1() { }
  Late1(int x) { }
}
