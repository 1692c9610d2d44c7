package w;
import sim.Sim;
public class Nop extends W {
  void run() throws Exception { if (param("n", 0) == 1) runAll(new T[] {new T(0) { public void go() {} }, new T(1) { public void go() {} }}); }
}
