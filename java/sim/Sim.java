package sim;

/** Natives of the simulator (sim/core.cpp, sim/io.cpp). */
public class Sim {
  /** the arguments of the run; the simulator may copy the process here */
  public static native String args();
  /** preempt more often while set */
  public static native void hot(boolean v);
  public static native void begin();
  public static native void end();
  public static native void stopFaults();
  public static native long seq();
  public static native int tid();
  public static native long micros();
  public static native void yield0();
  public static native void point();
  public static native void log(String s);
  public static native void fail(String s);
  public static native void ev(int thread, int phase, int op, long a, long b);
  public static native void probe(String s);
  public static native int choose(int n);
  public static native void done();
  /** how many allocations of this thread failed so far */
  public static native int oom();
  public static native long liveBytes();
  public static native boolean blocked(int id);
  public static native void put(String path, byte[] data);
  public static native byte[] get(String path);
  public static native void diskLimit(long n);
  public static native int openFds();
}
