package vsim;

import java.util.Arrays;

/**
 * The only source of decisions of a run. In search mode the numbers come from a seeded generator, in replay
 * mode from a recorded list (and 0, the simplest choice, after its end). Every decision is recorded.
 */
public final class Choices {
  private long s;
  private final long[] given;
  private int pos;
  private long[] rec = new long[256];
  private int n;

  public Choices(long seed) {
    this.s = mix(seed + 0x9E3779B97F4A7C15L);
    this.given = null;
  }

  public Choices(long[] given) {
    this.given = given;
  }

  public static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    return z ^ (z >>> 31);
  }

  private long next() {
    s += 0x9E3779B97F4A7C15L;
    return mix(s);
  }

  private long put(long v) {
    if (n == rec.length) rec = Arrays.copyOf(rec, n * 2);
    rec[n++] = v;
    return v;
  }

  /** Uniform in [0, bound). */
  public int below(int bound) {
    if (bound <= 1) return 0;
    if (given != null) {
      long v = pos < given.length ? given[pos++] : 0;
      if (v < 0) v = -(v + 1);
      return (int) put(v < bound ? v : v % bound);
    }
    return (int) put((int) (((next() >>> 33) * bound) >>> 31));
  }

  /** true with probability num/den; 0 means false. */
  public boolean chance(int num, int den) {
    return below(den) >= den - num;
  }

  public int range(int lo, int hi) {
    return lo + below(hi - lo + 1);
  }

  public long bits() {
    if (given != null) return put(pos < given.length ? given[pos++] : 0);
    return put(next());
  }

  /** Index chosen with the given weights; index 0 should be the simplest. */
  public int weighted(int... w) {
    int t = 0;
    for (int x : w) t += x;
    int r = below(t);
    for (int i = 0; i < w.length; i++) {
      if (r < w[i]) return i;
      r -= w[i];
    }
    return w.length - 1;
  }

  public <T> T pick(T[] a) {
    return a[below(a.length)];
  }

  public <T> T pick(java.util.List<T> a) {
    return a.get(below(a.size()));
  }

  public long[] recorded() {
    return Arrays.copyOf(rec, n);
  }

  public int count() {
    return n;
  }
}
