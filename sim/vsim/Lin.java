package vsim;

import java.util.*;

/** Linearizability of a short history against a sequential model (Wing and Gong's search with memoisation). */
public final class Lin {
  public static final class Op {
    public final int task;
    public final String name;
    public final Object arg;
    public long inv, ret;
    public Object res;

    public Op(int task, String name, Object arg) {
      this.task = task;
      this.name = name;
      this.arg = arg;
    }

    @Override
    public String toString() {
      return "[" + inv + ".." + ret + "] t" + task + " " + name + "(" + arg + ") = " + res;
    }
  }

  /** Result the sequential object gives and the state after it. */
  public interface Model<T> {
    /** the new state, or null when the operation cannot return what it returned in this state */
    T apply(T state, Op op);
  }

  public static <T> boolean check(List<Op> ops, T init, Model<T> m) {
    if (ops.size() > 60) throw new IllegalArgumentException("history too long");
    return go(ops, 0L, init, m, new HashSet<>());
  }

  private static <T> boolean go(List<Op> ops, long done, T st, Model<T> m, Set<Object> dead) {
    int n = ops.size();
    if (done == (1L << n) - 1) return true;
    Object key = List.of(done, st);
    if (dead.contains(key)) return false;
    long firstRet = Long.MAX_VALUE;
    for (int i = 0; i < n; i++) if ((done >>> i & 1) == 0) firstRet = Math.min(firstRet, ops.get(i).ret);
    for (int i = 0; i < n; i++) {
      if ((done >>> i & 1) == 1) continue;
      Op o = ops.get(i);
      if (o.inv > firstRet) continue;
      T s2 = m.apply(st, o);
      if (s2 != null && go(ops, done | 1L << i, s2, m, dead)) return true;
    }
    dead.add(key);
    return false;
  }
}
