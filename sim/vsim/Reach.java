package vsim;

import java.lang.reflect.*;
import java.util.*;

/** Counts the objects that the repository's classes keep alive from their static fields. */
final class Reach {
  private static final sun.misc.Unsafe U;

  static {
    try {
      Field f = sun.misc.Unsafe.class.getDeclaredField("theUnsafe");
      f.setAccessible(true);
      U = (sun.misc.Unsafe) f.get(null);
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  private static final Map<Class<?>, long[]> OFFSETS = Collections.synchronizedMap(new WeakHashMap<>());

  private Reach() {}

  /** At most {@code max} are counted. What is held weakly, by threads or by the simulator does not count. */
  static int count(Collection<Class<?>> classes, int max) {
    Set<Object> seen = Collections.newSetFromMap(new IdentityHashMap<>());
    ArrayDeque<Object> todo = new ArrayDeque<>();
    for (Class<?> k : classes)
      for (Field f : k.getDeclaredFields())
        if (Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()) push(U.getObject(U.staticFieldBase(f), U.staticFieldOffset(f)), seen, todo);
    while (!todo.isEmpty() && seen.size() < max) {
      Object o = todo.poll();
      if (o instanceof Object[]) {
        for (Object x : (Object[]) o) push(x, seen, todo);
        continue;
      }
      for (long off : offsets(o.getClass())) push(U.getObject(o, off), seen, todo);
    }
    return seen.size();
  }

  private static void push(Object o, Set<Object> seen, ArrayDeque<Object> todo) {
    if (o == null || o instanceof Class || o instanceof ClassLoader || o instanceof Thread || o instanceof ThreadLocal || o instanceof java.lang.ref.Reference) return;
    String n = o.getClass().getName();
    if (n.startsWith("vsim.") && !n.startsWith("vsim.jdk.") || n.startsWith("vbridge.") || n.startsWith("io.netty.") || n.startsWith("java.lang.reflect.") || n.startsWith("java.lang.invoke.")) return;
    if (seen.add(o)) todo.add(o);
  }

  private static long[] offsets(Class<?> k) {
    long[] r = OFFSETS.get(k);
    if (r != null) return r;
    List<Long> l = new ArrayList<>();
    for (Class<?> c = k; c != null && c != Object.class; c = c.getSuperclass()) {
      if (c.isArray() || c.isHidden() || c.isRecord()) continue;
      for (Field f : c.getDeclaredFields())
        if (!Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()) l.add(U.objectFieldOffset(f));
    }
    r = l.stream().mapToLong(Long::longValue).toArray();
    OFFSETS.put(k, r);
    return r;
  }
}
