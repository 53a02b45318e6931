package vsim;

import io.netty.buffer.ByteBuf;
import java.util.*;

/** The code under test, loaded afresh (all static state included) by a class loader of its own, and access to it. */
public final class Repo implements Conv {
  public final Spec spec;
  public final SysBridge sys;
  private final MsgBridge[] br;
  private final IdentityHashMap<Class<?>, Spec.Type> byClass = new IdentityHashMap<>();
  private final Loader cl;
  private final java.lang.reflect.Method[] getters;
  private final Class<?> y;

  static final class Loader extends ClassLoader {
    final Map<String, byte[]> m;

    Loader(Map<String, byte[]> m) {
      super(Repo.class.getClassLoader());
      this.m = m;
    }

    List<Class<?>> loaded() {
      List<Class<?>> l = new ArrayList<>();
      for (String n : m.keySet()) {
        Class<?> c = n.startsWith("com.finproto.") ? findLoadedClass(n) : null;
        if (c != null) l.add(c);
      }
      return l;
    }

    @Override
    protected Class<?> loadClass(String n, boolean r) throws ClassNotFoundException {
      byte[] b = m.get(n);
      if (b == null) return super.loadClass(n, r);
      synchronized (getClassLoadingLock(n)) {
        Class<?> c = findLoadedClass(n);
        return c != null ? c : defineClass(n, b, 0, b.length);
      }
    }
  }

  public Repo(Spec spec, Instr in, boolean asserts) {
    this.spec = spec;
    this.br = new MsgBridge[spec.types.size()];
    cl = new Loader(in.out);
    cl.setDefaultAssertionStatus(asserts);
    cl.setPackageAssertionStatus("vsim.jdk", false);
    getters = new java.lang.reflect.Method[Spec.PROTOS.length];
    try {
      y = cl.loadClass("vsim.inst.Y");
      sys = (SysBridge) cl.loadClass("vbridge.Sys").getDeclaredConstructor().newInstance();
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  /** How many objects the repository's classes keep alive by themselves. */
  int kept(int max) {
    return Reach.count(cl.loaded(), max);
  }

  private World w;

  public void attach(World w) {
    this.w = w;
    try {
      y.getField("w").set(null, w);
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  public MsgBridge bridge(Spec.Type t) {
    MsgBridge b = br[t.id];
    if (b == null) {
      int p = Arrays.asList(Spec.PROTOS).indexOf(t.proto);
      try {
        if (getters[p] == null) getters[p] = cl.loadClass("vbridge.B_" + t.proto).getMethod("get", int.class);
        b = br[t.id] = (MsgBridge) getters[p].invoke(null, t.local);
      } catch (ReflectiveOperationException e) {
        throw new IllegalStateException(t.name, e);
      }
    }
    return b;
  }

  public Object fresh(Spec.Type t) {
    Object o = bridge(t).fresh();
    byClass.putIfAbsent(o.getClass(), t);
    return o;
  }

  /** The message type of a real object, null when it is not one. */
  public Spec.Type typeOf(Object o) {
    if (o == null) return null;
    Spec.Type t = byClass.get(o.getClass());
    if (t == null) {
      t = spec.byName.get(o.getClass().getName());
      if (t != null) byClass.put(o.getClass(), t);
    }
    return t;
  }

  public Object build(Msg m) {
    Object o = fresh(m.t);
    fill(o, m);
    return o;
  }

  public void fill(Object o, Msg m) {
    bridge(m.t).fill(o, m.v, this);
  }

  public Msg read(Object o) {
    Spec.Type t = typeOf(o);
    if (t == null) throw new Violation("foreign", "object of class " + o.getClass().getName() + " where a message was expected");
    Msg m = new Msg(t);
    Object[] v = bridge(t).read(o, this);
    System.arraycopy(v, 0, m.v, 0, v.length);
    return m;
  }

  public void encode(Object o, Spec.Type t, ByteBuf b) {
    if (w != null) w.operation();
    bridge(t).encode(o, b);
  }

  public void decode(Object o, Spec.Type t, ByteBuf b) {
    boolean ok = false;
    if (w != null) {
      w.operation();
      w.st.messages++;
    }
    try {
      bridge(t).decode(o, b);
      ok = true;
    } finally {
      if (w != null) w.ev(ok ? "decoded" : "decode failed", t.id, b.readerIndex());
    }
  }

  // ---- Conv ----
  public Object toReal(Object m) {
    return m == null ? null : m instanceof Msg ? build((Msg) m) : m instanceof Real ? ((Real) m).o : m;
  }

  /** A real object used as a model value. */
  public static final class Real {
    public final Object o;

    public Real(Object o) {
      this.o = o;
    }
  }

  /** which kind of list the application puts into messages */
  public int listKind;

  public List<?> toRealList(Object m) {
    if (m == null) return null;
    List<?> l = (List<?>) m;
    List<Object> r = new ArrayList<>(l.size());
    for (Object x : l) r.add(toReal(x));
    Runnable hook = hooks.get(Thread.currentThread());
    if (hook != null) return new AppList(r, hook);
    switch (listKind) {
      case 1: return Arrays.asList(r.toArray());
      case 2: return Collections.unmodifiableList(r);
      case 3: return new LinkedList<>(r);
      case 4: return r.isEmpty() ? Collections.emptyList() : r.size() == 1 ? Collections.singletonList(r.get(0)) : new java.util.concurrent.CopyOnWriteArrayList<>(r);
      default: return r;
    }
  }

  /** what the lists a task builds now do when an element is asked for */
  public final Map<Thread, Runnable> hooks = new IdentityHashMap<>();

  /** A list of the application's own, which does something when it is looked at. */
  private static final class AppList extends AbstractList<Object> {
    private final List<Object> l;
    private final Runnable hook;

    AppList(List<Object> l, Runnable hook) {
      this.l = l;
      this.hook = hook;
    }

    @Override
    public Object get(int i) {
      hook.run();
      return l.get(i);
    }

    @Override
    public int size() {
      return l.size();
    }
  }

  public Object toModel(Object r) {
    if (r == null) return null;
    Spec.Type t = typeOf(r);
    return t == null ? (isValue(r) ? r : new Real(r)) : read(r);
  }

  private static boolean isValue(Object r) {
    return r instanceof String || r instanceof Number;
  }

  public Object toModelList(List<?> r) {
    if (r == null) return null;
    List<Object> l = new ArrayList<>(r.size());
    for (Object x : r.toArray()) l.add(toModel(x));
    return l;
  }
}
