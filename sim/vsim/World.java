package vsim;

import java.lang.reflect.Method;
import java.util.*;
import java.util.concurrent.Executor;
import java.util.concurrent.locks.LockSupport;

/**
 * One simulated process: virtual time, tasks that run one at a time on the calling thread, and a scheduler
 * whose every decision comes from {@link Choices}. Tasks are JDK virtual threads whose scheduler is this class:
 * a task gives up control only at an instrumented step of the code under test ({@link #step}), when it sleeps,
 * waits for a simulated lock, or parks in java.util.concurrent.
 */
public final class World implements Executor {
  public final Choices ch;
  public final Stats st;
  public final boolean tracing;
  public final StringBuilder trace = new StringBuilder();
  public long now; // virtual nanoseconds
  public long turns, steps, switches;
  private static final long STEP_CAP = 300_000_000L; // of one operation
  public long digest = 0x1234567;
  public boolean nontrivial;
  public long allocMax;

  private long gap = Long.MAX_VALUE;
  private int density; // 0 none, 1 sparse, 2 medium, 3 dense
  private int mod, res; // steps at sites of this residue always preempt
  private final ArrayList<Runnable> ready = new ArrayList<>();
  private final PriorityQueue<Ev> timers = new PriorityQueue<>();
  private final List<Task> tasks = new ArrayList<>();
  private Task current;
  private int live;
  private boolean resumed;
  private long evSeq;
  private Throwable failure;
  private final IdentityHashMap<Object, Mon> mons = new IdentityHashMap<>();

  private static final Method NEW_VT;

  static {
    try {
      NEW_VT = Class.forName("java.lang.ThreadBuilders").getDeclaredMethod("newVirtualThread", Executor.class, String.class, int.class, Runnable.class);
      NEW_VT.setAccessible(true);
    } catch (ReflectiveOperationException e) {
      throw new ExceptionInInitializerError(e);
    }
  }

  public static final class Task {
    public final String name;
    public final int id;
    Thread t;
    boolean done, wake;

    Task(String name, int id) {
      this.name = name;
      this.id = id;
    }

    public boolean done() {
      return done;
    }

    StackTraceElement[] stack() {
      return t.getStackTrace();
    }
  }

  private static final class Ev implements Comparable<Ev> {
    final long at, seq;
    final Runnable r;

    Ev(long at, long seq, Runnable r) {
      this.at = at;
      this.seq = seq;
      this.r = r;
    }

    public int compareTo(Ev o) {
      return at != o.at ? Long.compare(at, o.at) : Long.compare(seq, o.seq);
    }
  }

  private static final class Mon {
    Task owner;
    int depth;
    final ArrayDeque<Task> waiters = new ArrayDeque<>();
  }

  /** The step limit of the run was reached: the code under test does not come to an end. */
  public static final class Hang extends Error {
    Hang(long n) {
      super("no end after " + n + " steps");
    }
  }

  private static final com.sun.management.ThreadMXBean MX = (com.sun.management.ThreadMXBean) java.lang.management.ManagementFactory.getThreadMXBean();
  private final long carrier = Thread.currentThread().threadId();

  /** Bytes allocated so far by the thread all tasks of this world run on. */
  public long allocated() {
    return MX.getThreadAllocatedBytes(carrier);
  }

  public World(Choices ch, Stats st, boolean tracing) {
    this.ch = ch;
    this.st = st;
    this.tracing = tracing;
  }

  // ---- log ----
  public void ev(String tag, long a, long b) {
    digest = Choices.mix(digest * 31 + tag.hashCode() + a * 0x9E3779B97F4A7C15L + Long.rotateLeft(b, 17) + now);
    if (tracing) line(tag + " " + a + " " + b);
    if (collections > 0 && ++evs >= collectAt) collect();
  }

  public void ev(String tag, long a, String s) {
    ev2(tag, a, s.hashCode(), s);
  }

  private void ev2(String tag, long a, long b, String s) {
    digest = Choices.mix(digest * 31 + tag.hashCode() + a * 0x9E3779B97F4A7C15L + Long.rotateLeft(b, 17) + now);
    if (tracing) line(tag + " " + a + " " + s);
    if (collections > 0 && ++evs >= collectAt) collect();
  }

  public void note(String s) {
    if (tracing) line(s);
  }

  private void line(String s) {
    if (trace.length() > 400_000) return;
    trace.append(now).append("ns ").append(current == null ? "-" : current.name).append(": ").append(s.length() > 3000 ? s.substring(0, 3000) + "..." : s).append('\n');
  }

  /** A fault was injected. */
  public void fault(String kind) {
    st.add("fault." + kind, 1);
    nontrivial = true;
    ev("fault:" + kind, 0, 0);
  }

  public void probe(String kind) {
    st.add("probe." + kind, 1);
  }

  // ---- tasks ----
  /**
   * How often tasks are preempted inside the code under test: 0 never ... 3 at almost every step; 4 at every
   * visit of some places of the code and elsewhere rarely.
   */
  public void preemption(int d) {
    density = d;
    if (d < 4) return;
    mod = new int[] {5, 13, 31, 97}[ch.below(4)];
    res = ch.below(mod);
    density = ch.below(2);
  }

  public Task spawn(String name, Body b) {
    Task t = new Task(name, tasks.size());
    tasks.add(t);
    live++;
    Runnable r = () -> {
      try {
        b.run();
      } catch (Throwable e) {
        fail(e);
      } finally {
        t.done = true;
        live--;
      }
    };
    try {
      t.t = (Thread) NEW_VT.invoke(null, (Executor) c -> ready(t, c), name, 0, r);
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
    t.t.start();
    return t;
  }

  public interface Body {
    void run() throws Throwable;
  }

  private final IdentityHashMap<Runnable, Task> owner = new IdentityHashMap<>();

  private void ready(Task t, Runnable c) {
    // normally the world's own thread; a lock of the JDK shared with other worlds can wake a task from theirs
    synchronized (ready) {
      owner.put(c, t);
      ready.add(c);
      if (idle) ready.notifyAll();
    }
  }

  private boolean idle;

  /** Whether a task blocked inside the JDK by another world's thread comes back within a moment. */
  private boolean wokenFromOutside() {
    synchronized (ready) {
      idle = true;
      try {
        long end = System.nanoTime() + 300_000_000L;
        while (ready.isEmpty()) {
          long ms = (end - System.nanoTime()) / 1_000_000;
          if (ms <= 0) return false;
          ready.wait(ms);
        }
        probe("woken_from_outside");
        return true;
      } catch (InterruptedException e) {
        return false;
      } finally {
        idle = false;
      }
    }
  }

  @Override
  public void execute(Runnable r) {
    throw new IllegalStateException();
  }

  public void fail(Throwable e) {
    if (failure == null) failure = e;
  }

  public Throwable failure() {
    return failure;
  }

  public void at(long delay, Runnable r) {
    timers.add(new Ev(now + delay, evSeq++, r));
  }

  public Task current() {
    return current;
  }

  /** Something looked at afterwards, in a thread of its own; it too can find itself blocked for good. */
  public void observe(Body b) {
    if (failure != null) return;
    spawn("observer", b);
    run();
  }

  /** Runs until every task has ended; a failure of a task ends the run. */
  public void run() {
    while (failure == null) {
      if (++turns == 200_000) { // long messages at a step a turn: the rest with few preemptions
        density = 0;
        mod = 0;
      }
      if (turns > 500_000) {
        StringBuilder sb = new StringBuilder();
        for (Task t : tasks) if (!t.done) sb.append(' ').append(t.name);
        fail(new Violation("no-progress", turns + " scheduler turns and still running:" + sb));
        break;
      }
      if (ready.isEmpty()) {
        if (live == 0 && collections > 0) collect();
        Ev e = timers.poll();
        if (e == null) {
          if (live > 0) {
            if (wokenFromOutside()) continue;
            StringBuilder sb = new StringBuilder();
            for (Task t : tasks) if (!t.done) sb.append(' ').append(t.name);
            fail(new Violation("deadlock", "tasks never end:" + sb));
          }
          break;
        }
        if (live == 0) break;
        now = e.at;
        e.r.run();
        continue;
      }
      int i = ready.size() == 1 ? 0 : ch.below(ready.size());
      Runnable c;
      Task t;
      synchronized (ready) {
        c = ready.remove(i);
        t = owner.remove(c);
      }
      if (t != current) {
        switches++;
        digest = Choices.mix(digest + t.id * 7919L + 1);
      }
      current = t;
      resumed = true;
      gap = ready.isEmpty() && mons.isEmpty() && live == 1 ? Long.MAX_VALUE : drawGap();
      c.run();
      current = null;
    }
  }

  private static final long FAIR = 4_000_000; // a task that only waits for others in a loop gives way sometime

  private long drawGap() {
    if (density == 0) return FAIR;
    switch (density) {
      case 1: {
        int k = ch.below(8);
        return k < 5 ? FAIR : k == 5 ? 1 + ch.below(2000) : k == 6 ? 1 + ch.below(300) : 1 + ch.below(40);
      }
      case 2: {
        int k = ch.below(8);
        return k < 1 ? FAIR : k < 4 ? 1 + ch.below(200) : 1 + ch.below(30);
      }
      default:
        return ch.below(16) == 0 ? FAIR : 1 + ch.below(6);
    }
  }

  private long limit = STEP_CAP;

  /** An operation of the library begins: the step limit holds for each. */
  public void operation() {
    limit = steps + STEP_CAP;
  }

  // ---- called from tasks ----
  public void step(int site) {
    if (++steps > limit) throw new Hang(steps);
    if (--gap <= 0 || mod > 0 && site % mod == res) preempt(site);
  }

  /** Counts work without a preemption point. */
  public void work(long n) {
    if ((steps += n) > limit) throw new Hang(steps);
  }

  private void preempt(int site) {
    gap = Long.MAX_VALUE;
    if (current == null) return;
    if (ready.isEmpty() && timers.isEmpty()) {
      gap = drawGap();
      return;
    }
    digest = Choices.mix(digest + site * 31L);
    st.site(site);
    if (tracing) note("preempted at " + Instr.siteName(site));
    nontrivial = true;
    Task me = current;
    resumed = false;
    Thread.yield();
    current = me;
    if (!resumed) gap = drawGap(); // inside a class initialiser or a JDK monitor: not preemptible
  }

  /** Lets any other runnable task run. */
  public void yield() {
    if (current != null && !ready.isEmpty()) {
      Task me = current;
      Thread.yield();
      current = me;
    }
  }

  /** Marks the current task's thread interrupted, as shutting down or timing out sessions do. */
  public void interrupt() {
    Thread.currentThread().interrupt();
    fault("thread_interrupted");
  }

  public static void interruptedNow() {
    World.<RuntimeException>raise(new InterruptedException("simulated"));
  }

  @SuppressWarnings("unchecked")
  private static <T extends Throwable> void raise(Throwable t) throws T {
    throw (T) t;
  }

  /** Takes the mark back; false when the code called in between has swallowed it. */
  public boolean interrupted() {
    return Thread.interrupted();
  }

  public void sleep(long ns) {
    Task me = current;
    boolean[] fired = {false};
    at(ns, () -> {
      fired[0] = true;
      wake(me);
    });
    boolean interrupted = false;
    while (!fired[0]) {
      LockSupport.park(this);
      interrupted |= Thread.interrupted();
    }
    current = me;
    if (interrupted) Thread.currentThread().interrupt();
  }

  /** Parks the current task until {@link #wake} is called for it. */
  public void await() {
    Task me = current;
    boolean interrupted = false;
    while (!me.wake) {
      LockSupport.park(this);
      interrupted |= Thread.interrupted();
    }
    me.wake = false;
    current = me;
    if (interrupted) Thread.currentThread().interrupt();
  }

  public void wake(Task t) {
    t.wake = true;
    LockSupport.unpark(t.t);
  }

  // ---- the platform the process runs on ----
  private java.nio.charset.Charset charset = java.nio.charset.StandardCharsets.UTF_8;
  private Locale locale = Locale.ROOT;
  /** whether assert statements are executed */
  public boolean asserts;
  private int collections; // how many times unreachable objects are still collected in this run
  private long collectAt = -1, evs;
  private static final String[] CHARSETS = {"ISO-8859-1", "US-ASCII", "GBK", "windows-1252", "UTF-16"};
  private static final String[] LOCALES = {"tr-TR", "ar-EG-u-nu-arab", "hi-IN-u-nu-deva", "de-DE", "lt-LT"};

  /** Draws what differs between the machines a library is used on. */
  public void platform(boolean weak) {
    int k = ch.below(8);
    if (k >= 6) charset = java.nio.charset.Charset.forName(CHARSETS[ch.below(CHARSETS.length)]);
    k = ch.below(8);
    if (k >= 6) locale = Locale.forLanguageTag(LOCALES[ch.below(LOCALES.length)]);
    asserts = ch.below(4) == 3;
    if (weak && ch.below(48) == 47) {
      collections = 2;
      collectAt = 1 + ch.below(24);
    }
  }

  public java.nio.charset.Charset platformCharset() {
    probe("platform_charset_used");
    return charset;
  }

  public Locale platformLocale() {
    probe("platform_locale_used");
    return locale;
  }

  private long wall = 1_700_000_000_000L;

  /** The clock of the machine; it can be set forward and back while the process runs. */
  public long wallClock() {
    int k = ch.below(16);
    if (k >= 14) {
      wall += new long[] {1, -1, 1000, -1000, 60_000, 3_600_000, -3_600_000, 86_400_000L}[ch.below(8)];
      fault("clock_jump");
    }
    return wall + now / 1_000_000;
  }

  public long threadId() {
    return current == null ? 1 : 10 + current.id;
  }

  public long randomSeed() {
    return ch.bits();
  }

  private IdentityHashMap<Object, Integer> ids;

  public int identity(Object o) {
    if (ids == null) ids = new IdentityHashMap<>();
    Integer i = ids.get(o);
    if (i == null) ids.put(o, i = (int) Choices.mix(ids.size() + 77));
    return i;
  }

  /** Something the code holds weakly. */
  public interface Pin {
    void pin(boolean on);
  }

  private final List<Pin> pins = new ArrayList<>();

  public void pin(Pin p) {
    pins.add(p);
  }

  private void collect() {
    collections--;
    collectAt = evs + 1 + ch.below(40);
    for (Pin p : pins) p.pin(false);
    System.gc();
    for (Pin p : pins) p.pin(true);
    st.add("fault.garbage_collection", 1);
  }

  /** When positive: how many more times the code under test can take memory from the heap before that fails. */
  public int heapLeft;
  /** It has failed. */
  public boolean heapFired;

  public void heapExhausted() {
    // a class that cannot be initialised stays unusable for good: that is how the platform works
    if (StackWalker.getInstance().walk(f -> f.anyMatch(x -> x.getMethodName().equals("<clinit>")))) {
      heapLeft = 1;
      return;
    }
    heapFired = true;
    fault("heap_exhausted");
    throw new OutOfMemoryError("simulated");
  }

  /** Ends what setting heapLeft began; true when it has failed in between. */
  public boolean heapDone() {
    boolean f = heapFired;
    heapLeft = 0;
    heapFired = false;
    return f;
  }

  // ---- simulated monitors ----
  public void enter(Object o) {
    if (current == null) return;
    Task me = current;
    Mon m = mons.computeIfAbsent(o, k -> new Mon());
    if (m.owner == null || m.owner == me) {
      m.owner = me;
      m.depth++;
      return;
    }
    m.waiters.add(me);
    probe("monitor_contended");
    int spins = 0;
    boolean interrupted = false;
    while (m.owner != me) {
      me.wake = false;
      LockSupport.park(this);
      interrupted |= Thread.interrupted();
      if (++spins > 1_000_000) throw new Hang(spins);
    }
    current = me;
    m.depth = 1;
    if (interrupted) Thread.currentThread().interrupt();
  }

  public void exit(Object o) {
    if (current == null) return;
    Mon m = mons.get(o);
    if (m == null || m.owner != current) return;
    if (--m.depth > 0) return;
    m.owner = null;
    if (m.waiters.isEmpty()) {
      mons.remove(o);
      return;
    }
    // which waiter gets the monitor is a scheduling decision
    int i = m.waiters.size() == 1 ? 0 : ch.below(m.waiters.size());
    Iterator<Task> it = m.waiters.iterator();
    Task t = it.next();
    while (i-- > 0) t = it.next();
    m.waiters.remove(t);
    m.owner = t;
    LockSupport.unpark(t.t);
  }
}
