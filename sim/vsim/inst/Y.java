package vsim.inst;

import vsim.World;

/** Target of the inserted calls. One copy of this class exists per run (it is defined by the run's class loader). */
public final class Y {
  public static World w;

  public static void y(int site) {
    World x = w;
    if (x != null) x.step(site);
  }

  public static void enter(Object o) {
    World x = w;
    if (x != null) x.enter(o);
  }

  public static void exit(Object o) {
    World x = w;
    if (x != null) x.exit(o);
  }

  /** Array sizes asked for by the code under test: an absurd one fails like the real allocation would. */
  public static int alloc(int n) {
    World x = w;
    if (x != null) {
      if (n > x.allocMax) x.allocMax = n;
      if (n > 64 << 20) throw new OutOfMemoryError("simulated: array of " + n);
    }
    return n;
  }

  /** The code under test is about to take memory from the heap. */
  public static void heap() {
    World x = w;
    if (x != null && x.heapLeft > 0 && --x.heapLeft == 0) x.heapExhausted();
  }

  /** Hash codes that do not depend on object identity. */
  public static int hash(Object o) {
    if (o instanceof Class) return ((Class<?>) o).getName().hashCode();
    if (o instanceof Enum) return ((Enum<?>) o).name().hashCode();
    int h = o.hashCode();
    World x = w;
    return x != null && !(o instanceof String) && !(o instanceof Number) && h == System.identityHashCode(o) ? x.identity(o) : h;
  }

  // ---- what the platform decides ----
  public static java.nio.charset.Charset charset() {
    World x = w;
    return x != null ? x.platformCharset() : java.nio.charset.StandardCharsets.UTF_8;
  }

  public static java.util.Locale locale() {
    World x = w;
    return x != null ? x.platformLocale() : java.util.Locale.ROOT;
  }

  public static String format(String f, Object[] a) {
    return String.format(locale(), f, a);
  }

  public static long millis() {
    World x = w;
    return x != null ? x.wallClock() : 0;
  }

  public static long nanos() {
    World x = w;
    return x != null ? x.now + x.steps : 0;
  }

  public static void sleep(long ms) {
    World x = w;
    if (Thread.interrupted()) World.interruptedNow();
    if (x != null && x.current() != null) x.sleep(ms * 1_000_000);
    if (Thread.interrupted()) World.interruptedNow();
  }

  public static long threadId(Thread t) {
    World x = w;
    return x != null ? x.threadId() : 1;
  }

  public static String threadName(Thread t) {
    return "thread-" + threadId(t);
  }

  public static long randomSeed() {
    World x = w;
    return x != null ? x.randomSeed() : 0;
  }

  public static double random() {
    return new java.util.Random(randomSeed()).nextDouble();
  }

  public static int identity(Object o) {
    World x = w;
    return o == null || x == null ? 0 : x.identity(o);
  }

  /** Copying takes work in proportion to its length. */
  public static void arraycopy(Object s, int sp, Object d, int dp, int n) {
    World x = w;
    if (x != null && n > 64) x.work(n >> 3);
    System.arraycopy(s, sp, d, dp, n);
  }

  public static java.nio.charset.CharsetEncoder encoder(java.nio.charset.Charset cs) {
    return new SimCoder.Enc(cs);
  }

  public static java.nio.charset.CharsetDecoder decoder(java.nio.charset.Charset cs) {
    return new SimCoder.Dec(cs);
  }

  // ---- text ----
  /** Making a text takes work in proportion to its length. */
  public static void text(String s) {
    World x = w;
    if (x != null && s != null && s.length() > 64) x.work(s.length() >> 3);
  }

  private static CharSequence counted(CharSequence s) {
    World x = w;
    return x != null && s != null ? new vsim.Counted(s, x) : s;
  }

  public static java.util.regex.Matcher matcher(java.util.regex.Pattern p, CharSequence s) {
    return p.matcher(counted(s));
  }

  public static boolean patternMatches(String p, CharSequence s) {
    return java.util.regex.Pattern.matches(p, counted(s));
  }

  public static boolean matches(String s, String p) {
    return java.util.regex.Pattern.matches(p, counted(s));
  }

  public static String replaceAll(String s, String p, String r) {
    return java.util.regex.Pattern.compile(p).matcher(counted(s)).replaceAll(r);
  }

  public static String replaceFirst(String s, String p, String r) {
    return java.util.regex.Pattern.compile(p).matcher(counted(s)).replaceFirst(r);
  }
}
