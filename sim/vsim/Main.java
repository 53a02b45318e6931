package vsim;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;

/** Search over seeds, minimisation, replay and evidence. */
public final class Main {
  static Path home, out;
  static Spec spec;
  static Instr in;

  /** Result of one simulated run. */
  static final class Res {
    long digest, steps, now, switches;
    int choices;
    boolean nontrivial;
    Violation bad;
    Throwable harness;
    long[] rec;
    String trace;
  }

  static Res run(String id, Choices ch, int focus, boolean tracing, Stats st) {
    World w = new World(ch, st, tracing);
    Res r = new Res();
    Ctx c = null;
    RUNNING.put(Thread.currentThread(), w);
    try {
      w.platform(in.weak);
      Repo repo = new Repo(spec, in, w.asserts);
      repo.attach(w);
      repo.listKind = Math.max(0, ch.below(8) - 3);
      c = new Ctx(ch, w, repo, spec, in, st, focus);
      Throwable e = null;
      try {
        Scen.of(id).run(c);
      } catch (Throwable x) {
        e = x;
      }
      if (e == null || w.failure() != null) e = w.failure();
      if (e != null) classify(r, e);
    } catch (Throwable x) {
      r.harness = x;
    } finally {
      RUNNING.remove(Thread.currentThread());
      if (c != null) c.bufs.releaseAll();
    }
    r.digest = w.digest;
    r.steps = w.steps;
    r.now = w.now;
    r.switches = w.switches;
    r.choices = ch.count();
    r.nontrivial = w.nontrivial;
    if (r.bad != null || r.harness != null || tracing) r.rec = ch.recorded();
    if (tracing) r.trace = w.trace.toString();
    st.runs++;
    st.steps += r.steps;
    st.simNs += r.now;
    st.switches += r.switches;
    if (r.nontrivial && st.digests.add(r.digest)) st.nontrivial++;
    return r;
  }

  private static final ConcurrentHashMap<Thread, World> RUNNING = new ConcurrentHashMap<>();
  private static final long STALL = 120_000_000_000L;

  /** A run that has made no progress for minutes inside a call of the code under test: its course so far. */
  static Res stalled(World w) {
    World.Task k = w == null ? null : w.current();
    if (k == null) return null;
    StackTraceElement[] es = k.stack();
    String where = null;
    for (StackTraceElement e : es) {
      String n = e.getClassName();
      if (n.startsWith("com.finproto.") || n.startsWith("vsim.jdk.")) {
        where = es[0] + " called from " + e;
        break;
      }
      if (n.startsWith("vsim.") && !n.startsWith("vsim.inst.")) break;
    }
    if (where == null) return null;
    Res r = new Res();
    r.bad = new Violation("hang", "no end after two minutes of real time in " + where);
    r.rec = w.ch.recorded();
    r.choices = r.rec.length;
    r.trace = w.trace.toString();
    r.digest = w.digest;
    return r;
  }

  private static void classify(Res r, Throwable e) {
    if (e instanceof Violation) r.bad = (Violation) e;
    else if (e instanceof World.Hang) r.bad = new Violation("hang", "no end in sight: " + e.getMessage(), e);
    else {
      for (StackTraceElement f : e.getStackTrace()) {
        String n = f.getClassName();
        if (n.startsWith("com.finproto.") || n.startsWith("vsim.jdk.")) {
          r.bad = new Violation("unexpected " + e.getClass().getSimpleName(), "in " + f + ": " + e, e);
          return;
        }
        if (n.startsWith("vsim.") && !n.startsWith("vsim.inst.") || n.startsWith("vbridge.")) break;
      }
      r.harness = e;
    }
  }

  static long seedOf(long seed, String id, int idx) {
    return Choices.mix(Choices.mix(seed * 0x9E3779B97F4A7C15L + id.hashCode()) + idx);
  }

  public static void main(String[] a) throws Exception {
    home = Paths.get(System.getProperty("vsim.home"));
    out = Paths.get(System.getProperty("vsim.out"));
    spec = new Spec(home.resolve("spec"));
    in = new Instr();
    in.load(out.resolve("repo"), out.resolve("bridge"));
    int rc;
    if (a[0].equals("replay")) rc = replay(Paths.get(a[1]));
    else if (a[0].equals("survey")) rc = survey(a[1]);
    else if (a[0].equals("twice")) rc = twice(a[1]);
    else rc = search(a[0]);
    System.out.flush();
    Runtime.getRuntime().halt(rc);
  }

  static <T> T bigStack(Callable<T> c) throws Exception {
    FutureTask<T> f = new FutureTask<>(c);
    Thread t = new Thread(null, f, "sim", 64L << 20);
    t.setDaemon(true);
    t.start();
    return f.get();
  }

  /**
   * A few runs on one thread before several work side by side: tables shared by the whole JVM are filled without
   * contention, whose losers the JDK makes yield - a scheduling turn that no seed decides.
   */
  private static void warmUp(String id, long seed) throws Exception {
    long end = System.nanoTime() + 2_000_000_000L;
    for (int i = 0; i < 40 && System.nanoTime() < end; i++) {
      int f = i * 53;
      bigStack(() -> run(id, new Choices(seedOf(~seed, id, f)), f, false, new Stats()));
    }
  }

  // ---- search ----
  static int search(String id) throws Exception {
    long t0 = System.nanoTime();
    long seed = Long.parseLong(System.getenv().getOrDefault("VERIF_SEED", "1"));
    String tier = System.getenv().getOrDefault("VERIF_TIER", "quick");
    boolean thorough = tier.equals("thorough");
    Plan plan = Plan.of(id);
    int max = Integer.getInteger("vsim.runs", thorough ? plan.thorough : plan.quick);
    long capNs = (thorough ? 700L : 200L) * 1_000_000_000L;
    int from = Integer.getInteger("vsim.from", 0);
    int workers = Integer.getInteger("vsim.workers", Math.min(8, Runtime.getRuntime().availableProcessors()));
    List<Finding> known = Finding.load(home.resolve("known-findings.txt"), id);

    AtomicInteger next = new AtomicInteger(from);
    AtomicInteger stopAt = new AtomicInteger(Integer.MAX_VALUE);
    ConcurrentSkipListMap<Integer, Res> failed = new ConcurrentSkipListMap<>();
    ConcurrentHashMap<Finding, Integer> knownHits = new ConcurrentHashMap<>();
    ConcurrentHashMap<Integer, long[]> sampleDigest = new ConcurrentHashMap<>();
    ConcurrentSkipListSet<Integer> again = new ConcurrentSkipListSet<>();
    AtomicBoolean capped = new AtomicBoolean();
    Stats[] stats = new Stats[workers];
    long[] began = new long[workers];
    int[] at = new int[workers];
    Thread[] ts = new Thread[workers];
    Queue<String> unrepeatable = new ConcurrentLinkedQueue<>();
    warmUp(id, seed);
    for (int k = 0; k < workers; k++) {
      int kk = k;
      Stats st = stats[k] = new Stats();
      ts[k] = new Thread(null, () -> {
        for (;;) {
          if (System.nanoTime() - t0 > capNs) {
            capped.set(true);
            return;
          }
          int i = next.getAndIncrement();
          if (i >= from + max || i > stopAt.get()) return;
          at[kk] = i;
          began[kk] = System.nanoTime();
          Res r;
          try {
            r = run(id, new Choices(seedOf(seed, id, i)), i, false, st);
          } catch (OutOfMemoryError e) { // all workers share the heap: tried again alone
            again.add(i);
            continue;
          } finally {
            began[kk] = 0;
          }
          if (r.harness instanceof OutOfMemoryError || r.bad != null && r.bad.getCause() instanceof OutOfMemoryError) {
            again.add(i);
            continue;
          }
          if ((r.bad != null || r.harness != null) && unrepeatable.size() < 3) {
            // a violation is a violation when its seed shows it again
            Res again2 = run(id, new Choices(seedOf(seed, id, i)), i, false, new Stats());
            if (again2.bad == null && again2.harness == null) {
              unrepeatable.add("run " + i + ": " + (r.bad != null ? r.bad : r.harness));
              continue;
            }
          }
          if ((i - from) % Math.max(1, max / 24) == 0) sampleDigest.put(i, new long[] {r.digest, r.choices, r.steps});
          if (r.harness != null) {
            failed.put(i, r);
            stopAt.accumulateAndGet(i, Math::min);
          }
          if (r.bad != null) {
            Finding f = Finding.match(known, r.bad);
            if (f != null) {
              knownHits.merge(f, 1, Integer::sum);
              continue;
            }
            failed.put(i, r);
            stopAt.accumulateAndGet(i, Math::min);
          }
        }
      }, "worker" + k, 64L << 20);
      ts[k].setDaemon(true);
      ts[k].start();
    }
    for (int k = 0; k < workers; k++) {
      while (ts[k].isAlive()) {
        ts[k].join(1000);
        for (int q = 0; q < workers; q++) {
          long b = began[q];
          if (b != 0 && System.nanoTime() - b > STALL) {
            Res r = stalled(RUNNING.get(ts[q]));
            if (r != null) {
              String file = write(id, seed, at[q], r, r);
              System.out.println("run " + at[q] + " seed " + Long.toHexString(seedOf(seed, id, at[q])) + ": " + r.bad.getMessage());
              System.out.println("VIOLATION property=" + id + " replay=" + file);
              Stats st = new Stats();
              st.runs = at[q] - from + 1;
              evidence(id, tier, seed, plan, st, System.nanoTime() - t0, (System.nanoTime() - t0) / 1e9, List.of(), 0, 0, false, 1, file, workers, 0);
              return 1;
            }
            System.err.println("harness: run " + at[q] + " of " + id + " makes no progress in real time");
            for (StackTraceElement e : ts[q].getStackTrace()) System.err.println("  at " + e);
            return 3;
          }
        }
      }
    }
    for (int i : again) {
      if (i > stopAt.get()) continue;
      Res r;
      try {
        r = bigStack(() -> run(id, new Choices(seedOf(seed, id, i)), i, false, stats[0]));
      } catch (Exception e) {
        System.err.println("harness: run " + i + " of " + id + ": " + e);
        return 3;
      }
      if (r.bad != null || r.harness != null) {
        failed.put(i, r);
        stopAt.accumulateAndGet(i, Math::min);
      }
    }
    for (String x : unrepeatable) System.err.println("note: not seen again when repeated: " + x);
    long searchNs = System.nanoTime() - t0;
    Stats st = new Stats();
    for (Stats s : stats) st.merge(s);
    st.nontrivial = st.digests.size();
    Map.Entry<Integer, Res> first = failed.firstEntry();
    if (first != null && first.getValue().harness != null) {
      // a violation elsewhere still counts; else the harness itself failed
      Map.Entry<Integer, Res> v = null;
      for (var e : failed.entrySet())
        if (e.getValue().bad != null) {
          v = e;
          break;
        }
      System.err.println("harness error in run " + first.getKey() + " of " + id);
      first.getValue().harness.printStackTrace();
      if (v == null) return 2;
      first = v;
    }
    // the same seed gives the same execution
    int rechecked = 0, differ = 0;
    if (first == null) {
      for (var e : sampleDigest.entrySet()) {
        int i = e.getKey();
        Res r = bigStack(() -> run(id, new Choices(seedOf(seed, id, i)), i, false, new Stats()));
        rechecked++;
        if (r.digest != e.getValue()[0] || r.choices != e.getValue()[1]) {
          differ++;
          System.err.println("note: run " + i + " took a different course when repeated (" + r.choices + "/" + e.getValue()[1] + " choices, " + r.steps + "/" + e.getValue()[2] + " steps)");
        }
      }
    }
    List<String> samples = new ArrayList<>();
    int[] pick = {from, from + Math.max(1, (int) (st.runs / 2)), from + Math.max(2, (int) st.runs - 1)};
    for (int i : pick) {
      Res r = bigStack(() -> run(id, new Choices(seedOf(seed, id, i)), i, true, new Stats()));
      samples.add("run " + i + " seed " + Long.toHexString(seedOf(seed, id, i)) + " choices " + r.choices + " digest " + Long.toHexString(r.digest) + "\n" + (r.trace.length() > 1500 ? r.trace.substring(0, 1500) + "..." : r.trace));
    }
    String replayFile = null;
    if (first != null) {
      int i = first.getKey();
      Res r = first.getValue();
      long[] min = bigStack(() -> shrink(id, i, r.rec, r.bad.kind, 25_000_000_000L));
      Res fin = bigStack(() -> run(id, new Choices(min), i, true, new Stats()));
      if (fin.bad == null) {
        System.err.println("note: the minimised schedule does not reproduce; using the recorded one");
        fin = bigStack(() -> run(id, new Choices(r.rec), i, true, new Stats()));
      }
      if (fin.bad == null) fin.bad = r.bad;
      replayFile = write(id, seed, i, fin, r);
      System.out.println("run " + i + " seed " + Long.toHexString(seedOf(seed, id, i)) + ": " + r.bad.getMessage());
      System.out.println("minimised from " + r.choices + " to " + fin.rec.length + " choices: " + fin.bad.getMessage());
      System.out.println("VIOLATION property=" + id + " replay=" + replayFile);
    }
    for (Finding f : known) {
      // the finding itself is always reported; hits say whether this search met it
      System.out.println("KNOWN-FINDING: property=" + id + " " + f.text + " (met " + knownHits.getOrDefault(f, 0) + " times)");
    }
    double wall = (System.nanoTime() - t0) / 1e9 + Double.parseDouble(System.getProperty("vsim.prep", "0"));
    evidence(id, tier, seed, plan, st, searchNs, wall, samples, rechecked, differ, capped.get(), first != null ? 1 : 0, replayFile, workers, knownHits.values().stream().mapToInt(x -> x).sum());
    System.out.println(id + ": " + st.runs + " runs, " + st.digests.size() + " distinct non-trivial, " + st.messages + " operations, " + st.steps + " steps, " + st.switches + " switches, " + String.format("%.1f", searchNs / 1e9) + " s" + (capped.get() ? " (time cap)" : "") + (differ > 0 ? ", " + differ + " not repeatable" : ""));
    return first != null ? 1 : 0;
  }

  /** Development aid: runs everything and lists what fails, grouped. */
  static int survey(String id) throws Exception {
    long seed = Long.parseLong(System.getenv().getOrDefault("VERIF_SEED", "1"));
    int max = Integer.getInteger("vsim.runs", 1000);
    AtomicInteger next = new AtomicInteger();
    ConcurrentSkipListMap<String, List<String>> groups = new ConcurrentSkipListMap<>();
    Thread[] ts = new Thread[8];
    Stats[] stats = new Stats[8];
    long t0 = System.nanoTime();
    for (int k = 0; k < 8; k++) {
      Stats st = stats[k] = new Stats();
      ts[k] = new Thread(null, () -> {
        for (int i; (i = next.getAndIncrement()) < max; ) {
          Res r = run(id, new Choices(seedOf(seed, id, i)), i, false, st);
          Throwable e = r.bad != null ? r.bad : r.harness;
          if (e == null) continue;
          String m = String.valueOf(e.getMessage()).split("\n")[0];
          if (r.harness != null) {
            StringWriter sw = new StringWriter();
            e.printStackTrace(new PrintWriter(sw));
            m = "HARNESS " + sw;
          }
          String g = (r.bad != null ? r.bad.kind : "harness " + e.getClass()) + " ~ " + m.replaceAll("\\b[0-9a-f]*[0-9]+[0-9a-f]*\\b", "#");
          g = g.substring(0, Math.min(Integer.getInteger("vsim.group", 60), g.length()));
          List<String> l = groups.computeIfAbsent(g, x -> Collections.synchronizedList(new ArrayList<>()));
          l.add(i + ": " + m.substring(0, Math.min(r.harness != null ? 3000 : 400, m.length())));
        }
      }, "s" + k, 64L << 20);
      ts[k].start();
    }
    for (Thread t : ts) t.join();
    Stats st = new Stats();
    for (Stats x : stats) st.merge(x);
    groups.forEach((g, l) -> System.out.println(l.size() + "x  " + l.get(0)));
    System.out.println(id + ": " + st.runs + " runs in " + (System.nanoTime() - t0) / 1000000 + " ms, " + st.digests.size() + " nontrivial, " + st.messages + " ops, " + st.steps + " steps, " + st.switches + " switches, types " + st.types.cardinality() + " faults/probes");
    st.c.forEach((k, v) -> System.out.print(k + "=" + v[0] + " "));
    System.out.println();
    return 0;
  }

  /** Development aid: runs everything twice and reports runs that took a different course. */
  static int twice(String id) throws Exception {
    long seed = Long.parseLong(System.getenv().getOrDefault("VERIF_SEED", "1"));
    int from = Integer.getInteger("vsim.from", 0), max = Integer.getInteger("vsim.runs", 1000);
    AtomicInteger next = new AtomicInteger(from);
    ConcurrentHashMap<Integer, long[]> first = new ConcurrentHashMap<>();
    AtomicInteger differ = new AtomicInteger();
    warmUp(id, seed);
    for (int pass = 0; pass < 2; pass++) {
      int p = pass;
      next.set(from);
      Thread[] ts = new Thread[8];
      for (int k = 0; k < 8; k++) {
        ts[k] = new Thread(null, () -> {
          for (int i; (i = next.getAndIncrement()) < max; ) {
            Res r = run(id, new Choices(seedOf(seed, id, i)), i, false, new Stats());
            long[] d = {r.digest, r.choices, r.steps, r.switches, r.now};
            if (p == 0) first.put(i, d);
            else if (!Arrays.equals(d, first.get(i))) {
              differ.incrementAndGet();
              System.out.println("run " + i + ": " + Arrays.toString(first.get(i)) + " then " + Arrays.toString(d));
            }
          }
        }, "s" + k, 64L << 20);
        ts[k].start();
      }
      for (Thread t : ts) t.join();
    }
    System.out.println(id + ": " + differ + " of " + (max - from) + " runs differ when repeated");
    return 0;
  }

  // ---- minimisation ----
  static long[] shrink(String id, int focus, long[] rec, String kind, long budget) {
    long end = System.nanoTime() + budget;
    long[] best = rec;
    if (!fails(id, focus, best, kind)) return best;
    boolean any = true;
    while (any && System.nanoTime() < end) {
      any = false;
      // cut the tail
      for (int keep = 0; keep < best.length; keep = keep == 0 ? 1 : keep * 2) {
        if (System.nanoTime() > end) break;
        long[] x = Arrays.copyOf(best, keep);
        if (fails(id, focus, x, kind)) {
          best = x;
          any = true;
          break;
        }
      }
      // zero and delete chunks
      for (int size = Math.max(1, best.length / 2); size >= 1; size /= 2) {
        for (int p = 0; p + size <= best.length && System.nanoTime() < end; p += size) {
          long[] x = best.clone();
          boolean zero = true;
          for (int k = p; k < p + size; k++) {
            zero &= x[k] == 0;
            x[k] = 0;
          }
          if (!zero && fails(id, focus, x, kind)) {
            best = x;
            any = true;
          }
          long[] y = new long[best.length - size];
          System.arraycopy(best, 0, y, 0, p);
          System.arraycopy(best, p + size, y, p, best.length - p - size);
          if (fails(id, focus, y, kind)) {
            best = y;
            any = true;
            p -= size;
          }
        }
        if (System.nanoTime() > end) break;
      }
      // smaller values
      for (int p = 0; p < best.length && System.nanoTime() < end; p++) {
        while (best[p] != 0 && System.nanoTime() < end) {
          long[] x = best.clone();
          x[p] = x[p] / 2;
          if (!fails(id, focus, x, kind)) {
            x[p] = best[p] - 1;
            if (best[p] < 0 || best[p] > 40 || !fails(id, focus, x, kind)) break;
          }
          best = x;
          any = true;
        }
      }
    }
    int n = best.length;
    while (n > 0 && best[n - 1] == 0) n--;
    long[] x = Arrays.copyOf(best, n);
    return fails(id, focus, x, kind) ? x : best;
  }

  private static boolean fails(String id, int focus, long[] c, String kind) {
    Res r = run(id, new Choices(c), focus, false, new Stats());
    return r.bad != null && r.bad.kind.equals(kind);
  }

  // ---- replay files ----
  static String write(String id, long seed, int idx, Res fin, Res orig) throws IOException {
    Path dir = home.resolve("evidence/replays");
    Files.createDirectories(dir);
    Path f = dir.resolve(id + "-" + seed + "-" + idx + ".replay");
    StringBuilder sb = new StringBuilder();
    sb.append("property ").append(id).append('\n');
    sb.append("seed ").append(Long.toHexString(seedOf(seed, id, idx))).append(" (VERIF_SEED ").append(seed).append(", run ").append(idx).append(")\n");
    sb.append("focus ").append(idx).append('\n');
    sb.append("kind ").append(fin.bad.kind).append('\n');
    sb.append("digest ").append(Long.toHexString(fin.digest)).append('\n');
    sb.append("choices");
    for (long v : fin.rec) sb.append(' ').append(v);
    sb.append('\n');
    sb.append("violation ").append(fin.bad.getMessage().replace('\n', '|')).append('\n');
    sb.append("found-as ").append(orig.bad.getMessage().replace('\n', '|')).append('\n');
    sb.append("trace\n").append(fin.trace == null ? "" : fin.trace);
    Files.writeString(f, sb.toString());
    return f.toString();
  }

  static int replay(Path p) throws Exception {
    String id = null, kind = null;
    int focus = 0;
    long digest = 0;
    long[] ch = {};
    for (String l : Files.readAllLines(p)) {
      if (l.equals("trace")) break;
      if (l.startsWith("property ")) id = l.substring(9);
      if (l.startsWith("focus ")) focus = Integer.parseInt(l.substring(6));
      if (l.startsWith("kind ")) kind = l.substring(5);
      if (l.startsWith("digest ")) digest = Long.parseUnsignedLong(l.substring(7), 16);
      if (l.startsWith("choices")) ch = Arrays.stream(l.substring(7).trim().split(" ")).filter(s -> !s.isEmpty()).mapToLong(Long::parseLong).toArray();
    }
    String i = id;
    int f = focus;
    long[] cc = ch;
    FutureTask<Res> job = new FutureTask<>(() -> run(i, new Choices(cc), f, true, new Stats()));
    Thread t = new Thread(null, job, "sim", 64L << 20);
    t.setDaemon(true);
    t.start();
    Res r;
    try {
      r = job.get(STALL, TimeUnit.NANOSECONDS);
    } catch (TimeoutException e) {
      r = stalled(RUNNING.get(t));
      if (r == null) {
        System.err.println("replay: no progress");
        return 3;
      }
    }
    System.out.print(r.trace);
    if (r.harness != null) {
      r.harness.printStackTrace();
      return 2;
    }
    if (r.bad == null) {
      System.out.println("replay: the property holds on this schedule");
      return 0;
    }
    r.bad.printStackTrace(System.out);
    System.out.println("replay: " + r.bad.getMessage());
    System.out.println("replay: same kind " + r.bad.kind.equals(kind) + ", same execution " + (r.digest == digest));
    System.out.println("VIOLATION property=" + id + " replay=" + p);
    return 1;
  }

  // ---- evidence ----
  static void evidence(String id, String tier, long seed, Plan plan, Stats st, long searchNs, double wall, List<String> samples, int rechecked, int differ, boolean capped, int violations, String replay, int workers, int knownHits) throws IOException {
    StringBuilder sb = new StringBuilder("{\n");
    kv(sb, " ", "property", id);
    kv(sb, " ", "tier", tier);
    sb.append(" \"seed\": ").append(seed).append(",\n");
    kv(sb, " ", "level", "exploration");
    sb.append(" \"coverage\": {\n");
    num(sb, "evaluations", st.runs);
    num(sb, "distinct_nontrivial", st.digests.size());
    kv(sb, "  ", "rule", plan.rule + " One evaluation is one simulated run, decided entirely by its seed. A run is non-trivial when at least one fault was injected, a task was preempted inside the code under test, or the scenario reached its non-default condition; runs are distinct when the hash over all their events, scheduling decisions, results and virtual times differs.");
    double h = searchNs / 3.6e12;
    num(sb, "runs_per_hour", Math.round(st.runs / h));
    num(sb, "seeds_per_hour", Math.round(st.runs / h));
    num(sb, "simulated_time_ns", st.simNs);
    num(sb, "steps_of_instrumented_code", st.steps);
    num(sb, "context_switches", st.switches);
    num(sb, "operations", st.messages);
    num(sb, "bytes_encoded", st.bytes);
    num(sb, "distinct_preemption_sites", st.sites.cardinality());
    num(sb, "instrumented_sites", Instr.sites());
    num(sb, "message_types_exercised", st.types.cardinality());
    num(sb, "message_types_total", spec.types.size());
    num(sb, "known_finding_hits", knownHits);
    sb.append("  \"faults_injected\": {");
    sep(sb, st, "fault.");
    sb.append("},\n  \"probes\": {");
    sep(sb, st, "probe.");
    sb.append("},\n");
    sb.append("  \"repeat_check\": {\"runs_repeated\": ").append(rechecked).append(", \"different\": ").append(differ).append("},\n");
    sb.append("  \"stopped_by_time_cap\": ").append(capped).append(",\n");
    num(sb, "workers", workers);
    kv(sb, "  ", "real_components", "all classes under com.finproto compiled from the working tree of /repo, netty ByteBuf implementations, JDK");
    kv(sb, "  ", "simulated_components", "thread scheduler, monitors, clock, network (segmentation, delay, loss by reset, retransmission, duplication), buffer memory and its allocation failures; java.util.HashMap as instrumented copy of the JDK's");
    if (replay != null) kv(sb, "  ", "replay", replay);
    sb.append("  \"samples\": [");
    for (int i = 0; i < samples.size(); i++) sb.append(i > 0 ? ", " : "").append(q(samples.get(i)));
    sb.append("]\n },\n");
    sb.append(" \"assumptions\": [");
    for (int i = 0; i < plan.assumptions.size(); i++) sb.append(i > 0 ? ", " : "").append(q(plan.assumptions.get(i)));
    sb.append("],\n");
    sb.append(" \"violations\": ").append(violations).append(",\n");
    sb.append(" \"wall_s\": ").append(String.format(Locale.ROOT, "%.2f", wall)).append("\n}\n");
    Path f = home.resolve("evidence/" + id + ".json");
    Files.createDirectories(f.getParent());
    Files.writeString(f, sb.toString());
  }

  private static void sep(StringBuilder sb, Stats st, String prefix) {
    boolean first = true;
    for (var e : st.c.entrySet()) {
      if (!e.getKey().startsWith(prefix)) continue;
      sb.append(first ? "" : ", ").append(q(e.getKey().substring(prefix.length()))).append(": ").append(e.getValue()[0]);
      first = false;
    }
  }

  private static void num(StringBuilder sb, String k, long v) {
    sb.append("  \"").append(k).append("\": ").append(v).append(",\n");
  }

  private static void kv(StringBuilder sb, String ind, String k, String v) {
    sb.append(ind).append(q(k)).append(": ").append(q(v)).append(",\n");
  }

  static String q(String s) {
    StringBuilder sb = new StringBuilder("\"");
    for (int i = 0; i < s.length(); i++) {
      char ch = s.charAt(i);
      if (ch == '"' || ch == '\\') sb.append('\\').append(ch);
      else if (ch == '\n') sb.append("\\n");
      else if (ch < 0x20 || ch >= 0x7f) sb.append(String.format("\\u%04x", (int) ch));
      else sb.append(ch);
    }
    return sb.append('"').toString();
  }

  /** A recorded genuine defect that is not repaired. */
  static final class Finding {
    String kind, contains, text;

    static List<Finding> load(Path p, String id) throws IOException {
      List<Finding> l = new ArrayList<>();
      if (!Files.exists(p)) return l;
      for (String s : Files.readAllLines(p)) {
        // open: property=<id> kind=<kind> | <part of the message> | <text>
        if (!s.startsWith("open: property=" + id + " ")) continue;
        String[] a = s.substring(("open: property=" + id + " ").length()).split("\\|");
        Finding f = new Finding();
        f.kind = a[0].trim().substring(5);
        f.contains = a[1].trim();
        f.text = a[2].trim();
        l.add(f);
      }
      return l;
    }

    static Finding match(List<Finding> l, Violation v) {
      for (Finding f : l) if (v.kind.equals(f.kind) && v.getMessage().contains(f.contains)) return f;
      return null;
    }
  }
}
