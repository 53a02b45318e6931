package vsim;

import io.netty.buffer.ByteBuf;
import java.util.*;

/** Everything one run has. */
public final class Ctx {
  public final Choices ch;
  public final World w;
  public final Repo r;
  public final Spec spec;
  public final Gen g;
  public final Bufs bufs;
  public final Stats st;
  public final Instr in;
  public final int focus; // running number that systematically varies over the runs
  /** checksum algorithms with a registered service */
  public final Set<String> sums = new TreeSet<>(List.of("CRC16", "CRC32"));
  /** registry -> key of a type nobody registers or removes in this run (C10) */
  public Map<String, Object> untouched;
  /** suppliers use other registries (C10) */
  public boolean entangled;
  public final Ref.Sums has = sums::contains;

  public Ctx(Choices ch, World w, Repo r, Spec spec, Instr in, Stats st, int focus) {
    this.ch = ch;
    this.w = w;
    this.r = r;
    this.spec = spec;
    this.in = in;
    this.st = st;
    this.g = new Gen(ch, spec, in);
    this.bufs = new Bufs(ch, w);
    this.focus = focus;
  }

  /** Type under the spotlight of this run: all types take turns. */
  public Spec.Type focusType() {
    Spec.Type f = spec.types.get(focus % spec.types.size());
    if (!sized) {
      sized = true;
      for (Spec.Field x : f.fields)
        if (x.w.k == Spec.K.LIST || x.w.k == Spec.K.DSTR) {
          if (ch.below(8) == 7) g.huge = 1;
          break;
        }
    }
    return f;
  }

  private boolean sized;

  public static Violation bad(String kind, String msg) {
    return new Violation(kind, msg);
  }

  public static Violation bad(String kind, String msg, Throwable t) {
    return new Violation(kind, msg + ": " + t, t);
  }

  /** Registers the exchange checksum services that are not built in, or some of them. */
  public void drawServices() {
    for (String a : new String[] {"SSE_BIN", "SZSE_BIN"})
      if (ch.below(3) != 0) register(a);
    if (ch.below(5) == 4) unregister("CRC32");
  }

  public void register(String a) {
    if (sums.add(a)) {
      if (!r.sys.registry(r.sys.newService(a))) throw bad("registry-refused", "registering " + a + " was refused although nothing is registered");
      w.ev("register", 0, a);
    }
  }

  /** Registers a service of the application that uses the library itself while it computes. */
  public void registerReentrant(String a, Runnable inside) {
    if (!sums.add(a)) return;
    Object s = r.sys.hookService(a, b -> {
      byte[] x = Bufs.bytes(b, b.readerIndex(), b.writerIndex());
      inside.run();
      return Ref.sum(a, x, 0, x.length);
    });
    if (!r.sys.registry(s)) throw bad("registry-refused", "registering " + a + " was refused although nothing is registered");
    w.ev("register_reentrant", 0, a);
    w.probe("reentrant_service");
  }

  public void unregister(String a) {
    if (sums.remove(a)) {
      r.sys.removeService(a);
      w.ev("unregister", 0, a);
    }
  }

  /** A message: usually a complete frame containing the type under the spotlight, else a bare message. */
  public Msg message(Spec.Type t, boolean bare) {
    Msg m = bare ? g.gen(t) : g.containing(t);
    st.types.set(m.t.id);
    st.types.set(t.id);
    return m;
  }

  private int longRun = -1;

  /** How many operations a history has: usually the given number, in some runs hundreds or thousands of small ones. */
  public int extent(int usual, int max) {
    if (longRun < 0) {
      longRun = ch.below(64) == 63 ? new int[] {120, 150, 270, 300, 520, 600, 1030, 1100, 2100, 4200}[ch.below(10)] : 0;
      if (longRun > 0) {
        g.tiny = true;
        w.probe("long_history");
      }
    }
    return longRun > 0 ? Math.max(usual, Math.min(max, longRun)) : usual;
  }

  public boolean isLong() {
    return longRun > 0;
  }

  public byte[] refBytes(Msg m) {
    return Ref.encode(m, has);
  }

  public Msg canon(Msg m) {
    return Ref.decode(m.t, refBytes(m));
  }

  /** Differences between a decoded message and the expected one; computed header and trailer fields do not count. */
  public String diffContent(Msg got, Msg want) {
    if (got.t != want.t) return "type " + got.t + " vs " + want.t;
    Msg a = got.copy();
    if (a.t.len >= 0) a.v[a.t.len] = want.v[a.t.len];
    if (a.t.sum >= 0) a.v[a.t.sum] = want.v[a.t.sum];
    return Msg.diff(a, want);
  }

  /** Differences except in what encoding computes. */
  public String diffUncomputed(Msg got, Msg want) {
    if (got.t != want.t) return "type " + got.t + " vs " + want.t;
    Msg a = got.copy();
    for (int k : new int[] {a.t.len, a.t.sum}) if (k >= 0 && Scen.computed(this, a.t, k)) a.v[k] = want.v[k];
    return Msg.diff(a, want);
  }

  public static void expect(Throwable t, String what) {
    if (t instanceof Violation) throw (Violation) t;
    if (t instanceof World.Hang) throw new Violation("hang", what + ": " + t.getMessage());
    throw new Violation("unexpected " + t.getClass().getSimpleName(), what + ": " + t, t);
  }

  public byte[] encodeReal(Object o, Spec.Type t, ByteBuf b) {
    int s = b.writerIndex();
    try {
      r.encode(o, t, b);
    } catch (Throwable e) {
      expect(e, "encoding a valid " + t);
    }
    st.messages++;
    int e = b.writerIndex();
    if (e < s) throw bad("writer-moved-back", "writer index went from " + s + " to " + e + " while encoding " + t);
    st.bytes += e - s;
    byte[] x = Bufs.bytes(b, s, e);
    w.ev("encoded", t.id, Arrays.hashCode(x));
    return x;
  }
}
