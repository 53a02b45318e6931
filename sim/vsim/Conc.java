package vsim;

import io.netty.buffer.*;
import java.util.*;

/** Workloads with several threads inside the library: C09, C10, C11. */
final class Conc {
  private Conc() {}

  // C09 -------------------------------------------------------------------------------------------
  interface Job {
    /** Runs against a repository and returns everything observable as text. */
    String run(Ctx c, Repo r);
  }

  static void c09(Ctx c) {
    c.g.profile();
    // registrations happen before the sessions start
    c.drawServices();
    c.w.preemption(1 + c.ch.below(5) % 4);
    int n = 2 + c.ch.below(3);
    boolean crowd = c.ch.below(40) == 39; // many short sessions
    if (crowd) {
      n = 17 + c.ch.below(56);
      c.g.tiny = true;
      c.w.probe("crowd");
    }
    Spec.Type f = c.focusType();
    boolean sameType = c.ch.below(3) > 0;
    Msg sharedMsg = Scen.nonEmpty(c, f, c.ch.below(3) == 0);
    Object sharedObj = c.r.build(sharedMsg);
    List<List<Job>> plans = new ArrayList<>();
    List<String[]> results = new ArrayList<>();
    for (int k = 0; k < n; k++) {
      List<Job> plan = new ArrayList<>();
      int ops = crowd ? 1 + c.ch.below(2) : c.extent(1 + c.ch.below(4), 300);
      for (int i = 0; i < ops; i++) plan.add(job(c, sameType || k == 0 ? f : c.g.anyType(), sharedMsg, sharedObj));
      plans.add(plan);
      results.add(new String[ops]);
    }
    for (int k = 0; k < n; k++) {
      int kk = k;
      c.w.spawn("session" + k, () -> {
        List<Job> plan = plans.get(kk);
        for (int i = 0; i < plan.size(); i++) {
          String s;
          c.w.ev("op", i, 0);
          boolean interrupted = c.ch.below(16) == 15; // the application wants this thread to stop soon
          if (interrupted) c.w.interrupt();
          try {
            s = plan.get(i).run(c, c.r);
          } catch (Violation | World.Hang e) {
            throw e;
          } catch (Throwable e) {
            s = "throws " + e;
          } finally {
            if (interrupted) c.w.interrupted();
          }
          results.get(kk)[i] = s;
          c.w.ev("result", i, s);
          c.st.messages++;
        }
      });
    }
    c.w.run();
    final int sessions = n;
    c.w.observe(() -> {
    // what each session obtains alone: in a process of its own
    for (int k = 0; k < sessions; k++) {
      boolean suspicious = false;
      for (int i = 0; i < plans.get(k).size(); i++) {
        String want = ((Expecting) plans.get(k).get(i)).expected;
        if (want == null || !want.equals(results.get(k)[i])) suspicious = true;
      }
      if (!suspicious) continue;
      Repo alone = new Repo(c.spec, c.in, c.w.asserts);
      for (String a : new String[] {"SSE_BIN", "SZSE_BIN"}) if (c.sums.contains(a)) alone.sys.registry(alone.sys.newService(a));
      if (!c.sums.contains("CRC32")) alone.sys.removeService("CRC32");
      for (int i = 0; i < plans.get(k).size(); i++) {
        String s;
        try {
          s = plans.get(k).get(i).run(c, alone);
        } catch (Throwable e) {
          s = "throws " + e;
        }
        if (!s.equals(results.get(k)[i])) throw Ctx.bad("interference", "session " + k + " operation " + i + " (" + plans.get(k).get(i) + ") obtained " + cut(results.get(k)[i]) + ", alone it obtains " + cut(s));
      }
    }
    });
  }

  private static String cut(String s) {
    return s.length() > 700 ? s.substring(0, 700) + "..." : s;
  }

  abstract static class Expecting implements Job {
    String expected;
    final String label;

    Expecting(String label) {
      this.label = label;
    }

    @Override
    public String toString() {
      return label;
    }
  }

  private static Job job(Ctx c, Spec.Type t, Msg sharedMsg, Object sharedObj) {
    int k = c.ch.below(10);
    if (k < 2) { // a message nobody modifies, encoded by several threads
      int cap = c.ch.below(3) == 0 ? 1 : 4096;
      int pre = c.ch.below(20);
      return new Expecting("encode shared " + sharedMsg.t) {
        {
          expected = Bufs.hexAll(c.refBytes(sharedMsg));
        }

        public String run(Ctx c, Repo r) {
          Object o = r == c.r ? sharedObj : r.build(sharedMsg);
          ByteBuf b = Unpooled.buffer(cap);
          b.writeZero(pre);
          r.encode(o, sharedMsg.t, b);
          return Bufs.hexAll(Bufs.bytes(b, pre, b.writerIndex()));
        }
      };
    }
    if (k < 5) {
      Msg m = Scen.nonEmpty(c, t, c.ch.below(2) == 0);
      int cap = c.ch.below(3) == 0 ? 1 : 4096;
      return new Expecting("encode " + m.t) {
        {
          expected = Bufs.hexAll(c.refBytes(m));
        }

        public String run(Ctx c, Repo r) {
          ByteBuf b = Unpooled.buffer(cap);
          Object o = r.build(m);
          r.encode(o, m.t, b);
          return Bufs.hexAll(Bufs.bytes(b, 0, b.writerIndex()));
        }
      };
    }
    if (k < 8) {
      Msg m = Scen.nonEmpty(c, t, c.ch.below(2) == 0);
      byte[] w = c.refBytes(m);
      int kind = c.ch.below(3);
      boolean twice = c.ch.below(3) == 0;
      return new Expecting("decode " + m.t) {
        {
          expected = Scen2.content(Ref.decode(m.t, w)) + " left 0 equal";
        }

        public String run(Ctx c, Repo r) {
          ByteBuf b = kind == 0 ? Unpooled.wrappedBuffer(w) : kind == 1 ? Unpooled.wrappedBuffer(w.clone()).asReadOnly() : Unpooled.buffer(w.length + 50).writeBytes(w);
          Object o = r.fresh(m.t), o2 = r.fresh(m.t);
          r.decode(o, m.t, b);
          int left = b.readableBytes();
          b.readerIndex(0);
          r.decode(o2, m.t, b);
          return Scen2.content(r.read(o)) + " left " + left + (o.equals(o2) ? " equal" : " not equal");
        }
      };
    }
    if (k == 8) {
      String a = new String[] {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN"}[c.ch.below(4)];
      byte[] w = new byte[c.ch.below(40)];
      c.bufs.garbage(w, 0, w.length, null);
      return new Expecting("checksum " + a) {
        {
          expected = c.sums.contains(a) ? Ref.sum(a, w, 0, w.length) + " true" : "none";
        }

        public String run(Ctx c, Repo r) {
          Object s = r.sys.lookup(a);
          if (s == null) return "none";
          ByteBuf b = Unpooled.wrappedBuffer(w);
          int v = r.sys.calc(s, b);
          return v + " " + r.sys.verify(s, b, v);
        }
      };
    }
    // text helpers and bitmaps
    String s = c.g.text(null, 10, '0', true, true);
    int width = 1 + c.ch.below(12);
    boolean left = c.ch.below(2) == 0;
    int bw = new int[] {8, 16, 32, 64}[c.ch.below(4)];
    int p1 = c.ch.below(bw), p2 = c.ch.below(bw);
    return new Expecting("helpers") {
      {
        expected = null;
      }

      public String run(Ctx c, Repo r) {
        ByteBuf b = Unpooled.buffer(8);
        r.sys.writeFixed(b, s, width, '0', left);
        String x = Bufs.hexAll(Bufs.bytes(b, 0, b.writerIndex()));
        x += b.readableBytes() == width ? r.sys.readFixed(b, width, '0', left) : "";
        Object bm = r.sys.bitmap(bw);
        r.sys.bmSet(bm, p1);
        r.sys.bmSet(bm, p2);
        r.sys.bmClear(bm, p1);
        ByteBuf y = Unpooled.buffer(8);
        r.sys.bmWrite(bm, y);
        return x + Bufs.hexAll(Bufs.bytes(y, 0, y.writerIndex())) + r.sys.bmGet(bm, p2);
      }
    };
  }

  // C10 -------------------------------------------------------------------------------------------
  static void c10(Ctx c) {
    c.w.preemption(1 + c.ch.below(5) % 4);
    List<String> owners = new ArrayList<>(c.spec.registries.keySet());
    int n = 2 + c.ch.below(3);
    int nOwners = c.ch.below(4) == 3 ? 2 : 1;
    // suppliers that use the library: of the registry they belong to or of any
    c.entangled = c.ch.below(4) == 3;
    if (c.entangled) nOwners = 2;
    String[] own = new String[nOwners];
    own[0] = owners.get(c.focus % owners.size());
    if (nOwners > 1) own[1] = c.ch.pick(owners);
    if (c.entangled && c.ch.below(2) == 1) {
      List<String> tops = new ArrayList<>();
      for (Spec.Type t : c.spec.roots.values()) if (owners.contains(t.name)) tops.add(t.name);
      for (int i = 0; i < 2; i++) own[i] = c.ch.pick(tops);
    }
    boolean crowded = c.ch.below(2) == 1; // many new types: the registry has to grow
    // keys under contention and keys nobody touches
    List<Lin.Op> ops = new ArrayList<>();
    long[] clock = {0};
    int[] ids = {1};
    Map<String, Spec.Type> initial = new HashMap<>(); // owner/key -> built-in
    for (String o : own) {
      Spec.Type t = c.spec.byName.get(o);
      t.cases.forEach((k, v) -> initial.put(o + "/" + k, v));
    }
    Set<String> touched = new HashSet<>();
    List<String[]> hot = new ArrayList<>();
    int nHot = c.entangled ? 2 : 1 + c.ch.below(3) / 2;
    for (int i = 0; i < nHot; i++) {
      String o = own[c.entangled ? i : c.ch.below(nOwners)];
      Spec.Type t = c.spec.byName.get(o);
      List<String> ks = new ArrayList<>(t.cases.keySet());
      String k = c.ch.below(2) == 1 ? ks.get(c.ch.below(ks.size())) : Scen2.unknownKey(c, t, ks.get(c.ch.below(ks.size())));
      hot.add(new String[] {o, k});
      touched.add(o + "/" + k);
    }
    int[] fresh = {0};
    c.untouched = new HashMap<>();
    for (String o : own) {
      Spec.Type t = c.spec.byName.get(o);
      for (String k : t.cases.keySet()) if (!touched.contains(o + "/" + k)) c.untouched.putIfAbsent(o, Scen2.keyOf(t, k));
    }
    if (c.untouched.size() < new HashSet<>(List.of(own)).size()) c.untouched = null;
    boolean warm = c.ch.below(3) == 0; // otherwise the first use itself happens concurrently
    if (warm) for (String o : own) c.r.sys.create(o, Scen2.keyOf(c.spec.byName.get(o), c.spec.byName.get(o).cases.keySet().iterator().next()));
    // a long past: other types came and went, some stayed
    Map<String, String> past = new HashMap<>();
    for (int q = c.extent(0, 5000); q > 0; q--) {
      String o = own[q % nOwners], key = newKey(c.spec.byName.get(o), 3000 + q % 1500);
      String arg = o + "/" + key;
      if (initial.containsKey(arg) || touched.contains(arg)) continue;
      boolean rm = past.containsKey(arg) && c.ch.below(3) == 0;
      Lin.Op op = new Lin.Op(99, rm ? "remove" : "register:" + (1_000_000 + q), arg);
      Object r = exec(c, op);
      if (rm && !Boolean.TRUE.equals(r)) throw Ctx.bad("remove-result", "removing the registered " + arg + " returned " + r);
      if (rm) past.remove(arg);
      else past.put(arg, String.valueOf(1_000_000 + q));
    }
    if (c.entangled && c.ch.below(4) > 0)
      for (String[] h : hot) { // there from the beginning
        Lin.Op op = new Lin.Op(98, "register:" + (ids[0]++), h[0] + "/" + h[1]);
        op.inv = clock[0]++;
        op.res = exec(c, op);
        op.ret = clock[0]++;
        ops.add(op);
      }
    for (int k = 0; k < n; k++) {
      int kk = k;
      int m = 1 + c.ch.below(4);
      List<Lin.Op> plan = new ArrayList<>();
      for (int i = 0; i < m; i++) {
        int a = c.ch.below(12);
        if (crowded && a == 8) {
          String o = own[c.ch.below(nOwners)];
          int burst = 1 + c.ch.below(14);
          for (int z = 0; z < burst; z++) {
            String key = newKey(c.spec.byName.get(o), fresh[0]++);
            if (initial.containsKey(o + "/" + key) || touched.contains(o + "/" + key)) continue;
            plan.add(new Lin.Op(k, "register:" + (ids[0]++), o + "/" + key));
          }
          continue;
        }
        if (a >= 9) {
          // a built-in type nobody touches
          String o = own[c.ch.below(nOwners)];
          Spec.Type t = c.spec.byName.get(o);
          List<String> ks = new ArrayList<>(t.cases.keySet());
          String key = ks.get(c.ch.below(ks.size()));
          boolean nested = List.of(own).contains(t.cases.get(key).name); // what the body contains may be removed meanwhile
          plan.add(new Lin.Op(k, a == 11 && !nested ? "decode" : "create", o + "/" + key));
          continue;
        }
        String[] h = hot.get(c.ch.below(hot.size()));
        String arg = h[0] + "/" + h[1];
        if (a < 2) plan.add(new Lin.Op(k, "register:" + (ids[0]++), arg));
        else if (a < (c.entangled ? 9 : 6)) plan.add(new Lin.Op(k, "create", arg));
        else plan.add(new Lin.Op(k, "remove", arg));
      }
      c.w.spawn("user" + k, () -> {
        for (Lin.Op op : plan) {
          op.inv = clock[0]++;
          c.w.ev("invoke", kk, op.name + " " + op.arg);
          boolean interrupted = c.ch.below(16) == 15;
          if (interrupted) c.w.interrupt();
          try {
            op.res = exec(c, op);
          } catch (World.Hang e) {
            throw e;
          } catch (IllegalArgumentException e) {
            op.res = "rejected";
          } catch (Throwable e) {
            op.res = outcome(e);
          } finally {
            if (interrupted) c.w.interrupted();
          }
          op.ret = clock[0]++;
          c.w.ev("return", kk, String.valueOf(op.res));
          c.st.messages++;
          ops.add(op);
          if (c.ch.below(2) == 1) c.w.yield();
        }
      });
    }
    c.w.run();
    c.w.observe(() -> {
    // afterwards everything registered must be there: sequential reads by an observer
    Set<String> args = new LinkedHashSet<>();
    for (Lin.Op o : ops) args.add((String) o.arg);
    for (String a : args) {
      Lin.Op op = new Lin.Op(99, "create", a);
      op.inv = clock[0]++;
      try {
        op.res = exec(c, op);
      } catch (IllegalArgumentException e) {
        op.res = "rejected";
      } catch (Throwable e) {
        op.res = outcome(e);
      }
      op.ret = clock[0]++;
      ops.add(op);
    }
    for (Map.Entry<String, String> e : past.entrySet()) {
      Object r;
      try {
        r = exec(c, new Lin.Op(99, "create", e.getKey()));
      } catch (Throwable x) {
        r = x;
      }
      if (!e.getValue().equals(r)) throw Ctx.bad("registered-lost", "afterwards " + e.getKey() + " creates " + r + " instead of " + e.getValue());
    }
    for (Map.Entry<String, Spec.Type> e : initial.entrySet()) {
      if (args.contains(e.getKey())) continue;
      int s = e.getKey().indexOf('/');
      Object r;
      try {
        r = exec(c, new Lin.Op(99, "create", e.getKey()));
      } catch (Throwable x) {
        r = x;
      }
      if (!e.getValue().name.equals(r)) throw Ctx.bad("builtin-lost", "afterwards " + e.getKey() + " creates " + r);
    }
    for (String a : args) {
      List<Lin.Op> h = new ArrayList<>();
      for (Lin.Op o : ops) if (o.arg.equals(a)) h.add(o);
      String init = initial.containsKey(a) ? initial.get(a).name : "none";
      boolean touchedKey = h.stream().anyMatch(o -> !o.name.equals("create") && !o.name.equals("decode"));
      for (Lin.Op o : h) if (String.valueOf(o.res).startsWith("failed")) throw Ctx.bad("registry-failure", o + " in\n  " + text(h));
      if (!Lin.check(h, init, Conc::registryModel))
        throw Ctx.bad(touchedKey ? "not-linearizable" : "builtin-unavailable", "no order of the calls on " + a + " (initially " + init + ") explains:\n  " + String.join("\n  ", h.stream().map(Object::toString).toList()));
    }
    });
  }

  private static String newKey(Spec.Type t, int i) {
    Spec.Wire d = t.fields.get(t.fields.get(t.poly).w.disc).w;
    return d.k == Spec.K.FSTR ? String.format("z%0" + Math.max(1, d.width - 1) + "d", i) : String.valueOf(20000 + i * 37 % 12000);
  }

  private static String registryModel(String st, Lin.Op o) {
    if (o.name.startsWith("register:")) return "ok".equals(o.res) ? o.name.substring(9) : null;
    switch (o.name) {
      case "create":
      case "decode": {
        String want = st.equals("none") ? "rejected" : st;
        return want.equals(o.res) ? st : null;
      }
      default: { // remove
        Boolean want = !st.equals("none");
        return want.equals(o.res) ? "none" : null;
      }
    }
  }

  private static Object exec(Ctx c, Lin.Op op) {
    String a = (String) op.arg;
    int s = a.indexOf('/');
    String owner = a.substring(0, s);
    Spec.Type t = c.spec.byName.get(owner);
    Object key = Scen2.keyOf(t, a.substring(s + 1));
    if (op.name.startsWith("register:")) {
      int id = Integer.parseInt(op.name.substring(9));
      Object sample = c.r.sys.customBody(id, null);
      c.r.sys.register(owner, key, sample, () -> supply(c, owner, id));
      return "ok";
    }
    if (op.name.equals("remove")) return c.r.sys.remove(owner, key);
    if (op.name.equals("create")) {
      Object o = c.r.sys.create(owner, key);
      int id = c.r.sys.customId(o);
      return id >= 0 ? String.valueOf(id) : o == null ? "null" : o.getClass().getName();
    }
    // decode: a message of the owner type with that identifier
    Msg m = new Msg(t);
    Msg filled = minimal(c.spec, t, a.substring(s + 1));
    byte[] b = Ref.encode(filled, Ref.NONE);
    Object o = c.r.fresh(t);
    c.r.decode(o, t, Unpooled.wrappedBuffer(b));
    Msg got = c.r.read(o);
    Object body = got.v[t.poly];
    return body instanceof Msg ? ((Msg) body).t.name : body instanceof Repo.Real ? String.valueOf(c.r.sys.customId(((Repo.Real) body).o)) : "null";
  }

  /** A supplier of the application that could not make its object. */
  static final class Refused extends RuntimeException {
    final int id;

    Refused(int id) {
      super("supplier " + id + " refuses", null, false, false);
      this.id = id;
    }
  }

  private static String outcome(Throwable e) {
    for (Throwable x = e; x != null; x = x.getCause()) if (x instanceof Refused) return String.valueOf(((Refused) x).id);
    return "failed " + e;
  }

  /** What the supplier registered under a number does: some use the registry themselves, some fail now and then. */
  private static Object supply(Ctx c, String owner, int id) {
    if (id < 1_000_000 && id % 7 == 3 && c.ch.below(2) == 1) {
      c.w.fault("supplier_failed");
      throw new Refused(id);
    }
    if (c.entangled && c.untouched != null) {
      List<String> l = new ArrayList<>(new TreeSet<>(c.untouched.keySet()));
      if (l.size() > 1 && c.ch.below(4) > 0) l.remove(owner);
      String o = c.ch.pick(l);
      int what = c.ch.below(4);
      if (what < 3) {
        if (c.r.sys.customId(c.r.sys.create(o, c.untouched.get(o))) >= 0) throw Ctx.bad("builtin-lost", "creating an untouched type from inside a supplier gives an application type");
      } else if (c.r.sys.lookup("CRC32") == null) throw Ctx.bad("service-lost", "no CRC32 service from inside a supplier");
      c.w.probe("supplier_uses_another_registry");
    } else if (id % 5 == 2 && c.untouched != null) {
      Object o = c.r.sys.create(owner, c.untouched.get(owner));
      if (c.r.sys.customId(o) >= 0) throw Ctx.bad("builtin-lost", "creating an untouched type from inside a supplier gives an application type");
      c.w.probe("supplier_uses_registry");
    }
    return c.r.sys.customBody(id, null);
  }

  /** Smallest message of a type. */
  static Msg minimal(Spec spec, Spec.Type t, String key) {
    Msg m = new Msg(t);
    for (int i = 0; i < m.v.length; i++) {
      Spec.Wire w = t.fields.get(i).w;
      switch (w.k) {
        case I8: m.v[i] = (byte) 0; break;
        case I16: m.v[i] = (short) 0; break;
        case I32: m.v[i] = 0; break;
        case I64: m.v[i] = 0L; break;
        case F32: m.v[i] = 0f; break;
        case F64: m.v[i] = 0d; break;
        case MSG: m.v[i] = minimal(spec, w.type, null); break;
        case POLY: {
          String k = key != null ? key : t.cases.keySet().iterator().next();
          m.v[i] = minimal(spec, t.cases.get(k), null);
          Gen.setKey(m, w.disc, k);
          break;
        }
        default:
          if (m.v[i] == null) m.v[i] = w.k == Spec.K.LIST ? null : "";
      }
    }
    if (t.poly >= 0) Gen.setKey(m, t.fields.get(t.poly).w.disc, key != null ? key : t.cases.keySet().iterator().next());
    return m;
  }

  // C11 -------------------------------------------------------------------------------------------
  static void c11(Ctx c) {
    c.w.preemption(1 + c.ch.below(5) % 4);
    String[] names = {"A", "CRC32", "SSE_BIN", "CRC16", "SZSE_BIN", "B"};
    int nNames = 1 + c.ch.below(3);
    int off = c.ch.below(names.length);
    int n = 2 + c.ch.below(3);
    boolean crowded = c.ch.below(2) == 1;
    // others registered before, so that the registry is about to grow
    if (crowded) for (int i = c.ch.below(12); i > 0; i--) if (!c.r.sys.registry(c.r.sys.stubService("P" + i, 9000 + i))) throw Ctx.bad("registry-refused", "P" + i + " was refused although nothing was registered for it");
    // a long past
    Map<String, Integer> past = new HashMap<>();
    for (int q = c.extent(0, 5000); q > 0; q--) {
      String a = "Q" + q % 900;
      Integer there = past.get(a);
      if (there != null && c.ch.below(2) == 0) {
        c.r.sys.removeService(a);
        past.remove(a);
      } else {
        boolean won = c.r.sys.registry(c.r.sys.stubService(a, 20_000 + q));
        if (won != (there == null)) throw Ctx.bad("registry-result", "registering " + a + " returned " + won);
        if (won) past.put(a, 20_000 + q);
      }
    }
    long[] clock = {0};
    int[] ids = {1};
    int[] extra = {0};
    List<Lin.Op> ops = new ArrayList<>();
    int total = 0;
    for (int k = 0; k < n; k++) {
      int kk = k;
      int m = 1 + c.ch.below(4);
      List<Lin.Op> plan = new ArrayList<>();
      for (int i = 0; i < m; i++) {
        String a = names[(off + c.ch.below(nNames)) % names.length];
        int q = c.ch.below(16);
        if (q < 6) plan.add(new Lin.Op(k, "registry:" + (ids[0]++), a));
        else if (q < 10) plan.add(new Lin.Op(k, "lookup", a));
        else if (q < 12) plan.add(new Lin.Op(k, "remove", a));
        else if (q == 12) plan.add(new Lin.Op(k, "clear", ""));
        else if (q == 13) plan.add(new Lin.Op(k, "lookup", c.ch.below(2) == 0 ? "CRC16" : "CRC32"));
        else if (crowded) {
          int burst = 1 + c.ch.below(6);
          for (int z = 0; z < burst && total + plan.size() < 36; z++) plan.add(new Lin.Op(k, "registry:" + (ids[0]++), "X" + (extra[0]++)));
        } else plan.add(new Lin.Op(k, "lookup", a));
      }
      total += plan.size();
      c.w.spawn("user" + k, () -> {
        for (Lin.Op op : plan) {
          op.inv = clock[0]++;
          c.w.ev("invoke", kk, op.name + " " + op.arg);
          boolean interrupted = c.ch.below(16) == 15;
          if (interrupted) c.w.interrupt();
          try {
            op.res = execSum(c, op);
          } catch (World.Hang e) {
            throw e;
          } catch (Throwable e) {
            op.res = "failed " + e;
          } finally {
            if (interrupted) c.w.interrupted();
          }
          op.ret = clock[0]++;
          c.w.ev("return", kk, String.valueOf(op.res));
          c.st.messages++;
          ops.add(op);
          if (c.ch.below(2) == 1) c.w.yield();
        }
      });
    }
    c.w.run();
    c.w.observe(() -> {
    Set<String> args = new LinkedHashSet<>(List.of("CRC16", "CRC32"));
    for (Lin.Op o : ops) if (!o.arg.equals("")) args.add((String) o.arg);
    boolean small = ops.size() + args.size() <= 58;
    for (String a : args) {
      Lin.Op op = new Lin.Op(99, "lookup", a);
      op.inv = clock[0]++;
      try {
        op.res = execSum(c, op);
      } catch (Throwable e) {
        op.res = "failed " + e;
      }
      op.ret = clock[0]++;
      ops.add(op);
    }
    for (Lin.Op o : ops) if (String.valueOf(o.res).startsWith("failed")) throw Ctx.bad("registry-failure", o + " in\n  " + text(ops));
    boolean clears = ops.stream().anyMatch(o -> o.name.equals("clear"));
    if (!clears)
      for (var e : past.entrySet()) {
        Object s = c.r.sys.lookup(e.getKey());
        if (s == null || c.r.sys.stubId(s) != e.getValue()) throw Ctx.bad("service-lost", "afterwards a lookup of " + e.getKey() + " gives " + (s == null ? "nothing" : "another service"));
      }
    // every algorithm on its own, clears included
    for (String a : args) {
      List<Lin.Op> h = new ArrayList<>();
      for (Lin.Op o : ops) if (o.arg.equals(a) || o.name.equals("clear")) h.add(o);
      String init = a.startsWith("CRC") ? "builtin" : "none";
      if (h.size() <= 58 && !Lin.check(h, init, Conc::sumModel)) throw Ctx.bad("not-linearizable", "no order of the calls on " + a + " (initially " + init + ") explains:\n  " + text(h));
    }
    // and all together when clears connect them
    if (clears && small && ops.size() <= 24) {
      TreeMap<String, String> init = new TreeMap<>(Map.of("CRC16", "builtin", "CRC32", "builtin"));
      if (!Lin.check(ops, init, Conc::sumsModel)) throw Ctx.bad("not-linearizable", "no order of all calls explains:\n  " + text(ops));
    }
    });
  }

  private static String text(List<Lin.Op> h) {
    return String.join("\n  ", h.stream().map(Object::toString).toList());
  }

  private static String sumModel(String st, Lin.Op o) {
    if (o.name.startsWith("registry:")) {
      Boolean want = st.equals("none");
      return want.equals(o.res) ? (want ? o.name.substring(9) : st) : null;
    }
    switch (o.name) {
      case "lookup": return st.equals(o.res) ? st : null;
      default: return "none"; // remove, clear
    }
  }

  private static TreeMap<String, String> sumsModel(TreeMap<String, String> st, Lin.Op o) {
    if (o.name.equals("clear")) return new TreeMap<>();
    String a = (String) o.arg;
    String s2 = sumModel(st.getOrDefault(a, "none"), o);
    if (s2 == null) return null;
    if (s2.equals(st.getOrDefault(a, "none"))) return st;
    TreeMap<String, String> r = new TreeMap<>(st);
    if (s2.equals("none")) r.remove(a);
    else r.put(a, s2);
    return r;
  }

  private static Object execSum(Ctx c, Lin.Op op) {
    String a = (String) op.arg;
    if (op.name.startsWith("registry:")) return c.r.sys.registry(c.r.sys.stubService(a, Integer.parseInt(op.name.substring(9))));
    switch (op.name) {
      case "lookup": {
        Object s = c.r.sys.lookup(a);
        if (s == null) return "none";
        int id = c.r.sys.stubId(s);
        if (id >= 0) return String.valueOf(id);
        return a.equals(c.r.sys.algorithm(s)) ? "builtin" : "other algorithm " + c.r.sys.algorithm(s);
      }
      case "remove":
        c.r.sys.removeService(a);
        return "ok";
      default:
        c.r.sys.clearServices();
        return "ok";
    }
  }
}
