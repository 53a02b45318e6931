package vsim;

import io.netty.buffer.*;
import java.util.*;

/** Workloads C19 and C20. */
final class Scen3 {
  private Scen3() {}

  // C19 -------------------------------------------------------------------------------------------
  /** Sessions log what they receive and send while others decode, encode and log. */
  static void c19(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(c.ch.below(3) == 0 ? 0 : 1 + c.ch.below(5) % 4);
    if (c.ch.below(6) == 5) c.g.bigChance = 6;
    Spec.Type f = c.focusType();
    boolean sameType = c.ch.below(3) > 0;
    Msg sharedMsg = c.message(f, c.ch.below(3) != 0);
    Object shared = c.r.build(sharedMsg);
    int n = 1 + c.ch.below(3);
    for (int k = 0; k < n; k++) {
      int kk = k;
      c.w.spawn("logger" + k, () -> {
        Map<Spec.Type, Object> pool = new HashMap<>();
        int ops = c.extent(2 + c.ch.below(5), 600);
        Object last = null;
        for (int i = 0; i < ops; i++) {
          if (c.ch.below(6) == 5) { // somebody else's message that nobody modifies
            c.w.ev("log shared", kk, i);
            rendered(c, shared, sharedMsg.t, "a message shared by the threads");
            continue;
          }
          Spec.Type t0 = sameType || i == 0 ? f : c.g.anyType();
          Msg m = c.message(t0, c.ch.below(2) == 0);
          boolean used = c.ch.below(3) > 0;
          Object o = used ? pool.computeIfAbsent(m.t, t -> c.r.fresh(t)) : c.r.fresh(m.t);
          pool.put(m.t, o);
          String how;
          if (used && c.ch.below(2) == 1) rendered(c, o, m.t, "as it was before its next use");
          byte[] b = c.refBytes(m);
          if (b.length > 400_000) continue;
          switch (c.ch.below(5)) {
            case 0:
              c.r.fill(o, m);
              how = "with fields set";
              break;
            case 1: { // one field after the other is changed between renderings
              c.r.fill(o, m);
              rendered(c, o, m.t, "with fields set");
              Msg now = c.r.read(o);
              String fld = c.g.mutateOne(now);
              if (fld == null) {
                how = "with fields set";
                break;
              }
              c.r.fill(o, now);
              how = "after a change of " + fld;
              break;
            }
            case 2: { // an attempt on an incomplete message fails, the log shows what is there
              if (b.length == 0) {
                how = "new";
                break;
              }
              byte[] u = c.ch.below(4) == 3 ? Scen2.withUnknownId(c, m) : null;
              int cut = u != null ? u.length : c.ch.below(b.length);
              try {
                c.r.decode(o, m.t, c.bufs.in(u != null ? u : b, 0, cut, null).b);
              } catch (RuntimeException e) {
                if (e instanceof Violation) throw e;
                c.w.fault(u != null ? "unknown_identifier" : "decode_of_partial_message");
              }
              how = u != null ? "after rejecting an unknown identifier" : "after decoding " + cut + " of " + b.length + " bytes";
              break;
            }
            case 3: { // changed by sending: computed fields
              c.r.fill(o, m);
              if (c.ch.below(2) == 1) rendered(c, o, m.t, "before sending");
              c.encodeReal(o, m.t, Unpooled.buffer());
              how = "after sending";
              break;
            }
            default: {
              Bufs.Mem in = c.bufs.in(b, 0, b.length, null);
              try {
                c.r.decode(o, m.t, in.b);
              } catch (Throwable e) {
                Ctx.expect(e, "decoding valid bytes of " + m.t);
              }
              how = "after decoding";
              break;
            }
          }
          rendered(c, o, m.t, how + (used ? " in a used object" : ""));
          if (c.ch.below(6) == 5) foreignBody(c);
          if (c.ch.below(6) == 5) foreignList(c, f);
          if (last != null && c.ch.below(3) == 2) rendered(c, last, c.r.typeOf(last), "looked at again later");
          last = o;
          c.st.messages++;
          if (c.ch.below(2) == 1) c.w.yield();
        }
      });
    }
    c.w.run();
  }

  private static void rendered(Ctx c, Object o, Spec.Type t, String how) {
    Msg before = c.r.read(o);
    String s;
    try {
      s = o.toString();
    } catch (Throwable e) {
      if (e instanceof World.Hang || e instanceof Violation) throw e;
      throw Ctx.bad("rendering-fails", "rendering " + t + " " + how + ": " + e, e);
    }
    c.w.ev("rendered", t.id, s);
    String x = shows(before, s, 0);
    if (x != null) throw Ctx.bad("not-shown", "rendering " + t + " " + how + ": " + x + "\n rendered " + cut(s) + "\n message  " + cut(before.toString()));
    Msg after = c.r.read(o);
    String d = Scen2.content(before).equals(Scen2.content(after)) ? null : Msg.diff(after, before);
    if (d != null) throw Ctx.bad("changed", "rendering " + t + " " + how + " changed it: " + d);
    // the rendering depends on nothing but the current content
    String again;
    try {
      again = c.r.build(before).toString();
    } catch (Throwable e) {
      if (e instanceof World.Hang || e instanceof Violation) throw e;
      throw Ctx.bad("rendering-fails", "rendering " + t + " built anew: " + e, e);
    }
    if (!hasForeign(before) && !again.equals(s)) throw Ctx.bad("history", "rendering " + t + " " + how + " differs from that of a new object with the same content\n rendered " + cut(s) + "\n new      " + cut(again));
  }

  /** A group that is a list of the application's own: it fails when looked at, or renders other messages meanwhile. */
  private static void foreignList(Ctx c, Spec.Type f) {
    List<Spec.Type> l = new ArrayList<>();
    for (Spec.Type t : c.spec.types) for (Spec.Field x : t.fields) if (x.w.k == Spec.K.LIST && !l.contains(t)) l.add(t);
    Spec.Type t = l.contains(f) && c.ch.below(2) == 1 ? f : c.ch.pick(l);
    int big = c.g.bigChance;
    c.g.bigChance = 0;
    Msg m = c.message(t, c.ch.below(2) == 1), inner = c.message(c.ch.below(3) > 0 ? m.t : t, true);
    c.g.bigChance = big;
    boolean fails = c.ch.below(3) == 2;
    int[] left = {0};
    Object in = c.r.build(inner), o;
    c.r.hooks.put(Thread.currentThread(), () -> {
      if (left[0] <= 0) return;
      left[0]--;
      if (fails) throw new IllegalStateException("cannot be looked at");
      rendered(c, in, inner.t, "while a message with a group of the application's own is rendered");
    });
    try {
      o = c.r.build(m);
    } finally {
      c.r.hooks.remove(Thread.currentThread());
    }
    left[0] = 1 + c.ch.below(2);
    try {
      String s = o.toString();
      left[0] = 0;
      String x = shows(m, s, 0);
      if (x != null) throw Ctx.bad("not-shown", "rendering " + m.t + " with a group of the application's own: " + x + "\n rendered " + cut(s) + "\n message  " + cut(m.toString()));
    } catch (World.Hang | Violation e) {
      throw e;
    } catch (Throwable e) {
      if (!fails) throw Ctx.bad("rendering-fails", "rendering " + m.t + " with a group of the application's own: " + e, e);
      c.w.fault("group_does_not_render");
    }
    left[0] = 0;
    rendered(c, c.r.build(m), m.t, "after one whose group belongs to the application");
  }

  /** A frame with a body of the application's own: it fails when rendered, or renders other messages meanwhile. */
  private static void foreignBody(Ctx c) {
    List<Spec.Type> carriers = new ArrayList<>();
    for (Spec.Type t : c.spec.types) if (t.poly >= 0) carriers.add(t);
    int big = c.g.bigChance;
    c.g.bigChance = 0;
    Msg m = c.message(c.ch.pick(carriers), true);
    Msg inner = c.message(c.ch.below(3) == 0 ? m.t : c.g.anyType(), true);
    c.g.bigChance = big;
    if (m.t.poly < 0) return;
    int mode = c.ch.below(3), times = 1 + c.ch.below(c.ch.below(3) == 2 ? 12 : 2);
    CustomBody cb = new CustomBody() {
      public void encode(ByteBuf b) {}

      public void decode(ByteBuf b) {}

      public String text() {
        if (mode == 0) throw new IllegalStateException("does not render");
        if (mode == 1) throw new AssertionError("does not render");
        rendered(c, c.r.build(inner), inner.t, "while the frame around it is rendered");
        return "own<text>";
      }
    };
    Msg f = m.copy();
    f.v[f.t.poly] = new Repo.Real(c.r.sys.customBody(1, cb));
    Object o = c.r.build(f);
    for (int i = 0; i < times; i++) {
      String s;
      try {
        s = o.toString();
      } catch (World.Hang | Violation e) {
        throw e;
      } catch (Throwable e) {
        if (mode == 2) throw Ctx.bad("rendering-fails", "rendering " + m.t + " around a body of the application: " + e, e);
        c.w.fault("body_does_not_render");
        continue;
      }
      if (mode != 2) continue; // shown in some other way
      String x = shows(f, s, 0);
      if (x == null && !s.contains("own<text>")) x = "the body is missing";
      if (x != null) throw Ctx.bad("not-shown", "rendering " + m.t + " around a body of the application: " + x + "\n rendered " + cut(s));
    }
    rendered(c, c.r.build(m), m.t, "after one whose body belongs to the application");
  }

  private static String cut(String s) {
    return s.length() > 900 ? s.substring(0, 900) + "..." : s;
  }

  private static boolean hasForeign(Object o) {
    if (o instanceof Repo.Real) return true;
    if (o instanceof Msg) for (Object x : ((Msg) o).v) if (hasForeign(x)) return true;
    if (o instanceof List) for (Object x : (List<?>) o) if (hasForeign(x)) return true;
    return false;
  }

  /** null when s, from position p on, shows the message (whatever the punctuation). */
  private static String shows(Msg m, String s, int p) {
    int at = s.indexOf(m.t.simple.substring(m.t.simple.lastIndexOf('$') + 1), p);
    if (at < 0) return "the name of " + m.t + " is missing";
    for (int i = 0; i < m.v.length; i++) {
      String n = m.t.fields.get(i).name;
      String why = "no " + n;
      boolean ok = false;
      for (int q = s.indexOf(n, at); q >= 0; q = s.indexOf(n, q + 1)) {
        if (q > 0 && word(s.charAt(q - 1))) continue;
        int e = q + n.length();
        if (e < s.length() && word(s.charAt(e))) continue;
        String y = value(m.v[i], s, e);
        if (y == null) {
          ok = true;
          break;
        }
        why = n + ": " + y;
      }
      if (!ok) return m.t.simple + ": " + why;
    }
    return null;
  }

  private static boolean word(char ch) {
    return Character.isLetterOrDigit(ch) || ch == '_';
  }

  private static String value(Object v, String s, int p) {
    if (v instanceof Msg) return shows((Msg) v, s, p);
    if (v instanceof Repo.Real) return null;
    if (v instanceof List) {
      int q = p;
      for (Object x : (List<?>) v) {
        if (x instanceof Msg) {
          String y = shows((Msg) x, s, q);
          if (y != null) return "an element is missing: " + y;
          q = s.indexOf(((Msg) x).t.simple.substring(((Msg) x).t.simple.lastIndexOf('$') + 1), q) + 1;
        } else {
          String t = String.valueOf(x);
          int e = s.indexOf(t, q);
          if (e < 0) return "element '" + t + "' is missing";
          q = e + t.length();
        }
      }
      return null;
    }
    String t = String.valueOf(v);
    for (int k = 1; k <= 3; k++) {
      if (s.startsWith(t, p + k)) {
        int e = p + k + t.length();
        if (t.isEmpty() || e >= s.length() || !word(s.charAt(e))) return null;
      }
      if (p + k - 1 >= s.length() || word(s.charAt(p + k - 1))) break;
    }
    return "the value '" + t + "' is missing";
  }

  // C20 -------------------------------------------------------------------------------------------
  /** Threads look up numbers of body classes and constants while others register types. */
  static void c20(Ctx c) {
    c.w.preemption(1 + c.ch.below(5) % 4);
    String owner = null;
    for (String o : c.spec.registries.keySet()) if (o.endsWith(".SseBinary")) owner = o;
    String own = owner;
    Spec.Type sse = c.spec.byName.get(owner);
    Map<String, Integer> number = new LinkedHashMap<>(); // built-in class -> number
    sse.cases.forEach((k, v) -> number.put(v.name, Integer.parseInt(k)));
    Set<Integer> known = new HashSet<>(number.values());
    List<String> builtin = new ArrayList<>(number.keySet());
    Map<String, Class<?>> classes = new HashMap<>();
    // classes whose number changes while others ask for it
    List<String> hot = new ArrayList<>();
    int nHot = 1 + c.ch.below(2);
    for (int i = 0; i < nHot; i++) hot.add(c.ch.below(2) == 0 ? builtin.get((c.focus + i) % builtin.size()) : c.g.anyType().name);
    boolean crowded = c.ch.below(2) == 1;
    boolean warm = c.ch.below(2) == 0;
    int[] nextNumber = {5000};
    int[] nextClass = {0};
    long[] clock = {0};
    List<Lin.Op> ops = new ArrayList<>();
    for (String b : builtin) classes.put(b, c.r.fresh(c.spec.byName.get(b)).getClass());
    if (warm) c.r.sys.sseTypeOf(classes.get(builtin.get(0)));
    // many registrations happened before
    Map<String, Integer> past = new HashMap<>();
    for (int q = c.extent(0, 5000); q > 0; q--) {
      Spec.Type t = c.spec.types.get((c.focus * 11 + q % 40) % c.spec.types.size());
      if (number.containsKey(t.name) || hot.contains(t.name)) continue;
      int v = 100_000 + q;
      c.r.sys.sseRegister(classes.computeIfAbsent(t.name, x -> c.r.fresh(t).getClass()), v, () -> c.r.sys.customBody(v, null));
      past.put(t.name, v);
    }
    int n = 2 + c.ch.below(3);
    int total = 0;
    for (int k = 0; k < n; k++) {
      int kk = k;
      List<Lin.Op> plan = new ArrayList<>();
      int m = 1 + c.ch.below(5);
      for (int i = 0; i < m && total < 40; i++) {
        switch (c.ch.below(8)) {
          case 0:
          case 1:
            plan.add(new Lin.Op(k, "number", c.ch.pick(builtin)));
            break;
          case 2:
            plan.add(new Lin.Op(k, "number", c.ch.pick(hot)));
            break;
          case 3: {
            int v = 0;
            switch (c.ch.below(5)) {
              case 0: v = c.ch.below(260); break;
              case 1: v = c.ch.pick(new ArrayList<>(new TreeSet<>(known))) + (1 << 8 + c.ch.below(23)); break;
              case 2: v = -c.ch.pick(new ArrayList<>(new TreeSet<>(known))); break;
              default: v = c.ch.pick(new ArrayList<>(new TreeSet<>(known)));
            }
            plan.add(new Lin.Op(k, "constant", String.valueOf(v)));
            break;
          }
          case 4:
          case 5:
            // under a number of its own or under one that another class has
            int num = c.ch.below(3) < 2 ? nextNumber[0]++ : c.ch.below(2) == 0 ? number.get(c.ch.pick(builtin)) : 5000 + c.ch.below(Math.max(1, nextNumber[0] - 5000));
            plan.add(new Lin.Op(k, "register:" + num, c.ch.pick(hot)));
            break;
          case 6: // a number of a class nobody asks for is removed
            plan.add(new Lin.Op(k, "remove", String.valueOf(nextNumber[0]++)));
            break;
          default: {
            int burst = crowded ? 1 + c.ch.below(10) : 1;
            for (int z = 0; z < burst; z++) {
              Spec.Type t = c.spec.types.get((c.focus * 7 + nextClass[0]++) % c.spec.types.size());
              if (number.containsKey(t.name) || hot.contains(t.name)) continue;
              plan.add(new Lin.Op(k, "register:" + (c.ch.below(6) == 5 ? number.get(c.ch.pick(builtin)) : nextNumber[0]++), t.name));
            }
          }
        }
      }
      total += plan.size();
      for (Lin.Op op : plan) if (c.spec.byName.containsKey(op.arg)) classes.computeIfAbsent((String) op.arg, x -> c.r.fresh(c.spec.byName.get(x)).getClass());
      c.w.spawn("user" + k, () -> {
        for (Lin.Op op : plan) {
          op.inv = clock[0]++;
          c.w.ev("invoke", kk, op.name + " " + op.arg);
          try {
            op.res = exec(c, own, sse, op, classes);
          } catch (World.Hang e) {
            throw e;
          } catch (IllegalArgumentException e) {
            op.res = "rejected";
          } catch (Throwable e) {
            op.res = "failed " + e;
          }
          op.ret = clock[0]++;
          c.w.ev("return", kk, String.valueOf(op.res));
          c.st.messages++;
          ops.add(op);
          if (c.ch.below(2) == 1) c.w.yield();
        }
      });
    }
    c.w.run();
    c.w.observe(() -> {
    Set<String> asked = new LinkedHashSet<>(builtin);
    asked.addAll(past.keySet());
    for (Lin.Op o : ops) if (!o.name.equals("constant") && !o.name.equals("remove")) asked.add((String) o.arg);
    for (String a : asked) {
      Lin.Op op = new Lin.Op(99, "number", a);
      op.inv = clock[0]++;
      try {
        op.res = exec(c, own, sse, op, classes);
      } catch (Throwable e) {
        op.res = "failed " + e;
      }
      op.ret = clock[0]++;
      ops.add(op);
    }
    for (int v : known) {
      Lin.Op op = new Lin.Op(99, "constant", String.valueOf(v));
      try {
        op.res = exec(c, own, sse, op, classes);
      } catch (IllegalArgumentException e) {
        op.res = "rejected";
      } catch (Throwable e) {
        op.res = "failed " + e;
      }
      ops.add(op);
    }
    for (Class<?> own2 : c.r.sys.sseSubclasses()) {
      Integer x = c.r.sys.sseTypeOf(own2);
      if (x != null) throw Ctx.bad("number", "a class of the application that was never registered has number " + x);
    }
    for (Lin.Op o : ops) {
      if (String.valueOf(o.res).startsWith("failed")) throw Ctx.bad("lookup-failure", o.toString());
      if (o.name.equals("constant")) {
        int v = Integer.parseInt((String) o.arg);
        Object want = known.contains(v) ? (Object) v : "rejected";
        if (!want.equals(o.res)) throw Ctx.bad("constant", "the constant looked up under " + v + " has number " + o.res);
      }
    }
    for (String a : asked) {
      List<Lin.Op> h = new ArrayList<>();
      for (Lin.Op o : ops) if (o.arg.equals(a)) h.add(o);
      String init = number.containsKey(a) ? String.valueOf(number.get(a)) : past.containsKey(a) ? String.valueOf(past.get(a)) : "none";
      if (!Lin.check(h, init, Scen3::model)) {
        StringBuilder sb = new StringBuilder();
        for (Lin.Op o : h) sb.append("\n  ").append(o);
        throw Ctx.bad("number", "no order of the calls on " + a + " (initially " + init + ") explains:" + sb);
      }
    }
    });
  }

  private static String model(String st, Lin.Op o) {
    if (o.name.startsWith("register:")) return "ok".equals(o.res) ? o.name.substring(9) : null;
    return st.equals(o.res) ? st : null;
  }

  private static Object exec(Ctx c, String owner, Spec.Type sse, Lin.Op op, Map<String, Class<?>> classes) {
    String a = (String) op.arg;
    if (op.name.startsWith("register:")) {
      int id = Integer.parseInt(op.name.substring(9));
      c.r.sys.sseRegister(classes.get(a), id, () -> c.r.sys.customBody(id, null));
      return "ok";
    }
    switch (op.name) {
      case "number": {
        Integer x = c.r.sys.sseTypeOf(classes.get(a));
        return x == null ? "none" : String.valueOf(x);
      }
      case "constant": return c.r.sys.sseConstant(Integer.parseInt(a));
      default: return c.r.sys.remove(owner, Scen2.keyOf(sse, a));
    }
  }
}
