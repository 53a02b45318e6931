package vsim;

import io.netty.buffer.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Workloads C12 to C18. */
final class Scen2 {
  private Scen2() {}

  // C12 -------------------------------------------------------------------------------------------
  static void c12(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(0);
    Spec.Type f = c.focusType();
    boolean big = f.fields.stream().anyMatch(x -> x.w.k == Spec.K.LIST || x.w.k == Spec.K.DSTR) && c.ch.below(3) == 2;
    int special = c.ch.below(100);
    c.w.spawn("receiver", () -> {
      if (special == 99) {
        flood(c, f);
        return;
      }
      if (big && special < 40) {
        scaling(c, f);
        return;
      }
      Msg probe = Scen.nonEmpty(c, f, false);
      String before = exchange(c, probe);
      byte[] prev = null;
      int n = big ? 2 + c.ch.below(6) : c.extent(2 + c.ch.below(6), 1100);
      Map<Spec.Type, Object> pool = new HashMap<>();
      for (int i = 0; i < n; i++) {
        Msg m = Scen.nonEmpty(c, i % 2 == 0 ? f : c.ch.pick(c.g.ofProto(f.proto)), c.ch.below(3) == 2);
        if (big && i < 3) bigOne(c, m, i == 0 ? f : m.t);
        Ref.Out ro = Ref.encodeWithCuts(m, c.has);
        if (ro.bytes().length > 600_000) continue;
        byte[] b = damage(c, ro, prev, big);
        Object reused = c.ch.below(4) == 3 ? pool.computeIfAbsent(m.t, t -> c.r.fresh(t)) : null;
        String first = null;
        String firstWhere = null;
        for (int v = 0; v < 3; v++) {
          int kind = v == 0 ? 0 : c.ch.below(Bufs.IN_KINDS);
          Bufs.Mem in = c.bufs.in(kind, b, 0, b.length, v == 2 ? ro.bytes() : prev);
          Object o = reused != null && v == 2 ? reused : c.r.fresh(m.t);
          int s = in.b.readerIndex();
          long steps = c.w.steps;
          c.w.allocMax = 0;
          long alloc = c.w.allocated();
          String res;
          try {
            c.r.decode(o, m.t, in.b);
            res = "message, " + (in.b.readerIndex() - s) + " bytes: " + digest(c.r.read(o));
          } catch (Exception e) {
            res = "rejected";
            if (e instanceof Violation) throw e;
          } catch (StackOverflowError | OutOfMemoryError e) {
            throw Ctx.bad(e.getClass().getSimpleName(), "decoding " + b.length + " malformed bytes as " + m.t + " in a " + in.kind + " buffer: " + e + " bytes " + Bufs.hex(b));
          }
          long used = c.w.steps - steps;
          alloc = c.w.allocated() - alloc;
          if (used > 50_000 + 3000L * b.length) throw Ctx.bad("work", "decoding " + b.length + " malformed bytes as " + m.t + " took " + used + " steps");
          if (alloc > (8L << 20) + 4000L * b.length) throw Ctx.bad("memory", "decoding " + b.length + " malformed bytes as " + m.t + " allocated more than 8 MB, bytes " + Bufs.hex(b));
          if (res.startsWith("message") && in.b.readerIndex() - s > b.length) throw Ctx.bad("over-read", "decoding " + m.t + " consumed " + (in.b.readerIndex() - s) + " of " + b.length + " bytes");
          if (in.b.readerIndex() > in.b.writerIndex()) throw Ctx.bad("over-read", "decoding " + m.t + " moved the reader behind the writer");
          if (first == null) {
            first = res;
            firstWhere = in.kind;
          } else if (!first.equals(res)) throw Ctx.bad("memory-dependent", "the same " + b.length + " bytes decoded as " + m.t + " give in a " + firstWhere + " buffer: " + first + "; in a " + in.kind + " buffer with other surroundings: " + res + "; bytes " + Bufs.hex(b));
          c.w.ev("outcome", b.length, res.hashCode());
          c.st.messages++;
        }
        c.w.probe(first.startsWith("message") ? "malformed_accepted" : "malformed_rejected");
        prev = b;
        c.w.yield();
      }
      String after = exchange(c, probe);
      if (!after.equals(before)) throw Ctx.bad("poisoned", "after malformed input a valid message is treated differently: " + after + " instead of " + before);
    });
    c.w.run();
  }

  /** Four times as many elements, or as much text, may take about four times the work and memory. */
  private static void scaling(Ctx c, Spec.Type f) {
    c.w.probe("scaling");
    c.g.bigChance = 0;
    Msg m = Scen.nonEmpty(c, f, c.ch.below(3) == 2);
    Msg o = find(m, f);
    if (o == null) return;
    List<Integer> idx = new ArrayList<>();
    for (int i = 0; i < o.v.length; i++) if (f.fields.get(i).w.k == Spec.K.LIST || f.fields.get(i).w.k == Spec.K.DSTR) idx.add(i);
    int i = idx.get(c.ch.below(idx.size()));
    Spec.Wire w = f.fields.get(i).w;
    int cap = w.prefix.k == Spec.K.I8 ? 255 : w.prefix.k == Spec.K.I16 ? 65535 : 150_000;
    int n = Math.min(cap / 4, new int[] {400, 1500, 4000, 16000}[c.ch.below(4)]);
    if (w.k == Spec.K.LIST) n = Math.max(10, Math.min(n, 500_000 / Math.max(1, Ref.minSize(w.elem))));
    List<Object> some = new ArrayList<>();
    if (w.k == Spec.K.LIST) for (int k = 3 + c.ch.below(20); k > 0; k--) some.add(w.elem.k == Spec.K.MSG ? c.g.gen(w.elem.type) : c.g.scalar(f, w.elem));
    long[] steps = new long[3], alloc = new long[3];
    int[] size = new int[3];
    boolean alike = w.k == Spec.K.DSTR && c.ch.below(2) == 1;
    String text = alike ? c.g.uniform(4 * n) : null;
    for (int r = 0; r < 3; r++) { // the first time is not measured
      int len = r == 2 ? 4 * n : n;
      if (w.k == Spec.K.DSTR) o.v[i] = alike ? text.substring(4 * n - len) : c.g.filled(len);
      else {
        List<Object> l = new ArrayList<>(len);
        for (int k = 0; k < len; k++) l.add(some.get(k % some.size()));
        o.v[i] = l;
      }
      byte[] b = Ref.encode(m, c.has);
      size[r] = b.length;
      ByteBuf in = Unpooled.wrappedBuffer(b);
      Object x = c.r.fresh(m.t);
      long s = c.w.steps, a = c.w.allocated();
      try {
        c.r.decode(x, m.t, in);
      } catch (Throwable e) {
        Ctx.expect(e, "decoding " + b.length + " bytes of " + m.t);
      }
      steps[r] = c.w.steps - s;
      alloc[r] = c.w.allocated() - a;
      c.w.ev("scaling", len, steps[r]);
    }
    String what = m.t + " of " + size[1] + " and " + size[2] + " bytes (" + f.simple + "." + f.fields.get(i).name + " " + n + " and " + 4 * n + " long)";
    if (steps[2] > 6 * steps[1] + 100_000) throw Ctx.bad("work", "decoding " + what + " took " + steps[1] + " and " + steps[2] + " steps");
    if (alloc[2] > 8 * alloc[1] + (4L << 20)) throw Ctx.bad("memory", "decoding " + what + " allocated more than eight times as much the second time");
  }

  /** Thousands of small messages, most of them rejected, all different: nothing may pile up. */
  private static void flood(Ctx c, Spec.Type f) {
    c.w.probe("flood");
    c.g.tiny = true;
    c.g.bigChance = 0;
    int phase = 1500;
    Msg probe = Scen.nonEmpty(c, f, false);
    byte[] pb = c.refBytes(probe);
    // one kind of message may be all that comes: the same carrier with ever other unknown identifiers
    List<Spec.Type> poly = new ArrayList<>();
    for (Spec.Type t : c.spec.types) if (t.poly >= 0) poly.add(t);
    Spec.Type carrier = c.ch.below(3) == 0 ? null : c.ch.pick(poly);
    boolean bare = c.ch.below(2) == 1;
    List<Msg> templates = new ArrayList<>();
    for (int i = 0; carrier != null && i < 3; i++) {
      Msg m = bare ? c.g.gen(carrier) : c.g.containing(carrier);
      if (find(m, carrier) != null) templates.add(m);
    }
    if (templates.isEmpty()) carrier = null;
    Object badT = carrier == null ? null : templates.get(0).t;
    byte[] bad = carrier == null ? null : unknownNumbered(c, templates.get(0), carrier, 0);
    long first = 0, firstBad = 0;
    int kept = 0, serial = 1;
    for (int p = 0; p <= 8; p++) {
      for (int i = 0; i < (p == 0 ? 40 : phase); i++) {
        Msg m = carrier != null && i % 8 > 0 ? templates.get(i % templates.size()) : c.ch.below(4) > 0 ? Scen.nonEmpty(c, f, c.ch.below(3) == 2) : c.g.gen(c.ch.pick(c.g.ofProto(f.proto)));
        byte[] b = carrier != null && i % 8 > 0 ? unknownNumbered(c, m, carrier, serial++) : c.ch.below(2) == 0 ? withUnknownId(c, m) : null;
        if (b == null) b = c.refBytes(m);
        if (carrier != null && i % 8 > 0) {
          // as it is
        } else if (b.length > 0 && c.ch.below(4) == 3) b = Arrays.copyOf(b, c.ch.below(b.length));
        else if (b.length > 0 && c.ch.below(4) == 3) b[c.ch.below(b.length)] ^= 1 << c.ch.below(8);
        try {
          c.r.decode(c.r.fresh(m.t), m.t, Unpooled.wrappedBuffer(b));
        } catch (Exception e) {
          if (e instanceof Violation) throw e;
        }
        c.st.messages++;
      }
      c.w.fault("flood_of_malformed_messages");
      long s = c.w.steps;
      try {
        c.r.decode(c.r.fresh(probe.t), probe.t, Unpooled.wrappedBuffer(pb));
      } catch (Throwable e) {
        Ctx.expect(e, "decoding a valid " + probe.t + " after a flood of malformed ones");
      }
      s = c.w.steps - s;
      if (p == 0) first = s;
      if (s > 4 * first + 4000) throw Ctx.bad("work", "decoding the same " + probe.t + " took " + first + " steps, and " + s + " after " + (p * phase) + " other messages");
      if (bad != null) {
        long z = c.w.steps;
        try {
          c.r.decode(c.r.fresh((Spec.Type) badT), (Spec.Type) badT, Unpooled.wrappedBuffer(bad));
        } catch (Exception e) {
          if (e instanceof Violation) throw e;
        }
        z = c.w.steps - z;
        if (p == 0) firstBad = z;
        if (z > 4 * firstBad + 4000) throw Ctx.bad("work", "rejecting the same " + badT + " took " + firstBad + " steps, and " + z + " after " + (p * phase) + " other messages");
      }
      int now = c.r.kept(400_000);
      if (p > 0 && now - kept < phase / 10) return;
      if (p == 8) throw Ctx.bad("memory", "receiving " + (p * phase) + " messages around " + f + " left more and more objects behind: " + now + " are kept, " + (now - kept) + " more than " + phase + " messages ago");
      kept = now;
    }
  }

  /** The message with an unknown identifier in its part of type t, a different one for every number. */
  private static byte[] unknownNumbered(Ctx c, Msg m, Spec.Type t, int n) {
    Msg copy = m.copy();
    Msg o = find(copy, t);
    Spec.Wire d = t.fields.get(t.fields.get(t.poly).w.disc).w;
    String k;
    do {
      if (d.k == Spec.K.FSTR) {
        StringBuilder sb = new StringBuilder();
        for (int i = 0, x = n; i < d.width; i++, x /= 40) sb.append((char) ('@' + x % 40));
        k = sb.toString();
      } else k = String.valueOf(d.k == Spec.K.I8 ? (byte) n : d.k == Spec.K.I16 ? (short) n : 7_000_000 + n * 37);
      n++;
    } while (t.cases.containsKey(k));
    Object body = o.v[t.poly];
    byte[] raw = body instanceof Msg ? Ref.encode((Msg) body, c.has) : new byte[0];
    Gen.setKey(o, t.fields.get(t.poly).w.disc, k);
    return encodeWith(c, copy, o, raw);
  }

  private static long digest(Msg m) {
    // full content, nothing elided
    return content(m).hashCode() * 31L + content(m).length();
  }

  static String content(Object o) {
    if (o instanceof Msg) {
      StringBuilder sb = new StringBuilder(((Msg) o).t.simple).append('{');
      for (Object x : ((Msg) o).v) sb.append(content(x)).append(',');
      return sb.append('}').toString();
    }
    if (o instanceof List) {
      StringBuilder sb = new StringBuilder("[");
      for (Object x : (List<?>) o) sb.append(content(x)).append(',');
      return sb.append(']').toString();
    }
    return String.valueOf(o);
  }

  private static String exchange(Ctx c, Msg m) {
    byte[] b = c.encodeReal(c.r.build(m), m.t, Unpooled.buffer());
    Object o = c.r.fresh(m.t);
    String r;
    try {
      c.r.decode(o, m.t, Unpooled.wrappedBuffer(b));
      r = content(c.r.read(o));
    } catch (Throwable e) {
      r = "fails with " + e;
    }
    return Arrays.hashCode(b) + "/" + b.length + " " + (r.length() > 300 ? r.substring(0, 300) + r.hashCode() : r);
  }

  private static byte[] damage(Ctx c, Ref.Out ro, byte[] other, boolean big) {
    byte[] b = ro.bytes();
    int k = b.length == 0 ? 6 : c.ch.below(9);
    if (big && b.length > 20_000 && k != 2 && c.ch.below(3) != 0) k = 1; // most of a large message stays in reach
    switch (k) {
      case 0: // truncated
        c.w.fault("truncation");
        return Arrays.copyOf(b, c.ch.below(b.length + 1));
      case 1: { // flipped bits
        c.w.fault("bit_flip");
        int n = 1 + c.ch.below(5);
        for (int i = 0; i < n; i++) b[c.ch.below(b.length)] ^= 1 << c.ch.below(8);
        return b;
      }
      case 2: { // extreme values where fields start (lengths, counts, type numbers)
        c.w.fault("field_overwrite");
        int n = 1 + c.ch.below(3);
        for (int i = 0; i < n; i++) {
          int at = c.ch.below(3) == 0 ? c.ch.below(b.length) : Math.min(b.length - 1, ro.cuts.get(c.ch.below(ro.cuts.size())));
          int w = new int[] {1, 2, 4, 8}[c.ch.below(4)];
          long v = new long[] {-1, 0, 0x7fffffffL, 0x7fffffffffffffffL, 0x8000000000000000L, 0x80000000L, 0xffffL, 0x7fffL, 0x8000L, 0x00ffffffL, 0x40000000L, 0x10000000L}[c.ch.below(12)];
          boolean le = c.ch.below(2) == 1;
          for (int q = 0; q < w && at + q < b.length; q++) b[at + q] = (byte) (v >>> (8 * (le ? q : w - 1 - q)));
        }
        return b;
      }
      case 3: { // spliced with another message
        c.w.fault("splice");
        if (other == null || other.length == 0) other = b.clone();
        int x = c.ch.below(b.length), y = c.ch.below(other.length);
        byte[] r = new byte[x + other.length - y];
        System.arraycopy(b, 0, r, 0, x);
        System.arraycopy(other, y, r, x, other.length - y);
        return r;
      }
      case 4: { // bytes lost or doubled in the middle
        c.w.fault("byte_loss_or_duplication");
        int x = c.ch.below(b.length), n = Math.min(b.length - x, 1 + c.ch.below(8));
        boolean dup = c.ch.below(2) == 1;
        byte[] r = new byte[dup ? b.length + n : b.length - n];
        System.arraycopy(b, 0, r, 0, x);
        if (dup) {
          System.arraycopy(b, x, r, x, n);
          System.arraycopy(b, x, r, x + n, b.length - x);
        } else System.arraycopy(b, x + n, r, x, b.length - x - n);
        return r;
      }
      case 5: { // random tail
        c.w.fault("random_bytes");
        int x = c.ch.below(b.length);
        c.bufs.garbage(b, x, b.length, other);
        return b;
      }
      case 6: { // pure noise
        c.w.fault("noise");
        byte[] r = new byte[c.ch.below(200)];
        c.bufs.garbage(r, 0, r.length, other);
        return r;
      }
      case 7: { // every byte set in a range
        c.w.fault("byte_run");
        int x = c.ch.below(b.length), n = Math.min(b.length - x, 1 + c.ch.below(12));
        byte v = (byte) new int[] {0xff, 0x7f, 0x80, 0, 1, 0x20}[c.ch.below(6)];
        Arrays.fill(b, x, x + n, v);
        return b;
      }
      default: // valid but cut at a field boundary
        c.w.fault("truncation");
        return Arrays.copyOf(b, Math.min(b.length, ro.cuts.get(c.ch.below(ro.cuts.size()))));
    }
  }

  // C13 -------------------------------------------------------------------------------------------
  static void c13(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(c.ch.below(2));
    List<String> owners = new ArrayList<>(c.spec.registries.keySet());
    // all (owner, key) pairs take turns
    List<String[]> pairs = pairs(c.spec);
    String[] fp = pairs.get(c.focus % pairs.size());
    int n = c.extent(3 + c.ch.below(6), 600);
    c.w.spawn("receiver", () -> {
      List<byte[]> frames = new ArrayList<>();
      List<String> expect = new ArrayList<>(); // class, "custom:<id>", "reject"
      List<Spec.Type> rootOf = new ArrayList<>();
      Map<Integer, Spec.Type> own = new HashMap<>();
      List<Runnable> beforeFrame = new ArrayList<>();
      Map<String, Map<String, Integer>> custom = new HashMap<>(); // owner -> key -> custom id, -1 removed
      Map<String, Integer> hist = new HashMap<>();
      int[] nextId = {100};
      for (int i = 0; i < n; i++) {
        String[] p = i == 0 || c.ch.below(3) == 0 ? fp : c.ch.below(2) == 0 ? sibling(c, pairs, fp[0]) : c.ch.pick(pairs);
        Spec.Type owner = c.spec.byName.get(p[0]);
        String key = p[1];
        int k = c.ch.below(10);
        Runnable act = () -> {};
        Map<String, Integer> cm = custom.computeIfAbsent(p[0], x -> new HashMap<>());
        boolean registrable = c.spec.registries.containsKey(p[0]);
        if (k >= 7 && !registrable) k = 0;
        boolean unknown = false;
        if (k == 5 || k == 6) {
          key = unknownKey(c, owner, p[1]);
          unknown = !cm.containsKey(key);
        } else if (k == 7) { // register a type of the application
          if (c.ch.below(2) == 0) key = unknownKey(c, owner, p[1]);
          int id = nextId[0]++;
          String kk = key;
          int len = c.ch.below(20);
          act = () -> register(c, owner, kk, id, len);
          cm.put(key, id * 100 + len);
        } else if (k == 8) {
          String kk = key;
          boolean there = cm.getOrDefault(key, 0) >= 0;
          act = () -> {
            boolean r = c.r.sys.remove(owner.name, keyOf(owner, kk));
            c.w.ev("remove", r ? 1 : 0, owner.simple + " " + kk);
            if (r != there) throw Ctx.bad("remove-result", "removing " + kk + " from " + owner.simple + " returned " + r);
          };
          cm.put(key, -1);
        }
        Integer cu = cm.get(key);
        cm.remove(key);
        if (hist.get(p[0] + key) != null) cm.put(key, hist.get(p[0] + key)); // until the frame is really used
        // build a frame around a message of the owner type with that identifier
        Msg frame = c.g.containing(owner);
        Msg o = find(frame, owner);
        if (o == null) continue;
        byte[] raw = null;
        String ex;
        boolean rejected = unknown || cu != null && cu < 0;
        if (cu != null && cu >= 0) {
          raw = new byte[cu % 100];
          c.bufs.garbage(raw, 0, raw.length, null);
          ex = "custom:" + cu / 100;
          Gen.setKey(o, o.t.fields.get(o.t.poly).w.disc, key);
        } else if (rejected) {
          ex = "reject";
          Gen.setKey(o, o.t.fields.get(o.t.poly).w.disc, key);
        } else {
          Gen.setKey(o, o.t.fields.get(o.t.poly).w.disc, key);
          o.v[o.t.poly] = c.g.gen(owner.cases.get(key));
          ex = owner.cases.get(key).name;
        }
        byte[] b = encodeWith(c, frame, o, raw);
        // enclosing identifiers may have been replaced or removed earlier in this run
        String[] other = {null};
        enclosing(c, frame, o, custom, other);
        if (other[0] != null) {
          c.w.probe("enclosing_type_changed");
          continue;
        }
        if (nestedChanged(o, custom, o)) continue;
        if (cu != null) {
          cm.put(key, cu);
          hist.put(p[0] + key, cu);
        }
        frames.add(b);
        expect.add(ex);
        rootOf.add(frame.t);
        beforeFrame.add(act);
        int idx = frames.size() - 1;
        Spec.Type ot = owner;
        own.put(idx, ot);
      }
      // all frames lie in one buffer; the receiver skips rejected ones by their length
      int total = 0;
      for (byte[] b : frames) total += b.length;
      byte[] all = new byte[total];
      int p = 0;
      for (byte[] b : frames) {
        System.arraycopy(b, 0, all, p, b.length);
        p += b.length;
      }
      Bufs.Mem in = c.bufs.in(all, 0, all.length, null);
      Map<Spec.Type, Object> pool = new HashMap<>();
      boolean reuse = c.ch.below(2) == 1;
      for (int i = 0; i < frames.size(); i++) {
        beforeFrame.get(i).run();
        Spec.Type root = rootOf.get(i);
        Object o = reuse ? pool.computeIfAbsent(root, t -> c.r.fresh(t)) : c.r.fresh(root);
        int s = in.b.readerIndex();
        int len = frames.get(i).length;
        String ex = expect.get(i);
        c.st.messages++;
        c.w.ev("frame", i, ex);
        Exception err = null;
        int mark = c.ch.below(2) == 1 ? Scen.markReader(c, in.b) : -1;
        try {
          c.r.decode(o, root, in.b);
        } catch (Exception e) {
          if (e instanceof Violation) throw e;
          err = e;
        } catch (StackOverflowError | OutOfMemoryError e) {
          throw Ctx.bad("error", "frame " + i + " (" + root + "): " + e);
        }
        if (ex.equals("reject")) {
          c.w.fault("unknown_identifier");
          if (err == null) throw Ctx.bad("not-rejected", "frame " + i + " with an identifier unknown to " + own.get(i).simple + " was decoded: " + c.r.read(o));
          Scen.readerMark(in.b, mark, "rejecting frame " + i);
          in.b.readerIndex(s + len);
          continue;
        }
        if (err != null) throw Ctx.bad("rejected", "frame " + i + " (" + root + " with " + ex + ") was rejected: " + err, err);
        Object holder = findReal(c, o, own.get(i));
        Object body = holder == null ? null : polyOf(c, holder, own.get(i));
        if (ex.startsWith("custom:")) {
          int id = body == null ? -1 : c.r.sys.customId(body);
          if (id != Integer.parseInt(ex.substring(7))) throw Ctx.bad("wrong-type", "frame " + i + ": expected the type registered at run time (" + ex + ") in " + own.get(i).simple + ", got " + (body == null ? "nothing" : body.getClass().getName()));
        } else if (body == null || !body.getClass().getName().equals(ex)) throw Ctx.bad("wrong-type", "frame " + i + ": body of " + own.get(i).simple + " is " + (body == null ? "null" : body.getClass().getName()) + ", the identifier stands for " + ex);
        if (in.b.readerIndex() - s != len) throw Ctx.bad("consumed", "frame " + i + " (" + root + ") of " + len + " bytes: " + (in.b.readerIndex() - s) + " consumed");
        if (c.ch.below(4) == 3) c.w.yield();
      }
    });
    c.w.run();
  }

  static List<String[]> pairs(Spec spec) {
    List<String[]> l = new ArrayList<>();
    for (Spec.Type t : spec.types) if (t.poly >= 0) for (String k : t.cases.keySet()) l.add(new String[] {t.name, k});
    return l;
  }

  private static String[] sibling(Ctx c, List<String[]> all, String owner) {
    List<String[]> l = new ArrayList<>();
    for (String[] p : all) if (p[0].equals(owner)) l.add(p);
    return l.get(c.ch.below(l.size()));
  }

  static Object keyOf(Spec.Type owner, String k) {
    switch (owner.fields.get(owner.fields.get(owner.poly).w.disc).w.k) {
      case I8: return Byte.valueOf(k);
      case I16: return Short.valueOf(k);
      case I32: return Integer.valueOf(k);
      default: return k;
    }
  }

  static String unknownKey(Ctx c, Spec.Type owner, String near) {
    Spec.Wire d = owner.fields.get(owner.fields.get(owner.poly).w.disc).w;
    for (int i = 0; i < 20; i++) {
      String k;
      if (d.k == Spec.K.FSTR) {
        int q = c.ch.below(9);
        if (q == 5) k = near.replaceFirst("^0+", "");
        else if (q == 6) k = c.ch.below(2) == 0 ? " " + near : "+" + near.replaceFirst("^0", "");
        else if (q == 7) k = "0" + near.replaceFirst("0$", "");
        else if (q == 8) k = c.ch.below(2) == 0 ? near.replace('0', 'O') : near + "\0";
        else if (q == 0) k = String.format("%0" + d.width + "d", c.ch.below((int) Math.pow(10, Math.min(d.width, 6))));
        else if (q == 1) k = c.g.ascii(1 + c.ch.below(d.width));
        else if (q == 2) k = near.length() > 1 ? near.substring(0, near.length() - 1) : "";
        else if (q == 3) k = "";
        else {
          StringBuilder sb = new StringBuilder(near);
          int at = c.ch.below(sb.length());
          sb.setCharAt(at, (char) (sb.charAt(at) + 1));
          k = sb.toString();
        }
        if (k.length() > d.width) k = k.substring(0, d.width);
      } else {
        long v = Long.parseLong(near);
        int q = c.ch.below(10);
        v = q == 6 ? v + (1L << (8 * (1 + c.ch.below(3)))) : q == 7 ? v / 10 : q == 8 ? v / 100 * 100 : q == 9 ? (c.ch.below(2) == 0 ? v * 10 : Long.reverseBytes(v) >>> (64 - 8 * Ref.width(d.k))) : q == 0 ? v + 1 : q == 1 ? v - 1 : q == 2 ? 0 : q == 3 ? -v : q == 4 ? v ^ (1L << c.ch.below(Ref.width(d.k) * 8)) : c.ch.bits();
        k = String.valueOf(d.k == Spec.K.I8 ? (byte) v : d.k == Spec.K.I16 ? (short) v : (int) v);
      }
      if (!owner.cases.containsKey(k)) return k;
    }
    return d.k == Spec.K.FSTR ? "~" : "-7";
  }

  private static void register(Ctx c, Spec.Type owner, String key, int id, int len) {
    CustomBody cb = new CustomBody() {
      public void encode(ByteBuf b) {}

      public void decode(ByteBuf b) {
        b.skipBytes(len);
      }
    };
    Object sample = c.r.sys.customBody(id, cb);
    c.r.sys.register(owner.name, keyOf(owner, key), sample, () -> c.r.sys.customBody(id, cb));
    c.w.ev("register", id, owner.simple + " " + key);
  }

  static Msg find(Msg m, Spec.Type t) {
    if (m.t == t) return m;
    for (Object o : m.v) {
      if (o instanceof Msg) {
        Msg r = find((Msg) o, t);
        if (r != null) return r;
      }
    }
    return null;
  }

  /** The bytes of the message with one of its identifiers replaced by an unknown one; null when it has none. */
  static byte[] withUnknownId(Ctx c, Msg m) {
    Msg copy = m.copy();
    List<Msg> carriers = new ArrayList<>();
    carriers(copy, carriers);
    if (carriers.isEmpty()) return null;
    Msg o = c.ch.pick(carriers);
    int disc = o.t.fields.get(o.t.poly).w.disc;
    Object body = o.v[o.t.poly];
    byte[] raw = body instanceof Msg ? Ref.encode((Msg) body, c.has) : body instanceof byte[] ? (byte[]) body : new byte[0];
    Gen.setKey(o, disc, unknownKey(c, o.t, String.valueOf(o.v[disc])));
    return encodeWith(c, copy, o, raw);
  }

  private static void carriers(Msg m, List<Msg> l) {
    if (m.t.poly >= 0 && m.v[m.t.poly] instanceof Msg) l.add(m);
    for (Object x : m.v) if (x instanceof Msg) carriers((Msg) x, l);
  }

  /** Encodes the frame; the polymorphic part of o consists of the given raw bytes (its own encoding when null). */
  private static byte[] encodeWith(Ctx c, Msg frame, Msg o, byte[] raw) {
    if (raw == null) return c.refBytes(frame);
    Object keep = o.v[o.t.poly];
    o.v[o.t.poly] = raw;
    try {
      return Ref.encode(frame, c.has);
    } finally {
      o.v[o.t.poly] = keep;
    }
  }

  /** Is an identifier above o in the frame one that was replaced or removed during this run? */
  private static boolean enclosing(Ctx c, Msg m, Msg o, Map<String, Map<String, Integer>> custom, String[] res) {
    if (m == o) return true;
    for (int i = 0; i < m.v.length; i++)
      if (m.v[i] instanceof Msg && enclosing(c, (Msg) m.v[i], o, custom, res)) {
        if (i == m.t.poly) {
          Map<String, Integer> cm = custom.get(m.t.name);
          if (cm != null && cm.containsKey(String.valueOf(m.v[m.t.fields.get(i).w.disc]))) res[0] = m.t.name;
        }
        return true;
      }
    return false;
  }

  /** Is an identifier below o (not its own) one that was changed during this run? */
  private static boolean nestedChanged(Msg m, Map<String, Map<String, Integer>> custom, Msg o) {
    for (int i = 0; i < m.v.length; i++) {
      if (!(m.v[i] instanceof Msg)) continue;
      if (m != o && i == m.t.poly) {
        Map<String, Integer> cm = custom.get(m.t.name);
        if (cm != null && cm.containsKey(String.valueOf(m.v[m.t.fields.get(i).w.disc]))) return true;
      }
      if (nestedChanged((Msg) m.v[i], custom, o)) return true;
    }
    return false;
  }

  private static Object findReal(Ctx c, Object o, Spec.Type t) {
    if (o == null) return null;
    Spec.Type x = c.r.typeOf(o);
    if (x == t) return o;
    if (x == null) return null;
    for (Object p : Scen.mutableParts(o)) if (p != o && c.r.typeOf(p) == t) return p;
    return null;
  }

  private static Object polyOf(Ctx c, Object holder, Spec.Type t) {
    String n = t.fields.get(t.poly).name;
    try {
      return holder.getClass().getMethod("get" + Character.toUpperCase(n.charAt(0)) + n.substring(1)).invoke(holder);
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  // C14 -------------------------------------------------------------------------------------------
  static void c14(Ctx c) {
    c.w.preemption(0);
    int[] widths = {8, 16, 32, 64};
    c.w.spawn("peer", () -> {
      int maps = 1 + c.ch.below(4);
      Object[] bm = new Object[maps];
      int[] wd = new int[maps];
      BitSet[] model = new BitSet[maps];
      for (int i = 0; i < maps; i++) {
        wd[i] = i == 0 ? widths[c.focus % 4] : widths[c.ch.below(4)];
        bm[i] = c.r.sys.bitmap(wd[i]);
        model[i] = new BitSet();
        if (c.r.sys.bmCount(bm[i]) != wd[i]) throw Ctx.bad("count", "bitmap of " + wd[i] + " bits says " + c.r.sys.bmCount(bm[i]));
      }
      int ops = c.extent(2 + c.ch.below(24), 5000);
      for (int q = 0; q < ops; q++) {
        int i = c.ch.below(maps);
        int pos = c.ch.below(4) == 0 ? new int[] {0, wd[i] - 1, 7 % wd[i], 8 % wd[i]}[c.ch.below(4)] : c.ch.below(wd[i]);
        int k = c.ch.below(8);
        try {
          if (k < 4) {
            c.r.sys.bmSet(bm[i], pos);
            model[i].set(pos);
          } else if (k < 6) {
            c.r.sys.bmClear(bm[i], pos);
            model[i].clear(pos);
          } else if (k == 6) {
            for (int z = 0; z < wd[i]; z++) c.r.sys.bmSet(bm[i], z);
            model[i].set(0, wd[i]);
          } else transfer(c, bm, wd, model);
        } catch (Throwable e) {
          Ctx.expect(e, "bitmap operation at " + pos);
        }
        c.w.ev(k < 4 ? "set" : k < 6 ? "clear" : k == 6 ? "all" : "transfer", i, pos);
        for (int j = 0; j < maps; j++) compare(c, bm[j], wd[j], model[j], k < 4 ? "set " + pos : k < 6 ? "clear " + pos : "write/read");
      }
      transfer(c, bm, wd, model);
      c.w.yield();
    });
    c.w.run();
  }

  private static void compare(Ctx c, Object bm, int width, BitSet model, String after) {
    for (int z = 0; z < width; z++) {
      boolean g = c.r.sys.bmGet(bm, z);
      if (g != model.get(z)) throw Ctx.bad("bits", width + "-bit map after " + after + ": position " + z + " is " + g + ", bits are " + model);
    }
  }

  /** All bitmaps travel one behind the other through a stream that is cut anywhere. */
  private static void transfer(Ctx c, Object[] bm, int[] wd, BitSet[] model) {
    Bufs.Mem out = c.bufs.out(64);
    while (out.b.maxCapacity() != Integer.MAX_VALUE) out = c.bufs.out(64);
    out.snap();
    int start = out.b.writerIndex();
    int[] ends = new int[bm.length];
    for (int i = 0; i < bm.length; i++) {
      c.r.sys.bmWrite(bm[i], out.b);
      ends[i] = out.b.writerIndex() - start;
      compare(c, bm[i], wd[i], model[i], "being written");
    }
    String chg = out.kind.equals("composite") ? null : out.changedOutside(start, out.b.writerIndex());
    if (chg != null) throw Ctx.bad("foreign-bytes", "writing bitmaps: " + chg);
    byte[] b = Bufs.bytes(out.b, start, out.b.writerIndex());
    int from = 0;
    for (int i = 0; i < bm.length; i++) {
      Object target = c.ch.below(2) == 0 ? c.r.sys.bitmap(wd[i]) : bm[i];
      if (target == bm[i] && c.ch.below(2) == 0) c.r.sys.bmSet(target, c.ch.below(wd[i])); // used and different
      // torn
      int tries = c.ch.below(3);
      for (int k = 0; k < tries && ends[i] > from; k++) {
        int cut = from + c.ch.below(ends[i] - from);
        Bufs.Mem in = c.bufs.in(b, from, cut, c.ch.below(2) == 0 ? Arrays.copyOfRange(b, cut, b.length) : null);
        c.w.fault("torn_bitmap");
        boolean threw = false;
        try {
          c.r.sys.bmRead(target, in.b);
        } catch (Exception e) {
          threw = true;
        }
        if (!threw) throw Ctx.bad("read-from-part", wd[i] + "-bit map was read although " + (cut - from) + " of " + (ends[i] - from) + " bytes had arrived");
      }
      Bufs.Mem in = c.bufs.in(b, from, b.length, null);
      int ri = in.b.readerIndex();
      try {
        c.r.sys.bmRead(target, in.b);
      } catch (Throwable e) {
        Ctx.expect(e, "reading a " + wd[i] + "-bit map back, bits " + model[i] + ", bytes " + Bufs.hex(b, from, ends[i]));
      }
      int used = in.b.readerIndex() - ri;
      compare(c, target, wd[i], model[i], "being written and read back (bytes " + Bufs.hex(b, from, ends[i]) + ")");
      if (used != ends[i] - from) throw Ctx.bad("consumed", wd[i] + "-bit map: " + (ends[i] - from) + " bytes written, " + used + " read; bits " + model[i]);
      c.st.messages++;
      from = ends[i];
    }
  }

  // C15 -------------------------------------------------------------------------------------------
  static void c15(Ctx c) {
    c.g.profile();
    c.w.preemption(0);
    c.w.spawn("peer", () -> {
      for (int reps = c.extent(1, 1100); reps > 0; reps--)
        if (c.focus % 3 == 0) c15helper(c);
        else c15message(c);
    });
    c.w.run();
  }

  private static byte[] field(String s, int width, char pad, boolean left) {
    byte[] x = s == null ? new byte[0] : s.getBytes(StandardCharsets.UTF_8);
    int n = Math.min(x.length, width);
    byte[] f = new byte[width];
    Arrays.fill(f, (byte) pad);
    System.arraycopy(x, 0, f, left ? width - n : 0, n);
    return f;
  }

  /** Fixed-width fields one behind the other through the helper methods every message uses. */
  private static void c15helper(Ctx c) {
    int n = 1 + c.ch.below(6);
    Bufs.Mem out = c.bufs.out(4000);
    int start = out.b.writerIndex();
    List<Object[]> fs = new ArrayList<>();
    char[] pads = {' ', '0', '\0', 'x', '*', '\t'};
    int p = 0;
    for (int i = 0; i < n; i++) {
      int width = new int[] {1, 2, 3, 4, 6, 8, 10, 12, 13, 16, 20, 32, 50, 120, 255, 256, 257, 400, 600}[c.ch.below(19)];
      boolean dflt = c.ch.below(4) == 0;
      char pad = dflt ? ' ' : c.ch.pick(new Character[] {pads[0], pads[1], pads[2], pads[3], pads[4], pads[5]});
      boolean left = !dflt && c.ch.below(2) == 1;
      String s = c.g.text(null, width, pad, left, true);
      out.b.writeByte(0x5A);
      int at = out.b.writerIndex();
      try {
        if (dflt) c.r.sys.writeFixed(out.b, s, width);
        else c.r.sys.writeFixed(out.b, s, width, pad, left);
      } catch (Throwable e) {
        Ctx.expect(e, "writing " + Msg.show(s) + " into a field of " + width);
      }
      String what = Msg.show(s) + " in a field of " + width + " padded with " + Msg.show("" + pad) + " on the " + (left ? "left" : "right");
      int len = out.b.writerIndex() - at;
      if (len != width) throw Ctx.bad("width", what + " took " + len + " bytes");
      byte[] got = Bufs.bytes(out.b, at, at + width), want = field(s, width, pad, left);
      if (!Arrays.equals(got, want)) throw Ctx.bad("field-bytes", what + ": " + Bufs.hex(got) + " instead of " + Bufs.hex(want));
      fs.add(new Object[] {s, width, pad, left, dflt, p + 1});
      p += 1 + width;
      c.w.ev("field", width, len);
    }
    byte[] b = Bufs.bytes(out.b, start, out.b.writerIndex());
    for (Object[] f : fs) {
      int width = (Integer) f[1], off = (Integer) f[5];
      char pad = (Character) f[2];
      boolean left = (Boolean) f[3], dflt = (Boolean) f[4];
      // cut inside the field
      int cut = off + c.ch.below(width);
      Bufs.Mem part = c.bufs.in(b, off, cut, c.ch.below(2) == 0 ? Arrays.copyOfRange(b, cut, b.length) : null);
      c.w.fault("torn_field");
      boolean threw = false;
      try {
        if (dflt) c.r.sys.readFixed(part.b, width);
        else c.r.sys.readFixed(part.b, width, pad, left);
      } catch (Exception e) {
        threw = true;
      }
      if (!threw) throw Ctx.bad("read-from-part", "a field of " + width + " was read from " + (cut - off) + " bytes in a " + part.kind + " buffer");
      Bufs.Mem in = c.bufs.in(b, off, b.length, null);
      int ri = in.b.readerIndex();
      String got;
      try {
        got = dflt ? c.r.sys.readFixed(in.b, width) : c.r.sys.readFixed(in.b, width, pad, left);
      } catch (Throwable e) {
        Ctx.expect(e, "reading a field of " + width);
        return;
      }
      c.st.messages++;
      if (in.b.readerIndex() - ri != width) throw Ctx.bad("consumed", "reading a field of " + width + " consumed " + (in.b.readerIndex() - ri));
      String want = Ref.trim(new String(b, off, width, StandardCharsets.UTF_8), pad, left);
      if (!want.equals(got)) throw Ctx.bad("field-text", "field " + Bufs.hex(b, off, off + width) + " padded with " + Msg.show("" + pad) + " on the " + (left ? "left" : "right") + " read as " + Msg.show(got) + " instead of " + Msg.show(want));
      String s = (String) f[0];
      if (fits(s, width, pad, left) && !s.equals(got)) throw Ctx.bad("field-text", Msg.show(s) + " came back as " + Msg.show(got));
    }
  }

  static boolean fits(String s, int width, char pad, boolean left) {
    if (s == null) return false;
    byte[] x = s.getBytes(StandardCharsets.UTF_8);
    if (x.length > width || !s.equals(new String(x, StandardCharsets.UTF_8))) return false;
    return s.isEmpty() || s.charAt(left ? 0 : s.length() - 1) != pad;
  }

  /** Every text field of a message: its neighbours must not notice what it holds. */
  private static void c15message(Ctx c) {
    List<Spec.Type> ts = new ArrayList<>();
    for (Spec.Type t : c.spec.types) if (t.hasText && t.poly < 0) ts.add(t);
    Spec.Type t = ts.get((c.focus / 3) % ts.size());
    Msg m = c.g.gen(t);
    byte[] prev = null;
    c.st.types.set(t.id);
    List<Integer> idx = new ArrayList<>();
    for (int i = 0; i < m.v.length; i++) {
      Spec.Wire w = t.fields.get(i).w;
      if (w.k == Spec.K.FSTR || w.k == Spec.K.DSTR) idx.add(i);
      else if (w.k == Spec.K.LIST && (w.elem.k == Spec.K.FSTR || w.elem.k == Spec.K.DSTR)) idx.add(i);
    }
    if (idx.isEmpty()) return;
    Object reused = c.r.fresh(t);
    int rounds = Math.min(idx.size(), 4);
    for (int q = 0; q < rounds; q++) {
      int i = idx.get(c.ch.below(idx.size()));
      Spec.Wire w = t.fields.get(i).w;
      boolean list = w.k == Spec.K.LIST;
      Spec.Wire e = list ? w.elem : w;
      // the same message with plain text of the field's size in the field
      Msg plain = m.copy(), odd = m.copy();
      Object pv, ov;
      String s = (String) c.g.scalar(t, e);
      String base = e.k == Spec.K.FSTR ? Gen.repeat('P', e.width) : "PP";
      if (list) {
        int n = 1 + c.ch.below(3), at = c.ch.below(n);
        List<Object> pl = new ArrayList<>(), ol = new ArrayList<>();
        for (int k = 0; k < n; k++) {
          pl.add(base);
          ol.add(k == at ? s : base);
        }
        pv = pl;
        ov = ol;
      } else {
        pv = base;
        ov = s;
      }
      plain.v[i] = pv;
      odd.v[i] = ov;
      byte[] a = c.encodeReal(c.r.build(plain), t, c.bufs.out(Ref.encode(plain, c.has).length + 64).b);
      Object o = c.ch.below(2) == 0 ? c.r.build(odd) : reused;
      c.r.fill(o, odd);
      byte[] b = c.encodeReal(o, t, c.bufs.out(Ref.encode(odd, c.has).length + 64).b);
      String where = t + "." + t.fields.get(i).name + " holding " + Msg.show(s);
      byte[] wantText = e.k == Spec.K.FSTR ? field(s, e.width, (char) e.pad, e.left) : s == null ? new byte[0] : s.getBytes(StandardCharsets.UTF_8);
      byte[] baseText = base.getBytes(StandardCharsets.UTF_8);
      if (b.length - a.length != wantText.length - baseText.length) throw Ctx.bad("width", where + ": encoding takes " + (b.length - a.length) + " bytes more than with " + base + " instead of " + (wantText.length - baseText.length));
      // find where they differ: everything in front of and behind the field is the same
      byte[] want = splice(a, baseText, wantText, e, m, i, c, plain, odd);
      if (want != null && !Arrays.equals(b, want)) throw Ctx.bad("field-bytes", where + ": " + Scen.bytesDiff(b, want) + "\n got  " + Bufs.hex(b) + "\n want " + Bufs.hex(want));
      // receive
      Bufs.Mem in = c.bufs.in(b, 0, b.length, prev);
      Object d = c.ch.below(2) == 0 ? c.r.fresh(t) : reused;
      if (b.length > 0 && c.ch.below(2) == 1) {
        int cut = c.ch.below(b.length);
        c.w.fault("torn_field");
        boolean threw = false;
        try {
          c.r.decode(d, t, c.bufs.in(b, 0, cut, Arrays.copyOfRange(b, cut, b.length)).b);
        } catch (Exception x) {
          threw = true;
        }
        if (!threw) throw Ctx.bad("read-from-part", t + " was decoded from " + cut + " of " + b.length + " bytes");
      }
      try {
        c.r.decode(d, t, in.b);
      } catch (Throwable x) {
        Ctx.expect(x, "decoding " + where);
      }
      Object gv = c.r.read(d).v[i];
      Object got = list ? pickOdd(gv, (List<?>) ov, s) : gv;
      String g = got == null ? "" : String.valueOf(got);
      String exp = e.k == Spec.K.FSTR ? Ref.trim(new String(wantText, StandardCharsets.UTF_8), (char) e.pad, e.left) : new String(wantText, StandardCharsets.UTF_8);
      if (list && got == MISSING) throw Ctx.bad("list-size", where + ": list of " + ((List<?>) ov).size() + " came back as " + Msg.show(gv));
      if (!g.equals(exp)) throw Ctx.bad("field-text", where + " came back as " + Msg.show(g) + " instead of " + Msg.show(exp));
      if (in.b.isReadable()) throw Ctx.bad("consumed", where + ": " + in.b.readableBytes() + " bytes left over");
      c.w.ev("text", i, g);
      prev = b;
      m = odd;
    }
  }

  private static final Object MISSING = new Object();

  private static Object pickOdd(Object got, List<?> sent, String s) {
    if (!(got instanceof List) || ((List<?>) got).size() != sent.size()) return MISSING;
    for (int i = 0; i < sent.size(); i++) if (sent.get(i) == s) return ((List<?>) got).get(i);
    return MISSING;
  }

  /** a with the text replaced at the field's own offset, found from the encoding of the fields in front. */
  private static byte[] splice(byte[] a, byte[] base, byte[] text, Spec.Wire e, Msg m, int i, Ctx c, Msg plain, Msg odd) {
    byte[] rp = Ref.encode(plain, c.has), ro = Ref.encode(odd, c.has);
    if (!Arrays.equals(a, rp)) return null; // the layout is not this property's matter
    return ro;
  }

  // C16 -------------------------------------------------------------------------------------------
  static void c16(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(0);
    Spec.Type f = c.focusType();
    boolean bare = c.ch.below(2) == 1;
    List<Msg> msgs = new ArrayList<>();
    int n = c.extent(1 + c.ch.below(3), 600);
    for (int i = 0; i < n; i++) msgs.add(bare ? c.g.gen(f) : c.g.containing(f));
    // the frame travels twice: original and retransmission on different connections
    List<Object> originals = new ArrayList<>();
    if (msgs.stream().allMatch(m -> c.refBytes(m).length > 0)) {
      Map<Integer, Object> first = new HashMap<>(), second = new HashMap<>();
      Session a = new Session(c, "orig", msgs), b = new Session(c, "retx", msgs);
      a.realSender = b.realSender = false;
      a.reuse = b.reuse = false;
      a.onReceive = first::put;
      b.onReceive = second::put;
      a.start();
      b.start();
      c.w.fault("retransmission");
      c.w.run();
      if (c.w.failure() != null) return;
      for (int i = 0; i < n; i++) {
        if (first.get(i) == null || second.get(i) == null) return;
        equalPair(c, first.get(i), second.get(i), "original and retransmission of " + msgs.get(i).t);
        originals.add(first.get(i));
      }
    } else c.w.run();
    c.w.observe(() -> {
    for (int i = 0; i < n; i++) {
      Msg m = msgs.get(i);
      byte[] bytes = c.refBytes(m);
      Object x = dec(c, m.t, bytes, null);
      if (x == null) return;
      // into a used object
      Object used = c.r.fresh(m.t);
      c.r.fill(used, c.g.gen(m.t));
      hash(used, m.t); // as a key of a map of recent messages
      if (x.equals(used) != used.equals(x)) throw Ctx.bad("equals", m.t + ": equality is not symmetric");
      Object y = dec(c, m.t, bytes, used);
      if (y == null) return;
      if (c.ch.below(2) == 1) {
        Object set = c.r.build(c.g.gen(m.t));
        hash(set, m.t);
        c.r.fill(set, c.canon(m));
        equalPair(c, x, set, "received copy of " + m.t + " and one set field by field in a used object");
      }
      equalPair(c, x, y, "copies of " + m.t + " decoded into a new and a used object");
      // the sender's own copy, in normal form
      Object mine = c.r.build(c.canon(m));
      equalPair(c, x, mine, "received copy and sender's copy of " + m.t);
      if (i < originals.size()) equalPair(c, x, originals.get(i), "copies of " + m.t);
      String same = null;
      if (x.equals(null) || x.equals("x")) throw Ctx.bad("equals", m.t + " equals null or a string");
      // a different message
      for (int k = 0; k < 6; k++) {
        Msg d = m.copy();
        String fld = c.g.mutateOne(d);
        if (fld == null) break;
        byte[] db = c.refBytes(d);
        Msg cm = c.canon(m), cd = c.canon(d);
        // a checksum or length that changes with the content must not be what tells them apart: the field itself must
        same = Msg.diff(cm, cd);
        if (same == null) continue;
        Object z = dec(c, m.t, db, null);
        if (z == null) return;
        if (m.t.sum >= 0 || m.t.len >= 0) {
          // neutralise computed header and trailer values
          Msg zz = c.r.read(z);
          if (m.t.sum >= 0 && Scen.computed(c, m.t, m.t.sum)) zz.v[m.t.sum] = cm.v[m.t.sum];
          if (m.t.len >= 0) zz.v[m.t.len] = cm.v[m.t.len];
          if (Msg.diff(zz, c.r.read(x)) == null) continue;
          z = c.r.build(zz);
        }
        c.w.ev("different", k, fld);
        boolean e1, e2;
        try {
          e1 = x.equals(z);
          e2 = z.equals(x);
          hash(z, m.t);
        } catch (Throwable e) {
          Ctx.expect(e, "comparing messages of " + m.t);
          return;
        }
        if (e1 || e2) throw Ctx.bad("equal-but-different", "messages of " + m.t + " that differ in " + fld + " are equal: " + same);
        c.st.messages++;
      }
    }
    });
  }

  private static Object dec(Ctx c, Spec.Type t, byte[] b, Object into) {
    Object o = into == null ? c.r.fresh(t) : into;
    try {
      c.r.decode(o, t, c.bufs.in(b, 0, b.length, null).b);
    } catch (Exception e) {
      c.w.probe("reference_bytes_not_decodable");
      return null;
    }
    return o;
  }

  private static int hash(Object o, Spec.Type t) {
    try {
      return o.hashCode();
    } catch (StackOverflowError e) {
      throw Ctx.bad("hash-fails", "hashCode of " + t + " never ends (stack overflow)");
    }
  }

  private static void equalPair(Ctx c, Object a, Object b, String what) {
    Spec.Type t = c.r.typeOf(a);
    boolean e1, e2;
    int h1, h2, h3;
    try {
      e1 = a.equals(b);
      e2 = b.equals(a);
      h1 = hash(a, t);
      h2 = hash(b, t);
      h3 = hash(a, t);
      Set<Object> seen = new HashSet<>();
      seen.add(a);
      if (!seen.contains(b) && e1 && h1 == h2) throw Ctx.bad("dedup", what + ": a set of received messages does not find the copy");
    } catch (Violation v) {
      throw v;
    } catch (Throwable e) {
      Ctx.expect(e, what);
      return;
    }
    c.w.ev("equal", h1, h2);
    if (!e1 || !e2) throw Ctx.bad("not-equal", what + " are not equal: " + Msg.diff(c.r.read(a), c.r.read(b)) + " " + c.r.read(a));
    if (h1 != h2 || h1 != h3) throw Ctx.bad("hash-differs", what + " have hash codes " + h1 + " and " + h2);
  }

  // C17 -------------------------------------------------------------------------------------------
  static void c17(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(c.ch.below(2));
    int n = c.extent(1 + c.ch.below(5), 2200);
    Spec.Type f = c.focusType();
    List<Msg> msgs = new ArrayList<>();
    List<byte[]> bytes = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      Msg m = Scen.nonEmpty(c, i == 0 || c.ch.below(3) == 0 ? f : c.ch.pick(c.g.ofProto(f.proto)), c.ch.below(6) == 5);
      // a conforming sender: what it sends reads back as exactly what it meant
      byte[] b = c.refBytes(m);
      boolean ok = false;
      for (int k = 0; k < 4 && !ok; k++) {
        m = Ref.decode(m.t, b);
        byte[] b2 = c.refBytes(m);
        ok = Arrays.equals(b, b2);
        b = b2;
      }
      if (!ok) {
        c.w.probe("not_conforming_skipped");
        continue;
      }
      msgs.add(m);
      bytes.add(b);
    }
    if (msgs.isEmpty()) return;
    int hops = 1 + c.ch.below(3);
    relay(c, msgs, bytes, bytes, 0, hops);
    c.w.run();
  }

  /** Hop h: receives in, decodes, and forwards by encoding again; the result is compared with what the sender sent. */
  private static void relay(Ctx c, List<Msg> msgs, List<byte[]> sent, List<byte[]> in, int h, int hops) {
    Session s = new Session(c, "hop" + h, msgs);
    s.realSender = false;
    s.source = in::get;
    byte[][] outs = new byte[msgs.size()][];
    Bufs.Mem[] out = {null};
    boolean reuseOut = c.ch.below(2) == 1;
    s.onReceive = (i, o) -> {
      Msg m = msgs.get(i);
      if (out[0] == null || !reuseOut || out[0].b.maxCapacity() != Integer.MAX_VALUE) out[0] = c.bufs.out(sent.get(i).length * 2 + 64);
      else if (c.ch.below(3) == 2) out[0].b.clear();
      else if (c.ch.below(3) == 2) out[0].b.readerIndex(out[0].b.writerIndex());
      byte[] b = c.encodeReal(o, m.t, out[0].b);
      outs[i] = b;
      c.w.ev("relay" + h, i, b.length);
      String d = Scen.bytesDiff(b, sent.get(i));
      if (d != null) throw Ctx.bad("relay-bytes", "hop " + h + " forwards message " + i + " (" + m.t + ") altered: " + d + "\n got  " + Bufs.hex(b) + "\n want " + Bufs.hex(sent.get(i)) + "\n of " + m);
      if (i == msgs.size() - 1 && h + 1 < hops) {
        List<byte[]> next = new ArrayList<>(Arrays.asList(outs));
        relay(c, msgs, sent, next, h + 1, hops);
      }
    };
    s.start();
  }

  // C18 -------------------------------------------------------------------------------------------
  static void c18(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(0);
    List<Spec.Type> ts = new ArrayList<>();
    for (Spec.Type t : c.spec.types) if (t.hasGroup || t.hasDyn) ts.add(t);
    Spec.Type f = ts.get(c.focus % ts.size());
    int mode = c.ch.below(4);
    c.g.bigChance = mode == 0 ? 0 : mode == 1 ? 8 : 4;
    List<Msg> msgs = new ArrayList<>();
    int n = 1 + c.ch.below(2);
    for (int i = 0; i < n; i++) {
      Msg m = c.ch.below(3) == 0 ? c.g.gen(f) : c.g.containing(f);
      defaults(c, m, 0);
      if (mode == 3 && i == 0) bigOne(c, m, f);
      if (Ref.encode(m, c.has).length > 6_000_000) {
        c.g.bigChance = 0;
        m = c.g.gen(f);
      }
      msgs.add(m);
      c.st.types.set(f.id);
    }
    Session s = new Session(c, "groups", msgs);
    s.tentative = false;
    s.resets = false;
    if (s.pipe.segMode == 2) s.pipe.segMode = 1;
    s.onReceive = (i, o) -> {
      Msg want = c.canon(msgs.get(i));
      String d = c.diffContent(c.r.read(o), want);
      if (d != null) throw Ctx.bad("group-content", "message " + i + " (got vs sent): " + d);
    };
    s.start();
    c.w.run();
  }

  /** Some elements are empty or default ones. */
  private static void defaults(Ctx c, Msg m, int depth) {
    for (int i = 0; i < m.v.length; i++) {
      Spec.Wire w = m.t.fields.get(i).w;
      if (m.v[i] instanceof Msg) defaults(c, (Msg) m.v[i], depth + 1);
      if (w.k == Spec.K.LIST && m.v[i] != null && !((List<?>) m.v[i]).isEmpty() && c.ch.below(3) == 0) {
        @SuppressWarnings("unchecked")
        List<Object> l = (List<Object>) m.v[i];
        int at = c.ch.below(3) == 0 ? l.size() - 1 : c.ch.below(l.size());
        l.set(at, zero(w.elem));
      }
    }
  }

  private static Object zero(Spec.Wire w) {
    switch (w.k) {
      case I8: return (byte) 0;
      case I16: return (short) 0;
      case I32: return 0;
      case I64: return 0L;
      case F32: return 0f;
      case F64: return 0d;
      case FSTR: case DSTR: return "";
      case MSG: {
        Msg m = new Msg(w.type);
        for (int i = 0; i < m.v.length; i++) {
          Spec.Wire x = w.type.fields.get(i).w;
          m.v[i] = x.k == Spec.K.LIST ? null : zero(x);
        }
        return m;
      }
      default: throw new IllegalStateException();
    }
  }

  /** One group or text of m's part f gets a size at an edge of what the prefix can express. */
  private static void bigOne(Ctx c, Msg m, Spec.Type f) {
    Msg o = find(m, f);
    if (o == null) return;
    List<Integer> idx = new ArrayList<>();
    for (int i = 0; i < o.v.length; i++) if (f.fields.get(i).w.k == Spec.K.LIST || f.fields.get(i).w.k == Spec.K.DSTR) idx.add(i);
    if (idx.isEmpty()) return;
    int i = idx.get(c.ch.below(idx.size()));
    Spec.Wire w = f.fields.get(i).w;
    int cap = w.prefix.k == Spec.K.I8 ? 255 : w.prefix.k == Spec.K.I16 ? 65535 : 150_000;
    int n = Math.min(cap, new int[] {32767, 32768, 65535, 65534, 40000, 255, 256, 128, 127}[c.ch.below(9)]);
    if (w.k == Spec.K.DSTR) {
      o.v[i] = c.g.filled(n);
      return;
    }
    if (Ref.minSize(w.elem) * (long) n > 4_000_000) n = 32768 * 40 / Math.max(1, Ref.minSize(w.elem));
    List<Object> l = new ArrayList<>();
    int distinct = 5 + c.ch.below(10);
    c.g.bigChance = 0; // only the outer group is large
    for (int k = 0; k < n; k++) l.add(k < distinct ? (w.elem.k == Spec.K.MSG ? c.g.gen(w.elem.type) : c.g.scalar(f, w.elem)) : l.get((k * 7) % distinct));
    l.set(n - 1, w.elem.k == Spec.K.MSG ? c.g.gen(w.elem.type) : c.g.scalar(f, w.elem));
    o.v[i] = l;
    c.w.probe("group_at_edge");
  }
}
