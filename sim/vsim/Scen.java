package vsim;

import io.netty.buffer.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** The simulated workloads with their oracles, one per property. */
public final class Scen {
  private Scen() {}

  public interface S {
    void run(Ctx c) throws Throwable;
  }

  public static S of(String id) {
    switch (id) {
      case "C01": return Scen::c01;
      case "C02": return Scen::c02;
      case "C03": return Scen::c03;
      case "C04": return Scen::c04;
      case "C05": return Scen::c05;
      case "C06": return Scen::c06;
      case "C07": return Scen::c07;
      case "C08": return Scen::c08;
      case "C09": return Conc::c09;
      case "C10": return Conc::c10;
      case "C11": return Conc::c11;
      case "C12": return Scen2::c12;
      case "C13": return Scen2::c13;
      case "C14": return Scen2::c14;
      case "C15": return Scen2::c15;
      case "C16": return Scen2::c16;
      case "C17": return Scen2::c17;
      case "C18": return Scen2::c18;
      case "C19": return Scen3::c19;
      case "C20": return Scen3::c20;
      default: throw new IllegalArgumentException(id);
    }
  }

  static Msg nonEmpty(Ctx c, Spec.Type t, boolean bare) {
    Msg m = c.message(t, bare);
    return Ref.encode(m, c.has).length > 0 ? m : c.message(t, false);
  }

  /** A few messages, the first one containing the type under the spotlight. */
  static List<Msg> workload(Ctx c, int max) {
    int n = c.extent(1 + c.ch.below(max), 5000);
    List<Msg> l = new ArrayList<>();
    Spec.Type f = c.focusType();
    boolean mixed = c.ch.below(4) == 3;
    for (int i = 0; i < n; i++) {
      Spec.Type t = i == 0 || c.ch.below(4) == 0 ? f : mixed ? c.g.anyType() : c.ch.pick(c.g.ofProto(f.proto));
      if (i > 0 && c.ch.below(6) == 5) { // almost the same message again
        Msg m = l.get(c.ch.below(3) == 0 ? c.ch.below(i) : i - 1).copy();
        if (c.ch.below(4) == 3) c.g.twins(m);
        else c.g.mutateOne(m);
        l.add(m);
      } else l.add(nonEmpty(c, t, c.ch.below(5) == 4));
    }
    return l;
  }

  // C01 -------------------------------------------------------------------------------------------
  static void c01(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(c.ch.below(3));
    int sessions = c.ch.below(4) == 3 ? 2 : 1;
    for (int k = 0; k < sessions; k++) {
      List<Msg> msgs = workload(c, 6);
      Session s = new Session(c, "s" + k, msgs);
      s.onReceive = (i, o) -> {
        Msg want = c.canon(msgs.get(i));
        String d = c.diffContent(c.r.read(o), want);
        if (d != null) throw Ctx.bad("content", "message " + i + " arrived altered (got vs sent): " + d);
      };
      s.start();
    }
    c.w.run();
  }

  // C02 -------------------------------------------------------------------------------------------
  static void c02(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(0);
    List<Msg> msgs = workload(c, 5);
    // direction 1: what the code sends is read by an independent implementation
    Session s = new Session(c, "interop-out", msgs);
    s.onReceive = (i, o) -> {
      Msg d = c.r.read(o);
      String x = Msg.diff(d, c.canon(msgs.get(i)));
      if (x != null) throw Ctx.bad("decode-layout", "bytes of an independent encoder decode differently (got vs expected): " + x);
    };
    // the receiving party of this session gets reference bytes; the code under test encodes in parallel sessions
    s.realSender = false;
    s.start();
    c.w.spawn("encoder", () -> {
      Map<Spec.Type, Object> pool = new HashMap<>();
      Bufs.Mem keep = null;
      for (int round = 0; round < 2; round++)
        for (int i = 0; i < msgs.size(); i++) {
          Msg m = msgs.get(i);
          byte[] want = c.refBytes(m);
          Object o = round == 0 ? c.r.build(m) : pool.computeIfAbsent(m.t, t -> c.r.fresh(t));
          if (round == 1) c.r.fill(o, m);
          Bufs.Mem out = keep != null && keep.b.maxCapacity() == Integer.MAX_VALUE && c.ch.below(3) > 0 ? keep : c.bufs.out(want.length);
          keep = out;
          byte[] got = c.encodeReal(o, m.t, out.b);
          c.w.ev("encoded", i, got.length);
          String d = bytesDiff(got, want);
          if (d != null) throw Ctx.bad("encode-layout", m.t + " into " + out.kind + " buffer: " + d + "\n got  " + Bufs.hex(got) + "\n want " + Bufs.hex(want) + "\n of " + m);
          if (c.ch.below(2) == 1) {
            // history: a message that was decoded before is changed and sent again, a failed attempt lies between
            Object dec = c.r.fresh(m.t);
            Bufs.Mem in = c.bufs.in(want, 0, want.length, null);
            if (want.length > 1 && c.ch.below(2) == 1) {
              Bufs.Mem part = c.bufs.in(0, want, 0, c.ch.below(want.length), null);
              try {
                c.r.decode(dec, m.t, part.b);
              } catch (RuntimeException e) {
                c.w.fault("decode_of_partial_message");
              }
            }
            try {
              c.r.decode(dec, m.t, in.b);
            } catch (Throwable e) {
              Ctx.expect(e, "decoding bytes of an independent encoder of " + m.t + " from " + in.kind + " buffer");
            }
            if (in.b.isReadable()) throw Ctx.bad("decode-layout", m.t + ": " + in.b.readableBytes() + " bytes of the message were not consumed");
            Msg n = c.g.gen(m.t);
            pool.put(m.t, dec);
            c.r.fill(dec, n);
            byte[] w2 = c.refBytes(n);
            byte[] g2 = c.encodeReal(dec, n.t, c.bufs.out(w2.length).b);
            String d2 = bytesDiff(g2, w2);
            if (d2 != null) throw Ctx.bad("encode-layout", m.t + " reused after decoding: " + d2 + "\n got  " + Bufs.hex(g2) + "\n want " + Bufs.hex(w2) + "\n of " + n);
          }
          c.w.yield();
        }
    });
    c.w.run();
  }

  static String bytesDiff(byte[] got, byte[] want) {
    if (Arrays.equals(got, want)) return null;
    int i = Arrays.mismatch(got, want);
    return "bytes differ at offset " + i + " (lengths " + got.length + " vs " + want.length + ")";
  }

  // C03 -------------------------------------------------------------------------------------------
  static void c03(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(0);
    String[] roots = {"sse", "szse", "risk", "sample", "bjse"};
    int n = c.extent(2 + c.ch.below(6), 5000);
    String proto = roots[c.focus % roots.length];
    boolean mixed = c.ch.below(3) == 2;
    c.w.spawn("frames", () -> {
      Bufs.Mem out = null;
      Map<Spec.Type, Object> pool = new HashMap<>();
      int[] depth = {0};
      for (int i = 0; i < n; i++) {
        Spec.Type root = c.spec.roots.get(mixed ? c.ch.pick(roots) : proto);
        c.st.types.set(root.id);
        if (c.ch.below(3) == 2) toggle(c, depth);
        int bk = c.ch.below(10);
        Msg m = c.g.gen(root);
        byte[] body;
        CustomBody cb = null;
        Msg inner = null;
        if (bk >= 8) inner = c.g.gen(c.ch.below(2) == 0 ? root : c.spec.roots.get(c.ch.pick(roots)));
        if (bk == 6) { // a user-defined body of arbitrary size
          int len = new int[] {0, 1, 5, 127, 128, 255, 256, 300, 4096, 32768, 65536, 70000}[c.ch.below(12)];
          byte[] raw = new byte[len];
          c.bufs.garbage(raw, 0, len, null);
          body = raw;
          cb = new CustomBody() {
            public void encode(ByteBuf b) {
              b.writeBytes(raw);
            }

            public void decode(ByteBuf b) {
              b.readBytes(raw.length);
            }
          };
        } else if (bk == 7) body = new byte[0];
        else if (bk == 8) { // a user-defined body that carries a frame it encodes by itself
          Msg in2 = inner;
          body = c.refBytes(in2);
          boolean direct = c.ch.below(2) == 0;
          int reader = c.ch.below(3);
          cb = new CustomBody() {
            public void encode(ByteBuf b) {
              byte[] x = c.encodeReal(c.r.build(in2), in2.t, direct ? b : Unpooled.buffer().writeZero(reader));
              checkFrame(c, in2.t, in2, x, Ref.encode((Msg) in2.v[in2.t.poly], c.has), "frame inside the body of another one");
              if (!direct) b.writeBytes(x);
            }

            public void decode(ByteBuf b) {}
          };
        } else if (bk == 9) body = c.refBytes(inner); // a frame as the body of a frame
        else body = Ref.encode((Msg) m.v[root.poly], c.has);
        Object o = c.ch.below(2) == 0 ? c.r.fresh(root) : pool.computeIfAbsent(root, t -> c.r.fresh(t));
        Msg f = m.copy();
        if (bk == 9) f.v[root.poly] = inner;
        if (bk == 6 || bk == 8) f.v[root.poly] = new Repo.Real(c.r.sys.customBody(1, cb));
        if (bk == 7) f.v[root.poly] = null;
        c.r.fill(o, f);
        int room = body.length + 64;
        if (out == null || out.b.maxCapacity() != Integer.MAX_VALUE || c.ch.below(5) == 4) out = c.bufs.out(room);
        else {
          int k = c.ch.below(5);
          if (k == 1) out.b.readerIndex(out.b.writerIndex()); // everything sent
          if (k == 2) out.b.readerIndex(out.b.readerIndex() + c.ch.below(out.b.readableBytes() + 1)); // partly sent
          if (k == 3) out.b.clear();
          if (k == 4) out.b.discardReadBytes();
          c.w.ev("reader_at", out.b.readerIndex(), out.b.writerIndex());
        }
        int before = out.b.writerIndex(), reader = out.b.readerIndex();
        byte[] fr = c.encodeReal(o, root, out.b);
        c.w.nontrivial |= before > 0;
        c.w.ev("frame", i, fr.length);
        if (out.b.readerIndex() != reader) throw Ctx.bad("reader-moved", "encoding moved the reader index");
        checkFrame(c, root, m, fr, body, "frame " + i + " at " + before + " (reader at " + reader + ", " + out.kind + " buffer)");
        if (c.ch.below(3) == 2) {
          // the same object once more, right behind: the length and checksum it now holds are stale or not
          byte[] fr2 = c.encodeReal(o, root, out.b.maxCapacity() == Integer.MAX_VALUE ? out.b : (out = c.bufs.out(room)).b);
          Msg m2 = m.copy();
          checkFrame(c, root, m2, fr2, body, "frame " + i + " encoded again");
        }
        if (bk < 6) {
          // decoding reports what was on the wire, also when that is not what encoding would compute
          byte[] w = fr.clone();
          boolean lie = root.sum >= 0 && c.ch.below(2) == 1;
          if (lie) for (int k = 1; k <= 4; k++) w[w.length - k] = (byte) c.ch.below(256);
          Msg want;
          try {
            want = Ref.decode(root, w);
          } catch (Ref.Short | Ref.Unknown e) {
            continue;
          }
          Bufs.Mem in = c.bufs.in(w, 0, w.length, fr);
          Object d = c.ch.below(2) == 0 ? c.r.fresh(root) : pool.computeIfAbsent(root, t -> c.r.fresh(t));
          try {
            c.r.decode(d, root, in.b);
          } catch (Throwable e) {
            if (lie && !(e instanceof Error)) continue; // a receiver may reject a wrong checksum
            Ctx.expect(e, "decoding a frame just encoded (" + root + ")");
          }
          Msg got = c.r.read(d);
          for (int k = 0; k < got.v.length; k++) {
            if (k == root.poly) continue;
            String x = Msg.diff(got.v[k], want.v[k], root.simple + "." + root.fields.get(k).name, -1);
            if (x != null) throw Ctx.bad("header-on-wire", "decoded header or trailer differs from the wire (got vs wire): " + x);
          }
        }
        c.w.yield();
      }
    });
    c.w.run();
  }

  static void toggle(Ctx c, int[] depth) {
    String a = c.ch.pick(new String[] {"SSE_BIN", "SZSE_BIN", "CRC32"});
    if (c.sums.contains(a)) c.unregister(a);
    else if (c.ch.below(4) == 3) {
      // a service that has the library encode another frame before it returns
      Spec.Type t = c.spec.roots.get(c.ch.pick(new String[] {"sse", "szse", "risk", "sample"}));
      Msg other = c.g.gen(t);
      c.registerReentrant(a, () -> {
        if (depth[0] > 0) return;
        depth[0]++;
        try {
          byte[] x = c.encodeReal(c.r.build(other), t, Unpooled.buffer());
          checkFrame(c, t, other, x, Ref.encode((Msg) other.v[t.poly], c.has), "frame encoded by a checksum service");
        } finally {
          depth[0]--;
        }
      });
    } else c.register(a);
  }

  private static void checkFrame(Ctx c, Spec.Type root, Msg m, byte[] fr, byte[] body, String where) {
    int hdr = 0;
    int lenOff = -1;
    for (int i = 0; i < root.poly; i++) {
      if (i == root.len) lenOff = hdr;
      hdr += Ref.minSize(root.fields.get(i).w);
    }
    int tr = 0;
    for (int i = root.poly + 1; i < root.fields.size(); i++) tr += Ref.minSize(root.fields.get(i).w);
    int bodyLen = fr.length - hdr - tr;
    if (bodyLen < 0) throw Ctx.bad("frame-size", where + ": frame of " + fr.length + " bytes is shorter than its header and trailer");
    if (bodyLen != body.length) throw Ctx.bad("frame-size", where + ": body takes " + bodyLen + " bytes instead of " + body.length);
    if (lenOff >= 0) {
      long v = new Ref.In(fr, lenOff, fr.length).num(Ref.width(root.fields.get(root.len).w.k), root.fields.get(root.len).w.le, false);
      if (v != bodyLen) throw Ctx.bad("body-length", where + ": " + root + " declares body length " + v + ", the body has " + bodyLen + " bytes");
    }
    int off = fr.length - tr;
    for (int i = root.poly + 1; i < root.fields.size(); i++) {
      Spec.Wire w = root.fields.get(i).w;
      int width = Ref.width(w.k);
      long v = new Ref.In(fr, off, fr.length).num(width, w.le, false);
      if (w.checksum != null && c.sums.contains(w.checksum)) {
        int s = Ref.sum(w.checksum, fr, 0, off);
        if (v != s) throw Ctx.bad("checksum", where + ": " + root + " carries checksum " + v + ", its bytes have " + s);
      } else if (m != null && w.checksum != null) {
        long given = ((Number) m.v[i]).longValue();
        // encoded twice: what the object held after the first encode counts, which is the same value
        if (v != given) throw Ctx.bad("checksum-passthrough", where + ": " + root + " carries checksum " + v + " instead of the caller's " + given);
      } else if (m != null) {
        String x = Msg.diff(Ref.decVal(w, new Ref.In(fr, off, fr.length)), m.v[i], root.simple + "." + root.fields.get(i).name, -1);
        if (x != null) throw Ctx.bad("trailer-passthrough", where + ": " + x);
      }
      off += width;
    }
    // fields in front of the body other than the computed length are the caller's
    Ref.In in = new Ref.In(fr, 0, fr.length);
    for (int i = 0; i < root.poly; i++) {
      Spec.Wire w = root.fields.get(i).w;
      Object v = Ref.decVal(w, in);
      if (i == root.len || w.k == Spec.K.FSTR) continue;
      String x = Msg.diff(v, m.v[i], root.simple + "." + root.fields.get(i).name, -1);
      if (x != null) throw Ctx.bad("header-passthrough", where + ": " + x);
    }
  }

  // C04 -------------------------------------------------------------------------------------------
  /** So many bytes that sums outgrow 31 or 32 bits. */
  private static void bulk(Ctx c, Object svc, String a) {
    c.w.probe("bulk_data");
    byte[] x = new byte[8_421_505 + c.ch.below(9_000_000)];
    Arrays.fill(x, (byte) (c.ch.below(3) == 2 ? 0x80 + c.ch.below(128) : 0xff));
    for (int q = c.ch.below(4); q > 0; q--) x[c.ch.below(x.length)] = (byte) c.ch.below(256);
    int want = Ref.sum(a, x, 0, x.length), got;
    boolean ok;
    io.netty.buffer.ByteBuf b = io.netty.buffer.Unpooled.wrappedBuffer(x);
    try {
      got = c.r.sys.calc(svc, b);
      c.w.operation();
      ok = c.r.sys.verify(svc, b, want);
    } catch (Throwable e) {
      Ctx.expect(e, a + " over " + x.length + " bytes");
      return;
    }
    c.w.ev("calc", x.length, got);
    if (got != want) throw Ctx.bad("value", a + " over " + x.length + " bytes: " + got + " instead of " + want);
    if (!ok) throw Ctx.bad("rejects-intact", a + " over " + x.length + " bytes: an intact frame is rejected");
  }

  static void c04(Ctx c) {
    String[] algs = {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN"};
    int tasks = 1 + c.ch.below(2);
    c.w.preemption(tasks > 1 ? c.ch.below(4) : 0);
    Map<String, Object> shared = new HashMap<>();
    for (String a : algs) shared.put(a, c.r.sys.newService(a));
    if (c.ch.below(600) == 599) {
      c.w.spawn("bulk", () -> bulk(c, shared.get(algs[c.focus % 4]), algs[c.focus % 4]));
      c.w.run();
      return;
    }
    for (int k = 0; k < tasks; k++) {
      c.w.spawn("link" + k, () -> {
        int n = c.extent(3 + c.ch.below(6), 2200);
        byte[] prev = null;
        for (int i = 0; i < n; i++) {
          String a = algs[(c.focus + i) % 4];
          int kind = c.ch.below(6);
          Object svc = kind == 0 ? c.r.sys.newService(a) : kind < 4 || !a.startsWith("CRC") ? shared.get(a) : c.r.sys.lookup(a);
          if (svc == null) throw Ctx.bad("missing", "no service for " + a);
          if (!a.equals(c.r.sys.algorithm(svc))) throw Ctx.bad("algorithm", "service for " + a + " calls itself " + c.r.sys.algorithm(svc));
          byte[] data = new byte[size(c)];
          c.bufs.garbage(data, 0, data.length, prev);
          if (data.length > 0 && c.ch.below(3) == 0) data[c.ch.below(data.length)] = (byte) (0x80 + c.ch.below(128));
          Bufs.Mem m = c.bufs.in(data, 0, data.length, prev).snap();
          int ri = m.b.readerIndex(), wi = m.b.writerIndex();
          int want = Ref.sum(a, data, 0, data.length);
          int got, again;
          boolean ok, okWrong;
          try {
            got = c.r.sys.calc(svc, m.b);
            ok = c.r.sys.verify(svc, m.b, want);
            okWrong = c.r.sys.verify(svc, m.b, want ^ (1 << c.ch.below(a.equals("CRC32") ? 32 : a.equals("CRC16") ? 16 : 8)));
            again = c.r.sys.calc(svc, m.b);
          } catch (Throwable e) {
            Ctx.expect(e, a + " over " + data.length + " bytes in a " + m.kind + " buffer");
            return;
          }
          c.w.ev("calc", data.length, got);
          c.st.messages++;
          String where = a + " over " + data.length + " bytes in a " + m.kind + " buffer, reader at " + ri;
          if (got != want) throw Ctx.bad("value", where + ": " + got + " instead of " + want + " for " + Bufs.hex(data));
          if (again != want) throw Ctx.bad("value", where + ": second time " + again + " instead of " + want);
          if (!ok) throw Ctx.bad("rejects-intact", where + ": an intact frame is rejected");
          if (okWrong) throw Ctx.bad("accepts-wrong", where + ": a wrong checksum is accepted");
          if (m.b.readerIndex() != ri || m.b.writerIndex() != wi) throw Ctx.bad("index-moved", where + ": indexes moved");
          String ch = m.changedOutside(0, 0);
          if (ch != null) throw Ctx.bad("bytes-changed", where + ": " + ch);
          if (m.b.refCnt() != m.ref) throw Ctx.bad("refcnt", where + ": reference count changed");
          // the frame travels; the transport damages it
          if (data.length > 0) {
            for (int rep = 0; rep < 2; rep++) {
              byte[] dam = data.clone();
              String what;
              boolean crc = a.startsWith("CRC");
              if (crc && c.ch.below(2) == 1) {
                int width = a.equals("CRC16") ? 16 : 32;
                int len = 1 + c.ch.below(width);
                long pat = 1L | (len == 1 ? 0 : 1L << (len - 1)) | (c.ch.bits() & ((1L << len) - 1));
                int bitsTotal = data.length * 8;
                int at = c.ch.below(bitsTotal);
                boolean any = false;
                for (int q = 0; q < len && at + q < bitsTotal; q++)
                  if ((pat >>> q & 1) == 1) {
                    dam[(at + q) / 8] ^= 1 << ((at + q) % 8);
                    any = true;
                  }
                if (!any) continue;
                what = "burst of " + len + " bits at bit " + at;
                c.w.fault("bit_burst");
              } else {
                int at = c.ch.below(dam.length);
                dam[at] ^= 1 + c.ch.below(255);
                what = "byte " + at;
                c.w.fault("byte_damage");
              }
              Bufs.Mem dm = c.bufs.in(dam, 0, dam.length, data);
              if (c.r.sys.verify(svc, dm.b, want)) throw Ctx.bad("accepts-damaged", where + ": accepted although the transport damaged " + what);
            }
          }
          prev = data;
          c.w.yield();
        }
      });
    }
    c.w.run();
  }

  static int size(Ctx c) {
    int k = c.ch.below(c.isLong() ? 6 : 10);
    if (k == 0) return 0;
    if (k < 6) return 1 + c.ch.below(64);
    if (k < 9) return new int[] {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513}[c.ch.below(25)];
    int d = new int[] {1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 8193, 16384, 65535, 65536, 65537}[c.ch.below(13)];
    return d;
  }

  // C05 -------------------------------------------------------------------------------------------
  static void c05(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(0);
    if (c.ch.below(6) == 5) c.g.bigChance = 3;
    List<Msg> msgs = workload(c, 3);
    if (c.ch.below(4) == 0) {
      // the whole thing over a connection, decoding at every arrival
      Session s = new Session(c, "torn", msgs);
      s.realSender = false;
      s.tentative = true;
      if (s.pipe.segMode == 0 || s.pipe.segMode == 3) s.pipe.segMode = 1;
      s.onReceive = (i, o) -> same(c, o, c.refBytes(msgs.get(i)), msgs.get(i).t, "after arriving in pieces");
      s.start();
      c.w.run();
      return;
    }
    c.w.spawn("receiver", () -> {
      Map<Spec.Type, Object> pool = new HashMap<>();
      byte[] prev = null;
      for (Msg m : msgs) {
        Ref.Out out = Ref.encodeWithCuts(m, c.has);
        byte[] b = out.bytes();
        if (b.length == 0) continue;
        TreeSet<Integer> cuts = new TreeSet<>();
        if (b.length <= 24 && c.ch.below(2) == 1) for (int i = 0; i < b.length; i++) cuts.add(i);
        else {
          for (int i = 0; i < 4; i++) cuts.add(c.ch.below(b.length));
          for (int i = 0; i < 4; i++) cuts.add(Math.max(0, Math.min(b.length - 1, out.cuts.get(c.ch.below(out.cuts.size())) + c.ch.below(3) - 1)));
          if (!out.texts.isEmpty())
            for (int i = 0; i < 4; i++) {
              int[] t = c.ch.pick(out.texts);
              cuts.add(Math.max(0, Math.min(b.length - 1, t[0] + c.ch.below(t[1] + 1))));
            }
          cuts.add(b.length - 1);
        }
        Object o = c.ch.below(2) == 0 ? c.r.fresh(m.t) : pool.computeIfAbsent(m.t, t -> c.r.fresh(t));
        // memory behind the received bytes: what came earlier, or even the rest of this very message
        for (int cut : cuts) {
          byte[] rest = Arrays.copyOfRange(b, cut, b.length);
          byte[] stale = c.ch.below(2) == 0 ? rest : prev;
          Bufs.Mem in = c.bufs.in(b, 0, cut, stale);
          int ri = in.b.readerIndex();
          int mark = c.ch.below(2) == 1 ? markReader(c, in.b) : -1;
          c.w.fault("torn_message");
          c.w.ev("cut", cut, b.length);
          boolean threw = false;
          try {
            c.r.decode(o, m.t, in.b);
          } catch (Exception e) {
            threw = true;
          } catch (StackOverflowError | OutOfMemoryError e) {
            throw Ctx.bad("error", m.t + " cut at " + cut + ": " + e);
          }
          readerMark(in.b, mark, "a failed attempt to decode " + m.t);
          if (!threw) throw Ctx.bad("decoded-from-part", m.t + ": " + cut + " of " + b.length + " bytes in a " + in.kind + " buffer were decoded into a message: " + c.r.read(o));
          if (c.ch.below(3) == 2 || cut == cuts.last()) {
            // the rest arrives
            Object again = c.ch.below(2) == 0 ? o : c.r.fresh(m.t);
            ByteBuf full = in.b;
            if (in.b.maxCapacity() == Integer.MAX_VALUE && !in.b.isReadOnly() && !(in.b instanceof CompositeByteBuf)) {
              full.readerIndex(ri);
              full.writeBytes(rest);
            } else full = c.bufs.in(b, 0, b.length, prev).b;
            try {
              c.r.decode(again, m.t, full);
            } catch (Throwable e) {
              if (!decodes(c, b, m.t)) return;
              Ctx.expect(e, "decoding " + m.t + " after the rest had arrived");
            }
            if (full == in.b) readerMark(full, mark, "decoding " + m.t);
            same(c, again, b, m.t, "after a first attempt on " + cut + " of " + b.length + " bytes");
            if (again != o) pool.put(m.t, again);
          }
        }
        prev = b;
        c.w.yield();
      }
    });
    c.w.run();
  }

  /** Sets the caller's reader mark somewhere between the buffer's start and its reader index. */
  static int markReader(Ctx c, ByteBuf b) {
    int at = b.readerIndex();
    int mark = c.ch.below(2) == 0 ? at : c.ch.below(at + 1);
    b.readerIndex(mark).markReaderIndex();
    b.readerIndex(at);
    return mark;
  }

  /** Where the caller's reader mark is now; the reader index stays. */
  static void readerMark(ByteBuf b, int mark, String after) {
    if (mark < 0) return;
    int at = b.readerIndex();
    b.resetReaderIndex();
    int now = b.readerIndex();
    b.readerIndex(at);
    if (now != mark) throw Ctx.bad("mark-moved", "after " + after + " the caller's reader mark is at " + now + " instead of " + mark);
  }

  /** The writer mark likewise, between the reader and the writer index. */
  static int markWriter(Ctx c, ByteBuf b) {
    int at = b.writerIndex();
    int mark = c.ch.below(2) == 0 ? at : b.readerIndex() + c.ch.below(at - b.readerIndex() + 1);
    b.writerIndex(mark).markWriterIndex();
    b.writerIndex(at);
    return mark;
  }

  static void writerMark(ByteBuf b, int mark, String after) {
    if (mark < 0) return;
    int at = b.writerIndex(), now;
    try {
      b.resetWriterIndex();
      now = b.writerIndex();
    } catch (IndexOutOfBoundsException e) {
      throw Ctx.bad("mark-moved", "after " + after + " the caller's writer mark is not usable: " + e);
    }
    b.writerIndex(at);
    if (now != mark) throw Ctx.bad("mark-moved", "after " + after + " the caller's writer mark is at " + now + " instead of " + mark);
  }

  static boolean decodes(Ctx c, byte[] b, Spec.Type t) {
    try {
      c.r.decode(c.r.fresh(t), t, Unpooled.wrappedBuffer(b));
      return true;
    } catch (Exception e) {
      c.w.probe("reference_bytes_not_decodable");
      return false;
    }
  }

  /** The message must equal what a new object yields from the complete bytes, and those are what was sent. */
  static void same(Ctx c, Object o, byte[] b, Spec.Type t, String when) {
    Msg got = c.r.read(o);
    Object f = c.r.fresh(t);
    c.r.decode(f, t, Unpooled.wrappedBuffer(b));
    String d = Msg.diff(got, c.r.read(f));
    if (d != null) throw Ctx.bad("incomplete", t + " " + when + " differs from the message decoded at once (got vs expected): " + d);
  }

  // C06 -------------------------------------------------------------------------------------------
  static void c06(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(0);
    Spec.Type f = c.focusType();
    boolean bare = c.ch.below(3) == 2;
    int n = c.extent(2 + c.ch.below(5), 5000);
    c.w.spawn("receiver", () -> {
      Msg first = nonEmpty(c, f, bare);
      Spec.Type t = first.t;
      int objects = 1 + c.ch.below(2);
      Object[] used = new Object[objects];
      for (int i = 0; i < objects; i++) {
        used[i] = c.r.fresh(t);
        if (c.ch.below(3) == 2) c.r.fill(used[i], first); // filled by the application
      }
      List<byte[]> seen = new ArrayList<>();
      Msg last = null;
      for (int i = 0; i < n; i++) {
        Msg m = i == 0 ? first : i % 2 == 1 && c.ch.below(2) == 1 ? sparse(c, first) : t.root && c.ch.below(2) == 1 ? c.g.gen(t) : bare ? c.g.gen(t) : c.g.containing(f);
        if (m.t != t) continue;
        if (last != null && c.ch.below(3) == 2) { // almost the same message again
          m = last.copy();
          if (c.ch.below(3) == 2) c.g.twins(m);
          else for (int q = 1 + c.ch.below(4); q > 0; q--) c.g.mutateOne(m);
        }
        last = m;
        byte[] b = c.refBytes(m);
        int k = c.ch.below(8);
        byte[] in = b, unknown = k == 6 && c.ch.below(2) == 0 ? Scen2.withUnknownId(c, m) : null;
        if (k == 5 && b.length > 1) {
          in = Arrays.copyOf(b, c.ch.below(b.length)); // half a message
          c.w.fault("torn_message");
        } else if (unknown != null) {
          in = unknown;
          c.w.fault("unknown_identifier");
        } else if (k == 6 && b.length > 0) {
          in = b.clone();
          int hits = 1 + c.ch.below(4);
          for (int h = 0; h < hits; h++) in[c.ch.below(in.length)] ^= 1 << c.ch.below(8);
          c.w.fault("bit_damage");
        } else if (k == 7 && !seen.isEmpty()) in = c.ch.pick(seen); // an earlier message again
        seen.add(b);
        Object o = used[c.ch.below(objects)];
        int own = c.ch.below(6);
        if (own == 4) c.r.fill(o, c.g.gen(t)); // the application sets its own values in between
        else if (own == 5) {
          Msg now = c.r.read(o);
          if (now.t.poly < 0 || now.v[now.t.poly] instanceof Msg) {
            Msg other = c.g.gen(t);
            for (int q = 0; q < now.v.length; q++) if (c.ch.below(3) == 0) now.v[q] = other.v[q];
            c.r.fill(o, now);
          }
        }
        if (c.ch.below(8) == 7) { // an attempt that runs out of memory comes before
          c.w.heapLeft = 1 + c.ch.below(c.ch.below(2) == 0 ? 4 : 40);
          try {
            c.r.decode(o, t, Unpooled.wrappedBuffer(in));
          } catch (Exception | OutOfMemoryError e) {
            if (e instanceof Violation) throw e;
          }
          c.w.heapDone();
        }
        decodeBoth(c, o, t, in, "step " + i);
        c.w.nontrivial = true;
        c.w.yield();
      }
    });
    c.w.run();
  }

  /** Same type with everything optional absent or default. */
  static Msg sparse(Ctx c, Msg m) {
    Msg r = m.copy();
    thin(c, r);
    return r;
  }

  private static void thin(Ctx c, Msg m) {
    for (int i = 0; i < m.v.length; i++) {
      Spec.Wire w = m.t.fields.get(i).w;
      boolean disc = false;
      for (var f : m.t.fields) if (f.w.k == Spec.K.POLY && f.w.disc == i) disc = true;
      if (disc) continue;
      switch (w.k) {
        case LIST: {
          int k = c.ch.below(3);
          if (k < 2 || m.v[i] == null) m.v[i] = null;
          else for (Object e : (List<?>) m.v[i]) if (e instanceof Msg) thin(c, (Msg) e);
          break;
        }
        case DSTR: if (c.ch.below(3) < 2) m.v[i] = ""; break;
        case FSTR: if (c.ch.below(3) == 2) m.v[i] = ""; break;
        case MSG: case POLY: if (m.v[i] != null) thin(c, (Msg) m.v[i]); break;
        default:
      }
    }
  }

  private static void decodeBoth(Ctx c, Object used, Spec.Type t, byte[] in, String where) {
    Object fresh = c.r.fresh(t);
    Throwable e1 = null, e2 = null;
    ByteBuf b1 = Unpooled.wrappedBuffer(in);
    ByteBuf b2 = c.bufs.in(in, 0, in.length, null).b;
    int s2 = b2.readerIndex();
    try {
      c.r.decode(fresh, t, b1);
    } catch (Exception | StackOverflowError | OutOfMemoryError e) {
      e1 = e;
    }
    try {
      c.r.decode(used, t, b2);
    } catch (Exception | StackOverflowError | OutOfMemoryError e) {
      e2 = e;
    }
    c.w.ev("decode", in.length, e1 == null ? 1 : 0);
    c.st.messages++;
    if ((e1 == null) != (e2 == null))
      throw Ctx.bad("outcome", where + ": " + t + " decodes into a " + (e1 == null ? "new object but not into the used one: " + e2 : "used object although a new one rejects the bytes: " + e1) + " bytes " + Bufs.hex(in));
    if (e1 != null) return;
    if (b1.readerIndex() != b2.readerIndex() - s2) throw Ctx.bad("consumed", where + ": " + t + " consumes " + b1.readerIndex() + " bytes into a new object and " + (b2.readerIndex() - s2) + " into the used one");
    String d = Msg.diff(c.r.read(used), c.r.read(fresh));
    if (d != null) throw Ctx.bad("leftover", where + ": used object differs from new one (used vs new): " + d);
    boolean eq;
    try {
      eq = used.equals(fresh) && fresh.equals(used);
    } catch (Throwable e) {
      Ctx.expect(e, "equals of " + t);
      return;
    }
    if (!eq) throw Ctx.bad("leftover", where + ": used object of " + t + " is not equal to the new one though all fields read the same: " + c.r.read(used));
  }

  // C07 -------------------------------------------------------------------------------------------
  static final class Refuse extends RuntimeException {
    Refuse() {
      super("refused");
    }
  }

  static void c07(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(0);
    Spec.Type f = c.focusType();
    boolean bare = c.ch.below(3) == 2;
    c.w.spawn("sender", () -> {
      Msg m = nonEmpty(c, f, bare);
      byte[] want;
      {
        // undisturbed encode of an equal message
        ByteBuf b = Unpooled.buffer();
        want = c.encodeReal(c.r.build(m), m.t, b);
      }
      if (want.length == 0) return;
      Object o = c.r.build(m);
      Msg before = c.r.read(o);
      Ref.Out ro = Ref.encodeWithCuts(m, c.has);
      int tries = c.extent(1 + c.ch.below(4), 1100);
      for (int i = 0; i < tries; i++) {
        int pre = c.ch.below(3) == 0 ? 0 : 1 + c.ch.below(50);
        int limit = c.ch.below(2) == 0 ? c.ch.below(want.length) : Math.max(0, Math.min(want.length - 1, ro.cuts.get(c.ch.below(ro.cuts.size())) + c.ch.below(3) - 1));
        byte[] earlier = new byte[pre];
        c.bufs.garbage(earlier, 0, pre, want);
        int mode = c.ch.below(m.t.poly >= 0 ? 4 : 3);
        String alg = m.t.sum >= 0 ? m.t.fields.get(m.t.sum).w.checksum : null;
        if (alg != null && c.sums.contains(alg) && c.ch.below(4) == 3) mode = 4;
        else if (c.ch.below(6) == 5) mode = 5;
        ByteBuf b;
        Bufs.FaultBuf fb = null;
        boolean mustFail = true;
        Msg orig = null;
        switch (mode) {
          case 0:
            b = c.bufs.own(Unpooled.buffer(c.ch.below(pre + limit + 1), pre + limit));
            break;
          case 4: { // the checksum service fails
            b = c.bufs.own(Unpooled.buffer(c.ch.below(pre + want.length + 1)));
            boolean error = c.ch.below(3) == 2;
            c.r.sys.removeService(alg);
            c.r.sys.registry(c.r.sys.hookService(alg, x -> {
              if (error) throw new OutOfMemoryError("simulated");
              throw new Refuse();
            }));
            break;
          }
          case 5: // no more memory for what the encoder needs itself
            b = c.bufs.own(Unpooled.buffer(c.ch.below(pre + want.length + 1)));
            mustFail = false;
            break;
          case 1: case 2:
            b = fb = c.bufs.own(new Bufs.FaultBuf(c.bufs.unpooled, 0));
            break;
          default: {
            b = c.bufs.own(Unpooled.buffer(c.ch.below(pre + want.length + 1)));
            // the embedded body writes a while and refuses; afterwards the right body is put back
            int part = c.ch.below(60);
            Object refusing = c.r.sys.customBody(7, new CustomBody() {
              public void encode(ByteBuf x) {
                for (int q = 0; q < part; q++) x.writeByte(q);
                throw new Refuse();
              }

              public void decode(ByteBuf x) {}
            });
            orig = m;
            Msg bad = m.copy();
            bad.v[m.t.poly] = new Repo.Real(refusing);
            c.r.fill(o, bad);
          }
        }
        b.writeBytes(earlier);
        if (pre > 0 && c.ch.below(2) == 1) b.readerIndex(c.ch.below(pre + 1));
        int ri = b.readerIndex(), wi = b.writerIndex();
        // the sender has set the marks of the buffer
        int rmark = c.ch.below(2) == 1 ? markReader(c, b) : -1;
        int wmark = c.ch.below(2) == 1 ? markWriter(c, b) : -1;
        if (fb != null) {
          fb.limit = pre + limit;
          fb.mode = mode - 1;
        }
        Throwable err = null;
        if (mode == 5) c.w.heapLeft = 1 + c.ch.below(c.ch.below(2) == 0 ? 4 : 60);
        try {
          c.r.encode(o, m.t, b);
        } catch (Throwable e) {
          if (e instanceof World.Hang) Ctx.expect(e, "encode");
          err = e;
        }
        if (mode == 5) {
          mustFail = c.w.heapDone();
          if (mustFail && err == null && Arrays.equals(want, Bufs.bytes(b, wi, b.writerIndex()))) mustFail = false;
        } else c.w.fault(mode == 0 ? "buffer_full" : mode == 1 ? "allocation_error" : mode == 2 ? "allocation_refused" : mode == 3 ? "body_refused" : "checksum_service_failed");
        if (mode == 4) {
          c.r.sys.removeService(alg);
          c.sums.remove(alg);
          c.register(alg);
        }
        c.w.ev("failed", mode, limit);
        if (fb != null && !fb.fired) mustFail = false;
        if (err == null && mustFail) throw Ctx.bad("failure-swallowed", m.t + ": encoding reported success although " + (mode == 3 ? "the body refused" : mode == 4 ? "the checksum service failed" : mode == 5 ? "the heap was exhausted" : "only " + limit + " of " + want.length + " bytes fit"));
        if (orig != null) {
          Msg after = c.r.read(o);
          // all but the body (and what encoding computes) unchanged
          for (int k = 0; k < after.v.length; k++)
            if (k != m.t.poly && !computed(c, m.t, k)) {
              String d = Msg.diff(after.v[k], m.v[k], m.t.simple + "." + m.t.fields.get(k).name, -1);
              if (d != null) throw Ctx.bad("message-changed", "failed encode changed the message: " + d);
            }
          c.r.fill(o, m);
        }
        byte[] now = new byte[pre];
        b.getBytes(0, now);
        if (!Arrays.equals(now, earlier)) throw Ctx.bad("earlier-bytes", m.t + ": failed encode changed the bytes in front of the message at " + Arrays.mismatch(now, earlier));
        if (b.readerIndex() != ri) throw Ctx.bad("reader-moved", m.t + ": failed encode moved the reader index");
        if (b.writerIndex() < wi) throw Ctx.bad("writer-moved-back", m.t + ": failed encode moved the write position before its start");
        readerMark(b, rmark, "a failed encode of " + m.t);
        writerMark(b, wmark, "a failed encode of " + m.t);
        if (b.refCnt() != 1) throw Ctx.bad("refcnt", m.t + ": failed encode changed the reference count to " + b.refCnt());
        String d = c.diffUncomputed(c.r.read(o), before);
        if (d != null) throw Ctx.bad("message-changed", "failed encode changed the message (after vs before): " + d);
        // other traffic in between
        if (c.ch.below(3) == 2) {
          Msg x = c.g.gen(m.t);
          byte[] xb = c.encodeReal(c.r.build(x), x.t, Unpooled.buffer());
          String xd = bytesDiff(xb, c.encodeReal(c.r.build(x), x.t, Unpooled.buffer()));
          if (xd != null) throw Ctx.bad("repeat", "other message encodes differently after a failure: " + xd);
        }
        if (i == tries - 1 || c.ch.below(2) == 1) {
          ByteBuf again;
          if (mode == 0 || c.ch.below(2) == 1) again = c.bufs.out(want.length).b;
          else {
            again = b;
            b.writerIndex(wi);
            if (fb != null) fb.limit = Integer.MAX_VALUE;
          }
          byte[] got = c.encodeReal(o, m.t, again);
          String bd = bytesDiff(got, want);
          if (bd != null) throw Ctx.bad("repeat", m.t + " encoded again after " + (mode == 3 ? "its body had refused" : mode == 4 ? "its checksum service had failed" : mode == 5 ? "running out of memory" : "failing at byte " + limit) + ": " + bd + "\n got  " + Bufs.hex(got) + "\n want " + Bufs.hex(want));
          if (again == b) {
            b.getBytes(0, now);
            if (!Arrays.equals(now, earlier)) throw Ctx.bad("earlier-bytes", m.t + ": repeated encode changed earlier bytes");
          }
        }
      }
    });
    c.w.run();
  }

  static boolean computed(Ctx c, Spec.Type t, int k) {
    return k == t.len || k == t.sum && c.sums.contains(t.fields.get(k).w.checksum);
  }

  /** Damaged bytes, or ones with an unknown identifier: whatever comes of it, the buffer stays its owner's. */
  private static void rejected(Ctx c, Msg m, byte[] ref) {
    byte[] bytes = c.ch.below(2) == 0 ? Scen2.withUnknownId(c, m) : null;
    if (bytes == null) {
      bytes = ref.clone();
      for (int h = 1 + c.ch.below(4); h > 0; h--) bytes[c.ch.below(bytes.length)] ^= 1 << c.ch.below(8);
      c.w.fault("bit_damage");
    } else c.w.fault("unknown_identifier");
    Bufs.Mem in = c.bufs.in(bytes, 0, bytes.length, ref).snap();
    int end = in.b.writerIndex();
    int rmark = c.ch.below(2) == 1 ? markReader(c, in.b) : -1;
    try {
      c.r.decode(c.r.fresh(m.t), m.t, in.b);
    } catch (Exception e) {
      c.w.probe("decode_failed");
    }
    if (in.b.refCnt() != in.ref) throw Ctx.bad("refcnt", "rejecting a damaged " + m.t + " left reference count " + in.b.refCnt() + " instead of " + in.ref);
    if (in.b.writerIndex() != end) throw Ctx.bad("writer-moved", "rejecting a damaged " + m.t + " moved the writer index");
    readerMark(in.b, rmark, "rejecting a damaged " + m.t);
    String ch = in.changedOutside(0, 0);
    if (ch != null) throw Ctx.bad("foreign-bytes", "rejecting a damaged " + m.t + ": " + ch);
  }

  // C08 -------------------------------------------------------------------------------------------
  static void c08(Ctx c) {
    c.g.profile();
    c.drawServices();
    c.w.preemption(0);
    Spec.Type f = c.focusType();
    boolean bare = c.ch.below(3) == 2;
    c.w.spawn("app", () -> {
      int rounds = c.extent(1 + c.ch.below(3), 600);
      List<Object> kept = new ArrayList<>(); // in long runs: everything received before
      List<Msg> keptAs = new ArrayList<>();
      for (int rd = 0; rd < rounds; rd++) {
        Msg m = nonEmpty(c, f, bare);
        byte[] ref = c.refBytes(m);
        // encoding
        Object src = c.r.build(m);
        Msg srcBefore = c.r.read(src);
        Bufs.Mem out = c.bufs.out(ref.length).snap();
        int wi = out.b.writerIndex(), ri = out.b.readerIndex();
        int rmark = c.ch.below(3) == 2 ? markReader(c, out.b) : -1, wmark = c.ch.below(3) == 2 ? markWriter(c, out.b) : -1;
        byte[] enc = c.encodeReal(src, m.t, out.b);
        readerMark(out.b, rmark, "encoding " + m.t);
        writerMark(out.b, wmark, "encoding " + m.t);
        if (out.b.refCnt() != 1) throw Ctx.bad("refcnt", "encoding " + m.t + " left reference count " + out.b.refCnt());
        if (out.b.readerIndex() != ri) throw Ctx.bad("reader-moved", "encoding " + m.t + " moved the reader index");
        String ch = out.changedOutside(wi, wi + enc.length);
        if (ch != null && !out.kind.equals("composite")) throw Ctx.bad("foreign-bytes", "encoding " + m.t + " at " + wi + " (" + enc.length + " bytes, " + out.kind + " buffer): " + ch);
        String dd = c.diffUncomputed(c.r.read(src), srcBefore);
        if (dd != null) throw Ctx.bad("message-changed", "encoding changed the message (after vs before): " + dd);
        List<Object> parts = mutableParts(src);
        // the sender changes its message afterwards
        scramble(c, src, c.g.gen(m.t));
        if (!Arrays.equals(enc, Bufs.bytes(out.b, wi, wi + enc.length))) throw Ctx.bad("encoded-bytes-changed", m.t + ": encoded bytes changed when the message object was modified");
        // decoding
        Bufs.Mem in = c.bufs.in(ref, 0, ref.length, enc).snap();
        int start = in.b.readerIndex(), end = in.b.writerIndex();
        Object a = c.r.fresh(m.t), b = c.ch.below(2) == 0 ? c.r.fresh(m.t) : c.r.build(c.g.gen(m.t));
        rmark = c.ch.below(3) == 2 ? markReader(c, in.b) : -1;
        wmark = c.ch.below(3) == 2 ? markWriter(c, in.b) : -1;
        boolean fail = c.ch.below(4) == 3 && ref.length > 1;
        int cut = fail ? c.ch.below(ref.length) : ref.length;
        if (fail) {
          in.b.writerIndex(start + cut);
          c.w.fault("torn_message");
          try {
            c.r.decode(a, m.t, in.b);
          } catch (Exception e) {
            c.w.probe("decode_failed");
          }
          if (in.b.refCnt() != in.ref) throw Ctx.bad("refcnt", "failed decoding of " + m.t + " left reference count " + in.b.refCnt());
          if (in.b.writerIndex() != start + cut) throw Ctx.bad("writer-moved", "failed decoding of " + m.t + " moved the writer index");
          ch = in.changedOutside(0, 0);
          if (ch != null) throw Ctx.bad("foreign-bytes", "failed decoding of " + m.t + ": " + ch);
          in.b.setIndex(start, end);
        }
        if (c.ch.below(4) == 3 && ref.length > 0) rejected(c, m, ref);
        try {
          c.r.decode(a, m.t, in.b);
          in.b.readerIndex(start);
          c.r.decode(b, m.t, in.b);
        } catch (Exception e) {
          if (!decodes(c, ref, m.t)) return;
          Ctx.expect(e, "decoding " + m.t + " from a " + in.kind + " buffer");
        }
        readerMark(in.b, rmark, "decoding " + m.t);
        if (wmark <= end && in.b.readerIndex() <= wmark) writerMark(in.b, wmark, "decoding " + m.t);
        if (in.b.refCnt() != in.ref) throw Ctx.bad("refcnt", "decoding " + m.t + " left reference count " + in.b.refCnt() + " instead of " + in.ref);
        if (in.b.writerIndex() != end) throw Ctx.bad("writer-moved", "decoding " + m.t + " moved the writer index");
        ch = in.changedOutside(0, 0);
        if (ch != null) throw Ctx.bad("foreign-bytes", "decoding " + m.t + ": " + ch);
        Msg am = c.r.read(a), bm = c.r.read(b);
        String as = safeString(a);
        IdentityHashMap<Object, Object> ids = new IdentityHashMap<>();
        for (Object x : mutableParts(a)) ids.put(x, x);
        for (Object x : mutableParts(b)) if (ids.containsKey(x)) throw Ctx.bad("shared", "two messages of " + m.t + " decoded from the same bytes share a " + x.getClass().getName());
        for (Object x : parts) if (ids.containsKey(x)) throw Ctx.bad("shared", "a decoded " + m.t + " shares a " + x.getClass().getName() + " with the message that was sent");
        // the buffer is recycled
        c.w.fault("buffer_recycled");
        byte[] junk = new byte[in.root.capacity()];
        c.bufs.garbage(junk, 0, junk.length, null);
        in.root.setBytes(0, junk);
        check(c, a, am, "the buffer was overwritten");
        if (c.ch.below(2) == 1) {
          ByteBuf own = in.root.refCnt() > 0 ? in.root : in.b;
          own.release();
          check(c, a, am, "the buffer was released");
        }
        // one receiver changes its copy
        scramble(c, b, c.g.gen(m.t));
        check(c, a, am, "another message decoded from the same bytes was modified");
        // further traffic through the library
        Msg n = c.g.gen(m.t);
        byte[] nb = c.refBytes(n);
        Object later = c.r.fresh(m.t);
        try {
          c.r.decode(later, m.t, Unpooled.wrappedBuffer(nb));
        } catch (Exception e) {
          c.w.probe("later_decode_failed");
        }
        check(c, a, am, "another message was decoded");
        // parts handed on by the receiver while it uses the message object again
        List<Object> held = new ArrayList<>();
        List<String> heldContent = new ArrayList<>();
        hold(c, a, m.t, held, heldContent);
        Msg o2 = c.ch.below(3) == 0 ? c.g.gen(m.t) : m.copy();
        for (int q = 1 + c.ch.below(3); q > 0; q--) c.g.mutateOne(o2);
        byte[] ob = c.refBytes(o2);
        if (c.ch.below(3) == 2 && ob.length > 0) {
          c.w.fault("torn_message");
          ob = Arrays.copyOf(ob, c.ch.below(ob.length));
        }
        try {
          c.r.decode(a, m.t, Unpooled.wrappedBuffer(ob));
        } catch (Exception e) {
          c.w.probe("later_decode_failed");
        }
        for (int q = 0; q < held.size(); q++) {
          String now = part(c, held.get(q));
          if (!now.equals(heldContent.get(q))) throw Ctx.bad("part-changed", "a " + held.get(q).getClass().getName() + " taken from a decoded " + m.t + " changed when the message object was used for decoding again (now vs before): " + now + " vs " + heldContent.get(q));
        }
        am = c.r.read(a);
        if (c.isLong()) {
          Object k = c.r.fresh(m.t);
          c.r.decode(k, m.t, Unpooled.wrappedBuffer(ref));
          kept.add(k);
          keptAs.add(c.r.read(k));
        }
        as = safeString(a);
        if (as != null && !as.equals(safeString(a))) throw Ctx.bad("changed-later", "the text form of a decoded " + m.t + " changed");
        for (Object x : mutableParts(later)) if (ids.containsKey(x)) throw Ctx.bad("shared", "messages of " + m.t + " decoded one after the other share a " + x.getClass().getName());
        c.w.yield();
      }
      for (int q = 0; q < kept.size(); q++) check(c, kept.get(q), keptAs.get(q), (kept.size() - q - 1) + " more messages were decoded");
    });
    c.w.run();
  }

  /** Bodies, extensions and groups of a message (not its inline parts, which belong to the message object). */
  private static void hold(Ctx c, Object o, Spec.Type t, List<Object> out, List<String> content) {
    Object[] v = c.r.bridge(t).read(o, RAW);
    for (int i = 0; i < v.length; i++) {
      if (v[i] == null) continue;
      Spec.K k = t.fields.get(i).w.k;
      if (k == Spec.K.LIST || k == Spec.K.POLY) {
        out.add(v[i]);
        content.add(part(c, v[i]));
      } else if (k == Spec.K.MSG) hold(c, v[i], t.fields.get(i).w.type, out, content);
    }
  }

  private static final Conv RAW = new Conv() {
    public Object toReal(Object m) {
      return m;
    }

    public List<?> toRealList(Object m) {
      return (List<?>) m;
    }

    public Object toModel(Object r) {
      return r;
    }

    public Object toModelList(List<?> r) {
      return r;
    }
  };

  private static String part(Ctx c, Object x) {
    return Scen2.content(x instanceof List ? c.r.toModelList((List<?>) x) : c.r.toModel(x));
  }

  static String safeString(Object o) {
    try {
      String s = o.toString();
      return s.indexOf('@') >= 0 ? null : s;
    } catch (Exception e) {
      return null;
    }
  }

  private static void check(Ctx c, Object a, Msg am, String what) {
    String d = Msg.diff(c.r.read(a), am);
    if (d != null) throw Ctx.bad("changed-later", "a decoded message changed after " + what + " (now vs before): " + d);
  }

  /** Modifies an object in every way its user can: setters, and changes inside its lists and nested messages. */
  static void scramble(Ctx c, Object o, Msg other) {
    for (Object p : mutableParts(o)) {
      if (p instanceof List) {
        try {
          @SuppressWarnings("unchecked")
          List<Object> l = (List<Object>) p;
          l.clear();
        } catch (UnsupportedOperationException e) {
          // immutable list
        }
      } else if (p instanceof byte[]) Arrays.fill((byte[]) p, (byte) 0x55);
      else {
        Spec.Type t = c.r.typeOf(p);
        if (t != null && p != o) c.r.fill(p, c.g.gen(t));
      }
    }
    c.r.fill(o, other);
  }

  /** Every mutable object reachable from a message: lists, arrays, buffers and messages with state. */
  static List<Object> mutableParts(Object root) {
    List<Object> r = new ArrayList<>();
    IdentityHashMap<Object, Object> seen = new IdentityHashMap<>();
    ArrayDeque<Object> q = new ArrayDeque<>();
    q.add(root);
    while (!q.isEmpty()) {
      Object o = q.poll();
      if (o == null || seen.put(o, o) != null) continue;
      if (o instanceof String || o instanceof Number || o instanceof Character || o instanceof Boolean || o instanceof Enum || o instanceof Class) continue;
      if (o instanceof List) {
        String n = o.getClass().getName();
        if (!n.startsWith("java.util.ImmutableCollections") && !n.startsWith("java.util.Collections$Empty")) r.add(o);
        int k = 0;
        for (Object x : (List<?>) o) {
          if (x != null) q.add(x);
          if (++k > 300) break;
        }
        continue;
      }
      if (o.getClass().isArray()) {
        if (java.lang.reflect.Array.getLength(o) > 0) r.add(o);
        if (o instanceof Object[]) q.addAll(Arrays.asList((Object[]) o).stream().filter(Objects::nonNull).toList());
        continue;
      }
      if (o instanceof ByteBuf) {
        r.add(o);
        continue;
      }
      if (!o.getClass().getName().startsWith("com.finproto.")) continue;
      boolean state = false;
      for (Class<?> k = o.getClass(); k != null && k != Object.class; k = k.getSuperclass())
        for (var fl : k.getDeclaredFields()) {
          if (java.lang.reflect.Modifier.isStatic(fl.getModifiers())) continue;
          if (!java.lang.reflect.Modifier.isFinal(fl.getModifiers())) state = true;
          if (fl.getType().isPrimitive()) continue;
          try {
            fl.setAccessible(true);
            Object x = fl.get(o);
            if (x != null) q.add(x);
          } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
          }
        }
      if (state) r.add(o);
    }
    return r;
  }
}
