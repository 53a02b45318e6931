package vsim;

import java.io.ByteArrayOutputStream;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Reference implementation of the wire layout: an interpreter of the layout tables over byte arrays. */
public final class Ref {
  private Ref() {}

  /** Which checksum algorithms have a service registered: those trailers are computed, others sent as given. */
  public interface Sums {
    boolean has(String algorithm);
  }

  public static final Sums NONE = a -> false;

  public static final class Out {
    byte[] b = new byte[256];
    int n;
    /** end offsets of elementary fields */
    public List<Integer> cuts;
    /** offsets where text fields start, and their lengths */
    public List<int[]> texts;

    void need(int k) {
      if (n + k > b.length) b = Arrays.copyOf(b, Math.max(b.length * 2, n + k));
    }

    void num(long v, int w, boolean le) {
      need(w);
      for (int i = 0; i < w; i++) b[n + i] = (byte) (v >>> (8 * (le ? i : w - 1 - i)));
      n += w;
    }

    void raw(byte[] x, int len) {
      need(len);
      System.arraycopy(x, 0, b, n, len);
      n += len;
    }

    void put(long off, long v, int w, boolean le) {
      for (int i = 0; i < w; i++) b[(int) off + i] = (byte) (v >>> (8 * (le ? i : w - 1 - i)));
    }

    void cut() {
      if (cuts != null) cuts.add(n);
    }

    public byte[] bytes() {
      return Arrays.copyOf(b, n);
    }
  }

  public static int width(Spec.K k) {
    switch (k) {
      case I8: return 1;
      case I16: return 2;
      case I32: case F32: return 4;
      case I64: case F64: return 8;
      default: return 0;
    }
  }

  /** Bytes of a default value. */
  public static int minSize(Spec.Wire w) {
    switch (w.k) {
      case FSTR: return w.width;
      case DSTR: case LIST: return width(w.prefix.k);
      case MSG: {
        int n = 0;
        for (Spec.Field f : w.type.fields) n += minSize(f.w);
        return n;
      }
      case POLY: return 40;
      default: return width(w.k);
    }
  }

  public static byte[] encode(Msg m, Sums s) {
    Out o = new Out();
    enc(m, o, s);
    return o.bytes();
  }

  public static Out encodeWithCuts(Msg m, Sums s) {
    Out o = new Out();
    o.cuts = new ArrayList<>();
    o.texts = new ArrayList<>();
    enc(m, o, s);
    return o;
  }

  static void enc(Msg m, Out o, Sums s) {
    int start = o.n, lenAt = -1, bodyStart = -1;
    Spec.Wire lenW = null;
    for (int i = 0; i < m.v.length; i++) {
      Spec.Wire w = m.t.fields.get(i).w;
      if (w.bodyLen) {
        lenAt = o.n;
        lenW = w;
        o.num(0, width(w.k), w.le);
        bodyStart = o.n;
        o.cut();
        continue;
      }
      if (w.checksum != null && s.has(w.checksum)) {
        o.num(sum(w.checksum, o.b, start, o.n), width(w.k), w.le);
        o.cut();
        continue;
      }
      encVal(m.v[i], w, o, s);
      if (w.k == Spec.K.POLY && lenAt >= 0) o.put(lenAt, o.n - bodyStart, width(lenW.k), lenW.le);
    }
  }

  static void encVal(Object v, Spec.Wire w, Out o, Sums s) {
    switch (w.k) {
      case I8: case I16: case I32: case I64:
        o.num(((Number) v).longValue(), width(w.k), w.le);
        o.cut();
        return;
      case F32:
        o.num(Float.floatToRawIntBits((Float) v), 4, w.le);
        o.cut();
        return;
      case F64:
        o.num(Double.doubleToRawLongBits((Double) v), 8, w.le);
        o.cut();
        return;
      case FSTR: {
        byte[] x = v == null ? new byte[0] : ((String) v).getBytes(StandardCharsets.UTF_8);
        int n = Math.min(x.length, w.width);
        byte[] f = new byte[w.width];
        Arrays.fill(f, (byte) w.pad);
        System.arraycopy(x, 0, f, w.left ? w.width - n : 0, n);
        if (o.texts != null) o.texts.add(new int[] {o.n, w.width});
        o.raw(f, w.width);
        o.cut();
        return;
      }
      case DSTR: {
        byte[] x = v == null ? new byte[0] : ((String) v).getBytes(StandardCharsets.UTF_8);
        o.num(x.length, width(w.prefix.k), w.prefix.le);
        o.cut();
        if (o.texts != null) o.texts.add(new int[] {o.n, x.length});
        o.raw(x, x.length);
        if (x.length > 0) o.cut();
        return;
      }
      case LIST: {
        List<?> l = v == null ? List.of() : (List<?>) v;
        o.num(l.size(), width(w.prefix.k), w.prefix.le);
        o.cut();
        for (Object e : l) encVal(e, w.elem, o, s);
        return;
      }
      case MSG: case POLY:
        if (v instanceof byte[]) o.raw((byte[]) v, ((byte[]) v).length);
        else if (v != null) enc((Msg) v, o, s);
        return;
      default:
        throw new IllegalStateException();
    }
  }

  public static final class In {
    final byte[] b;
    public int p;
    final int end;

    public In(byte[] b, int p, int end) {
      this.b = b;
      this.p = p;
      this.end = end;
    }

    void need(int k) {
      if (k > end - p) throw new Short();
    }

    long num(int w, boolean le, boolean unsigned) {
      need(w);
      long v = 0;
      for (int i = 0; i < w; i++) v |= (b[p + i] & 0xFFL) << (8 * (le ? i : w - 1 - i));
      p += w;
      if (unsigned || w == 8) return v;
      int sh = 64 - 8 * w;
      return (v << sh) >> sh;
    }
  }

  /** Not enough bytes. */
  public static final class Short extends RuntimeException {}

  /** Unknown discriminator. */
  public static final class Unknown extends RuntimeException {}

  public static Msg decode(Spec.Type t, In in) {
    Msg m = new Msg(t);
    for (int i = 0; i < m.v.length; i++) {
      Spec.Wire w = t.fields.get(i).w;
      if (w.k == Spec.K.POLY) {
        Spec.Type b = t.cases.get(String.valueOf(m.v[w.disc]));
        if (b == null) throw new Unknown();
        m.v[i] = decode(b, in);
      } else m.v[i] = decVal(w, in);
    }
    return m;
  }

  static String trim(String s, char pad, boolean left) {
    int a = 0, e = s.length();
    if (left) while (a < e && s.charAt(a) == pad) a++;
    else while (e > 0 && s.charAt(e - 1) == pad) e--;
    return s.substring(a, e);
  }

  static Object decVal(Spec.Wire w, In in) {
    switch (w.k) {
      case I8: return (byte) in.num(1, w.le, false);
      case I16: return (short) in.num(2, w.le, false);
      case I32: return (int) in.num(4, w.le, false);
      case I64: return in.num(8, w.le, false);
      case F32: return Float.intBitsToFloat((int) in.num(4, w.le, false));
      case F64: return Double.longBitsToDouble(in.num(8, w.le, false));
      case FSTR: {
        in.need(w.width);
        String s = new String(in.b, in.p, w.width, StandardCharsets.UTF_8);
        in.p += w.width;
        return trim(s, (char) w.pad, w.left);
      }
      case DSTR: {
        long n = in.num(width(w.prefix.k), w.prefix.le, width(w.prefix.k) < 4);
        if (n <= 0) return null;
        if (n > in.end - in.p) throw new Short();
        String s = new String(in.b, in.p, (int) n, StandardCharsets.UTF_8);
        in.p += (int) n;
        return s;
      }
      case LIST: {
        long n = in.num(width(w.prefix.k), w.prefix.le, width(w.prefix.k) < 4);
        if (n <= 0) return null;
        List<Object> l = new ArrayList<>();
        for (long i = 0; i < n; i++) {
          Object e = decVal(w.elem, in);
          l.add(e == null && w.elem.k == Spec.K.DSTR ? "" : e);
        }
        return l;
      }
      case MSG: return decode(w.type, in);
      default: throw new IllegalStateException();
    }
  }

  public static Msg decode(Spec.Type t, byte[] b) {
    return decode(t, new In(b, 0, b.length));
  }

  /** What the receiver must see of a message the sender built. */
  public static Msg canon(Msg m, Sums s) {
    return decode(m.t, encode(m, s));
  }

  // ---- checksums, bit by bit ----
  public static int sum(String alg, byte[] b, int from, int to) {
    switch (alg) {
      case "CRC16": {
        int crc = 0xFFFF;
        for (int i = from; i < to; i++) {
          crc ^= b[i] & 0xFF;
          for (int j = 0; j < 8; j++) crc = (crc & 1) != 0 ? (crc >>> 1) ^ 0xA001 : crc >>> 1;
        }
        return crc;
      }
      case "CRC32": {
        java.util.zip.CRC32 c = new java.util.zip.CRC32();
        c.update(b, from, to - from);
        return (int) c.getValue();
      }
      case "SSE_BIN": case "SZSE_BIN": {
        int x = 0;
        for (int i = from; i < to; i++) x = (x + (b[i] & 0xFF)) & 0xFF;
        return x;
      }
      default:
        throw new IllegalStateException(alg);
    }
  }
}
