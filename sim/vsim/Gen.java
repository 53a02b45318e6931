package vsim;

import java.nio.charset.StandardCharsets;
import java.util.*;

/** Workload generator: model messages whose every value is a decision of the run. */
public final class Gen {
  final Choices ch;
  final Spec spec;
  final Instr in;
  /** per run profile ("swarm"): which kinds of values this run prefers */
  int textMode, numMode, maxGroup = 5, maxDyn = 300;
  public boolean roundTripTextOnly;
  /** raise to make large groups and texts likely */
  public int bigChance = 0;
  /** small messages only */
  public boolean tiny;
  private int budget; // elements still allowed in the current message
  private static final long[] EDGES = {0, 1, -1, 2, 9, 10, 31, 32, 48, 63, 64, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 999999, 0x7fffffffL, 0x80000000L, 0xffffffffL, 0x20202020L, 0x2020202020202020L, 0x3030303030303030L, Long.MAX_VALUE, Long.MIN_VALUE, -128, -129, -32768, -32769, -2147483648L, -2147483649L, 0x80, 0x8000, 0x00ff00ff00ff00ffL, 0x0102030405060708L, 99999999999L, 20240102093000000L};

  public Gen(Choices ch, Spec spec, Instr in) {
    this.ch = ch;
    this.spec = spec;
    this.in = in;
  }

  /** Draws the profile of the run. */
  public void profile() {
    textMode = ch.below(8);
    numMode = ch.below(5);
    maxGroup = new int[] {3, 2, 6, 12}[ch.below(4)];
  }

  public Msg gen(Spec.Type t) {
    budget = 400;
    return gen(t, null, null);
  }

  /** A message of the protocol's root type that contains a message of type f (f itself when no path leads there). */
  public Msg containing(Spec.Type f) {
    List<Step> path = paths().get(f);
    Spec.Type root = path == null || path.isEmpty() ? f : path.get(0).from;
    Map<Spec.Type, Step> forced = new HashMap<>();
    if (path != null) for (Step s : path) forced.put(s.from, s);
    budget = 400;
    return gen(root, forced, null);
  }

  static final class Step {
    Spec.Type from;
    int field;
    String key;
  }

  private static volatile Map<Spec.Type, List<Step>> PATHS;

  private Map<Spec.Type, List<Step>> paths() {
    if (PATHS != null) return PATHS;
    Map<Spec.Type, List<Step>> m = new HashMap<>();
    ArrayDeque<Spec.Type> q = new ArrayDeque<>();
    for (Spec.Type r : spec.roots.values()) {
      m.put(r, List.of());
      q.add(r);
    }
    while (!q.isEmpty()) {
      Spec.Type t = q.poll();
      for (int i = 0; i < t.fields.size(); i++) {
        Spec.Wire w = t.fields.get(i).w;
        if (w.k == Spec.K.POLY) for (var e : t.cases.entrySet()) step(m, q, t, i, e.getKey(), e.getValue());
        if (w.k == Spec.K.MSG) step(m, q, t, i, null, w.type);
        if (w.k == Spec.K.LIST && w.elem.k == Spec.K.MSG) step(m, q, t, i, null, w.elem.type);
      }
    }
    return PATHS = m;
  }

  private static void step(Map<Spec.Type, List<Step>> m, ArrayDeque<Spec.Type> q, Spec.Type t, int f, String key, Spec.Type to) {
    if (m.containsKey(to)) return;
    Step s = new Step();
    s.from = t;
    s.field = f;
    s.key = key;
    List<Step> l = new ArrayList<>(m.get(t));
    l.add(s);
    m.put(to, l);
    q.add(to);
  }

  Msg gen(Spec.Type t, Map<Spec.Type, Step> forced, Object unused) {
    Msg m = new Msg(t);
    Step st = forced == null ? null : forced.get(t);
    for (int i = 0; i < m.v.length; i++) {
      Spec.Wire w = t.fields.get(i).w;
      if (w.k == Spec.K.POLY) {
        String key = st != null && st.field == i ? st.key : pickKey(t);
        m.v[i] = gen(t.cases.get(key), forced, null);
        setKey(m, w.disc, key);
      } else if (w.k == Spec.K.MSG) {
        m.v[i] = gen(w.type, forced, null);
      } else if (w.k == Spec.K.LIST) {
        m.v[i] = list(t, w, st != null && st.field == i ? forced : null);
      } else m.v[i] = scalar(t, w);
    }
    return m;
  }

  String pickKey(Spec.Type t) {
    List<String> ks = new ArrayList<>(t.cases.keySet());
    return ks.get(ch.below(ks.size()));
  }

  static void setKey(Msg m, int disc, String key) {
    switch (m.t.fields.get(disc).w.k) {
      case I8: m.v[disc] = Byte.valueOf(key); break;
      case I16: m.v[disc] = Short.valueOf(key); break;
      case I32: m.v[disc] = Integer.valueOf(key); break;
      default: m.v[disc] = key;
    }
  }

  Object list(Spec.Type t, Spec.Wire w, Map<Spec.Type, Step> forced) {
    int n = groupSize(t, w);
    if (forced != null && n == 0) n = 1 + ch.below(2);
    if (n == 0) return ch.below(3) == 2 ? null : new ArrayList<>();
    List<Object> l = new ArrayList<>(n);
    budget -= n;
    int only = -1;
    for (int i = 0; i < n; i++) {
      // long lists: after some distinct elements repeat earlier ones, so the list stays cheap to describe
      if (i == 40 && n > 100 && w.elem.k == Spec.K.MSG) {
        // elements that are large themselves: the smallest of them, and as many as fit
        long sum = 0;
        int small = Integer.MAX_VALUE;
        for (int k = 0; k < 37; k++) {
          int b = Ref.encode((Msg) l.get(k), Ref.NONE).length;
          sum += b;
          if (b < small) {
            small = b;
            only = k;
          }
        }
        long limit = bigChance > 0 ? 6_000_000 : 300_000;
        if (sum / 37 * n <= limit) only = -1;
        else n = (int) Math.min(n, 40 + limit / Math.max(1, small));
      }
      if (i >= 40 && l.size() > 8) {
        l.add(l.get(only >= 0 ? only : (int) ((i * 7L) % 37)));
        continue;
      }
      if (i > 0 && ch.below(8) == 7) { // an element equal to the one before
        Object x = l.get(i - 1);
        l.add(x instanceof Msg ? ((Msg) x).copy() : x);
        continue;
      }
      l.add(w.elem.k == Spec.K.MSG ? gen(w.elem.type, forced, null) : scalar(t, w.elem));
    }
    return l;
  }

  /** how many groups or texts of hundreds or thousands are still to come in this run */
  int huge;

  private int huge() {
    return ch.below(3) == 2 ? 100 + ch.below(12_000) : new int[] {129, 255, 256, 257, 300, 500, 512, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 2500, 4096, 5000, 8192, 10_000, 10_001, 16_384, 20_000, 32_768, 40_000}[ch.below(24)];
  }

  int groupSize(Spec.Type t, Spec.Wire w) {
    if (tiny) return ch.below(3);
    if (bigChance > 0 && ch.chance(bigChance, 100)) {
      int cap = (w.prefix.k == Spec.K.I8) ? 255 : 65535;
      int[] b = {100, 127, 128, 129, 255, 256, 257, 1000, 4096, 32767, 32768, 40000, 65534, 65535};
      int n = Math.min(cap, b[ch.below(b.length)]);
      long cost = Ref.minSize(w.elem) * (long) n;
      return cost > 3_000_000 ? Math.min(n, 300) : n;
    }
    if (huge > 0 && ch.below(3) > 0) {
      int n = huge();
      huge--;
      return Math.min(n, Math.min(w.prefix.k == Spec.K.I8 ? 255 : 65535, 50_000 / Math.max(1, Ref.minSize(w.elem))));
    }
    int k = ch.below(24);
    if (k < 20) {
      int n = k < 3 ? 0 : ch.below(maxGroup + 1);
      return budget < 20 ? Math.min(n, 1) : n;
    }
    if (budget < 200) return 1;
    if (k == 20) return ch.below(maxGroup * 4);
    if (k == 21) return new int[] {16, 17, 32, 64, 100, 127, 128, 129}[ch.below(8)];
    if (k == 22) {
      long d = dict(t);
      return d > 0 && d <= 150 ? (int) d : 2;
    }
    return new int[] {1, 2, 255, 256, 257}[ch.below(5)];
  }

  long dict(Spec.Type t) {
    TreeSet<Long> s = in.nums.get(t.name);
    if (ch.below(4) == 3) {
      List<Long> l = in.shared(spec, true);
      if (!l.isEmpty()) return l.get(ch.below(l.size())) + new int[] {0, 1, -1}[ch.below(3)];
    }
    if (s == null || s.isEmpty()) return EDGES[ch.below(EDGES.length)];
    int i = ch.below(s.size());
    Iterator<Long> it = s.iterator();
    while (i-- > 0) it.next();
    return it.next() + new int[] {0, 1, -1}[ch.below(3)];
  }

  private final long[] recentNums = new long[8];
  private int nums;

  long num(Spec.Type t) {
    if (ch.below(24) == 23) return recentNums[ch.below(8)] + (ch.below(4) == 3 ? 1 : 0);
    return recentNums[nums++ & 7] = num0(t);
  }

  private long num0(Spec.Type t) {
    int k = ch.below(20);
    switch (numMode) {
      case 1: k = k < 8 ? 10 : k; break;
      case 2: k = k < 8 ? 18 : k; break;
      case 3: k = k < 8 ? 6 : k; break;
      case 4: k = k < 5 ? 15 : k; break;
      default:
    }
    if (k < 5) return ch.below(10);
    if (k < 9) return ch.below(1 << 20);
    if (k < 13) return EDGES[ch.below(EDGES.length)];
    if (k < 16) return dict(t);
    return ch.bits();
  }

  public Object scalar(Spec.Type t, Spec.Wire w) {
    switch (w.k) {
      case I8: return (byte) num(t);
      case I16: return (short) num(t);
      case I32: return (int) num(t);
      case I64: return num(t);
      case F32: {
        int k = ch.below(8);
        if (k == 7) return new float[] {Float.NaN, -0f, 0f, Float.MAX_VALUE, Float.MIN_VALUE, Float.NEGATIVE_INFINITY, Float.POSITIVE_INFINITY, 16777217f}[ch.below(8)];
        if (k == 6) return Float.intBitsToFloat((int) ch.bits() | 0x7fc00000); // a not-a-number pattern with a payload
        return k < 4 ? (float) num(t) : num(t) / 100f;
      }
      case F64: {
        int k = ch.below(8);
        if (k == 7) return new double[] {Double.NaN, -0d, 0d, Double.MAX_VALUE, Double.MIN_VALUE, Double.NEGATIVE_INFINITY, Double.POSITIVE_INFINITY, 9007199254740993d}[ch.below(8)];
        if (k == 6) return Double.longBitsToDouble(ch.bits() | 0x7ff8000000000000L);
        return k < 4 ? (double) num(t) : num(t) / 100d;
      }
      case FSTR: return text(t, w.width, (char) w.pad, w.left, true);
      case DSTR: {
        if (bigChance > 0 && ch.chance(bigChance, 100)) {
          int cap = w.prefix.k == Spec.K.I8 ? 255 : w.prefix.k == Spec.K.I16 ? 65535 : 200_000;
          int n = Math.min(cap, new int[] {100, 127, 128, 255, 256, 1023, 1024, 4096, 32767, 32768, 65534, 65535, 65536, 70000, 100_000}[ch.below(15)]);
          return filled(n);
        }
        if (huge > 0 && ch.below(3) > 0) {
          int n = huge();
          huge--;
          return filled(Math.min(n, w.prefix.k == Spec.K.I8 ? 255 : 65535));
        }
        int k = ch.below(16);
        if (k == 0) return ch.below(2) == 0 ? "" : null;
        if (k < 11) return text(t, 1 + ch.below(24), ' ', false, false);
        if (k < 13) return filled(new int[] {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}[ch.below(13)]);
        if (k == 13) {
          long d = dict(t);
          return filled((int) (d > 0 && d <= 5000 ? d : 5));
        }
        return text(t, 1 + ch.below(60), ' ', false, false);
      }
      default:
        throw new IllegalStateException();
    }
  }

  /** Texts that mean something to someone. */
  private static final String[] SPECIAL = {"null", "NULL", "0", "-1", "true", "false", "NaN", "N/A", "none", "\ufeff", "\ufeffX", "\ufffd", "\ufffe", "%s", "%n", "${x}", "\\0", "\"", "'", "a,b", "[x]", "{}", "=", "\r\n", "1e5", "0x10", "+1", "00000000", "99999999", "20240229", "19700101", "000000", "Infinity", "e\u0301", "\u00e9", "\u0130", "\u0131", "\u017f", "\ud835\udfd8", "\u202e", "\u200b", "\u001a", "\u0003"};

  private static final String[] UNITS = {"\u00e9", "\u4e2d", "\ud83d\ude00", "\u00df", "\u65b0", "\u20ac"};

  /** Text of n bytes that are one and the same, except for the end. */
  String uniform(int n) {
    char a = "0 aA\t9x".charAt(ch.below(7)), e = "!x0. \n".charAt(ch.below(6));
    return n == 0 ? "" : String.valueOf(a).repeat(n - 1) + e;
  }

  /** Text of exactly n bytes, mostly ASCII with some multi-byte characters. */
  String filled(int n) {
    StringBuilder sb = new StringBuilder();
    int mode = ch.below(9), x = ch.below(1000);
    int left = n;
    if (mode == 8) return uniform(n);
    if (mode == 1)
      while (left > 3 && sb.length() < n) {
        String u = UNITS[(x + left) % 3];
        int l = u.getBytes(StandardCharsets.UTF_8).length;
        if (l > left) break;
        sb.append(u);
        left -= l;
      }
    while (left > 0) {
      sb.append(mode == 3 || mode >= 5 ? ' ' : mode == 4 ? (char) (33 + x % 94) : (char) ('A' + (x + left * 7L) % 26));
      left--;
    }
    return sb.toString();
  }

  /** A text value; width is the field's width for fixed fields and the aimed length for others. */
  public String text(Spec.Type t, int width, char pad, boolean left, boolean fixed) {
    String s = text0(t, width, pad, left);
    if (s != null && !s.isEmpty()) recent[recents++ & 7] = s;
    return s;
  }

  /** texts drawn last: values recur, within a message and from one message to the next */
  private final String[] recent = new String[8];
  private int recents;

  private String text0(Spec.Type t, int width, char pad, boolean left) {
    int k = ch.below(26);
    switch (textMode) {
      case 1: k = k < 8 ? 8 : k; break;
      case 2: k = k < 8 ? 11 : k; break;
      case 3: k = k < 8 ? 14 : k; break;
      case 4: k = k < 8 ? 18 : k; break;
      case 5: k = k < 8 ? 0 : k; break;
      default:
    }
    if (k < 6) return k == 0 ? sameHash(1 + ch.below(width)) : ascii(1 + ch.below(width));
    if (k < 8) return ch.below(3) == 2 ? null : "";
    if (k < 10) return ascii(width); // exactly full
    if (k == 10) return ascii(Math.max(1, width - 1));
    if (k < 14) { // multi-byte
      StringBuilder sb = new StringBuilder();
      int n = 1 + ch.below(width);
      int b = 0;
      while (b < n && sb.length() < 80) {
        if (ch.below(3) == 0) {
          sb.append((char) ('a' + ch.below(26)));
          b++;
        } else {
          String u = UNITS[ch.below(UNITS.length)];
          sb.append(u);
          b += u.getBytes(StandardCharsets.UTF_8).length;
        }
      }
      return sb.toString();
    }
    if (k < 16) { // pad characters at the ends and inside
      StringBuilder sb = new StringBuilder();
      int n = 1 + ch.below(width);
      for (int i = 0; i < n; i++) sb.append(ch.below(2) == 0 ? pad : (char) ('a' + ch.below(26)));
      return sb.toString();
    }
    if (k == 16) return ascii(width + 1 + ch.below(4)); // over-long
    if (k == 17) return ascii(Math.max(1, width - 1)) + UNITS[ch.below(UNITS.length)]; // crosses the cut
    if (k == 18) { // control characters and other pads
      StringBuilder sb = new StringBuilder();
      int n = 1 + ch.below(width);
      for (int i = 0; i < n; i++) sb.append("\0\t\n \u007f0\u00a0\u3000x1".charAt(ch.below(10)));
      return sb.toString();
    }
    if (k == 19) { // digits
      StringBuilder sb = new StringBuilder();
      int n = 1 + ch.below(width);
      for (int i = 0; i < n; i++) sb.append((char) ('0' + ch.below(10)));
      return sb.toString();
    }
    if (k == 20) { // a constant of the class
      TreeSet<String> s = t == null ? null : in.strs.get(t.name);
      if (s == null || s.isEmpty() || ch.below(2) == 1) {
        List<String> l = in.shared(spec, false);
        if (!l.isEmpty()) return l.get(ch.below(l.size()));
      }
      if (s != null && !s.isEmpty()) {
        int i = ch.below(s.size());
        Iterator<String> it = s.iterator();
        while (i-- > 0) it.next();
        return it.next();
      }
    }
    if (k == 21) return repeat(pad, 1 + ch.below(width));
    if (k == 22) { // one character throughout, the field full or nearly so
      return repeat("0 9A-\ufeff".charAt(ch.below(6)), Math.max(1, width - ch.below(3)));
    }
    if (k == 23) return SPECIAL[ch.below(SPECIAL.length)];
    if (k >= 24) {
      String s = recent[ch.below(8)];
      if (s != null) return k == 25 && ch.below(3) == 2 ? s.toLowerCase(Locale.ROOT) : s;
    }
    return ascii(1 + ch.below(width));
  }

  static String repeat(char c, int n) {
    char[] a = new char[n];
    Arrays.fill(a, c);
    return new String(a);
  }

  /** Short texts of few different hash codes: distinct ones that usual hash functions do not tell apart. */
  String sameHash(int n) {
    StringBuilder sb = new StringBuilder();
    if (n % 2 == 1) sb.append('x');
    while (sb.length() < n) sb.append(sb.length() > 6 || ch.below(2) == 0 ? "Aa" : "BB");
    return sb.toString();
  }

  String ascii(int n) {
    StringBuilder sb = new StringBuilder(n);
    int cap = Math.min(n, 12);
    for (int i = 0; i < cap; i++) sb.append((char) ('A' + ch.below(26)));
    while (sb.length() < n) sb.append((char) ('a' + sb.length() % 26));
    return sb.toString();
  }

  /** Any type of any protocol, protocols equally likely. */
  public Spec.Type anyType() {
    String p = Spec.PROTOS[ch.below(Spec.PROTOS.length)];
    List<Spec.Type> l = ofProto(p);
    return l.get(ch.below(l.size()));
  }

  private static final Map<String, List<Spec.Type>> BY = new java.util.concurrent.ConcurrentHashMap<>();

  public List<Spec.Type> ofProto(String p) {
    return BY.computeIfAbsent(p, k -> {
      List<Spec.Type> l = new ArrayList<>();
      for (Spec.Type t : spec.types) if (t.proto.equals(k)) l.add(t);
      return l;
    });
  }

  /** Changes one transmitted field somewhere in m (not a discriminator, not a computed one); null when impossible. */
  public String mutateOne(Msg m) {
    List<int[]> idx = new ArrayList<>();
    List<Msg> owners = new ArrayList<>();
    collect(m, owners, idx);
    if (owners.isEmpty()) return null;
    for (int attempt = 0; attempt < 8; attempt++) {
      int k = ch.below(owners.size());
      Msg o = owners.get(k);
      int i = idx.get(k)[0];
      Spec.Wire w = o.t.fields.get(i).w;
      Object old = o.v[i];
      if (w.k == Spec.K.LIST) {
        List<Object> l = new ArrayList<>(old == null ? List.of() : (List<?>) old);
        int op = ch.below(4);
        if (op == 3 && l.size() > 1) { // one element becomes a copy of another
          Object x = l.get(0);
          l.set(l.size() - 1, x instanceof Msg ? ((Msg) x).copy() : x);
        } else if (op == 0 && !l.isEmpty()) l.remove(ch.below(l.size()));
        else if (op == 1 && l.size() > 1) Collections.swap(l, 0, l.size() - 1);
        else l.add(w.elem.k == Spec.K.MSG ? gen(w.elem.type, null, null) : scalar(o.t, w.elem));
        o.v[i] = l;
      } else {
        int j = -1;
        if (ch.below(5) == 4) // two fields of the same kind exchange their values
          for (int x = 0; x < owners.size(); x++) {
            if (owners.get((k + 1 + x) % owners.size()) != o) continue;
            int q = idx.get((k + 1 + x) % owners.size())[0];
            Spec.Wire z = o.t.fields.get(q).w;
            if (q != i && z.k == w.k && z.width == w.width && !z.bodyLen && !Objects.equals(o.v[q], old)) {
              j = q;
              break;
            }
          }
        if (j >= 0) {
          o.v[i] = o.v[j];
          o.v[j] = old;
          return o.t.simple + "." + o.t.fields.get(i).name + " and " + o.t.fields.get(j).name;
        }
        o.v[i] = tweak(o.t, w, old);
      }
      return o.t.simple + "." + o.t.fields.get(i).name;
    }
    return null;
  }

  Object tweak(Spec.Type t, Spec.Wire w, Object old) {
    int k = ch.below(4);
    if (old instanceof Number && k < 3 && !(old instanceof Float) && !(old instanceof Double)) {
      long v = ((Number) old).longValue();
      int bits = Ref.width(w.k) * 8;
      v = k == 0 ? v + 1 : k == 1 ? v ^ (1L << ch.below(bits)) : -v - 1;
      switch (w.k) {
        case I8: return (byte) v;
        case I16: return (short) v;
        case I32: return (int) v;
        default: return v;
      }
    }
    if (old instanceof String && !((String) old).isEmpty() && (k = ch.below(6)) < 5) {
      StringBuilder sb = new StringBuilder((String) old);
      if (k >= 2) { // another text with the same hash code
        String twin = twin((String) old);
        if (twin != null) return twin;
      }
      int i = ch.below(sb.length());
      sb.setCharAt(i, sb.charAt(i) == 'Q' ? 'R' : 'Q');
      return sb.toString();
    }
    return scalar(t, w);
  }

  /** Another text with the same length and hash code, or null. */
  String twin(String old) {
    if (old.length() < 2) return null;
    StringBuilder sb = new StringBuilder(old);
    int from = ch.below(sb.length() - 1);
    for (int q = 0; q < sb.length() - 1; q++) {
      int i = (from + q) % (sb.length() - 1);
      char a = sb.charAt(i), b = sb.charAt(i + 1);
      if (a >= 32 && a < 126 && b >= 32 + 31 && b < 127) {
        sb.setCharAt(i, (char) (a + 1));
        sb.setCharAt(i + 1, (char) (b - 31));
        return sb.toString();
      }
      if (a > 33 && a < 127 && b >= 32 && b < 127 - 31) {
        sb.setCharAt(i, (char) (a - 1));
        sb.setCharAt(i + 1, (char) (b + 31));
        return sb.toString();
      }
    }
    return null;
  }

  /** A message of the same sizes whose values cannot be told from the old ones by hash code or by their low half. */
  void twins(Msg m) {
    List<int[]> idx = new ArrayList<>();
    List<Msg> owners = new ArrayList<>();
    collect(m, owners, idx);
    for (int k = 0; k < owners.size(); k++) {
      Msg o = owners.get(k);
      int i = idx.get(k)[0];
      Spec.Wire w = o.t.fields.get(i).w;
      Object old = o.v[i];
      if (w.k == Spec.K.LIST && old != null && w.elem.k != Spec.K.MSG) {
        List<Object> l = new ArrayList<>((List<?>) old);
        for (int q = 0; q < l.size(); q++) l.set(q, twinOf(w.elem, l.get(q)));
        o.v[i] = l;
      } else if (w.k != Spec.K.LIST) o.v[i] = twinOf(w, old);
    }
  }

  private Object twinOf(Spec.Wire w, Object old) {
    if (old instanceof String && ch.below(4) > 0) {
      String s = twin((String) old);
      if (s != null) return s;
    }
    if (old instanceof Number && !(old instanceof Float) && !(old instanceof Double) && ch.below(2) == 0) {
      long v = ((Number) old).longValue();
      switch (w.k) {
        case I8: return (byte) (v ^ 0x10 << ch.below(4));
        case I16: return (short) (v ^ 0x100 << ch.below(8));
        case I32: return (int) v ^ 0x10000 << ch.below(16);
        case I64: {
          long bit = 1L << 32 + ch.below(32);
          return ch.below(2) == 0 ? v ^ bit : v ^ bit ^ bit >>> 32;
        }
        default:
      }
    }
    return old;
  }

  private void collect(Msg m, List<Msg> owners, List<int[]> idx) {
    Set<Integer> disc = new HashSet<>();
    for (var f : m.t.fields) if (f.w.k == Spec.K.POLY) disc.add(f.w.disc);
    for (int i = 0; i < m.v.length; i++) {
      Spec.Wire w = m.t.fields.get(i).w;
      if (disc.contains(i) || w.bodyLen) continue;
      if (w.k == Spec.K.POLY || w.k == Spec.K.MSG) {
        if (m.v[i] instanceof Msg) collect((Msg) m.v[i], owners, idx);
        continue;
      }
      owners.add(m);
      idx.add(new int[] {i});
      if (w.k == Spec.K.LIST && w.elem.k == Spec.K.MSG && m.v[i] != null) for (Object e : (List<?>) m.v[i]) collect((Msg) e, owners, idx);
    }
  }
}
