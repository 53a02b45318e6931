package vsim;

import java.util.*;

/** Model value of a message: field values as Byte/Short/Integer/Long/Float/Double/String/List/Msg/null. */
public final class Msg {
  public final Spec.Type t;
  public final Object[] v;

  public Msg(Spec.Type t) {
    this.t = t;
    this.v = new Object[t.fields.size()];
  }

  public Msg copy() {
    Msg m = new Msg(t);
    for (int i = 0; i < v.length; i++) m.v[i] = cp(v[i]);
    return m;
  }

  private static Object cp(Object o) {
    if (o instanceof Msg) return ((Msg) o).copy();
    if (o instanceof List) {
      List<Object> l = new ArrayList<>();
      for (Object x : (List<?>) o) l.add(cp(x));
      return l;
    }
    return o;
  }

  /** null when equal up to normalisation (null text = "", null group = empty), else a description of the first difference. */
  public static String diff(Msg a, Msg b) {
    return diff(a, b, a == null ? "?" : a.t.simple, -1);
  }

  public static String diff(Object a, Object b, String path, int ignoreIdx) {
    if (a instanceof Msg || b instanceof Msg) {
      if (!(a instanceof Msg) || !(b instanceof Msg)) return path + ": " + show(a) + " vs " + show(b);
      Msg x = (Msg) a, y = (Msg) b;
      if (x.t != y.t) return path + ": type " + x.t + " vs " + y.t;
      for (int i = 0; i < x.v.length; i++) {
        if (i == ignoreIdx) continue;
        String d = diff(x.v[i], y.v[i], path + "." + x.t.fields.get(i).name, -1);
        if (d != null) return d;
      }
      return null;
    }
    if (a instanceof List || b instanceof List) {
      List<?> x = a == null ? List.of() : a instanceof List ? (List<?>) a : null;
      List<?> y = b == null ? List.of() : b instanceof List ? (List<?>) b : null;
      if (x == null || y == null) return path + ": " + show(a) + " vs " + show(b);
      if (x.size() != y.size()) return path + ": size " + x.size() + " vs " + y.size();
      for (int i = 0; i < x.size(); i++) {
        String d = diff(x.get(i), y.get(i), path + "[" + i + "]", -1);
        if (d != null) return d;
      }
      return null;
    }
    if (a instanceof String || b instanceof String) {
      String x = a == null ? "" : a.toString(), y = b == null ? "" : b.toString();
      return x.equals(y) ? null : path + ": " + show(a) + " vs " + show(b);
    }
    if (a == b || (a != null && a.equals(b))) return null;
    return path + ": " + show(a) + " vs " + show(b);
  }

  public static String show(Object o) {
    if (o == null) return "null";
    if (o instanceof String) {
      StringBuilder sb = new StringBuilder("\"");
      String s = (String) o;
      for (int i = 0; i < s.length() && i < 80; i++) {
        char c = s.charAt(i);
        if (c < 32 || c > 126) sb.append(String.format("\\u%04x", (int) c));
        else sb.append(c);
      }
      if (s.length() > 80) sb.append("...(" + s.length() + ")");
      return sb.append('"').toString();
    }
    if (o instanceof List) {
      List<?> l = (List<?>) o;
      StringBuilder sb = new StringBuilder("[");
      for (int i = 0; i < l.size() && i < 4; i++) sb.append(i > 0 ? ", " : "").append(show(l.get(i)));
      if (l.size() > 4) sb.append(", ...(" + l.size() + ")");
      return sb.append("]").toString();
    }
    if (o instanceof Msg) {
      Msg m = (Msg) o;
      StringBuilder sb = new StringBuilder(m.t.simple).append("{");
      for (int i = 0; i < m.v.length; i++) {
        if (i > 0) sb.append(", ");
        sb.append(m.t.fields.get(i).name).append("=").append(show(m.v[i]));
        if (sb.length() > 1500) {
          sb.append("...");
          break;
        }
      }
      return sb.append("}").toString();
    }
    return o.toString();
  }

  @Override
  public String toString() {
    return show(this);
  }
}
