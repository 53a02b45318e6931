package vsim;

import java.io.IOException;
import java.nio.file.*;
import java.util.*;

/** The layout tables of spec/*.layout. */
public final class Spec {
  public enum K { I8, I16, I32, I64, F32, F64, FSTR, DSTR, LIST, MSG, POLY }

  public static final class Wire {
    public K k;
    public boolean le;
    public boolean bodyLen;
    public String checksum; // algorithm of a checksum trailer
    public int width; // FSTR
    public int pad;
    public boolean left; // FSTR padded on the left
    public Wire prefix; // DSTR, LIST
    public Wire elem; // LIST
    public Type type; // MSG
    public int disc; // POLY: index of discriminator field
    String ref;
  }

  public static final class Field {
    public String name;
    public Wire w;
  }

  public static final class Type {
    public int id; // global
    public int local; // index inside protocol
    public String proto;
    public String name; // class name
    public String simple;
    public List<Field> fields = new ArrayList<>();
    public LinkedHashMap<String, Type> cases = new LinkedHashMap<>();
    final LinkedHashMap<String, String> caseRefs = new LinkedHashMap<>();
    public int poly = -1; // index of the POLY field
    public int len = -1, sum = -1; // header fields
    public boolean hasText, hasGroup, hasDyn;
    public boolean root;

    @Override
    public String toString() {
      return proto + "." + simple;
    }
  }

  public final List<Type> types = new ArrayList<>();
  public final Map<String, Type> byName = new HashMap<>();
  public final Map<String, Type> roots = new LinkedHashMap<>();
  public final LinkedHashMap<String, String> registries = new LinkedHashMap<>(); // owner class -> key kind
  public static final String[] PROTOS = {"sample", "sse", "szse", "bjse", "risk"};

  public Spec(Path dir) throws IOException {
    for (String p : PROTOS) {
      Type cur = null;
      int local = 0;
      List<Type> mine = new ArrayList<>();
      for (String l : Files.readAllLines(dir.resolve(p + ".layout"))) {
        if (l.startsWith("#") || l.isBlank()) continue;
        if (l.startsWith("message ")) {
          cur = new Type();
          cur.proto = p;
          cur.name = l.substring(8).trim();
          cur.simple = cur.name.substring(cur.name.lastIndexOf('.') + 1);
          cur.id = types.size();
          cur.local = local++;
          types.add(cur);
          mine.add(cur);
          byName.put(cur.name, cur);
        } else if (l.contains(" -> ")) {
          String[] a = l.trim().substring(5).split(" -> ");
          cur.caseRefs.put(a[0].trim(), a[1].trim());
        } else {
          String[] a = l.trim().split(" : ");
          Field f = new Field();
          f.name = a[0];
          f.w = wire(a[1].trim().split(" "), 0, cur);
          if (f.w.bodyLen) cur.len = cur.fields.size();
          if (f.w.checksum != null) cur.sum = cur.fields.size();
          if (f.w.k == K.POLY) cur.poly = cur.fields.size();
          cur.fields.add(f);
        }
      }
      for (Type t : mine) {
        String pkg = t.name.substring(0, t.name.lastIndexOf('.') + 1);
        for (Field f : t.fields) {
          Wire w = f.w.k == K.LIST ? f.w.elem : f.w;
          if (w.k == K.MSG) w.type = Objects.requireNonNull(byName.get(pkg + w.ref), w.ref);
          if (f.w.k == K.POLY) f.w.disc = idx(t, f.w.ref);
          if (w.k == K.FSTR || w.k == K.DSTR) t.hasText = true;
          if (w.k == K.DSTR) t.hasDyn = true;
          if (f.w.k == K.LIST) t.hasGroup = true;
        }
        for (var e : t.caseRefs.entrySet()) t.cases.put(e.getKey(), Objects.requireNonNull(byName.get(pkg + e.getValue()), e.getValue()));
        if (t.simple.endsWith("Binary") || t.simple.equals("RootPacket")) {
          t.root = true;
          roots.put(p, t);
        }
      }
    }
    for (String l : Files.readAllLines(dir.resolve("registries.txt"))) {
      if (l.isBlank()) continue;
      String[] a = l.split(" ");
      registries.put(a[0], a[1]);
    }
  }

  private static int idx(Type t, String n) {
    for (int i = 0; i < t.fields.size(); i++) if (t.fields.get(i).name.equals(n)) return i;
    throw new IllegalStateException(t.name + "." + n);
  }

  private static Wire wire(String[] a, int i, Type t) {
    Wire w = new Wire();
    switch (a[i]) {
      case "bodylen":
        w = wire(a, i + 1, t);
        w.bodyLen = true;
        return w;
      case "checksum":
        w = wire(a, i + 1, t);
        w.checksum = a[i + 2];
        return w;
      case "fstr":
        w.k = K.FSTR;
        w.width = Integer.parseInt(a[i + 1]);
        w.pad = Integer.parseInt(a[i + 2].substring(4), 16);
        w.left = a[i + 3].equals("trim=left");
        return w;
      case "dstr":
        w.k = K.DSTR;
        w.prefix = wire(a, i + 1, t);
        return w;
      case "list":
        w.k = K.LIST;
        w.prefix = wire(a, i + 1, t);
        w.elem = wire(a, i + 3, t);
        return w;
      case "msg":
        w.k = K.MSG;
        w.ref = a[i + 1];
        return w;
      case "poly":
        w.k = K.POLY;
        w.ref = a[i + 1];
        return w;
      case "i8":
        w.k = K.I8;
        return w;
      default:
        w.k = K.valueOf(a[i].substring(0, 3).toUpperCase());
        w.le = a[i].endsWith("le");
        return w;
    }
  }
}
