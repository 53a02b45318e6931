package vsim;

import java.io.*;
import java.nio.file.*;
import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.commons.ClassRemapper;
import org.objectweb.asm.commons.Remapper;

/**
 * Turns the compiled classes of the repository into classes whose interleaving the simulator decides: a call to
 * Y.y before every field access, array access and call; monitors become simulated locks; java.util.HashMap (and
 * LinkedHashMap, TreeMap, HashSet, LinkedHashSet, ArrayDeque) is replaced by an instrumented copy of the JDK's own class. Behaviour of a single
 * thread is unchanged. Constructor references turned into lambdas become plain classes (faster to load).
 */
public final class Instr {
  public final Map<String, byte[]> out = new HashMap<>(); // binary name -> bytes
  /** Constants found in the classes: values the code compares or computes with. */
  public final Map<String, TreeSet<Long>> nums = new TreeMap<>();
  public final Map<String, TreeSet<String>> strs = new TreeMap<>();

  private volatile List<Object> shared;

  /** Constants of the classes that are not messages themselves: the codec, the factories, helpers. */
  @SuppressWarnings("unchecked")
  public <T> List<T> shared(Spec spec, boolean numbers) {
    List<Object> l = shared;
    if (l == null) {
      TreeSet<Long> n = new TreeSet<>();
      TreeSet<String> t = new TreeSet<>();
      for (String c : nums.keySet())
        if (!spec.byName.containsKey(c)) {
          n.addAll(nums.get(c));
          t.addAll(strs.get(c));
        }
      shared = l = List.of(new ArrayList<>(n), new ArrayList<>(t));
    }
    return (List<T>) l.get(numbers ? 0 : 1);
  }

  /** The repository's code holds something weakly, so that collecting unreachable objects can be noticed. */
  public boolean weak;

  private static final String Y = "vsim/inst/Y";
  private static final Set<String> PLATFORM = Set.of("java/lang/System", "java/lang/Thread", "java/lang/Math", "java/util/Random", "java/util/Locale", "java/nio/charset/Charset", "java/lang/String", "java/util/regex/Pattern");
  private static final Map<String, String> REFS = Map.of("java/lang/ref/WeakReference", "vsim/inst/SimWeak", "java/lang/ref/SoftReference", "vsim/inst/SimSoft", "java/util/WeakHashMap", "vsim/inst/SimWeakMap");
  private static final List<String> SITES = new ArrayList<>();
  private final Set<String> jdk = new TreeSet<>();

  public static int sites() {
    return SITES.size();
  }

  public static String siteName(int i) {
    return i >= 0 && i < SITES.size() ? SITES.get(i) : "?" + i;
  }

  private final Remapper map = new Remapper() {
    @Override
    public String map(String n) {
      String r = REFS.get(n);
      return r != null ? r : jdk.contains(n) ? "vsim/jdk/" + n.substring(10) : n;
    }
  };

  public void load(Path repoClasses, Path bridgeClasses) throws IOException {
    SITES.clear();
    SITES.add("inside a character coder");
    String[] roots = {"AbstractMap", "HashMap", "LinkedHashMap", "TreeMap", "HashSet", "LinkedHashSet", "ArrayDeque",
      "AbstractCollection", "AbstractList", "AbstractSequentialList", "AbstractSet", "ArrayList", "LinkedList"};
    FileSystem jrt = FileSystems.getFileSystem(java.net.URI.create("jrt:/"));
    Map<String, byte[]> maps = new TreeMap<>();
    try (var ds = Files.newDirectoryStream(jrt.getPath("/modules/java.base/java/util"))) {
      for (Path p : ds) {
        String f = p.getFileName().toString();
        if (!f.endsWith(".class")) continue;
        f = f.substring(0, f.length() - 6);
        String top = f.indexOf('$') < 0 ? f : f.substring(0, f.indexOf('$'));
        if (Arrays.asList(roots).contains(top)) {
          jdk.add("java/util/" + f);
          maps.put("java/util/" + f, Files.readAllBytes(p));
        }
      }
    }
    // Map.Entry implementations of AbstractMap stay compatible because only interfaces are shared with the JDK
    for (byte[] b : maps.values()) transform(b, true);
    List<Path> fs = new ArrayList<>();
    try (var s = Files.walk(repoClasses)) {
      s.filter(p -> p.toString().endsWith(".class")).forEach(fs::add);
    }
    Collections.sort(fs);
    for (Path p : fs) {
      byte[] b = Files.readAllBytes(p);
      constants(b);
      transform(b, false);
    }
    try (var s = Files.walk(bridgeClasses)) {
      for (Path p : (Iterable<Path>) s.filter(x -> x.toString().endsWith(".class"))::iterator) {
        byte[] b = Files.readAllBytes(p);
        out.put(new ClassReader(b).getClassName().replace('/', '.'), b);
      }
    }
    for (String n : new String[] {"Y", "SimCoder", "SimCoder$Enc", "SimCoder$Dec", "SimWeak", "SimSoft", "SimWeakMap"})
      try (InputStream is = Instr.class.getResourceAsStream("/vsim/inst/" + n + ".class")) {
        out.put("vsim.inst." + n, is.readAllBytes());
      }
  }

  private void transform(byte[] b, boolean isMap) {
    ClassReader cr = new ClassReader(b);
    String me = cr.getClassName();
    ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    List<String> suppliers = new ArrayList<>(); // classes constructed by the synthetic supplier
    ClassVisitor cv = new ClassVisitor(Opcodes.ASM9, new ClassRemapper(cw, map)) {
      @Override
      public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] exc) {
        if (isMap && (name.equals("readObject") || name.equals("writeObject"))) return null;
        boolean clinit = name.equals("<clinit>");
        boolean sync = (acc & Opcodes.ACC_SYNCHRONIZED) != 0;
        if (sync) {
          wrapper(cv, acc & ~Opcodes.ACC_SYNCHRONIZED, name, desc, sig, exc, me);
          name = name + "$sync";
          acc = acc & ~(Opcodes.ACC_SYNCHRONIZED | Opcodes.ACC_PUBLIC | Opcodes.ACC_PROTECTED) | Opcodes.ACC_PRIVATE;
        }
        MethodVisitor mv = super.visitMethod(acc, name, desc, sig, exc);
        return new MV(mv, me, name, clinit, isMap, suppliers);
      }
    };
    cr.accept(cv, ClassReader.EXPAND_FRAMES);
    out.put(map.map(me).replace('/', '.'), cw.toByteArray());
    if (!suppliers.isEmpty()) out.put((me + "$$Ctor").replace('/', '.'), ctor(me, suppliers));
  }

  private static void wrapper(ClassVisitor cv, int acc, String name, String desc, String sig, String[] exc, String me) {
    MethodVisitor m = cv.visitMethod(acc, name, desc, sig, exc);
    boolean stat = (acc & Opcodes.ACC_STATIC) != 0;
    m.visitCode();
    Label s = new Label(), e = new Label(), h = new Label();
    m.visitTryCatchBlock(s, e, h, null);
    lock(m, stat, me);
    m.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "enter", "(Ljava/lang/Object;)V", false);
    m.visitLabel(s);
    int i = 0;
    if (!stat) m.visitVarInsn(Opcodes.ALOAD, i++);
    for (Type t : Type.getArgumentTypes(desc)) {
      m.visitVarInsn(t.getOpcode(Opcodes.ILOAD), i);
      i += t.getSize();
    }
    m.visitMethodInsn(stat ? Opcodes.INVOKESTATIC : Opcodes.INVOKESPECIAL, me, name + "$sync", desc, false);
    m.visitLabel(e);
    lock(m, stat, me);
    m.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "exit", "(Ljava/lang/Object;)V", false);
    m.visitInsn(Type.getReturnType(desc).getOpcode(Opcodes.IRETURN));
    m.visitLabel(h);
    lock(m, stat, me);
    m.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "exit", "(Ljava/lang/Object;)V", false);
    m.visitInsn(Opcodes.ATHROW);
    m.visitMaxs(0, 0);
    m.visitEnd();
  }

  private static void lock(MethodVisitor m, boolean stat, String me) {
    if (stat) m.visitLdcInsn(Type.getObjectType(me));
    else m.visitVarInsn(Opcodes.ALOAD, 0);
  }

  private byte[] ctor(String owner, List<String> classes) {
    String n = owner + "$$Ctor";
    ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    cw.visit(Opcodes.V1_6, Opcodes.ACC_FINAL | Opcodes.ACC_SUPER, n, null, "java/lang/Object", new String[] {"java/util/function/Supplier"});
    cw.visitField(Opcodes.ACC_PRIVATE | Opcodes.ACC_FINAL, "i", "I", null, null).visitEnd();
    MethodVisitor m = cw.visitMethod(0, "<init>", "(I)V", null, null);
    m.visitCode();
    m.visitVarInsn(Opcodes.ALOAD, 0);
    m.visitMethodInsn(Opcodes.INVOKESPECIAL, "java/lang/Object", "<init>", "()V", false);
    m.visitVarInsn(Opcodes.ALOAD, 0);
    m.visitVarInsn(Opcodes.ILOAD, 1);
    m.visitFieldInsn(Opcodes.PUTFIELD, n, "i", "I");
    m.visitInsn(Opcodes.RETURN);
    m.visitMaxs(0, 0);
    m.visitEnd();
    m = cw.visitMethod(Opcodes.ACC_PUBLIC, "get", "()Ljava/lang/Object;", null, null);
    m.visitCode();
    Label dflt = new Label();
    Label[] ls = new Label[classes.size()];
    for (int i = 0; i < ls.length; i++) ls[i] = new Label();
    m.visitVarInsn(Opcodes.ALOAD, 0);
    m.visitFieldInsn(Opcodes.GETFIELD, n, "i", "I");
    m.visitTableSwitchInsn(0, ls.length - 1, dflt, ls);
    for (int i = 0; i < ls.length; i++) {
      m.visitLabel(ls[i]);
      String c = classes.get(i);
      m.visitTypeInsn(Opcodes.NEW, c);
      m.visitInsn(Opcodes.DUP);
      m.visitMethodInsn(Opcodes.INVOKESPECIAL, c, "<init>", "()V", false);
      m.visitInsn(Opcodes.ARETURN);
    }
    m.visitLabel(dflt);
    m.visitInsn(Opcodes.ACONST_NULL);
    m.visitInsn(Opcodes.ARETURN);
    m.visitMaxs(0, 0);
    m.visitEnd();
    cw.visitEnd();
    return cw.toByteArray();
  }

  private final class MV extends MethodVisitor {
    final String cls, name;
    final boolean quiet, isMap;
    final List<String> suppliers;
    int line;

    MV(MethodVisitor mv, String cls, String name, boolean quiet, boolean isMap, List<String> suppliers) {
      super(Opcodes.ASM9, mv);
      this.cls = cls;
      this.name = name;
      this.quiet = quiet;
      this.isMap = isMap;
      this.suppliers = suppliers;
    }

    final Set<Label> seen = new HashSet<>();
    boolean ctorSeen; // no steps before super() has been called

    void y(String what) {
      if (quiet && !what.equals("loop") || name.equals("<init>") && !ctorSeen) return;
      SITES.add(cls.substring(cls.lastIndexOf('/') + 1) + "." + name + ":" + line + " " + what);
      super.visitLdcInsn(SITES.size() - 1);
      super.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "y", "(I)V", false);
    }

    @Override
    public void visitLineNumber(int l, Label s) {
      line = l;
      super.visitLineNumber(l, s);
    }

    @Override
    public void visitFieldInsn(int op, String o, String n, String d) {
      y((op == Opcodes.GETFIELD || op == Opcodes.GETSTATIC ? "read " : "write ") + n);
      super.visitFieldInsn(op, o, n, d);
    }

    /** What depends on the platform the process runs on is decided by the simulation. */
    private boolean platform(int op, String o, String n, String d) {
      String to = null, desc = null;
      switch (o) {
        case "java/lang/System":
          if (n.equals("currentTimeMillis")) to = "millis";
          else if (n.equals("nanoTime")) to = "nanos";
          else if (n.equals("identityHashCode")) to = "identity";
          else if (n.equals("arraycopy")) to = "arraycopy";
          break;
        case "java/lang/Thread":
          if (n.equals("sleep") && d.equals("(J)V")) to = "sleep";
          else if (n.equals("getId") || n.equals("threadId")) {
            to = "threadId";
            desc = "(Ljava/lang/Thread;)J";
          } else if (n.equals("getName")) {
            to = "threadName";
            desc = "(Ljava/lang/Thread;)Ljava/lang/String;";
          }
          break;
        case "java/lang/Math":
          if (n.equals("random")) to = "random";
          break;
        case "java/util/Random":
          if (n.equals("<init>") && d.equals("()V")) {
            super.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "randomSeed", "()J", false);
            super.visitMethodInsn(op, o, n, "(J)V", false);
            return true;
          }
          break;
        case "java/util/Locale":
          if (n.equals("getDefault") && d.equals("()Ljava/util/Locale;")) to = "locale";
          break;
        case "java/nio/charset/Charset":
          if (n.equals("defaultCharset")) to = "charset";
          else if (n.equals("newEncoder")) {
            to = "encoder";
            desc = "(Ljava/nio/charset/Charset;)Ljava/nio/charset/CharsetEncoder;";
          } else if (n.equals("newDecoder")) {
            to = "decoder";
            desc = "(Ljava/nio/charset/Charset;)Ljava/nio/charset/CharsetDecoder;";
          }
          break;
        case "java/lang/String":
          if (n.equals("format") && d.startsWith("(Ljava/lang/String;")) to = "format";
          else if (n.equals("formatted")) {
            to = "format";
            desc = "(Ljava/lang/String;[Ljava/lang/Object;)Ljava/lang/String;";
          } else if (n.equals("getBytes") && d.equals("()[B") || n.equals("<init>") && (d.equals("([B)V") || d.equals("([BII)V"))) {
            super.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "charset", "()Ljava/nio/charset/Charset;", false);
            super.visitMethodInsn(op, o, n, d.replace(")", "Ljava/nio/charset/Charset;)"), false);
            return true;
          } else if ((n.equals("toUpperCase") || n.equals("toLowerCase")) && d.startsWith("()")) {
            super.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "locale", "()Ljava/util/Locale;", false);
            super.visitMethodInsn(op, o, n, "(Ljava/util/Locale;)Ljava/lang/String;", false);
            return true;
          } else if (n.equals("matches") || n.equals("replaceAll") || n.equals("replaceFirst")) {
            to = n;
            desc = d.replace("(", "(Ljava/lang/String;");
          }
          break;
        case "java/util/regex/Pattern":
          if (n.equals("matcher")) {
            to = n;
            desc = d.replace("(", "(Ljava/util/regex/Pattern;");
          } else if (n.equals("matches")) to = "patternMatches";
          break;
        default:
      }
      if (to == null) return false;
      super.visitMethodInsn(Opcodes.INVOKESTATIC, Y, to, desc == null ? d : desc, false);
      return true;
    }

    @Override
    public void visitMethodInsn(int op, String o, String n, String d, boolean itf) {
      if (n.equals("getBytes") && o.equals("java/lang/String") || n.equals("toString") && d.startsWith("(L")) heap();
      if (isMap ? n.equals("arraycopy") : PLATFORM.contains(o)) {
        if (!n.equals("<init>")) y("call " + n);
        if (platform(op, o, n, d)) return;
        super.visitMethodInsn(op, o, n, d, itf);
        text(o, d);
        if (n.equals("<init>")) ctorSeen = true;
        return;
      }
      if (!isMap && (o.startsWith("java/lang/ref/") || o.equals("java/util/WeakHashMap"))) weak = true;
      if (isMap && n.equals("hashCode") && o.equals("java/lang/Object") && op == Opcodes.INVOKEVIRTUAL) {
        y("hash");
        super.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "hash", "(Ljava/lang/Object;)I", false);
        return;
      }
      if (isMap && o.startsWith("jdk/internal/")) {
        // only used while deserialising or for capacity checks of newHashMap
        super.visitMethodInsn(op, o, n, d, itf);
        return;
      }
      if (!n.equals("<init>")) y("call " + n);
      super.visitMethodInsn(op, o, n, d, itf);
      if (op != Opcodes.INVOKESPECIAL) text(o, d);
      if (n.equals("<init>")) ctorSeen = true;
    }

    /** A text made by the JDK or by netty took work in proportion to its length. */
    private void text(String o, String d) {
      if (isMap || quiet || o.startsWith("com/finproto/") || !d.endsWith(")Ljava/lang/String;")) return;
      super.visitInsn(Opcodes.DUP);
      super.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "text", "(Ljava/lang/String;)V", false);
    }

    @Override
    public void visitInvokeDynamicInsn(String n, String d, Handle bsm, Object... args) {
      if (!isMap && n.equals("get") && d.equals("()Ljava/util/function/Supplier;") && args.length >= 3 && args[1] instanceof Handle) {
        Handle h = (Handle) args[1];
        if (h.getTag() == Opcodes.H_NEWINVOKESPECIAL && h.getDesc().equals("()V") && h.getOwner().startsWith("com/finproto/")) {
          suppliers.add(h.getOwner());
          String c = cls + "$$Ctor";
          super.visitTypeInsn(Opcodes.NEW, c);
          super.visitInsn(Opcodes.DUP);
          super.visitLdcInsn(suppliers.size() - 1);
          super.visitMethodInsn(Opcodes.INVOKESPECIAL, c, "<init>", "(I)V", false);
          return;
        }
      }
      super.visitInvokeDynamicInsn(n, d, bsm, args);
      if (n.equals("makeConcatWithConstants")) text("", d);
    }

    @Override
    public void visitIntInsn(int op, int v) {
      if (op == Opcodes.NEWARRAY) heap();
      if (op == Opcodes.NEWARRAY && !isMap) super.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "alloc", "(I)I", false);
      super.visitIntInsn(op, v);
    }

    /** Memory is taken from the heap here. */
    private void heap() {
      if (isMap || quiet || name.equals("<init>")) return;
      super.visitMethodInsn(Opcodes.INVOKESTATIC, Y, "heap", "()V", false);
    }

    @Override
    public void visitTypeInsn(int op, String t) {
      if (op == Opcodes.ANEWARRAY || op == Opcodes.NEW && !t.endsWith("Exception") && !t.endsWith("Error")) heap();
      super.visitTypeInsn(op, t);
    }

    @Override
    public void visitLabel(Label l) {
      seen.add(l);
      super.visitLabel(l);
    }

    @Override
    public void visitJumpInsn(int op, Label l) {
      if (seen.contains(l)) y("loop");
      super.visitJumpInsn(op, l);
    }

    @Override
    public void visitInsn(int op) {
      if (op == Opcodes.MONITORENTER || op == Opcodes.MONITOREXIT) {
        super.visitMethodInsn(Opcodes.INVOKESTATIC, Y, op == Opcodes.MONITORENTER ? "enter" : "exit", "(Ljava/lang/Object;)V", false);
        return;
      }
      if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD) y("array read");
      else if (op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) y("array write");
      super.visitInsn(op);
    }
  }

  private void constants(byte[] b) {
    ClassReader cr = new ClassReader(b);
    TreeSet<Long> n = new TreeSet<>();
    TreeSet<String> s = new TreeSet<>();
    cr.accept(new ClassVisitor(Opcodes.ASM9) {
      @Override
      public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] exc) {
        if (name.equals("toString") || name.equals("hashCode")) return null;
        boolean clinit = name.equals("<clinit>");
        return new MethodVisitor(Opcodes.ASM9) {
          @Override
          public void visitIntInsn(int op, int v) {
            if (op != Opcodes.NEWARRAY) n.add((long) v);
          }

          @Override
          public void visitInsn(int op) {
            if (op >= Opcodes.ICONST_M1 && op <= Opcodes.ICONST_5) n.add((long) op - Opcodes.ICONST_0);
          }

          @Override
          public void visitLookupSwitchInsn(Label d, int[] keys, Label[] ls) {
            for (int k : keys) n.add((long) k);
          }

          @Override
          public void visitTableSwitchInsn(int lo, int hi, Label d, Label... ls) {
            n.add((long) lo);
            n.add((long) hi);
          }

          @Override
          public void visitLdcInsn(Object v) {
            if (v instanceof Integer || v instanceof Long) n.add(((Number) v).longValue());
            else if (v instanceof Float || v instanceof Double) n.add(((Number) v).longValue());
            else if (v instanceof String && ((String) v).length() <= 64 && !clinit) s.add((String) v);
          }
        };
      }
    }, ClassReader.SKIP_DEBUG | ClassReader.SKIP_FRAMES);
    String c = cr.getClassName().replace('/', '.');
    nums.put(c, n);
    strs.put(c, s);
  }
}
