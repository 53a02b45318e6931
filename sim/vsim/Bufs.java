package vsim;

import io.netty.buffer.*;
import java.nio.ByteBuffer;
import java.util.*;

/** Simulated memory: buffers of every kind, in every position, with stale contents around the live bytes. */
public final class Bufs {
  final Choices ch;
  final World w;
  final UnpooledByteBufAllocator unpooled = new UnpooledByteBufAllocator(false, true, true);
  private PooledByteBufAllocator pooled;
  private final List<ByteBuf> owned = new ArrayList<>();
  /** kinds this run may use; null for all */
  public int[] onlyIn;

  public Bufs(Choices ch, World w) {
    this.ch = ch;
    this.w = w;
  }

  /** A buffer and the memory it lives in. */
  public static final class Mem {
    public ByteBuf b;
    /** same memory, whole capacity */
    public ByteBuf root;
    public int base; // offset of b's index 0 in root
    public String kind;
    byte[] image;
    int ref;

    /** Remembers everything, to be compared later. */
    public Mem snap() {
      image = dump();
      ref = b.refCnt();
      return this;
    }

    public byte[] dump() {
      byte[] x = new byte[root.capacity()];
      root.getBytes(0, x);
      return x;
    }

    /** null when memory outside [from,to) of b is as it was, else a description. */
    public String changedOutside(int from, int to) {
      byte[] x = dump();
      for (int i = 0; i < Math.min(x.length, image.length); i++)
        if (x[i] != image[i] && (i < base + from || i >= base + to)) return "byte at index " + (i - base) + " changed from " + (image[i] & 0xFF) + " to " + (x[i] & 0xFF);
      return null;
    }

    public void write(int at, byte[] src) {
      root.setBytes(base + at, src);
    }
  }

  private PooledByteBufAllocator pooled() {
    if (pooled == null) pooled = new PooledByteBufAllocator(false, 1, 0, 8192, 1, 0, 0, false);
    return pooled;
  }

  public <T extends ByteBuf> T own(T b) {
    owned.add(b);
    return b;
  }

  public void releaseAll() {
    for (ByteBuf b : owned)
      try {
        if (b.refCnt() > 0) b.release(b.refCnt());
      } catch (RuntimeException e) {
        // a double release by the code under test is reported by the scenario
      }
    owned.clear();
    pooled = null;
  }

  /** Stale bytes: zeros, ones, spaces, letters, random, or a given earlier content. */
  public void garbage(byte[] x, int from, int to, byte[] earlier) {
    int k = ch.below(earlier != null && earlier.length > 0 ? 7 : 5);
    int seed = ch.below(251);
    for (int i = from; i < to; i++) {
      switch (k) {
        case 0: x[i] = 0; break;
        case 1: x[i] = (byte) 0xFF; break;
        case 2: x[i] = (byte) (seed % 2 == 0 ? ' ' : '0'); break;
        case 3: x[i] = (byte) ('a' + (i + seed) % 26); break;
        case 4: x[i] = (byte) Choices.mix(i * 131L + seed); break;
        default: x[i] = earlier[(i - from) % earlier.length];
      }
    }
  }

  public static final int IN_KINDS = 8;

  /** Received bytes src[from,to) in a drawn kind of buffer; stale is what may lie in memory behind them. */
  public Mem in(byte[] src, int from, int to, byte[] stale) {
    int kind = onlyIn != null ? onlyIn[ch.below(onlyIn.length)] : ch.below(IN_KINDS);
    return in(kind, src, from, to, stale);
  }

  public Mem in(int kind, byte[] src, int from, int to, byte[] stale) {
    Mem m = new Mem();
    int n = to - from;
    int pre = 0, post = 0;
    if (kind != 0) {
      pre = ch.below(3) == 2 ? ch.below(40) : 0;
      int q = ch.below(6);
      post = q == 0 ? 0 : q < 3 ? 1 + ch.below(16) : q < 5 ? 64 + ch.below(200) : 2000;
    }
    byte[] all = new byte[pre + n + post];
    if (pre > 0) garbage(all, 0, pre, null);
    System.arraycopy(src, from, all, pre, n);
    if (post > 0) garbage(all, pre + n, all.length, stale);
    switch (kind) {
      case 0:
        m.kind = "heap";
        m.b = own(Unpooled.wrappedBuffer(all));
        m.root = m.b;
        break;
      case 1: {
        m.kind = "heap+stale";
        ByteBuf b = own(unpooled.heapBuffer(Math.max(1, all.length), Integer.MAX_VALUE));
        b.writeBytes(all).writerIndex(pre + n).readerIndex(pre);
        m.b = m.root = b;
        break;
      }
      case 2: {
        m.kind = "direct+stale";
        ByteBuf b = own(unpooled.directBuffer(Math.max(1, all.length), Integer.MAX_VALUE));
        b.writeBytes(all).writerIndex(pre + n).readerIndex(pre);
        m.b = m.root = b;
        break;
      }
      case 3: {
        m.kind = "slice";
        int off = ch.below(30), tail = ch.below(64);
        byte[] big = new byte[off + all.length + tail];
        garbage(big, 0, big.length, stale);
        System.arraycopy(all, 0, big, off, all.length);
        ByteBuf r = own(Unpooled.wrappedBuffer(big));
        m.root = r;
        m.base = off;
        m.b = r.slice(off, all.length);
        m.b.setIndex(pre, pre + n);
        break;
      }
      case 4: {
        m.kind = "composite";
        CompositeByteBuf c = own(unpooled.compositeHeapBuffer(1000));
        int p = 0;
        int parts = 0;
        while (p < all.length) {
          int l = parts > 60 ? all.length - p : Math.min(all.length - p, 1 + ch.below(1 + ch.below(Math.max(1, all.length))));
          byte[] part = Arrays.copyOfRange(all, p, p + l);
          c.addComponent(true, parts % 3 == 2 ? unpooled.directBuffer(l).writeBytes(part) : Unpooled.wrappedBuffer(part));
          p += l;
          parts++;
        }
        c.setIndex(pre, pre + n);
        m.b = m.root = c;
        break;
      }
      case 5: {
        m.kind = "readonly";
        ByteBuf r = own(Unpooled.wrappedBuffer(all));
        r.setIndex(pre, pre + n);
        m.root = r;
        m.b = r.asReadOnly();
        break;
      }
      case 6: {
        m.kind = "pooled";
        ByteBuf b = own(pooled().heapBuffer(Math.max(1, all.length), Integer.MAX_VALUE));
        b.writeBytes(all).writerIndex(pre + n).readerIndex(pre);
        m.b = m.root = b;
        break;
      }
      default: {
        m.kind = "nio-readonly";
        ByteBuf r = own(Unpooled.wrappedBuffer(all));
        m.root = r;
        m.b = own(Unpooled.wrappedBuffer(ByteBuffer.wrap(all).asReadOnlyBuffer()));
        m.b.setIndex(pre, pre + n);
      }
    }
    if (ch.below(4) == 3) {
      m.b.markReaderIndex();
    }
    return m;
  }

  /**
   * A buffer to encode into, able to take at least {@code room} bytes: may hold earlier content, part of which may
   * have been read, and may have to grow at any point.
   */
  public Mem out(int room) {
    Mem m = new Mem();
    int kind = ch.below(8);
    int pre = ch.below(3) == 0 ? 0 : ch.below(60);
    int lim = room * 3 + 64; // an encoder may ask for the room that its texts could need before it knows what they do need
    int cap;
    switch (ch.below(4)) {
      case 0: cap = pre + room + 64; break;
      case 1: cap = Math.max(1, pre); break; // must grow at once
      case 2: cap = Math.max(1, pre + ch.below(room + 1)); break; // must grow in the middle
      default: cap = Math.max(1, pre + room); break; // exact fit
    }
    byte[] g = new byte[Math.max(cap, pre)];
    garbage(g, 0, g.length, null);
    switch (kind) {
      case 0: case 1:
        m.kind = "heap";
        m.b = m.root = own(unpooled.heapBuffer(cap, Integer.MAX_VALUE));
        break;
      case 2:
        m.kind = "direct";
        m.b = m.root = own(unpooled.directBuffer(cap, Integer.MAX_VALUE));
        break;
      case 3:
        m.kind = "composite";
        m.b = m.root = own(unpooled.compositeHeapBuffer(16));
        break;
      case 4: {
        m.kind = "slice";
        int off = ch.below(20);
        int c = pre + lim;
        byte[] big = new byte[off + c + ch.below(40)];
        garbage(big, 0, big.length, null);
        m.root = own(Unpooled.wrappedBuffer(big));
        m.base = off;
        m.b = m.root.slice(off, c);
        m.b.setIndex(0, 0);
        g = Arrays.copyOf(g, Math.min(g.length, c));
        break;
      }
      case 5:
        m.kind = "pooled";
        m.b = m.root = own(pooled().heapBuffer(cap, Integer.MAX_VALUE));
        break;
      case 6:
        m.kind = "bounded";
        m.b = m.root = own(unpooled.heapBuffer(Math.min(cap, pre + room), pre + lim));
        g = Arrays.copyOf(g, Math.min(g.length, m.b.capacity()));
        break;
      default:
        m.kind = "little";
        m.b = m.root = own(unpooled.heapBuffer(1, Integer.MAX_VALUE));
    }
    // leave stale bytes in the spare capacity
    int gl = Math.min(g.length, Math.max(pre, m.b.maxCapacity() < g.length ? m.b.maxCapacity() : g.length));
    m.b.writeBytes(g, 0, gl);
    m.b.setIndex(0, pre);
    if (pre > 0 && ch.below(2) == 1) m.b.readerIndex(ch.below(pre + 1));
    return m;
  }

  public static byte[] bytes(ByteBuf b, int from, int to) {
    byte[] x = new byte[to - from];
    b.getBytes(from, x);
    return x;
  }

  public static String hexAll(byte[] b) {
    return java.util.HexFormat.of().formatHex(b);
  }

  public static String hex(byte[] b) {
    return hex(b, 0, b.length);
  }

  public static String hex(byte[] b, int from, int to) {
    StringBuilder sb = new StringBuilder();
    for (int i = from; i < to && i < from + 200; i++) sb.append(String.format("%02x", b[i]));
    if (to - from > 200) sb.append("...(").append(to - from).append(")");
    return sb.toString();
  }

  /** A heap buffer whose memory allocation fails when it would have to hold more than {@code limit} bytes. */
  public static final class FaultBuf extends UnpooledHeapByteBuf {
    public int limit = Integer.MAX_VALUE;
    public int mode; // 0 OutOfMemoryError, 1 IllegalStateException
    public boolean fired;

    public FaultBuf(ByteBufAllocator a, int initial) {
      super(a, initial, Integer.MAX_VALUE);
    }

    @Override
    public ByteBuf capacity(int n) {
      if (n > capacity() && n > limit) {
        fired = true;
        if (mode == 0) throw new OutOfMemoryError("simulated");
        throw new IllegalStateException("simulated allocation failure");
      }
      return super.capacity(n);
    }
  }
}
