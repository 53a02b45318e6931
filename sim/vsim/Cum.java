package vsim;

import io.netty.buffer.*;
import java.util.Arrays;

/** Receiver side cumulation of stream bytes, in one of the ways network code does it. */
public final class Cum {
  final Ctx c;
  final Pipe p;
  public ByteBuf b;
  public final int mode; // 0 merge into growing buffer, 1 composite of segments, 2 fresh buffer with stale tail per read, 3 fixed ring with compaction
  public int epoch;
  private byte[] last = new byte[0];

  public Cum(Ctx c, Pipe p) {
    this.c = c;
    this.p = p;
    this.mode = c.ch.below(4);
    this.epoch = p.epoch;
    fresh();
  }

  private void fresh() {
    switch (mode) {
      case 1: b = c.bufs.own(c.bufs.unpooled.compositeHeapBuffer(4096)); break;
      case 3: {
        b = c.bufs.own(c.bufs.unpooled.heapBuffer(64));
        break;
      }
      default: b = c.bufs.own(c.ch.below(3) == 2 ? c.bufs.unpooled.directBuffer(16) : c.bufs.unpooled.heapBuffer(16));
    }
  }

  public int readable() {
    return b.readableBytes();
  }

  /** Adds what arrives next. false: the stream has ended. After a reset the unread bytes are dropped and epoch changes. */
  public boolean more() {
    byte[] s = p.read(epoch);
    if (s == null) return false;
    if (p.epoch != epoch) {
      epoch = p.epoch;
      if (mode == 3) b.clear(); // the memory keeps the bytes of the old connection
      else fresh();
      return true;
    }
    switch (mode) {
      case 1:
        ((CompositeByteBuf) b).addComponent(true, Unpooled.wrappedBuffer(s));
        if (b.readerIndex() > 0 && c.ch.below(4) == 3) ((CompositeByteBuf) b).discardReadComponents();
        break;
      case 2: {
        byte[] all = new byte[b.readableBytes() + s.length];
        b.getBytes(b.readerIndex(), all, 0, b.readableBytes());
        System.arraycopy(s, 0, all, b.readableBytes(), s.length);
        b = c.bufs.in(all, 0, all.length, last.length > 0 ? last : null).b;
        break;
      }
      case 3:
        if (b.readerIndex() > 0) b.discardReadBytes();
        b.writeBytes(s);
        break;
      default:
        b.writeBytes(s);
        if (b.readerIndex() > 32 && c.ch.below(3) == 2) b.discardSomeReadBytes();
    }
    last = s.length > 512 ? Arrays.copyOf(s, 512) : s;
    return true;
  }
}
