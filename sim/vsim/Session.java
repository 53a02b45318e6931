package vsim;

import io.netty.buffer.*;
import java.util.*;

/**
 * One party sends messages over a simulated connection, the other decodes them. The sender batches and reuses
 * buffers and objects, the connection segments, delays, merges and resets, the receiver cumulates and decodes
 * either when a frame is complete or tentatively on every arrival.
 */
public final class Session {
  final Ctx c;
  final String name;
  public final List<Msg> msgs;
  public final Pipe pipe;
  /** bytes of message i as sent (by the code under test or by the reference) */
  public final byte[][] wire;
  public boolean realSender = true, resets = true, tentative, reuse, ignoreSums;
  public java.util.function.BiConsumer<Integer, Object> onReceive = (i, o) -> {};
  public Source source; // other origin of the bytes
  private int next, received;
  private int agreed; // connection on which both parties have agreed where to go on
  private final Map<Spec.Type, Object> senderPool = new HashMap<>(), receiverPool = new HashMap<>();
  public boolean finished;

  public interface Source {
    byte[] bytes(int i);
  }

  public Session(Ctx c, String name, List<Msg> msgs) {
    this.c = c;
    this.name = name;
    this.msgs = msgs;
    this.pipe = new Pipe(c.w);
    this.wire = new byte[msgs.size()][];
    pipe.draw();
    tentative = c.ch.below(3) == 2;
    reuse = c.ch.below(2) == 1;
  }

  public void start() {
    c.w.spawn(name + "-sender", this::send);
    c.w.spawn(name + "-receiver", this::receive);
    if (resets && c.ch.below(3) == 0) {
      int n = 1 + c.ch.below(2);
      for (int i = 0; i < n; i++) {
        long at = c.ch.below(3000) * 1000L;
        c.w.at(at, () -> {
          if (finished) return;
          pipe.reset();
        });
      }
    }
  }

  private Object object(Map<Spec.Type, Object> pool, Spec.Type t) {
    if (!reuse) return c.r.fresh(t);
    Object o = pool.get(t);
    if (o == null) pool.put(t, o = c.r.fresh(t));
    return o;
  }

  private void send() {
    ByteBuf keep = null;
    while (!finished) {
      if (next >= msgs.size()) {
        if (received >= msgs.size()) return;
        c.w.sleep(20_000_000); // wait: a reset may still ask for a message again
        continue;
      }
      int epoch = pipe.epoch;
      if (epoch != agreed) { // reconnecting: the receiver will say which message it needs next
        c.w.sleep(1_000_000);
        continue;
      }
      int from = next, to = Math.min(msgs.size(), from + 1 + c.ch.below(3));
      ByteBuf out;
      if (keep != null && c.ch.below(2) == 1) {
        out = keep;
        if (c.ch.below(2) == 1) out.clear(); // else later messages follow earlier, already sent ones
        c.w.probe("out_buffer_reused");
      } else {
        int room = 0;
        for (int i = from; i < to; i++) room += Ref.encode(msgs.get(i), c.has).length;
        out = c.bufs.out(room * 2 + 64).b;
        if (out.maxCapacity() == Integer.MAX_VALUE) keep = out;
      }
      int start = out.writerIndex();
      List<Integer> cuts = new ArrayList<>();
      int[] lens = new int[to - from];
      for (int i = from; i < to; i++) {
        Msg m = msgs.get(i);
        int s = out.writerIndex();
        byte[] b;
        if (source != null) {
          b = source.bytes(i);
          out.writeBytes(b);
        } else if (realSender) {
          Object o = object(senderPool, m.t);
          c.r.fill(o, m);
          b = c.encodeReal(o, m.t, out);
        } else {
          b = c.refBytes(m);
          out.writeBytes(b);
        }
        wire[i] = b;
        if (c.w.tracing) c.w.note("send #" + i + " " + m.t + " " + b.length + " bytes " + Bufs.hex(b));
        cuts.add(out.writerIndex() - start);
        Ref.Out ro = Ref.encodeWithCuts(m, c.has);
        if (ro.cuts.size() < 400) for (int x : ro.cuts) cuts.add(s - start + x);
        c.w.yield();
      }
      if (pipe.epoch != epoch) {
        c.w.probe("reset_while_encoding");
        continue;
      }
      byte[] all = Bufs.bytes(out, start, out.writerIndex());
      if (c.ch.below(3) == 2) out.readerIndex(out.writerIndex());
      pipe.hotCuts = cuts;
      pipe.write(all);
      next = to;
      if (c.ch.below(2) == 1) c.w.sleep(c.ch.below(1000) * 1000L);
    }
  }

  private void receive() {
    boolean marks = c.ch.below(2) == 1; // the receiver goes back with the buffer's mark
    Cum cum = new Cum(c, pipe);
    while (received < msgs.size()) {
      int i = received;
      Msg m = msgs.get(i);
      int have = cum.readable();
      boolean complete = wire[i] != null && have >= wire[i].length;
      if (!complete && (!tentative || have == 0) || wire[i] == null) {
        more(cum, i);
        continue;
      }
      Object o = object(receiverPool, m.t);
      ByteBuf b = cum.b;
      int start = b.readerIndex();
      if (marks) b.markReaderIndex();
      try {
        c.r.decode(o, m.t, b);
      } catch (Throwable e) {
        if (!complete && e instanceof Exception && !(e instanceof Violation)) {
          if (marks) b.resetReaderIndex();
          else b.readerIndex(start);
          if (b.readerIndex() != start) throw Ctx.bad("mark-moved", "after a failed attempt to decode " + m.t + " the receiver's mark is at " + b.readerIndex() + " instead of " + start);
          c.w.fault("decode_of_partial_message");
          more(cum, i);
          continue;
        }
        Ctx.expect(e, "decoding message " + i + " (" + m.t + ") of a correct stream");
      }
      if (!complete) throw Ctx.bad("decoded-from-part", m.t + " was decoded although only " + have + " of " + wire[i].length + " bytes had arrived");
      int used = b.readerIndex() - start;
      if (used != wire[i].length) throw Ctx.bad("consumed", "decoding message " + i + " (" + m.t + ") consumed " + used + " bytes, its encoding has " + wire[i].length);
      c.w.ev("received", i, used);
      received++;
      onReceive.accept(i, o);
      if (c.ch.below(8) == 7) c.w.sleep(c.ch.below(500) * 1000L);
    }
    finished = true;
    if (cum.readable() > 0) throw Ctx.bad("surplus", cum.readable() + " bytes follow the last message");
  }

  private void more(Cum cum, int i) {
    if (!cum.more()) throw Ctx.bad("stream-end", "stream ended before message " + i);
    if (cum.epoch != agreed) {
      c.w.probe("receiver_saw_reset");
      agreed = cum.epoch;
      next = received; // the first message not received
    }
  }
}
