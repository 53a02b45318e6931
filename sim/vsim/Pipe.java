package vsim;

import java.util.*;

/**
 * A simulated stream connection. Bytes keep their order and are never altered (unless damage is asked for) but
 * arrive in arbitrary segments after arbitrary delays, may be merged, and are lost when the connection is reset.
 */
public final class Pipe {
  final World w;
  final Choices ch;
  public int segMode; // 0 whole writes, 1 random cuts, 2 single bytes, 3 large merges
  public int delayMode; // 0 none, 1 small jitter, 2 with stalls
  public List<Integer> hotCuts; // preferred cut offsets inside the next write
  private final ArrayDeque<byte[]> arrived = new ArrayDeque<>();
  private long lastAt;
  private int inflight;
  private World.Task waiter;
  public int epoch;
  private boolean closed;
  public long sent, delivered, segments;

  public Pipe(World w) {
    this.w = w;
    this.ch = w.ch;
  }

  public void draw() {
    segMode = ch.below(4);
    delayMode = ch.below(3);
  }

  public void write(byte[] b) {
    int p = 0;
    sent += b.length;
    TreeSet<Integer> hot = hotCuts == null ? new TreeSet<>() : new TreeSet<>(hotCuts);
    hotCuts = null;
    int guard = 0;
    if (b.length == 0) {
      final int e = epoch;
      inflight++;
      w.at(Math.max(0, lastAt - w.now), () -> deliver(b, e));
    }
    while (p < b.length) {
      int left = b.length - p, n;
      guard++;
      switch (guard > 80 ? 0 : segMode) {
        case 1: {
          Integer h = hot.higher(p);
          int k = ch.below(3);
          if (k == 2 && h != null && h < b.length) n = Math.max(1, Math.min(left, h - p + ch.below(3) - 1));
          else n = 1 + ch.below(Math.min(left, 1 + ch.below(200)));
          break;
        }
        case 2: n = guard < 60 ? 1 : Math.min(left, 1 + ch.below(64)); break;
        case 3: n = left; break;
        default: n = left;
      }
      n = Math.min(n, left);
      byte[] s = Arrays.copyOfRange(b, p, p + n);
      p += n;
      long d = 0;
      if (delayMode > 0) d = ch.below(2000) * 1000L;
      if (delayMode == 2 && ch.below(12) == 11) {
        d += 5_000_000_000L;
        w.fault("stall");
      }
      lastAt = Math.max(lastAt, w.now + d);
      final int e = epoch;
      inflight++;
      segments++;
      w.at(lastAt - w.now, () -> deliver(s, e));
    }
    if (segMode == 1 || segMode == 2) w.fault("segmentation");
  }

  private void deliver(byte[] s, int e) {
    if (e != epoch) return; // lost with the old connection
    inflight--;
    arrived.add(s);
    delivered += s.length;
    w.ev("arrive", s.length, 0);
    wakeUp();
  }

  private void wakeUp() {
    if (waiter != null) {
      World.Task t = waiter;
      waiter = null;
      w.wake(t);
    }
  }

  /** Drops everything in flight; both ends notice through the epoch. */
  public void reset() {
    epoch++;
    arrived.clear();
    inflight = 0;
    lastAt = w.now;
    w.fault("connection_reset");
    wakeUp();
  }

  public void close() {
    closed = true;
    w.at(Math.max(0, lastAt - w.now) + 1, this::wakeUp);
  }

  public boolean drained() {
    return inflight == 0 && arrived.isEmpty();
  }

  /** Waits for bytes: what has arrived so far (possibly several segments merged), null after the end, empty after a reset. */
  public byte[] read(int knownEpoch) {
    while (true) {
      if (epoch != knownEpoch) return new byte[0];
      if (!arrived.isEmpty()) {
        byte[] s = arrived.poll();
        if (!arrived.isEmpty() && (segMode == 3 || ch.below(3) == 0)) {
          java.io.ByteArrayOutputStream o = new java.io.ByteArrayOutputStream();
          o.writeBytes(s);
          while (!arrived.isEmpty()) o.writeBytes(arrived.poll());
          w.fault("merge");
          s = o.toByteArray();
        }
        return s;
      }
      if (closed && inflight == 0) return null;
      waiter = w.current();
      w.await();
    }
  }
}
