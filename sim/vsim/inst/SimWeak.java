package vsim.inst;

import java.lang.ref.ReferenceQueue;
import java.lang.ref.WeakReference;
import vsim.World;

/** A weak reference whose referent, when nothing else refers to it, goes exactly when the simulation decides. */
public class SimWeak<T> extends WeakReference<T> implements World.Pin {
  private T strong;

  public SimWeak(T r) {
    this(r, null);
  }

  public SimWeak(T r, ReferenceQueue<? super T> q) {
    super(r, q);
    strong = r;
    if (Y.w != null) Y.w.pin(this);
  }

  @Override
  public void clear() {
    strong = null;
    super.clear();
  }

  @Override
  public void pin(boolean on) {
    strong = on ? get() : null;
  }
}
