package vsim.inst;

import java.lang.ref.ReferenceQueue;
import java.lang.ref.SoftReference;
import java.lang.ref.WeakReference;
import vsim.World;

/** A soft reference for which memory gets short exactly when the simulation decides. */
public class SimSoft<T> extends SoftReference<T> implements World.Pin {
  private WeakReference<T> weak;
  private T strong;

  public SimSoft(T r) {
    this(r, null);
  }

  public SimSoft(T r, ReferenceQueue<? super T> q) {
    super(null, q);
    weak = new WeakReference<>(r);
    strong = r;
    if (Y.w != null) Y.w.pin(this);
  }

  @Override
  public T get() {
    return weak.get();
  }

  @Override
  public void clear() {
    strong = null;
    weak = new WeakReference<>(null);
  }

  @Override
  public void pin(boolean on) {
    strong = on ? weak.get() : null;
  }
}
