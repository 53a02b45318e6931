package vsim.inst;

import java.util.*;
import vsim.World;

/** A weak map whose keys, when nothing else refers to them, go exactly when the simulation decides. */
public class SimWeakMap<K, V> extends WeakHashMap<K, V> implements World.Pin {
  private ArrayList<K> keys = new ArrayList<>();

  public SimWeakMap() {
    if (Y.w != null) Y.w.pin(this);
  }

  public SimWeakMap(int n) {
    this();
  }

  public SimWeakMap(int n, float f) {
    this();
  }

  public SimWeakMap(Map<? extends K, ? extends V> m) {
    this();
    putAll(m);
  }

  @Override
  public V put(K k, V v) {
    keys.add(k);
    return super.put(k, v);
  }

  @Override
  public void pin(boolean on) {
    keys = new ArrayList<>();
    if (on) keys.addAll(keySet());
  }
}
