package vsim;

import java.util.*;

/** Counters of one worker. */
public final class Stats {
  public final TreeMap<String, long[]> c = new TreeMap<>();
  public final BitSet sites = new BitSet();
  public final BitSet types = new BitSet();
  public final HashSet<Long> digests = new HashSet<>();
  public long runs, nontrivial, steps, switches, simNs, messages, bytes;

  public void add(String k, long n) {
    long[] v = c.get(k);
    if (v == null) c.put(k, v = new long[1]);
    v[0] += n;
  }

  public void site(int s) {
    if (s >= 0) sites.set(s);
  }

  public void merge(Stats o) {
    o.c.forEach((k, v) -> add(k, v[0]));
    sites.or(o.sites);
    types.or(o.types);
    digests.addAll(o.digests);
    runs += o.runs;
    nontrivial += o.nontrivial;
    steps += o.steps;
    switches += o.switches;
    simNs += o.simNs;
    messages += o.messages;
    bytes += o.bytes;
  }
}
