package vsim;

/** Text whose reading is counted as work: matching it against a pattern of the code under test has a price. */
public final class Counted implements CharSequence {
  private final CharSequence s;
  private final World w;

  public Counted(CharSequence s, World w) {
    this.s = s;
    this.w = w;
  }

  @Override
  public int length() {
    return s.length();
  }

  @Override
  public char charAt(int i) {
    w.work(1);
    return s.charAt(i);
  }

  @Override
  public CharSequence subSequence(int a, int b) {
    return s.subSequence(a, b);
  }

  @Override
  public String toString() {
    return s.toString();
  }
}
