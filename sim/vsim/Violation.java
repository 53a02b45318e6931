package vsim;

/** A property was observed to be broken. {@code kind} classifies it (used while minimising). */
public final class Violation extends RuntimeException {
  public final String kind;

  public Violation(String kind, String msg) {
    super(kind + ": " + msg);
    this.kind = kind;
  }

  public Violation(String kind, String msg, Throwable cause) {
    super(kind + ": " + msg, cause);
    this.kind = kind;
  }
}
