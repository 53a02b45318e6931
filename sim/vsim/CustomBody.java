package vsim;

import io.netty.buffer.ByteBuf;

/** Behaviour of a user-defined body registered at run time. */
public interface CustomBody {
  void encode(ByteBuf b);
  void decode(ByteBuf b);

  /** What it renders as; null for what any object renders as. */
  default String text() {
    return null;
  }
}
