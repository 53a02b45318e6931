package vsim;

import io.netty.buffer.ByteBuf;

/** Access to one real message class through its public API (implemented by generated code in bridge/). */
public interface MsgBridge {
  Object fresh();
  void fill(Object real, Object[] v, Conv c);
  Object[] read(Object real, Conv c);
  void encode(Object real, ByteBuf b);
  void decode(Object real, ByteBuf b);
}
