// Generated by tools/gen_bridge.py from spec/sample.layout
package vbridge;
import vsim.*;
import com.finproto.codec.BinaryCodec;
@SuppressWarnings({"unchecked","rawtypes"})
public final class B_sample {
  public static MsgBridge get(int i) {
    switch (i) {
      case 0: return new M_BasicPacket();
      case 1: return new M_EmptyPacket();
      case 2: return new M_NestedPacket();
      case 3: return new M_NestedPacket_InerPacket();
      case 4: return new M_RootPacket();
      case 5: return new M_StringPacket();
      case 6: return new M_SubPacket();
      default: throw new IllegalArgumentException();
    }
  }
  static final class M_BasicPacket implements MsgBridge {
    public Object fresh() { return new com.finproto.sample.messages.BasicPacket(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sample.messages.BasicPacket m = (com.finproto.sample.messages.BasicPacket) o_;
      m.setFieldI8((byte) (Byte) v[0]);
      m.setFieldI16((short) (Short) v[1]);
      m.setFieldI32((int) (Integer) v[2]);
      m.setFieldI64((long) (Long) v[3]);
      m.setFieldChar((String) v[4]);
      m.setFieldU8((byte) (Byte) v[5]);
      m.setFieldU16((short) (Short) v[6]);
      m.setFieldU32((int) (Integer) v[7]);
      m.setFieldU64((long) (Long) v[8]);
      m.setFieldF32((float) (Float) v[9]);
      m.setFieldF64((double) (Double) v[10]);
      m.setFieldI8List((java.util.List) c.toRealList(v[11]));
      m.setFieldI16List((java.util.List) c.toRealList(v[12]));
      m.setFieldI32List((java.util.List) c.toRealList(v[13]));
      m.setFieldI64List((java.util.List) c.toRealList(v[14]));
      m.setFieldCharList((java.util.List) c.toRealList(v[15]));
      m.setFieldU8List((java.util.List) c.toRealList(v[16]));
      m.setFieldU16List((java.util.List) c.toRealList(v[17]));
      m.setFieldU32List((java.util.List) c.toRealList(v[18]));
      m.setFieldU64List((java.util.List) c.toRealList(v[19]));
      m.setFieldF32List((java.util.List) c.toRealList(v[20]));
      m.setFieldF64List((java.util.List) c.toRealList(v[21]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sample.messages.BasicPacket m = (com.finproto.sample.messages.BasicPacket) o_;
      Object[] v = new Object[22];
      v[0] = m.getFieldI8();
      v[1] = m.getFieldI16();
      v[2] = m.getFieldI32();
      v[3] = m.getFieldI64();
      v[4] = m.getFieldChar();
      v[5] = m.getFieldU8();
      v[6] = m.getFieldU16();
      v[7] = m.getFieldU32();
      v[8] = m.getFieldU64();
      v[9] = m.getFieldF32();
      v[10] = m.getFieldF64();
      v[11] = c.toModelList((java.util.List) m.getFieldI8List());
      v[12] = c.toModelList((java.util.List) m.getFieldI16List());
      v[13] = c.toModelList((java.util.List) m.getFieldI32List());
      v[14] = c.toModelList((java.util.List) m.getFieldI64List());
      v[15] = c.toModelList((java.util.List) m.getFieldCharList());
      v[16] = c.toModelList((java.util.List) m.getFieldU8List());
      v[17] = c.toModelList((java.util.List) m.getFieldU16List());
      v[18] = c.toModelList((java.util.List) m.getFieldU32List());
      v[19] = c.toModelList((java.util.List) m.getFieldU64List());
      v[20] = c.toModelList((java.util.List) m.getFieldF32List());
      v[21] = c.toModelList((java.util.List) m.getFieldF64List());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.BasicPacket) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.BasicPacket) o_).decode(b); }
  }
  static final class M_EmptyPacket implements MsgBridge {
    public Object fresh() { return new com.finproto.sample.messages.EmptyPacket(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sample.messages.EmptyPacket m = (com.finproto.sample.messages.EmptyPacket) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sample.messages.EmptyPacket m = (com.finproto.sample.messages.EmptyPacket) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.EmptyPacket) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.EmptyPacket) o_).decode(b); }
  }
  static final class M_NestedPacket implements MsgBridge {
    public Object fresh() { return new com.finproto.sample.messages.NestedPacket(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sample.messages.NestedPacket m = (com.finproto.sample.messages.NestedPacket) o_;
      m.setSubPacket((com.finproto.sample.messages.SubPacket) c.toReal(v[0]));
      m.setSubPacketList((java.util.List) c.toRealList(v[1]));
      m.setInerPacket((com.finproto.sample.messages.NestedPacket.InerPacket) c.toReal(v[2]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sample.messages.NestedPacket m = (com.finproto.sample.messages.NestedPacket) o_;
      Object[] v = new Object[3];
      v[0] = c.toModel(m.getSubPacket());
      v[1] = c.toModelList((java.util.List) m.getSubPacketList());
      v[2] = c.toModel(m.getInerPacket());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.NestedPacket) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.NestedPacket) o_).decode(b); }
  }
  static final class M_NestedPacket_InerPacket implements MsgBridge {
    public Object fresh() { return new com.finproto.sample.messages.NestedPacket.InerPacket(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sample.messages.NestedPacket.InerPacket m = (com.finproto.sample.messages.NestedPacket.InerPacket) o_;
      m.setFieldU32((int) (Integer) v[0]);
      m.setFieldI16List((java.util.List) c.toRealList(v[1]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sample.messages.NestedPacket.InerPacket m = (com.finproto.sample.messages.NestedPacket.InerPacket) o_;
      Object[] v = new Object[2];
      v[0] = m.getFieldU32();
      v[1] = c.toModelList((java.util.List) m.getFieldI16List());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.NestedPacket.InerPacket) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.NestedPacket.InerPacket) o_).decode(b); }
  }
  static final class M_RootPacket implements MsgBridge {
    public Object fresh() { return new com.finproto.sample.messages.RootPacket(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sample.messages.RootPacket m = (com.finproto.sample.messages.RootPacket) o_;
      m.setMsgType((short) (Short) v[0]);
      m.setPayloadLen((int) (Integer) v[1]);
      m.setPayload((BinaryCodec) c.toReal(v[2]));
      m.setChecksum((int) (Integer) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sample.messages.RootPacket m = (com.finproto.sample.messages.RootPacket) o_;
      Object[] v = new Object[4];
      v[0] = m.getMsgType();
      v[1] = m.getPayloadLen();
      v[2] = c.toModel(m.getPayload());
      v[3] = m.getChecksum();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.RootPacket) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.RootPacket) o_).decode(b); }
  }
  static final class M_StringPacket implements MsgBridge {
    public Object fresh() { return new com.finproto.sample.messages.StringPacket(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sample.messages.StringPacket m = (com.finproto.sample.messages.StringPacket) o_;
      m.setFieldDynamicString((String) v[0]);
      m.setFieldDynamicString1((String) v[1]);
      m.setFieldFixedString1((String) v[2]);
      m.setFieldFixedString10((String) v[3]);
      m.setFieldFixedString10Pad((String) v[4]);
      m.setFieldFixedString10PadWithNullTerminator((String) v[5]);
      m.setFieldDynamicStringList((java.util.List) c.toRealList(v[6]));
      m.setFieldDynamicString1List((java.util.List) c.toRealList(v[7]));
      m.setFieldFixedString1List((java.util.List) c.toRealList(v[8]));
      m.setFieldFixedString10List((java.util.List) c.toRealList(v[9]));
      m.setFieldFixedString10ListPad((java.util.List) c.toRealList(v[10]));
      m.setFieldFixedString10PadWithNullTerminatorList((java.util.List) c.toRealList(v[11]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sample.messages.StringPacket m = (com.finproto.sample.messages.StringPacket) o_;
      Object[] v = new Object[12];
      v[0] = m.getFieldDynamicString();
      v[1] = m.getFieldDynamicString1();
      v[2] = m.getFieldFixedString1();
      v[3] = m.getFieldFixedString10();
      v[4] = m.getFieldFixedString10Pad();
      v[5] = m.getFieldFixedString10PadWithNullTerminator();
      v[6] = c.toModelList((java.util.List) m.getFieldDynamicStringList());
      v[7] = c.toModelList((java.util.List) m.getFieldDynamicString1List());
      v[8] = c.toModelList((java.util.List) m.getFieldFixedString1List());
      v[9] = c.toModelList((java.util.List) m.getFieldFixedString10List());
      v[10] = c.toModelList((java.util.List) m.getFieldFixedString10ListPad());
      v[11] = c.toModelList((java.util.List) m.getFieldFixedString10PadWithNullTerminatorList());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.StringPacket) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.StringPacket) o_).decode(b); }
  }
  static final class M_SubPacket implements MsgBridge {
    public Object fresh() { return new com.finproto.sample.messages.SubPacket(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sample.messages.SubPacket m = (com.finproto.sample.messages.SubPacket) o_;
      m.setFieldU32((int) (Integer) v[0]);
      m.setFieldI16List((java.util.List) c.toRealList(v[1]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sample.messages.SubPacket m = (com.finproto.sample.messages.SubPacket) o_;
      Object[] v = new Object[2];
      v[0] = m.getFieldU32();
      v[1] = c.toModelList((java.util.List) m.getFieldI16List());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.SubPacket) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sample.messages.SubPacket) o_).decode(b); }
  }
}
