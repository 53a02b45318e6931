// Generated by tools/gen_bridge.py from spec/risk.layout
package vbridge;
import vsim.*;
import com.finproto.codec.BinaryCodec;
@SuppressWarnings({"unchecked","rawtypes"})
public final class B_risk {
  public static MsgBridge get(int i) {
    switch (i) {
      case 0: return new M_CancelReject();
      case 1: return new M_ExecutionReport();
      case 2: return new M_NewOrder();
      case 3: return new M_OrderCancel();
      case 4: return new M_OrderConfirm();
      case 5: return new M_RcBinary();
      case 6: return new M_RiskResult();
      default: throw new IllegalArgumentException();
    }
  }
  static final class M_CancelReject implements MsgBridge {
    public Object fresh() { return new com.finproto.risk.bin.messages.CancelReject(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.risk.bin.messages.CancelReject m = (com.finproto.risk.bin.messages.CancelReject) o_;
      m.setUniqueOrderId((String) v[0]);
      m.setUniqueOrigOrderId((String) v[1]);
      m.setClOrdId((String) v[2]);
      m.setOrigClOrdId((String) v[3]);
      m.setCxlRejReason((int) (Integer) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.risk.bin.messages.CancelReject m = (com.finproto.risk.bin.messages.CancelReject) o_;
      Object[] v = new Object[5];
      v[0] = m.getUniqueOrderId();
      v[1] = m.getUniqueOrigOrderId();
      v[2] = m.getClOrdId();
      v[3] = m.getOrigClOrdId();
      v[4] = m.getCxlRejReason();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.CancelReject) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.CancelReject) o_).decode(b); }
  }
  static final class M_ExecutionReport implements MsgBridge {
    public Object fresh() { return new com.finproto.risk.bin.messages.ExecutionReport(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.risk.bin.messages.ExecutionReport m = (com.finproto.risk.bin.messages.ExecutionReport) o_;
      m.setUniqueOrderId((String) v[0]);
      m.setClOrdId((String) v[1]);
      m.setOrdCnfmId((String) v[2]);
      m.setLastPx((long) (Long) v[3]);
      m.setLastQty((long) (Long) v[4]);
      m.setOrdStatus((String) v[5]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.risk.bin.messages.ExecutionReport m = (com.finproto.risk.bin.messages.ExecutionReport) o_;
      Object[] v = new Object[6];
      v[0] = m.getUniqueOrderId();
      v[1] = m.getClOrdId();
      v[2] = m.getOrdCnfmId();
      v[3] = m.getLastPx();
      v[4] = m.getLastQty();
      v[5] = m.getOrdStatus();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.ExecutionReport) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.ExecutionReport) o_).decode(b); }
  }
  static final class M_NewOrder implements MsgBridge {
    public Object fresh() { return new com.finproto.risk.bin.messages.NewOrder(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.risk.bin.messages.NewOrder m = (com.finproto.risk.bin.messages.NewOrder) o_;
      m.setUniqueOrderId((String) v[0]);
      m.setClOrdId((String) v[1]);
      m.setSecurityId((String) v[2]);
      m.setSide((String) v[3]);
      m.setPrice((long) (Long) v[4]);
      m.setOrderQty((long) (Long) v[5]);
      m.setOrdType((String) v[6]);
      m.setAccount((String) v[7]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.risk.bin.messages.NewOrder m = (com.finproto.risk.bin.messages.NewOrder) o_;
      Object[] v = new Object[8];
      v[0] = m.getUniqueOrderId();
      v[1] = m.getClOrdId();
      v[2] = m.getSecurityId();
      v[3] = m.getSide();
      v[4] = m.getPrice();
      v[5] = m.getOrderQty();
      v[6] = m.getOrdType();
      v[7] = m.getAccount();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.NewOrder) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.NewOrder) o_).decode(b); }
  }
  static final class M_OrderCancel implements MsgBridge {
    public Object fresh() { return new com.finproto.risk.bin.messages.OrderCancel(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.risk.bin.messages.OrderCancel m = (com.finproto.risk.bin.messages.OrderCancel) o_;
      m.setUniqueOrderId((String) v[0]);
      m.setUniqueOrigOrderId((String) v[1]);
      m.setClOrdId((String) v[2]);
      m.setOrigClOrdId((String) v[3]);
      m.setSecurityId((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.risk.bin.messages.OrderCancel m = (com.finproto.risk.bin.messages.OrderCancel) o_;
      Object[] v = new Object[5];
      v[0] = m.getUniqueOrderId();
      v[1] = m.getUniqueOrigOrderId();
      v[2] = m.getClOrdId();
      v[3] = m.getOrigClOrdId();
      v[4] = m.getSecurityId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.OrderCancel) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.OrderCancel) o_).decode(b); }
  }
  static final class M_OrderConfirm implements MsgBridge {
    public Object fresh() { return new com.finproto.risk.bin.messages.OrderConfirm(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.risk.bin.messages.OrderConfirm m = (com.finproto.risk.bin.messages.OrderConfirm) o_;
      m.setUniqueOrderId((String) v[0]);
      m.setUniqueOrigOrderId((String) v[1]);
      m.setClOrdId((String) v[2]);
      m.setExecType((String) v[3]);
      m.setOrdRejReason((int) (Integer) v[4]);
      m.setOrdCnfmId((String) v[5]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.risk.bin.messages.OrderConfirm m = (com.finproto.risk.bin.messages.OrderConfirm) o_;
      Object[] v = new Object[6];
      v[0] = m.getUniqueOrderId();
      v[1] = m.getUniqueOrigOrderId();
      v[2] = m.getClOrdId();
      v[3] = m.getExecType();
      v[4] = m.getOrdRejReason();
      v[5] = m.getOrdCnfmId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.OrderConfirm) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.OrderConfirm) o_).decode(b); }
  }
  static final class M_RcBinary implements MsgBridge {
    public Object fresh() { return new com.finproto.risk.bin.messages.RcBinary(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.risk.bin.messages.RcBinary m = (com.finproto.risk.bin.messages.RcBinary) o_;
      m.setMsgType((int) (Integer) v[0]);
      m.setVersion((int) (Integer) v[1]);
      m.setMsgBodyLen((int) (Integer) v[2]);
      m.setBody((BinaryCodec) c.toReal(v[3]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.risk.bin.messages.RcBinary m = (com.finproto.risk.bin.messages.RcBinary) o_;
      Object[] v = new Object[4];
      v[0] = m.getMsgType();
      v[1] = m.getVersion();
      v[2] = m.getMsgBodyLen();
      v[3] = c.toModel(m.getBody());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.RcBinary) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.RcBinary) o_).decode(b); }
  }
  static final class M_RiskResult implements MsgBridge {
    public Object fresh() { return new com.finproto.risk.bin.messages.RiskResult(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.risk.bin.messages.RiskResult m = (com.finproto.risk.bin.messages.RiskResult) o_;
      m.setUniqueOrderId((String) v[0]);
      m.setRiskStatus((byte) (Byte) v[1]);
      m.setRiskReason((String) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.risk.bin.messages.RiskResult m = (com.finproto.risk.bin.messages.RiskResult) o_;
      Object[] v = new Object[3];
      v[0] = m.getUniqueOrderId();
      v[1] = m.getRiskStatus();
      v[2] = m.getRiskReason();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.RiskResult) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.risk.bin.messages.RiskResult) o_).decode(b); }
  }
}
