// Generated by tools/gen_bridge.py from spec/sse.layout
package vbridge;
import vsim.*;
import com.finproto.codec.BinaryCodec;
@SuppressWarnings({"unchecked","rawtypes"})
public final class B_sse {
  public static MsgBridge get(int i) {
    switch (i) {
      case 0: return new M_CancelReject();
      case 1: return new M_Confirm();
      case 2: return new M_ExecRptEndOfStream();
      case 3: return new M_ExecRptInfo();
      case 4: return new M_ExecRptSync();
      case 5: return new M_ExecRptSync_SubExecRptSync();
      case 6: return new M_ExecRptSyncRsp();
      case 7: return new M_ExecRptSyncRsp_SubExecRptSyncRsp();
      case 8: return new M_Heartbeat();
      case 9: return new M_Logon();
      case 10: return new M_Logout();
      case 11: return new M_NewOrderSingle();
      case 12: return new M_OrderCancel();
      case 13: return new M_OrderReject();
      case 14: return new M_PlatformState();
      case 15: return new M_Report();
      case 16: return new M_SseBinary();
      default: throw new IllegalArgumentException();
    }
  }
  static final class M_CancelReject implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.CancelReject(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.CancelReject m = (com.finproto.sse.bin.messages.CancelReject) o_;
      m.setPbu((String) v[0]);
      m.setSetId((int) (Integer) v[1]);
      m.setReportIndex((long) (Long) v[2]);
      m.setBizId((int) (Integer) v[3]);
      m.setBizPbu((String) v[4]);
      m.setClOrdId((String) v[5]);
      m.setSecurityId((String) v[6]);
      m.setOrigClOrdId((String) v[7]);
      m.setBranchId((String) v[8]);
      m.setCxlRejReason((int) (Integer) v[9]);
      m.setTradeDate((int) (Integer) v[10]);
      m.setTransactTime((long) (Long) v[11]);
      m.setUserInfo((String) v[12]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.CancelReject m = (com.finproto.sse.bin.messages.CancelReject) o_;
      Object[] v = new Object[13];
      v[0] = m.getPbu();
      v[1] = m.getSetId();
      v[2] = m.getReportIndex();
      v[3] = m.getBizId();
      v[4] = m.getBizPbu();
      v[5] = m.getClOrdId();
      v[6] = m.getSecurityId();
      v[7] = m.getOrigClOrdId();
      v[8] = m.getBranchId();
      v[9] = m.getCxlRejReason();
      v[10] = m.getTradeDate();
      v[11] = m.getTransactTime();
      v[12] = m.getUserInfo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.CancelReject) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.CancelReject) o_).decode(b); }
  }
  static final class M_Confirm implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.Confirm(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.Confirm m = (com.finproto.sse.bin.messages.Confirm) o_;
      m.setPbu((String) v[0]);
      m.setSetId((int) (Integer) v[1]);
      m.setReportIndex((long) (Long) v[2]);
      m.setBizId((int) (Integer) v[3]);
      m.setExecType((String) v[4]);
      m.setBizPbu((String) v[5]);
      m.setClOrdId((String) v[6]);
      m.setSecurityId((String) v[7]);
      m.setAccount((String) v[8]);
      m.setOwnerType((byte) (Byte) v[9]);
      m.setSide((String) v[10]);
      m.setPrice((long) (Long) v[11]);
      m.setOrderQty((long) (Long) v[12]);
      m.setLeavesQty((long) (Long) v[13]);
      m.setCxlQty((long) (Long) v[14]);
      m.setOrdType((String) v[15]);
      m.setTimeInForce((String) v[16]);
      m.setOrdStatus((String) v[17]);
      m.setCreditTag((String) v[18]);
      m.setOrigClOrdId((String) v[19]);
      m.setClearingFirm((String) v[20]);
      m.setBranchId((String) v[21]);
      m.setOrdRejReason((int) (Integer) v[22]);
      m.setOrdCnfmId((String) v[23]);
      m.setOrigOrdCnfmId((String) v[24]);
      m.setTradeDate((int) (Integer) v[25]);
      m.setTransactTime((long) (Long) v[26]);
      m.setUserInfo((String) v[27]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.Confirm m = (com.finproto.sse.bin.messages.Confirm) o_;
      Object[] v = new Object[28];
      v[0] = m.getPbu();
      v[1] = m.getSetId();
      v[2] = m.getReportIndex();
      v[3] = m.getBizId();
      v[4] = m.getExecType();
      v[5] = m.getBizPbu();
      v[6] = m.getClOrdId();
      v[7] = m.getSecurityId();
      v[8] = m.getAccount();
      v[9] = m.getOwnerType();
      v[10] = m.getSide();
      v[11] = m.getPrice();
      v[12] = m.getOrderQty();
      v[13] = m.getLeavesQty();
      v[14] = m.getCxlQty();
      v[15] = m.getOrdType();
      v[16] = m.getTimeInForce();
      v[17] = m.getOrdStatus();
      v[18] = m.getCreditTag();
      v[19] = m.getOrigClOrdId();
      v[20] = m.getClearingFirm();
      v[21] = m.getBranchId();
      v[22] = m.getOrdRejReason();
      v[23] = m.getOrdCnfmId();
      v[24] = m.getOrigOrdCnfmId();
      v[25] = m.getTradeDate();
      v[26] = m.getTransactTime();
      v[27] = m.getUserInfo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.Confirm) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.Confirm) o_).decode(b); }
  }
  static final class M_ExecRptEndOfStream implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.ExecRptEndOfStream(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.ExecRptEndOfStream m = (com.finproto.sse.bin.messages.ExecRptEndOfStream) o_;
      m.setPbu((String) v[0]);
      m.setSetId((int) (Integer) v[1]);
      m.setEndReportIndex((long) (Long) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.ExecRptEndOfStream m = (com.finproto.sse.bin.messages.ExecRptEndOfStream) o_;
      Object[] v = new Object[3];
      v[0] = m.getPbu();
      v[1] = m.getSetId();
      v[2] = m.getEndReportIndex();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptEndOfStream) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptEndOfStream) o_).decode(b); }
  }
  static final class M_ExecRptInfo implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.ExecRptInfo(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.ExecRptInfo m = (com.finproto.sse.bin.messages.ExecRptInfo) o_;
      m.setPlatformId((short) (Short) v[0]);
      m.setPbu((java.util.List) c.toRealList(v[1]));
      m.setSetId((java.util.List) c.toRealList(v[2]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.ExecRptInfo m = (com.finproto.sse.bin.messages.ExecRptInfo) o_;
      Object[] v = new Object[3];
      v[0] = m.getPlatformId();
      v[1] = c.toModelList((java.util.List) m.getPbu());
      v[2] = c.toModelList((java.util.List) m.getSetId());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptInfo) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptInfo) o_).decode(b); }
  }
  static final class M_ExecRptSync implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.ExecRptSync(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.ExecRptSync m = (com.finproto.sse.bin.messages.ExecRptSync) o_;
      m.setSubExecRptSync((java.util.List) c.toRealList(v[0]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.ExecRptSync m = (com.finproto.sse.bin.messages.ExecRptSync) o_;
      Object[] v = new Object[1];
      v[0] = c.toModelList((java.util.List) m.getSubExecRptSync());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptSync) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptSync) o_).decode(b); }
  }
  static final class M_ExecRptSync_SubExecRptSync implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.ExecRptSync.SubExecRptSync(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.ExecRptSync.SubExecRptSync m = (com.finproto.sse.bin.messages.ExecRptSync.SubExecRptSync) o_;
      m.setPbu((String) v[0]);
      m.setSetId((int) (Integer) v[1]);
      m.setBeginReportIndex((long) (Long) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.ExecRptSync.SubExecRptSync m = (com.finproto.sse.bin.messages.ExecRptSync.SubExecRptSync) o_;
      Object[] v = new Object[3];
      v[0] = m.getPbu();
      v[1] = m.getSetId();
      v[2] = m.getBeginReportIndex();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptSync.SubExecRptSync) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptSync.SubExecRptSync) o_).decode(b); }
  }
  static final class M_ExecRptSyncRsp implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.ExecRptSyncRsp(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.ExecRptSyncRsp m = (com.finproto.sse.bin.messages.ExecRptSyncRsp) o_;
      m.setSubExecRptSyncRsp((java.util.List) c.toRealList(v[0]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.ExecRptSyncRsp m = (com.finproto.sse.bin.messages.ExecRptSyncRsp) o_;
      Object[] v = new Object[1];
      v[0] = c.toModelList((java.util.List) m.getSubExecRptSyncRsp());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptSyncRsp) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptSyncRsp) o_).decode(b); }
  }
  static final class M_ExecRptSyncRsp_SubExecRptSyncRsp implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.ExecRptSyncRsp.SubExecRptSyncRsp(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.ExecRptSyncRsp.SubExecRptSyncRsp m = (com.finproto.sse.bin.messages.ExecRptSyncRsp.SubExecRptSyncRsp) o_;
      m.setPbu((String) v[0]);
      m.setSetId((int) (Integer) v[1]);
      m.setBeginReportIndex((long) (Long) v[2]);
      m.setEndReportIndex((long) (Long) v[3]);
      m.setRejReason((int) (Integer) v[4]);
      m.setText((String) v[5]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.ExecRptSyncRsp.SubExecRptSyncRsp m = (com.finproto.sse.bin.messages.ExecRptSyncRsp.SubExecRptSyncRsp) o_;
      Object[] v = new Object[6];
      v[0] = m.getPbu();
      v[1] = m.getSetId();
      v[2] = m.getBeginReportIndex();
      v[3] = m.getEndReportIndex();
      v[4] = m.getRejReason();
      v[5] = m.getText();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptSyncRsp.SubExecRptSyncRsp) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.ExecRptSyncRsp.SubExecRptSyncRsp) o_).decode(b); }
  }
  static final class M_Heartbeat implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.Heartbeat(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.Heartbeat m = (com.finproto.sse.bin.messages.Heartbeat) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.Heartbeat m = (com.finproto.sse.bin.messages.Heartbeat) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.Heartbeat) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.Heartbeat) o_).decode(b); }
  }
  static final class M_Logon implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.Logon(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.Logon m = (com.finproto.sse.bin.messages.Logon) o_;
      m.setSenderCompId((String) v[0]);
      m.setTargetCompId((String) v[1]);
      m.setHeartBtInt((short) (Short) v[2]);
      m.setPrtclVersion((String) v[3]);
      m.setTradeDate((int) (Integer) v[4]);
      m.setQsize((int) (Integer) v[5]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.Logon m = (com.finproto.sse.bin.messages.Logon) o_;
      Object[] v = new Object[6];
      v[0] = m.getSenderCompId();
      v[1] = m.getTargetCompId();
      v[2] = m.getHeartBtInt();
      v[3] = m.getPrtclVersion();
      v[4] = m.getTradeDate();
      v[5] = m.getQsize();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.Logon) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.Logon) o_).decode(b); }
  }
  static final class M_Logout implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.Logout(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.Logout m = (com.finproto.sse.bin.messages.Logout) o_;
      m.setSessionStatus((int) (Integer) v[0]);
      m.setText((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.Logout m = (com.finproto.sse.bin.messages.Logout) o_;
      Object[] v = new Object[2];
      v[0] = m.getSessionStatus();
      v[1] = m.getText();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.Logout) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.Logout) o_).decode(b); }
  }
  static final class M_NewOrderSingle implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.NewOrderSingle(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.NewOrderSingle m = (com.finproto.sse.bin.messages.NewOrderSingle) o_;
      m.setBizId((int) (Integer) v[0]);
      m.setBizPbu((String) v[1]);
      m.setClOrdId((String) v[2]);
      m.setSecurityId((String) v[3]);
      m.setAccount((String) v[4]);
      m.setOwnerType((byte) (Byte) v[5]);
      m.setSide((String) v[6]);
      m.setPrice((long) (Long) v[7]);
      m.setOrderQty((long) (Long) v[8]);
      m.setOrdType((String) v[9]);
      m.setTimeInForce((String) v[10]);
      m.setTransactTime((long) (Long) v[11]);
      m.setCreditTag((String) v[12]);
      m.setClearingFirm((String) v[13]);
      m.setBranchId((String) v[14]);
      m.setUserInfo((String) v[15]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.NewOrderSingle m = (com.finproto.sse.bin.messages.NewOrderSingle) o_;
      Object[] v = new Object[16];
      v[0] = m.getBizId();
      v[1] = m.getBizPbu();
      v[2] = m.getClOrdId();
      v[3] = m.getSecurityId();
      v[4] = m.getAccount();
      v[5] = m.getOwnerType();
      v[6] = m.getSide();
      v[7] = m.getPrice();
      v[8] = m.getOrderQty();
      v[9] = m.getOrdType();
      v[10] = m.getTimeInForce();
      v[11] = m.getTransactTime();
      v[12] = m.getCreditTag();
      v[13] = m.getClearingFirm();
      v[14] = m.getBranchId();
      v[15] = m.getUserInfo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.NewOrderSingle) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.NewOrderSingle) o_).decode(b); }
  }
  static final class M_OrderCancel implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.OrderCancel(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.OrderCancel m = (com.finproto.sse.bin.messages.OrderCancel) o_;
      m.setBizId((int) (Integer) v[0]);
      m.setBizPbu((String) v[1]);
      m.setClOrdId((String) v[2]);
      m.setSecurityId((String) v[3]);
      m.setAccount((String) v[4]);
      m.setOwnerType((byte) (Byte) v[5]);
      m.setSide((String) v[6]);
      m.setOrigClOrdId((String) v[7]);
      m.setTransactTime((long) (Long) v[8]);
      m.setBranchId((String) v[9]);
      m.setUserInfo((String) v[10]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.OrderCancel m = (com.finproto.sse.bin.messages.OrderCancel) o_;
      Object[] v = new Object[11];
      v[0] = m.getBizId();
      v[1] = m.getBizPbu();
      v[2] = m.getClOrdId();
      v[3] = m.getSecurityId();
      v[4] = m.getAccount();
      v[5] = m.getOwnerType();
      v[6] = m.getSide();
      v[7] = m.getOrigClOrdId();
      v[8] = m.getTransactTime();
      v[9] = m.getBranchId();
      v[10] = m.getUserInfo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.OrderCancel) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.OrderCancel) o_).decode(b); }
  }
  static final class M_OrderReject implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.OrderReject(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.OrderReject m = (com.finproto.sse.bin.messages.OrderReject) o_;
      m.setBizId((int) (Integer) v[0]);
      m.setBizPbu((String) v[1]);
      m.setClOrdId((String) v[2]);
      m.setSecurityId((String) v[3]);
      m.setOrdRejReason((int) (Integer) v[4]);
      m.setTradeDate((int) (Integer) v[5]);
      m.setTransactTime((long) (Long) v[6]);
      m.setUserInfo((String) v[7]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.OrderReject m = (com.finproto.sse.bin.messages.OrderReject) o_;
      Object[] v = new Object[8];
      v[0] = m.getBizId();
      v[1] = m.getBizPbu();
      v[2] = m.getClOrdId();
      v[3] = m.getSecurityId();
      v[4] = m.getOrdRejReason();
      v[5] = m.getTradeDate();
      v[6] = m.getTransactTime();
      v[7] = m.getUserInfo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.OrderReject) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.OrderReject) o_).decode(b); }
  }
  static final class M_PlatformState implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.PlatformState(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.PlatformState m = (com.finproto.sse.bin.messages.PlatformState) o_;
      m.setPlatformId((short) (Short) v[0]);
      m.setPlatformState((short) (Short) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.PlatformState m = (com.finproto.sse.bin.messages.PlatformState) o_;
      Object[] v = new Object[2];
      v[0] = m.getPlatformId();
      v[1] = m.getPlatformState();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.PlatformState) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.PlatformState) o_).decode(b); }
  }
  static final class M_Report implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.Report(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.Report m = (com.finproto.sse.bin.messages.Report) o_;
      m.setPbu((String) v[0]);
      m.setSetId((int) (Integer) v[1]);
      m.setReportIndex((long) (Long) v[2]);
      m.setBizId((int) (Integer) v[3]);
      m.setExecType((String) v[4]);
      m.setBizPbu((String) v[5]);
      m.setClOrdId((String) v[6]);
      m.setSecurityId((String) v[7]);
      m.setAccount((String) v[8]);
      m.setOwnerType((byte) (Byte) v[9]);
      m.setOrderEntryTime((long) (Long) v[10]);
      m.setLastPx((long) (Long) v[11]);
      m.setLastQty((long) (Long) v[12]);
      m.setGrossTradeAmt((long) (Long) v[13]);
      m.setSide((String) v[14]);
      m.setOrderQty((long) (Long) v[15]);
      m.setLeavesQty((long) (Long) v[16]);
      m.setOrdStatus((String) v[17]);
      m.setCreditTag((String) v[18]);
      m.setClearingFirm((String) v[19]);
      m.setBranchId((String) v[20]);
      m.setTrdCnfmId((String) v[21]);
      m.setOrdCnfmId((String) v[22]);
      m.setTradeDate((int) (Integer) v[23]);
      m.setTransactTime((long) (Long) v[24]);
      m.setUserInfo((String) v[25]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.Report m = (com.finproto.sse.bin.messages.Report) o_;
      Object[] v = new Object[26];
      v[0] = m.getPbu();
      v[1] = m.getSetId();
      v[2] = m.getReportIndex();
      v[3] = m.getBizId();
      v[4] = m.getExecType();
      v[5] = m.getBizPbu();
      v[6] = m.getClOrdId();
      v[7] = m.getSecurityId();
      v[8] = m.getAccount();
      v[9] = m.getOwnerType();
      v[10] = m.getOrderEntryTime();
      v[11] = m.getLastPx();
      v[12] = m.getLastQty();
      v[13] = m.getGrossTradeAmt();
      v[14] = m.getSide();
      v[15] = m.getOrderQty();
      v[16] = m.getLeavesQty();
      v[17] = m.getOrdStatus();
      v[18] = m.getCreditTag();
      v[19] = m.getClearingFirm();
      v[20] = m.getBranchId();
      v[21] = m.getTrdCnfmId();
      v[22] = m.getOrdCnfmId();
      v[23] = m.getTradeDate();
      v[24] = m.getTransactTime();
      v[25] = m.getUserInfo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.Report) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.Report) o_).decode(b); }
  }
  static final class M_SseBinary implements MsgBridge {
    public Object fresh() { return new com.finproto.sse.bin.messages.SseBinary(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.sse.bin.messages.SseBinary m = (com.finproto.sse.bin.messages.SseBinary) o_;
      m.setMsgType((int) (Integer) v[0]);
      m.setMsgSeqNum((long) (Long) v[1]);
      m.setMsgBodyLen((int) (Integer) v[2]);
      m.setBody((BinaryCodec) c.toReal(v[3]));
      m.setChecksum((int) (Integer) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.sse.bin.messages.SseBinary m = (com.finproto.sse.bin.messages.SseBinary) o_;
      Object[] v = new Object[5];
      v[0] = m.getMsgType();
      v[1] = m.getMsgSeqNum();
      v[2] = m.getMsgBodyLen();
      v[3] = c.toModel(m.getBody());
      v[4] = m.getChecksum();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.SseBinary) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.sse.bin.messages.SseBinary) o_).decode(b); }
  }
}
