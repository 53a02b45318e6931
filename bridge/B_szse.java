// Generated by tools/gen_bridge.py from spec/szse.layout
package vbridge;
import vsim.*;
import com.finproto.codec.BinaryCodec;
@SuppressWarnings({"unchecked","rawtypes"})
public final class B_szse {
  public static MsgBridge get(int i) {
    switch (i) {
      case 0: return new M_BusinessReject();
      case 1: return new M_CancelReject();
      case 2: return new M_ExecutionConfirm();
      case 3: return new M_ExecutionReport();
      case 4: return new M_Extend100101();
      case 5: return new M_Extend100201();
      case 6: return new M_Extend100301();
      case 7: return new M_Extend100501();
      case 8: return new M_Extend100601();
      case 9: return new M_Extend100701();
      case 10: return new M_Extend101401();
      case 11: return new M_Extend101501();
      case 12: return new M_Extend101601();
      case 13: return new M_Extend101701();
      case 14: return new M_Extend101801();
      case 15: return new M_Extend102701();
      case 16: return new M_Extend102801();
      case 17: return new M_Extend102901();
      case 18: return new M_Extend103501();
      case 19: return new M_Extend103701();
      case 20: return new M_Extend104101();
      case 21: return new M_Extend104128();
      case 22: return new M_Extend104701();
      case 23: return new M_Extend106301();
      case 24: return new M_Extend200102();
      case 25: return new M_Extend200115();
      case 26: return new M_Extend200202();
      case 27: return new M_Extend200215();
      case 28: return new M_Extend200302();
      case 29: return new M_Extend200315();
      case 30: return new M_Extend200402();
      case 31: return new M_Extend200415();
      case 32: return new M_Extend200502();
      case 33: return new M_Extend200515();
      case 34: return new M_Extend200602();
      case 35: return new M_Extend200615();
      case 36: return new M_Extend200702();
      case 37: return new M_Extend200715();
      case 38: return new M_Extend201202();
      case 39: return new M_Extend201502();
      case 40: return new M_Extend201602();
      case 41: return new M_Extend201702();
      case 42: return new M_Extend201802();
      case 43: return new M_Extend202702();
      case 44: return new M_Extend202802();
      case 45: return new M_Extend202902();
      case 46: return new M_Extend203102();
      case 47: return new M_Extend203502();
      case 48: return new M_Extend203702();
      case 49: return new M_Extend203715();
      case 50: return new M_Extend204102();
      case 51: return new M_Extend204115();
      case 52: return new M_Extend204129();
      case 53: return new M_Extend204130();
      case 54: return new M_Extend204702();
      case 55: return new M_Extend204715();
      case 56: return new M_Extend206302();
      case 57: return new M_Extend206315();
      case 58: return new M_Heartbeat();
      case 59: return new M_Logon();
      case 60: return new M_Logout();
      case 61: return new M_NewOrder();
      case 62: return new M_OrderCancelRequest();
      case 63: return new M_PartitionReport();
      case 64: return new M_PlatformInfo();
      case 65: return new M_PlatformPartition();
      case 66: return new M_PlatformStateInfo();
      case 67: return new M_ReportFinished();
      case 68: return new M_ReportSynchronization();
      case 69: return new M_SzseBinary();
      case 70: return new M_TradingSessionStatus();
      default: throw new IllegalArgumentException();
    }
  }
  static final class M_BusinessReject implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.BusinessReject(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.BusinessReject m = (com.finproto.szse.bin.messages.BusinessReject) o_;
      m.setApplId((String) v[0]);
      m.setTransactTime((long) (Long) v[1]);
      m.setSubmittingPbuid((String) v[2]);
      m.setSecurityId((String) v[3]);
      m.setSecurityIdsource((String) v[4]);
      m.setRefSeqNum((long) (Long) v[5]);
      m.setRefMsgType((int) (Integer) v[6]);
      m.setBusinessRejectRefId((String) v[7]);
      m.setBusinessRejectReason((short) (Short) v[8]);
      m.setBusinessRejectText((String) v[9]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.BusinessReject m = (com.finproto.szse.bin.messages.BusinessReject) o_;
      Object[] v = new Object[10];
      v[0] = m.getApplId();
      v[1] = m.getTransactTime();
      v[2] = m.getSubmittingPbuid();
      v[3] = m.getSecurityId();
      v[4] = m.getSecurityIdsource();
      v[5] = m.getRefSeqNum();
      v[6] = m.getRefMsgType();
      v[7] = m.getBusinessRejectRefId();
      v[8] = m.getBusinessRejectReason();
      v[9] = m.getBusinessRejectText();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.BusinessReject) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.BusinessReject) o_).decode(b); }
  }
  static final class M_CancelReject implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.CancelReject(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.CancelReject m = (com.finproto.szse.bin.messages.CancelReject) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setClOrdId((String) v[11]);
      m.setOrigClOrdId((String) v[12]);
      m.setSide((String) v[13]);
      m.setOrdStatus((String) v[14]);
      m.setCxlRejReason((short) (Short) v[15]);
      m.setRejectText((String) v[16]);
      m.setOrderId((String) v[17]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.CancelReject m = (com.finproto.szse.bin.messages.CancelReject) o_;
      Object[] v = new Object[18];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getClOrdId();
      v[12] = m.getOrigClOrdId();
      v[13] = m.getSide();
      v[14] = m.getOrdStatus();
      v[15] = m.getCxlRejReason();
      v[16] = m.getRejectText();
      v[17] = m.getOrderId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.CancelReject) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.CancelReject) o_).decode(b); }
  }
  static final class M_ExecutionConfirm implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.ExecutionConfirm(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.ExecutionConfirm m = (com.finproto.szse.bin.messages.ExecutionConfirm) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setOrderId((String) v[11]);
      m.setClOrdId((String) v[12]);
      m.setQuoteMsgId((String) v[13]);
      m.setOrigClOrdId((String) v[14]);
      m.setExecId((String) v[15]);
      m.setExecType((String) v[16]);
      m.setOrdStatus((String) v[17]);
      m.setOrdRejReason((short) (Short) v[18]);
      m.setLeavesQty((long) (Long) v[19]);
      m.setCumQty((long) (Long) v[20]);
      m.setSide((String) v[21]);
      m.setOrdType((String) v[22]);
      m.setOrderQty((long) (Long) v[23]);
      m.setPrice((long) (Long) v[24]);
      m.setAccountId((String) v[25]);
      m.setBranchId((String) v[26]);
      m.setOrderRestrictions((String) v[27]);
      m.setApplExtend((BinaryCodec) c.toReal(v[28]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.ExecutionConfirm m = (com.finproto.szse.bin.messages.ExecutionConfirm) o_;
      Object[] v = new Object[29];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getOrderId();
      v[12] = m.getClOrdId();
      v[13] = m.getQuoteMsgId();
      v[14] = m.getOrigClOrdId();
      v[15] = m.getExecId();
      v[16] = m.getExecType();
      v[17] = m.getOrdStatus();
      v[18] = m.getOrdRejReason();
      v[19] = m.getLeavesQty();
      v[20] = m.getCumQty();
      v[21] = m.getSide();
      v[22] = m.getOrdType();
      v[23] = m.getOrderQty();
      v[24] = m.getPrice();
      v[25] = m.getAccountId();
      v[26] = m.getBranchId();
      v[27] = m.getOrderRestrictions();
      v[28] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.ExecutionConfirm) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.ExecutionConfirm) o_).decode(b); }
  }
  static final class M_ExecutionReport implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.ExecutionReport(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.ExecutionReport m = (com.finproto.szse.bin.messages.ExecutionReport) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setOrderId((String) v[11]);
      m.setClOrdId((String) v[12]);
      m.setQuoteMsgId((String) v[13]);
      m.setExecId((String) v[14]);
      m.setExecType((String) v[15]);
      m.setOrdStatus((String) v[16]);
      m.setLastPx((long) (Long) v[17]);
      m.setLastQty((long) (Long) v[18]);
      m.setLeavesQty((long) (Long) v[19]);
      m.setCumQty((long) (Long) v[20]);
      m.setSide((String) v[21]);
      m.setAccountId((String) v[22]);
      m.setBranchId((String) v[23]);
      m.setApplExtend((BinaryCodec) c.toReal(v[24]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.ExecutionReport m = (com.finproto.szse.bin.messages.ExecutionReport) o_;
      Object[] v = new Object[25];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getOrderId();
      v[12] = m.getClOrdId();
      v[13] = m.getQuoteMsgId();
      v[14] = m.getExecId();
      v[15] = m.getExecType();
      v[16] = m.getOrdStatus();
      v[17] = m.getLastPx();
      v[18] = m.getLastQty();
      v[19] = m.getLeavesQty();
      v[20] = m.getCumQty();
      v[21] = m.getSide();
      v[22] = m.getAccountId();
      v[23] = m.getBranchId();
      v[24] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.ExecutionReport) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.ExecutionReport) o_).decode(b); }
  }
  static final class M_Extend100101 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend100101(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend100101 m = (com.finproto.szse.bin.messages.Extend100101) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setCashMargin((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend100101 m = (com.finproto.szse.bin.messages.Extend100101) o_;
      Object[] v = new Object[5];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100101) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100101) o_).decode(b); }
  }
  static final class M_Extend100201 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend100201(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend100201 m = (com.finproto.szse.bin.messages.Extend100201) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend100201 m = (com.finproto.szse.bin.messages.Extend100201) o_;
      Object[] v = new Object[4];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100201) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100201) o_).decode(b); }
  }
  static final class M_Extend100301 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend100301(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend100301 m = (com.finproto.szse.bin.messages.Extend100301) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend100301 m = (com.finproto.szse.bin.messages.Extend100301) o_;
      Object[] v = new Object[4];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100301) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100301) o_).decode(b); }
  }
  static final class M_Extend100501 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend100501(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend100501 m = (com.finproto.szse.bin.messages.Extend100501) o_;
      m.setConfirmId((String) v[0]);
      m.setCashMargin((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend100501 m = (com.finproto.szse.bin.messages.Extend100501) o_;
      Object[] v = new Object[2];
      v[0] = m.getConfirmId();
      v[1] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100501) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100501) o_).decode(b); }
  }
  static final class M_Extend100601 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend100601(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend100601 m = (com.finproto.szse.bin.messages.Extend100601) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend100601 m = (com.finproto.szse.bin.messages.Extend100601) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100601) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100601) o_).decode(b); }
  }
  static final class M_Extend100701 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend100701(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend100701 m = (com.finproto.szse.bin.messages.Extend100701) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setShareProperty((String) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend100701 m = (com.finproto.szse.bin.messages.Extend100701) o_;
      Object[] v = new Object[3];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100701) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend100701) o_).decode(b); }
  }
  static final class M_Extend101401 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend101401(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend101401 m = (com.finproto.szse.bin.messages.Extend101401) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setPositionEffect((String) v[4]);
      m.setCoveredOrUncovered((byte) (Byte) v[5]);
      m.setContractAccountCode((String) v[6]);
      m.setSecondaryOrderId((String) v[7]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend101401 m = (com.finproto.szse.bin.messages.Extend101401) o_;
      Object[] v = new Object[8];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getPositionEffect();
      v[5] = m.getCoveredOrUncovered();
      v[6] = m.getContractAccountCode();
      v[7] = m.getSecondaryOrderId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend101401) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend101401) o_).decode(b); }
  }
  static final class M_Extend101501 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend101501(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend101501 m = (com.finproto.szse.bin.messages.Extend101501) o_;
      m.setShareProperty((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend101501 m = (com.finproto.szse.bin.messages.Extend101501) o_;
      Object[] v = new Object[1];
      v[0] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend101501) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend101501) o_).decode(b); }
  }
  static final class M_Extend101601 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend101601(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend101601 m = (com.finproto.szse.bin.messages.Extend101601) o_;
      m.setContractAccountCode((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend101601 m = (com.finproto.szse.bin.messages.Extend101601) o_;
      Object[] v = new Object[1];
      v[0] = m.getContractAccountCode();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend101601) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend101601) o_).decode(b); }
  }
  static final class M_Extend101701 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend101701(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend101701 m = (com.finproto.szse.bin.messages.Extend101701) o_;
      m.setCashOrderQty((long) (Long) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend101701 m = (com.finproto.szse.bin.messages.Extend101701) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashOrderQty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend101701) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend101701) o_).decode(b); }
  }
  static final class M_Extend101801 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend101801(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend101801 m = (com.finproto.szse.bin.messages.Extend101801) o_;
      m.setTenderer((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend101801 m = (com.finproto.szse.bin.messages.Extend101801) o_;
      Object[] v = new Object[1];
      v[0] = m.getTenderer();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend101801) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend101801) o_).decode(b); }
  }
  static final class M_Extend102701 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend102701(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend102701 m = (com.finproto.szse.bin.messages.Extend102701) o_;
      m.setDisposalPbu((String) v[0]);
      m.setDisposalAccountId((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend102701 m = (com.finproto.szse.bin.messages.Extend102701) o_;
      Object[] v = new Object[2];
      v[0] = m.getDisposalPbu();
      v[1] = m.getDisposalAccountId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend102701) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend102701) o_).decode(b); }
  }
  static final class M_Extend102801 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend102801(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend102801 m = (com.finproto.szse.bin.messages.Extend102801) o_;
      m.setLenderPbu((String) v[0]);
      m.setLenderAccountId((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend102801 m = (com.finproto.szse.bin.messages.Extend102801) o_;
      Object[] v = new Object[2];
      v[0] = m.getLenderPbu();
      v[1] = m.getLenderAccountId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend102801) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend102801) o_).decode(b); }
  }
  static final class M_Extend102901 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend102901(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend102901 m = (com.finproto.szse.bin.messages.Extend102901) o_;
      m.setDeductionPbu((String) v[0]);
      m.setDeductionAccountId((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend102901 m = (com.finproto.szse.bin.messages.Extend102901) o_;
      Object[] v = new Object[2];
      v[0] = m.getDeductionPbu();
      v[1] = m.getDeductionAccountId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend102901) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend102901) o_).decode(b); }
  }
  static final class M_Extend103501 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend103501(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend103501 m = (com.finproto.szse.bin.messages.Extend103501) o_;
      m.setContractAccountCode((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend103501 m = (com.finproto.szse.bin.messages.Extend103501) o_;
      Object[] v = new Object[1];
      v[0] = m.getContractAccountCode();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend103501) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend103501) o_).decode(b); }
  }
  static final class M_Extend103701 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend103701(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend103701 m = (com.finproto.szse.bin.messages.Extend103701) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend103701 m = (com.finproto.szse.bin.messages.Extend103701) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend103701) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend103701) o_).decode(b); }
  }
  static final class M_Extend104101 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend104101(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend104101 m = (com.finproto.szse.bin.messages.Extend104101) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setCashMargin((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend104101 m = (com.finproto.szse.bin.messages.Extend104101) o_;
      Object[] v = new Object[5];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend104101) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend104101) o_).decode(b); }
  }
  static final class M_Extend104128 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend104128(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend104128 m = (com.finproto.szse.bin.messages.Extend104128) o_;
      m.setMemberId((String) v[0]);
      m.setInvestorType((String) v[1]);
      m.setInvestorId((String) v[2]);
      m.setInvestorName((String) v[3]);
      m.setTraderCode((String) v[4]);
      m.setSecondaryOrderId((String) v[5]);
      m.setBidTransType((short) (Short) v[6]);
      m.setBidExecInstType((short) (Short) v[7]);
      m.setLowLimitPrice((long) (Long) v[8]);
      m.setHighLimitPrice((long) (Long) v[9]);
      m.setMinQty((long) (Long) v[10]);
      m.setTradeDate((int) (Integer) v[11]);
      m.setSettlType((short) (Short) v[12]);
      m.setSettlPeriod((byte) (Byte) v[13]);
      m.setPreTradeAnonymity((byte) (Byte) v[14]);
      m.setCashMargin((String) v[15]);
      m.setMemo((String) v[16]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend104128 m = (com.finproto.szse.bin.messages.Extend104128) o_;
      Object[] v = new Object[17];
      v[0] = m.getMemberId();
      v[1] = m.getInvestorType();
      v[2] = m.getInvestorId();
      v[3] = m.getInvestorName();
      v[4] = m.getTraderCode();
      v[5] = m.getSecondaryOrderId();
      v[6] = m.getBidTransType();
      v[7] = m.getBidExecInstType();
      v[8] = m.getLowLimitPrice();
      v[9] = m.getHighLimitPrice();
      v[10] = m.getMinQty();
      v[11] = m.getTradeDate();
      v[12] = m.getSettlType();
      v[13] = m.getSettlPeriod();
      v[14] = m.getPreTradeAnonymity();
      v[15] = m.getCashMargin();
      v[16] = m.getMemo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend104128) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend104128) o_).decode(b); }
  }
  static final class M_Extend104701 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend104701(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend104701 m = (com.finproto.szse.bin.messages.Extend104701) o_;
      m.setSecondaryOrderId((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend104701 m = (com.finproto.szse.bin.messages.Extend104701) o_;
      Object[] v = new Object[1];
      v[0] = m.getSecondaryOrderId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend104701) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend104701) o_).decode(b); }
  }
  static final class M_Extend106301 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend106301(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend106301 m = (com.finproto.szse.bin.messages.Extend106301) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setLotType((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend106301 m = (com.finproto.szse.bin.messages.Extend106301) o_;
      Object[] v = new Object[5];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getLotType();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend106301) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend106301) o_).decode(b); }
  }
  static final class M_Extend200102 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200102(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200102 m = (com.finproto.szse.bin.messages.Extend200102) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setCashMargin((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200102 m = (com.finproto.szse.bin.messages.Extend200102) o_;
      Object[] v = new Object[5];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200102) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200102) o_).decode(b); }
  }
  static final class M_Extend200115 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200115(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200115 m = (com.finproto.szse.bin.messages.Extend200115) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200115 m = (com.finproto.szse.bin.messages.Extend200115) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200115) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200115) o_).decode(b); }
  }
  static final class M_Extend200202 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200202(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200202 m = (com.finproto.szse.bin.messages.Extend200202) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200202 m = (com.finproto.szse.bin.messages.Extend200202) o_;
      Object[] v = new Object[4];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200202) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200202) o_).decode(b); }
  }
  static final class M_Extend200215 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200215(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200215 m = (com.finproto.szse.bin.messages.Extend200215) o_;
      m.setMaturityDate((int) (Integer) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200215 m = (com.finproto.szse.bin.messages.Extend200215) o_;
      Object[] v = new Object[1];
      v[0] = m.getMaturityDate();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200215) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200215) o_).decode(b); }
  }
  static final class M_Extend200302 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200302(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200302 m = (com.finproto.szse.bin.messages.Extend200302) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200302 m = (com.finproto.szse.bin.messages.Extend200302) o_;
      Object[] v = new Object[4];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200302) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200302) o_).decode(b); }
  }
  static final class M_Extend200315 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200315(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200315 m = (com.finproto.szse.bin.messages.Extend200315) o_;
      m.setMaturityDate((int) (Integer) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200315 m = (com.finproto.szse.bin.messages.Extend200315) o_;
      Object[] v = new Object[1];
      v[0] = m.getMaturityDate();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200315) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200315) o_).decode(b); }
  }
  static final class M_Extend200402 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200402(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200402 m = (com.finproto.szse.bin.messages.Extend200402) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setPositionEffect((String) v[4]);
      m.setCoveredOrUncovered((byte) (Byte) v[5]);
      m.setContractAccountCode((String) v[6]);
      m.setSecondaryOrderId((String) v[7]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200402 m = (com.finproto.szse.bin.messages.Extend200402) o_;
      Object[] v = new Object[8];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getPositionEffect();
      v[5] = m.getCoveredOrUncovered();
      v[6] = m.getContractAccountCode();
      v[7] = m.getSecondaryOrderId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200402) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200402) o_).decode(b); }
  }
  static final class M_Extend200415 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200415(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200415 m = (com.finproto.szse.bin.messages.Extend200415) o_;
      m.setPositionEffect((String) v[0]);
      m.setCoveredOrUncovered((byte) (Byte) v[1]);
      m.setContractAccountCode((String) v[2]);
      m.setSecondaryOrderId((String) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200415 m = (com.finproto.szse.bin.messages.Extend200415) o_;
      Object[] v = new Object[4];
      v[0] = m.getPositionEffect();
      v[1] = m.getCoveredOrUncovered();
      v[2] = m.getContractAccountCode();
      v[3] = m.getSecondaryOrderId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200415) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200415) o_).decode(b); }
  }
  static final class M_Extend200502 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200502(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200502 m = (com.finproto.szse.bin.messages.Extend200502) o_;
      m.setConfirmId((String) v[0]);
      m.setCashMargin((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200502 m = (com.finproto.szse.bin.messages.Extend200502) o_;
      Object[] v = new Object[2];
      v[0] = m.getConfirmId();
      v[1] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200502) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200502) o_).decode(b); }
  }
  static final class M_Extend200515 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200515(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200515 m = (com.finproto.szse.bin.messages.Extend200515) o_;
      m.setConfirmId((String) v[0]);
      m.setCashMargin((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200515 m = (com.finproto.szse.bin.messages.Extend200515) o_;
      Object[] v = new Object[2];
      v[0] = m.getConfirmId();
      v[1] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200515) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200515) o_).decode(b); }
  }
  static final class M_Extend200602 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200602(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200602 m = (com.finproto.szse.bin.messages.Extend200602) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200602 m = (com.finproto.szse.bin.messages.Extend200602) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200602) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200602) o_).decode(b); }
  }
  static final class M_Extend200615 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200615(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200615 m = (com.finproto.szse.bin.messages.Extend200615) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200615 m = (com.finproto.szse.bin.messages.Extend200615) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200615) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200615) o_).decode(b); }
  }
  static final class M_Extend200702 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200702(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200702 m = (com.finproto.szse.bin.messages.Extend200702) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setShareProperty((String) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200702 m = (com.finproto.szse.bin.messages.Extend200702) o_;
      Object[] v = new Object[3];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200702) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200702) o_).decode(b); }
  }
  static final class M_Extend200715 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend200715(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend200715 m = (com.finproto.szse.bin.messages.Extend200715) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setMaturityDate((int) (Integer) v[2]);
      m.setShareProperty((String) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend200715 m = (com.finproto.szse.bin.messages.Extend200715) o_;
      Object[] v = new Object[4];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getMaturityDate();
      v[3] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200715) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend200715) o_).decode(b); }
  }
  static final class M_Extend201202 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend201202(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend201202 m = (com.finproto.szse.bin.messages.Extend201202) o_;
      m.setInsufficientSecurityId((String) v[0]);
      m.setNoSecurity((int) (Integer) v[1]);
      m.setUnderlyingSecurityId((String) v[2]);
      m.setUnderlyingSecurityIdsource((String) v[3]);
      m.setDeliveryQty((long) (Long) v[4]);
      m.setSubstCash((long) (Long) v[5]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend201202 m = (com.finproto.szse.bin.messages.Extend201202) o_;
      Object[] v = new Object[6];
      v[0] = m.getInsufficientSecurityId();
      v[1] = m.getNoSecurity();
      v[2] = m.getUnderlyingSecurityId();
      v[3] = m.getUnderlyingSecurityIdsource();
      v[4] = m.getDeliveryQty();
      v[5] = m.getSubstCash();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend201202) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend201202) o_).decode(b); }
  }
  static final class M_Extend201502 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend201502(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend201502 m = (com.finproto.szse.bin.messages.Extend201502) o_;
      m.setShareProperty((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend201502 m = (com.finproto.szse.bin.messages.Extend201502) o_;
      Object[] v = new Object[1];
      v[0] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend201502) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend201502) o_).decode(b); }
  }
  static final class M_Extend201602 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend201602(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend201602 m = (com.finproto.szse.bin.messages.Extend201602) o_;
      m.setContractAccountCode((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend201602 m = (com.finproto.szse.bin.messages.Extend201602) o_;
      Object[] v = new Object[1];
      v[0] = m.getContractAccountCode();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend201602) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend201602) o_).decode(b); }
  }
  static final class M_Extend201702 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend201702(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend201702 m = (com.finproto.szse.bin.messages.Extend201702) o_;
      m.setCashOrderQty((long) (Long) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend201702 m = (com.finproto.szse.bin.messages.Extend201702) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashOrderQty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend201702) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend201702) o_).decode(b); }
  }
  static final class M_Extend201802 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend201802(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend201802 m = (com.finproto.szse.bin.messages.Extend201802) o_;
      m.setTenderer((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend201802 m = (com.finproto.szse.bin.messages.Extend201802) o_;
      Object[] v = new Object[1];
      v[0] = m.getTenderer();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend201802) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend201802) o_).decode(b); }
  }
  static final class M_Extend202702 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend202702(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend202702 m = (com.finproto.szse.bin.messages.Extend202702) o_;
      m.setDisposalPbu((String) v[0]);
      m.setDisposalAccountId((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend202702 m = (com.finproto.szse.bin.messages.Extend202702) o_;
      Object[] v = new Object[2];
      v[0] = m.getDisposalPbu();
      v[1] = m.getDisposalAccountId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend202702) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend202702) o_).decode(b); }
  }
  static final class M_Extend202802 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend202802(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend202802 m = (com.finproto.szse.bin.messages.Extend202802) o_;
      m.setLenderPbu((String) v[0]);
      m.setLenderAccountId((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend202802 m = (com.finproto.szse.bin.messages.Extend202802) o_;
      Object[] v = new Object[2];
      v[0] = m.getLenderPbu();
      v[1] = m.getLenderAccountId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend202802) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend202802) o_).decode(b); }
  }
  static final class M_Extend202902 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend202902(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend202902 m = (com.finproto.szse.bin.messages.Extend202902) o_;
      m.setDeductionPbu((String) v[0]);
      m.setDeductionAccountId((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend202902 m = (com.finproto.szse.bin.messages.Extend202902) o_;
      Object[] v = new Object[2];
      v[0] = m.getDeductionPbu();
      v[1] = m.getDeductionAccountId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend202902) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend202902) o_).decode(b); }
  }
  static final class M_Extend203102 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend203102(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend203102 m = (com.finproto.szse.bin.messages.Extend203102) o_;
      m.setInsufficientSecurityId((String) v[0]);
      m.setNoSecurity((int) (Integer) v[1]);
      m.setUnderlyingSecurityId((String) v[2]);
      m.setUnderlyingSecurityIdsource((String) v[3]);
      m.setDeliveryQty((long) (Long) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend203102 m = (com.finproto.szse.bin.messages.Extend203102) o_;
      Object[] v = new Object[5];
      v[0] = m.getInsufficientSecurityId();
      v[1] = m.getNoSecurity();
      v[2] = m.getUnderlyingSecurityId();
      v[3] = m.getUnderlyingSecurityIdsource();
      v[4] = m.getDeliveryQty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend203102) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend203102) o_).decode(b); }
  }
  static final class M_Extend203502 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend203502(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend203502 m = (com.finproto.szse.bin.messages.Extend203502) o_;
      m.setContractAccountCode((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend203502 m = (com.finproto.szse.bin.messages.Extend203502) o_;
      Object[] v = new Object[1];
      v[0] = m.getContractAccountCode();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend203502) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend203502) o_).decode(b); }
  }
  static final class M_Extend203702 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend203702(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend203702 m = (com.finproto.szse.bin.messages.Extend203702) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend203702 m = (com.finproto.szse.bin.messages.Extend203702) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend203702) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend203702) o_).decode(b); }
  }
  static final class M_Extend203715 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend203715(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend203715 m = (com.finproto.szse.bin.messages.Extend203715) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend203715 m = (com.finproto.szse.bin.messages.Extend203715) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend203715) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend203715) o_).decode(b); }
  }
  static final class M_Extend204102 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend204102(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend204102 m = (com.finproto.szse.bin.messages.Extend204102) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setCashMargin((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend204102 m = (com.finproto.szse.bin.messages.Extend204102) o_;
      Object[] v = new Object[5];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204102) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204102) o_).decode(b); }
  }
  static final class M_Extend204115 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend204115(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend204115 m = (com.finproto.szse.bin.messages.Extend204115) o_;
      m.setCashMargin((String) v[0]);
      m.setSettlType((short) (Short) v[1]);
      m.setSettlPeriod((byte) (Byte) v[2]);
      m.setCounterpartyMemberId((String) v[3]);
      m.setCounterpartyInvestorType((String) v[4]);
      m.setCounterpartyInvestorId((String) v[5]);
      m.setCounterpartyInvestorName((String) v[6]);
      m.setCounterpartyTraderCode((String) v[7]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend204115 m = (com.finproto.szse.bin.messages.Extend204115) o_;
      Object[] v = new Object[8];
      v[0] = m.getCashMargin();
      v[1] = m.getSettlType();
      v[2] = m.getSettlPeriod();
      v[3] = m.getCounterpartyMemberId();
      v[4] = m.getCounterpartyInvestorType();
      v[5] = m.getCounterpartyInvestorId();
      v[6] = m.getCounterpartyInvestorName();
      v[7] = m.getCounterpartyTraderCode();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204115) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204115) o_).decode(b); }
  }
  static final class M_Extend204129 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend204129(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend204129 m = (com.finproto.szse.bin.messages.Extend204129) o_;
      m.setMemberId((String) v[0]);
      m.setInvestorType((String) v[1]);
      m.setInvestorId((String) v[2]);
      m.setInvestorName((String) v[3]);
      m.setTraderCode((String) v[4]);
      m.setSecondaryOrderId((String) v[5]);
      m.setBidTransType((short) (Short) v[6]);
      m.setBidExecInstType((short) (Short) v[7]);
      m.setLowLimitPrice((long) (Long) v[8]);
      m.setHighLimitPrice((long) (Long) v[9]);
      m.setMinQty((long) (Long) v[10]);
      m.setTradeDate((int) (Integer) v[11]);
      m.setSettlType((short) (Short) v[12]);
      m.setSettlPeriod((byte) (Byte) v[13]);
      m.setPreTradeAnonymity((byte) (Byte) v[14]);
      m.setCashMargin((String) v[15]);
      m.setMemo((String) v[16]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend204129 m = (com.finproto.szse.bin.messages.Extend204129) o_;
      Object[] v = new Object[17];
      v[0] = m.getMemberId();
      v[1] = m.getInvestorType();
      v[2] = m.getInvestorId();
      v[3] = m.getInvestorName();
      v[4] = m.getTraderCode();
      v[5] = m.getSecondaryOrderId();
      v[6] = m.getBidTransType();
      v[7] = m.getBidExecInstType();
      v[8] = m.getLowLimitPrice();
      v[9] = m.getHighLimitPrice();
      v[10] = m.getMinQty();
      v[11] = m.getTradeDate();
      v[12] = m.getSettlType();
      v[13] = m.getSettlPeriod();
      v[14] = m.getPreTradeAnonymity();
      v[15] = m.getCashMargin();
      v[16] = m.getMemo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204129) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204129) o_).decode(b); }
  }
  static final class M_Extend204130 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend204130(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend204130 m = (com.finproto.szse.bin.messages.Extend204130) o_;
      m.setMemberId((String) v[0]);
      m.setInvestorType((String) v[1]);
      m.setInvestorId((String) v[2]);
      m.setInvestorName((String) v[3]);
      m.setTraderCode((String) v[4]);
      m.setCounterpartyMemberId((String) v[5]);
      m.setCounterpartyInvestorType((String) v[6]);
      m.setCounterpartyInvestorId((String) v[7]);
      m.setCounterpartyInvestorName((String) v[8]);
      m.setCounterpartyTraderCode((String) v[9]);
      m.setSecondaryOrderId((String) v[10]);
      m.setBidTransType((short) (Short) v[11]);
      m.setBidExecInstType((short) (Short) v[12]);
      m.setSettlType((short) (Short) v[13]);
      m.setSettlPeriod((byte) (Byte) v[14]);
      m.setCashMargin((String) v[15]);
      m.setMemo((String) v[16]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend204130 m = (com.finproto.szse.bin.messages.Extend204130) o_;
      Object[] v = new Object[17];
      v[0] = m.getMemberId();
      v[1] = m.getInvestorType();
      v[2] = m.getInvestorId();
      v[3] = m.getInvestorName();
      v[4] = m.getTraderCode();
      v[5] = m.getCounterpartyMemberId();
      v[6] = m.getCounterpartyInvestorType();
      v[7] = m.getCounterpartyInvestorId();
      v[8] = m.getCounterpartyInvestorName();
      v[9] = m.getCounterpartyTraderCode();
      v[10] = m.getSecondaryOrderId();
      v[11] = m.getBidTransType();
      v[12] = m.getBidExecInstType();
      v[13] = m.getSettlType();
      v[14] = m.getSettlPeriod();
      v[15] = m.getCashMargin();
      v[16] = m.getMemo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204130) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204130) o_).decode(b); }
  }
  static final class M_Extend204702 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend204702(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend204702 m = (com.finproto.szse.bin.messages.Extend204702) o_;
      m.setSecondaryOrderId((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend204702 m = (com.finproto.szse.bin.messages.Extend204702) o_;
      Object[] v = new Object[1];
      v[0] = m.getSecondaryOrderId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204702) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204702) o_).decode(b); }
  }
  static final class M_Extend204715 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend204715(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend204715 m = (com.finproto.szse.bin.messages.Extend204715) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setMaturityDate((int) (Integer) v[2]);
      m.setShareProperty((String) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend204715 m = (com.finproto.szse.bin.messages.Extend204715) o_;
      Object[] v = new Object[4];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getMaturityDate();
      v[3] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204715) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend204715) o_).decode(b); }
  }
  static final class M_Extend206302 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend206302(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend206302 m = (com.finproto.szse.bin.messages.Extend206302) o_;
      m.setRejectText((String) v[0]);
      m.setStopPx((long) (Long) v[1]);
      m.setMinQty((long) (Long) v[2]);
      m.setMaxPriceLevels((short) (Short) v[3]);
      m.setTimeInForce((String) v[4]);
      m.setLotType((String) v[5]);
      m.setImcrejectTextLen((int) (Integer) v[6]);
      m.setImcrejectText((String) v[7]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend206302 m = (com.finproto.szse.bin.messages.Extend206302) o_;
      Object[] v = new Object[8];
      v[0] = m.getRejectText();
      v[1] = m.getStopPx();
      v[2] = m.getMinQty();
      v[3] = m.getMaxPriceLevels();
      v[4] = m.getTimeInForce();
      v[5] = m.getLotType();
      v[6] = m.getImcrejectTextLen();
      v[7] = m.getImcrejectText();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend206302) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend206302) o_).decode(b); }
  }
  static final class M_Extend206315 implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Extend206315(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Extend206315 m = (com.finproto.szse.bin.messages.Extend206315) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Extend206315 m = (com.finproto.szse.bin.messages.Extend206315) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend206315) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Extend206315) o_).decode(b); }
  }
  static final class M_Heartbeat implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Heartbeat(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Heartbeat m = (com.finproto.szse.bin.messages.Heartbeat) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Heartbeat m = (com.finproto.szse.bin.messages.Heartbeat) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Heartbeat) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Heartbeat) o_).decode(b); }
  }
  static final class M_Logon implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Logon(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Logon m = (com.finproto.szse.bin.messages.Logon) o_;
      m.setSenderCompId((String) v[0]);
      m.setTargetCompId((String) v[1]);
      m.setHeartBtint((int) (Integer) v[2]);
      m.setPassword((String) v[3]);
      m.setDefaultApplVerId((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Logon m = (com.finproto.szse.bin.messages.Logon) o_;
      Object[] v = new Object[5];
      v[0] = m.getSenderCompId();
      v[1] = m.getTargetCompId();
      v[2] = m.getHeartBtint();
      v[3] = m.getPassword();
      v[4] = m.getDefaultApplVerId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Logon) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Logon) o_).decode(b); }
  }
  static final class M_Logout implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.Logout(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.Logout m = (com.finproto.szse.bin.messages.Logout) o_;
      m.setSessionStatus((int) (Integer) v[0]);
      m.setText((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.Logout m = (com.finproto.szse.bin.messages.Logout) o_;
      Object[] v = new Object[2];
      v[0] = m.getSessionStatus();
      v[1] = m.getText();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Logout) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.Logout) o_).decode(b); }
  }
  static final class M_NewOrder implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.NewOrder(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.NewOrder m = (com.finproto.szse.bin.messages.NewOrder) o_;
      m.setApplId((String) v[0]);
      m.setSubmittingPbuid((String) v[1]);
      m.setSecurityId((String) v[2]);
      m.setSecurityIdsource((String) v[3]);
      m.setOwnerType((short) (Short) v[4]);
      m.setClearingFirm((String) v[5]);
      m.setTransactTime((long) (Long) v[6]);
      m.setUserInfo((String) v[7]);
      m.setClOrdId((String) v[8]);
      m.setAccountId((String) v[9]);
      m.setBranchId((String) v[10]);
      m.setOrderRestrictions((String) v[11]);
      m.setSide((String) v[12]);
      m.setOrdType((String) v[13]);
      m.setOrderQty((long) (Long) v[14]);
      m.setPrice((long) (Long) v[15]);
      m.setApplExtend((BinaryCodec) c.toReal(v[16]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.NewOrder m = (com.finproto.szse.bin.messages.NewOrder) o_;
      Object[] v = new Object[17];
      v[0] = m.getApplId();
      v[1] = m.getSubmittingPbuid();
      v[2] = m.getSecurityId();
      v[3] = m.getSecurityIdsource();
      v[4] = m.getOwnerType();
      v[5] = m.getClearingFirm();
      v[6] = m.getTransactTime();
      v[7] = m.getUserInfo();
      v[8] = m.getClOrdId();
      v[9] = m.getAccountId();
      v[10] = m.getBranchId();
      v[11] = m.getOrderRestrictions();
      v[12] = m.getSide();
      v[13] = m.getOrdType();
      v[14] = m.getOrderQty();
      v[15] = m.getPrice();
      v[16] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.NewOrder) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.NewOrder) o_).decode(b); }
  }
  static final class M_OrderCancelRequest implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.OrderCancelRequest(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.OrderCancelRequest m = (com.finproto.szse.bin.messages.OrderCancelRequest) o_;
      m.setApplId((String) v[0]);
      m.setSubmittingPbuid((String) v[1]);
      m.setSecurityId((String) v[2]);
      m.setSecurityIdsource((String) v[3]);
      m.setOwnerType((short) (Short) v[4]);
      m.setClearingFirm((String) v[5]);
      m.setTransactTime((long) (Long) v[6]);
      m.setUserInfo((String) v[7]);
      m.setClOrdId((String) v[8]);
      m.setOrigClOrdId((String) v[9]);
      m.setSide((String) v[10]);
      m.setOrderId((String) v[11]);
      m.setOrderQty((long) (Long) v[12]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.OrderCancelRequest m = (com.finproto.szse.bin.messages.OrderCancelRequest) o_;
      Object[] v = new Object[13];
      v[0] = m.getApplId();
      v[1] = m.getSubmittingPbuid();
      v[2] = m.getSecurityId();
      v[3] = m.getSecurityIdsource();
      v[4] = m.getOwnerType();
      v[5] = m.getClearingFirm();
      v[6] = m.getTransactTime();
      v[7] = m.getUserInfo();
      v[8] = m.getClOrdId();
      v[9] = m.getOrigClOrdId();
      v[10] = m.getSide();
      v[11] = m.getOrderId();
      v[12] = m.getOrderQty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.OrderCancelRequest) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.OrderCancelRequest) o_).decode(b); }
  }
  static final class M_PartitionReport implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.PartitionReport(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.PartitionReport m = (com.finproto.szse.bin.messages.PartitionReport) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.PartitionReport m = (com.finproto.szse.bin.messages.PartitionReport) o_;
      Object[] v = new Object[2];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.PartitionReport) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.PartitionReport) o_).decode(b); }
  }
  static final class M_PlatformInfo implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.PlatformInfo(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.PlatformInfo m = (com.finproto.szse.bin.messages.PlatformInfo) o_;
      m.setPlatformId((short) (Short) v[0]);
      m.setPlatformPartition((java.util.List) c.toRealList(v[1]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.PlatformInfo m = (com.finproto.szse.bin.messages.PlatformInfo) o_;
      Object[] v = new Object[2];
      v[0] = m.getPlatformId();
      v[1] = c.toModelList((java.util.List) m.getPlatformPartition());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.PlatformInfo) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.PlatformInfo) o_).decode(b); }
  }
  static final class M_PlatformPartition implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.PlatformPartition(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.PlatformPartition m = (com.finproto.szse.bin.messages.PlatformPartition) o_;
      m.setPartitionNo((int) (Integer) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.PlatformPartition m = (com.finproto.szse.bin.messages.PlatformPartition) o_;
      Object[] v = new Object[1];
      v[0] = m.getPartitionNo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.PlatformPartition) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.PlatformPartition) o_).decode(b); }
  }
  static final class M_PlatformStateInfo implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.PlatformStateInfo(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.PlatformStateInfo m = (com.finproto.szse.bin.messages.PlatformStateInfo) o_;
      m.setPlatformId((short) (Short) v[0]);
      m.setPlatformState((short) (Short) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.PlatformStateInfo m = (com.finproto.szse.bin.messages.PlatformStateInfo) o_;
      Object[] v = new Object[2];
      v[0] = m.getPlatformId();
      v[1] = m.getPlatformState();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.PlatformStateInfo) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.PlatformStateInfo) o_).decode(b); }
  }
  static final class M_ReportFinished implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.ReportFinished(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.ReportFinished m = (com.finproto.szse.bin.messages.ReportFinished) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setPlatformId((short) (Short) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.ReportFinished m = (com.finproto.szse.bin.messages.ReportFinished) o_;
      Object[] v = new Object[3];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getPlatformId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.ReportFinished) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.ReportFinished) o_).decode(b); }
  }
  static final class M_ReportSynchronization implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.ReportSynchronization(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.ReportSynchronization m = (com.finproto.szse.bin.messages.ReportSynchronization) o_;
      m.setPartitionReport((java.util.List) c.toRealList(v[0]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.ReportSynchronization m = (com.finproto.szse.bin.messages.ReportSynchronization) o_;
      Object[] v = new Object[1];
      v[0] = c.toModelList((java.util.List) m.getPartitionReport());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.ReportSynchronization) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.ReportSynchronization) o_).decode(b); }
  }
  static final class M_SzseBinary implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.SzseBinary(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.SzseBinary m = (com.finproto.szse.bin.messages.SzseBinary) o_;
      m.setMsgType((int) (Integer) v[0]);
      m.setBodyLength((int) (Integer) v[1]);
      m.setBody((BinaryCodec) c.toReal(v[2]));
      m.setChecksum((int) (Integer) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.SzseBinary m = (com.finproto.szse.bin.messages.SzseBinary) o_;
      Object[] v = new Object[4];
      v[0] = m.getMsgType();
      v[1] = m.getBodyLength();
      v[2] = c.toModel(m.getBody());
      v[3] = m.getChecksum();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.SzseBinary) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.SzseBinary) o_).decode(b); }
  }
  static final class M_TradingSessionStatus implements MsgBridge {
    public Object fresh() { return new com.finproto.szse.bin.messages.TradingSessionStatus(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.szse.bin.messages.TradingSessionStatus m = (com.finproto.szse.bin.messages.TradingSessionStatus) o_;
      m.setMarketId((String) v[0]);
      m.setMarketSegmentId((String) v[1]);
      m.setTradingSessionId((String) v[2]);
      m.setTradingSessionSubId((String) v[3]);
      m.setTradSesStatus((short) (Short) v[4]);
      m.setTradSesStartTime((long) (Long) v[5]);
      m.setTradSesEndTime((long) (Long) v[6]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.szse.bin.messages.TradingSessionStatus m = (com.finproto.szse.bin.messages.TradingSessionStatus) o_;
      Object[] v = new Object[7];
      v[0] = m.getMarketId();
      v[1] = m.getMarketSegmentId();
      v[2] = m.getTradingSessionId();
      v[3] = m.getTradingSessionSubId();
      v[4] = m.getTradSesStatus();
      v[5] = m.getTradSesStartTime();
      v[6] = m.getTradSesEndTime();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.TradingSessionStatus) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.szse.bin.messages.TradingSessionStatus) o_).decode(b); }
  }
}
