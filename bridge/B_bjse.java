// Generated by tools/gen_bridge.py from spec/bjse.layout
package vbridge;
import vsim.*;
import com.finproto.codec.BinaryCodec;
@SuppressWarnings({"unchecked","rawtypes"})
public final class B_bjse {
  public static MsgBridge get(int i) {
    switch (i) {
      case 0: return new M_AllegeQuote();
      case 1: return new M_AllegeQuoteExtend070();
      case 2: return new M_AllegeQuoteResponse();
      case 3: return new M_BjseBinary();
      case 4: return new M_BusinessReject();
      case 5: return new M_CancelReject();
      case 6: return new M_ConfirmExtend010();
      case 7: return new M_ConfirmExtend040();
      case 8: return new M_ConfirmExtend041();
      case 9: return new M_ConfirmExtend042();
      case 10: return new M_ConfirmExtend043();
      case 11: return new M_ConfirmExtend044();
      case 12: return new M_ConfirmExtend045();
      case 13: return new M_ConfirmExtend050();
      case 14: return new M_ExecutionConfirm();
      case 15: return new M_ExecutionReport();
      case 16: return new M_Extend010();
      case 17: return new M_Extend040();
      case 18: return new M_Extend041();
      case 19: return new M_Extend042();
      case 20: return new M_Extend043();
      case 21: return new M_Extend044();
      case 22: return new M_Extend045();
      case 23: return new M_Extend050();
      case 24: return new M_ExtendNewOrder010();
      case 25: return new M_ExtendNewOrder040();
      case 26: return new M_ExtendNewOrder041();
      case 27: return new M_ExtendNewOrder042();
      case 28: return new M_ExtendNewOrder043();
      case 29: return new M_ExtendNewOrder044();
      case 30: return new M_ExtendNewOrder045();
      case 31: return new M_ExtendNewOrder050();
      case 32: return new M_Heartbeat();
      case 33: return new M_Logon();
      case 34: return new M_Logout();
      case 35: return new M_NewOrder();
      case 36: return new M_OrderCancelRequest();
      case 37: return new M_PlatformInfo();
      case 38: return new M_PlatformInfo_NoPartitions();
      case 39: return new M_PlatformStateInfo();
      case 40: return new M_Quote();
      case 41: return new M_QuoteExtend070();
      case 42: return new M_QuoteExtend071();
      case 43: return new M_QuoteResponse();
      case 44: return new M_QuoteResponse_Quote2();
      case 45: return new M_QuoteResponseExtend070();
      case 46: return new M_QuoteStatusReport();
      case 47: return new M_QuoteStatusReportExtend070();
      case 48: return new M_QuoteStatusReportExtend070_Quote1();
      case 49: return new M_ReportExtend010();
      case 50: return new M_ReportExtend040();
      case 51: return new M_ReportExtend050();
      case 52: return new M_ReportFinished();
      case 53: return new M_ReportSynchronization();
      case 54: return new M_ReportSynchronization_ReportPartitionSync();
      case 55: return new M_TradeCaptureCofirm();
      case 56: return new M_TradeCaptureCofirmExtend031();
      case 57: return new M_TradeCaptureCofirmExtend051();
      case 58: return new M_TradeCaptureCofirmExtend060();
      case 59: return new M_TradeCaptureCofirmExtend061();
      case 60: return new M_TradeCaptureCofirmExtend062();
      case 61: return new M_TradeCaptureConfirm();
      case 62: return new M_TradeCaptureConfirmExtend031();
      case 63: return new M_TradeCaptureConfirmExtend051();
      case 64: return new M_TradeCaptureConfirmExtend060();
      case 65: return new M_TradeCaptureConfirmExtend061();
      case 66: return new M_TradeCaptureConfirmExtend062();
      case 67: return new M_TradeCaptureReport();
      case 68: return new M_TradeCaptureReportAck();
      case 69: return new M_TradeCaptureReportAckExtend031();
      case 70: return new M_TradeCaptureReportAckExtend051();
      case 71: return new M_TradeCaptureReportAckExtend060();
      case 72: return new M_TradeCaptureReportAckExtend061();
      case 73: return new M_TradeCaptureReportAckExtend062();
      case 74: return new M_TradeCaptureReportExtend031();
      case 75: return new M_TradeCaptureReportExtend051();
      case 76: return new M_TradeCaptureReportExtend060();
      case 77: return new M_TradeCaptureReportExtend061();
      case 78: return new M_TradeCaptureReportExtend062();
      case 79: return new M_TradingSessionStatus();
      default: throw new IllegalArgumentException();
    }
  }
  static final class M_AllegeQuote implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.AllegeQuote(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.AllegeQuote m = (com.finproto.bjse.trade.messages.AllegeQuote) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setOrderId((String) v[11]);
      m.setExecId((String) v[12]);
      m.setClOrdId((String) v[13]);
      m.setAccountId((String) v[14]);
      m.setQuoteReqId((String) v[15]);
      m.setQuoteId((String) v[16]);
      m.setQuoteRespId((String) v[17]);
      m.setQuoteType((byte) (Byte) v[18]);
      m.setBidPx((long) (Long) v[19]);
      m.setOfferPx((long) (Long) v[20]);
      m.setBidSize((long) (Long) v[21]);
      m.setOfferSize((long) (Long) v[22]);
      m.setPrivateQuote((byte) (Byte) v[23]);
      m.setValidUntilTime((long) (Long) v[24]);
      m.setPriceType((byte) (Byte) v[25]);
      m.setMemo((String) v[26]);
      m.setApplExtend((BinaryCodec) c.toReal(v[27]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.AllegeQuote m = (com.finproto.bjse.trade.messages.AllegeQuote) o_;
      Object[] v = new Object[28];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getOrderId();
      v[12] = m.getExecId();
      v[13] = m.getClOrdId();
      v[14] = m.getAccountId();
      v[15] = m.getQuoteReqId();
      v[16] = m.getQuoteId();
      v[17] = m.getQuoteRespId();
      v[18] = m.getQuoteType();
      v[19] = m.getBidPx();
      v[20] = m.getOfferPx();
      v[21] = m.getBidSize();
      v[22] = m.getOfferSize();
      v[23] = m.getPrivateQuote();
      v[24] = m.getValidUntilTime();
      v[25] = m.getPriceType();
      v[26] = m.getMemo();
      v[27] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.AllegeQuote) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.AllegeQuote) o_).decode(b); }
  }
  static final class M_AllegeQuoteExtend070 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.AllegeQuoteExtend070(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.AllegeQuoteExtend070 m = (com.finproto.bjse.trade.messages.AllegeQuoteExtend070) o_;
      m.setCashMargin((String) v[0]);
      m.setCounterPartyPbuid((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.AllegeQuoteExtend070 m = (com.finproto.bjse.trade.messages.AllegeQuoteExtend070) o_;
      Object[] v = new Object[2];
      v[0] = m.getCashMargin();
      v[1] = m.getCounterPartyPbuid();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.AllegeQuoteExtend070) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.AllegeQuoteExtend070) o_).decode(b); }
  }
  static final class M_AllegeQuoteResponse implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.AllegeQuoteResponse(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.AllegeQuoteResponse m = (com.finproto.bjse.trade.messages.AllegeQuoteResponse) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setOrderId((String) v[11]);
      m.setExecId((String) v[12]);
      m.setClOrdId((String) v[13]);
      m.setAccountId((String) v[14]);
      m.setQuoteId((String) v[15]);
      m.setQuoteRespId((String) v[16]);
      m.setQuoteRespType((byte) (Byte) v[17]);
      m.setPrivateQuote((byte) (Byte) v[18]);
      m.setOrderQty((long) (Long) v[19]);
      m.setPrice((long) (Long) v[20]);
      m.setValidUntilTime((long) (Long) v[21]);
      m.setQuoteType((byte) (Byte) v[22]);
      m.setPriceType((byte) (Byte) v[23]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.AllegeQuoteResponse m = (com.finproto.bjse.trade.messages.AllegeQuoteResponse) o_;
      Object[] v = new Object[24];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getOrderId();
      v[12] = m.getExecId();
      v[13] = m.getClOrdId();
      v[14] = m.getAccountId();
      v[15] = m.getQuoteId();
      v[16] = m.getQuoteRespId();
      v[17] = m.getQuoteRespType();
      v[18] = m.getPrivateQuote();
      v[19] = m.getOrderQty();
      v[20] = m.getPrice();
      v[21] = m.getValidUntilTime();
      v[22] = m.getQuoteType();
      v[23] = m.getPriceType();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.AllegeQuoteResponse) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.AllegeQuoteResponse) o_).decode(b); }
  }
  static final class M_BjseBinary implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.BjseBinary(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.BjseBinary m = (com.finproto.bjse.trade.messages.BjseBinary) o_;
      m.setMsgType((int) (Integer) v[0]);
      m.setBodyLength((int) (Integer) v[1]);
      m.setBody((BinaryCodec) c.toReal(v[2]));
      m.setChecksum((int) (Integer) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.BjseBinary m = (com.finproto.bjse.trade.messages.BjseBinary) o_;
      Object[] v = new Object[4];
      v[0] = m.getMsgType();
      v[1] = m.getBodyLength();
      v[2] = c.toModel(m.getBody());
      v[3] = m.getChecksum();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.BjseBinary) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.BjseBinary) o_).decode(b); }
  }
  static final class M_BusinessReject implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.BusinessReject(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.BusinessReject m = (com.finproto.bjse.trade.messages.BusinessReject) o_;
      m.setApplId((String) v[0]);
      m.setTransactTime((long) (Long) v[1]);
      m.setSubmittingPbuid((String) v[2]);
      m.setSecurityId((String) v[3]);
      m.setSecurityIdsource((String) v[4]);
      m.setRefSeqNum((long) (Long) v[5]);
      m.setRefMsgType((int) (Integer) v[6]);
      m.setBusinessRejectRefId((String) v[7]);
      m.setBusinessRejectReason((short) (Short) v[8]);
      m.setBusinessRejectText((String) v[9]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.BusinessReject m = (com.finproto.bjse.trade.messages.BusinessReject) o_;
      Object[] v = new Object[10];
      v[0] = m.getApplId();
      v[1] = m.getTransactTime();
      v[2] = m.getSubmittingPbuid();
      v[3] = m.getSecurityId();
      v[4] = m.getSecurityIdsource();
      v[5] = m.getRefSeqNum();
      v[6] = m.getRefMsgType();
      v[7] = m.getBusinessRejectRefId();
      v[8] = m.getBusinessRejectReason();
      v[9] = m.getBusinessRejectText();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.BusinessReject) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.BusinessReject) o_).decode(b); }
  }
  static final class M_CancelReject implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.CancelReject(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.CancelReject m = (com.finproto.bjse.trade.messages.CancelReject) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setClOrdId((String) v[11]);
      m.setOrigClOrdId((String) v[12]);
      m.setAccountId((String) v[13]);
      m.setBranchId((String) v[14]);
      m.setOrdStatus((String) v[15]);
      m.setCxlRejReason((short) (Short) v[16]);
      m.setRejectText((String) v[17]);
      m.setOrderId((String) v[18]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.CancelReject m = (com.finproto.bjse.trade.messages.CancelReject) o_;
      Object[] v = new Object[19];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getClOrdId();
      v[12] = m.getOrigClOrdId();
      v[13] = m.getAccountId();
      v[14] = m.getBranchId();
      v[15] = m.getOrdStatus();
      v[16] = m.getCxlRejReason();
      v[17] = m.getRejectText();
      v[18] = m.getOrderId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.CancelReject) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.CancelReject) o_).decode(b); }
  }
  static final class M_ConfirmExtend010 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ConfirmExtend010(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend010 m = (com.finproto.bjse.trade.messages.ConfirmExtend010) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setCashMargin((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend010 m = (com.finproto.bjse.trade.messages.ConfirmExtend010) o_;
      Object[] v = new Object[5];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend010) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend010) o_).decode(b); }
  }
  static final class M_ConfirmExtend040 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ConfirmExtend040(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend040 m = (com.finproto.bjse.trade.messages.ConfirmExtend040) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setCashMargin((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend040 m = (com.finproto.bjse.trade.messages.ConfirmExtend040) o_;
      Object[] v = new Object[5];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend040) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend040) o_).decode(b); }
  }
  static final class M_ConfirmExtend041 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ConfirmExtend041(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend041 m = (com.finproto.bjse.trade.messages.ConfirmExtend041) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend041 m = (com.finproto.bjse.trade.messages.ConfirmExtend041) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend041) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend041) o_).decode(b); }
  }
  static final class M_ConfirmExtend042 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ConfirmExtend042(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend042 m = (com.finproto.bjse.trade.messages.ConfirmExtend042) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend042 m = (com.finproto.bjse.trade.messages.ConfirmExtend042) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend042) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend042) o_).decode(b); }
  }
  static final class M_ConfirmExtend043 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ConfirmExtend043(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend043 m = (com.finproto.bjse.trade.messages.ConfirmExtend043) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend043 m = (com.finproto.bjse.trade.messages.ConfirmExtend043) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend043) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend043) o_).decode(b); }
  }
  static final class M_ConfirmExtend044 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ConfirmExtend044(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend044 m = (com.finproto.bjse.trade.messages.ConfirmExtend044) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend044 m = (com.finproto.bjse.trade.messages.ConfirmExtend044) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend044) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend044) o_).decode(b); }
  }
  static final class M_ConfirmExtend045 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ConfirmExtend045(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend045 m = (com.finproto.bjse.trade.messages.ConfirmExtend045) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend045 m = (com.finproto.bjse.trade.messages.ConfirmExtend045) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend045) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend045) o_).decode(b); }
  }
  static final class M_ConfirmExtend050 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ConfirmExtend050(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend050 m = (com.finproto.bjse.trade.messages.ConfirmExtend050) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setShareProperty((String) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ConfirmExtend050 m = (com.finproto.bjse.trade.messages.ConfirmExtend050) o_;
      Object[] v = new Object[3];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend050) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ConfirmExtend050) o_).decode(b); }
  }
  static final class M_ExecutionConfirm implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ExecutionConfirm(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ExecutionConfirm m = (com.finproto.bjse.trade.messages.ExecutionConfirm) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setOrderId((String) v[11]);
      m.setClOrdId((String) v[12]);
      m.setOrigClOrdId((String) v[13]);
      m.setExecId((String) v[14]);
      m.setExecType((String) v[15]);
      m.setOrdStatus((String) v[16]);
      m.setOrdRejReason((short) (Short) v[17]);
      m.setLeavesQty((long) (Long) v[18]);
      m.setCumQty((long) (Long) v[19]);
      m.setSide((String) v[20]);
      m.setOrdType((String) v[21]);
      m.setOrderQty((long) (Long) v[22]);
      m.setPrice((long) (Long) v[23]);
      m.setAccountId((String) v[24]);
      m.setBranchId((String) v[25]);
      m.setOrderRestrictions((String) v[26]);
      m.setApplExtend((BinaryCodec) c.toReal(v[27]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ExecutionConfirm m = (com.finproto.bjse.trade.messages.ExecutionConfirm) o_;
      Object[] v = new Object[28];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getOrderId();
      v[12] = m.getClOrdId();
      v[13] = m.getOrigClOrdId();
      v[14] = m.getExecId();
      v[15] = m.getExecType();
      v[16] = m.getOrdStatus();
      v[17] = m.getOrdRejReason();
      v[18] = m.getLeavesQty();
      v[19] = m.getCumQty();
      v[20] = m.getSide();
      v[21] = m.getOrdType();
      v[22] = m.getOrderQty();
      v[23] = m.getPrice();
      v[24] = m.getAccountId();
      v[25] = m.getBranchId();
      v[26] = m.getOrderRestrictions();
      v[27] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExecutionConfirm) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExecutionConfirm) o_).decode(b); }
  }
  static final class M_ExecutionReport implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ExecutionReport(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ExecutionReport m = (com.finproto.bjse.trade.messages.ExecutionReport) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setOrderId((String) v[11]);
      m.setClOrdId((String) v[12]);
      m.setExecId((String) v[13]);
      m.setExecType((String) v[14]);
      m.setOrdStatus((String) v[15]);
      m.setLastPx((long) (Long) v[16]);
      m.setLastQty((long) (Long) v[17]);
      m.setLeavesQty((long) (Long) v[18]);
      m.setCumQty((long) (Long) v[19]);
      m.setSide((String) v[20]);
      m.setAccountId((String) v[21]);
      m.setBranchId((String) v[22]);
      m.setApplExtend((BinaryCodec) c.toReal(v[23]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ExecutionReport m = (com.finproto.bjse.trade.messages.ExecutionReport) o_;
      Object[] v = new Object[24];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getOrderId();
      v[12] = m.getClOrdId();
      v[13] = m.getExecId();
      v[14] = m.getExecType();
      v[15] = m.getOrdStatus();
      v[16] = m.getLastPx();
      v[17] = m.getLastQty();
      v[18] = m.getLeavesQty();
      v[19] = m.getCumQty();
      v[20] = m.getSide();
      v[21] = m.getAccountId();
      v[22] = m.getBranchId();
      v[23] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExecutionReport) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExecutionReport) o_).decode(b); }
  }
  static final class M_Extend010 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Extend010(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Extend010 m = (com.finproto.bjse.trade.messages.Extend010) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((byte) (Byte) v[3]);
      m.setCashMargin((byte) (Byte) v[4]);
      m.setSettlType((byte) (Byte) v[5]);
      m.setSettlPeriod((byte) (Byte) v[6]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Extend010 m = (com.finproto.bjse.trade.messages.Extend010) o_;
      Object[] v = new Object[7];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getCashMargin();
      v[5] = m.getSettlType();
      v[6] = m.getSettlPeriod();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend010) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend010) o_).decode(b); }
  }
  static final class M_Extend040 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Extend040(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Extend040 m = (com.finproto.bjse.trade.messages.Extend040) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((byte) (Byte) v[3]);
      m.setCashMargin((byte) (Byte) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Extend040 m = (com.finproto.bjse.trade.messages.Extend040) o_;
      Object[] v = new Object[5];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend040) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend040) o_).decode(b); }
  }
  static final class M_Extend041 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Extend041(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Extend041 m = (com.finproto.bjse.trade.messages.Extend041) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Extend041 m = (com.finproto.bjse.trade.messages.Extend041) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend041) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend041) o_).decode(b); }
  }
  static final class M_Extend042 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Extend042(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Extend042 m = (com.finproto.bjse.trade.messages.Extend042) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Extend042 m = (com.finproto.bjse.trade.messages.Extend042) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend042) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend042) o_).decode(b); }
  }
  static final class M_Extend043 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Extend043(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Extend043 m = (com.finproto.bjse.trade.messages.Extend043) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Extend043 m = (com.finproto.bjse.trade.messages.Extend043) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend043) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend043) o_).decode(b); }
  }
  static final class M_Extend044 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Extend044(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Extend044 m = (com.finproto.bjse.trade.messages.Extend044) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Extend044 m = (com.finproto.bjse.trade.messages.Extend044) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend044) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend044) o_).decode(b); }
  }
  static final class M_Extend045 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Extend045(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Extend045 m = (com.finproto.bjse.trade.messages.Extend045) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Extend045 m = (com.finproto.bjse.trade.messages.Extend045) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend045) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend045) o_).decode(b); }
  }
  static final class M_Extend050 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Extend050(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Extend050 m = (com.finproto.bjse.trade.messages.Extend050) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setShareProperty((String) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Extend050 m = (com.finproto.bjse.trade.messages.Extend050) o_;
      Object[] v = new Object[3];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend050) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Extend050) o_).decode(b); }
  }
  static final class M_ExtendNewOrder010 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ExtendNewOrder010(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder010 m = (com.finproto.bjse.trade.messages.ExtendNewOrder010) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setCashMargin((String) v[4]);
      m.setSettlType((String) v[5]);
      m.setSettlPeriod((String) v[6]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder010 m = (com.finproto.bjse.trade.messages.ExtendNewOrder010) o_;
      Object[] v = new Object[7];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getCashMargin();
      v[5] = m.getSettlType();
      v[6] = m.getSettlPeriod();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder010) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder010) o_).decode(b); }
  }
  static final class M_ExtendNewOrder040 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ExtendNewOrder040(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder040 m = (com.finproto.bjse.trade.messages.ExtendNewOrder040) o_;
      m.setStopPx((long) (Long) v[0]);
      m.setMinQty((long) (Long) v[1]);
      m.setMaxPriceLevels((short) (Short) v[2]);
      m.setTimeInForce((String) v[3]);
      m.setCashMargin((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder040 m = (com.finproto.bjse.trade.messages.ExtendNewOrder040) o_;
      Object[] v = new Object[5];
      v[0] = m.getStopPx();
      v[1] = m.getMinQty();
      v[2] = m.getMaxPriceLevels();
      v[3] = m.getTimeInForce();
      v[4] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder040) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder040) o_).decode(b); }
  }
  static final class M_ExtendNewOrder041 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ExtendNewOrder041(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder041 m = (com.finproto.bjse.trade.messages.ExtendNewOrder041) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder041 m = (com.finproto.bjse.trade.messages.ExtendNewOrder041) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder041) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder041) o_).decode(b); }
  }
  static final class M_ExtendNewOrder042 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ExtendNewOrder042(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder042 m = (com.finproto.bjse.trade.messages.ExtendNewOrder042) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder042 m = (com.finproto.bjse.trade.messages.ExtendNewOrder042) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder042) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder042) o_).decode(b); }
  }
  static final class M_ExtendNewOrder043 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ExtendNewOrder043(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder043 m = (com.finproto.bjse.trade.messages.ExtendNewOrder043) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder043 m = (com.finproto.bjse.trade.messages.ExtendNewOrder043) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder043) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder043) o_).decode(b); }
  }
  static final class M_ExtendNewOrder044 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ExtendNewOrder044(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder044 m = (com.finproto.bjse.trade.messages.ExtendNewOrder044) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder044 m = (com.finproto.bjse.trade.messages.ExtendNewOrder044) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder044) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder044) o_).decode(b); }
  }
  static final class M_ExtendNewOrder045 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ExtendNewOrder045(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder045 m = (com.finproto.bjse.trade.messages.ExtendNewOrder045) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder045 m = (com.finproto.bjse.trade.messages.ExtendNewOrder045) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder045) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder045) o_).decode(b); }
  }
  static final class M_ExtendNewOrder050 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ExtendNewOrder050(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder050 m = (com.finproto.bjse.trade.messages.ExtendNewOrder050) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setShareProperty((String) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ExtendNewOrder050 m = (com.finproto.bjse.trade.messages.ExtendNewOrder050) o_;
      Object[] v = new Object[3];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder050) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ExtendNewOrder050) o_).decode(b); }
  }
  static final class M_Heartbeat implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Heartbeat(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Heartbeat m = (com.finproto.bjse.trade.messages.Heartbeat) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Heartbeat m = (com.finproto.bjse.trade.messages.Heartbeat) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Heartbeat) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Heartbeat) o_).decode(b); }
  }
  static final class M_Logon implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Logon(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Logon m = (com.finproto.bjse.trade.messages.Logon) o_;
      m.setSenderCompId((String) v[0]);
      m.setTargetCompId((String) v[1]);
      m.setHeartBtInt((int) (Integer) v[2]);
      m.setPassword((String) v[3]);
      m.setDefaultApplVerId((String) v[4]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Logon m = (com.finproto.bjse.trade.messages.Logon) o_;
      Object[] v = new Object[5];
      v[0] = m.getSenderCompId();
      v[1] = m.getTargetCompId();
      v[2] = m.getHeartBtInt();
      v[3] = m.getPassword();
      v[4] = m.getDefaultApplVerId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Logon) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Logon) o_).decode(b); }
  }
  static final class M_Logout implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Logout(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Logout m = (com.finproto.bjse.trade.messages.Logout) o_;
      m.setSessionStatus((int) (Integer) v[0]);
      m.setText((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Logout m = (com.finproto.bjse.trade.messages.Logout) o_;
      Object[] v = new Object[2];
      v[0] = m.getSessionStatus();
      v[1] = m.getText();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Logout) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Logout) o_).decode(b); }
  }
  static final class M_NewOrder implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.NewOrder(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.NewOrder m = (com.finproto.bjse.trade.messages.NewOrder) o_;
      m.setApplId((String) v[0]);
      m.setSubmittingPbuid((String) v[1]);
      m.setSecurityId((String) v[2]);
      m.setSecurityIdsource((String) v[3]);
      m.setOwnerType((short) (Short) v[4]);
      m.setClearingFirm((String) v[5]);
      m.setTransactTime((long) (Long) v[6]);
      m.setUserInfo((String) v[7]);
      m.setClOrdId((String) v[8]);
      m.setAccountId((String) v[9]);
      m.setBranchId((String) v[10]);
      m.setOrderRestrictions((String) v[11]);
      m.setSide((String) v[12]);
      m.setOrdType((String) v[13]);
      m.setOrderQty((long) (Long) v[14]);
      m.setPrice((long) (Long) v[15]);
      m.setApplExtend((BinaryCodec) c.toReal(v[16]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.NewOrder m = (com.finproto.bjse.trade.messages.NewOrder) o_;
      Object[] v = new Object[17];
      v[0] = m.getApplId();
      v[1] = m.getSubmittingPbuid();
      v[2] = m.getSecurityId();
      v[3] = m.getSecurityIdsource();
      v[4] = m.getOwnerType();
      v[5] = m.getClearingFirm();
      v[6] = m.getTransactTime();
      v[7] = m.getUserInfo();
      v[8] = m.getClOrdId();
      v[9] = m.getAccountId();
      v[10] = m.getBranchId();
      v[11] = m.getOrderRestrictions();
      v[12] = m.getSide();
      v[13] = m.getOrdType();
      v[14] = m.getOrderQty();
      v[15] = m.getPrice();
      v[16] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.NewOrder) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.NewOrder) o_).decode(b); }
  }
  static final class M_OrderCancelRequest implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.OrderCancelRequest(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.OrderCancelRequest m = (com.finproto.bjse.trade.messages.OrderCancelRequest) o_;
      m.setApplId((String) v[0]);
      m.setSubmittingPbuid((String) v[1]);
      m.setSecurityId((String) v[2]);
      m.setSecurityIdsource((String) v[3]);
      m.setOwnerType((short) (Short) v[4]);
      m.setClearingFirm((String) v[5]);
      m.setTransactTime((long) (Long) v[6]);
      m.setUserInfo((String) v[7]);
      m.setClOrdId((String) v[8]);
      m.setOrigClOrdId((String) v[9]);
      m.setAccountId((String) v[10]);
      m.setBranchId((String) v[11]);
      m.setOrderId((String) v[12]);
      m.setOrderQty((long) (Long) v[13]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.OrderCancelRequest m = (com.finproto.bjse.trade.messages.OrderCancelRequest) o_;
      Object[] v = new Object[14];
      v[0] = m.getApplId();
      v[1] = m.getSubmittingPbuid();
      v[2] = m.getSecurityId();
      v[3] = m.getSecurityIdsource();
      v[4] = m.getOwnerType();
      v[5] = m.getClearingFirm();
      v[6] = m.getTransactTime();
      v[7] = m.getUserInfo();
      v[8] = m.getClOrdId();
      v[9] = m.getOrigClOrdId();
      v[10] = m.getAccountId();
      v[11] = m.getBranchId();
      v[12] = m.getOrderId();
      v[13] = m.getOrderQty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.OrderCancelRequest) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.OrderCancelRequest) o_).decode(b); }
  }
  static final class M_PlatformInfo implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.PlatformInfo(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.PlatformInfo m = (com.finproto.bjse.trade.messages.PlatformInfo) o_;
      m.setPlatformId((short) (Short) v[0]);
      m.setNoPartitions((java.util.List) c.toRealList(v[1]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.PlatformInfo m = (com.finproto.bjse.trade.messages.PlatformInfo) o_;
      Object[] v = new Object[2];
      v[0] = m.getPlatformId();
      v[1] = c.toModelList((java.util.List) m.getNoPartitions());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.PlatformInfo) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.PlatformInfo) o_).decode(b); }
  }
  static final class M_PlatformInfo_NoPartitions implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.PlatformInfo.NoPartitions(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.PlatformInfo.NoPartitions m = (com.finproto.bjse.trade.messages.PlatformInfo.NoPartitions) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setPartitionName((String) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.PlatformInfo.NoPartitions m = (com.finproto.bjse.trade.messages.PlatformInfo.NoPartitions) o_;
      Object[] v = new Object[2];
      v[0] = m.getPartitionNo();
      v[1] = m.getPartitionName();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.PlatformInfo.NoPartitions) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.PlatformInfo.NoPartitions) o_).decode(b); }
  }
  static final class M_PlatformStateInfo implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.PlatformStateInfo(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.PlatformStateInfo m = (com.finproto.bjse.trade.messages.PlatformStateInfo) o_;
      m.setPlatformId((short) (Short) v[0]);
      m.setPlatformState((short) (Short) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.PlatformStateInfo m = (com.finproto.bjse.trade.messages.PlatformStateInfo) o_;
      Object[] v = new Object[2];
      v[0] = m.getPlatformId();
      v[1] = m.getPlatformState();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.PlatformStateInfo) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.PlatformStateInfo) o_).decode(b); }
  }
  static final class M_Quote implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.Quote(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.Quote m = (com.finproto.bjse.trade.messages.Quote) o_;
      m.setApplId((String) v[0]);
      m.setSubmittingPbuid((String) v[1]);
      m.setSecurityId((String) v[2]);
      m.setSecurityIdsource((String) v[3]);
      m.setOwnerType((short) (Short) v[4]);
      m.setClearingFirm((String) v[5]);
      m.setTransactTime((long) (Long) v[6]);
      m.setUserInfo((String) v[7]);
      m.setQuoteMsgId((String) v[8]);
      m.setAccountId((String) v[9]);
      m.setQuoteReqId((String) v[10]);
      m.setQuoteType((byte) (Byte) v[11]);
      m.setBidPx((long) (Long) v[12]);
      m.setOfferPx((long) (Long) v[13]);
      m.setBidSize((long) (Long) v[14]);
      m.setOfferSize((long) (Long) v[15]);
      m.setApplExtend((BinaryCodec) c.toReal(v[16]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.Quote m = (com.finproto.bjse.trade.messages.Quote) o_;
      Object[] v = new Object[17];
      v[0] = m.getApplId();
      v[1] = m.getSubmittingPbuid();
      v[2] = m.getSecurityId();
      v[3] = m.getSecurityIdsource();
      v[4] = m.getOwnerType();
      v[5] = m.getClearingFirm();
      v[6] = m.getTransactTime();
      v[7] = m.getUserInfo();
      v[8] = m.getQuoteMsgId();
      v[9] = m.getAccountId();
      v[10] = m.getQuoteReqId();
      v[11] = m.getQuoteType();
      v[12] = m.getBidPx();
      v[13] = m.getOfferPx();
      v[14] = m.getBidSize();
      v[15] = m.getOfferSize();
      v[16] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Quote) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.Quote) o_).decode(b); }
  }
  static final class M_QuoteExtend070 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.QuoteExtend070(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.QuoteExtend070 m = (com.finproto.bjse.trade.messages.QuoteExtend070) o_;
      m.setBranchId((String) v[0]);
      m.setQuoteId((String) v[1]);
      m.setQuoteRespId((String) v[2]);
      m.setPrivateQuote((byte) (Byte) v[3]);
      m.setValidUntilTime((long) (Long) v[4]);
      m.setPriceType((byte) (Byte) v[5]);
      m.setCashMargin((String) v[6]);
      m.setCounterPartyPbuid((String) v[7]);
      m.setMemo((String) v[8]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.QuoteExtend070 m = (com.finproto.bjse.trade.messages.QuoteExtend070) o_;
      Object[] v = new Object[9];
      v[0] = m.getBranchId();
      v[1] = m.getQuoteId();
      v[2] = m.getQuoteRespId();
      v[3] = m.getPrivateQuote();
      v[4] = m.getValidUntilTime();
      v[5] = m.getPriceType();
      v[6] = m.getCashMargin();
      v[7] = m.getCounterPartyPbuid();
      v[8] = m.getMemo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteExtend070) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteExtend070) o_).decode(b); }
  }
  static final class M_QuoteExtend071 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.QuoteExtend071(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.QuoteExtend071 m = (com.finproto.bjse.trade.messages.QuoteExtend071) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.QuoteExtend071 m = (com.finproto.bjse.trade.messages.QuoteExtend071) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteExtend071) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteExtend071) o_).decode(b); }
  }
  static final class M_QuoteResponse implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.QuoteResponse(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.QuoteResponse m = (com.finproto.bjse.trade.messages.QuoteResponse) o_;
      m.setApplId((String) v[0]);
      m.setReportingPbuid((String) v[1]);
      m.setSubmittingPbuid((String) v[2]);
      m.setSecurityId((String) v[3]);
      m.setSecurityIdsource((String) v[4]);
      m.setOwnerType((short) (Short) v[5]);
      m.setClearingFirm((String) v[6]);
      m.setTransactTime((long) (Long) v[7]);
      m.setUserInfo((String) v[8]);
      m.setClOrdId((String) v[9]);
      m.setAccountId((String) v[10]);
      m.setBranchId((String) v[11]);
      m.setQuoteRespId((String) v[12]);
      m.setQuoteRespType((byte) (Byte) v[13]);
      m.setSide((String) v[14]);
      m.setValidUntilTime((long) (Long) v[15]);
      m.setQuoteType((byte) (Byte) v[16]);
      m.setPriceType((byte) (Byte) v[17]);
      m.setQuote2((java.util.List) c.toRealList(v[18]));
      m.setApplExtend((BinaryCodec) c.toReal(v[19]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.QuoteResponse m = (com.finproto.bjse.trade.messages.QuoteResponse) o_;
      Object[] v = new Object[20];
      v[0] = m.getApplId();
      v[1] = m.getReportingPbuid();
      v[2] = m.getSubmittingPbuid();
      v[3] = m.getSecurityId();
      v[4] = m.getSecurityIdsource();
      v[5] = m.getOwnerType();
      v[6] = m.getClearingFirm();
      v[7] = m.getTransactTime();
      v[8] = m.getUserInfo();
      v[9] = m.getClOrdId();
      v[10] = m.getAccountId();
      v[11] = m.getBranchId();
      v[12] = m.getQuoteRespId();
      v[13] = m.getQuoteRespType();
      v[14] = m.getSide();
      v[15] = m.getValidUntilTime();
      v[16] = m.getQuoteType();
      v[17] = m.getPriceType();
      v[18] = c.toModelList((java.util.List) m.getQuote2());
      v[19] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteResponse) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteResponse) o_).decode(b); }
  }
  static final class M_QuoteResponse_Quote2 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.QuoteResponse.Quote2(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.QuoteResponse.Quote2 m = (com.finproto.bjse.trade.messages.QuoteResponse.Quote2) o_;
      m.setQuoteId((String) v[0]);
      m.setQuotePrice((long) (Long) v[1]);
      m.setQuoteQty((long) (Long) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.QuoteResponse.Quote2 m = (com.finproto.bjse.trade.messages.QuoteResponse.Quote2) o_;
      Object[] v = new Object[3];
      v[0] = m.getQuoteId();
      v[1] = m.getQuotePrice();
      v[2] = m.getQuoteQty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteResponse.Quote2) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteResponse.Quote2) o_).decode(b); }
  }
  static final class M_QuoteResponseExtend070 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.QuoteResponseExtend070(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.QuoteResponseExtend070 m = (com.finproto.bjse.trade.messages.QuoteResponseExtend070) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.QuoteResponseExtend070 m = (com.finproto.bjse.trade.messages.QuoteResponseExtend070) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteResponseExtend070) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteResponseExtend070) o_).decode(b); }
  }
  static final class M_QuoteStatusReport implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.QuoteStatusReport(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.QuoteStatusReport m = (com.finproto.bjse.trade.messages.QuoteStatusReport) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setQuoteMsgId((String) v[11]);
      m.setAccountId((String) v[12]);
      m.setQuoteReqId((String) v[13]);
      m.setQuoteRjectReason((long) (Long) v[14]);
      m.setQuoteType((byte) (Byte) v[15]);
      m.setBidPx((long) (Long) v[16]);
      m.setOfferPx((long) (Long) v[17]);
      m.setBidSize((long) (Long) v[18]);
      m.setOfferSize((long) (Long) v[19]);
      m.setApplExtend((BinaryCodec) c.toReal(v[20]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.QuoteStatusReport m = (com.finproto.bjse.trade.messages.QuoteStatusReport) o_;
      Object[] v = new Object[21];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getQuoteMsgId();
      v[12] = m.getAccountId();
      v[13] = m.getQuoteReqId();
      v[14] = m.getQuoteRjectReason();
      v[15] = m.getQuoteType();
      v[16] = m.getBidPx();
      v[17] = m.getOfferPx();
      v[18] = m.getBidSize();
      v[19] = m.getOfferSize();
      v[20] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteStatusReport) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteStatusReport) o_).decode(b); }
  }
  static final class M_QuoteStatusReportExtend070 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.QuoteStatusReportExtend070(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.QuoteStatusReportExtend070 m = (com.finproto.bjse.trade.messages.QuoteStatusReportExtend070) o_;
      m.setBranchId((String) v[0]);
      m.setOrderId((String) v[1]);
      m.setExecId((String) v[2]);
      m.setQuoteRespId((String) v[3]);
      m.setPrivateQuote((byte) (Byte) v[4]);
      m.setSide((String) v[5]);
      m.setPriceType((byte) (Byte) v[6]);
      m.setValidUntilTime((long) (Long) v[7]);
      m.setCashMargin((String) v[8]);
      m.setCounterPartyPbuid((String) v[9]);
      m.setMemo((String) v[10]);
      m.setQuote1((java.util.List) c.toRealList(v[11]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.QuoteStatusReportExtend070 m = (com.finproto.bjse.trade.messages.QuoteStatusReportExtend070) o_;
      Object[] v = new Object[12];
      v[0] = m.getBranchId();
      v[1] = m.getOrderId();
      v[2] = m.getExecId();
      v[3] = m.getQuoteRespId();
      v[4] = m.getPrivateQuote();
      v[5] = m.getSide();
      v[6] = m.getPriceType();
      v[7] = m.getValidUntilTime();
      v[8] = m.getCashMargin();
      v[9] = m.getCounterPartyPbuid();
      v[10] = m.getMemo();
      v[11] = c.toModelList((java.util.List) m.getQuote1());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteStatusReportExtend070) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteStatusReportExtend070) o_).decode(b); }
  }
  static final class M_QuoteStatusReportExtend070_Quote1 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.QuoteStatusReportExtend070.Quote1(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.QuoteStatusReportExtend070.Quote1 m = (com.finproto.bjse.trade.messages.QuoteStatusReportExtend070.Quote1) o_;
      m.setQuoteId((String) v[0]);
      m.setQuotePrice((long) (Long) v[1]);
      m.setQuoteQty((long) (Long) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.QuoteStatusReportExtend070.Quote1 m = (com.finproto.bjse.trade.messages.QuoteStatusReportExtend070.Quote1) o_;
      Object[] v = new Object[3];
      v[0] = m.getQuoteId();
      v[1] = m.getQuotePrice();
      v[2] = m.getQuoteQty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteStatusReportExtend070.Quote1) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.QuoteStatusReportExtend070.Quote1) o_).decode(b); }
  }
  static final class M_ReportExtend010 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ReportExtend010(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ReportExtend010 m = (com.finproto.bjse.trade.messages.ReportExtend010) o_;
      m.setCashMargin((String) v[0]);
      m.setSettlType((String) v[1]);
      m.setSettlPeriod((String) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ReportExtend010 m = (com.finproto.bjse.trade.messages.ReportExtend010) o_;
      Object[] v = new Object[3];
      v[0] = m.getCashMargin();
      v[1] = m.getSettlType();
      v[2] = m.getSettlPeriod();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportExtend010) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportExtend010) o_).decode(b); }
  }
  static final class M_ReportExtend040 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ReportExtend040(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ReportExtend040 m = (com.finproto.bjse.trade.messages.ReportExtend040) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ReportExtend040 m = (com.finproto.bjse.trade.messages.ReportExtend040) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportExtend040) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportExtend040) o_).decode(b); }
  }
  static final class M_ReportExtend050 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ReportExtend050(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ReportExtend050 m = (com.finproto.bjse.trade.messages.ReportExtend050) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setMaturityDate((int) (Integer) v[2]);
      m.setShareProperty((String) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ReportExtend050 m = (com.finproto.bjse.trade.messages.ReportExtend050) o_;
      Object[] v = new Object[4];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getMaturityDate();
      v[3] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportExtend050) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportExtend050) o_).decode(b); }
  }
  static final class M_ReportFinished implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ReportFinished(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ReportFinished m = (com.finproto.bjse.trade.messages.ReportFinished) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setPlatformId((short) (Short) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ReportFinished m = (com.finproto.bjse.trade.messages.ReportFinished) o_;
      Object[] v = new Object[3];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getPlatformId();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportFinished) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportFinished) o_).decode(b); }
  }
  static final class M_ReportSynchronization implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ReportSynchronization(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ReportSynchronization m = (com.finproto.bjse.trade.messages.ReportSynchronization) o_;
      m.setReportPartitionSync((java.util.List) c.toRealList(v[0]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ReportSynchronization m = (com.finproto.bjse.trade.messages.ReportSynchronization) o_;
      Object[] v = new Object[1];
      v[0] = c.toModelList((java.util.List) m.getReportPartitionSync());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportSynchronization) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportSynchronization) o_).decode(b); }
  }
  static final class M_ReportSynchronization_ReportPartitionSync implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.ReportSynchronization.ReportPartitionSync(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.ReportSynchronization.ReportPartitionSync m = (com.finproto.bjse.trade.messages.ReportSynchronization.ReportPartitionSync) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.ReportSynchronization.ReportPartitionSync m = (com.finproto.bjse.trade.messages.ReportSynchronization.ReportPartitionSync) o_;
      Object[] v = new Object[2];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportSynchronization.ReportPartitionSync) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.ReportSynchronization.ReportPartitionSync) o_).decode(b); }
  }
  static final class M_TradeCaptureCofirm implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureCofirm(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirm m = (com.finproto.bjse.trade.messages.TradeCaptureCofirm) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setTradeId((String) v[11]);
      m.setTradeReportId((String) v[12]);
      m.setTradeReportType((byte) (Byte) v[13]);
      m.setTradeReportTransType((byte) (Byte) v[14]);
      m.setTradeHandlingInstr((byte) (Byte) v[15]);
      m.setLastPx((long) (Long) v[16]);
      m.setLastQty((long) (Long) v[17]);
      m.setTrdType((short) (Short) v[18]);
      m.setTrdSubType((short) (Short) v[19]);
      m.setConfirmId((int) (Integer) v[20]);
      m.setExecId((String) v[21]);
      m.setSide((byte) (Byte) v[22]);
      m.setPbuid((String) v[23]);
      m.setAccountId((String) v[24]);
      m.setBranchId((String) v[25]);
      m.setCounterPartyPbuid((String) v[26]);
      m.setCounterPartyAccountId((String) v[27]);
      m.setCounterPartyBranchId((String) v[28]);
      m.setApplExtend((BinaryCodec) c.toReal(v[29]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirm m = (com.finproto.bjse.trade.messages.TradeCaptureCofirm) o_;
      Object[] v = new Object[30];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getTradeId();
      v[12] = m.getTradeReportId();
      v[13] = m.getTradeReportType();
      v[14] = m.getTradeReportTransType();
      v[15] = m.getTradeHandlingInstr();
      v[16] = m.getLastPx();
      v[17] = m.getLastQty();
      v[18] = m.getTrdType();
      v[19] = m.getTrdSubType();
      v[20] = m.getConfirmId();
      v[21] = m.getExecId();
      v[22] = m.getSide();
      v[23] = m.getPbuid();
      v[24] = m.getAccountId();
      v[25] = m.getBranchId();
      v[26] = m.getCounterPartyPbuid();
      v[27] = m.getCounterPartyAccountId();
      v[28] = m.getCounterPartyBranchId();
      v[29] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirm) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirm) o_).decode(b); }
  }
  static final class M_TradeCaptureCofirmExtend031 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend031(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend031 m = (com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend031) o_;
      m.setMemberId((String) v[0]);
      m.setTraderCode((String) v[1]);
      m.setCounterPartyMemberId((String) v[2]);
      m.setCounterPartyTraderCode((String) v[3]);
      m.setSettlType((byte) (Byte) v[4]);
      m.setSettlPeriod((byte) (Byte) v[5]);
      m.setCashMargin((byte) (Byte) v[6]);
      m.setMemo((String) v[7]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend031 m = (com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend031) o_;
      Object[] v = new Object[8];
      v[0] = m.getMemberId();
      v[1] = m.getTraderCode();
      v[2] = m.getCounterPartyMemberId();
      v[3] = m.getCounterPartyTraderCode();
      v[4] = m.getSettlType();
      v[5] = m.getSettlPeriod();
      v[6] = m.getCashMargin();
      v[7] = m.getMemo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend031) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend031) o_).decode(b); }
  }
  static final class M_TradeCaptureCofirmExtend051 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend051(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend051 m = (com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend051) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setMaturityDate((int) (Integer) v[2]);
      m.setShareProperty((String) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend051 m = (com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend051) o_;
      Object[] v = new Object[4];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getMaturityDate();
      v[3] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend051) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend051) o_).decode(b); }
  }
  static final class M_TradeCaptureCofirmExtend060 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend060(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend060 m = (com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend060) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend060 m = (com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend060) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend060) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend060) o_).decode(b); }
  }
  static final class M_TradeCaptureCofirmExtend061 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend061(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend061 m = (com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend061) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend061 m = (com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend061) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend061) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend061) o_).decode(b); }
  }
  static final class M_TradeCaptureCofirmExtend062 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend062(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend062 m = (com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend062) o_;
      m.setCashMargin((byte) (Byte) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend062 m = (com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend062) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend062) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureCofirmExtend062) o_).decode(b); }
  }
  static final class M_TradeCaptureConfirm implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureConfirm(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirm m = (com.finproto.bjse.trade.messages.TradeCaptureConfirm) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setTradeId((String) v[11]);
      m.setTradeReportId((String) v[12]);
      m.setTradeReportType((byte) (Byte) v[13]);
      m.setTradeReportTransType((byte) (Byte) v[14]);
      m.setTradeHandlingInstr((String) v[15]);
      m.setLastPx((long) (Long) v[16]);
      m.setLastQty((long) (Long) v[17]);
      m.setTrdType((short) (Short) v[18]);
      m.setTrdSubType((short) (Short) v[19]);
      m.setConfirmId((int) (Integer) v[20]);
      m.setExecId((String) v[21]);
      m.setSide((String) v[22]);
      m.setPbuid((String) v[23]);
      m.setAccountId((String) v[24]);
      m.setBranchId((String) v[25]);
      m.setCounterPartyPbuid((String) v[26]);
      m.setCounterPartyAccountId((String) v[27]);
      m.setCounterPartyBranchId((String) v[28]);
      m.setApplExtend((BinaryCodec) c.toReal(v[29]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirm m = (com.finproto.bjse.trade.messages.TradeCaptureConfirm) o_;
      Object[] v = new Object[30];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getTradeId();
      v[12] = m.getTradeReportId();
      v[13] = m.getTradeReportType();
      v[14] = m.getTradeReportTransType();
      v[15] = m.getTradeHandlingInstr();
      v[16] = m.getLastPx();
      v[17] = m.getLastQty();
      v[18] = m.getTrdType();
      v[19] = m.getTrdSubType();
      v[20] = m.getConfirmId();
      v[21] = m.getExecId();
      v[22] = m.getSide();
      v[23] = m.getPbuid();
      v[24] = m.getAccountId();
      v[25] = m.getBranchId();
      v[26] = m.getCounterPartyPbuid();
      v[27] = m.getCounterPartyAccountId();
      v[28] = m.getCounterPartyBranchId();
      v[29] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirm) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirm) o_).decode(b); }
  }
  static final class M_TradeCaptureConfirmExtend031 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend031(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend031 m = (com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend031) o_;
      m.setMemberId((String) v[0]);
      m.setTraderCode((String) v[1]);
      m.setCounterPartyMemberId((String) v[2]);
      m.setCounterPartyTraderCode((String) v[3]);
      m.setSettlType((String) v[4]);
      m.setSettlPeriod((String) v[5]);
      m.setCashMargin((String) v[6]);
      m.setMemo((String) v[7]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend031 m = (com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend031) o_;
      Object[] v = new Object[8];
      v[0] = m.getMemberId();
      v[1] = m.getTraderCode();
      v[2] = m.getCounterPartyMemberId();
      v[3] = m.getCounterPartyTraderCode();
      v[4] = m.getSettlType();
      v[5] = m.getSettlPeriod();
      v[6] = m.getCashMargin();
      v[7] = m.getMemo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend031) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend031) o_).decode(b); }
  }
  static final class M_TradeCaptureConfirmExtend051 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend051(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend051 m = (com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend051) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setMaturityDate((int) (Integer) v[2]);
      m.setShareProperty((String) v[3]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend051 m = (com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend051) o_;
      Object[] v = new Object[4];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getMaturityDate();
      v[3] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend051) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend051) o_).decode(b); }
  }
  static final class M_TradeCaptureConfirmExtend060 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend060(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend060 m = (com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend060) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend060 m = (com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend060) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend060) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend060) o_).decode(b); }
  }
  static final class M_TradeCaptureConfirmExtend061 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend061(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend061 m = (com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend061) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend061 m = (com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend061) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend061) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend061) o_).decode(b); }
  }
  static final class M_TradeCaptureConfirmExtend062 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend062(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend062 m = (com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend062) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend062 m = (com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend062) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend062) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureConfirmExtend062) o_).decode(b); }
  }
  static final class M_TradeCaptureReport implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReport(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReport m = (com.finproto.bjse.trade.messages.TradeCaptureReport) o_;
      m.setApplId((String) v[0]);
      m.setSubmittingPbuid((String) v[1]);
      m.setSecurityId((String) v[2]);
      m.setSecurityIdsource((String) v[3]);
      m.setOwnerType((short) (Short) v[4]);
      m.setClearingFirm((String) v[5]);
      m.setTransactTime((long) (Long) v[6]);
      m.setUserInfo((String) v[7]);
      m.setTradeReportId((String) v[8]);
      m.setTradeReportType((byte) (Byte) v[9]);
      m.setTradeReportTransType((byte) (Byte) v[10]);
      m.setTradeHandlingInstr((String) v[11]);
      m.setTradeReportRefId((String) v[12]);
      m.setLastPx((long) (Long) v[13]);
      m.setLastQty((long) (Long) v[14]);
      m.setTrdType((short) (Short) v[15]);
      m.setTrdSubType((short) (Short) v[16]);
      m.setConfirmId((int) (Integer) v[17]);
      m.setSide((String) v[18]);
      m.setPbuid((String) v[19]);
      m.setAccountId((String) v[20]);
      m.setBranchId((String) v[21]);
      m.setCounterPartyPbuid((String) v[22]);
      m.setCounterPartyAccountId((String) v[23]);
      m.setCounterPartyBranchId((String) v[24]);
      m.setApplExtend((BinaryCodec) c.toReal(v[25]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReport m = (com.finproto.bjse.trade.messages.TradeCaptureReport) o_;
      Object[] v = new Object[26];
      v[0] = m.getApplId();
      v[1] = m.getSubmittingPbuid();
      v[2] = m.getSecurityId();
      v[3] = m.getSecurityIdsource();
      v[4] = m.getOwnerType();
      v[5] = m.getClearingFirm();
      v[6] = m.getTransactTime();
      v[7] = m.getUserInfo();
      v[8] = m.getTradeReportId();
      v[9] = m.getTradeReportType();
      v[10] = m.getTradeReportTransType();
      v[11] = m.getTradeHandlingInstr();
      v[12] = m.getTradeReportRefId();
      v[13] = m.getLastPx();
      v[14] = m.getLastQty();
      v[15] = m.getTrdType();
      v[16] = m.getTrdSubType();
      v[17] = m.getConfirmId();
      v[18] = m.getSide();
      v[19] = m.getPbuid();
      v[20] = m.getAccountId();
      v[21] = m.getBranchId();
      v[22] = m.getCounterPartyPbuid();
      v[23] = m.getCounterPartyAccountId();
      v[24] = m.getCounterPartyBranchId();
      v[25] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReport) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReport) o_).decode(b); }
  }
  static final class M_TradeCaptureReportAck implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportAck(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAck m = (com.finproto.bjse.trade.messages.TradeCaptureReportAck) o_;
      m.setPartitionNo((int) (Integer) v[0]);
      m.setReportIndex((long) (Long) v[1]);
      m.setApplId((String) v[2]);
      m.setReportingPbuid((String) v[3]);
      m.setSubmittingPbuid((String) v[4]);
      m.setSecurityId((String) v[5]);
      m.setSecurityIdsource((String) v[6]);
      m.setOwnerType((short) (Short) v[7]);
      m.setClearingFirm((String) v[8]);
      m.setTransactTime((long) (Long) v[9]);
      m.setUserInfo((String) v[10]);
      m.setTradeId((String) v[11]);
      m.setTradeReportId((String) v[12]);
      m.setTradeReportType((byte) (Byte) v[13]);
      m.setTradeReportTransType((byte) (Byte) v[14]);
      m.setTradeHandlingInstr((String) v[15]);
      m.setTradeReportRefId((String) v[16]);
      m.setTrdAckStatus((byte) (Byte) v[17]);
      m.setTrdRptStatus((byte) (Byte) v[18]);
      m.setTradeReportRejectReason((short) (Short) v[19]);
      m.setLastPx((long) (Long) v[20]);
      m.setLastQty((long) (Long) v[21]);
      m.setTrdType((short) (Short) v[22]);
      m.setTrdSubType((short) (Short) v[23]);
      m.setConfirmId((int) (Integer) v[24]);
      m.setExecId((String) v[25]);
      m.setSide((String) v[26]);
      m.setPbuid((String) v[27]);
      m.setAccountId((String) v[28]);
      m.setBranchId((String) v[29]);
      m.setCounterPartyPbuid((String) v[30]);
      m.setCounterPartyAccountId((String) v[31]);
      m.setCounterPartyBranchId((String) v[32]);
      m.setApplExtend((BinaryCodec) c.toReal(v[33]));
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAck m = (com.finproto.bjse.trade.messages.TradeCaptureReportAck) o_;
      Object[] v = new Object[34];
      v[0] = m.getPartitionNo();
      v[1] = m.getReportIndex();
      v[2] = m.getApplId();
      v[3] = m.getReportingPbuid();
      v[4] = m.getSubmittingPbuid();
      v[5] = m.getSecurityId();
      v[6] = m.getSecurityIdsource();
      v[7] = m.getOwnerType();
      v[8] = m.getClearingFirm();
      v[9] = m.getTransactTime();
      v[10] = m.getUserInfo();
      v[11] = m.getTradeId();
      v[12] = m.getTradeReportId();
      v[13] = m.getTradeReportType();
      v[14] = m.getTradeReportTransType();
      v[15] = m.getTradeHandlingInstr();
      v[16] = m.getTradeReportRefId();
      v[17] = m.getTrdAckStatus();
      v[18] = m.getTrdRptStatus();
      v[19] = m.getTradeReportRejectReason();
      v[20] = m.getLastPx();
      v[21] = m.getLastQty();
      v[22] = m.getTrdType();
      v[23] = m.getTrdSubType();
      v[24] = m.getConfirmId();
      v[25] = m.getExecId();
      v[26] = m.getSide();
      v[27] = m.getPbuid();
      v[28] = m.getAccountId();
      v[29] = m.getBranchId();
      v[30] = m.getCounterPartyPbuid();
      v[31] = m.getCounterPartyAccountId();
      v[32] = m.getCounterPartyBranchId();
      v[33] = c.toModel(m.getApplExtend());
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAck) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAck) o_).decode(b); }
  }
  static final class M_TradeCaptureReportAckExtend031 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend031(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend031 m = (com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend031) o_;
      m.setMemberId((String) v[0]);
      m.setTraderCode((String) v[1]);
      m.setCounterPartyMemberId((String) v[2]);
      m.setCounterPartyTraderCode((String) v[3]);
      m.setSettlType((String) v[4]);
      m.setSettlPeriod((String) v[5]);
      m.setCashMargin((String) v[6]);
      m.setMemo((String) v[7]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend031 m = (com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend031) o_;
      Object[] v = new Object[8];
      v[0] = m.getMemberId();
      v[1] = m.getTraderCode();
      v[2] = m.getCounterPartyMemberId();
      v[3] = m.getCounterPartyTraderCode();
      v[4] = m.getSettlType();
      v[5] = m.getSettlPeriod();
      v[6] = m.getCashMargin();
      v[7] = m.getMemo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend031) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend031) o_).decode(b); }
  }
  static final class M_TradeCaptureReportAckExtend051 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend051(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend051 m = (com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend051) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setShareProperty((String) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend051 m = (com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend051) o_;
      Object[] v = new Object[3];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend051) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend051) o_).decode(b); }
  }
  static final class M_TradeCaptureReportAckExtend060 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend060(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend060 m = (com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend060) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend060 m = (com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend060) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend060) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend060) o_).decode(b); }
  }
  static final class M_TradeCaptureReportAckExtend061 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend061(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend061 m = (com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend061) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend061 m = (com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend061) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend061) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend061) o_).decode(b); }
  }
  static final class M_TradeCaptureReportAckExtend062 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend062(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend062 m = (com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend062) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend062 m = (com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend062) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend062) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportAckExtend062) o_).decode(b); }
  }
  static final class M_TradeCaptureReportExtend031 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportExtend031(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportExtend031 m = (com.finproto.bjse.trade.messages.TradeCaptureReportExtend031) o_;
      m.setMemberId((String) v[0]);
      m.setTraderCode((String) v[1]);
      m.setCounterPartyMemberId((String) v[2]);
      m.setCounterPartyTraderCode((String) v[3]);
      m.setSettlType((String) v[4]);
      m.setSettlPeriod((String) v[5]);
      m.setCashMargin((String) v[6]);
      m.setMemo((String) v[7]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportExtend031 m = (com.finproto.bjse.trade.messages.TradeCaptureReportExtend031) o_;
      Object[] v = new Object[8];
      v[0] = m.getMemberId();
      v[1] = m.getTraderCode();
      v[2] = m.getCounterPartyMemberId();
      v[3] = m.getCounterPartyTraderCode();
      v[4] = m.getSettlType();
      v[5] = m.getSettlPeriod();
      v[6] = m.getCashMargin();
      v[7] = m.getMemo();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportExtend031) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportExtend031) o_).decode(b); }
  }
  static final class M_TradeCaptureReportExtend051 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportExtend051(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportExtend051 m = (com.finproto.bjse.trade.messages.TradeCaptureReportExtend051) o_;
      m.setExpirationDays((short) (Short) v[0]);
      m.setExpirationType((byte) (Byte) v[1]);
      m.setShareProperty((String) v[2]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportExtend051 m = (com.finproto.bjse.trade.messages.TradeCaptureReportExtend051) o_;
      Object[] v = new Object[3];
      v[0] = m.getExpirationDays();
      v[1] = m.getExpirationType();
      v[2] = m.getShareProperty();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportExtend051) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportExtend051) o_).decode(b); }
  }
  static final class M_TradeCaptureReportExtend060 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportExtend060(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportExtend060 m = (com.finproto.bjse.trade.messages.TradeCaptureReportExtend060) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportExtend060 m = (com.finproto.bjse.trade.messages.TradeCaptureReportExtend060) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportExtend060) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportExtend060) o_).decode(b); }
  }
  static final class M_TradeCaptureReportExtend061 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportExtend061(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportExtend061 m = (com.finproto.bjse.trade.messages.TradeCaptureReportExtend061) o_;
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportExtend061 m = (com.finproto.bjse.trade.messages.TradeCaptureReportExtend061) o_;
      Object[] v = new Object[0];
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportExtend061) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportExtend061) o_).decode(b); }
  }
  static final class M_TradeCaptureReportExtend062 implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradeCaptureReportExtend062(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportExtend062 m = (com.finproto.bjse.trade.messages.TradeCaptureReportExtend062) o_;
      m.setCashMargin((String) v[0]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradeCaptureReportExtend062 m = (com.finproto.bjse.trade.messages.TradeCaptureReportExtend062) o_;
      Object[] v = new Object[1];
      v[0] = m.getCashMargin();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportExtend062) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradeCaptureReportExtend062) o_).decode(b); }
  }
  static final class M_TradingSessionStatus implements MsgBridge {
    public Object fresh() { return new com.finproto.bjse.trade.messages.TradingSessionStatus(); }
    public void fill(Object o_, Object[] v, Conv c) {
      com.finproto.bjse.trade.messages.TradingSessionStatus m = (com.finproto.bjse.trade.messages.TradingSessionStatus) o_;
      m.setMarketId((String) v[0]);
      m.setMarketSegmentId((String) v[1]);
      m.setTradingSessionId((String) v[2]);
      m.setTradingSessionSubId((String) v[3]);
      m.setTradSesStatus((byte) (Byte) v[4]);
      m.setTradSesStartTime((long) (Long) v[5]);
    }
    public Object[] read(Object o_, Conv c) {
      com.finproto.bjse.trade.messages.TradingSessionStatus m = (com.finproto.bjse.trade.messages.TradingSessionStatus) o_;
      Object[] v = new Object[6];
      v[0] = m.getMarketId();
      v[1] = m.getMarketSegmentId();
      v[2] = m.getTradingSessionId();
      v[3] = m.getTradingSessionSubId();
      v[4] = m.getTradSesStatus();
      v[5] = m.getTradSesStartTime();
      return v;
    }
    public void encode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradingSessionStatus) o_).encode(b); }
    public void decode(Object o_, io.netty.buffer.ByteBuf b) { ((com.finproto.bjse.trade.messages.TradingSessionStatus) o_).decode(b); }
  }
}
