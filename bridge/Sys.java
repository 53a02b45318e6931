// Generated by tools/gen_sysbridge.py
package vbridge;

import com.finproto.bitmap.*;
import com.finproto.codec.*;
import io.netty.buffer.ByteBuf;
import java.util.function.Supplier;
import vsim.*;

public final class Sys implements SysBridge {
  static final class Stub implements ChecksumService<ByteBuf, Integer> {
    final String name;
    final int id;

    Stub(String name, int id) {
      this.name = name;
      this.id = id;
    }

    public Integer calc(ByteBuf b) {
      return id;
    }

    public String algorithm() {
      return name;
    }
  }

  static final class Hook implements ChecksumService<ByteBuf, Integer> {
    final String name;
    final java.util.function.ToIntFunction<ByteBuf> f;

    Hook(String name, java.util.function.ToIntFunction<ByteBuf> f) {
      this.name = name;
      this.f = f;
    }

    public Integer calc(ByteBuf b) {
      return f.applyAsInt(b);
    }

    public String algorithm() {
      return name;
    }
  }

  static final class Custom implements BinaryCodec {
    final int id;
    final CustomBody cb;

    Custom(int id, CustomBody cb) {
      this.id = id;
      this.cb = cb;
    }

    public void encode(ByteBuf b) {
      if (cb != null) cb.encode(b);
    }

    public void decode(ByteBuf b) {
      if (cb != null) cb.decode(b);
    }

    @Override
    public String toString() {
      String s = cb == null ? null : cb.text();
      return s == null ? super.toString() : s;
    }
  }

  static final class OwnLogon extends com.finproto.sse.bin.messages.Logon {}

  static final class OwnOrder extends com.finproto.sse.bin.messages.NewOrderSingle {}

  private static final BinaryCodec TEXT = new Custom(0, null);

  public Object newService(String kind) {
    switch (kind) {
      case "CRC16": return new Crc16ChecksumService();
      case "CRC32": return new Crc32ChecksumService();
      case "SSE_BIN": return new SseBinChecksumService();
      case "SZSE_BIN": return new SzseBinChecksumService();
      default: throw new IllegalStateException(kind);
    }
  }

  public Object stubService(String name, int id) { return new Stub(name, id); }

  public Object hookService(String name, java.util.function.ToIntFunction<ByteBuf> f) { return new Hook(name, f); }

  public int stubId(Object svc) { return svc instanceof Stub ? ((Stub) svc).id : -1; }

  @SuppressWarnings("unchecked")
  private static ChecksumService<ByteBuf, Integer> svc(Object o) { return (ChecksumService<ByteBuf, Integer>) o; }

  public int calc(Object s, ByteBuf b) { return svc(s).calc(b); }

  public boolean verify(Object s, ByteBuf b, int expected) { return svc(s).verify(b, expected); }

  public String algorithm(Object s) { return svc(s).algorithm(); }

  public boolean registry(Object s) { return ChecksumServiceFactory.getInstance().registry(svc(s)); }

  public Object lookup(String name) {
    ChecksumService<ByteBuf, Integer> s = ChecksumServiceFactory.getInstance().getChecksumService(name);
    return s;
  }

  public void removeService(String name) { ChecksumServiceFactory.getInstance().removeChecksumService(name); }

  public void clearServices() { ChecksumServiceFactory.getInstance().clearAllChecksumService(); }

  public Object create(String owner, Object key) {
    switch (owner) {
      case "com.finproto.sse.bin.messages.SseBinary": return com.finproto.sse.bin.messages.SseBinary.BodyMessageFactory.getInstance().create((Integer) key);
      case "com.finproto.szse.bin.messages.SzseBinary": return com.finproto.szse.bin.messages.SzseBinary.BodyMessageFactory.getInstance().create((Integer) key);
      case "com.finproto.bjse.trade.messages.BjseBinary": return com.finproto.bjse.trade.messages.BjseBinary.BodyMessageFactory.getInstance().create((Integer) key);
      case "com.finproto.risk.bin.messages.RcBinary": return com.finproto.risk.bin.messages.RcBinary.BodyMessageFactory.getInstance().create((Integer) key);
      case "com.finproto.sample.messages.RootPacket": return com.finproto.sample.messages.RootPacket.PayloadMessageFactory.getInstance().create((Short) key);
      case "com.finproto.bjse.trade.messages.ExecutionReport": return com.finproto.bjse.trade.messages.ExecutionReport.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.bjse.trade.messages.NewOrder": return com.finproto.bjse.trade.messages.NewOrder.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.bjse.trade.messages.TradeCaptureConfirm": return com.finproto.bjse.trade.messages.TradeCaptureConfirm.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.bjse.trade.messages.TradeCaptureReportAck": return com.finproto.bjse.trade.messages.TradeCaptureReportAck.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.bjse.trade.messages.QuoteStatusReport": return com.finproto.bjse.trade.messages.QuoteStatusReport.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.bjse.trade.messages.QuoteResponse": return com.finproto.bjse.trade.messages.QuoteResponse.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.bjse.trade.messages.Quote": return com.finproto.bjse.trade.messages.Quote.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.bjse.trade.messages.AllegeQuote": return com.finproto.bjse.trade.messages.AllegeQuote.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.bjse.trade.messages.ExecutionConfirm": return com.finproto.bjse.trade.messages.ExecutionConfirm.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.bjse.trade.messages.TradeCaptureReport": return com.finproto.bjse.trade.messages.TradeCaptureReport.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.szse.bin.messages.ExecutionReport": return com.finproto.szse.bin.messages.ExecutionReport.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.szse.bin.messages.NewOrder": return com.finproto.szse.bin.messages.NewOrder.ApplExtendMessageFactory.getInstance().create((String) key);
      case "com.finproto.szse.bin.messages.ExecutionConfirm": return com.finproto.szse.bin.messages.ExecutionConfirm.ApplExtendMessageFactory.getInstance().create((String) key);
      default: throw new IllegalStateException("no registry " + owner);
    }
  }

  public void register(String owner, Object key, Object sample, Supplier<Object> s) {
    switch (owner) {
      case "com.finproto.sse.bin.messages.SseBinary": com.finproto.sse.bin.messages.SseBinary.BodyMessageFactory.getInstance().register(sample.getClass(), (Integer) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.szse.bin.messages.SzseBinary": com.finproto.szse.bin.messages.SzseBinary.BodyMessageFactory.getInstance().register((Integer) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.BjseBinary": com.finproto.bjse.trade.messages.BjseBinary.BodyMessageFactory.getInstance().register((Integer) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.risk.bin.messages.RcBinary": com.finproto.risk.bin.messages.RcBinary.BodyMessageFactory.getInstance().register((Integer) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.sample.messages.RootPacket": com.finproto.sample.messages.RootPacket.PayloadMessageFactory.getInstance().register((Short) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.ExecutionReport": com.finproto.bjse.trade.messages.ExecutionReport.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.NewOrder": com.finproto.bjse.trade.messages.NewOrder.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.TradeCaptureConfirm": com.finproto.bjse.trade.messages.TradeCaptureConfirm.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.TradeCaptureReportAck": com.finproto.bjse.trade.messages.TradeCaptureReportAck.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.QuoteStatusReport": com.finproto.bjse.trade.messages.QuoteStatusReport.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.QuoteResponse": com.finproto.bjse.trade.messages.QuoteResponse.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.Quote": com.finproto.bjse.trade.messages.Quote.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.AllegeQuote": com.finproto.bjse.trade.messages.AllegeQuote.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.ExecutionConfirm": com.finproto.bjse.trade.messages.ExecutionConfirm.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.bjse.trade.messages.TradeCaptureReport": com.finproto.bjse.trade.messages.TradeCaptureReport.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.szse.bin.messages.ExecutionReport": com.finproto.szse.bin.messages.ExecutionReport.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.szse.bin.messages.NewOrder": com.finproto.szse.bin.messages.NewOrder.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      case "com.finproto.szse.bin.messages.ExecutionConfirm": com.finproto.szse.bin.messages.ExecutionConfirm.ApplExtendMessageFactory.getInstance().register((String) key, () -> (BinaryCodec) s.get()); return;
      default: throw new IllegalStateException("no registry " + owner);
    }
  }

  public boolean remove(String owner, Object key) {
    switch (owner) {
      case "com.finproto.sse.bin.messages.SseBinary": return com.finproto.sse.bin.messages.SseBinary.BodyMessageFactory.getInstance().remove((Integer) key);
      case "com.finproto.szse.bin.messages.SzseBinary": return com.finproto.szse.bin.messages.SzseBinary.BodyMessageFactory.getInstance().remove((Integer) key);
      case "com.finproto.bjse.trade.messages.BjseBinary": return com.finproto.bjse.trade.messages.BjseBinary.BodyMessageFactory.getInstance().remove((Integer) key);
      case "com.finproto.risk.bin.messages.RcBinary": return com.finproto.risk.bin.messages.RcBinary.BodyMessageFactory.getInstance().remove((Integer) key);
      case "com.finproto.sample.messages.RootPacket": return com.finproto.sample.messages.RootPacket.PayloadMessageFactory.getInstance().remove((Short) key);
      case "com.finproto.bjse.trade.messages.ExecutionReport": return com.finproto.bjse.trade.messages.ExecutionReport.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.bjse.trade.messages.NewOrder": return com.finproto.bjse.trade.messages.NewOrder.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.bjse.trade.messages.TradeCaptureConfirm": return com.finproto.bjse.trade.messages.TradeCaptureConfirm.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.bjse.trade.messages.TradeCaptureReportAck": return com.finproto.bjse.trade.messages.TradeCaptureReportAck.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.bjse.trade.messages.QuoteStatusReport": return com.finproto.bjse.trade.messages.QuoteStatusReport.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.bjse.trade.messages.QuoteResponse": return com.finproto.bjse.trade.messages.QuoteResponse.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.bjse.trade.messages.Quote": return com.finproto.bjse.trade.messages.Quote.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.bjse.trade.messages.AllegeQuote": return com.finproto.bjse.trade.messages.AllegeQuote.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.bjse.trade.messages.ExecutionConfirm": return com.finproto.bjse.trade.messages.ExecutionConfirm.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.bjse.trade.messages.TradeCaptureReport": return com.finproto.bjse.trade.messages.TradeCaptureReport.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.szse.bin.messages.ExecutionReport": return com.finproto.szse.bin.messages.ExecutionReport.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.szse.bin.messages.NewOrder": return com.finproto.szse.bin.messages.NewOrder.ApplExtendMessageFactory.getInstance().remove((String) key);
      case "com.finproto.szse.bin.messages.ExecutionConfirm": return com.finproto.szse.bin.messages.ExecutionConfirm.ApplExtendMessageFactory.getInstance().remove((String) key);
      default: throw new IllegalStateException("no registry " + owner);
    }
  }

  public Object customBody(int id, CustomBody cb) { return new Custom(id, cb); }

  public int customId(Object o) { return o instanceof Custom ? ((Custom) o).id : -1; }

  public Class<?>[] sseSubclasses() { return new Class<?>[] {OwnLogon.class, OwnOrder.class}; }

  public Integer sseTypeOf(Class<?> c) { return com.finproto.sse.bin.messages.SseBinary.BodyMessageFactory.getInstance().getMsgType(c); }

  public void sseRegister(Class<?> c, int type, Supplier<Object> s) { com.finproto.sse.bin.messages.SseBinary.BodyMessageFactory.getInstance().register(c, type, () -> (BinaryCodec) s.get()); }

  public int sseConstant(int n) { return com.finproto.sse.bin.messages.SseBinary.BodyMessageFactory.MessageType.fromValue(n).getValue(); }

  public Object bitmap(int width) {
    switch (width) {
      case 8: return new ByteBitMap();
      case 16: return new ShortBitMap();
      case 32: return new IntBitMap();
      case 64: return new LongBitMap();
      default: throw new IllegalStateException();
    }
  }

  public void bmSet(Object bm, int pos) { ((BitMap) bm).set(pos); }

  public boolean bmGet(Object bm, int pos) { return ((BitMap) bm).get(pos); }

  public void bmClear(Object bm, int pos) { ((BitMap) bm).clear(pos); }

  public void bmWrite(Object bm, ByteBuf b) { ((BitMap) bm).write(b); }

  public void bmRead(Object bm, ByteBuf b) { ((BitMap) bm).read(b); }

  public int bmCount(Object bm) { return ((BitMap) bm).bitCount(); }

  public void writeFixed(ByteBuf b, String s, int len) { TEXT.writeFixedString(b, s, len); }

  public void writeFixed(ByteBuf b, String s, int len, char pad, boolean left) { TEXT.writeFixedString(b, s, len, pad, left); }

  public String readFixed(ByteBuf b, int len) { return TEXT.readFixedString(b, len); }

  public String readFixed(ByteBuf b, int len, char pad, boolean left) { return TEXT.readFixedString(b, len, pad, left); }

  public String trim(String s, char ch, boolean left) { return BinaryCodec.trimByChar(s, ch, left); }
}
