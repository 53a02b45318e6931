package vsim.inst;

import java.nio.*;
import java.nio.charset.*;

/** Character coders that can be preempted in the middle, as the real ones can: they are not made for several threads. */
final class SimCoder {
  private SimCoder() {}

  static final class Enc extends CharsetEncoder {
    Enc(Charset cs) {
      super(cs, cs.newEncoder().averageBytesPerChar(), cs.newEncoder().maxBytesPerChar(), cs.newEncoder().replacement());
    }

    @Override
    public boolean isLegalReplacement(byte[] r) {
      return true;
    }

    @Override
    protected CoderResult encodeLoop(CharBuffer in, ByteBuffer out) {
      Y.y(0);
      CharsetEncoder e = charset().newEncoder().onMalformedInput(CodingErrorAction.REPORT).onUnmappableCharacter(CodingErrorAction.REPORT);
      CoderResult r = e.encode(in, out, false);
      Y.y(0);
      return r;
    }
  }

  static final class Dec extends CharsetDecoder {
    Dec(Charset cs) {
      super(cs, cs.newDecoder().averageCharsPerByte(), cs.newDecoder().maxCharsPerByte());
    }

    @Override
    protected CoderResult decodeLoop(ByteBuffer in, CharBuffer out) {
      Y.y(0);
      CharsetDecoder d = charset().newDecoder().onMalformedInput(CodingErrorAction.REPORT).onUnmappableCharacter(CodingErrorAction.REPORT);
      CoderResult r = d.decode(in, out, false);
      Y.y(0);
      return r;
    }
  }
}
