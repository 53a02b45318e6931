package vsim;

import java.util.List;

/** How much each check explores, and what it says about itself. */
final class Plan {
  final int quick, thorough;
  final String rule;
  final List<String> assumptions;

  private Plan(int quick, int thorough, String rule, String... assumptions) {
    this.quick = quick;
    this.thorough = thorough;
    this.rule = rule;
    this.assumptions = List.of(assumptions);
  }

  private static final String[] COMMON = {
    "Interleavings are sequentially consistent: reordering by the memory model is not simulated",
    "Buffers are netty's own (unpooled, pooled, composite, sliced, read-only, direct), used as they are; only allocation failures are injected",
    "Search is by sampling: a clean result is evidence, not proof"
  };

  static Plan of(String id) {
    switch (id) {
      case "C01": return new Plan(36000, 450000, "Each run: one to three sessions; a sender encodes drawn message sequences with the real encoder into fresh or reused buffers of drawn kinds, a simulated connection cuts, merges, delays, stalls and resets the stream, a receiver cumulates in one of four ways and decodes with the real decoder into new or reused objects, tentatively or when complete.", COMMON);
      case "C02": return new Plan(36000, 450000, "Each run: a peer implemented only from the layout tables talks with the real codec in both directions over simulated connections, or single messages are compared byte by byte in drawn buffer and session states.", COMMON);
      case "C03": return new Plan(32000, 400000, "Each run: frames of the four protocols are encoded behind drawn earlier content, with drawn registered services, stale header fields and moved readers, several tasks interleaved; every header and trailer is recomputed by the reference.", COMMON);
      case "C04": return new Plan(28000, 350000, "Each run: checksums of drawn contents in drawn buffer kinds and positions are compared with the reference, verified intact and after injected byte and burst damage, by several interleaved tasks.", COMMON);
      case "C05": return new Plan(36000, 450000, "Each run: torn messages - every cut point of short ones, drawn cut points of long ones - in buffers with hostile left-over bytes behind the writer index, then completed and decoded again; plus sessions with tentative decoding over resets.", COMMON);
      case "C06": return new Plan(44000, 550000, "Each run: one object decodes a drawn history of other messages, torn and damaged ones, unknown identifiers, exhausted memory, then a message that a new object decodes too; both are compared field by field.", COMMON);
      case "C07": return new Plan(44000, 550000, "Each run: an encode is failed at a drawn write by a full buffer, a refused or failing allocation, an exhausted heap or a refusing body; memory, message and repeated encode are compared with undisturbed ones.", COMMON);
      case "C08": return new Plan(36000, 450000, "Each run: all memory around the operation, the reference counts and the indices are imaged before and after encode, decode (whole, torn and rejected) and checksum; buffers are then overwritten and recycled and objects modified.", COMMON);
      case "C09": return new Plan(30000, 380000, "Each run: several tasks encode, decode and checksum under a scheduler that preempts them inside the repository's code; each result is compared with the result computed alone.", COMMON);
      case "C10": return new Plan(44000, 600000, "Each run: several tasks register, replace, remove and create types while preempted inside the registries and the maps they use; the history is checked for linearizability per key, and untouched types must always be available.", COMMON);
      case "C11": return new Plan(60000, 900000, "Each run: several tasks register, look up, remove and clear checksum services while preempted inside the registry and its map; the history is checked for linearizability against a map model.", COMMON);
      case "C12": return new Plan(36000, 450000, "Each run: valid traffic is truncated, flipped, spliced, overwritten or replaced by noise and decoded in two different memories; outcome, work and allocation are bounded, compared between memories and between N and 4N elements; floods of malformed messages must leave nothing behind and slow nothing down; then valid traffic must work as before.", COMMON);
      case "C13": return new Plan(36000, 450000, "Each run: frames and extension carriers with drawn, unknown and run-time registered or removed identifiers flow between parties; what the body decodes to is compared with the protocol table, rejected frames are skipped and the following ones checked.", COMMON);
      case "C14": return new Plan(70000, 1200000, "Each run: a drawn history of set, clear, write and read on bitmaps of all widths against a model, through buffers of drawn kinds and streams cut at drawn points.", COMMON);
      case "C15": return new Plan(70000, 1200000, "Each run: drawn texts (empty, absent, pad-only, multi-byte, over-long, control) in drawn fields; bytes on both sides and the text received through recycled and torn buffers are compared with the reference.", COMMON);
      case "C16": return new Plan(36000, 450000, "Each run: the same messages are received twice - original and retransmission - over two differently cut connections into new and used objects, compared for equality and hash with each other, the sender's copy and minimally different messages.", COMMON);
      case "C17": return new Plan(36000, 450000, "Each run: frames of a conforming reference sender pass one to four relaying gateways over simulated connections; the bytes are compared after every hop.", COMMON);
      case "C18": return new Plan(7000, 90000, "Each run: groups and variable text with sizes at the edges of the count prefix cross a segmented connection; received content is compared element by element.", COMMON);
      case "C19": return new Plan(36000, 450000, "Each run: several tasks log messages - set, changed, sent, received into new and used objects, torn, with application bodies that fail to render - while preempted inside the rendering; what is shown is compared with the fields and with the rendering of a new object of the same content.", COMMON);
      case "C20": return new Plan(50000, 700000, "Each run: several tasks look up numbers of body classes and constants while others register further classes, re-register hot ones and remove other numbers, preempted inside the registry and its maps; answers are checked for linearizability per class and against the constant table.", COMMON);
      default: return new Plan(2000, 60000, "", COMMON);
    }
  }
}
