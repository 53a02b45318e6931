#!/usr/bin/env python3
import json
P=[]
def p(id,title,statement,over,text,why,files,symbols=None):
    a={"files":files}
    if symbols: a["symbols"]=symbols
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
MSG=["sse-bin/src/main/java/com/finproto/sse/bin/messages","szse-bin/src/main/java/com/finproto/szse/bin/messages","bjse-bin/src/main/java/com/finproto/bjse/trade/messages","risk-bin/src/main/java/com/finproto/risk/bin/messages","sample-bin/src/main/java/com/finproto/sample/messages"]
COD="codec/src/main/java/com/finproto/codec/"
ROOT=[MSG[0]+"/SseBinary.java",MSG[1]+"/SzseBinary.java",MSG[2]+"/BjseBinary.java",MSG[3]+"/RcBinary.java",MSG[4]+"/RootPacket.java"]
p("C01","Messages survive any segmentation of the stream, in order and unaltered",
 "Whatever sequence of valid messages of any protocol one party encodes back to back, and however the transport splits, merges, delays or resets the byte stream and whichever kind of buffer the bytes land in, the other party decodes exactly those messages, in order, with every field equal to what was sent (up to the documented normalisation: padding trimmed, over-long text cut, empty text or group same as absent). Decoding a message consumes exactly the bytes its encoding produced, so the next one starts where it should.",
 ["inputs","schedules","histories","fault_sequences"],"all message types of all five protocols, all field values, all sequences of messages, all cuts of the stream into segments, all buffer kinds, all reset points",
 "Each existing test encodes one message with one constant value per field into one fresh heap buffer and decodes it at once; no sequence, no segmentation, no other buffer kind, no boundary value.",MSG+[COD+"BinaryCodec.java"],["BinaryCodec.encode","BinaryCodec.decode"])
p("C02","The wire layout is the published one, in both directions, in any session state",
 "Every message of every protocol is written in its fixed published layout - field order, widths, byte order, padding, count prefixes, type and extension identifiers - whatever the output buffer already holds and whatever was sent before. Bytes produced by an independent implementation of that layout decode to the field values they stand for, so mixed sessions interoperate in both directions.",
 ["inputs","histories","schedules"],"all message types and field values, all session histories and buffer states, sessions between this implementation and an independent peer",
 "The tests only check that encode and decode agree with each other; a change made to both sides alike (byte order, width, order of two fields, a swapped pad) passes every one of them.",MSG+[COD+"BinaryCodec.java"],["BinaryCodec.encode","BinaryCodec.decode"])
p("C03","Every frame carries its own true body length and checksum",
 "Each SSE, SZSE, risk and sample frame carries the true byte length of its body and, when a checksum service for the protocol's algorithm is registered, the checksum of exactly that frame's own header and body - no matter how many frames precede it in the buffer, where the reader stands, what stale length and checksum the message object held, or whether a body or checksum service itself encodes other frames meanwhile. When no such service is registered the caller's checksum is sent unchanged, and BJSE frames always carry the caller's length and checksum unchanged. Decoding reports the header and trailer values that were on the wire.",
 ["inputs","histories","configurations","fault_sequences"],"all frames of the five protocols, every position in a shared output buffer, every history of registering and removing checksum services",
 "Tests encode one frame into an empty buffer and never look at the length or checksum bytes; only a second frame in the same buffer, or a partly consumed one, distinguishes 'this frame' from 'everything readable'.",ROOT+[COD+"ChecksumServiceFactory.java"])
p("C04","Checksums are exact, position independent, and expose damaged frames",
 "The checksum of a buffer is the named algorithm's value (CRC-16/MODBUS, CRC-32/ISO-HDLC, byte sum modulo 256) over exactly its readable bytes, for every kind, position and length of buffer, and computing or verifying it moves no index and changes no byte. Verification therefore accepts every intact frame and rejects every frame in which the transport damaged one byte, and for the CRCs every damage confined to a burst no longer than the checksum.",
 ["inputs","fault_sequences","histories"],"all buffer contents, kinds, offsets and lengths, all single-byte and burst corruptions in transit",
 "Two tests check one nine-byte vector each (CRC16, CRC32); the exchange checksums have no test, and no test uses an offset, another buffer kind, or damaged data.",[COD+"Crc16ChecksumService.java",COD+"Crc32ChecksumService.java",COD+"SseBinChecksumService.java",COD+"SzseBinChecksumService.java",COD+"ChecksumService.java"])
p("C05","A partly received message is never decoded into a message",
 "While only part of a message has arrived, decoding it fails with an exception and never returns a message, whatever left-over bytes lie beyond the received ones in the buffer's memory. Once the rest has arrived, decoding again from the start of the message - a remembered index or the buffer's own mark, wherever the owner set it - into the same or a new object, yields the complete and correct message.",
 ["schedules","fault_sequences","histories","inputs"],"all message types, every strict prefix of every encoding, all buffer kinds, capacities and left-over contents",
 "No test decodes an incomplete message at all; the failure needs a cut inside the last text field together with spare capacity behind the received bytes.",[COD+"BinaryCodec.java"]+MSG)
p("C06","Decoding depends on the bytes alone, not on the object's past",
 "Decoding into a message object that has been used before - for other messages, for values set by its owner, or for attempts that failed half-way, on damaged bytes, an unknown identifier or exhausted memory - gives a message equal in every field to decoding the same bytes into a new object. Nothing of an earlier message survives: no text, group, extension or nested part.",
 ["histories","inputs","fault_sequences"],"all sequences of successful and failed decodes into the same objects",
 "Every test decodes exactly once, into a new object.",MSG)
p("C07","A failed encode harms nothing and can be repeated",
 "If encoding a message fails part-way because the buffer cannot grow, memory cannot be allocated (for the buffer or anywhere else), the embedded body refuses or the checksum service fails, then every byte that was in the buffer before the message started and the message's own content are unchanged. After rolling the write position back, or into another buffer, encoding the same message again produces exactly the bytes an undisturbed encode produces.",
 ["fault_sequences","histories","inputs"],"every allocation or write at which encoding any message can fail, all earlier buffer contents",
 "No test makes an encode fail.",MSG+[COD+"BinaryCodec.java"])
p("C08","The codec only borrows the buffer and shares nothing afterwards",
 "Encoding, decoding and checksumming neither release nor retain the buffer they are given nor move its owner's marks, on success, on failure or when the message is rejected; encoding changes no byte outside the message it appends and decoding changes none. A decoded message stays unchanged when the buffer is later overwritten, recycled or released, shares no mutable part with any other message decoded from the same bytes, and a body, extension or group taken from it stays unchanged when the message object is used for decoding again; already encoded bytes do not change when the message object is modified afterwards.",
 ["histories","schedules","inputs","fault_sequences"],"all message types, all buffer kinds, every later reuse of the buffer or of the message",
 "Tests drop the buffer right after decoding and never look at reference counts or at bytes outside the message.",MSG+[COD])
p("C09","Concurrent sessions do not influence each other",
 "Any number of threads may encode, decode and checksum messages at the same time, each with its own buffers and its own messages (a message nobody modifies may also be encoded by several threads at once), sharing the library's process-wide services, interrupted or not. In every interleaving each of them obtains exactly the bytes, messages and checksums it would obtain alone.",
 ["schedules","inputs","histories"],"all interleavings of concurrent encode, decode and checksum calls on all message types",
 "All tests are single threaded.",[COD]+ROOT+MSG)
p("C10","Message and extension type registries are atomic under concurrency",
 "Registering, replacing, removing and creating message types and extension types from several threads behaves as if each call took effect at one instant: a created body is of the type most recently registered for that number, a removed type is rejected, and removal reports success exactly when it removed something; a supplier that fails or itself uses the registry changes nothing of that. Types nobody touches, in particular all built-in ones, can be created and decoded at every moment.",
 ["schedules","histories"],"all concurrent histories of register, remove, create and decode on every registry",
 "No test registers or removes a type, and none uses two threads; lost or missing entries need a lookup to fall into another thread's map update.",ROOT+[MSG[1]+"/NewOrder.java",MSG[2]+"/Quote.java"])
p("C11","The checksum registry is atomic: one winner per algorithm, no lost service",
 "Checksum services can be registered, looked up, removed and cleared from several threads as if each call took effect at one instant: of several registrations for the same algorithm exactly one reports success until it is removed, and that one is what every later lookup returns. CRC16 and CRC32 are available from the start, and changes to one algorithm never make a lookup of another one fail.",
 ["schedules","histories"],"all concurrent histories of registry, lookup, removal and clear",
 "The registry has no test.",[COD+"ChecksumServiceFactory.java"])
p("C12","Malformed input is contained",
 "Whatever bytes arrive - truncated, corrupted, spliced or random - decoding ends after work and memory proportional to the bytes actually received, either with a message or with an ordinary exception, never by hanging, exhausting memory or the stack, and its outcome never depends on memory outside the received bytes. However many malformed messages have been rejected, handling one more takes no more work than before and the process keeps nothing of them. Afterwards the library decodes and encodes valid messages as before.",
 ["inputs","fault_sequences","histories"],"all byte strings offered as any message type, all corruptions of valid streams, all buffer kinds",
 "No test offers malformed input.",MSG+[COD+"BinaryCodec.java"])
p("C13","Type and application identifiers alone select the body, per protocol table",
 "The type number in a frame header, and the application identifier inside an order, confirmation, report or quote, alone select which body or extension layout is decoded, according to the protocol's table; types registered at run time are used from then on, and removed ones no longer. An unknown identifier is rejected with an exception, and a receiver that then skips the frame by its declared length receives all following frames correctly.",
 ["inputs","histories","configurations"],"all identifiers known and unknown, all histories of registration, all positions of a bad frame in a stream",
 "Each frame type is tested with one of its body types and each extension with one identifier; unknown identifiers, run-time registration and what follows a rejected frame are not tested.",ROOT+[MSG[1]+"/NewOrder.java",MSG[2]+"/NewOrder.java"])
p("C14","Presence bitmaps keep exactly the bits that were set, also across the stream",
 "After any sequence of set, clear, write and read, a bitmap of any width reports exactly the positions last set and not cleared, and each operation affects no other position. Writing a bitmap and reading it back, into a new or a used bitmap, from a stream cut at any point, gives the same bits and consumes exactly the bytes written; while bytes are missing the read fails instead of returning.",
 ["histories","inputs","schedules"],"all operation sequences on the 8, 16, 32 and 64 bit bitmaps, all stream cuts",
 "Only the 8-bit bitmap has tests; the three wider ones have none, and no test reads into a used bitmap or from an incomplete stream.",["codec/src/main/java/com/finproto/bitmap"])
p("C15","Text fields never displace their neighbours and come back as sent",
 "Whatever text a fixed-width field holds - empty, absent, multi-byte, over-long, made of pad characters or control characters - exactly the field's width is written: the text's UTF-8 bytes, cut at the width or padded with the field's pad character on its documented side, so no other field moves. Text that fits and does not begin or end (on the padded side) with the pad character comes back identical, also from a recycled buffer or from a stream cut inside the field; variable-length text carries its exact byte length and comes back identical.",
 ["inputs","histories","fault_sequences"],"all strings in all text fields of all messages, all pad characters and sides, all stream cuts and buffer contents",
 "Tests use short ASCII digits that exactly fill the field, padded on the right; absent or empty left-padded text, multi-byte and over-long text are not combined with neighbouring fields.",[COD+"BinaryCodec.java",MSG[4]+"/StringPacket.java"],["writeFixedString","readFixedString","trimByChar","padChar"])
p("C16","A retransmitted message equals the original, a different one does not",
 "Two decoded copies of the same frame - such as the original and a retransmission after a reconnect, received in different segments or into reused objects - are equal to each other and to the sender's copy and have the same hash code, and computing it never fails, so a receiver can de-duplicate by message value. Messages of one type that differ in any transmitted field are not equal.",
 ["histories","fault_sequences","inputs"],"all message types and values, all reset and resend points, all segmentations of the copies",
 "Tests compare one decoded message with its original by equals; they never compute a hash code and never compare messages that differ.",MSG)
p("C17","Relaying a message does not change its bytes",
 "A gateway that decodes a frame built by a conforming sender and forwards the decoded message by encoding it again emits the identical bytes, over any number of hops, however the frames are segmented and batched between the hops and whatever the gateway's message objects and buffers were used for before.",
 ["histories","schedules","inputs"],"all frames of conforming senders, all hop counts, all segmentations and object and buffer reuse histories",
 "No test encodes a message that was obtained by decoding.",MSG)
p("C18","Repeating groups and variable text of any expressible size keep count and order",
 "Repeating groups and variable-length text of every size their count prefix can express on the wire - none, one, or tens of thousands of elements, including empty and default ones - arrive with the same number of elements, the same order and the same content, while the buffer grows and the bytes arrive in many pieces, and the fields after them are not displaced.",
 ["inputs","schedules","fault_sequences"],"all group sizes up to the capacity of the count prefix (65535 for two-byte prefixes), all segmentations",
 "Tests use groups of one element with short content.",[MSG[4]+"/BasicPacket.java",MSG[4]+"/StringPacket.java",MSG[4]+"/NestedPacket.java",MSG[0]+"/ExecRptInfo.java",MSG[1]+"/PlatformInfo.java",MSG[2]+"/QuoteStatusReportExtend070.java"])
p("C19","What is logged is the message as it is now",
 "Rendering a message as text never fails and never changes the message, names its type and shows every field by name with the value it has at that moment, nested messages and group elements included. That stays so when the object was used, sent or rendered before, when the last decoding into it failed part way, and while other threads render, decode or encode their own messages; the text depends on nothing but the message's current content, and an application's own body that fails to render, or renders other messages meanwhile, spoils no later text.",
 ["histories","schedules","fault_sequences","inputs"],"all message types and values, all histories of use of the object rendered, all interleavings with other sessions",
 "No test looks at the string form.",MSG,["toString"])
p("C20","SSE numbers and body classes stay consistent while types are registered",
 "Every body class of the SSE protocol maps to the number it was most recently registered under, from the first use on and at every moment while other threads register, re-register or remove other types, as if each call took effect at one instant. Any other class, including a subclass of a registered one, has no number. Looking up a type constant by number gives the constant with exactly that number and rejects every other number, whatever is registered at run time.",
 ["schedules","histories","inputs"],"all concurrent histories of register, remove and lookup, all integers and all classes",
 "No test uses the lookups, and none registers a type.",[MSG[0]+"/SseBinary.java"],["MessageType.fromValue","BodyMessageFactory.getMsgType"])

CB="codec/src/main/java/com/finproto/codec/BinaryCodec.java"
MECH={
"C01":[("mirror-image encode/decode per message class","*/messages/*.java"),("fixed and prefixed widths make messages self-delimiting",CB)],
"C02":[("typed ByteBuf writes/reads in declaration order","*/messages/*.java encode/decode"),("fixed string padding",CB)],
"C03":[("length placeholder patched after the body, checksum over the frame","*Binary.java / RootPacket.java encode"),("checksum service lookup","ChecksumServiceFactory.getChecksumService")],
"C04":[("table driven CRC and byte sums over absolute gets","*ChecksumService.java calc"),("verify compares boxed values","ChecksumService.verify")],
"C05":[("bounds checks against the writer index on every read","BinaryCodec.readFixedString and the decode methods")],
"C06":[("every field assigned by every decode","decode methods")],
"C07":[("encode only appends, and assigns only computed header fields","encode methods")],
"C08":[("values copied out of and into the buffer","decode/encode methods, *ChecksumService.calc")],
"C09":[("no shared mutable state besides the registries; per-call locals","codec and message classes")],
"C10":[("singleton registries over a map of suppliers","*MessageFactory enums")],
"C11":[("singleton registry over a map of services","ChecksumServiceFactory")],
"C12":[("reads bounded by readable bytes; lists grow one element at a time","decode methods")],
"C13":[("lookup by identifier, exception when absent","*MessageFactory.create")],
"C14":[("bit masks; write and read as inverse functions","bitmap/*BitMap.java")],
"C15":[("writeFixedString / readFixedString / trimByChar",CB),("length-prefixed text","encode/decode of dynamic strings")],
"C16":[("equals and hashCode over all fields","message classes")],
"C17":[("decode stores everything encode needs","message classes")],
"C18":[("count prefix followed by that many elements","encode/decode of lists")],
"C19":[("toString concatenation","message classes")],
"C20":[("enum constants and reverse map","SseBinary.BodyMessageFactory")],
}
OBS={"C10":["create/register/remove results"],"C11":["registry/getChecksumService/removeChecksumService/clearAllChecksumService results"],"C14":["get results and written bytes"],"C19":["toString results, getters before and after"],"C20":["getMsgType and MessageType.fromValue results"]}
for x in P:
    x["anchors"].pop("symbols",None)
    x["anchors"]["mechanism"]=[{"name":n,"where":w} for n,w in MECH[x["id"]]]
    x["anchors"]["observe_at"]=OBS.get(x["id"],["bytes in the ByteBuf after encode","getters after decode","buffer indices, reference counts and exceptions"])
    x["anchors"]["hook_needed"]=None
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
