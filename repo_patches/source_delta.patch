From c39048b8745633f2fdb929a2ea4612e92ce26a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 01/12] fix: never read string bytes beyond the writer index

readCharSequence(len) only checks the buffer capacity, so a truncated
message was decoded from stale bytes past writerIndex (or a huge length
field allocated unboundedly) instead of failing.
---
 .../main/java/com/finproto/codec/BinaryCodec.java    |  2 +-
 .../com/finproto/risk/bin/messages/CancelReject.java |  8 ++++----
 .../finproto/risk/bin/messages/ExecutionReport.java  |  6 +++---
 .../com/finproto/risk/bin/messages/NewOrder.java     |  8 ++++----
 .../com/finproto/risk/bin/messages/OrderCancel.java  | 10 +++++-----
 .../com/finproto/risk/bin/messages/OrderConfirm.java |  8 ++++----
 .../com/finproto/risk/bin/messages/RiskResult.java   |  4 ++--
 .../com/finproto/sample/messages/StringPacket.java   | 12 ++++++------
 .../com/finproto/szse/bin/messages/Extend206302.java |  2 +-
 9 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 5d8d8e6..d878350 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -60,7 +60,7 @@ public interface BinaryCodec {
   }
 
   default String readFixedString(ByteBuf byteBuf, int len, char trimPadChar, boolean padLeft) {
-    String value = byteBuf.readCharSequence(len, StandardCharsets.UTF_8).toString();
+    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);
     if (padLeft) {
       return trimByChar(value, trimPadChar, true);
     } else {
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index 923489e..cae71ea 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -96,21 +96,21 @@ public class CancelReject implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     this.cxlRejReason = byteBuf.readInt();
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index 2cadc59..14558d0 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -99,15 +99,15 @@ public class ExecutionReport implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+      this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
     this.lastPx = byteBuf.readLong();
     this.lastQty = byteBuf.readLong();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index 78dcf79..b36cd40 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -125,15 +125,15 @@ public class NewOrder implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+      this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
     this.side = readFixedString(byteBuf, 1);
     this.price = byteBuf.readLong();
@@ -141,7 +141,7 @@ public class NewOrder implements BinaryCodec {
     this.ordType = readFixedString(byteBuf, 1);
     int accountLen = byteBuf.readInt();
     if (accountLen > 0) {
-      this.account = byteBuf.readCharSequence(accountLen, StandardCharsets.UTF_8).toString();
+      this.account = byteBuf.readSlice(accountLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index 458743d..d7e8b80 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -102,25 +102,25 @@ public class OrderCancel implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+      this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 2d23d1e..28ae510 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -105,22 +105,22 @@ public class OrderConfirm implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+      this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index e6fe4c8..e307e0d 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -61,12 +61,12 @@ public class RiskResult implements BinaryCodec {
     int uniqueOrderIdLen = byteBuf.readInt();
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
     if (riskReasonLen > 0) {
-      this.riskReason = byteBuf.readCharSequence(riskReasonLen, StandardCharsets.UTF_8).toString();
+      this.riskReason = byteBuf.readSlice(riskReasonLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 7433f9b..df23bff 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -212,12 +212,12 @@ public class StringPacket implements BinaryCodec {
     short fieldDynamicStringLen = byteBuf.readShortLE();
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
-          byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(fieldDynamicStringLen).toString(StandardCharsets.UTF_8);
     }
     short fieldDynamicString1Len = byteBuf.readShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
-          byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(fieldDynamicString1Len).toString(StandardCharsets.UTF_8);
     }
     this.fieldFixedString1 = readFixedString(byteBuf, 1, '0', true);
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
@@ -231,8 +231,8 @@ public class StringPacket implements BinaryCodec {
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(
               byteBuf
-                  .readCharSequence(fieldDynamicStringListLen, StandardCharsets.UTF_8)
-                  .toString());
+                  .readSlice(fieldDynamicStringListLen)
+                  .toString(StandardCharsets.UTF_8));
         }
       }
     }
@@ -244,8 +244,8 @@ public class StringPacket implements BinaryCodec {
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(
               byteBuf
-                  .readCharSequence(fieldDynamicString1ListLen, StandardCharsets.UTF_8)
-                  .toString());
+                  .readSlice(fieldDynamicString1ListLen)
+                  .toString(StandardCharsets.UTF_8));
         }
       }
     }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index 995c7f9..5d73cf5 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -111,7 +111,7 @@ public class Extend206302 implements BinaryCodec {
     int imcrejectTextLen = byteBuf.readInt();
     if (imcrejectTextLen > 0) {
       this.imcrejectText =
-          byteBuf.readCharSequence(imcrejectTextLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(imcrejectTextLen).toString(StandardCharsets.UTF_8);
     }
   }
 
-- 
2.43.0


From d450c89ac90e1bf6378b780b3c598229b2eb7098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 02/12] fix: checksum covers only the frame being encoded

calc(byteBuf) summed the whole readable buffer, so the checksum of any
frame appended behind other unread bytes (or behind a moved reader) was
wrong.
---
 .../main/java/com/finproto/sample/messages/RootPacket.java  | 6 +++++-
 .../main/java/com/finproto/sse/bin/messages/SseBinary.java  | 6 +++++-
 .../java/com/finproto/szse/bin/messages/SzseBinary.java     | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
index 1cafb0c..355050d 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
@@ -50,6 +50,7 @@ public class RootPacket implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeShortLE(this.msgType);
     int payloadLenPos = byteBuf.writerIndex();
     byteBuf.writeIntLE(0);
@@ -64,7 +65,10 @@ public class RootPacket implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("CRC32");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeIntLE(this.checksum);
   }
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index 6827a93..0cc1acb 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -59,6 +59,7 @@ public class SseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     byteBuf.writeLong(this.msgSeqNum);
     int msgBodyLenPos = byteBuf.writerIndex();
@@ -74,7 +75,10 @@ public class SseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeInt(this.checksum);
   }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
index a064023..e1a5d52 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
@@ -50,6 +50,7 @@ public class SzseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     int bodyLengthPos = byteBuf.writerIndex();
     byteBuf.writeInt(0);
@@ -64,7 +65,10 @@ public class SzseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SZSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeInt(this.checksum);
   }
-- 
2.43.0


From 28334aa01e0e1ea62a51ad8817418f3166d43da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 03/12] fix: decoding an empty group or text clears the
 previous value

A list or variable-length text with a zero count left the value of an
earlier decode in a reused message object.
---
 .../bjse/trade/messages/PlatformInfo.java     |  2 ++
 .../bjse/trade/messages/QuoteResponse.java    |  2 ++
 .../messages/QuoteStatusReportExtend070.java  |  2 ++
 .../trade/messages/ReportSynchronization.java |  2 ++
 .../risk/bin/messages/CancelReject.java       |  8 +++++++
 .../risk/bin/messages/ExecutionReport.java    |  6 +++++
 .../finproto/risk/bin/messages/NewOrder.java  |  8 +++++++
 .../risk/bin/messages/OrderCancel.java        | 10 +++++++++
 .../risk/bin/messages/OrderConfirm.java       |  8 +++++++
 .../risk/bin/messages/RiskResult.java         |  4 ++++
 .../finproto/sample/messages/BasicPacket.java | 22 +++++++++++++++++++
 .../sample/messages/NestedPacket.java         |  2 ++
 .../sample/messages/StringPacket.java         | 16 ++++++++++++++
 .../finproto/sample/messages/SubPacket.java   |  2 ++
 .../sse/bin/messages/ExecRptInfo.java         |  4 ++++
 .../sse/bin/messages/ExecRptSync.java         |  2 ++
 .../sse/bin/messages/ExecRptSyncRsp.java      |  2 ++
 .../szse/bin/messages/Extend206302.java       |  2 ++
 .../szse/bin/messages/PlatformInfo.java       |  2 ++
 .../bin/messages/ReportSynchronization.java   |  2 ++
 20 files changed, 108 insertions(+)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index ff194c1..3c5f838 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -51,6 +51,8 @@ public class PlatformInfo implements BinaryCodec {
         noPartitions_.decode(byteBuf);
         this.noPartitions.add(noPartitions_);
       }
+    } else {
+      this.noPartitions = null;
     }
   }
 
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index 07fffbd..4a9662a 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -253,6 +253,8 @@ public class QuoteResponse implements BinaryCodec {
         quote2_.decode(byteBuf);
         this.quote2.add(quote2_);
       }
+    } else {
+      this.quote2 = null;
     }
     this.applExtend = ApplExtendMessageFactory.getInstance().create(this.applId);
     this.applExtend.decode(byteBuf);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index 8c2e0ae..8a6bbf5 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -161,6 +161,8 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
         quote1_.decode(byteBuf);
         this.quote1.add(quote1_);
       }
+    } else {
+      this.quote1 = null;
     }
   }
 
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index 5e50c56..b0b4ed9 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -40,6 +40,8 @@ public class ReportSynchronization implements BinaryCodec {
         reportPartitionSync_.decode(byteBuf);
         this.reportPartitionSync.add(reportPartitionSync_);
       }
+    } else {
+      this.reportPartitionSync = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index cae71ea..2cdee20 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -97,20 +97,28 @@ public class CancelReject implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.clOrdId = null;
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
           byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.origClOrdId = null;
     }
     this.cxlRejReason = byteBuf.readInt();
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index 14558d0..884ce72 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -100,14 +100,20 @@ public class ExecutionReport implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.uniqueOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.clOrdId = null;
     }
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen > 0) {
       this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.ordCnfmId = null;
     }
     this.lastPx = byteBuf.readLong();
     this.lastQty = byteBuf.readLong();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index b36cd40..ba2e676 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -126,14 +126,20 @@ public class NewOrder implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.uniqueOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.clOrdId = null;
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen > 0) {
       this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.securityId = null;
     }
     this.side = readFixedString(byteBuf, 1);
     this.price = byteBuf.readLong();
@@ -142,6 +148,8 @@ public class NewOrder implements BinaryCodec {
     int accountLen = byteBuf.readInt();
     if (accountLen > 0) {
       this.account = byteBuf.readSlice(accountLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.account = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index d7e8b80..aa7bd63 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -103,24 +103,34 @@ public class OrderCancel implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.clOrdId = null;
     }
     int origClOrdIdLen = byteBuf.readInt();
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
           byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.origClOrdId = null;
     }
     int securityIdLen = byteBuf.readInt();
     if (securityIdLen > 0) {
       this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.securityId = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 28ae510..7796e1e 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -106,21 +106,29 @@ public class OrderConfirm implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.uniqueOrderId = null;
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.uniqueOrigOrderId = null;
     }
     int clOrdIdLen = byteBuf.readInt();
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.clOrdId = null;
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
     if (ordCnfmIdLen > 0) {
       this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.ordCnfmId = null;
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index e307e0d..feaa218 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -62,11 +62,15 @@ public class RiskResult implements BinaryCodec {
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.uniqueOrderId = null;
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
     if (riskReasonLen > 0) {
       this.riskReason = byteBuf.readSlice(riskReasonLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.riskReason = null;
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index 43445e1..27aa843 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -329,6 +329,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI8ListSize; i++) {
         this.fieldI8List.add(byteBuf.readByte());
       }
+    } else {
+      this.fieldI8List = null;
     }
     short fieldI16ListSize = byteBuf.readShortLE();
     if (fieldI16ListSize > 0) {
@@ -336,6 +338,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI16ListSize; i++) {
         this.fieldI16List.add(byteBuf.readShortLE());
       }
+    } else {
+      this.fieldI16List = null;
     }
     short fieldI32ListSize = byteBuf.readShortLE();
     if (fieldI32ListSize > 0) {
@@ -343,6 +347,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI32ListSize; i++) {
         this.fieldI32List.add(byteBuf.readIntLE());
       }
+    } else {
+      this.fieldI32List = null;
     }
     short fieldI64ListSize = byteBuf.readShortLE();
     if (fieldI64ListSize > 0) {
@@ -350,6 +356,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldI64ListSize; i++) {
         this.fieldI64List.add(byteBuf.readLongLE());
       }
+    } else {
+      this.fieldI64List = null;
     }
     short fieldCharListSize = byteBuf.readShortLE();
     if (fieldCharListSize > 0) {
@@ -357,6 +365,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldCharListSize; i++) {
         this.fieldCharList.add(readFixedString(byteBuf, 1, '0', true));
       }
+    } else {
+      this.fieldCharList = null;
     }
     short fieldU8ListSize = byteBuf.readShortLE();
     if (fieldU8ListSize > 0) {
@@ -364,6 +374,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU8ListSize; i++) {
         this.fieldU8List.add(byteBuf.readByte());
       }
+    } else {
+      this.fieldU8List = null;
     }
     short fieldU16ListSize = byteBuf.readShortLE();
     if (fieldU16ListSize > 0) {
@@ -371,6 +383,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU16ListSize; i++) {
         this.fieldU16List.add(byteBuf.readShortLE());
       }
+    } else {
+      this.fieldU16List = null;
     }
     short fieldU32ListSize = byteBuf.readShortLE();
     if (fieldU32ListSize > 0) {
@@ -378,6 +392,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU32ListSize; i++) {
         this.fieldU32List.add(byteBuf.readIntLE());
       }
+    } else {
+      this.fieldU32List = null;
     }
     short fieldU64ListSize = byteBuf.readShortLE();
     if (fieldU64ListSize > 0) {
@@ -385,6 +401,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldU64ListSize; i++) {
         this.fieldU64List.add(byteBuf.readLongLE());
       }
+    } else {
+      this.fieldU64List = null;
     }
     short fieldF32ListSize = byteBuf.readShortLE();
     if (fieldF32ListSize > 0) {
@@ -392,6 +410,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldF32ListSize; i++) {
         this.fieldF32List.add(byteBuf.readFloatLE());
       }
+    } else {
+      this.fieldF32List = null;
     }
     short fieldF64ListSize = byteBuf.readShortLE();
     if (fieldF64ListSize > 0) {
@@ -399,6 +419,8 @@ public class BasicPacket implements BinaryCodec {
       for (int i = 0; i < fieldF64ListSize; i++) {
         this.fieldF64List.add(byteBuf.readDoubleLE());
       }
+    } else {
+      this.fieldF64List = null;
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 35d56a4..7873d7a 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -64,6 +64,8 @@ public class NestedPacket implements BinaryCodec {
         subPacketList_.decode(byteBuf);
         this.subPacketList.add(subPacketList_);
       }
+    } else {
+      this.subPacketList = null;
     }
     if (null == this.inerPacket) {
       this.inerPacket = new InerPacket();
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index df23bff..5d276f7 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -213,11 +213,15 @@ public class StringPacket implements BinaryCodec {
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
           byteBuf.readSlice(fieldDynamicStringLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.fieldDynamicString = null;
     }
     short fieldDynamicString1Len = byteBuf.readShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
           byteBuf.readSlice(fieldDynamicString1Len).toString(StandardCharsets.UTF_8);
+    } else {
+      this.fieldDynamicString1 = null;
     }
     this.fieldFixedString1 = readFixedString(byteBuf, 1, '0', true);
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
@@ -235,6 +239,8 @@ public class StringPacket implements BinaryCodec {
                   .toString(StandardCharsets.UTF_8));
         }
       }
+    } else {
+      this.fieldDynamicStringList = null;
     }
     short fieldDynamicString1ListSize = byteBuf.readShortLE();
     if (fieldDynamicString1ListSize > 0) {
@@ -248,6 +254,8 @@ public class StringPacket implements BinaryCodec {
                   .toString(StandardCharsets.UTF_8));
         }
       }
+    } else {
+      this.fieldDynamicString1List = null;
     }
     short fieldFixedString1ListSize = byteBuf.readShortLE();
     if (fieldFixedString1ListSize > 0) {
@@ -255,6 +263,8 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
         this.fieldFixedString1List.add(readFixedString(byteBuf, 1, '0', true));
       }
+    } else {
+      this.fieldFixedString1List = null;
     }
     short fieldFixedString10ListSize = byteBuf.readShortLE();
     if (fieldFixedString10ListSize > 0) {
@@ -262,6 +272,8 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
         this.fieldFixedString10List.add(readFixedString(byteBuf, 10, '0', true));
       }
+    } else {
+      this.fieldFixedString10List = null;
     }
     short fieldFixedString10ListPadSize = byteBuf.readShortLE();
     if (fieldFixedString10ListPadSize > 0) {
@@ -269,6 +281,8 @@ public class StringPacket implements BinaryCodec {
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
         this.fieldFixedString10ListPad.add(readFixedString(byteBuf, 10, '0', false));
       }
+    } else {
+      this.fieldFixedString10ListPad = null;
     }
     short fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readShortLE();
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
@@ -277,6 +291,8 @@ public class StringPacket implements BinaryCodec {
         this.fieldFixedString10PadWithNullTerminatorList.add(
             readFixedString(byteBuf, 10, '\0', false));
       }
+    } else {
+      this.fieldFixedString10PadWithNullTerminatorList = null;
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index 5de2656..2a5c190 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -49,6 +49,8 @@ public class SubPacket implements BinaryCodec {
       for (int i = 0; i < fieldI16ListSize; i++) {
         this.fieldI16List.add(byteBuf.readShortLE());
       }
+    } else {
+      this.fieldI16List = null;
     }
   }
 
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index 8d6906a..f791e9c 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -66,6 +66,8 @@ public class ExecRptInfo implements BinaryCodec {
       for (int i = 0; i < pbuSize; i++) {
         this.pbu.add(readFixedString(byteBuf, 8));
       }
+    } else {
+      this.pbu = null;
     }
     short setIdSize = byteBuf.readShort();
     if (setIdSize > 0) {
@@ -73,6 +75,8 @@ public class ExecRptInfo implements BinaryCodec {
       for (int i = 0; i < setIdSize; i++) {
         this.setId.add(byteBuf.readInt());
       }
+    } else {
+      this.setId = null;
     }
   }
 
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index 200e8f8..efce455 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -40,6 +40,8 @@ public class ExecRptSync implements BinaryCodec {
         subExecRptSync_.decode(byteBuf);
         this.subExecRptSync.add(subExecRptSync_);
       }
+    } else {
+      this.subExecRptSync = null;
     }
   }
 
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index e77621b..8c0a70a 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -40,6 +40,8 @@ public class ExecRptSyncRsp implements BinaryCodec {
         subExecRptSyncRsp_.decode(byteBuf);
         this.subExecRptSyncRsp.add(subExecRptSyncRsp_);
       }
+    } else {
+      this.subExecRptSyncRsp = null;
     }
   }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index 5d73cf5..ee110a1 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -112,6 +112,8 @@ public class Extend206302 implements BinaryCodec {
     if (imcrejectTextLen > 0) {
       this.imcrejectText =
           byteBuf.readSlice(imcrejectTextLen).toString(StandardCharsets.UTF_8);
+    } else {
+      this.imcrejectText = null;
     }
   }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
index 3ce9ee0..1f168e2 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
@@ -51,6 +51,8 @@ public class PlatformInfo implements BinaryCodec {
         platformPartition_.decode(byteBuf);
         this.platformPartition.add(platformPartition_);
       }
+    } else {
+      this.platformPartition = null;
     }
   }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
index 5a8674c..275a324 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
@@ -40,6 +40,8 @@ public class ReportSynchronization implements BinaryCodec {
         partitionReport_.decode(byteBuf);
         this.partitionReport.add(partitionReport_);
       }
+    } else {
+      this.partitionReport = null;
     }
   }
 
-- 
2.43.0


From dc883851bf7f1c14cabd8cdd986773cf67ff5e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 04/12] fix: left-padded fixed string writes its full width
 when empty

A null or empty left-padded field wrote no bytes at all and displaced
every following field.
---
 codec/src/main/java/com/finproto/codec/BinaryCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index d878350..c0329e3 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -25,7 +25,7 @@ public interface BinaryCodec {
       }
       byteBuf.writeBytes(bytes, 0, writedLen);
     }
-    if (!padLeft && writedLen < len) {
+    if ((!padLeft || writedLen == 0) && writedLen < len) {
       padChar(byteBuf, len - writedLen, padChar);
     }
   }
-- 
2.43.0


From 0ef7ba7cb48f481004e8de106d83f83ac311ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 05/12] fix: checksum service registry is atomic under
 concurrency

Two threads registering the same algorithm could both be told they won
(check-then-act), and the plain HashMap could lose entries while it was
being changed.
---
 .../com/finproto/codec/ChecksumServiceFactory.java     | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
index b4947d7..6bee317 100644
--- a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
+++ b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
@@ -1,5 +1,6 @@
 package com.finproto.codec;
 
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 
@@ -10,7 +11,8 @@ public enum ChecksumServiceFactory {
     return INSTANCE;
   }
 
-  private final Map<String, ChecksumService<?, ?>> CACHE = new HashMap<>();
+  private final Map<String, ChecksumService<?, ?>> CACHE =
+      Collections.synchronizedMap(new HashMap<>());
 
   private ChecksumServiceFactory() {
     registry(new Crc16ChecksumService());
@@ -26,11 +28,7 @@ public enum ChecksumServiceFactory {
   }
 
   public boolean registry(ChecksumService<?, ?> checksumService) {
-    if (CACHE.containsKey(checksumService.algorithm())) {
-      return false;
-    }
-    CACHE.put(checksumService.algorithm(), checksumService);
-    return true;
+    return CACHE.putIfAbsent(checksumService.algorithm(), checksumService) == null;
   }
 
   @SuppressWarnings("unchecked")
-- 
2.43.0


From f49162bb412850f49d49762996a8d6fdd01080b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 06/12] fix: message and extension registries are thread safe

The factories are process-wide and mutable at run time, but used a plain
HashMap: a concurrent register or remove could make lookups of other
types fail or lose registrations.
---
 .../java/com/finproto/bjse/trade/messages/AllegeQuote.java | 4 +++-
 .../java/com/finproto/bjse/trade/messages/BjseBinary.java  | 4 +++-
 .../com/finproto/bjse/trade/messages/ExecutionConfirm.java | 4 +++-
 .../com/finproto/bjse/trade/messages/ExecutionReport.java  | 4 +++-
 .../java/com/finproto/bjse/trade/messages/NewOrder.java    | 4 +++-
 .../main/java/com/finproto/bjse/trade/messages/Quote.java  | 4 +++-
 .../com/finproto/bjse/trade/messages/QuoteResponse.java    | 4 +++-
 .../finproto/bjse/trade/messages/QuoteStatusReport.java    | 4 +++-
 .../finproto/bjse/trade/messages/TradeCaptureConfirm.java  | 4 +++-
 .../finproto/bjse/trade/messages/TradeCaptureReport.java   | 4 +++-
 .../bjse/trade/messages/TradeCaptureReportAck.java         | 4 +++-
 .../main/java/com/finproto/risk/bin/messages/RcBinary.java | 4 +++-
 .../main/java/com/finproto/sample/messages/RootPacket.java | 4 +++-
 .../main/java/com/finproto/sse/bin/messages/SseBinary.java | 7 +++++--
 .../com/finproto/szse/bin/messages/ExecutionConfirm.java   | 4 +++-
 .../com/finproto/szse/bin/messages/ExecutionReport.java    | 4 +++-
 .../main/java/com/finproto/szse/bin/messages/NewOrder.java | 4 +++-
 .../java/com/finproto/szse/bin/messages/SzseBinary.java    | 4 +++-
 18 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java
index e09ef92..36bb362 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -465,7 +466,8 @@ public class AllegeQuote implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", AllegeQuoteExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java
index 7f66847..fb4ee4a 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -101,7 +102,8 @@ public class BjseBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((int) 1, Logon::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java
index f94c4dd..04da5f3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -465,7 +466,8 @@ public class ExecutionConfirm implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", ConfirmExtend010::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java
index 8470ddc..6396e9b 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -405,7 +406,8 @@ public class ExecutionReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", ReportExtend010::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java
index d796d84..b41bbbb 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -300,7 +301,8 @@ public class NewOrder implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", ExtendNewOrder010::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java
index a234527..a077e51 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -300,7 +301,8 @@ public class Quote implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", QuoteExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index 4a9662a..a6d8264 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -4,6 +4,7 @@ package com.finproto.bjse.trade.messages;
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
 import java.util.ArrayList;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.List;
 import java.util.Map;
@@ -440,7 +441,8 @@ public class QuoteResponse implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", QuoteResponseExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java
index 2b2ece5..7c89157 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -360,7 +361,8 @@ public class QuoteStatusReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", QuoteStatusReportExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java
index 17712c1..994de69 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -495,7 +496,8 @@ public class TradeCaptureConfirm implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("031", TradeCaptureConfirmExtend031::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java
index 7e616d7..4476ab7 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -435,7 +436,8 @@ public class TradeCaptureReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("031", TradeCaptureReportExtend031::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java
index b2ba099..30fd7c8 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -555,7 +556,8 @@ public class TradeCaptureReportAck implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("031", TradeCaptureReportAckExtend031::new);
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java
index ef8a39d..1d50a0a 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java
@@ -3,6 +3,7 @@ package com.finproto.risk.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -107,7 +108,8 @@ public class RcBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((int) 100101, NewOrder::new);
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
index 355050d..98956e4 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
@@ -5,6 +5,7 @@ import com.finproto.codec.BinaryCodec;
 import com.finproto.codec.ChecksumService;
 import com.finproto.codec.ChecksumServiceFactory;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -118,7 +119,8 @@ public class RootPacket implements BinaryCodec {
 
   public static enum PayloadMessageFactory {
     INSTANCE;
-    private final Map<Short, Supplier<BinaryCodec>> payloadMap = new HashMap<>();
+    private final Map<Short, Supplier<BinaryCodec>> payloadMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((short) 1, BasicPacket::new);
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index 0cc1acb..bf55057 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -5,6 +5,7 @@ import com.finproto.codec.BinaryCodec;
 import com.finproto.codec.ChecksumService;
 import com.finproto.codec.ChecksumServiceFactory;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -132,8 +133,10 @@ public class SseBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
-    private final Map<Class<?>, Integer> reverseMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
+    private final Map<Class<?>, Integer> reverseMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     public enum MessageType {
       HEARTBEAT(33),
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java
index dceaeea..0a4bca1 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java
@@ -3,6 +3,7 @@ package com.finproto.szse.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -480,7 +481,8 @@ public class ExecutionConfirm implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", Extend200102::new);
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java
index 668ed5e..40dee6c 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java
@@ -3,6 +3,7 @@ package com.finproto.szse.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -420,7 +421,8 @@ public class ExecutionReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", Extend200115::new);
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java
index 0dc1508..4aacf80 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java
@@ -3,6 +3,7 @@ package com.finproto.szse.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -300,7 +301,8 @@ public class NewOrder implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", Extend100101::new);
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
index e1a5d52..f7f2749 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
@@ -5,6 +5,7 @@ import com.finproto.codec.BinaryCodec;
 import com.finproto.codec.ChecksumService;
 import com.finproto.codec.ChecksumServiceFactory;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -118,7 +119,8 @@ public class SzseBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((int) 1, Logon::new);
-- 
2.43.0


From 2a8c98f459bfc61ec3c3683bf9d348a7dcc1e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 07/12] fix: hashCode of messages without fields no longer
 recurses forever

---
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend041.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend042.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend043.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend044.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend045.java | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend041.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend042.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend043.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend044.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend045.java   | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder041.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder042.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder043.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder044.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder045.java     | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Heartbeat.java   | 2 +-
 .../java/com/finproto/bjse/trade/messages/QuoteExtend071.java   | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend061.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend060.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend061.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend060.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend061.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend061.java        | 2 +-
 .../src/main/java/com/finproto/sample/messages/EmptyPacket.java | 2 +-
 .../src/main/java/com/finproto/sse/bin/messages/Heartbeat.java  | 2 +-
 .../src/main/java/com/finproto/szse/bin/messages/Heartbeat.java | 2 +-
 28 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
index 4337fd1..05ee2f9 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
@@ -14,7 +14,7 @@ public class ConfirmExtend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
index 373f9d0..f8a3055 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
@@ -14,7 +14,7 @@ public class ConfirmExtend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
index 49d18a2..31b2c68 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
@@ -14,7 +14,7 @@ public class ConfirmExtend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
index 609f670..c99bb18 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
@@ -14,7 +14,7 @@ public class ConfirmExtend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
index 2c41e8c..356cebb 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
@@ -14,7 +14,7 @@ public class ConfirmExtend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
index 3a7dc0a..ecb658e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
@@ -14,7 +14,7 @@ public class Extend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
index 491766d..44c78e2 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
@@ -14,7 +14,7 @@ public class Extend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
index de963cd..cc00dd2 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
@@ -14,7 +14,7 @@ public class Extend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
index aa23b27..92b35c4 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
@@ -14,7 +14,7 @@ public class Extend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
index 4086ae8..a6eecd4 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
@@ -14,7 +14,7 @@ public class Extend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
index 400bdd0..efc2974 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
index eef02f0..f2a457e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
index 01f43f9..6dbf3fe 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
index 253e558..9d42403 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
index c89907e..8a84543 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
index c90284b..1317023 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
index 79019eb..fa29f14 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
@@ -14,7 +14,7 @@ public class QuoteExtend071 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
index 932549e..622ae20 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
index 5c23cec..4044eea 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
index 2fb2ab9..decc72f 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
index df3faa7..69da2cf 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
index bb63a9d..b25026a 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
index 243d0e8..c50fef3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
index 8bc38be..6c46e1e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
index ddd9f60..872606c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
index 765c155..b1d8637 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
@@ -14,7 +14,7 @@ public class EmptyPacket implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
index 988f970..1bf3cb7 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
index 92acb8d..151200d 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return 1;
   }
 
   @Override
-- 
2.43.0


From e4d2aff63c7febadb699af282b43778b77a3df8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 08/12] fix: clear of the 32 and 64 bit bitmaps clears the bit

---
 codec/src/main/java/com/finproto/bitmap/IntBitMap.java  | 2 +-
 codec/src/main/java/com/finproto/bitmap/LongBitMap.java | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
index 78dcf42..f563abc 100644
--- a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
@@ -14,7 +14,7 @@ public final class IntBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     int bit = 1 << (31 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
diff --git a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
index 2e9d1d7..018aba8 100644
--- a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
@@ -14,7 +14,7 @@ public final class LongBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     long bit = 1L << (63 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
-- 
2.43.0


From 6cbf1a0c2cedd37d6ec793c079127788d7bb9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 09/12] fix: bitmaps read back the bits that were written

write and read of the 16, 32 and 64 bit bitmaps were not inverse: bits
were masked away, shifted out or read back at other positions.
---
 codec/src/main/java/com/finproto/bitmap/IntBitMap.java | 10 ++++++----
 .../src/main/java/com/finproto/bitmap/LongBitMap.java  |  9 +++++----
 .../src/main/java/com/finproto/bitmap/ShortBitMap.java |  3 +--
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
index f563abc..583bdb8 100644
--- a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
@@ -24,11 +24,13 @@ public final class IntBitMap implements BitMap {
 
   @Override
   public void write(ByteBuf buf) {
-    for (int i = 0; i < 4; i++) {
-      byte b = (byte) ((bits >> (24 - i * 7)) & 0x7F);
-      if (i < 3) b |= 0x80;
+    int val = bits;
+    do {
+      byte b = (byte) (val & 0x7F);
+      val >>>= 7;
+      if (val != 0) b |= 0x80;
       buf.writeByte(b);
-    }
+    } while (val != 0);
   }
 
   @Override
diff --git a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
index 018aba8..7955c97 100644
--- a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
@@ -25,11 +25,12 @@ public final class LongBitMap implements BitMap {
   @Override
   public void write(ByteBuf buf) {
     long val = bits;
-    for (int i = 0; i < 8; i++) {
-      byte b = (byte) ((val >> (49 - i * 7)) & 0x7F);
-      if (i < 7) b |= 0x80;
+    do {
+      byte b = (byte) (val & 0x7F);
+      val >>>= 7;
+      if (val != 0) b |= 0x80;
       buf.writeByte(b);
-    }
+    } while (val != 0);
   }
 
   @Override
diff --git a/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java b/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java
index 5df3234..7137920 100644
--- a/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/ShortBitMap.java
@@ -26,7 +26,6 @@ public final class ShortBitMap implements BitMap {
   public void write(ByteBuf buf) {
     byte high = (byte) ((bits >> 8) & 0xFF);
     byte low = (byte) (bits & 0xFF);
-    high |= 0x80;
     buf.writeByte(high);
     buf.writeByte(low);
   }
@@ -35,7 +34,7 @@ public final class ShortBitMap implements BitMap {
   public void read(ByteBuf buf) {
     byte b1 = buf.readByte();
     byte b2 = buf.readByte();
-    bits = (short) (((b1 & 0x7F) << 8) | (b2 & 0x7F));
+    bits = (short) (((b1 & 0xFF) << 8) | (b2 & 0xFF));
   }
 
   @Override
-- 
2.43.0


From 49070cb86e6bc4f2c84e29e0b0742126883b2991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 10/12] fix: 16-bit element counts and text lengths are
 unsigned

A group or text of 32768 to 65535 elements or bytes was written in full
but its count was read back as negative, so it vanished and displaced
everything after it.
---
 .../bjse/trade/messages/PlatformInfo.java     |  2 +-
 .../bjse/trade/messages/QuoteResponse.java    |  2 +-
 .../messages/QuoteStatusReportExtend070.java  |  2 +-
 .../trade/messages/ReportSynchronization.java |  2 +-
 .../finproto/sample/messages/BasicPacket.java | 22 +++++++++----------
 .../sample/messages/NestedPacket.java         |  4 ++--
 .../sample/messages/StringPacket.java         | 20 ++++++++---------
 .../finproto/sample/messages/SubPacket.java   |  2 +-
 .../sse/bin/messages/ExecRptInfo.java         |  4 ++--
 .../sse/bin/messages/ExecRptSync.java         |  2 +-
 .../sse/bin/messages/ExecRptSyncRsp.java      |  2 +-
 11 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index 3c5f838..9e01ed4 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -43,7 +43,7 @@ public class PlatformInfo implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShortLE();
-    short noPartitionsSize = byteBuf.readShortLE();
+    int noPartitionsSize = byteBuf.readUnsignedShortLE();
     if (noPartitionsSize > 0) {
       this.noPartitions = new ArrayList<>();
       for (int i = 0; i < noPartitionsSize; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index a6d8264..3789883 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -246,7 +246,7 @@ public class QuoteResponse implements BinaryCodec {
     this.validUntilTime = byteBuf.readLongLE();
     this.quoteType = byteBuf.readByte();
     this.priceType = byteBuf.readByte();
-    short quote2Size = byteBuf.readShortLE();
+    int quote2Size = byteBuf.readUnsignedShortLE();
     if (quote2Size > 0) {
       this.quote2 = new ArrayList<>();
       for (int i = 0; i < quote2Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index 8a6bbf5..9681fbc 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -153,7 +153,7 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
     this.cashMargin = readFixedString(byteBuf, 1);
     this.counterPartyPbuid = readFixedString(byteBuf, 6);
     this.memo = readFixedString(byteBuf, 120);
-    short quote1Size = byteBuf.readShortLE();
+    int quote1Size = byteBuf.readUnsignedShortLE();
     if (quote1Size > 0) {
       this.quote1 = new ArrayList<>();
       for (int i = 0; i < quote1Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index b0b4ed9..07f124b 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -32,7 +32,7 @@ public class ReportSynchronization implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short reportPartitionSyncSize = byteBuf.readShortLE();
+    int reportPartitionSyncSize = byteBuf.readUnsignedShortLE();
     if (reportPartitionSyncSize > 0) {
       this.reportPartitionSync = new ArrayList<>();
       for (int i = 0; i < reportPartitionSyncSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index 27aa843..e0b4856 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -323,7 +323,7 @@ public class BasicPacket implements BinaryCodec {
     this.fieldU64 = byteBuf.readLongLE();
     this.fieldF32 = byteBuf.readFloatLE();
     this.fieldF64 = byteBuf.readDoubleLE();
-    short fieldI8ListSize = byteBuf.readShortLE();
+    int fieldI8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI8ListSize > 0) {
       this.fieldI8List = new ArrayList<>();
       for (int i = 0; i < fieldI8ListSize; i++) {
@@ -332,7 +332,7 @@ public class BasicPacket implements BinaryCodec {
     } else {
       this.fieldI8List = null;
     }
-    short fieldI16ListSize = byteBuf.readShortLE();
+    int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
@@ -341,7 +341,7 @@ public class BasicPacket implements BinaryCodec {
     } else {
       this.fieldI16List = null;
     }
-    short fieldI32ListSize = byteBuf.readShortLE();
+    int fieldI32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI32ListSize > 0) {
       this.fieldI32List = new ArrayList<>();
       for (int i = 0; i < fieldI32ListSize; i++) {
@@ -350,7 +350,7 @@ public class BasicPacket implements BinaryCodec {
     } else {
       this.fieldI32List = null;
     }
-    short fieldI64ListSize = byteBuf.readShortLE();
+    int fieldI64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI64ListSize > 0) {
       this.fieldI64List = new ArrayList<>();
       for (int i = 0; i < fieldI64ListSize; i++) {
@@ -359,7 +359,7 @@ public class BasicPacket implements BinaryCodec {
     } else {
       this.fieldI64List = null;
     }
-    short fieldCharListSize = byteBuf.readShortLE();
+    int fieldCharListSize = byteBuf.readUnsignedShortLE();
     if (fieldCharListSize > 0) {
       this.fieldCharList = new ArrayList<>();
       for (int i = 0; i < fieldCharListSize; i++) {
@@ -368,7 +368,7 @@ public class BasicPacket implements BinaryCodec {
     } else {
       this.fieldCharList = null;
     }
-    short fieldU8ListSize = byteBuf.readShortLE();
+    int fieldU8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU8ListSize > 0) {
       this.fieldU8List = new ArrayList<>();
       for (int i = 0; i < fieldU8ListSize; i++) {
@@ -377,7 +377,7 @@ public class BasicPacket implements BinaryCodec {
     } else {
       this.fieldU8List = null;
     }
-    short fieldU16ListSize = byteBuf.readShortLE();
+    int fieldU16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU16ListSize > 0) {
       this.fieldU16List = new ArrayList<>();
       for (int i = 0; i < fieldU16ListSize; i++) {
@@ -386,7 +386,7 @@ public class BasicPacket implements BinaryCodec {
     } else {
       this.fieldU16List = null;
     }
-    short fieldU32ListSize = byteBuf.readShortLE();
+    int fieldU32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU32ListSize > 0) {
       this.fieldU32List = new ArrayList<>();
       for (int i = 0; i < fieldU32ListSize; i++) {
@@ -395,7 +395,7 @@ public class BasicPacket implements BinaryCodec {
     } else {
       this.fieldU32List = null;
     }
-    short fieldU64ListSize = byteBuf.readShortLE();
+    int fieldU64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU64ListSize > 0) {
       this.fieldU64List = new ArrayList<>();
       for (int i = 0; i < fieldU64ListSize; i++) {
@@ -404,7 +404,7 @@ public class BasicPacket implements BinaryCodec {
     } else {
       this.fieldU64List = null;
     }
-    short fieldF32ListSize = byteBuf.readShortLE();
+    int fieldF32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF32ListSize > 0) {
       this.fieldF32List = new ArrayList<>();
       for (int i = 0; i < fieldF32ListSize; i++) {
@@ -413,7 +413,7 @@ public class BasicPacket implements BinaryCodec {
     } else {
       this.fieldF32List = null;
     }
-    short fieldF64ListSize = byteBuf.readShortLE();
+    int fieldF64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF64ListSize > 0) {
       this.fieldF64List = new ArrayList<>();
       for (int i = 0; i < fieldF64ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 7873d7a..3ee3c9c 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -56,7 +56,7 @@ public class NestedPacket implements BinaryCodec {
       this.subPacket = new SubPacket();
     }
     this.subPacket.decode(byteBuf);
-    short subPacketListSize = byteBuf.readShortLE();
+    int subPacketListSize = byteBuf.readUnsignedShortLE();
     if (subPacketListSize > 0) {
       this.subPacketList = new ArrayList<>();
       for (int i = 0; i < subPacketListSize; i++) {
@@ -141,7 +141,7 @@ public class NestedPacket implements BinaryCodec {
     @Override
     public void decode(ByteBuf byteBuf) {
       this.fieldU32 = byteBuf.readIntLE();
-      short fieldI16ListSize = byteBuf.readShortLE();
+      int fieldI16ListSize = byteBuf.readUnsignedShortLE();
       if (fieldI16ListSize > 0) {
         this.fieldI16List = new ArrayList<>();
         for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 5d276f7..a30a3b7 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -209,14 +209,14 @@ public class StringPacket implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short fieldDynamicStringLen = byteBuf.readShortLE();
+    int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
           byteBuf.readSlice(fieldDynamicStringLen).toString(StandardCharsets.UTF_8);
     } else {
       this.fieldDynamicString = null;
     }
-    short fieldDynamicString1Len = byteBuf.readShortLE();
+    int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
           byteBuf.readSlice(fieldDynamicString1Len).toString(StandardCharsets.UTF_8);
@@ -227,11 +227,11 @@ public class StringPacket implements BinaryCodec {
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
     this.fieldFixedString10Pad = readFixedString(byteBuf, 10, ' ', true);
     this.fieldFixedString10PadWithNullTerminator = readFixedString(byteBuf, 10, '\0', false);
-    short fieldDynamicStringListSize = byteBuf.readShortLE();
+    int fieldDynamicStringListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringListSize > 0) {
       this.fieldDynamicStringList = new ArrayList<>();
       for (int i = 0; i < fieldDynamicStringListSize; i++) {
-        short fieldDynamicStringListLen = byteBuf.readShortLE();
+        int fieldDynamicStringListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(
               byteBuf
@@ -242,11 +242,11 @@ public class StringPacket implements BinaryCodec {
     } else {
       this.fieldDynamicStringList = null;
     }
-    short fieldDynamicString1ListSize = byteBuf.readShortLE();
+    int fieldDynamicString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1ListSize > 0) {
       this.fieldDynamicString1List = new ArrayList<>();
       for (int i = 0; i < fieldDynamicString1ListSize; i++) {
-        short fieldDynamicString1ListLen = byteBuf.readShortLE();
+        int fieldDynamicString1ListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(
               byteBuf
@@ -257,7 +257,7 @@ public class StringPacket implements BinaryCodec {
     } else {
       this.fieldDynamicString1List = null;
     }
-    short fieldFixedString1ListSize = byteBuf.readShortLE();
+    int fieldFixedString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString1ListSize > 0) {
       this.fieldFixedString1List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
@@ -266,7 +266,7 @@ public class StringPacket implements BinaryCodec {
     } else {
       this.fieldFixedString1List = null;
     }
-    short fieldFixedString10ListSize = byteBuf.readShortLE();
+    int fieldFixedString10ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListSize > 0) {
       this.fieldFixedString10List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
@@ -275,7 +275,7 @@ public class StringPacket implements BinaryCodec {
     } else {
       this.fieldFixedString10List = null;
     }
-    short fieldFixedString10ListPadSize = byteBuf.readShortLE();
+    int fieldFixedString10ListPadSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListPadSize > 0) {
       this.fieldFixedString10ListPad = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
@@ -284,7 +284,7 @@ public class StringPacket implements BinaryCodec {
     } else {
       this.fieldFixedString10ListPad = null;
     }
-    short fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readShortLE();
+    int fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
       this.fieldFixedString10PadWithNullTerminatorList = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10PadWithNullTerminatorListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index 2a5c190..be4e5ae 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -43,7 +43,7 @@ public class SubPacket implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.fieldU32 = byteBuf.readIntLE();
-    short fieldI16ListSize = byteBuf.readShortLE();
+    int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index f791e9c..2b7bdea 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -60,7 +60,7 @@ public class ExecRptInfo implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
-    short pbuSize = byteBuf.readShort();
+    int pbuSize = byteBuf.readUnsignedShort();
     if (pbuSize > 0) {
       this.pbu = new ArrayList<>();
       for (int i = 0; i < pbuSize; i++) {
@@ -69,7 +69,7 @@ public class ExecRptInfo implements BinaryCodec {
     } else {
       this.pbu = null;
     }
-    short setIdSize = byteBuf.readShort();
+    int setIdSize = byteBuf.readUnsignedShort();
     if (setIdSize > 0) {
       this.setId = new ArrayList<>();
       for (int i = 0; i < setIdSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index efce455..056dc62 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -32,7 +32,7 @@ public class ExecRptSync implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short subExecRptSyncSize = byteBuf.readShort();
+    int subExecRptSyncSize = byteBuf.readUnsignedShort();
     if (subExecRptSyncSize > 0) {
       this.subExecRptSync = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index 8c0a70a..3a98c6e 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -32,7 +32,7 @@ public class ExecRptSyncRsp implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short subExecRptSyncRspSize = byteBuf.readShort();
+    int subExecRptSyncRspSize = byteBuf.readUnsignedShort();
     if (subExecRptSyncRspSize > 0) {
       this.subExecRptSyncRsp = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncRspSize; i++) {
-- 
2.43.0


From 062c9a44a573211916523910df563b6a798c21f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 11/12] fix: empty elements of a text list keep their place
 when decoded

---
 .../main/java/com/finproto/sample/messages/StringPacket.java  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index a30a3b7..5190577 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -237,6 +237,8 @@ public class StringPacket implements BinaryCodec {
               byteBuf
                   .readSlice(fieldDynamicStringListLen)
                   .toString(StandardCharsets.UTF_8));
+        } else {
+          this.fieldDynamicStringList.add("");
         }
       }
     } else {
@@ -252,6 +254,8 @@ public class StringPacket implements BinaryCodec {
               byteBuf
                   .readSlice(fieldDynamicString1ListLen)
                   .toString(StandardCharsets.UTF_8));
+        } else {
+          this.fieldDynamicString1List.add("");
         }
       }
     } else {
-- 
2.43.0


From 6bd508bb8ffc986a3063fe9ec3393c2589f41f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:48 +0000
Subject: [PATCH 12/12] fix: decoding an empty group clears the previous value
 in nested packets too

---
 .../main/java/com/finproto/sample/messages/NestedPacket.java    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 3ee3c9c..f57cab5 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -147,6 +147,8 @@ public class NestedPacket implements BinaryCodec {
         for (int i = 0; i < fieldI16ListSize; i++) {
           this.fieldI16List.add(byteBuf.readShortLE());
         }
+      } else {
+        this.fieldI16List = null;
       }
     }
 
-- 
2.43.0

