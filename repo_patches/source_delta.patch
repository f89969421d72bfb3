From 884c078a5c037a0de6f05ba8822bb490ee266227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 01/17] fix: check Java constraints of extended fields only
 when the field is present

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 691520c..ee7d0d2 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -251,7 +251,7 @@ ${I}<@compound_get_field field/>.write(out);
 <#macro compound_check_constraint_field field compoundName indent>
     <#local I>${""?left_pad(indent * 4)}</#local>
     <#if field.constraint??>
-${I}if (<#if field.optional??>${field.optional.isUsedIndicatorName}() && </#if>!(${field.constraint}))
+${I}if (<#if field.isExtended>${field.isPresentIndicatorName}() && </#if><#if field.optional??>${field.optional.isUsedIndicatorName}() && </#if>!(${field.constraint}))
 ${I}    throw new zserio.runtime.ConstraintError("Constraint violated at ${compoundName}.${field.name}!");
     </#if>
 </#macro>
-- 
2.43.0


From 675f13861bfd6fdd02b316275e5d417c6c9d9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 02/17] fix: compare optional enumeration fields in Java when
 the other object's field is null

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index ee7d0d2..7fd931b 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -321,7 +321,8 @@ java.lang.Double.doubleToLongBits(<@compound_get_field field/>) == java.lang.Dou
 ((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : java.util.Arrays.equals(<@compound_get_field field/>, that.<@compound_get_field field/>))<#rt>
     <#elseif field.typeInfo.isEnum>
         <#-- enum type: compare by getValue() and == -->
-((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : <@compound_get_field field/>.getValue() == that.<@compound_get_field field/>.getValue())<#rt>
+((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null :
+                            that.<@compound_get_field field/> != null && <@compound_get_field field/>.getValue() == that.<@compound_get_field field/>.getValue())<#rt>
     <#else>
         <#-- complex type: compare by equals() but check for possible null -->
 ((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : <@compound_get_field field/>.equals(that.<@compound_get_field field/>))<#rt>
-- 
2.43.0


From 51a73b5f7b22f0d32379a9ca24c587a824fb6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 03/17] fix: compare bytes fields of Java choices and unions by
 content

---
 compiler/extensions/java/freemarker/Choice.java.ftl | 5 +----
 compiler/extensions/java/freemarker/Union.java.ftl  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 0529c9d..779ac48 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -368,10 +368,7 @@ ${I}break;
                     <@compound_compare_parameter parameter/><#if parameter?has_next || fieldList?has_content> &&<#else>;</#if>
     </#list>
     <#if fieldList?has_content>
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
diff --git a/compiler/extensions/java/freemarker/Union.java.ftl b/compiler/extensions/java/freemarker/Union.java.ftl
index f22e86f..b57638a 100644
--- a/compiler/extensions/java/freemarker/Union.java.ftl
+++ b/compiler/extensions/java/freemarker/Union.java.ftl
@@ -280,10 +280,7 @@ public class ${name} implements <#rt>
     </#list>
     <#if fieldList?has_content>
                     choiceTag == that.choiceTag &&
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
-- 
2.43.0


From 8afc3f37eb88d7818e7348eecdbd4e64e0e0e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 04/17] fix: reject varsize values above the maximum in the C++
 reader

The check of the fifth byte saw the value after it had been cut to 32 bits, so a stream with a larger value was read as a small size.
---
 .../cpp/runtime/src/zserio/BitStreamReader.cpp           | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
index c4448df..2016dd0 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
@@ -804,14 +804,15 @@ uint32_t BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    const uint64_t fullResult =
+            static_cast<uint64_t>(result) << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8)); // byte 5
+    if (fullResult > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << fullResult << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(fullResult);
 }
 
 float BitStreamReader::readFloat16()
-- 
2.43.0


From 1651bc59815e31b1a613963656b700f655736124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 05/17] fix: reject the smallest short, int and long as
 varint16, varint32 and varint64 in Java

The absolute value of the smallest value overflowed, so it passed the range check and was written as zero.
---
 .../src/zserio/runtime/BitSizeOfCalculator.java        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java b/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java
index 046aae5..f4f3193 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/BitSizeOfCalculator.java
@@ -19,11 +19,11 @@ public final class BitSizeOfCalculator
      */
     public static int getBitSizeOfVarInt16(short value)
     {
-        final short absoluteValue = (short)Math.abs(value);
-        if (absoluteValue >= (short)(1 << (6 + 8)))
+        final int absoluteValue = Math.abs(value);
+        if (absoluteValue >= (1 << (6 + 8)))
             throw new ZserioError("BitSizeOfCalculator: Value '" + value + "' is out of range for varint16!");
 
-        return (absoluteValue < (short)1 << 6) ? 8 : 16;
+        return (absoluteValue < (1 << 6)) ? 8 : 16;
     }
 
     /**
@@ -35,7 +35,7 @@ public final class BitSizeOfCalculator
      */
     public static int getBitSizeOfVarInt32(int value)
     {
-        final int absoluteValue = Math.abs(value);
+        final long absoluteValue = Math.abs((long)value);
         if (absoluteValue >= (1 << (6 + 7 + 7 + 8)))
             throw new ZserioError("BitSizeOfCalculator: Value '" + value + "' is out of range for varint32!");
 
@@ -70,7 +70,7 @@ public final class BitSizeOfCalculator
     public static int getBitSizeOfVarInt64(long value)
     {
         final long absoluteValue = Math.abs(value);
-        if (absoluteValue >= (1L << (6 + 7 + 7 + 7 + 7 + 7 + 7 + 8)))
+        if (value == Long.MIN_VALUE || absoluteValue >= (1L << (6 + 7 + 7 + 7 + 7 + 7 + 7 + 8)))
             throw new ZserioError("BitSizeOfCalculator: Value '" + value + "' is out of range for varint64!");
 
         int bitSize = 0;
-- 
2.43.0


From 992498c4a859c33eb5603d3fc0742a05ccb8d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 06/17] fix: convert values above the range of float16 to
 infinity

The significand was kept, so a finite value of 2^16 or more was written as NaN unless it was a power of two.
---
 compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp     | 5 +++--
 .../java/runtime/src/zserio/runtime/FloatUtil.java           | 5 +++--
 compiler/extensions/python/runtime/src/zserio/float.py       | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
index 270f903..64a93ce 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
@@ -114,10 +114,11 @@ uint16_t convertFloatToUInt16(float float32)
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
index bc295e6..e3ef2bc 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
@@ -115,10 +115,11 @@ public final class FloatUtil
         {
             // normal number
             final short signedExponent16 = (short)(exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS);
-            if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+            if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
             {
-                // exponent overflow, set infinity or NaN
+                // exponent overflow, set infinity
                 exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+                significand16 = 0;
             }
             else if (signedExponent16 <= 0)
             {
diff --git a/compiler/extensions/python/runtime/src/zserio/float.py b/compiler/extensions/python/runtime/src/zserio/float.py
index b245b17..9a4d05f 100644
--- a/compiler/extensions/python/runtime/src/zserio/float.py
+++ b/compiler/extensions/python/runtime/src/zserio/float.py
@@ -89,9 +89,10 @@ def float_to_uint16(float64: float) -> int:
     else:
         # normal number
         signed_exponent16 = exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS
-        if signed_exponent16 > FLOAT16_EXPONENT_INFINITY_NAN:
-            # exponent overflow, set infinity or NaN
+        if signed_exponent16 >= FLOAT16_EXPONENT_INFINITY_NAN:
+            # exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN
+            significand16 = 0
         elif signed_exponent16 <= 0:
             # exponent underflow
             if signed_exponent16 <= -FLOAT16_SIGNIFICAND_NUM_BITS:
-- 
2.43.0


From bc8caa226439ec87657785915d236f019cf33a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 07/17] fix: keep NaN when it is converted to float16

A NaN whose significand has only low bits became infinity.
---
 compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp     | 5 +++++
 .../java/runtime/src/zserio/runtime/FloatUtil.java           | 2 ++
 compiler/extensions/python/runtime/src/zserio/float.py       | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
index 64a93ce..8cfb1d0 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
@@ -108,6 +108,11 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            // keep NaN
+            significand16 = 1;
+        }
     }
     else
     {
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
index e3ef2bc..512dd58 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
@@ -110,6 +110,8 @@ public final class FloatUtil
         {
             // infinity or NaN
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            if (significand32 != 0 && significand16 == 0)
+                significand16 = 1; // keep NaN
         }
         else
         {
diff --git a/compiler/extensions/python/runtime/src/zserio/float.py b/compiler/extensions/python/runtime/src/zserio/float.py
index 9a4d05f..bb46edc 100644
--- a/compiler/extensions/python/runtime/src/zserio/float.py
+++ b/compiler/extensions/python/runtime/src/zserio/float.py
@@ -86,6 +86,9 @@ def float_to_uint16(float64: float) -> int:
     elif exponent32 == FLOAT32_EXPONENT_INFINITY_NAN:
         # infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN
+        if significand32 != 0 and significand16 == 0:
+            # keep NaN
+            significand16 = 1
     else:
         # normal number
         signed_exponent16 = exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS
-- 
2.43.0


From 2c99d240c424504270172207ead6eaf163be64da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 08/17] fix: stop aligned Java reads at the bit size of the
 stream

Reads that start at a byte boundary took the last byte as a whole, also when only some of its bits belong to the stream.
---
 .../runtime/io/ByteArrayBitStreamReader.java  | 60 ++++++++++++-------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index 3574bff..663920c 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -117,7 +117,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         byte result;
         if (bitOffset == 0)
         {
-            result = nextByte();
+            result = nextFullByte();
         }
         else
         {
@@ -138,8 +138,8 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         short result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
             result = makeShort(b0, b1);
         }
         else
@@ -161,10 +161,10 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         int result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
-            final byte b2 = nextByte();
-            final byte b3 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
+            final byte b2 = nextFullByte();
+            final byte b3 = nextFullByte();
             result = makeInt(b0, b1, b2, b3);
         }
         else
@@ -186,14 +186,14 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         long result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
-            final byte b2 = nextByte();
-            final byte b3 = nextByte();
-            final byte b4 = nextByte();
-            final byte b5 = nextByte();
-            final byte b6 = nextByte();
-            final byte b7 = nextByte();
+            final byte b0 = nextFullByte();
+            final byte b1 = nextFullByte();
+            final byte b2 = nextFullByte();
+            final byte b3 = nextFullByte();
+            final byte b4 = nextFullByte();
+            final byte b5 = nextFullByte();
+            final byte b6 = nextFullByte();
+            final byte b7 = nextFullByte();
             result = makeLong(b0, b1, b2, b3, b4, b5, b6, b7);
         }
         else
@@ -718,11 +718,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
 
         if (bytePosition == buffer.length) // consumed full last byte
         {
-            if (lastByteBits < 8) // check if whole byte is available
-            {
-                throw new IOException("ByteArrayBitStreamReader: Unable to read bit on offset position " +
-                        lastByteBits + " in the last byte.");
-            }
+            checkLastByte(); // check if whole byte is available
         }
         else if (bytePosition + 1 >= buffer.length) // consumed last byte only partially or not at all
         {
@@ -758,6 +754,8 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
 
         System.arraycopy(buffer, bytePosition, dest, offset, length);
         bytePosition += length;
+        if (length > 0)
+            checkLastByte();
         return length;
     }
 
@@ -782,6 +780,28 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         return buffer[bytePosition++];
     }
 
+    /**
+     * Returns the next byte which must be completely available.
+     *
+     * @return Read next byte.
+     *
+     * @throws IOException If the reading failed.
+     */
+    private byte nextFullByte() throws IOException
+    {
+        final byte result = nextByte();
+        checkLastByte();
+
+        return result;
+    }
+
+    private void checkLastByte() throws IOException
+    {
+        if (bytePosition == buffer.length && lastByteBits < 8)
+            throw new IOException("ByteArrayBitStreamReader: Unable to read bit on offset position " +
+                    lastByteBits + " in the last byte.");
+    }
+
     /**
      * Returns the next unsigned byte without resetting the bit offset.
      *
-- 
2.43.0


From ffe95676921ba2a721d2dda60ccd77821194cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 09/17] fix: ignore bytes behind the bit size in the Java
 reader

A buffer longer than its bit size was read to the end of the buffer.
---
 .../src/zserio/runtime/io/ByteArrayBitStreamReader.java     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index 663920c..33109d7 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -3,6 +3,7 @@ package zserio.runtime.io;
 import java.io.EOFException;
 import java.io.IOException;
 import java.math.BigInteger;
+import java.util.Arrays;
 
 import zserio.runtime.FloatUtil;
 
@@ -53,7 +54,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
      */
     public ByteArrayBitStreamReader(final BitBuffer bitBuffer, int maxPreallocatedArraySize)
     {
-        buffer = bitBuffer.getBuffer();
+        buffer = Arrays.copyOf(bitBuffer.getBuffer(), bitBuffer.getByteSize());
         final byte lastBits = (byte)(bitBuffer.getBitSize() % 8);
         lastByteBits = lastBits == 0 ? 8 : lastBits;
         this.maxPreallocatedArraySize = maxPreallocatedArraySize;
@@ -79,8 +80,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
      */
     public ByteArrayBitStreamReader(final byte[] bytes, long bitSize, int maxPreallocatedArraySize)
     {
-        this.buffer = new byte[bytes.length];
-        System.arraycopy(bytes, 0, this.buffer, 0, bytes.length);
+        this.buffer = Arrays.copyOf(bytes, (int)Math.min(bytes.length, (bitSize + 7) / 8));
         final byte lastBits = (byte)(bitSize % 8);
         lastByteBits = lastBits == 0 ? 8 : lastBits;
         this.maxPreallocatedArraySize = maxPreallocatedArraySize;
-- 
2.43.0


From 3a4ddc95bc46625c993257698ca6f3c2d78b8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 10/17] fix: keep the grouping of nested comparisons and
 negations in generated Python expressions

---
 .../PythonExpressionFormattingPolicy.java     | 41 ++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index c64b2fd..f3098c0 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -1,5 +1,6 @@
 package zserio.extension.python;
 
+import zserio.antlr.ZserioParser;
 import zserio.ast.BitmaskType;
 import zserio.ast.BitmaskValue;
 import zserio.ast.Constant;
@@ -253,37 +254,37 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public BinaryExpressionFormatting getEq(Expression expr)
     {
-        return new BinaryExpressionFormatting(" == ");
+        return formatComparison(expr, " == ");
     }
 
     @Override
     public BinaryExpressionFormatting getNe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" != ");
+        return formatComparison(expr, " != ");
     }
 
     @Override
     public BinaryExpressionFormatting getLt(Expression expr)
     {
-        return new BinaryExpressionFormatting(" < ");
+        return formatComparison(expr, " < ");
     }
 
     @Override
     public BinaryExpressionFormatting getLe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" <= ");
+        return formatComparison(expr, " <= ");
     }
 
     @Override
     public BinaryExpressionFormatting getGe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" >= ");
+        return formatComparison(expr, " >= ");
     }
 
     @Override
     public BinaryExpressionFormatting getGt(Expression expr)
     {
-        return new BinaryExpressionFormatting(" > ");
+        return formatComparison(expr, " > ");
     }
 
     @Override
@@ -425,6 +426,34 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
         result.append(PythonSymbolConverter.bitmaskValueToSymbol(bitmaskValue.getName()));
     }
 
+    private BinaryExpressionFormatting formatComparison(Expression expr, String operator)
+    {
+        // comparisons in Python have the same precedence, they are chained and they bind stronger than "not"
+        final boolean encloseOp1 = needsParenthesesInComparison(expr.op1());
+        final boolean encloseOp2 = needsParenthesesInComparison(expr.op2());
+
+        return new BinaryExpressionFormatting(encloseOp1 ? "(" : "",
+                (encloseOp1 ? ")" : "") + operator + (encloseOp2 ? "(" : ""), encloseOp2 ? ")" : "");
+    }
+
+    private static boolean needsParenthesesInComparison(Expression operand)
+    {
+        switch (operand.getType())
+        {
+        case ZserioParser.BANG:
+        case ZserioParser.EQ:
+        case ZserioParser.NE:
+        case ZserioParser.LT:
+        case ZserioParser.LE:
+        case ZserioParser.GE:
+        case ZserioParser.GT:
+            return true;
+
+        default:
+            return false;
+        }
+    }
+
     private void formatTypeIdentifier(StringBuilder result, ZserioType resolvedType)
             throws ZserioExtensionException
     {
-- 
2.43.0


From 0aab9bffe059bfcc76cd403f6e01051e39318009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 11/17] fix: do not merge repeated unary signs in generated
 Java and C++ expressions

---
 .../common/DefaultExpressionFormattingPolicy.java         | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java b/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
index 8fafadb..0e12457 100644
--- a/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
+++ b/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
@@ -36,12 +36,20 @@ public abstract class DefaultExpressionFormattingPolicy implements ExpressionFor
     @Override
     public UnaryExpressionFormatting getUnaryPlus(Expression expr)
     {
+        // two same signs without parentheses would be an increment or a decrement
+        if (expr.op1().getType() == expr.getType())
+            return new UnaryExpressionFormatting("+(", ")");
+
         return new UnaryExpressionFormatting("+");
     }
 
     @Override
     public UnaryExpressionFormatting getUnaryMinus(Expression expr)
     {
+        // two same signs without parentheses would be an increment or a decrement
+        if (expr.op1().getType() == expr.getType())
+            return new UnaryExpressionFormatting("-(", ")");
+
         return new UnaryExpressionFormatting("-");
     }
 
-- 
2.43.0


From 23147c219c83cd04ab5725dca4db10b54e3e37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 12/17] fix: convert native operands of BigInteger expressions
 in generated Java code

---
 compiler/core/src/zserio/ast/Expression.java  |  3 +-
 ...JavaDefaultExpressionFormattingPolicy.java | 59 +++++++++++++++----
 2 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index 9eed87d..4d6e726 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -731,7 +731,8 @@ public final class Expression extends AstNodeBase
             expressionIntegerValue = new ExpressionIntegerValue(expressionIntegerValue.getValue(),
                     expressionIntegerValue.getLowerBound(), expressionIntegerValue.getUpperBound(), true);
 
-            if (operand1 != null)
+            // array and index of the array element keep their own types
+            if (operand1 != null && type != ZserioParser.LBRACKET)
             {
                 operand1.propagateNeedsBigInteger();
                 if (operand2 != null)
diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index 42eecaa..3a34707 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -152,10 +152,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         final String symbol = expr.getText();
         final boolean isMostLeftId = expr.isMostLeftId();
         final StringBuilder result = new StringBuilder();
-        final BigInteger exprUpperBound = expr.getIntegerUpperBound();
-        final boolean isMappedToBigInteger =
-                (exprUpperBound != null && exprUpperBound.compareTo(BigInteger.valueOf(Long.MAX_VALUE)) > 0);
-        final boolean needsCastingToBigInteger = (!isMappedToBigInteger && expr.needsBigInteger());
+        final boolean needsCastingToBigInteger = (!isMappedToBigInteger(expr) && expr.needsBigInteger());
         if (isMostLeftId && needsCastingToBigInteger)
             result.append(BIG_INTEGER + ".valueOf(");
 
@@ -232,24 +229,27 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     {
         if (expr.op1().getExprType() == ExpressionType.STRING)
         {
-            return new UnaryExpressionFormatting("zserio.runtime.BuiltInOperators.lengthOf(", ")");
+            return formatIntegerResult(expr, "zserio.runtime.BuiltInOperators.lengthOf(", ")");
         }
         else
         {
-            return new UnaryExpressionFormatting("", ".length");
+            return formatIntegerResult(expr, "", ".length");
         }
     }
 
     @Override
-    public UnaryExpressionFormatting getValueOf(Expression expr)
+    public UnaryExpressionFormatting getValueOf(Expression expr) throws ZserioExtensionException
     {
-        return new UnaryExpressionFormatting("", ".getValue()");
+        if (hasBigIntegerValue(expr.op1().getExprZserioType()))
+            return new UnaryExpressionFormatting("", ".getValue()");
+
+        return formatIntegerResult(expr, "", ".getValue()");
     }
 
     @Override
     public UnaryExpressionFormatting getNumBits(Expression expr)
     {
-        return new UnaryExpressionFormatting("zserio.runtime.BuiltInOperators.numBits(", ")");
+        return formatIntegerResult(expr, "zserio.runtime.BuiltInOperators.numBits(", ")");
     }
 
     // binary expressions formatting
@@ -407,12 +407,15 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         if (!expr.needsBigInteger())
             return super.getModulo(expr);
 
-        return new BinaryExpressionFormatting("", ".mod(", ")");
+        return new BinaryExpressionFormatting("", ".remainder(", ")");
     }
 
     @Override
     public BinaryExpressionFormatting getArrayElement(Expression expr, boolean isSetter)
     {
+        if (!isSetter && expr.needsBigInteger() && !isMappedToBigInteger(expr))
+            return new BinaryExpressionFormatting(BIG_INTEGER + ".valueOf(", "[", "])");
+
         return new BinaryExpressionFormatting("", "[", (isSetter) ? "] = value" : "]");
     }
 
@@ -427,6 +430,10 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         if (expr.op2().getExprSymbolObject() instanceof EnumItem)
             return new BinaryExpressionFormatting(getDotSeparatorForEnumItem());
 
+        if (expr.op2().getExprSymbolObject() instanceof Field && expr.needsBigInteger() &&
+                !isMappedToBigInteger(expr))
+            return new BinaryExpressionFormatting(BIG_INTEGER + ".valueOf(", ".", ")");
+
         return new BinaryExpressionFormatting(".");
     }
 
@@ -451,6 +458,38 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     protected abstract String getDotSeparatorForEnumItem();
     protected abstract String getAccessPrefixForCompoundType(ZserioType owner);
 
+    private static boolean isMappedToBigInteger(Expression expr)
+    {
+        final BigInteger upperBound = expr.getIntegerUpperBound();
+
+        return upperBound != null && upperBound.compareTo(BigInteger.valueOf(Long.MAX_VALUE)) > 0;
+    }
+
+    private boolean hasBigIntegerValue(ZserioType type) throws ZserioExtensionException
+    {
+        final ZserioType baseType =
+                (type instanceof Subtype) ? ((Subtype)type).getBaseTypeReference().getType() : type;
+        if (baseType instanceof EnumType)
+            return javaNativeMapper.getJavaIntegralType(((EnumType)baseType).getTypeInstantiation())
+                    .requiresBigInt();
+
+        if (baseType instanceof BitmaskType)
+            return javaNativeMapper.getJavaIntegralType(((BitmaskType)baseType).getTypeInstantiation())
+                    .requiresBigInt();
+
+        return false;
+    }
+
+    private static UnaryExpressionFormatting formatIntegerResult(
+            Expression expr, String beforeOperand, String afterOperand)
+    {
+        // operators with native result must be converted if the result is used in BigInteger expression
+        if (!expr.needsBigInteger())
+            return new UnaryExpressionFormatting(beforeOperand, afterOperand);
+
+        return new UnaryExpressionFormatting(BIG_INTEGER + ".valueOf(" + beforeOperand, afterOperand + ")");
+    }
+
     private void formatParameterAccessor(
             StringBuilder result, boolean isMostLeftId, Parameter param, ZserioType exprOwner)
     {
-- 
2.43.0


From 9d4b9957f89fc442299a0c926c6995b4df0da7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 13/17] fix: end hexadecimal escapes after two digits in
 generated C++ string literals

---
 .../common/StringEscapeConverter.java         | 40 ++++++++++++++++++-
 .../cpp/CppExpressionFormattingPolicy.java    |  3 +-
 .../extension/cpp/CppLiteralFormatter.java    |  4 +-
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/compiler/core/src/zserio/extension/common/StringEscapeConverter.java b/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
index d21701a..7622a72 100644
--- a/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
+++ b/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
@@ -27,7 +27,7 @@ public final class StringEscapeConverter
             final char character = stringToConvert.charAt(index);
             int newIndex = index + 1;
             buffer.append(character);
-            if (character == STRING_ESCAPE_CHARACTER && newIndex + ESCAPE_UNICODE_LENGTH < endIndex)
+            if (character == STRING_ESCAPE_CHARACTER && newIndex + ESCAPE_UNICODE_LENGTH <= endIndex)
             {
                 final char escapeSpecifier = stringToConvert.charAt(newIndex);
                 if (escapeSpecifier == STRING_ESCAPE_CHARACTER)
@@ -57,6 +57,44 @@ public final class StringEscapeConverter
         return buffer.toString();
     }
 
+    /**
+     * Separates hexadecimal escape sequences from directly following hexadecimal digits in given string.
+     *
+     * Hexadecimal escape sequences in zserio have always two digits but C++ would use all following digits as
+     * well. Therefore string literal is split behind such escape sequence.
+     *
+     * @param stringToConvert String for escape sequences conversion.
+     *
+     * @return String with separated hexadecimal escape sequences.
+     */
+    public static String separateHexEscapes(String stringToConvert)
+    {
+        final StringBuilder buffer = new StringBuilder();
+        final int endIndex = stringToConvert.length();
+        int index = 0;
+        while (index < endIndex)
+        {
+            int newIndex = index + 1;
+            if (stringToConvert.charAt(index) == STRING_ESCAPE_CHARACTER && newIndex < endIndex)
+            {
+                final boolean isHexEscape = stringToConvert.charAt(newIndex) == ESCAPE_HEXADECIMAL_SPECIFIER;
+                newIndex += (isHexEscape) ? ESCAPE_HEXADECIMAL_LENGTH : 1;
+                buffer.append(stringToConvert, index, Math.min(newIndex, endIndex));
+                if (isHexEscape && newIndex < endIndex &&
+                        Character.digit(stringToConvert.charAt(newIndex), 16) != -1)
+                    buffer.append("\"\"");
+            }
+            else
+            {
+                buffer.append(stringToConvert.charAt(index));
+            }
+
+            index = newIndex;
+        }
+
+        return buffer.toString();
+    }
+
     /**
      * Converts hexadecimal escape sequences to unicode in given string.
      *
diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
index 3daca7d..fe857d8 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
@@ -136,7 +136,8 @@ public class CppExpressionFormattingPolicy extends DefaultExpressionFormattingPo
 
         // string literals in C++ does not support unicode escapes from interval <'\u0000', '\u0031'>
         final String escapedStringLiteral =
-                StringEscapeConverter.convertUnicodeToHexEscapes(expr.getStringValue());
+                StringEscapeConverter.separateHexEscapes(
+                        StringEscapeConverter.convertUnicodeToHexEscapes(expr.getStringValue()));
         return nativeStringViewType.formatLiteral(escapedStringLiteral);
     }
 
diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppLiteralFormatter.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppLiteralFormatter.java
index 6921ce6..aa28443 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppLiteralFormatter.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppLiteralFormatter.java
@@ -20,7 +20,9 @@ public final class CppLiteralFormatter
     public static String formatStringLiteral(String value)
     {
         // string literals in C++ does not support unicode escapes from interval <'\u0000', '\u0031'>
-        final String escapedStringLiteral = StringEscapeConverter.convertUnicodeToHexEscapes(value);
+        final String escapedStringLiteral =
+                StringEscapeConverter.separateHexEscapes(
+                        StringEscapeConverter.convertUnicodeToHexEscapes(value));
         return "\"" + escapedStringLiteral + "\"";
     }
 
-- 
2.43.0


From dea43b7e67e6ba6465f21d190ee1a395995d8744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 14/17] fix: describe Python native types by the schema name of
 their base type

---
 .../src/zserio/extension/python/NativeTypeInfoTemplateData.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/NativeTypeInfoTemplateData.java b/compiler/extensions/python/src/zserio/extension/python/NativeTypeInfoTemplateData.java
index 55ea178..483c7a4 100644
--- a/compiler/extensions/python/src/zserio/extension/python/NativeTypeInfoTemplateData.java
+++ b/compiler/extensions/python/src/zserio/extension/python/NativeTypeInfoTemplateData.java
@@ -98,7 +98,7 @@ public final class NativeTypeInfoTemplateData
         hasTypeInfo = isCompound || isEnum || isBitmask;
         isDynamicBitField = baseType instanceof DynamicBitFieldType;
         arrayTraits = new ArrayTraitsTemplateData(pythonNativeType.getArrayTraits());
-        schemaTypeFullName = ZserioTypeUtil.getFullName(typeReference.getType());
+        schemaTypeFullName = ZserioTypeUtil.getFullName(baseType);
         if (baseType instanceof SqlTableType)
         {
             hashCodeFunc = null;
-- 
2.43.0


From 6f96a5989cda50c731281a5049963fda29799599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 15/17] fix: import the runtime library in Python modules of
 extern subtypes

---
 .../zserio/extension/python/SubtypeEmitterTemplateData.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java b/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java
index 6bff0f0..b1514ec 100644
--- a/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java
+++ b/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java
@@ -2,6 +2,7 @@ package zserio.extension.python;
 
 import zserio.ast.Subtype;
 import zserio.extension.common.ZserioExtensionException;
+import zserio.extension.python.types.NativeBitBufferType;
 import zserio.extension.python.types.PythonNativeType;
 
 /**
@@ -17,6 +18,8 @@ public final class SubtypeEmitterTemplateData extends UserTypeTemplateData
         final PythonNativeMapper pythonNativeMapper = context.getPythonNativeMapper();
         final PythonNativeType nativeTargetType = pythonNativeMapper.getPythonType(subtype.getTypeReference());
         importType(nativeTargetType);
+        if (nativeTargetType instanceof NativeBitBufferType)
+            importPackage("zserio"); // the target type is defined in the runtime library
         targetTypeName = PythonFullNameFormatter.getFullName(nativeTargetType);
     }
 
-- 
2.43.0


From 06e5540860a3c7bc365d2ee7630ad5dc04cafb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 16/17] fix: read C++ SQL blobs from the column that was
 selected

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 218bc7e..9dcd320 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -200,8 +200,8 @@ ${name}::Row ${name}::Reader::next()
         if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
         {
         <#if field.sqlTypeData.isBlob>
-            const void* blobData = sqlite3_column_blob(m_stmt.get(), ${field?index});
-            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), ${field?index});
+            const void* blobData = sqlite3_column_blob(m_stmt.get(), index);
+            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), index);
             ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
                     static_cast<size_t>(blobDataLength));
             <@read_blob field, "m_parameterProvider"/>
-- 
2.43.0


From 5257c5e73bb2cec524d769c2ec3ca0ca01871fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 17/17] fix: convert 64 bit unsigned SQL columns through
 BigInteger in generated Java code

---
 .../java/freemarker/SqlTable.java.ftl         | 34 +++++++++++++------
 .../java/SqlTableEmitterTemplateData.java     |  7 ++--
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index 8be2561..465e247 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -595,6 +595,15 @@ public class ${name}
     }
 
 </#if>
+<#macro sql_integral_value field valueName needsCast=false>
+    <#if field.requiresBigInt>
+new java.math.BigInteger(java.lang.Long.toUnsignedString(${valueName}))<#t>
+    <#elseif needsCast>
+(${field.underlyingTypeInfo.typeFullName})${valueName}<#t>
+    <#else>
+${valueName}<#t>
+    </#if>
+</#macro>
 <#macro read_blob field called_from_validation indent>
     <#local I>${""?left_pad(indent * 4)}</#local>
     <#if called_from_validation>
@@ -634,11 +643,11 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
     <#assign valueVarName="value${field.name?cap_first}"/>
     <#if field.sqlTypeData.isBlob>
             final byte[] ${valueVarName} = resultSet.getBytes(index<#sep>++</#sep>);
+    <#elseif field.requiresBigInt>
+            final long ${valueVarName} = resultSet.getLong(index<#sep>++</#sep>);
     <#elseif field.underlyingTypeInfo??>
             final ${field.underlyingTypeInfo.typeFullName} ${valueVarName} = <#rt>
                     <#lt>resultSet.get${field.underlyingTypeInfo.typeName?cap_first}(index<#sep>++</#sep>);
-    <#elseif field.requiresBigInt>
-            final long ${valueVarName} = resultSet.getLong(index<#sep>++</#sep>);
     <#else>
             final ${field.typeInfo.typeFullName} ${valueVarName} = resultSet.get${field.typeInfo.typeName?cap_first}(index<#sep>++</#sep>);
     </#if>
@@ -650,11 +659,13 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
             <@read_blob field, false, 3/>
                 row.set${field.name?cap_first}(blob);
     <#elseif field.typeInfo.isEnum>
-                row.set${field.name?cap_first}(${field.typeInfo.typeFullName}.toEnum(${valueVarName}));
+                row.set${field.name?cap_first}(${field.typeInfo.typeFullName}.toEnum(<#rt>
+                        <#lt><@sql_integral_value field, valueVarName/>));
     <#elseif field.typeInfo.isBitmask>
-                row.set${field.name?cap_first}(new ${field.typeInfo.typeFullName}(${valueVarName}));
+                row.set${field.name?cap_first}(new ${field.typeInfo.typeFullName}(<#rt>
+                        <#lt><@sql_integral_value field, valueVarName/>));
     <#elseif field.requiresBigInt>
-                row.set${field.name?cap_first}(java.math.BigInteger.valueOf(${valueVarName}));
+                row.set${field.name?cap_first}(<@sql_integral_value field, valueVarName/>);
     <#else>
                 row.set${field.name?cap_first}(${valueVarName});
     </#if>
@@ -684,12 +695,13 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
         <#if field.sqlTypeData.isBlob>
                 final byte[] blobData = zserio.runtime.io.SerializeUtil.serializeToBytes(row.get${field.name?cap_first}());
                 statement.setBytes(index<#sep>++</#sep>, blobData);
-        <#elseif field.underlyingTypeInfo??>
+        <#elseif field.underlyingTypeInfo?? && !field.requiresBigInt>
                 final ${field.underlyingTypeInfo.typeFullName} underlyingValue =
                         row.get${field.name?cap_first}().getValue();
                 statement.set${field.underlyingTypeInfo.typeName?cap_first}(index<#sep>++</#sep>, underlyingValue);
         <#elseif field.requiresBigInt>
-                final long bigIntValue = row.get${field.name?cap_first}().longValue();
+                final long bigIntValue = row.get${field.name?cap_first}()<#rt>
+                        <#lt><#if field.underlyingTypeInfo??>.getValue()</#if>.longValue();
                 statement.setLong(index<#sep>++</#sep>, bigIntValue);
         <#else>
                 final ${field.typeInfo.typeFullName} value = row.get${field.name?cap_first}();
@@ -911,7 +923,7 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
                     <#if field.typeInfo.isEnum>
             try
             {
-                ${field.typeInfo.typeFullName}.toEnum((${field.underlyingTypeInfo.typeFullName})value);
+                ${field.typeInfo.typeFullName}.toEnum(<@sql_integral_value field, "value", true/>);
             }
             catch (java.lang.IllegalArgumentException exception)
             {
@@ -925,12 +937,12 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
                 </#if>
                 <#if field.typeInfo.isEnum>
             row.set${field.name?cap_first}(
-                    ${field.typeInfo.typeFullName}.toEnum((${field.underlyingTypeInfo.typeFullName})value));
+                    ${field.typeInfo.typeFullName}.toEnum(<@sql_integral_value field, "value", true/>));
                 <#elseif field.typeInfo.isBitmask>
             row.set${field.name?cap_first}(
-                    new ${field.typeInfo.typeFullName}((${field.underlyingTypeInfo.typeFullName})value));
+                    new ${field.typeInfo.typeFullName}(<@sql_integral_value field, "value", true/>));
                 <#elseif field.requiresBigInt>
-            row.set${field.name?cap_first}(java.math.BigInteger.valueOf(value));
+            row.set${field.name?cap_first}(<@sql_integral_value field, "value"/>);
                 <#elseif field.rangeCheckData.sqlRangeData??>
             row.set${field.name?cap_first}((${field.typeInfo.typeFullName})value);
                 <#else>
diff --git a/compiler/extensions/java/src/zserio/extension/java/SqlTableEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/SqlTableEmitterTemplateData.java
index b90c32f..170556d 100644
--- a/compiler/extensions/java/src/zserio/extension/java/SqlTableEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/SqlTableEmitterTemplateData.java
@@ -23,7 +23,6 @@ import zserio.extension.common.sql.SqlNativeTypeMapper;
 import zserio.extension.common.sql.types.NativeBlobType;
 import zserio.extension.common.sql.types.SqlNativeType;
 import zserio.extension.java.types.JavaNativeType;
-import zserio.extension.java.types.NativeIntegralType;
 import zserio.tools.HashUtil;
 
 /**
@@ -186,10 +185,6 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
 
             typeInfo = new NativeTypeInfoTemplateData(nativeType, fieldTypeInstantiation);
 
-            requiresBigInt = (nativeType instanceof NativeIntegralType)
-                    ? ((NativeIntegralType)nativeType).requiresBigInt()
-                    : false;
-
             typeParameters = new ArrayList<ParameterTemplateData>();
             if (fieldTypeInstantiation instanceof ParameterizedTypeInstantiation)
             {
@@ -211,6 +206,8 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
             isPrimaryKey = parentType.isFieldPrimaryKey(field);
 
             underlyingTypeInfo = createUnderlyingTypeInfo(javaNativeMapper, fieldBaseType);
+            requiresBigInt = (underlyingTypeInfo != null) ? underlyingTypeInfo.getRequiresBigInt()
+                                                          : typeInfo.getRequiresBigInt();
             rangeCheckData = createRangeCheckTemplateData(
                     javaNativeMapper, fieldBaseType, javaExpressionFormatter, fieldTypeInstantiation);
             final SqlNativeTypeMapper sqlNativeTypeMapper = new SqlNativeTypeMapper();
-- 
2.43.0

