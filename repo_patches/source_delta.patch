From 78db1af8848cfed53b999accd17f50754df93480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 01/57] fix: read_uint64 decodes the value as unsigned

read_uint64 went through the signed read_long, so values of 2**63 and
above written by write_uint64 came back negative.
---
 opendis/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 908e976..2e43fe7 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -101,7 +101,7 @@ class DataInputStream:
         return uint32(self.read_unsigned_int())
 
     def read_uint64(self) -> uint64:
-        return uint64(self.read_long())
+        return uint64(struct.unpack('>Q', self.stream.read(8))[0])
 
 
 class DataOutputStream:
-- 
2.43.0


From f5e97ec06b388ad243cdb69bad4fdb96ea64dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 02/57] fix: read_char8/write_char8 transfer one unsigned byte

read_char8 consumed two bytes for a character that write_char8 stores in
one, and write_char8 rejected characters above 0x7f.
---
 opendis/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 2e43fe7..4e20734 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -71,7 +71,7 @@ class DataInputStream:
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-        return char8(self.read_char())
+        return char8(chr(self.read_unsigned_byte()))
 
     def read_float32(self) -> float32:
         return float32(self.read_float())
@@ -151,7 +151,7 @@ class DataOutputStream:
 
     # Aliases for convenience
     def write_char8(self, val: char8) -> None:
-        self.write_byte(ord(val))
+        self.write_unsigned_byte(ord(val))
 
     def write_float32(self, val: float32) -> None:
         self.write_float(val)
-- 
2.43.0


From ab73b1d8865ac31acb18783352903b9a99681765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 03/57] fix: read_bytes and read_utf reject truncated input

Every fixed-width read already raises struct.error when the stream ends
early; read_bytes and read_utf silently returned fewer bytes (and
read_bytes with a negative count consumed the rest of the stream).
---
 opendis/stream.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 4e20734..2bcef4c 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -57,7 +57,7 @@ class DataInputStream:
 
     def read_utf(self) -> bytes:
         utf_length = struct.unpack('>H', self.stream.read(2))[0]
-        return self.stream.read(utf_length)
+        return self.read_bytes(utf_length)
 
     def read_int(self) -> int32:
         return struct.unpack('>i', self.stream.read(4))[0]
@@ -66,8 +66,13 @@ class DataInputStream:
         return struct.unpack('>I', self.stream.read(4))[0]
 
     def read_bytes(self, n: int) -> bytes:
-        """Read n bytes from the stream."""
-        return self.stream.read(n)
+        """Read exactly n bytes from the stream."""
+        if n < 0:
+            raise struct.error(f"read_bytes requires n >= 0, got {n}")
+        data = self.stream.read(n)
+        if len(data) != n:
+            raise struct.error(f"read_bytes requires {n} bytes, got {len(data)}")
+        return data
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-- 
2.43.0


From 1abaa224142cfd9a840f6d8234dd086f7cc5303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 04/57] fix: transfer GridAxisDescriptorVariable.xiValues as
 16-bit values

The list is declared list[uint16], but serialize called serialize() on
every int and parse used the undefined name null.
---
 opendis/dis7.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1b0036b..378a249 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2133,8 +2133,8 @@ class GridAxisDescriptorVariable:
         outputStream.write_unsigned_short(self.initialIndex)
         outputStream.write_double(self.coordinateScaleXi)
         outputStream.write_double(self.coordinateOffsetXi)
-        for anObj in self.xiValues:
-            anObj.serialize(outputStream)
+        for xiValue in self.xiValues:
+            outputStream.write_unsigned_short(xiValue)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2150,9 +2150,7 @@ class GridAxisDescriptorVariable:
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
         for idx in range(0, self.numberOfPointsOnXiAxis):
-            element = null()
-            element.parse(inputStream)
-            self.xiValues.append(element)
+            self.xiValues.append(inputStream.read_unsigned_short())
 
 
 class SupplyQuantity:
-- 
2.43.0


From e512d59ea9dfc2195f2085de4713dda5e4c37819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 05/57] fix: transfer SilentEntitySystem appearance records as
 32-bit records

parse used the undefined name null, so no AggregateStatePdu carrying
silent entities with appearance records could be read.
---
 opendis/dis7.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 378a249..96c6b60 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2186,7 +2186,7 @@ class SilentEntitySystem:
     def __init__(self,
                  numberOfEntities: uint16 = 0,
                  entityType: "EntityType | None" = None,
-                 appearanceRecordList: list | None = None):
+                 appearanceRecordList: list[struct32] | None = None):
         self.numberOfEntities = numberOfEntities
         """number of the type specified by the entity type field"""
         self.entityType = entityType or EntityType()
@@ -2202,8 +2202,8 @@ class SilentEntitySystem:
         outputStream.write_unsigned_short(self.numberOfEntities)
         outputStream.write_unsigned_short(self.numberOfAppearanceRecords)
         self.entityType.serialize(outputStream)
-        for anObj in self.appearanceRecordList:
-            anObj.serialize(outputStream)
+        for appearanceRecord in self.appearanceRecordList:
+            outputStream.write_unsigned_int(appearanceRecord)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2211,9 +2211,7 @@ class SilentEntitySystem:
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
         for idx in range(0, numberOfAppearanceRecords):
-            element = null()
-            element.parse(inputStream)
-            self.appearanceRecordList.append(element)
+            self.appearanceRecordList.append(inputStream.read_unsigned_int())
 
 
 class SilentAggregateSystem:
-- 
2.43.0


From d253306414837e386e5a0b408c1724e7ef4bc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 06/57] fix: StandardVariableSpecification.parse reads its
 records

parse used the undefined name null for every element.
---
 opendis/dis7.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 96c6b60..4508d8b 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2585,7 +2585,7 @@ class StandardVariableSpecification:
     """
 
     def __init__(self,
-                 standardVariables: list | None = None):
+                 standardVariables: list[StandardVariableRecord] | None = None):
         self.standardVariables = standardVariables or []
         """variable length list of standard variables.
         The class type and length here are WRONG and will cause the incorrect
@@ -2606,8 +2606,10 @@ class StandardVariableSpecification:
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
         for idx in range(0, numberOfStandardVariableRecords):
-            element = null()
-            element.parse(inputStream)
+            element = parseStandardVariableRecord(
+                inputStream,
+                StandardVariableRecord
+            )
             self.standardVariables.append(element)
 
 
-- 
2.43.0


From 4fc0f9ac46082d7f58d3718e87ebc012d2e886a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 07/57] fix: RecordSpecification.parse creates
 RecordSpecificationElement

parse used the undefined name null for every record set.
---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4508d8b..395dee4 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3283,7 +3283,7 @@ class RecordSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecordSets):
-            element = null()
+            element = RecordSpecificationElement()
             element.parse(inputStream)
             self.recordSets.append(element)
 
-- 
2.43.0


From 121d40dbdf93c61f0dda9840dc5ff2c1fd2533d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 08/57] fix: transfer IntercomSignalPdu.data as bytes, like
 SignalPdu

parse used the undefined name null and serialize called serialize() on
every byte value.
---
 opendis/dis7.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 395dee4..ec12b7d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4257,8 +4257,8 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_int(self.sampleRate)
         outputStream.write_unsigned_short(self.dataLength)
         outputStream.write_unsigned_short(self.samples)
-        for anObj in self.data:
-            anObj.serialize(outputStream)
+        for byte in self.data:
+            outputStream.write_unsigned_byte(byte)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -4273,8 +4273,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
         for idx in range(0, dataLength // 8):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.data.append(element)
 
 
-- 
2.43.0


From 01622724c76d025dbc494cff854cc587b9d26a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 09/57] fix: SeesPdu.parse creates the system records

parse used the undefined name null for both record lists.
---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ec12b7d..67fe9ae 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7058,8 +7058,8 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
                  infraredSignatureRepresentationIndex: uint16 = 0,
                  acousticSignatureRepresentationIndex: uint16 = 0,
                  radarCrossSectionSignatureRepresentationIndex: uint16 = 0,
-                 propulsionSystemData: list | None = None,
-                 vectoringSystemData: list | None = None):
+                 propulsionSystemData: list[PropulsionSystemData] | None = None,
+                 vectoringSystemData: list[VectoringNozzleSystem] | None = None):
         super(SeesPdu, self).__init__()
         self.orginatingEntityID = originatingEntityID or EntityIdentifier()
         self.infraredSignatureRepresentationIndex = infraredSignatureRepresentationIndex
@@ -7106,12 +7106,12 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
         for idx in range(0, numberOfPropulsionSystems):
-            element = null()
+            element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
         for idx in range(0, numberOfVectoringNozzleSystems):
-            element = null()
+            element = VectoringNozzleSystem()
             element.parse(inputStream)
             self.vectoringSystemData.append(element)
 
-- 
2.43.0


From cfda9784fe53e106d78e22d5746d786e13548e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 10/57] fix: transfer MinefieldResponseNackPdu sequence numbers
 as bytes

The list is declared list[uint8], but serialize called serialize() on
every int and parse used the undefined name null. The request ID is an
8-bit field, which is how it is transferred.
---
 opendis/dis7.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 67fe9ae..9e5d1b2 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7257,7 +7257,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
     def __init__(self,
                  minefieldID: EntityIdentifier | None = None,
                  requestingEntityID: EntityIdentifier | None = None,
-                 requestID: uint32 = 0,
+                 requestID: uint8 = 0,
                  missingPduSequenceNumbers: list[uint8] | None = None):
         super(MinefieldResponseNackPdu, self).__init__()
         # TODO: validate EntityID?
@@ -7279,8 +7279,8 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestingEntityID.serialize(outputStream)
         outputStream.write_unsigned_byte(self.requestID)
         outputStream.write_unsigned_byte(self.numberOfMissingPdus)
-        for anObj in self.missingPduSequenceNumbers:
-            anObj.serialize(outputStream)
+        for sequenceNumber in self.missingPduSequenceNumbers:
+            outputStream.write_unsigned_byte(sequenceNumber)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -7291,8 +7291,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
         for idx in range(0, numberOfMissingPdus):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.missingPduSequenceNumbers.append(element)
 
 
-- 
2.43.0


From bbdd8c99ed0e485c787a92b0c10c7f3c0b6eb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 11/57] fix: transfer RecordQueryReliablePdu.recordIDs as
 32-bit enumerations

The list is declared list[enum32], but serialize called serialize() on
every int and parse used the undefined name null.
---
 opendis/dis7.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 9e5d1b2..a10a7cf 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6559,8 +6559,8 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         outputStream.write_unsigned_short(self.eventType)
         outputStream.write_unsigned_int(self.time)
         outputStream.write_unsigned_int(self.numberOfRecords)
-        for anObj in self.recordIDs:
-            anObj.serialize(outputStream)
+        for recordID in self.recordIDs:
+            outputStream.write_unsigned_int(recordID)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -6573,8 +6573,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecords):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_int()
             self.recordIDs.append(element)
 
 
-- 
2.43.0


From 0b94f736ee8395d477ca1f88f9d463eed0e1d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 12/57] fix: ResupplyReceivedPdu.parse creates SupplyQuantity
 records

parse used the undefined name null, so every PDU that carries supplies
failed to parse.
---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a10a7cf..8a93e54 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4347,7 +4347,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
         for idx in range(0, numberOfSupplyTypes):
-            element = null()
+            element = SupplyQuantity()
             element.parse(inputStream)
             self.supplies.append(element)
 
-- 
2.43.0


From e3820f182a30185ee7758194123b812a63c41880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 13/57] fix: SilentAggregateSystem.serialize writes
 aggregateType

It read the attribute entityType, which the class does not have.
---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8a93e54..a97efa1 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2230,7 +2230,7 @@ class SilentAggregateSystem:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_short(self.numberOfAggregates)
-        self.entityType.serialize(outputStream)
+        self.aggregateType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-- 
2.43.0


From 173a875895739dfc52d4c8af2fadc9bd20bb31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 14/57] fix: Environment.serialize uses the padding attribute
 that exists

The constructor sets padding0; serialize read padding.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a97efa1..8859e36 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2656,14 +2656,14 @@ class Environment:
         outputStream.write_unsigned_int(self.environmentType)
         outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
-        outputStream.write_unsigned_byte(self.padding)
+        outputStream.write_unsigned_byte(self.padding0)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
         self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
-        self.padding = inputStream.read_unsigned_byte()
+        self.padding0 = inputStream.read_unsigned_byte()
 
 
 class AcousticEmitter:
-- 
2.43.0


From bee0bd6632ee49e581507220e1064429c360aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 15/57] fix: EnvironmentGeneral can be serialized

serialize read padding1, which the constructor did not set, could not
write the default geometry None, and wrote the uint16 length as a byte.
---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8859e36..ef1d58f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3175,14 +3175,14 @@ class EnvironmentGeneral:
                  environmentType: enum32 = 0,  # [UID 250]
                  length: uint16=0,
                  index: uint8 = 0,
-                 geometry=None):
+                 geometry: uint8 = 0):
         self.environmentType = environmentType
         """Record type"""
         self.length = length
         """length, in bits"""
         self.index = index
         """Identify the sequentially numbered record index"""
-        self.padding = 0
+        self.padding1 = 0
         self.geometry = geometry
         """Geometry or state record"""
         self.padding2 = 0
@@ -3191,7 +3191,7 @@ class EnvironmentGeneral:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.environmentType)
-        outputStream.write_unsigned_byte(self.length)
+        outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
         outputStream.write_unsigned_byte(self.padding1)
         outputStream.write_unsigned_byte(self.geometry)
@@ -3200,7 +3200,7 @@ class EnvironmentGeneral:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
-        self.length = inputStream.read_unsigned_byte()
+        self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_byte()
         self.geometry = inputStream.read_unsigned_byte()
-- 
2.43.0


From f3fc9fbc7fc22b58fdd67a3c6555157395a953c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 16/57] fix: LinearObjectStatePdu can be constructed

The constructor assigned the undefined name numberOfSegments to the
read-only property of the same name.
---
 opendis/dis7.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ef1d58f..3415c83 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4131,8 +4131,6 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.updateNumber = updateNumber
         """unique update number of each state transition of an object"""
         self.forceID = forceID
-        self.numberOfSegments = numberOfSegments
-        """number of linear segment parameters"""
         self.requesterID = requesterID or SimulationAddress()
         self.receivingID = receivingID or SimulationAddress()
         self.objectType = objectType or ObjectType()
-- 
2.43.0


From ce148db4f3e3c5e42f7520d442b0a07fb3e3964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 17/57] fix: AttachedParts transfers attachedPartType

serialize read the attribute parameterValue, which the constructor does
not set, and parse never restored attachedPartType.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3415c83..a2563f0 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -800,7 +800,7 @@ class AttachedParts:
         outputStream.write_unsigned_byte(self.detachedIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        self.attachedPartType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -808,7 +808,7 @@ class AttachedParts:
         self.detachedIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.attachedPartType.parse(inputStream)
 
 
 class Attribute:
-- 
2.43.0


From 336de5f864157abb2b728a58bbbeb3c750c2b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 18/57] fix: SeparationVP transfers stationLocation as a record

serialize passed the NamedLocationIdentification object to
write_unsigned_int and parse replaced it by an int.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a2563f0..c0c49e6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3606,7 +3606,7 @@ class SeparationVP:
         outputStream.write_unsigned_byte(self.padding1)
         self.parentEntityID.serialize(outputStream)
         outputStream.write_unsigned_short(self.padding2)
-        outputStream.write_unsigned_int(self.stationLocation)
+        self.stationLocation.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -3616,7 +3616,7 @@ class SeparationVP:
         self.padding1 = inputStream.read_unsigned_byte()
         self.parentEntityID.parse(inputStream)
         self.padding2 = inputStream.read_unsigned_short()
-        self.stationLocation = inputStream.read_unsigned_int()
+        self.stationLocation.parse(inputStream)
 
 
 class EmitterSystem:
-- 
2.43.0


From b1e9e97ad4921ea54f85c47a670ffb818564e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 19/57] fix: DirectedEnergyFirePdu transfers cumulativeShotTime

serialize and parse used the misspelt attribute commulativeShotTime, which
the constructor does not set.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index c0c49e6..f36f6d9 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6357,7 +6357,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).serialize(outputStream)
         self.munitionType.serialize(outputStream)
         self.shotStartTime.serialize(outputStream)
-        outputStream.write_float32(self.commulativeShotTime)
+        outputStream.write_float32(self.cumulativeShotTime)
         self.apertureEmitterLocation.serialize(outputStream)
         outputStream.write_float32(self.apertureDiameter)
         outputStream.write_float32(self.wavelength)
@@ -6377,7 +6377,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).parse(inputStream)
         self.munitionType.parse(inputStream)
         self.shotStartTime.parse(inputStream)
-        self.commulativeShotTime = inputStream.read_float32()
+        self.cumulativeShotTime = inputStream.read_float32()
         self.apertureEmitterLocation.parse(inputStream)
         self.apertureDiameter = inputStream.read_float32()
         self.wavelength = inputStream.read_float32()
-- 
2.43.0


From d81236e67f066b86a530255bacb97c53ab49f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 20/57] fix: PduHeader transfers a 16-bit length and an 8-bit
 status

The two widths were swapped, so a PDU length above 255 could not be
written.
---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f36f6d9..e82e3ec 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3403,8 +3403,8 @@ class PduHeader:
         outputStream.write_unsigned_byte(self.pduType)
         outputStream.write_unsigned_byte(self.protocolFamily)
         outputStream.write_unsigned_int(self.timestamp)
-        outputStream.write_unsigned_byte(self.pduLength)
-        outputStream.write_unsigned_short(self.pduStatus)
+        outputStream.write_unsigned_short(self.pduLength)
+        outputStream.write_unsigned_byte(self.pduStatus)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
@@ -3414,8 +3414,8 @@ class PduHeader:
         self.pduType = inputStream.read_unsigned_byte()
         self.protocolFamily = inputStream.read_unsigned_byte()
         self.timestamp = inputStream.read_unsigned_int()
-        self.pduLength = inputStream.read_unsigned_byte()
-        self.pduStatus = inputStream.read_unsigned_short()
+        self.pduLength = inputStream.read_unsigned_short()
+        self.pduStatus = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
-- 
2.43.0


From b1467ec36ccc0b43be4c4acc4803730fe01b3337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 21/57] fix: AttributePdu declares its PDU type

Without a pduType the superclass constructor raised ValueError, so the
class could not be instantiated.
---
 opendis/dis7.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index e82e3ec..d479904 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5333,6 +5333,9 @@ class AttributePdu(EntityInformationFamilyPdu):
     See 5.3.6 for the information requirements and issuance and receipt rules
     for this PDU. INCOMPLETE
     """
+    pduType: enum8 = 72  # [UID 4]
+
+
 
     def __init__(self,
                  originatingSimulationAddress: "SimulationAddress | None" = None,
-- 
2.43.0


From 7d5cd1d508196e8c348abb7d43b8cf804d15a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 22/57] fix: PduSuperclass checks protocolFamily, not pduType,
 for the family

A pduType argument without protocolFamily overwrote the family with None,
and a protocolFamily argument without pduType was ignored.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index d479904..f230e41 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3445,9 +3445,9 @@ class PduSuperclass:
             self.pduType = pduType
         """Type of pdu, unique for each PDU class"""
         
-        if protocolFamily is None and not hasattr(self, 'pduType'):
+        if protocolFamily is None and not hasattr(self, 'protocolFamily'):
             raise ValueError("protocolFamily must be set on subclasses of PduSuperclass or passed in via init")
-        elif pduType is not None:
+        elif protocolFamily is not None:
             self.protocolFamily = protocolFamily
         """value that refers to the protocol family, eg SimulationManagement, et"""
         
-- 
2.43.0


From 6665bdf1d50e2a259c35c04db4725797d196cb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 23/57] fix: EngineFuel constructor stores its arguments

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f230e41..a4384fe 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1971,13 +1971,13 @@ class EngineFuel:
                  fuelMeasurementUnits: enum8 = 0,  # [UID 328]
                  fuelType: enum8 = 0,  # [UID 413]
                  fuelLocation: enum8 = 0):  # [UID 329]
-        self.fuelQuantity = 0
+        self.fuelQuantity = fuelQuantity
         """Fuel quantity, units specified by next field"""
-        self.fuelMeasurementUnits = 0
+        self.fuelMeasurementUnits = fuelMeasurementUnits
         """Units in which the fuel is measured"""
-        self.fuelType = 0
+        self.fuelType = fuelType
         """Type of fuel"""
-        self.fuelLocation = 0
+        self.fuelLocation = fuelLocation
         """Location of fuel as related to entity. See section 14 of EBV document"""
         self.padding: uint8 = 0
 
-- 
2.43.0


From adf6115e787ef90a6f16438b3782480dddaadf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 24/57] fix: AngularVelocityVector constructor stores its
 arguments

---
 opendis/dis7.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a4384fe..dbdae7f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2706,11 +2706,11 @@ class AngularVelocityVector:
     """
 
     def __init__(self, x: float32 = 0.0, y: float32 = 0.0, z: float32 = 0.0):
-        self.x = 0
+        self.x = x
         """angular velocity about the x axis"""
-        self.y = 0
+        self.y = y
         """angular velocity about the y axis"""
-        self.z = 0
+        self.z = z
         """angular velocity about the zaxis"""
 
     def serialize(self, outputStream):
-- 
2.43.0


From 32d3a9cd09db2ed362c173511a0b593efb57321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 25/57] fix: AggregateMarking constructor stores characters

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index dbdae7f..9b37604 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2735,10 +2735,10 @@ class AggregateMarking:
 
     def __init__(self,
                  characterSet: enum8 = 0,  # [UID 45]
-                 characters=None):
+                 characters: list[uint8] | None = None):
         self.characterSet = characterSet
         """The character set"""
-        self.characters = [0] * 31
+        self.characters = characters or [0] * 31
         """The characters"""
 
     def serialize(self, outputStream):
-- 
2.43.0


From 0e4fc484961631500396093aa55f3e921329df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 26/57] fix: DataQueryPdu constructor stores requestID and
 timeInterval

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 9b37604..f561794 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4067,8 +4067,8 @@ class DataQueryPdu(SimulationManagementFamilyPdu):
                  fixedDatumIDs: list[enum32] | None = None,
                  variableDatumIDs: list[enum32] | None = None):
         super(DataQueryPdu, self).__init__()
-        self.requestID = 0
-        self.timeInterval = 0
+        self.requestID = requestID
+        self.timeInterval = timeInterval
         """time issues between issues of Data PDUs. Zero means send once only."""
         # Use DataQueryDatumSpecification
         self._dataQuery = DataQueryDatumSpecification(fixedDatumIDs or [],
-- 
2.43.0


From 61a5e503642cdc5011b9459f6b80dbc47ae609a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 27/57] fix: StorageFuelReload transfers 32-bit reload times

The fields are declared uint32 but were written as single bytes, so times
above 255 s could not be serialized.
---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f561794..428e381 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2975,8 +2975,8 @@ class StorageFuelReload:
         """serialize the class"""
         outputStream.write_unsigned_int(self.standardQuantity)
         outputStream.write_unsigned_int(self.maximumQuantity)
-        outputStream.write_unsigned_byte(self.standardQuantityReloadTime)
-        outputStream.write_unsigned_byte(self.maximumQuantityReloadTime)
+        outputStream.write_unsigned_int(self.standardQuantityReloadTime)
+        outputStream.write_unsigned_int(self.maximumQuantityReloadTime)
         outputStream.write_unsigned_byte(self.fuelMeasurementUnits)
         outputStream.write_unsigned_byte(self.fuelType)
         outputStream.write_unsigned_byte(self.fuelLocation)
@@ -2986,8 +2986,8 @@ class StorageFuelReload:
         """Parse a message. This may recursively call embedded objects."""
         self.standardQuantity = inputStream.read_unsigned_int()
         self.maximumQuantity = inputStream.read_unsigned_int()
-        self.standardQuantityReloadTime = inputStream.read_unsigned_byte()
-        self.maximumQuantityReloadTime = inputStream.read_unsigned_byte()
+        self.standardQuantityReloadTime = inputStream.read_unsigned_int()
+        self.maximumQuantityReloadTime = inputStream.read_unsigned_int()
         self.fuelMeasurementUnits = inputStream.read_unsigned_byte()
         self.fuelType = inputStream.read_unsigned_byte()
         self.fuelLocation = inputStream.read_unsigned_byte()
-- 
2.43.0


From ba14f1443ebd6f43383eba2fcac45d4843eab5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 28/57] fix: EventReportReliablePdu transfers a 32-bit
 eventType

The field is declared enum32, and EventReportPdu transfers it as such.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 428e381..577b5b5 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7235,14 +7235,14 @@ class EventReportReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportReliablePdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.eventType)
+        outputStream.write_unsigned_int(self.eventType)
         outputStream.write_unsigned_int(self.pad1)
         self._datums.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(EventReportReliablePdu, self).parse(inputStream)
-        self.eventType = inputStream.read_unsigned_short()
+        self.eventType = inputStream.read_unsigned_int()
         self.pad1 = inputStream.read_unsigned_int()
         self._datums.parse(inputStream)
 
-- 
2.43.0


From 85e7211b374cf14f146097b61f1d79d5d12354f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 29/57] fix: SystemIdentifier transfers systemMode and
 changeOptions separately

The 8-bit systemMode was read as 16 bits and swallowed the change/options
byte, so the mode came out multiplied by 256.
---
 opendis/dis7.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 577b5b5..da3b930 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1164,19 +1164,19 @@ class VariableParameter:
 
 
 class ChangeOptions:
-    """This is wrong and breaks serialization. See section 6.2.13 aka B.2.41"""
+    """See section 6.2.13 aka B.2.41. Represented here as just a byte."""
 
-    def __init__(self):
+    def __init__(self, changeOptions: struct8 = 0):
         """Initializer for ChangeOptions"""
-        pass
+        self.changeOptions = changeOptions
 
     def serialize(self, outputStream):
         """serialize the class"""
-        pass
+        outputStream.write_unsigned_byte(self.changeOptions)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-        pass
+        self.changeOptions = inputStream.read_unsigned_byte()
 
 
 class LiveSimulationAddress:
@@ -1798,14 +1798,14 @@ class SystemIdentifier:
         """serialize the class"""
         outputStream.write_unsigned_short(self.systemType)
         outputStream.write_unsigned_short(self.systemName)
-        outputStream.write_unsigned_short(self.systemMode)
+        outputStream.write_unsigned_byte(self.systemMode)
         self.changeOptions.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.systemType = inputStream.read_unsigned_short()
         self.systemName = inputStream.read_unsigned_short()
-        self.systemMode = inputStream.read_unsigned_short()
+        self.systemMode = inputStream.read_unsigned_byte()
         self.changeOptions.parse(inputStream)
 
 
-- 
2.43.0


From 468f0926987e0f81d5e6893561cc0d092feefa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 30/57] fix: ClockTime.hour is transferred as the signed
 integer it is declared

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index da3b930..ae59aa6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1343,12 +1343,12 @@ class ClockTime:
 
     def serialize(self, outputStream):
         """serialize the class"""
-        outputStream.write_unsigned_int(self.hour)
+        outputStream.write_int(self.hour)
         outputStream.write_unsigned_int(self.timePastHour)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-        self.hour = inputStream.read_unsigned_int()
+        self.hour = inputStream.read_int()
         self.timePastHour = inputStream.read_unsigned_int()
 
 
-- 
2.43.0


From e687428ec059bac2b164d2fa59788db1a22a601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 31/57] fix: ArticulatedParts.parameterValue is transferred as
 a float

The value is declared float32 (followed by 32 bits of padding), but was
written as a 64-bit integer, which rejects every float.
---
 opendis/dis7.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ae59aa6..4f8ed28 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -889,6 +889,7 @@ class ArticulatedParts:
         """the type of parameter represented, 32 bit enumeration"""
         self.parameterValue = parameterValue
         """The definition of the 64 bits shall be determined based on the type of parameter specified in the Parameter Type field"""
+        self.padding: uint32 = 0
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -896,7 +897,8 @@ class ArticulatedParts:
         outputStream.write_unsigned_byte(self.changeIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        outputStream.write_float(self.parameterValue)
+        outputStream.write_unsigned_int(self.padding)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -904,7 +906,8 @@ class ArticulatedParts:
         self.changeIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.parameterValue = inputStream.read_float()
+        self.padding = inputStream.read_unsigned_int()
 
 
 class ObjectType:
-- 
2.43.0


From 430c5a98124659bc75492d5a81dede252875888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 32/57] fix: AggregateType.country is declared with its 16-bit
 width

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4f8ed28..9af71c9 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1851,7 +1851,7 @@ class AggregateType:
     def __init__(self,
                  aggregateKind: enum8 = 0,  # [UID 206]
                  domain: enum8 = 0,  # [UID 8]
-                 country: enum8 = 0,  # [UID 29]
+                 country: enum16 = 0,  # [UID 29]
                  category: enum8 = 0,  # UID 207
                  subcategory: enum8 = 0,  # [UID 208]
                  specificInfo: enum8 = 0,  # [UID 209]
-- 
2.43.0


From 7f10b26ad5650ec6330ff392817c1fc9403ab419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 33/57] fix: DesignatorPdu.deadReckoningAlgorithm is an
 unsigned enumeration

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 9af71c9..100ae97 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4729,7 +4729,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         outputStream.write_float(self.designatorWavelength)
         self.designatorSpotWrtDesignated.serialize(outputStream)
         self.designatorSpotLocation.serialize(outputStream)
-        outputStream.write_byte(self.deadReckoningAlgorithm)
+        outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         outputStream.write_unsigned_short(self.padding1)
         outputStream.write_byte(self.padding2)
         self.entityLinearAcceleration.serialize(outputStream)
@@ -4745,7 +4745,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         self.designatorWavelength = inputStream.read_float()
         self.designatorSpotWrtDesignated.parse(inputStream)
         self.designatorSpotLocation.parse(inputStream)
-        self.deadReckoningAlgorithm = inputStream.read_byte()
+        self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_short()
         self.padding2 = inputStream.read_byte()
         self.entityLinearAcceleration.parse(inputStream)
-- 
2.43.0


From 57cc70bc23374e125b92aa867cc0df6f188747bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 34/57] fix: UaPdu.stateChangeIndicator is an unsigned
 enumeration

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 100ae97..a93a65c 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6830,7 +6830,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).serialize(outputStream)
         self.emittingEntityID.serialize(outputStream)
         self.eventID.serialize(outputStream)
-        outputStream.write_byte(self.stateChangeIndicator)
+        outputStream.write_unsigned_byte(self.stateChangeIndicator)
         outputStream.write_byte(self.pad)
         outputStream.write_unsigned_short(self.passiveParameterIndex)
         outputStream.write_unsigned_byte(self.propulsionPlantConfiguration)
@@ -6849,7 +6849,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).parse(inputStream)
         self.emittingEntityID.parse(inputStream)
         self.eventID.parse(inputStream)
-        self.stateChangeIndicator = inputStream.read_byte()
+        self.stateChangeIndicator = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_byte()
         self.passiveParameterIndex = inputStream.read_unsigned_short()
         self.propulsionPlantConfiguration = inputStream.read_unsigned_byte()
-- 
2.43.0


From a76406eab7f880bee02bb9244038b10ce9aa25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 35/57] fix: EntityMarking transfers characters as unsigned
 bytes

The list is declared list[uint8]. Characters above 0x7f could not be
written and came back negative, which made charactersString raise.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a93a65c..4057358 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1237,14 +1237,14 @@ class EntityMarking:
         """serialize the class"""
         outputStream.write_unsigned_byte(self.characterSet)
         for idx in range(0, 11):
-            outputStream.write_byte(self.characters[idx])
+            outputStream.write_unsigned_byte(self.characters[idx])
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.characterSet = inputStream.read_unsigned_byte()
         self.characters = [0] * 11
         for idx in range(0, 11):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
             self.characters[idx] = val
 
 
-- 
2.43.0


From 81aae6f3221712d0fbdbb448d92a590da0de26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 36/57] fix: FastEntityStatePdu transfers counts and bit
 records as unsigned

More than 127 variable parameters, or an appearance with bit 31 set, could
not be written; EntityStatePdu transfers the same fields as unsigned.
---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4057358..a781526 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5769,7 +5769,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_unsigned_short(self.application)
         outputStream.write_unsigned_short(self.entity)
         outputStream.write_unsigned_byte(self.forceId)
-        outputStream.write_byte(len(self.variableParameters))
+        outputStream.write_unsigned_byte(len(self.variableParameters))
         outputStream.write_unsigned_byte(self.entityKind)
         outputStream.write_unsigned_byte(self.domain)
         outputStream.write_unsigned_short(self.country)
@@ -5793,10 +5793,10 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.psi)
         outputStream.write_float(self.theta)
         outputStream.write_float(self.phi)
-        outputStream.write_int(self.entityAppearance)
+        outputStream.write_unsigned_int(self.entityAppearance)
         outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         for idx in range(0, 15):
-            outputStream.write_byte(self.otherParameters[idx])
+            outputStream.write_unsigned_byte(self.otherParameters[idx])
 
         outputStream.write_float(self.xAcceleration)
         outputStream.write_float(self.yAcceleration)
@@ -5805,9 +5805,9 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.yAngularVelocity)
         outputStream.write_float(self.zAngularVelocity)
         for idx in range(0, 12):
-            outputStream.write_byte(self.marking[idx])
+            outputStream.write_unsigned_byte(self.marking[idx])
 
-        outputStream.write_int(self.capabilities)
+        outputStream.write_unsigned_int(self.capabilities)
         for anObj in self.variableParameters:
             anObj.serialize(outputStream)
 
@@ -5818,7 +5818,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.application = inputStream.read_unsigned_short()
         self.entity = inputStream.read_unsigned_short()
         self.forceId = inputStream.read_unsigned_byte()
-        self.numberOfVariableParameters = inputStream.read_byte()
+        self.numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.entityKind = inputStream.read_unsigned_byte()
         self.domain = inputStream.read_unsigned_byte()
         self.country = inputStream.read_unsigned_short()
@@ -5842,11 +5842,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.psi = inputStream.read_float()
         self.theta = inputStream.read_float()
         self.phi = inputStream.read_float()
-        self.entityAppearance = inputStream.read_int()
+        self.entityAppearance = inputStream.read_unsigned_int()
         self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.otherParameters = [0] * 15
         for idx in range(0, 15):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.otherParameters[idx] = val
 
@@ -5858,11 +5858,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.zAngularVelocity = inputStream.read_float()
         self.marking = [0] * 12
         for idx in range(0, 12):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.marking[idx] = val
 
-        self.capabilities = inputStream.read_int()
+        self.capabilities = inputStream.read_unsigned_int()
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
-- 
2.43.0


From b3cca8db99fda5b49a504f760e6ded21cf39d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 37/57] fix: LiveEntityPdu header has the same length as the
 PDU header

The 8-bit subprotocolNumber was transferred as 16 bits, which made the
live entity header 13 bytes long.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a781526..a00f484 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3686,13 +3686,13 @@ class LiveEntityPdu(PduSuperclass):
     def serialize(self, outputStream):
         """serialize the class"""
         super(LiveEntityPdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.subprotocolNumber)
+        outputStream.write_unsigned_byte(self.subprotocolNumber)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(LiveEntityPdu, self).parse(inputStream)
-        self.subprotocolNumber = inputStream.read_unsigned_short()
+        self.subprotocolNumber = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
-- 
2.43.0


From 76d53981018e8a066f0af94f09319bfaa2fc7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 38/57] fix: BlankingSector.recordType is an unsigned
 enumeration

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a00f484..ae836f7 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2275,7 +2275,7 @@ class BlankingSector:
 
     def serialize(self, outputStream):
         """serialize the class"""
-        outputStream.write_int(self.recordType)
+        outputStream.write_unsigned_int(self.recordType)
         outputStream.write_unsigned_short(self.recordLength)
         outputStream.write_unsigned_short(self.padding)
         outputStream.write_unsigned_byte(self.emitterNumber)
@@ -2293,7 +2293,7 @@ class BlankingSector:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
 
-        self.recordType = inputStream.read_int()  # TODO: validate
+        self.recordType = inputStream.read_unsigned_int()  # TODO: validate
         self.recordLength = inputStream.read_unsigned_short()  # TODO: validate
         self.padding = inputStream.read_unsigned_short()
         self.emitterNumber = inputStream.read_unsigned_byte()
-- 
2.43.0


From a5e35656c304f31bf0d68cdac546ce025692bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 39/57] fix: IFFData writes the total record length that parse
 expects

serialize wrote the number of data bytes, parse subtracted the six header
bytes again, so six bytes of data were lost on every round trip.
---
 opendis/dis7.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ae836f7..420c2ff 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -184,7 +184,8 @@ class IFFData:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.recordType)
-        outputStream.write_unsigned_short(len(self.iffData))
+        # The record length includes the record type and length fields
+        outputStream.write_unsigned_short(6 + len(self.iffData))
         for anObj in self.iffData:
             outputStream.write_unsigned_byte(anObj)
         """TODO add padding to end on 32-bit boundary"""
-- 
2.43.0


From ae94728aaef2f44d1147789d46c74ef18b604d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 40/57] fix: VariableDatum with a bit length that is not a
 multiple of 8

The partial byte was dropped and the record came out one byte short of the
64-bit boundary, which misaligned everything that follows it.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 420c2ff..6a9c24f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3321,7 +3321,7 @@ class VariableDatum:
         """serialize the class"""
         outputStream.write_unsigned_int(self.variableDatumID)
         outputStream.write_unsigned_int(self.variableDatumLength)
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             outputStream.write_unsigned_byte(self.variableData[x])
 
         #send padding
@@ -3332,7 +3332,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
         # Skip over padding
-- 
2.43.0


From 58b78ff7c1694b5aad457829e86ff3752199cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 41/57] fix: IntercomControlPdu transfers its intercom
 parameters

The default None could not be serialized, the length counted records
instead of bytes, and parse called an instance method on the class.
---
 opendis/dis7.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 6a9c24f..5b32cd7 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6892,7 +6892,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
                  command: enum8 = 0,  # [UID 182]
                  masterEntityID: "EntityIdentifier | UnattachedIdentifier | None" = None,
                  masterCommunicationsDeviceID: uint16 = 0,
-                 intercomParameters: "IntercomCommunicationsParameters | None" = None):
+                 intercomParameters: list["IntercomCommunicationsParameters"] | None = None):
         super(IntercomControlPdu, self).__init__()
         self.controlType = controlType
         self.communicationsChannelType = communicationsChannelType
@@ -6911,14 +6911,13 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         """eid of the entity that has created this intercom channel."""
         self.masterCommunicationsDeviceID = masterCommunicationsDeviceID
         """specific intercom device that has created this intercom channel"""
-        self.intercomParameters = intercomParameters
-        """^^^This is wrong the length of the data field is variable. Using a long for now."""
+        self.intercomParameters = intercomParameters or []
+        """variable length list of intercom parameters records"""
 
     @property
     def intercomParametersLength(self) -> uint32:
-        # FIXME: This is incorrect
-        #        It should return the number of bytes in intercomParameters
-        return len(self.intercomParameters)
+        """Length of the intercom parameters in bytes"""
+        return len(self.intercomParameters) * 8
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -6952,7 +6951,10 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
         # TODO: Validate intercomParametersLength against rest of input stream?
-        self.intercomParameters = IntercomCommunicationsParameters.parse(inputStream)
+        for idx in range(0, intercomParametersLength // 8):
+            element = IntercomCommunicationsParameters()
+            element.parse(inputStream)
+            self.intercomParameters.append(element)
 
 
 class SignalPdu(RadioCommunicationsFamilyPdu):
-- 
2.43.0


From e20c3f1c3e11e5b692ece9bb697a5dbd00208fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 42/57] fix: IntercomControlPdu.sourceCommunicationsDeviceID is
 16 bits wide

The field is declared uint16 like masterCommunicationsDeviceID.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 5b32cd7..61cfc36 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6925,7 +6925,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_byte(self.controlType)
         outputStream.write_unsigned_byte(self.communicationsChannelType)
         self.sourceEntityID.serialize(outputStream)
-        outputStream.write_unsigned_byte(self.sourceCommunicationsDeviceID)
+        outputStream.write_unsigned_short(self.sourceCommunicationsDeviceID)
         outputStream.write_unsigned_byte(self.sourceLineID)
         outputStream.write_unsigned_byte(self.transmitPriority)
         outputStream.write_unsigned_byte(self.transmitLineState)
@@ -6942,7 +6942,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.controlType = inputStream.read_unsigned_byte()
         self.communicationsChannelType = inputStream.read_unsigned_byte()
         self.sourceEntityID.parse(inputStream)
-        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_byte()
+        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_short()
         self.sourceLineID = inputStream.read_unsigned_byte()
         self.transmitPriority = inputStream.read_unsigned_byte()
         self.transmitLineState = inputStream.read_unsigned_byte()
-- 
2.43.0


From 75500f741c5b220fbf0b5450c52660f8d0d000a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 43/57] fix: AggregateStatePdu.forceID is declared with its
 8-bit width

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 61cfc36..93238a0 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7409,7 +7409,7 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
     pduType: enum8 = 33
 
     def __init__(self, aggregateID: "AggregateIdentifier | None" = None,
-                 forceID: enum16 = 0,
+                 forceID: enum8 = 0,  # [UID 6]
                  aggregateState: enum8 = 0,
                  aggregateType: "AggregateType | None" = None,
                  formation: enum32 = 0,
-- 
2.43.0


From a47a03004c4359b7fc1eef39bcaa6a98271d17a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 44/57] fix: AggregateStatePdu center of mass and velocity have
 swapped types

The center of mass is a location in world coordinates (3 x 64 bits) and
the velocity a linear velocity vector (3 x 32 bits).
---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 93238a0..35c3db5 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7416,8 +7416,8 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
                  aggregateMarking: "AggregateMarking | None" = None,
                  dimensions: Vector3Float | None = None,
                  orientation: EulerAngles | None = None,
-                 centerOfMass: Vector3Float | None = None,
-                 velocity: WorldCoordinates | None = None,
+                 centerOfMass: WorldCoordinates | None = None,
+                 velocity: Vector3Float | None = None,
                  aggregateIDs: list[AggregateIdentifier] | None = None,
                  entityIDs: list[EntityIdentifier] | None = None,
                  silentAggregateSystems: list[SilentAggregateSystem] | None = None,
@@ -7437,9 +7437,9 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
         self.dimensions = dimensions or Vector3Float()
         """Orientation of the aggregate, average of the orientations of the constituents"""
         self.orientation = orientation or EulerAngles()
-        self.centerOfMass = centerOfMass or Vector3Float()
+        self.centerOfMass = centerOfMass or WorldCoordinates()
         """Aggregates linear velocity. The coordinate system is dependent on the dead reckoning algorithm"""
-        self.velocity = velocity or WorldCoordinates()
+        self.velocity = velocity or Vector3Float()
         """Identify subaggregates that are transmitting Aggregate State PDUs"""
         self.aggregateIDs = aggregateIDs or []
         """Constituent entities transmitting Entity State PDUs"""
-- 
2.43.0


From 95faebfb522a0c52a11dbb2493c5df9fa6f60b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 45/57] fix: Standard Variable records write their header once

The base class wrote the type and a 32-bit length, and all records but one
wrote the type and a 16-bit length again, so no record that was written
could be read back by parseStandardVariableRecord.
---
 opendis/record/__init__.py         | 2 --
 opendis/record/base.py             | 2 +-
 opendis/record/warfare/__init__.py | 6 ------
 3 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 50f57b7..4aeb047 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -57,8 +57,6 @@ def getStandardVariableClass(
 
         def serialize(self, outputStream: DataOutputStream) -> None:
             super().serialize(outputStream)
-            outputStream.write_uint32(self.recordType)
-            outputStream.write_uint16(self.recordLength)
             outputStream.write_bytes(self.data)
 
         def parse(self,
diff --git a/opendis/record/base.py b/opendis/record/base.py
index 735025f..455501b 100644
--- a/opendis/record/base.py
+++ b/opendis/record/base.py
@@ -85,7 +85,7 @@ class StandardVariableRecord(VariableRecord):
         """Serialize the record to the output stream."""
         super().serialize(outputStream)
         outputStream.write_uint32(self.recordType)
-        outputStream.write_uint32(self.recordLength)
+        outputStream.write_uint16(self.recordLength)
 
     @abstractmethod
     def parse(self,  # pyright: ignore [reportIncompatibleMethodOverride]
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index d0ea1dd..04e56d3 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -74,8 +74,6 @@ class DirectedEnergyDamage(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.damageLocation.serialize(outputStream)
         outputStream.write_float32(self.damageDiameter)
@@ -138,8 +136,6 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         outputStream.write_uint16(self.beamAntennaPatternCount)
         outputStream.write_uint16(
@@ -209,8 +205,6 @@ class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.targetSpotLocation.serialize(outputStream)
         self.targetSpotEntityLocation.serialize(outputStream)
-- 
2.43.0


From ae8d90ce26a3b5a3ee35c1cef46d4fe44b88a462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 46/57] fix: unrecognised Standard Variable records are
 accepted everywhere

The placeholder class derived from StandardVariableRecord only, so it was
rejected with TypeError wherever a more specific type is expected, which is
every place the function is called from.
---
 opendis/record/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 4aeb047..3482a94 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -45,7 +45,7 @@ def getStandardVariableClass(
 
     # Declare a local class since the recordType class variable will need to be
     # set for each new unrecognised record type.
-    class UnknownStandardVariableRecord(base.StandardVariableRecord):
+    class UnknownStandardVariableRecord(expectedType):
         """A placeholder class for unrecognised Standard Variable Records."""
         recordType: enum32
 
-- 
2.43.0


From 1f54482ca4120d88e9e08a113b655ecefec3f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 47/57] fix: UnknownAntennaPattern and SpreadSpectrum keep all
 they read

UnknownAntennaPattern read six bytes fewer than the declared antenna
pattern length, which has no header to subtract, and SpreadSpectrum.parse
discarded the unused bits that serialize writes.
---
 opendis/record/radio/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 8667ef5..f9b0cd2 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -95,8 +95,7 @@ class UnknownAntennaPattern(AntennaPatternRecord):
               bytelength: int) -> None:
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
-        # Read the remaining bytes in the record
-        self.data = inputStream.read_bytes(bytelength - 6)
+        self.data = inputStream.read_bytes(bytelength)
 
 
 # Implementations
@@ -213,6 +212,7 @@ class SpreadSpectrum(base.Record):
         self.frequencyHopping = bool(record_bitfield.frequencyHopping)
         self.pseudoNoise = bool(record_bitfield.pseudoNoise)
         self.timeHopping = bool(record_bitfield.timeHopping)
+        self.padding = record_bitfield.padding
 
 
 class ModulationType(base.Record):
-- 
2.43.0


From 4b5dd5014bfe8dca020d469881519caeafbd21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 48/57] fix: DirectedEnergyAreaAimpoint length counts its
 header and padding

marshalledSize omitted the two record counts, and the record was not
padded to 64 bits, so parse rejected the length of most records written.
---
 opendis/record/warfare/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 04e56d3..a761538 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -126,13 +126,17 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     def directedEnergyTargetEnergyDepositionCount(self) -> uint16:
         return len(self.directedEnergyTargetEnergyDepositions)
 
-    def marshalledSize(self) -> int:
-        size = 8  # recordType, recordLength, padding
+    @property
+    def unpaddedSize(self) -> int:
+        size = 12  # recordType, recordLength, padding, two record counts
         for record in self.beamAntennaPatterns:
             size += record.marshalledSize()
         for record in self.directedEnergyTargetEnergyDepositions:
             size += record.marshalledSize()
         return size
+
+    def marshalledSize(self) -> int:
+        return (self.unpaddedSize + 7) // 8 * 8
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
@@ -146,6 +150,8 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
 
         for record in self.directedEnergyTargetEnergyDepositions:
             record.serialize(outputStream)
+        # Pad to a multiple of 64 bits
+        outputStream.write_bytes(bytes(self.recordLength - self.unpaddedSize))
 
     def parse(self,
               inputStream: DataInputStream,
@@ -163,6 +169,7 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
             self.directedEnergyTargetEnergyDepositions.append(record)
+        inputStream.read_bytes(bytelength - self.unpaddedSize)
 
 
 class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
-- 
2.43.0


From be952d40ef242e81835695080eece21f57963789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 49/57] fix: parse consumes the declared length of variable
 records

---
 opendis/dis7.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 35c3db5..9921894 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -65,6 +65,8 @@ def parseStandardVariableRecord(
     svClass = getStandardVariableClass(recordType, expectedType)
     sv_instance = svClass()
     sv_instance.parse(inputStream, recordLength)
+    # Skip whatever the record does not use of its declared length
+    inputStream.read_bytes(recordLength - sv_instance.marshalledSize())
     return sv_instance
 
 
@@ -5089,6 +5091,10 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
             else:  # Other | Unknown
                 radio = UnknownRadio()
                 radio.parse(inputStream, bytelength=modulationParametersLength)
+            # Skip whatever the record does not use of its declared length
+            inputStream.read_bytes(
+                modulationParametersLength - radio.marshalledSize()
+            )
             self.modulationParameters = radio
         else:
             self.modulationParameters = None
@@ -5104,6 +5110,10 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
                     inputStream,
                     bytelength=antennaPatternLength
                 )
+            # Skip whatever the record does not use of its declared length
+            inputStream.read_bytes(
+                antennaPatternLength - self.antennaPattern.marshalledSize()
+            )
         else:
             self.antennaPattern = None
         
-- 
2.43.0


From 3f15aae9736ae42ba2d1df803d733ac2f1a17b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 50/57] fix: parsing into an existing object replaces its lists
 instead of appending

---
 opendis/dis7.py                    | 44 ++++++++++++++++++++++++++++++
 opendis/record/warfare/__init__.py |  2 ++
 2 files changed, 46 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 9921894..8e23307 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -106,9 +106,11 @@ class DataQueryDatumSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfFixedDatumIDs = inputStream.read_unsigned_int()
         numberOfVariableDatumIDs = inputStream.read_unsigned_int()
+        self.fixedDatumIDs = []
         for idx in range(0, numberOfFixedDatumIDs):
             datumID = inputStream.read_unsigned_int()
             self.fixedDatumIDs.append(datumID)
+        self.variableDatumIDs = []
         for idx in range(0, numberOfVariableDatumIDs):
             datumID = inputStream.read_unsigned_int()
             self.variableDatumIDs.append(datumID)
@@ -199,6 +201,7 @@ class IFFData:
         # The record length includes the length of record type field (32 bits)
         # and record length field (16 bits) so we subtract 6 bytes total for
         # those
+        self.iffData = []
         for idx in range(0, self.recordLength - 6):
             val = inputStream.read_unsigned_byte()
             self.iffData.append(val)
@@ -742,6 +745,7 @@ class IFFDataSpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfIFFDataRecords = inputStream.read_unsigned_short()
+        self.iffDataRecords = []
         for idx in range(0, numberOfIFFDataRecords):
             element = IFFData()
             element.parse(inputStream)
@@ -866,6 +870,7 @@ class RecordQuerySpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecords = inputStream.read_unsigned_int()
+        self.recordIDs = []
         for idx in range(0, numberOfRecords):
             val = inputStream.read_unsigned_int()
             self.recordIDs.append(val)
@@ -1632,11 +1637,13 @@ class DatumSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfFixedDatumRecords = inputStream.read_unsigned_int()
         numberOfVariableDatumRecords = inputStream.read_unsigned_int()
+        self.fixedDatumRecords = []
         for idx in range(0, numberOfFixedDatumRecords):
             element = FixedDatum()
             element.parse(inputStream)
             self.fixedDatumRecords.append(element)
 
+        self.variableDatumRecords = []
         for idx in range(0, numberOfVariableDatumRecords):
             element = VariableDatum()
             element.parse(inputStream)
@@ -2155,6 +2162,7 @@ class GridAxisDescriptorVariable:
         self.initialIndex = inputStream.read_unsigned_short()
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
+        self.xiValues = []
         for idx in range(0, self.numberOfPointsOnXiAxis):
             self.xiValues.append(inputStream.read_unsigned_short())
 
@@ -2216,6 +2224,7 @@ class SilentEntitySystem:
         self.numberOfEntities = inputStream.read_unsigned_short()
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
+        self.appearanceRecordList = []
         for idx in range(0, numberOfAppearanceRecords):
             self.appearanceRecordList.append(inputStream.read_unsigned_int())
 
@@ -2611,6 +2620,7 @@ class StandardVariableSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
+        self.standardVariables = []
         for idx in range(0, numberOfStandardVariableRecords):
             element = parseStandardVariableRecord(
                 inputStream,
@@ -3288,6 +3298,7 @@ class RecordSpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
+        self.recordSets = []
         for idx in range(0, numberOfRecordSets):
             element = RecordSpecificationElement()
             element.parse(inputStream)
@@ -3334,6 +3345,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
+        self.variableData = []
         for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
@@ -3818,6 +3830,7 @@ class EntityStateUpdatePdu(EntityInformationFamilyPdu):
         self.entityLocation.parse(inputStream)
         self.entityOrientation.parse(inputStream)
         self.entityAppearance = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -3870,6 +3883,7 @@ class ServiceRequestPdu(LogisticsFamilyPdu):
         self.serviceTypeRequested = inputStream.read_unsigned_byte()
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.serviceRequestPadding = inputStream.read_short()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -4171,6 +4185,7 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.requesterID.parse(inputStream)
         self.receivingID.parse(inputStream)
         self.objectType.parse(inputStream)
+        self.linearSegmentParameters = []
         for idx in range(0, numberOfSegments):
             element = LinearSegmentParameter()
             element.parse(inputStream)
@@ -4276,6 +4291,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         self.samples = inputStream.read_unsigned_short()
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
+        self.data = []
         for idx in range(0, dataLength // 8):
             element = inputStream.read_unsigned_byte()
             self.data.append(element)
@@ -4350,6 +4366,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -4882,6 +4899,7 @@ class EntityStatePdu(EntityInformationFamilyPdu):
         self.deadReckoningParameters.parse(inputStream)
         self.marking.parse(inputStream)
         self.capabilities = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -5117,6 +5135,7 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
         else:
             self.antennaPattern = None
         
+        self.variableTransmitterParameters = []
         for _ in range(0, variableTransmitterParameterCount):
             vtp = parseStandardVariableRecord(
                 inputStream,
@@ -5172,6 +5191,7 @@ class ElectromagneticEmissionsPdu(DistributedEmissionsFamilyPdu):
         numberOfSystems = inputStream.read_unsigned_byte()
         self.paddingForEmissionsPdu = inputStream.read_unsigned_short()
 
+        self.systems = []
         for idx in range(0, numberOfSystems):
             element = EmissionSystemRecord()
             element.parse(inputStream)
@@ -5234,6 +5254,7 @@ class EmissionSystemBeamRecord:
         self.beamStatus.parse(inputStream)
         self.jammingModeSequence = inputStream.read_unsigned_int()
 
+        self.trackJamRecords = []
         for idx in range(0, numberOfTargetsInTrackJam):
             element = TrackJamData()
             element.parse(inputStream)
@@ -5279,6 +5300,7 @@ class EmissionSystemRecord:
         inputStream.read_unsigned_short()  # 16 bit padding
         self.emitterSystem.parse(inputStream)
         self.location.parse(inputStream)
+        self.beamRecords = []
         for idx in range(0, numberOfBeams):
             element = EmissionSystemBeamRecord()
             element.parse(inputStream)
@@ -5330,6 +5352,7 @@ class ResupplyOfferPdu(LogisticsFamilyPdu):
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_byte()
         self.padding2 = inputStream.read_short()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -5874,6 +5897,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
             self.marking[idx] = val
 
         self.capabilities = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -6031,6 +6055,7 @@ class ArealObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         numberOfPoints = inputStream.read_unsigned_short()
         self.requesterID.parse(inputStream)
         self.receivingID.parse(inputStream)
+        self.objectLocation = []
         for idx in range(0, numberOfPoints):
             element = WorldCoordinates()
             element.parse(inputStream)
@@ -6173,11 +6198,13 @@ class MinefieldStatePdu(MinefieldFamilyPdu):
         self.minefieldOrientation.parse(inputStream)
         self.appearance = inputStream.read_unsigned_short()
         self.protocolMode = inputStream.read_unsigned_short()
+        self.perimeterPoints = []
         for idx in range(0, numberOfPerimeterPoints):
             element = Vector2Float()
             element.parse(inputStream)
             self.perimeterPoints.append(element)
 
+        self.mineTypes = []
         for idx in range(0, numberOfMineTypes):
             element = EntityType()
             element.parse(inputStream)
@@ -6407,6 +6434,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         self.padding3 = inputStream.read_uint32()
         self.padding4 = inputStream.read_uint16()
         numberOfDERecords = inputStream.read_uint16()
+        self.dERecords = []
         for _ in range(0, numberOfDERecords):
             vtp = parseStandardVariableRecord(
                 inputStream,
@@ -6481,6 +6509,7 @@ class DetonationPdu(WarfareFamilyPdu):
         self.detonationResult = inputStream.read_unsigned_byte()
         numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_unsigned_short()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -6587,6 +6616,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.eventType = inputStream.read_unsigned_short()
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
+        self.recordIDs = []
         for idx in range(0, numberOfRecords):
             element = inputStream.read_unsigned_int()
             self.recordIDs.append(element)
@@ -6680,6 +6710,7 @@ class EntityDamageStatusPdu(WarfareFamilyPdu):
         self.padding1 = inputStream.read_uint16()
         self.padding2 = inputStream.read_uint16()
         damageDescriptionCount = inputStream.read_uint16()
+        self.damageDescriptions = []
         for _ in range(0, damageDescriptionCount):
             record = parseStandardVariableRecord(
                 inputStream,
@@ -6867,14 +6898,17 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         numberOfShafts = inputStream.read_unsigned_byte()
         numberOfAPAs = inputStream.read_unsigned_byte()
         numberOfUAEmitterSystems = inputStream.read_unsigned_byte()
+        self.shaftRPMs = []
         for idx in range(0, numberOfShafts):
             element = null()
             element.parse(inputStream)
             self.shaftRPMs.append(element)
+        self.apaData = []
         for idx in range(0, numberOfAPAs):
             element = null()
             element.parse(inputStream)
             self.apaData.append(element)
+        self.emitterSystems = []
         for idx in range(0, numberOfUAEmitterSystems):
             element = null()
             element.parse(inputStream)
@@ -6961,6 +6995,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
         # TODO: Validate intercomParametersLength against rest of input stream?
+        self.intercomParameters = []
         for idx in range(0, intercomParametersLength // 8):
             element = IntercomCommunicationsParameters()
             element.parse(inputStream)
@@ -7023,6 +7058,7 @@ class SignalPdu(RadioCommunicationsFamilyPdu):
         self.sampleRate = inputStream.read_unsigned_int()
         dataLength = inputStream.read_unsigned_short()
         self.samples = inputStream.read_unsigned_short()
+        self.data = []
         for idx in range(0, dataLength // 8):
             element = inputStream.read_unsigned_byte()
             self.data.append(element)
@@ -7121,11 +7157,13 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         )
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
+        self.propulsionSystemData = []
         for idx in range(0, numberOfPropulsionSystems):
             element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
+        self.vectoringSystemData = []
         for idx in range(0, numberOfVectoringNozzleSystems):
             element = VectoringNozzleSystem()
             element.parse(inputStream)
@@ -7306,6 +7344,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestingEntityID.parse(inputStream)
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
+        self.missingPduSequenceNumbers = []
         for idx in range(0, numberOfMissingPdus):
             element = inputStream.read_unsigned_byte()
             self.missingPduSequenceNumbers.append(element)
@@ -7526,23 +7565,28 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
         numberOfEntityIDs = inputStream.read_unsigned_short()
         numberOfSilentAggregateSystems = inputStream.read_unsigned_short()
         numberOfSilentEntitySystems = inputStream.read_unsigned_short()
+        self.aggregateIDs = []
         for idx in range(0, numberOfAggregateIDs):
             element = AggregateIdentifier()
             element.parse(inputStream)
             self.aggregateIDs.append(element)
+        self.entityIDs = []
         for idx in range(0, numberOfEntityIDs):
             element = EntityIdentifier()
             element.parse(inputStream)
             self.entityIDs.append(element)
+        self.silentAggregateSystems = []
         for idx in range(0, numberOfSilentAggregateSystems):
             element = SilentAggregateSystem()
             element.parse(inputStream)
             self.silentAggregateSystems.append(element)
+        self.silentEntitySystems = []
         for idx in range(0, numberOfSilentEntitySystems):
             element = SilentEntitySystem()
             element.parse(inputStream)
             self.silentEntitySystems.append(element)
         numberOfVariableDatumRecords = inputStream.read_unsigned_int()
+        self.variableDatumRecords = []
         for idx in range(0, numberOfVariableDatumRecords):
             element = VariableDatum()
             element.parse(inputStream)
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index a761538..8d1f427 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -161,10 +161,12 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
         self.padding = inputStream.read_uint16()
         beamAntennaPatternCount = inputStream.read_uint16()
         directedEnergyTargetEnergyDepositionCount = inputStream.read_uint16()
+        self.beamAntennaPatterns = []
         for _ in range(0, beamAntennaPatternCount):
             record = BeamAntennaPattern()
             record.parse(inputStream)
             self.beamAntennaPatterns.append(record)
+        self.directedEnergyTargetEnergyDepositions = []
         for _ in range(0, directedEnergyTargetEnergyDepositionCount):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
-- 
2.43.0


From b6a7460eed86a2b0987d13f7ce099655e9fd3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 51/57] fix: PDU factory and RecordQueryReliablePdu use the
 standard PDU type numbers

---
 opendis/PduFactory.py | 9 ++++++---
 opendis/dis7.py       | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 97921de..c9a4fb7 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -14,7 +14,7 @@ PduTypeDecoders = {
     ,  3 : DetonationPdu
     ,  4 : CollisionPdu
     ,  5 : ServiceRequestPdu
-    ,  6 : CollisionElasticPdu
+    ,  6 : ResupplyOfferPdu
     ,  7 : ResupplyReceivedPdu
     ,  9 : RepairCompletePdu
     , 10 : RepairResponsePdu
@@ -36,18 +36,19 @@ PduTypeDecoders = {
     , 26 : SignalPdu
     , 27 : ReceiverPdu
     , 29 : UaPdu
+    , 30 : SeesPdu
     , 31 : IntercomSignalPdu
     , 32 : IntercomControlPdu
     , 33 : AggregateStatePdu
     , 36 : IsPartOfPdu
     , 37 : MinefieldStatePdu
     , 40 : MinefieldResponseNackPdu
-    , 41 : PointObjectStatePdu
     , 43 : PointObjectStatePdu
     , 44 : LinearObjectStatePdu
     , 45 : ArealObjectStatePdu
     , 51 : CreateEntityReliablePdu
     , 52 : RemoveEntityReliablePdu
+    , 53 : StartResumeReliablePdu
     , 54 : StopFreezeReliablePdu
     , 55 : AcknowledgeReliablePdu
     , 56 : ActionRequestReliablePdu
@@ -57,10 +58,12 @@ PduTypeDecoders = {
     , 60 : DataReliablePdu
     , 61 : EventReportReliablePdu
     , 62 : CommentReliablePdu
-    , 63 : RecordQueryReliablePdu
+    , 65 : RecordQueryReliablePdu
     , 66 : CollisionElasticPdu
     , 67 : EntityStateUpdatePdu
+    , 68 : DirectedEnergyFirePdu
     , 69 : EntityDamageStatusPdu
+    , 72 : AttributePdu
  }
 
 
diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8e23307..dd33da3 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6570,7 +6570,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
     
     A request for one or more records of data from an entity. COMPLETE
     """
-    pduType: enum8 = 63  # [UID 4]
+    pduType: enum8 = 65  # [UID 4]
 
     def __init__(self,
                  requestID: uint32 = 0,
-- 
2.43.0


From 7c81d24ef1d4a4f5c1c794320d278875168bea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 52/57] fix: UTM zone 60 and band X cover longitude 180 and
 latitudes up to 84

---
 opendis/RangeCoordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 4c9da54..3406c9a 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -343,7 +343,7 @@ class GPS:
         lon = lla[1]
         alt = lla[2]
         #Determine the zone number
-        zoneNumber = int((lon+180.)/6) + 1
+        zoneNumber = min(int((lon+180.)/6) + 1, 60)
         #Special zone for Norway
         if (56. <= lat < 64.) and (3. <= lon < 12.):
             zoneNumber = 32
@@ -560,7 +560,7 @@ class GPS:
         elif 48 <= lat < 56: return 'U'
         elif 56 <= lat < 64: return 'V'
         elif 64 <= lat < 72: return 'W'
-        elif 72 <= lat < 80: return 'X'
+        elif 72 <= lat <= 84: return 'X'
         else: return 'Z'
 
 
-- 
2.43.0


From 540c1509e793ee03bd4eefef9b5b5d8ccad4aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 53/57] fix: UTM northings south of the equator include the
 false northing

---
 opendis/RangeCoordinates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 3406c9a..1b93827 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -390,6 +390,9 @@ class GPS:
                 A**2/2. + \
                 (5.-T+9.*C+4.*C**2)*A**4/24. + \
                 (61.-58.*T+T**2+600.*C-330.*ePrimeSquared)*A**6/720.))
+        #False northing of the southern hemisphere
+        if lat < 0:
+            y += 10000000.
         #Calculate scale factor
         k = k0*(1 + \
             (1+C)*A**2/2. + \
-- 
2.43.0


From caa737a98fc66cbb4056d7f300ca5cc1ef6d6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 54/57] fix: example receiver survives unsupported PDUs and
 reads whole datagrams

---
 examples/dis_receiver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/examples/dis_receiver.py b/examples/dis_receiver.py
index 25b118f..be7d78c 100644
--- a/examples/dis_receiver.py
+++ b/examples/dis_receiver.py
@@ -24,9 +24,13 @@ gps = GPS()
 def recv():
     print('Reading from socket...')
 
-    data = udpSocket.recv(1024) # buffer size in bytes
+    data = udpSocket.recv(8192) # maximum size of a PDU in bytes
     pdu = createPdu(data)
 
+    if pdu is None:
+        print("Received an unsupported PDU, {} bytes".format(len(data)), flush=True)
+        return
+
     pduTypeName = pdu.__class__.__name__
 
     if pdu.pduType == 1: # PduTypeDecoders.EntityStatePdu:
-- 
2.43.0


From c8b6789d08e8711b13c5f5781f8d684fcb40fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 55/57] fix: DirectedEnergyAreaAimpoint reads only its own
 padding

The container already skips the rest of the declared length; skipping it
twice consumed part of the next record.
---
 opendis/record/warfare/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 8d1f427..d978bd5 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -171,7 +171,7 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
             self.directedEnergyTargetEnergyDepositions.append(record)
-        inputStream.read_bytes(bytelength - self.unpaddedSize)
+        inputStream.read_bytes(self.marshalledSize() - self.unpaddedSize)
 
 
 class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
-- 
2.43.0


From b13defec880584c1212808094b2ccb2b34e492ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 56/57] Revert "fix: example receiver survives unsupported PDUs
 and reads whole datagrams"

This reverts commit caa737a98fc66cbb4056d7f300ca5cc1ef6d6db3.
---
 examples/dis_receiver.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/examples/dis_receiver.py b/examples/dis_receiver.py
index be7d78c..25b118f 100644
--- a/examples/dis_receiver.py
+++ b/examples/dis_receiver.py
@@ -24,13 +24,9 @@ gps = GPS()
 def recv():
     print('Reading from socket...')
 
-    data = udpSocket.recv(8192) # maximum size of a PDU in bytes
+    data = udpSocket.recv(1024) # buffer size in bytes
     pdu = createPdu(data)
 
-    if pdu is None:
-        print("Received an unsupported PDU, {} bytes".format(len(data)), flush=True)
-        return
-
     pduTypeName = pdu.__class__.__name__
 
     if pdu.pduType == 1: # PduTypeDecoders.EntityStatePdu:
-- 
2.43.0


From e23191932f7cd65fa28ac46342f2768d4755ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:43 +0000
Subject: [PATCH 57/57] fix: refuse values that do not fit a bit field instead
 of cutting them

---
 opendis/record/bitfield.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index a3df951..341987f 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -95,10 +95,19 @@ def bitfield(name: str,
     for field_name, ftype, bits in fields:
         struct_fields.append(_field(field_name, ftype, bits, base_ctype))
 
+    widths = {field_name: bits for field_name, _, bits in fields}
+
     # Create the struct class
     class Bitfield(BigEndianStructure):
         _fields_ = struct_fields
 
+        def __setattr__(self, field_name: str, value: int) -> None:
+            # ctypes would silently keep only the low bits of the value
+            bits = widths.get(field_name)
+            if bits is not None and not 0 <= value < 1 << bits:
+                raise ValueError(f"{field_name} must fit in {bits} bit(s): got {value!r}")
+            super().__setattr__(field_name, value)
+
         @staticmethod
         def marshalledSize() -> int:
             return bytesize
-- 
2.43.0

