From 517ba0d7be46180ca96dc46aaa6007b76e802b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 01/62] fix: refuse to write a value that does not fit in its
 bit field

addBits() or:ed an oversized (or negative) value into the byte, silently
corrupting the neighbouring fields. Whole bytes already raise OverflowError.
---
 pyzwave/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 64dc0d3..bfbc1ee 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -70,6 +70,8 @@ class BitStreamWriter(bytearray):
 
     def addBits(self, value, size):
         """Add size number of bits to the stream"""
+        if value < 0 or value >> size:
+            raise OverflowError("{} does not fit in {} bits".format(value, size))
         byte = 0
         if self._start == 0:
             # Start new byte
-- 
2.43.0


From 9ed6d5039fb16fb520ef34d292bcdd491d960a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 02/62] fix: compose the reserved fields of a decoded message
 with their own width

Reserved fields share one name, so the value (and width) stored for one of
them was written for all of them when a decoded message was composed again.
---
 pyzwave/message.py | 3 ++-
 pyzwave/types.py   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/message.py b/pyzwave/message.py
index 2e75928..29cfa89 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -25,7 +25,8 @@ class Message(AttributesMixin):
         stream.addBytes(cmdClass, 1, False)
         stream.addBytes(cmd, 1, False)
         for name, attrType in self.attributes:
-            if name not in self._attributes:
+            if name not in self._attributes or getattr(attrType, "reserved", False):
+                # Several reserved fields may share the same name, never reuse a received value
                 default = getattr(attrType, "default", None)
                 if default is not None:
                     attrType(default).serialize(stream)
diff --git a/pyzwave/types.py b/pyzwave/types.py
index bfbc1ee..df3d698 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -329,6 +329,7 @@ def reserved_t(size):  # pylint: disable=invalid-name
         """Type for when the bits are reserved and must not be used"""
 
         default = 0
+        reserved = True
         sizeBits = size
 
     return reserved_t
-- 
2.43.0


From e6c90397bed55ce8ab93aa45f878e08ae49b364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 03/62] fix: read all 29 bytes of the node list mask

The mask covers node 1-232. The nodes 225-232 were never seen.
---
 pyzwave/commandclass/NetworkManagementProxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index b5fd04d..0c3c70f 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -37,7 +37,7 @@ class NodeList(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize nodes from stream"""
         nodeList = cls()
-        for i in range(28):
+        for i in range(29):
             nodeByte = uint8_t.deserialize(stream)
             for j in range(8):
                 if nodeByte & (1 << j):
-- 
2.43.0


From 235d5533bd9b1573f3022fa50f21a8c6e019adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 04/62] fix: the first byte of the supported sensor mask holds
 the lowest sensor types

The mask was read as a big endian number, giving the wrong sensor types as soon
as the mask was more than one byte.
---
 pyzwave/commandclass/SensorMultilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 7e5c134..2036c4c 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -56,7 +56,7 @@ class SensorSupported(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize types from stream"""
         supported = cls()
-        value = int.from_bytes(stream.remaining(), byteorder="big", signed=False)
+        value = int.from_bytes(stream.remaining(), byteorder="little", signed=False)
         i = 1
         while value > 0:
             if value & 1 == 1:
-- 
2.43.0


From 8168f4d094f39e3a1fab12eed04bc3189c7261ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 05/62] fix: do not drop a supported sensor report listing an
 unknown sensor type

---
 pyzwave/commandclass/SensorMultilevel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 2036c4c..883455e 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -60,7 +60,11 @@ class SensorSupported(set):
         i = 1
         while value > 0:
             if value & 1 == 1:
-                supported.add(SensorType(i))
+                try:
+                    supported.add(SensorType(i))
+                except ValueError:
+                    # Not a type we know the name of
+                    supported.add(i)
             value >>= 1
             i += 1
         return supported
-- 
2.43.0


From 414e3ce630c92a1aa3d3ae661e299190c1a8f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 06/62] fix: ignore unsupported non-critical header options
 instead of dropping the packet

An unknown option type, an option we do not decode (maintenance get, multicast
addressing) or an unknown IME type made the whole Z/IP packet, and the command
in it, undecodable.
---
 pyzwave/commandclass/Zip.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 2dfcefb..49cbd1f 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -116,9 +116,14 @@ class ZIPPacketOptionMaintenanceReport(
         """Deserialize ZIP Maintenance Report"""
         retval = {}
         while stream.bytesLeft():
-            imeType = IMEType(stream.byte())
+            imeType = stream.byte()
             length = stream.byte()
             imeVal = stream.value(length)
+            try:
+                imeType = IMEType(imeType)
+            except ValueError:
+                # Unknown type, must be ignored
+                continue
             typeCls = IME_MAPPING.get(imeType, IMEUnknownValue)
             retval[imeType] = typeCls.load(BitStreamReader(imeVal))
         return retval
@@ -168,6 +173,9 @@ class ZIPPacketOption(AttributesMixin):
             clsType = ZIPPacketOptionEncapsulationFormatInfo
         elif self.optionType == ZIPPacketOptionType.EXPECTED_DELAY:
             clsType = ZIPPacketOptionExpectedDelay
+        else:
+            # Not supported
+            return clsType()
         cls = clsType()
         if hasattr(cls, "parseAttributes"):
             cls.parseAttributes(BitStreamReader(data))
@@ -204,6 +212,11 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         while reader.bytesLeft() > 0:
             option = ZIPPacketOption()
             option.parseAttributes(reader)
+            if type(option.optionData) is ZIPPacketOptionData:
+                # Not an option we support, it must be ignored unless it is critical
+                if option.critical:
+                    raise ValueError("Unsupported critical option in header")
+                continue
             retval[option.optionType] = option.optionData
         return retval
 
-- 
2.43.0


From 5c684f433daf312e1a7ba7f53363fc1eea614b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 07/62] fix: keep native values when storing the attributes

Since Python 3.11 every object has __getstate__(), and it returns None for the
native types. Configuration values, group names etc. were stored as None.
---
 pyzwave/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index b90edd0..dbc363f 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -80,7 +80,8 @@ class AttributesMixin:
     def __getstate__(self) -> Dict[str, Any]:
         values = {}
         for attr, value in self._attributes.items():
-            if hasattr(value, "__getstate__"):
+            getstate = getattr(type(value), "__getstate__", None)
+            if getstate is not getattr(object, "__getstate__", None):
                 values[attr] = value.__getstate__()
             else:
                 values[attr] = value
-- 
2.43.0


From b28994c46ac3d7a6ebd508da2b2e4a090088e6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 08/62] fix: do not restore an uninterviewed command class as
 interviewed

The yaml storage loads all scalars as strings, and bool('false') is True.
---
 pyzwave/commandclass/CommandClass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 240ca51..8bbf21c 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -201,7 +201,8 @@ class CommandClass(AttributesMixin, Listenable):
 
     def __setstate__(self, state):
         self._version = int(state.get("version", 0))
-        self._interviewed = bool(state.get("interviewed", False))
+        # The value is a string when it comes from the yaml storage
+        self._interviewed = str(state.get("interviewed", False)).lower() == "true"
         super().__setstate__(state)
 
     @staticmethod
-- 
2.43.0


From ce6a6c4a436d3fd38c98ec5563cc139320d9f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 09/62] fix: restore the commands of an association group as
 numbers

The yaml storage loads all scalars as strings.
---
 pyzwave/commandclass/AssociationGrpInfo.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 8355033..ad2d4d4 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -23,6 +23,17 @@ from . import ZWaveMessage, ZWaveMessageHandler, ZWaveCommandClass
 from .CommandClass import DictAttribute, CommandClass
 
 
+class Commands(list):
+    """The commands sent by an association group"""
+
+    def __getstate__(self):
+        return list(self)
+
+    def __setstate__(self, state):
+        for commandClass, command in state:
+            self.append([int(commandClass), int(command)])
+
+
 class Group(DictAttribute):
     """Attribute for an association group"""
 
@@ -31,7 +42,7 @@ class Group(DictAttribute):
         # ("mode", uint8_t),  # Not used according to docs, always zero. No need to save it
         ("profile", uint16_t),
         # ("eventCode", uint16_t),  # Not used according to docs, always zero. No need to save it
-        ("commands", list),
+        ("commands", Commands),
     )
 
 
-- 
2.43.0


From e64a7bf0a2de2df95b775a97171d3cbede056962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 10/62] fix: store the association group information when it is
 received

The reports arrive after the interview is finished, so nothing signalled that
the command class was updated. Also ignore a command list for an unknown group.
---
 pyzwave/commandclass/AssociationGrpInfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index ad2d4d4..70b4912 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -181,13 +181,17 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupCommandListReport)
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
+        if report.groupingIdentifier not in self.groupings:
+            return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
+        self.speak("commandClassUpdated")
         return True
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
         for group in report.groups:
             self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
+            self.speak("commandClassUpdated")
             await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
             await self.send(
                 GroupCommandListGet(
@@ -201,6 +205,7 @@ class AssociationGrpInfo(CommandClass):
         if report.groupingIdentifier not in self.groupings:
             return True
         self.groupings[report.groupingIdentifier].name = report.name
+        self.speak("commandClassUpdated")
         return True
 
     async def interview(self):
-- 
2.43.0


From aa232962a4f9e41da631666c47285cfad2d8a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 11/62] fix: create the folder for the stored nodes

Nothing creates it, so every write failed and no settings were ever stored.
---
 pyzwave/persistantstorage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index c2244e8..c107b8c 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -46,7 +46,9 @@ class YamlStorage(PersistantStorage):
         settings = {"supported": {}}
         for cmdClassId, cmdClass in node.supported.items():
             settings["supported"][cmdClassId] = self.cmdClassRepresenter(cmdClass)
-        with open(self.pathForNode(node.nodeId), "w") as fd:
+        path = self.pathForNode(node.nodeId)
+        path.parent.mkdir(parents=True, exist_ok=True)
+        with open(path, "w") as fd:
             yaml.dump(settings, fd)
 
     @property
-- 
2.43.0


From 7bf2cf0fa7f85cee0b834d227acdd6704cac2be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 12/62] fix: replace the stored settings of a node atomically

The file was truncated before the new settings were written. A crash, or an
error while dumping the settings, lost everything stored for the node.
---
 pyzwave/persistantstorage.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index c107b8c..65d4423 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -1,7 +1,9 @@
 # -*- coding: utf-8 -*-
 
 import logging
+import os
 import pathlib
+import tempfile
 import yaml
 
 from pyzwave.commandclass import CommandClass
@@ -48,8 +50,17 @@ class YamlStorage(PersistantStorage):
             settings["supported"][cmdClassId] = self.cmdClassRepresenter(cmdClass)
         path = self.pathForNode(node.nodeId)
         path.parent.mkdir(parents=True, exist_ok=True)
-        with open(path, "w") as fd:
-            yaml.dump(settings, fd)
+        # Write to a temporary file first, to not lose the old settings if we are interrupted
+        handle, tmpPath = tempfile.mkstemp(prefix=path.name, dir=str(path.parent))
+        try:
+            with os.fdopen(handle, "w") as fd:
+                yaml.dump(settings, fd)
+                fd.flush()
+                os.fsync(fd.fileno())
+            os.replace(tmpPath, str(path))
+        except BaseException:
+            os.unlink(tmpPath)
+            raise
 
     @property
     def path(self) -> str:
-- 
2.43.0


From 7c8eebf2a9c95bf98b21f4fa8c7c433628e033c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 13/62] fix: give each waiter for a message its own session

All waiters for the same message type shared one future. When one of them timed
out or was cancelled the others were cancelled too, and a waiter cleaning up
removed the session of a newer waiter, which then never got its message.
---
 pyzwave/util.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index dbc363f..3c94b0e 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -175,20 +175,24 @@ class MessageWaiter:
         Setup the session to wait for _before_ doing the wait. Do this to avoid
         a race condition where the message is received before we wait for it
         """
-        hid = msgType.hid()
-        session = self._sessions.get(hid, None)
-        if not session:
-            session = asyncio.get_event_loop().create_future()
-            self._sessions[hid] = session
+        session = asyncio.get_event_loop().create_future()
+        self._sessions.setdefault(msgType.hid(), []).append(session)
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
-        session = self._sessions.pop(message.hid(), None)
-        if session:
-            session.set_result(message)
-            return True
-        return False
+        handled = False
+        for session in self._sessions.pop(message.hid(), []):
+            if not session.done():
+                session.set_result(message)
+                handled = True
+        return handled
+
+    def removeWaitingSession(self, msgType, session):
+        """Stop waiting for the message. Does not affect any other session for the same message"""
+        sessions = self._sessions.get(msgType.hid(), [])
+        if session in sessions:
+            sessions.remove(session)
 
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
@@ -197,8 +201,9 @@ class MessageWaiter:
         try:
             await asyncio.wait_for(session, timeout)
         except asyncio.TimeoutError:
-            _LOGGER.warning("Timeout waiting for message %s", msgType)
-            raise
+            if session.cancelled() or not session.done():
+                _LOGGER.warning("Timeout waiting for message %s", msgType)
+                raise
         finally:
-            self._sessions.pop(msgType.hid(), None)
+            self.removeWaitingSession(msgType, session)
         return session.result()
-- 
2.43.0


From 99dd5cf06710158659c0506a7e98960d2f59c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 14/62] fix: do not lose a report received before the ack, or
 after an abandoned request

Node.sendAndReceive() set up a session but did not wait for it, so a report
received before the ack was lost. The session of a request which could not be
sent, or was cancelled, was never removed and swallowed a later report.
---
 pyzwave/adapter.py |  7 +++++--
 pyzwave/node.py    | 15 +++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 4a6e05f..db6764e 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -211,8 +211,11 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
     ) -> Message:
         """Send a message and wait for the response"""
         session = self.addWaitingSession(waitFor)
-        await self.send(cmd, **kwargs)
-        return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        try:
+            await self.send(cmd, **kwargs)
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @abc.abstractmethod
     async def setNodeInfo(self, generic, specific, cmdClasses):
diff --git a/pyzwave/node.py b/pyzwave/node.py
index c75c56c..b1e4c48 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -244,12 +244,15 @@ class Node(Listenable, MessageWaiter):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        self.addWaitingSession(waitFor)
-        retval = await self.send(cmd, **kwargs)
-        if not retval:
-            # Node did not wakeup in time!
-            raise asyncio.TimeoutError()
-        return await self.waitForMessage(waitFor, timeout=timeout)
+        session = self.addWaitingSession(waitFor)
+        try:
+            retval = await self.send(cmd, **kwargs)
+            if not retval:
+                # Node did not wakeup in time!
+                raise asyncio.TimeoutError()
+            return await self.waitForMessage(waitFor, timeout=timeout, session=session)
+        finally:
+            self.removeWaitingSession(waitFor, session)
 
     @contextmanager
     def storageLock(self):
-- 
2.43.0


From d5f2fa7436d5276faba7e2c2850ed2ffdc64a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 15/62] fix: stop waiting for the ack when the sender is
 cancelled

The ack id was left in the queue, so the message sent with the same sequence
number 256 messages later failed.
---
 pyzwave/adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index db6764e..c0ff0ce 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -236,5 +236,7 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             await ack.wait(timeout)
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout waiting for response for ack %s", ackId)
-            del self._ackQueue[ackId]
             raise
+        finally:
+            if self._ackQueue.get(ackId) is ack:
+                del self._ackQueue[ackId]
-- 
2.43.0


From 804efb7403d26e82fff68854758eb1ca2a2009c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 16/62] fix: do not reuse the sequence number of a message not
 yet acked

A message to a sleeping node may be queued while 256 others are sent. The next
one was sent with the same sequence number, and send() raised an exception.
---
 pyzwave/zipconnection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 4643208..cf60289 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -139,6 +139,11 @@ class ZIPConnection(Adapter):
 
     async def send(self, cmd, sourceEP=0, destEP=0, timeout=3) -> bool:
         self._seq = (self._seq + 1) & 0xFF
+        for _ in range(256):
+            if self._seq not in self._ackQueue:
+                break
+            # Still in use by a message queued for a sleeping node
+            self._seq = (self._seq + 1) & 0xFF
         msg = Zip.ZipPacket(
             ackRequest=True,
             ackResponse=False,
-- 
2.43.0


From 70b787f7287ea45cae97fb6908df17a90a0f65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 17/62] fix: allow nested and concurrent storage locks

The inner lock cleared the flag telling the node was updated and, when released,
also released the outer lock. Updates were written too often or not at all.
---
 pyzwave/node.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index b1e4c48..3dcc473 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -72,6 +72,8 @@ class Node(Listenable, MessageWaiter):
         self._controlled = {}
         # Flag is this node need to be saved to persistant storage
         self._storageStatus: StorageStatus = StorageStatus.CLEAN
+        # Number of storage locks currently held
+        self._storageLocks = 0
         self._endpoint = 0
         self._flirs = False
         self._genericDeviceClass = 0
@@ -274,12 +276,17 @@ class Node(Listenable, MessageWaiter):
             # The storage will happen here, only once
         """
         try:
-            self._storageStatus = StorageStatus.LOCKED_CLEAN
+            self._storageLocks += 1
+            if self._storageLocks == 1:
+                self._storageStatus = StorageStatus.LOCKED_CLEAN
             yield
         finally:
-            if self._storageStatus == StorageStatus.LOCKED_DIRTY:
-                self.speak("nodeUpdated")
-            self._storageStatus = StorageStatus.CLEAN
+            self._storageLocks -= 1
+            if self._storageLocks == 0:
+                dirty = self._storageStatus == StorageStatus.LOCKED_DIRTY
+                self._storageStatus = StorageStatus.CLEAN
+                if dirty:
+                    self.speak("nodeUpdated")
 
     @property
     def specificDeviceClass(self) -> int:
-- 
2.43.0


From 28a306b0796264bf8833e6c345b388fa0e7cf835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 18/62] fix: accept a node info frame ending in the middle of a
 security mark

Node() raised IndexError, and the whole node was never loaded.
---
 pyzwave/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 3dcc473..c9d7383 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -87,7 +87,7 @@ class Node(Listenable, MessageWaiter):
         securityS0 = False
         while i < len(cmdClasses):
             cmdClass = cmdClasses[i]
-            if cmdClass == 0xF1 and cmdClasses[i + 1] == 0x00:
+            if cmdClass == 0xF1 and list(cmdClasses[i + 1 : i + 2]) == [0x00]:
                 # Security Scheme 0 Mark
                 securityS0 = True
                 supported = True
-- 
2.43.0


From 7fbf33b588ce6c768c9d7e4e2392727673f37fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 19/62] fix: do not take the address of another node for the
 requested one

---
 pyzwave/util.py       | 19 ++++++++++---------
 pyzwave/zipgateway.py |  8 +++++++-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 3c94b0e..7f2d42f 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -170,29 +170,30 @@ class MessageWaiter:
         super().__init__()
         self._sessions = {}
 
-    def addWaitingSession(self, msgType):
+    def addWaitingSession(self, msgType, match=None):
         """
         Setup the session to wait for _before_ doing the wait. Do this to avoid
-        a race condition where the message is received before we wait for it
+        a race condition where the message is received before we wait for it.
+        If match is supplied only messages it returns True for end the session.
         """
         session = asyncio.get_event_loop().create_future()
-        self._sessions.setdefault(msgType.hid(), []).append(session)
+        self._sessions.setdefault(msgType.hid(), []).append((session, match))
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
         handled = False
-        for session in self._sessions.pop(message.hid(), []):
-            if not session.done():
-                session.set_result(message)
-                handled = True
+        for session, match in list(self._sessions.get(message.hid(), [])):
+            if session.done() or (match and not match(message)):
+                continue
+            session.set_result(message)
+            handled = True
         return handled
 
     def removeWaitingSession(self, msgType, session):
         """Stop waiting for the message. Does not affect any other session for the same message"""
         sessions = self._sessions.get(msgType.hid(), [])
-        if session in sessions:
-            sessions.remove(session)
+        sessions[:] = [x for x in sessions if x[0] is not session]
 
     async def waitForMessage(self, msgType, timeout: int = 3, session=None):
         """Async method for waiting for a specific message to arrive from the node."""
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d8f5b11..5716dd1 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -199,8 +199,14 @@ class ZIPGateway(ZIPConnection):
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
+        # A late advertisement for another node must not be mistaken for this one
+        session = self.addWaitingSession(
+            ZipND.ZipNodeAdvertisement, lambda reply: reply.nodeId == nodeId
+        )
         self._conn.send(msg.compose())
-        response = await self.waitForMessage(ZipND.ZipNodeAdvertisement, timeout=3)
+        response = await self.waitForMessage(
+            ZipND.ZipNodeAdvertisement, timeout=3, session=session
+        )
         return response.ipv6
 
     async def removeFailedNode(
-- 
2.43.0


From f439217cfe558e6a8c9d5ba2833a1c623cf0a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 20/62] fix: wrap the network management sequence number

---
 pyzwave/zipgateway.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 5716dd1..c36a0a3 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -32,7 +32,7 @@ class ZIPGateway(ZIPConnection):
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.ANY_S2,
@@ -48,7 +48,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeDSKSet(
         self, accept: bool, inputDSKLength: int, dsk: dsk_t
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddDSKSet(
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
@@ -61,7 +61,7 @@ class ZIPGateway(ZIPConnection):
     async def addNodeKeysSet(
         self, grantCSA: bool, accept: bool, grantedKeys: NetworkManagementInclusion.Keys
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddKeysSet(
             seqNo=self._nmSeq,
             grantCSA=grantCSA,
@@ -75,7 +75,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def addNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.STOP,
@@ -106,7 +106,7 @@ class ZIPGateway(ZIPConnection):
         return connection
 
     async def getFailedNodeList(self) -> list:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.FailedNodeListGet(seqNo=self._nmSeq,)
         try:
             report = await self.sendAndReceive(
@@ -117,7 +117,7 @@ class ZIPGateway(ZIPConnection):
         return report.failedNodeList
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelEndPointGet(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -133,7 +133,7 @@ class ZIPGateway(ZIPConnection):
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
     ) -> NetworkManagementProxy.MultiChannelCapabilityReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelCapabilityGet(
             seqNo=self._nmSeq, nodeID=nodeId, endPoint=endpoint
         )
@@ -150,7 +150,7 @@ class ZIPGateway(ZIPConnection):
         if self._nodes:
             # Return cached list
             return set(self._nodes.keys())
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeListGet(seqNo=self._nmSeq)
         try:
             report = await self.sendAndReceive(
@@ -166,7 +166,7 @@ class ZIPGateway(ZIPConnection):
     async def getNodeInfo(
         self, nodeId: int
     ) -> NetworkManagementProxy.NodeInfoCachedReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeInfoCachedGet(
             seqNo=self._nmSeq, maxAge=15, nodeID=nodeId
         )
@@ -212,7 +212,7 @@ class ZIPGateway(ZIPConnection):
     async def removeFailedNode(
         self, nodeId: int
     ) -> NetworkManagementInclusion.FailedNodeRemoveStatus.Status:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.FailedNodeRemove(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -227,7 +227,7 @@ class ZIPGateway(ZIPConnection):
         return report.status
 
     async def removeNode(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.ANY
         )
@@ -239,7 +239,7 @@ class ZIPGateway(ZIPConnection):
         return True
 
     async def removeNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.STOP
         )
-- 
2.43.0


From 3370b420a56232a806d35d3b2edf4377f6ff83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 21/62] fix: do not return the reply to another network
 management request

---
 pyzwave/adapter.py    |  9 ++++++---
 pyzwave/zipgateway.py | 19 +++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index c0ff0ce..652703d 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -207,10 +207,13 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
         raise NotImplementedError()
 
     async def sendAndReceive(
-        self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
+        self, cmd: Message, waitFor: Message, timeout: int = 3, match=None, **kwargs
     ) -> Message:
-        """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        """
+        Send a message and wait for the response. If match is supplied only a message it
+        returns True for is the response.
+        """
+        session = self.addWaitingSession(waitFor, match)
         try:
             await self.send(cmd, **kwargs)
             return await self.waitForMessage(waitFor, session=session, timeout=timeout)
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index c36a0a3..6d1f2b0 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -298,6 +298,25 @@ class ZIPGateway(ZIPConnection):
         )
         return False
 
+    async def sendAndReceive(
+        self, cmd: Message, waitFor: Message, timeout: int = 3, match=None, **kwargs
+    ) -> Message:
+        """Send a message and wait for the response"""
+        seqNo = cmd.seqNo
+        if match is None and seqNo is not None:
+
+            def match(report):
+                # A reply to any other of our recent requests is not the one we wait for
+                return (
+                    report.seqNo is None
+                    or report.seqNo == seqNo
+                    or (self._nmSeq - report.seqNo) & 0xFF >= 0x80
+                )
+
+        return await super().sendAndReceive(
+            cmd, waitFor, timeout=timeout, match=match, **kwargs
+        )
+
     async def sendToNode(self, nodeId: int, cmd: Message, **kwargs) -> bool:
         conn = await self.connectToNode(nodeId)
         return await conn.send(cmd, **kwargs)
-- 
2.43.0


From 70b5eff9fec71a0e47f72d64037b3101b5aa2ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 22/62] fix: do not take a report about something else for the
 requested one

---
 pyzwave/commandclass/Association.py      | 7 ++++++-
 pyzwave/commandclass/CommandClass.py     | 1 +
 pyzwave/commandclass/Configuration.py    | 6 +++++-
 pyzwave/commandclass/SensorMultilevel.py | 4 +++-
 pyzwave/node.py                          | 9 ++++++---
 5 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 1482e51..2c9b5ce 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -145,14 +145,19 @@ class Association(CommandClass):
     async def interviewGrouping(self, groupingIdentifier):
         """Interview an association group"""
         group = self.groupings[groupingIdentifier]
+
+        def match(report):
+            return report.groupingIdentifier == groupingIdentifier
+
         if self.node.supports(COMMAND_CLASS_MULTI_CHANNEL_ASSOCIATION_V2):
             report = await self.sendAndReceive(
                 MultiChannelGet(groupingIdentifier=groupingIdentifier),
                 MultiChannelReport,
+                match=match,
             )
         else:
             report = await self.sendAndReceive(
-                Get(groupingIdentifier=groupingIdentifier), Report
+                Get(groupingIdentifier=groupingIdentifier), Report, match=match
             )
         if report.groupingIdentifier != groupingIdentifier:
             # Got the wrong message. Should hopyfully not happen...
diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 8bbf21c..73f0273 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -162,6 +162,7 @@ class CommandClass(AttributesMixin, Listenable):
             answer = await self._node.sendAndReceive(
                 Version.VersionCommandClassGet(requestedCommandClass=self.id),
                 Version.VersionCommandClassReport,
+                match=lambda report: report.requestedCommandClass == self.id,
             )
             self._version = int(answer.commandClassVersion)
         except asyncio.TimeoutError:
diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 87e9e86..a0ea4b4 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -135,7 +135,11 @@ class Configuration(CommandClass):
         """Request configuration value from node. Return the cached value if it is already known."""
         if cached and number in self.parameters:
             return self.parameters[number].value
-        report: Report = await self.sendAndReceive(Get(parameterNumber=number), Report)
+        report: Report = await self.sendAndReceive(
+            Get(parameterNumber=number),
+            Report,
+            match=lambda report: report.parameterNumber == number,
+        )
         return report.value
 
     async def set(self, parameterNumber: int, size: Size, value: int) -> bool:
diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 883455e..3095a10 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -185,6 +185,8 @@ class SensorMultilevel(CommandClass):
         )
         for sensor in report.bitMask:
             scaleReport = await self.sendAndReceive(
-                SupportedGetScale(sensorType=sensor), SupportedScaleReport
+                SupportedGetScale(sensorType=sensor),
+                SupportedScaleReport,
+                match=lambda report, sensor=sensor: report.sensorType == sensor,
             )
             self.supportedTypes[int(sensor)] = scaleReport.scaleBitMask
diff --git a/pyzwave/node.py b/pyzwave/node.py
index c9d7383..37dd7d6 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -243,10 +243,13 @@ class Node(Listenable, MessageWaiter):
         )
 
     async def sendAndReceive(
-        self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
+        self, cmd: Message, waitFor: Message, timeout: int = 3, match=None, **kwargs
     ) -> Message:
-        """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        """
+        Send a message and wait for the response. If match is supplied only a message it
+        returns True for is the response.
+        """
+        session = self.addWaitingSession(waitFor, match)
         try:
             retval = await self.send(cmd, **kwargs)
             if not retval:
-- 
2.43.0


From 05da44d5d6fcda67cf349a732f53cefed183a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 23/62] fix: share one connection between concurrent senders to
 a node

---
 pyzwave/zipgateway.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 6d1f2b0..3300aae 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -28,6 +28,7 @@ class ZIPGateway(ZIPConnection):
         self._unsolicitedConnection = Connection()
         self._unsolicitedConnection.onMessage(self.onUnsolicitedMessage)
         self._connections = {}
+        self._connectLocks = {}
         self._nodes = {}
         self._nmSeq = 0
 
@@ -94,16 +95,17 @@ class ZIPGateway(ZIPConnection):
 
     async def connectToNode(self, nodeId) -> ZIPConnection:
         """Returns a connection to the node"""
-        if nodeId in self._connections:
-            return self._connections[nodeId]
+        async with self._connectLocks.setdefault(nodeId, asyncio.Lock()):
+            if nodeId in self._connections:
+                return self._connections[nodeId]
 
-        ipv6 = await self.ipOfNode(nodeId)
+            ipv6 = await self.ipOfNode(nodeId)
 
-        connection = ZIPConnection(ipv6.compressed, self.psk)
-        connection.addListener(self)
-        await connection.connect()
-        self._connections[nodeId] = connection
-        return connection
+            connection = ZIPConnection(ipv6.compressed, self.psk)
+            connection.addListener(self)
+            await connection.connect()
+            self._connections[nodeId] = connection
+            return connection
 
     async def getFailedNodeList(self) -> list:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
-- 
2.43.0


From da51cebcbeb94801247e0f336ed1ed2dc76b8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 24/62] fix: survive a lost node advertisement and overlapping
 node list reports

---
 pyzwave/zipgateway.py | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 3300aae..31ea69b 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -30,6 +30,7 @@ class ZIPGateway(ZIPConnection):
         self._connections = {}
         self._connectLocks = {}
         self._nodes = {}
+        self._nodesLock = asyncio.Lock()
         self._nmSeq = 0
 
     async def addNode(self, txOptions: TxOptions) -> bool:
@@ -162,7 +163,7 @@ class ZIPGateway(ZIPConnection):
             # No response
             return set()
         self._nodeId = report.nodeListControllerId
-        self._nodes = {x: {} for x in report.nodes}
+        self._nodes = {x: self._nodes.get(x, {}) for x in report.nodes}
         return report.nodes
 
     async def getNodeInfo(
@@ -184,19 +185,29 @@ class ZIPGateway(ZIPConnection):
         self, report: NetworkManagementProxy.NodeListReport
     ):
         """Update nodes from a nodeListReport"""
-        # Find removed nodes
-        for nodeId in list(self._nodes.keys()):
-            if nodeId in report.nodes:
-                continue
-            del self._nodes[nodeId]
+        async with self._nodesLock:
+            # Find removed nodes
+            for nodeId in list(self._nodes.keys()):
+                if nodeId in report.nodes:
+                    continue
+                del self._nodes[nodeId]
+
+            # Find new nodes
+            for nodeId in report.nodes:
+                self._nodes.setdefault(nodeId, {})
+            await self.__retrieveIps__()
+        self.speak("nodeListUpdated")
 
-        # Find new nodes
-        for nodeId in report.nodes:
-            if nodeId in self._nodes:
+    async def __retrieveIps__(self):
+        """Retrieve the ip-address of the nodes we do not know it for"""
+        for nodeId, node in list(self._nodes.items()):
+            if node.get("ip"):
                 continue
-            # Retrieve ip
-            self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
-        self.speak("nodeListUpdated")
+            try:
+                node["ip"] = await self.ipOfNode(nodeId)
+            except asyncio.TimeoutError:
+                # Retried when the next node list is received
+                _LOGGER.warning("Could not retrieve the address of node %s", nodeId)
 
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
@@ -354,6 +365,6 @@ class ZIPGateway(ZIPConnection):
             )
         )
         # Retrieve node list, and get ip-addresses
-        for nodeId in await self.getNodeList():
-            if not self._nodes[nodeId].get("ip"):
-                self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+        await self.getNodeList()
+        async with self._nodesLock:
+            await self.__retrieveIps__()
-- 
2.43.0


From aaf35c837c652220f0501e7f8d8c67e9c0740a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 25/62] fix: accept a waiting response without any header
 extension

---
 pyzwave/commandclass/Zip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 49cbd1f..003a202 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -193,8 +193,6 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
     Decoder type for header extensions in Command Class message ZIP_PACKET
     """
 
-    default = {}
-
     @property
     def expectedDelay(self) -> int:
         """Returns the expected delay for sleeping nodes"""
@@ -221,6 +219,10 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         return retval
 
 
+# A packet without any header extension has an empty one
+HeaderExtension.default = HeaderExtension()
+
+
 @ZWaveMessage(COMMAND_CLASS_ZIP, COMMAND_ZIP_KEEP_ALIVE)
 class ZipKeepAlive(Message):
     """
-- 
2.43.0


From ef59d6c7d599c5fc6a29c57d97e452b189322a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 26/62] fix: drop a malformed packet without raising an
 exception

---
 pyzwave/zipconnection.py |  2 +-
 pyzwave/zipgateway.py    | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index cf60289..a432424 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -99,7 +99,7 @@ class ZIPConnection(Adapter):
             if zipPkt.ackRequest:
                 _LOGGER.error("This message needs an ack response. Not implemented")
                 return False
-            if zipPkt.zwCmdIncluded:
+            if zipPkt.zwCmdIncluded and zipPkt.command is not None:
                 self.commandReceived(zipPkt)
         elif isinstance(zipPkt, Zip.ZipKeepAlive):
             if zipPkt.ackResponse:
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 31ea69b..b6ab367 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -282,7 +282,15 @@ class ZIPGateway(ZIPConnection):
         Called when an unsolicited message is received.
         We do not know the node id the message is from. Only the ip address.
         """
-        zipPkt = Message.decode(pkt)
+        try:
+            zipPkt = Message.decode(pkt)
+        except Exception:
+            _LOGGER.error("Could not decode message. Raw message:")
+            _LOGGER.error("%s", pkt)
+            return False
+        if not isinstance(zipPkt, Zip.ZipPacket):
+            _LOGGER.warning("Received unknown Z/IP packet from %s: %s", address, zipPkt)
+            return False
         sourceIp = ipaddress.IPv6Address(address[0])
         sourceEP = zipPkt.sourceEP
 
@@ -298,6 +306,8 @@ class ZIPGateway(ZIPConnection):
                 ackReponse = zipPkt.response(success=True)
                 self._unsolicitedConnection.sendTo(ackReponse.compose(), address)
 
+            if zipPkt.command is None:
+                return False
             self.speak(
                 "messageReceived",
                 nodeId,
-- 
2.43.0


From 0a0c9778d015fb28df82fa02ee6cb21ad01cc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 27/62] fix: do not fail on an incomplete message from a node

---
 pyzwave/node.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index 37dd7d6..004c3e7 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -26,6 +26,9 @@ def supervision(func):
     async def __wrapper__(self, message: Message, flags):
         if not isinstance(message, Supervision.Get):
             return await func(self, message, flags)
+        if message.sessionID is None or message.command is None:
+            _LOGGER.warning("Incomplete supervision message from node %s", self.nodeId)
+            return False
         # Handle supervision calls
         if await func(self, message.command, flags):
             await self.send(
@@ -168,7 +171,12 @@ class Node(Listenable, MessageWaiter):
             handled = True
         cmdClass: CommandClass = self.supported.get(message.cmdClass())
         if cmdClass:
-            retval = await cmdClass.handleMessage(message, flags)
+            try:
+                retval = await cmdClass.handleMessage(message, flags)
+            except Exception as error:
+                # May be an incomplete message
+                _LOGGER.error("Could not handle message %s: %s", message, error)
+                retval = False
             if retval:
                 return retval
         if handled:
-- 
2.43.0


From 3c698dab2d4c906286ac30daad0fab6e8a31e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 28/62] fix: do not let a failing async listener stop the other
 listeners

---
 pyzwave/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 7f2d42f..e7c11fd 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -137,7 +137,15 @@ class Listenable:
         Send message to listeners and wait for the listeners to respond.
         This a shorthand for awaiting thre result from speak()
         """
-        return await asyncio.gather(*self.speak(message, *args))
+        retval = []
+        for response in await asyncio.gather(
+            *self.speak(message, *args), return_exceptions=True
+        ):
+            if isinstance(response, BaseException):
+                _LOGGER.warning("Error calling listener.%s: %s", message, response)
+                continue
+            retval.append(response)
+        return retval
 
     def speak(self, message, *args) -> list:
         """
-- 
2.43.0


From 31ea38ab3f7054f18855ed564d87a2f5313effa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 29/62] fix: deliver the mailbox entries in order, and keep
 them until delivered

---
 pyzwave/mailbox.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 68ca9af..ad44634 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -76,6 +76,7 @@ class MailboxService:
         self._adapter: Adapter = adapter
         self._adapter.addListener(self)
         self._lastQueueId = None
+        self._locks = {}
         self._queue = {}
 
     async def initialize(self, ipaddress: IPv6Address, port: int) -> bool:
@@ -87,6 +88,10 @@ class MailboxService:
         )
         return await self._adapter.send(msg)
 
+    def __lock__(self, queueHandle: int) -> asyncio.Lock:
+        """The lock making sure only one operation at the time is made on a queue"""
+        return self._locks.setdefault(queueHandle, asyncio.Lock())
+
     async def __popQueue__(self, nodeId: int, queueHandle: int):
         _LOGGER.debug("Pop queue (%d)", len(self._queue.get(queueHandle, [])))
         if not self._queue.get(queueHandle, None):
@@ -98,11 +103,11 @@ class MailboxService:
                     queueHandle=queueHandle,
                 ),
             )
-        queueItem = self._queue[queueHandle].pop()
+        queueItem = self._queue[queueHandle][0]
         ret = await self._adapter.sendToNode(
             nodeId,
             Mailbox.Queue(
-                last=len(self._queue[queueHandle]) == 0,
+                last=len(self._queue[queueHandle]) == 1,
                 operation=Mailbox.Queue.Operation.POP,
                 queueHandle=queueHandle,
                 mailboxEntry=queueItem.data,
@@ -110,6 +115,8 @@ class MailboxService:
         )
         _LOGGER.info("Sent message from queue: %s", ret)
         if ret:
+            # Delivered, otherwise keep it for the next time the node wakes up
+            self._queue[queueHandle].pop(0)
             queueItem.stop()
         return True
 
@@ -145,19 +152,22 @@ class MailboxService:
         """Handle incoming mailbox messages"""
         if isinstance(message, Mailbox.WakeupNotification):
             self._lastQueueId = message.queueHandle
-            return await self.__popQueue__(rootNodeId, message.queueHandle)
+            async with self.__lock__(message.queueHandle):
+                return await self.__popQueue__(rootNodeId, message.queueHandle)
 
         if (
             isinstance(message, Mailbox.Queue)
             and message.operation == Mailbox.Queue.Operation.ACK
         ):
             queueHandle = message.queueHandle or self._lastQueueId
-            return await self.__popQueue__(rootNodeId, queueHandle)
+            async with self.__lock__(queueHandle):
+                return await self.__popQueue__(rootNodeId, queueHandle)
 
         if (
             isinstance(message, Mailbox.Queue)
             and message.operation == Mailbox.Queue.Operation.PUSH
         ):
-            return await self.__pushQueue__(
-                rootNodeId, message.queueHandle, message.mailboxEntry
-            )
+            async with self.__lock__(message.queueHandle):
+                return await self.__pushQueue__(
+                    rootNodeId, message.queueHandle, message.mailboxEntry
+                )
-- 
2.43.0


From 0555f0ed4959eb95c67f3e7851a113ade4e3aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 30/62] fix: keep sending mailbox heartbeats when one could not
 be sent

---
 pyzwave/mailbox.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index ad44634..4e00570 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -58,15 +58,18 @@ class QueueItem:
             operation = Mailbox.Queue.Operation.WAITING
             if i % 10 == 0:
                 operation = Mailbox.Queue.Operation.PING
-            await self._adapter.sendToNode(
-                self._nodeId,
-                Mailbox.Queue(
-                    last=False,
-                    operation=operation,
-                    queueHandle=self._handle,
-                    mailboxEntry=self._data,
-                ),
-            )
+            try:
+                await self._adapter.sendToNode(
+                    self._nodeId,
+                    Mailbox.Queue(
+                        last=False,
+                        operation=operation,
+                        queueHandle=self._handle,
+                        mailboxEntry=self._data,
+                    ),
+                )
+            except asyncio.TimeoutError:
+                _LOGGER.warning("Could not send heartbeat to %s", self._nodeId)
 
 
 class MailboxService:
-- 
2.43.0


From 85b55edd8b132a040b783c084a71edad25b7980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 31/62] fix: handle one node list update at the time

---
 pyzwave/application.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index c57a4b0..6b34b3a 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+import asyncio
 import logging
 from typing import Any, Dict
 
@@ -31,6 +32,7 @@ class Application(Listenable):
         self._storage = storage
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
+        self._nodesLock = asyncio.Lock()
         self._cmdClasses = []
 
     async def loadEndPointNode(self, node: Node, endpoint: int):
@@ -97,6 +99,11 @@ class Application(Listenable):
 
     async def nodeListUpdated(self, _sender):
         """Called when the node list has been updated"""
+        async with self._nodesLock:
+            await self.__updateNodes__()
+
+    async def __updateNodes__(self):
+        """Find which nodes have been removed and added"""
         nodeList = await self.adapter.getNodeList()
         nodesToRemove = []
         for nodeId, node in self._nodes.items():
@@ -167,6 +174,11 @@ class Application(Listenable):
 
     async def startup(self):
         """Start and initialize the application and the adapter"""
+        async with self._nodesLock:
+            await self.__loadNodes__()
+
+    async def __loadNodes__(self):
+        """Load all the nodes in the network"""
         for nodeId in await self.adapter.getNodeList():
             await self.loadNode(nodeId)
 
-- 
2.43.0


From 5f859c8c7202ac738d742f7d8209b4e9e28891af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 32/62] fix: do not overwrite the stored settings of a node
 with a report received during startup

---
 pyzwave/application.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index 6b34b3a..5859f2a 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -35,6 +35,18 @@ class Application(Listenable):
         self._nodesLock = asyncio.Lock()
         self._cmdClasses = []
 
+    def __loadSettings__(self, node: Node):
+        """
+        Load the stored settings. This must be done before any message is routed to the node
+        or the first report will overwrite them
+        """
+        if not self._storage:
+            return
+        try:
+            self._storage.nodeAdded(self, node)
+        except Exception as error:
+            _LOGGER.warning("Could not load settings of node %s: %s", node.nodeId, error)
+
     async def loadEndPointNode(self, node: Node, endpoint: int):
         """Load an endpoint for a node"""
         report = await self.adapter.getMultiChannelCapability(node.rootNodeId, endpoint)
@@ -42,6 +54,7 @@ class Application(Listenable):
         nodeEP.addListener(self._storage)
         nodeEP.genericDeviceClass = report.genericDeviceClass
         nodeEP.specificDeviceClass = report.specificDeviceClass
+        self.__loadSettings__(nodeEP)
         self._nodes[nodeEP.nodeId] = nodeEP
         return nodeEP
 
@@ -61,6 +74,7 @@ class Application(Listenable):
         # node.isFailed = ?
         node.listening = nodeInfo.listening
         node.specificDeviceClass = nodeInfo.specificDeviceClass
+        self.__loadSettings__(node)
         self._nodes[node.nodeId] = node
 
         if node.supports(COMMAND_CLASS_MULTI_CHANNEL_V2):
-- 
2.43.0


From c489fb8dd38d2854dbba032d5307f5051aa11289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 33/62] fix: write the length of the command in a supervision
 message

---
 pyzwave/commandclass/Supervision.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Supervision.py b/pyzwave/commandclass/Supervision.py
index fb16621..cf5ee73 100644
--- a/pyzwave/commandclass/Supervision.py
+++ b/pyzwave/commandclass/Supervision.py
@@ -1,5 +1,5 @@
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bits_t, flag_t, reserved_t, uint8_t
+from pyzwave.types import BitStreamReader, BitStreamWriter, bits_t, flag_t, reserved_t, uint8_t
 from . import ZWaveMessage, registerCmdClass
 
 
@@ -23,6 +23,14 @@ class Get(Message):
         ("command", Message),
     )
 
+    def compose_command(
+        self, stream: BitStreamWriter
+    ):  # pylint: disable=invalid-name
+        """Write the length prefixed command"""
+        command = self.command.compose()
+        stream.addBytes(len(command), 1, False)
+        stream.extend(command)
+
     @staticmethod
     def parse_command(stream: BitStreamReader):  # pylint: disable=invalid-name
         """Parse the length prefixed command"""
-- 
2.43.0


From ceb9538dd2601ceeeb658babbb73d10047feac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 34/62] fix: ignore unknown metadata of a node in the
 provisioning list

---
 pyzwave/commandclass/NodeProvisioning.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/NodeProvisioning.py b/pyzwave/commandclass/NodeProvisioning.py
index 941f727..617ec16 100644
--- a/pyzwave/commandclass/NodeProvisioning.py
+++ b/pyzwave/commandclass/NodeProvisioning.py
@@ -37,9 +37,17 @@ class MetadataExtension(VarDictAttribute(MetadataExtensionType, bytes)):
         retval = {}
         while stream.bytesLeft():
             metadataType = stream.bits(7)
-            _critical = stream.bit()
+            critical = stream.bit()
             length = stream.byte()
-            retval[metadataType] = stream.value(length)
+            value = stream.value(length)
+            try:
+                metadataType = MetadataExtensionType(metadataType)
+            except ValueError:
+                # Unknown type, it must be ignored unless it is critical
+                if critical:
+                    raise
+                continue
+            retval[metadataType] = value
         return retval
 
 
-- 
2.43.0


From 23e03d26efabfe787a07357636be94d9c5cdbc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 35/62] fix: write the length of the DSK when adding a node to
 the provisioning list

---
 pyzwave/commandclass/NodeProvisioning.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NodeProvisioning.py b/pyzwave/commandclass/NodeProvisioning.py
index 617ec16..d2e3560 100644
--- a/pyzwave/commandclass/NodeProvisioning.py
+++ b/pyzwave/commandclass/NodeProvisioning.py
@@ -1,6 +1,14 @@
 from enum import IntEnum
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bytes_t, dsk_t, reserved_t, uint5_t, uint8_t
+from pyzwave.types import (
+    BitStreamReader,
+    BitStreamWriter,
+    bytes_t,
+    dsk_t,
+    reserved_t,
+    uint5_t,
+    uint8_t,
+)
 from . import ZWaveMessage, registerCmdClass
 from .CommandClass import VarDictAttribute
 
@@ -59,6 +67,18 @@ class Set(Message):
 
     attributes = (("seqNo", uint8_t), ("dsk", dsk_t), ("metaDataExtension", bytes_t))
 
+    def compose_dsk(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Write the length prefixed dsk"""
+        dsk = BitStreamWriter()
+        self.dsk.serialize(dsk)
+        stream.addBytes(len(dsk), 1, False)
+        stream.extend(dsk)
+
+    @staticmethod
+    def parse_dsk(stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse the length prefixed dsk"""
+        return dsk_t.deserializeN(stream, stream.byte() & 0x1F)
+
 
 @ZWaveMessage(
     COMMAND_CLASS_NODE_PROVISIONING, COMMAND_NODE_PROVISIONING_LIST_ITERATION_GET
-- 
2.43.0


From 645291969c9a01b1fbb49d81e91fe40d3f574d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 36/62] fix: skip the length of the DSK in the reports sent
 when nodes are joining

---
 pyzwave/commandclass/NetworkManagementInclusion.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyzwave/commandclass/NetworkManagementInclusion.py b/pyzwave/commandclass/NetworkManagementInclusion.py
index 05b22a9..5a55404 100644
--- a/pyzwave/commandclass/NetworkManagementInclusion.py
+++ b/pyzwave/commandclass/NetworkManagementInclusion.py
@@ -31,6 +31,7 @@ from pyzwave.types import (
     flag_t,
     reserved_t,
     uint4_t,
+    uint5_t,
     uint8_t,
 )
 from . import ZWaveMessage, registerCmdClass
@@ -112,9 +113,15 @@ class IncludedNIFReport(Message):
 
     attributes = (
         ("seqNo", uint8_t),
+        ("-", reserved_t(3)),
+        ("dskLength", uint5_t),
         ("dsk", dsk_t),
     )
 
+    def parse_dsk(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse attribute dsk"""
+        return dsk_t.deserializeN(stream, self.dskLength)
+
 
 @ZWaveMessage(COMMAND_CLASS_NETWORK_MANAGEMENT_INCLUSION, NODE_ADD)
 class NodeAdd(Message):
@@ -387,5 +394,11 @@ class SmartStartJoinStartedReport(Message):
 
     attributes = (
         ("seqNo", uint8_t),
+        ("-", reserved_t(3)),
+        ("dskLength", uint5_t),
         ("dsk", dsk_t),
     )
+
+    def parse_dsk(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Parse attribute dsk"""
+        return dsk_t.deserializeN(stream, self.dskLength)
-- 
2.43.0


From 8ec041d62b1bd6ffb8434f364d898d628098cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 37/62] fix: the local flag in a node solicitation is bit 2

---
 pyzwave/commandclass/ZipND.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/ZipND.py b/pyzwave/commandclass/ZipND.py
index f121a96..a6eb8c6 100644
--- a/pyzwave/commandclass/ZipND.py
+++ b/pyzwave/commandclass/ZipND.py
@@ -25,9 +25,9 @@ class ZipInvNodeSolicitation(Message):
 
     NAME = "ZIP_INV_NODE_SOLICITATION"
     attributes = (
-        ("-", reserved_t(4)),
+        ("-", reserved_t(5)),
         ("local", flag_t),
-        ("-", reserved_t(3)),
+        ("-", reserved_t(2)),
         ("nodeId", uint8_t),
     )
 
-- 
2.43.0


From 1888dc5ec6de18667b1a3d04878f2434341f43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 38/62] fix: decode configuration set

---
 pyzwave/commandclass/Configuration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index a0ea4b4..162ba5d 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -107,6 +107,10 @@ class Set(Message):
         """Write the value to the bitstream. The value is variable size"""
         stream.addBytes(self.value, self.size, False)
 
+    def parse_value(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Decode the variable size value"""
+        return int.from_bytes(stream.value(self.size), "big", signed=False)
+
 
 class ConfigurationValue(DictAttribute):
     """Helper class for holding one configuration value"""
-- 
2.43.0


From c2ce68a22b0436b75cae19776f7ecf57ae5488d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 39/62] fix: refuse a truncated association group info report

---
 pyzwave/commandclass/AssociationGrpInfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 70b4912..e5978f6 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -145,6 +145,8 @@ class GroupInfoReport(Message):
         """Parse groups"""
         retval = []
         for _ in range(int(self.groupCount)):
+            # The report is truncated if not the complete group is there
+            stream.peekValue(7)
             grp = GroupInfoGroupType()
             grp.parseAttributes(stream)
             retval.append(grp)
-- 
2.43.0


From 748efddc6bbecf7bd5d571302be8f2c01cd6b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 40/62] fix: drop a packet that ends before its header does

---
 pyzwave/zipconnection.py | 3 +++
 pyzwave/zipgateway.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index a432424..359051f 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -83,6 +83,9 @@ class ZIPConnection(Adapter):
             _LOGGER.error("%s", pkt)
             return False
         if isinstance(zipPkt, Zip.ZipPacket):
+            if zipPkt.destEP is None:
+                _LOGGER.error("Truncated packet: %s", pkt)
+                return False
             if zipPkt.ackResponse:
                 self.ackReceived(zipPkt)
                 return True
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index b6ab367..a8c383b 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -291,6 +291,9 @@ class ZIPGateway(ZIPConnection):
         if not isinstance(zipPkt, Zip.ZipPacket):
             _LOGGER.warning("Received unknown Z/IP packet from %s: %s", address, zipPkt)
             return False
+        if zipPkt.destEP is None:
+            _LOGGER.error("Truncated packet from %s: %s", address, pkt)
+            return False
         sourceIp = ipaddress.IPv6Address(address[0])
         sourceEP = zipPkt.sourceEP
 
-- 
2.43.0


From df6b31c64267e4dd77830dfbfe90647d024c1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 41/62] fix: incomplete reports from the gateway are not taken
 for complete ones

---
 pyzwave/zipgateway.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index a8c383b..98591d1 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -117,7 +117,7 @@ class ZIPGateway(ZIPConnection):
             )
         except asyncio.TimeoutError:
             return set()
-        return report.failedNodeList
+        return report.failedNodeList or set()
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
@@ -131,7 +131,8 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return 0
-        return report.individualEndPoints + report.aggregatedEndPoints
+        # Neither is set if the report is incomplete
+        return (report.individualEndPoints or 0) + (report.aggregatedEndPoints or 0)
 
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
@@ -162,6 +163,9 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return set()
+        if report.nodes is None:
+            # Incomplete response
+            return set()
         self._nodeId = report.nodeListControllerId
         self._nodes = {x: self._nodes.get(x, {}) for x in report.nodes}
         return report.nodes
@@ -214,7 +218,8 @@ class ZIPGateway(ZIPConnection):
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
         # A late advertisement for another node must not be mistaken for this one
         session = self.addWaitingSession(
-            ZipND.ZipNodeAdvertisement, lambda reply: reply.nodeId == nodeId
+            ZipND.ZipNodeAdvertisement,
+            lambda reply: reply.nodeId == nodeId and reply.ipv6 is not None,
         )
         self._conn.send(msg.compose())
         response = await self.waitForMessage(
@@ -298,6 +303,8 @@ class ZIPGateway(ZIPConnection):
         sourceEP = zipPkt.sourceEP
 
         if isinstance(zipPkt.command, NetworkManagementProxy.NodeListReport):
+            if zipPkt.command.nodes is None:
+                return False
             return asyncio.ensure_future(self.__handleNodeListReport__(zipPkt.command))
 
         # Find the node this was from
-- 
2.43.0


From 198d3723368e056c37bb2652496dc4d4fa04dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 42/62] fix: refuse a header extension shorter than its own
 length field

---
 pyzwave/commandclass/Zip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 003a202..2dc38a8 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -205,7 +205,10 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize header extension from stream"""
         retval = {}
+        # The length includes the length field itself
         extLength = stream.byte() - 1
+        if extLength < 0:
+            raise ValueError("Invalid header extension length")
         reader = BitStreamReader(stream.value(extLength))
         while reader.bytesLeft() > 0:
             option = ZIPPacketOption()
-- 
2.43.0


From 9133b4c5e4f0b4bdbcf972d85438bd9181be3524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 43/62] fix: report a network management command that was not
 acknowledged as failed

---
 pyzwave/zipgateway.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 98591d1..f40fdd1 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -42,7 +42,8 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -55,7 +56,8 @@ class ZIPGateway(ZIPConnection):
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -71,7 +73,8 @@ class ZIPGateway(ZIPConnection):
             grantedKeys=grantedKeys,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -84,7 +87,8 @@ class ZIPGateway(ZIPConnection):
             txOptions=TxOptions.NULL,
         )
         try:
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -251,7 +255,8 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -263,7 +268,8 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            if await self.send(cmd) is False:
+                return False
         except asyncio.TimeoutError:
             return False
         return True
@@ -363,7 +369,8 @@ class ZIPGateway(ZIPConnection):
                 timeout=timeout,
             )
             if report.mode != mode:
-                await self.send(ZipGateway.GatewayModeSet(mode=mode))
+                if await self.send(ZipGateway.GatewayModeSet(mode=mode)) is False:
+                    return False
         except asyncio.TimeoutError:
             _LOGGER.error("Got timeout waiting for gateway mode report")
             return False
-- 
2.43.0


From ec6ac78f6d64146a0bac671050cfd6ac0d079616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 44/62] fix: do not use the address of an advertisement telling
 that the node was not found

---
 pyzwave/zipgateway.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index f40fdd1..68d1312 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -223,7 +223,9 @@ class ZIPGateway(ZIPConnection):
         # A late advertisement for another node must not be mistaken for this one
         session = self.addWaitingSession(
             ZipND.ZipNodeAdvertisement,
-            lambda reply: reply.nodeId == nodeId and reply.ipv6 is not None,
+            lambda reply: reply.nodeId == nodeId
+            and reply.validity == 0
+            and reply.ipv6 is not None,
         )
         self._conn.send(msg.compose())
         response = await self.waitForMessage(
-- 
2.43.0


From d5ba3e5f57960e32cedd7e7d50a36944c0a52788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 45/62] fix: forget the sensor types a node does not report as
 supported any more

---
 pyzwave/commandclass/SensorMultilevel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 3095a10..a8f8992 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -190,3 +190,7 @@ class SensorMultilevel(CommandClass):
                 match=lambda report, sensor=sensor: report.sensorType == sensor,
             )
             self.supportedTypes[int(sensor)] = scaleReport.scaleBitMask
+        for sensor in list(self.supportedTypes):
+            if sensor not in report.bitMask:
+                # Not supported any more since the last interview
+                del self.supportedTypes[sensor]
-- 
2.43.0


From c440c7145ddac9925392989ef3e36b4783c6e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 46/62] fix: forget the association groups a node does not
 report any more

---
 pyzwave/commandclass/Association.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 2c9b5ce..2e65f29 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -107,6 +107,9 @@ class Groupings(dict):
 
     def setNumGroups(self, number: int):
         """Set the number of groups this node has"""
+        for i in list(self):
+            if i > number:
+                del self[i]
         for i in range(1, number + 1):
             if i not in self:
                 group = Group()
-- 
2.43.0


From a01090178a555e780d2b770d1edf3e9abe8ad911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 47/62] fix: do not let any failure of a listener keep the
 others from being called

---
 pyzwave/util.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index e7c11fd..29210a4 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -155,18 +155,18 @@ class Listenable:
         """
         retval = []
         for listener in self._listeners:
-            method = getattr(listener, message, None)
-            if not method:
-                continue
-            if inspect.iscoroutinefunction(method):
-                # Listener is a coroutine, call async
-                retval.append(asyncio.ensure_future(method(self, *args)))
-                continue
             try:
+                method = getattr(listener, message, None)
+                if not method:
+                    continue
+                if inspect.iscoroutinefunction(method):
+                    # Listener is a coroutine, call async
+                    retval.append(asyncio.ensure_future(method(self, *args)))
+                    continue
                 future = asyncio.get_event_loop().create_future()
                 future.set_result(method(self, *args))
                 retval.append(future)
-            except Exception as error:
+            except (Exception, asyncio.CancelledError) as error:
                 _LOGGER.warning("Error calling listener.%s: %s", message, error)
         return retval
 
-- 
2.43.0


From 4ef40f983da53da618abf7899fc0b7047a518283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 48/62] fix: keep sending mailbox heartbeats when one of them
 fails

An OSError, as when the network is unreachable, ended the heartbeats of the
queued message for good, only a timeout did not.
---
 pyzwave/mailbox.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 4e00570..2f06ab2 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -68,8 +68,11 @@ class QueueItem:
                         mailboxEntry=self._data,
                     ),
                 )
-            except asyncio.TimeoutError:
-                _LOGGER.warning("Could not send heartbeat to %s", self._nodeId)
+            except Exception as error:
+                # Whatever went wrong this time, the message is still queued
+                _LOGGER.warning(
+                    "Could not send heartbeat to %s: %r", self._nodeId, error
+                )
 
 
 class MailboxService:
-- 
2.43.0


From d5aaf8c109c4806a52afa99caff0625d6371909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 49/62] fix: Signal the storage also when an interview could
 not be completed

---
 pyzwave/commandclass/CommandClass.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 73f0273..60c2911 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -78,12 +78,14 @@ def interviewDecorator(interview):
         try:
             commandClass._interviewed = False  # pylint: disable=protected-access
             retval = await interview()
+            if retval is not False:
+                commandClass._interviewed = True  # pylint: disable=protected-access
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout interviewing command class %s", commandClass.name)
             return False
-        if retval is not False:
-            commandClass._interviewed = True  # pylint: disable=protected-access
-        commandClass.speak("commandClassUpdated")
+        finally:
+            # Even if not completed, the settings may have been partly updated
+            commandClass.speak("commandClassUpdated")
         return retval
 
     return wrapper
-- 
2.43.0


From 6bbd0db522ff31d0ded9db3fb369b36c17f5872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 50/62] fix: learn the id of the controller also from
 unsolicited node lists

---
 pyzwave/zipgateway.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 68d1312..0d465e9 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -194,6 +194,7 @@ class ZIPGateway(ZIPConnection):
     ):
         """Update nodes from a nodeListReport"""
         async with self._nodesLock:
+            self._nodeId = report.nodeListControllerId
             # Find removed nodes
             for nodeId in list(self._nodes.keys()):
                 if nodeId in report.nodes:
-- 
2.43.0


From c78aaac7eff95c8c4a15c2ba3996ee733217b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 51/62] fix: set up the lifeline with the actual id of the
 controller

---
 pyzwave/commandclass/Association.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 2e65f29..af2215c 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -174,7 +174,8 @@ class Association(CommandClass):
             # Non Z-Wave Plus does not have a fixed defined lifeline.
             # Setup the lifeline like association groups in quirks instead.
             return
-        controllerId = 1  # TODO: Get this dynamically
+        # The id is not known until the first node list has been read
+        controllerId = getattr(self.node.adapter, "nodeId", None) or 1
         grouping = self.groupings.get(groupingIdentifier)
         if not grouping:
             # No associations set. Bail.
-- 
2.43.0


From bafbc818ba2f0ff756d2010983481dac2c16e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 52/62] fix: do not take an incomplete configuration report for
 the value 0

---
 pyzwave/commandclass/Configuration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 162ba5d..41c4f25 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -128,6 +128,9 @@ class Configuration(CommandClass):
 
     @ZWaveMessageHandler(Report)
     async def __report__(self, report: Report, _flags):
+        if report.value is None:
+            # Incomplete, nothing is known about the value
+            return False
         number = int(report.parameterNumber)
         parameter = self.parameters.setdefault(number, ConfigurationValue())
         parameter.value = report.value
@@ -142,7 +145,8 @@ class Configuration(CommandClass):
         report: Report = await self.sendAndReceive(
             Get(parameterNumber=number),
             Report,
-            match=lambda report: report.parameterNumber == number,
+            match=lambda report: report.parameterNumber == number
+            and report.value is not None,
         )
         return report.value
 
-- 
2.43.0


From f326f53ab5a2b373b9423ab0a6786babf89bafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 53/62] fix: do not take an incomplete group name report for
 the name None

---
 pyzwave/commandclass/AssociationGrpInfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index e5978f6..f21a809 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -206,6 +206,9 @@ class AssociationGrpInfo(CommandClass):
     async def __groupNameReport__(self, report: GroupNameReport, _flags):
         if report.groupingIdentifier not in self.groupings:
             return True
+        if report.name is None:
+            # Incomplete
+            return False
         self.groupings[report.groupingIdentifier].name = report.name
         self.speak("commandClassUpdated")
         return True
-- 
2.43.0


From cb7412090e1c911d772d089a4f2cccd5db5d8202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 54/62] fix: do not let an incomplete report abort the
 interview of the other command classes

---
 pyzwave/commandclass/Association.py  | 5 ++++-
 pyzwave/commandclass/CommandClass.py | 3 ++-
 pyzwave/node.py                      | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index af2215c..707bc5c 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -150,7 +150,10 @@ class Association(CommandClass):
         group = self.groupings[groupingIdentifier]
 
         def match(report):
-            return report.groupingIdentifier == groupingIdentifier
+            return (
+                report.groupingIdentifier == groupingIdentifier
+                and report.maxNodesSupported is not None
+            )
 
         if self.node.supports(COMMAND_CLASS_MULTI_CHANNEL_ASSOCIATION_V2):
             report = await self.sendAndReceive(
diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 60c2911..2bdbfdb 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -164,7 +164,8 @@ class CommandClass(AttributesMixin, Listenable):
             answer = await self._node.sendAndReceive(
                 Version.VersionCommandClassGet(requestedCommandClass=self.id),
                 Version.VersionCommandClassReport,
-                match=lambda report: report.requestedCommandClass == self.id,
+                match=lambda report: report.requestedCommandClass == self.id
+                and report.commandClassVersion is not None,
             )
             self._version = int(answer.commandClassVersion)
         except asyncio.TimeoutError:
diff --git a/pyzwave/node.py b/pyzwave/node.py
index 004c3e7..d75a24d 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -199,6 +199,9 @@ class Node(Listenable, MessageWaiter):
                 await cmdClass.interview()
             except asyncio.TimeoutError:
                 _LOGGER.warning("Timeout interviewing %s", cmdClass.name)
+            except Exception as error:
+                # May be an incomplete report
+                _LOGGER.warning("Could not interview %s: %s", cmdClass.name, error)
 
     @property
     def isFailed(self) -> bool:
-- 
2.43.0


From c90bf20d4a187e5f907e0c860ef098cd444074b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 55/62] fix: ignore mailbox messages that end before the queue
 handle

---
 pyzwave/mailbox.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 2f06ab2..528a008 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -156,6 +156,13 @@ class MailboxService:
         _flags: Zip.HeaderExtension,
     ):
         """Handle incoming mailbox messages"""
+        if (
+            isinstance(message, (Mailbox.WakeupNotification, Mailbox.Queue))
+            and message.queueHandle is None
+        ):
+            _LOGGER.warning("Incomplete mailbox message from node %s", rootNodeId)
+            return False
+
         if isinstance(message, Mailbox.WakeupNotification):
             self._lastQueueId = message.queueHandle
             async with self.__lock__(message.queueHandle):
-- 
2.43.0


From d670eb150c27274344a0c65a04f209ca9151e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 56/62] fix: nodes of a list received before the startup were
 loaded and announced twice

---
 pyzwave/application.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index 5859f2a..f8b4b1a 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -33,6 +33,8 @@ class Application(Listenable):
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
         self._nodesLock = asyncio.Lock()
+        # Set when an update of the node list has been handled
+        self._updated = False
         self._cmdClasses = []
 
     def __loadSettings__(self, node: Node):
@@ -118,6 +120,7 @@ class Application(Listenable):
 
     async def __updateNodes__(self):
         """Find which nodes have been removed and added"""
+        self._updated = True
         nodeList = await self.adapter.getNodeList()
         nodesToRemove = []
         for nodeId, node in self._nodes.items():
@@ -193,12 +196,16 @@ class Application(Listenable):
 
     async def __loadNodes__(self):
         """Load all the nodes in the network"""
+        newNodes = []
         for nodeId in await self.adapter.getNodeList():
-            await self.loadNode(nodeId)
+            if self._updated and "{}:0".format(nodeId) in self._nodes:
+                # Already loaded and announced by an update of the node list
+                continue
+            newNodes.extend(await self.loadNode(nodeId))
 
         for nodeId in await self.adapter.getFailedNodeList():
             _LOGGER.warning("FAILED node %s", nodeId)
 
-        await self.ask("nodesAdded", list(self._nodes.values()))
-        for _, node in self._nodes.items():
+        await self.ask("nodesAdded", newNodes)
+        for node in newNodes:
             await self.ask("nodeAdded", node)
-- 
2.43.0


From 3b31df4bf0153e91e039e7571cb795ff1196d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:41 +0000
Subject: [PATCH 57/62] fix: node lists asking for an acknowledgement were not
 acknowledged

---
 pyzwave/zipgateway.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 0d465e9..ad07ae6 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -312,6 +312,12 @@ class ZIPGateway(ZIPConnection):
         sourceEP = zipPkt.sourceEP
 
         if isinstance(zipPkt.command, NetworkManagementProxy.NodeListReport):
+            if zipPkt.ackRequest and any(
+                node.get("ip") == sourceIp for node in self._nodes.values()
+            ):
+                # This message needs an ack response.
+                ackReponse = zipPkt.response(success=True)
+                self._unsolicitedConnection.sendTo(ackReponse.compose(), address)
             if zipPkt.command.nodes is None:
                 return False
             return asyncio.ensure_future(self.__handleNodeListReport__(zipPkt.command))
-- 
2.43.0


From a35fd7cf56b76f310179e97f0a0f888367daafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 58/62] fix: messages to a node included again went to its old
 address

---
 pyzwave/zipconnection.py | 11 +++++++++++
 pyzwave/zipgateway.py    |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 359051f..9d46927 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -117,6 +117,11 @@ class ZIPConnection(Adapter):
             return False
         return True
 
+    @property
+    def address(self) -> str:
+        """The address this connection is for"""
+        return self._address
+
     @property
     def psk(self) -> bytes:
         """The psk used for the connection"""
@@ -173,3 +178,9 @@ class ZIPConnection(Adapter):
 
     async def setNodeInfo(self, generic, specific, cmdClasses):
         raise NotImplementedError()
+
+    def stop(self):
+        """Close the connection"""
+        if self._keepAlive:
+            self._keepAlive.cancel()
+        self._conn.stop()
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index ad07ae6..f62f8b6 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -217,6 +217,12 @@ class ZIPGateway(ZIPConnection):
             except asyncio.TimeoutError:
                 # Retried when the next node list is received
                 _LOGGER.warning("Could not retrieve the address of node %s", nodeId)
+                continue
+            connection = self._connections.get(nodeId)
+            if connection and connection.address not in (None, node["ip"].compressed):
+                # The node was included again and has another address now
+                del self._connections[nodeId]
+                connection.stop()
 
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
-- 
2.43.0


From f05f896b4d3e4dc0658ef90f3d1bcf26a57db93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:25 +0000
Subject: [PATCH 59/62] fix: only the first of several association reports of a
 group was used

---
 pyzwave/commandclass/Association.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 707bc5c..ae6f79e 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -148,12 +148,17 @@ class Association(CommandClass):
     async def interviewGrouping(self, groupingIdentifier):
         """Interview an association group"""
         group = self.groupings[groupingIdentifier]
+        # A long list of nodes is split into several reports
+        reports = {}
 
         def match(report):
-            return (
-                report.groupingIdentifier == groupingIdentifier
-                and report.maxNodesSupported is not None
-            )
+            if (
+                report.groupingIdentifier != groupingIdentifier
+                or report.maxNodesSupported is None
+            ):
+                return False
+            reports[report.reportsToFollow or 0] = report
+            return len(reports) > max(reports)
 
         if self.node.supports(COMMAND_CLASS_MULTI_CHANNEL_ASSOCIATION_V2):
             report = await self.sendAndReceive(
@@ -168,8 +173,11 @@ class Association(CommandClass):
         if report.groupingIdentifier != groupingIdentifier:
             # Got the wrong message. Should hopyfully not happen...
             return
+        reports[report.reportsToFollow or 0] = report
         group.maxNodes = report.maxNodesSupported
-        group.nodes = report.nodes
+        group.nodes = [
+            node for i in sorted(reports, reverse=True) for node in reports[i].nodes
+        ]
 
     async def setupLifeLine(self, groupingIdentifier=1):
         """Setup the lifeline association group"""
-- 
2.43.0


From 7fd5be318198c24ca2c578763a63a07f52a43920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:26 +0000
Subject: [PATCH 60/62] fix: commands asking for an acknowledgement on a
 connection were dropped

---
 pyzwave/zipconnection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 9d46927..baf600c 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -100,8 +100,11 @@ class ZIPConnection(Adapter):
                 # self.nackReceived(zipPkt.seqNo)
                 return False
             if zipPkt.ackRequest:
-                _LOGGER.error("This message needs an ack response. Not implemented")
-                return False
+                # This message needs an ack response.
+                ackResponse = zipPkt.response(success=True)
+                self._conn.send(ackResponse.compose())
+                if zipPkt.command is None:
+                    return False
             if zipPkt.zwCmdIncluded and zipPkt.command is not None:
                 self.commandReceived(zipPkt)
         elif isinstance(zipPkt, Zip.ZipKeepAlive):
-- 
2.43.0


From 94e18a2892c8fec35e793f6837faa66bc8761a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 61/62] fix: bit values and flags of two messages never
 compared equal

---
 pyzwave/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index df3d698..475db49 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -217,7 +217,7 @@ class BitsBase:
         self._value = int(value)
 
     def __eq__(self, other):
-        return self._value.__eq__(other)
+        return self._value == other
 
     def __int__(self):
         return self._value
-- 
2.43.0


From 4b2125525c192f1e89520179cc6ba9cb674355b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:11 +0000
Subject: [PATCH 62/62] fix: groups of a DSK that are not a word were silently
 taken for another key

---
 pyzwave/types.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 475db49..b05b158 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -368,8 +368,7 @@ class dsk_t:  # pylint: disable=invalid-name
         dsk = bytearray(16)
         for i, value in enumerate(fields):
             word = int(value, base=10)
-            dsk[i * 2] = (word >> 8) & 0xFF
-            dsk[i * 2 + 1] = word & 0xFF
+            dsk[i * 2 : i * 2 + 2] = word.to_bytes(2, "big")
         self._dsk = bytes(dsk)
 
     def serialize(self, stream: BitStreamWriter):
-- 
2.43.0

