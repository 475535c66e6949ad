From f593b036dcf9d7b5da1378f09243e6441970a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 01/44] fix: UDPMessageSerializer uses the message template
 file it is given

The file handle was passed as the list of parsed templates.
---
 pyogp/lib/base/message/udpserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 452bdfe..d76b395 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -40,7 +40,7 @@ class UDPMessageSerializer(object):
         """initialize the adapter"""
         self.context = None	# the UDPMessage
 
-        self.template_dict = TemplateDictionary(message_template)
+        self.template_dict = TemplateDictionary(message_template = message_template)
         self.current_template = None
         self.packer = DataPacker()
 
-- 
2.43.0


From db9e884066fc748b90203ce26421d401b9b8d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 02/44] fix: template parser raises its documented errors
 instead of a NameError

---
 pyogp/lib/base/message/template_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 4dd402a..3f7c5dd 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -27,6 +27,7 @@ import template
 from data import msg_tmpl
 from msgtypes import MsgFrequency, MsgTrust, MsgEncoding
 from msgtypes import MsgDeprecation, MsgBlockType, MsgType, sizeof
+from pyogp.lib.base import exc
 
 MESSAGE = 1
 BLOCK = 2
-- 
2.43.0


From 6a3c5c6a34bf3efbca0d821ab285c493ef390638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 03/44] fix: template parser ignores trailing comments

The words of a comment after a brace were read as a further message, block or
variable.
---
 pyogp/lib/base/message/template_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 3f7c5dd..8112f01 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -79,6 +79,9 @@ class MessageTemplateParser(object):
             if re.match(comment_re, line):
                 continue
 
+            # a trailing comment is no part of the template either
+            line = line.split('//')[0]
+
             start = re.match(start_re, line)
             end = re.match(end_re, line)
 
-- 
2.43.0


From d851aa64a57fd0256c961f074a060f330c685873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 04/44] fix: pack the packet id as the unsigned number it is

---
 pyogp/lib/base/message/udpserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index d76b395..d95d059 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -76,7 +76,7 @@ class UDPMessageSerializer(object):
 
         #set packet ID
         msg_buffer += self.packer.pack_data(self.context.packet_id, \
-                                                  MsgType.MVT_S32, \
+                                                  MsgType.MVT_U32, \
                                                   endian_type=EndianType.BIG)
 
         #pack in the offset to the data. NOTE: for 1 byte, endian doesn't matter
-- 
2.43.0


From 1c013301db748c34e8a43de2e9bd137b5d8e42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 05/44] fix: serializing an unknown message gives None instead
 of an AttributeError

---
 pyogp/lib/base/message/udpserializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index d95d059..69ac766 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -62,6 +62,9 @@ class UDPMessageSerializer(object):
 
         self.set_current_template()
 
+        if self.current_template == None:
+            return None
+
         # validate whether we are allowed to receive this message over udp
         if not self.message_xml.validate_udp_msg(self.current_template.name):
             logger.warning("Sending '%s' over UDP, which is deprecated. Discarding." % (self.current_template.name))
@@ -82,9 +85,6 @@ class UDPMessageSerializer(object):
         #pack in the offset to the data. NOTE: for 1 byte, endian doesn't matter
         msg_buffer += self.packer.pack_data(0, MsgType.MVT_U8)
 
-        if self.current_template == None:
-            return None
-
         #don't need to pack the frequency and message number. The template
         #stores it because it doesn't change per template.
         pack_freq_num = self.current_template.msg_num_hex
-- 
2.43.0


From 5ff68315ec218995d84fe756372d305ff2323a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 06/44] fix: write the acks a packet's flags announce, in
 network byte order

The ack flag was set on packets with pending acks but the acks themselves were
never written, so that the receiver took the end of the body for them. The ids
are sequence numbers, in the byte order of the one in the header. The zero-coding
flag is not sent either as nothing is zero-coded.
---
 pyogp/lib/base/message/udpdeserializer.py |  3 ++-
 pyogp/lib/base/message/udpserializer.py   | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 5ad6c4f..e06c530 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -240,7 +240,8 @@ class UDPMessageDeserializer(object):
             ack_pos = 0
             while acks > 0:
                 ack_packet_id = self.unpacker.unpack_data(ack_data, MsgType.MVT_U32, \
-                                                          start_index=ack_pos)
+                                                          start_index=ack_pos, \
+                                                          endian_type=EndianType.BIG)
                 ack_pos += sizeof(MsgType.MVT_U32)
                 packet.add_ack(ack_packet_id)
                 acks -= 1
diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 69ac766..d768e7f 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -21,7 +21,7 @@ import struct
 from logging import getLogger
 
 # pygop
-from msgtypes import MsgType, MsgBlockType, EndianType
+from msgtypes import MsgType, MsgBlockType, EndianType, PackFlags
 from data_packer import DataPacker
 from template_dict import TemplateDictionary
 from pyogp.lib.base import exc
@@ -75,7 +75,9 @@ class UDPMessageSerializer(object):
         bytes = 0
 
         #put the flags in the begining of the data. NOTE: for 1 byte, endian doesn't matter
-        msg_buffer += self.packer.pack_data(self.context.send_flags, MsgType.MVT_U8)
+        #the body isn't zero-coded here, so the flags may not say that it is
+        send_flags = self.context.send_flags & ~PackFlags.LL_ZERO_CODE_FLAG
+        msg_buffer += self.packer.pack_data(send_flags, MsgType.MVT_U8)
 
         #set packet ID
         msg_buffer += self.packer.pack_data(self.context.packet_id, \
@@ -102,6 +104,15 @@ class UDPMessageSerializer(object):
             # testing a hack to let RegionHandshakeReply get parsed
             msg_buffer += struct.pack(">I", 0)
 
+        #the acks go last, followed by their number
+        if send_flags & PackFlags.LL_ACK_FLAG:
+            if len(self.context.acks) > 255:
+                raise exc.MessageSerializationError(self.context.name, "too many acks")
+            for packet_id in self.context.acks:
+                msg_buffer += self.packer.pack_data(packet_id, MsgType.MVT_U32, \
+                                                    endian_type=EndianType.BIG)
+            msg_buffer += self.packer.pack_data(len(self.context.acks), MsgType.MVT_U8)
+
         self.message_buffer = msg_buffer
 
         return msg_buffer
-- 
2.43.0


From 692c57df9611ea6d4981ccbbe8e240b6f2dbc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 07/44] fix: append only pending acks to a packet, at most the
 255 that fit

A packet sent twice carried the acks of its first time again.
---
 pyogp/lib/base/message/circuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 8d336f0..23a24f3 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -70,6 +70,10 @@ class Circuit(object):
         packet.send_flags = flag
         packet.retries = retries
 
+        #the packet may have been sent before
+        packet.acks = []
+        packet.num_acks = 0
+
         packet.packet_id = self.next_packet_id()
 
         #if we have acks that we can add on, add them
@@ -79,7 +83,7 @@ class Circuit(object):
 
             #also, sends as many acks as we can onto the end of the packet
             #acks are just the packet_id that we are acking
-            for packet_id in self.acks:
+            for packet_id in self.acks[:255]:
                 packet.add_ack(packet_id)
 
         if flag == PackFlags.LL_RELIABLE_FLAG:
-- 
2.43.0


From 9db26f6b647d4f840c6ede49960ffdb1b31ab853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 08/44] fix: do not append a null to fixed size data and IP
 addresses

---
 pyogp/lib/base/message/data_packer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/data_packer.py b/pyogp/lib/base/message/data_packer.py
index 6897298..990bedb 100644
--- a/pyogp/lib/base/message/data_packer.py
+++ b/pyogp/lib/base/message/data_packer.py
@@ -29,13 +29,13 @@ from pyogp.lib.base.helpers import Helpers
 class DataPacker(object):
     def __init__(self):
         self.packer = {}
-        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_string)  #:DE 23oct2008 added handler for MVT_FIXED
+        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_fixed)  #:DE 23oct2008 added handler for MVT_FIXED
         self.packer[MsgType.MVT_VARIABLE]       = ('>',self.__pack_string)
         self.packer[MsgType.MVT_S8]             = ('>','b')
         self.packer[MsgType.MVT_U8]             = ('>','B')
         self.packer[MsgType.MVT_BOOL]           = ('>','B')
         self.packer[MsgType.MVT_LLUUID]         = ('>',self.__pack_uuid)
-        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_string)
+        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_fixed)
         self.packer[MsgType.MVT_IP_PORT]        = ('>','H')
         self.packer[MsgType.MVT_U16]            = ('<','H')
         self.packer[MsgType.MVT_U32]            = ('<','I')
@@ -93,6 +93,13 @@ class DataPacker(object):
         else:
             return uuid.bytes
 
+    def __pack_fixed(self, endian, data):
+        """Return the bytes as they are, data of a fixed size isn't terminated."""
+        if isinstance(data, unicode):
+            return data.encode('utf-8')
+        else:
+            return data + ''
+
     def __pack_string(self, endian, pack_string):
         """Return the string UTF-8 encoded and null terminated."""
         if pack_string == None:
-- 
2.43.0


From e247a0ff3f7a7184dff1359145d5c43b75811435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 09/44] fix: do not append a null to binary variable data

The deserializer leaves variables named Data as they are, so each came back one
byte longer than it was sent.
---
 pyogp/lib/base/message/udpserializer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index d768e7f..eb0c51b 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -150,7 +150,13 @@ class UDPMessageSerializer(object):
                 var_size  = v.size
                 var_data  = variable.data
 
-                data = self.packer.pack_data(var_data, v.type)
+                #some data of type variable is binary (the deserializer does the same)
+                if v.type == MsgType.MVT_VARIABLE and v.name == 'Data':
+                    if var_data == None:
+                        var_data = ''
+                    data = self.packer.pack_data(var_data, MsgType.MVT_FIXED)
+                else:
+                    data = self.packer.pack_data(var_data, v.type)
 
                 if variable == None:
                     raise exc.MessageSerializationError(variable.name, "variable value is not set")
-- 
2.43.0


From c274ecff78e59be1da1b6e7a33bcfd5a204caa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 10/44] fix: refuse to serialize messages that do not fit their
 template

Missing blocks and variables and values of the wrong type raised anything but
the documented error, a variable block without instances could not be sent, and
surplus single blocks, over 255 instances and data of the wrong size gave a
packet its receiver misreads.
---
 pyogp/lib/base/message/udpserializer.py | 35 ++++++++++++++++++-------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index eb0c51b..3eb0d84 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -124,7 +124,7 @@ class UDPMessageSerializer(object):
         #the MsgData blocks is a list of lists
         #each block in the list is a block_list because you can have more than
         #one block for any given name
-        block_list = message_data.get_block(template_block.name)
+        block_list = message_data.blocks.get(template_block.name, [])
         block_count = len(block_list)
 
         #multiple block type means there is a static number of these blocks
@@ -135,10 +135,15 @@ class UDPMessageSerializer(object):
             if template_block.number != block_count:
                 raise exc.MessageSerializationError(template_block.name, "block data mismatch")
 
+        if template_block.block_type == MsgBlockType.MBT_SINGLE and block_count != 1:
+            raise exc.MessageSerializationError(template_block.name, "block data mismatch")
+
         #variable means the block variables can repeat, so we have to
         #mark how many blocks there are of this type that repeat, stored in
         #the data
         if template_block.block_type == MsgBlockType.MBT_VARIABLE:
+            if block_count > 255:
+                raise exc.MessageSerializationError(template_block.name, "too many blocks")
             block_buffer += struct.pack('>B', block_count)
             bytes += 1            
 
@@ -146,21 +151,31 @@ class UDPMessageSerializer(object):
 
             for v in template_block.get_variables(): #message_block.get_variables():
                 #this mapping has to occur to make sure the data is written in correct order
+                if v.name not in block.vars:
+                    raise exc.MessageSerializationError(v.name, "variable value is not set")
+
                 variable = block.get_variable(v.name)
                 var_size  = v.size
                 var_data  = variable.data
 
                 #some data of type variable is binary (the deserializer does the same)
-                if v.type == MsgType.MVT_VARIABLE and v.name == 'Data':
-                    if var_data == None:
-                        var_data = ''
-                    data = self.packer.pack_data(var_data, MsgType.MVT_FIXED)
-                else:
-                    data = self.packer.pack_data(var_data, v.type)
-
-                if variable == None:
-                    raise exc.MessageSerializationError(variable.name, "variable value is not set")
+                try:
+                    if v.type == MsgType.MVT_VARIABLE and v.name == 'Data':
+                        if var_data == None:
+                            var_data = ''
+                        data = self.packer.pack_data(var_data, MsgType.MVT_FIXED)
+                    else:
+                        data = self.packer.pack_data(var_data, v.type)
+                except Exception, error:
+                    raise exc.MessageSerializationError(v.name, error)
 
+                #the data has to have the size the receiver will read
+                if v.type == MsgType.MVT_VARIABLE:
+                    fits = len(data) < 1 << (8 * var_size)
+                else:
+                    fits = len(data) == var_size
+                if not fits:
+                    raise exc.MessageSerializationError(v.name, "data of %s bytes does not fit" % (len(data)))
 
                 #if its a VARIABLE type, we have to write in the size of the data
                 if v.type == MsgType.MVT_VARIABLE:
-- 
2.43.0


From c67c83f245735457ea797a373f9a9cda79e407ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 11/44] fix: read the message number of a packet after its
 extra header

The offset was honoured for the body only.
---
 pyogp/lib/base/message/udpdeserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index e06c530..f4f8dbc 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -153,7 +153,9 @@ class UDPMessageDeserializer(object):
         if PacketLayout.PACKET_ID_LENGTH >= len(message_buffer):
             raise exc.MessageDeserializationError("packet length", "template mismatch")
 
-        header = message_buffer[PacketLayout.PACKET_ID_LENGTH:12]
+        #the message number follows the extra header, if there is any
+        number_pos = PacketLayout.PACKET_ID_LENGTH + ord(message_buffer[PacketLayout.PHL_OFFSET])
+        header = message_buffer[number_pos:number_pos + 6]
         self.current_template = self.__decode_header(header)
         if self.current_template != None:
             return True
-- 
2.43.0


From d869dbf574396f48d0bcf526c39f117be876a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 12/44] fix: report malformed packets as the documented
 deserialization error

Packets too short for a header, for their acks or for their message number ended
in an IndexError or struct.error.
---
 pyogp/lib/base/message/udpdeserializer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index f4f8dbc..becbc39 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -77,10 +77,15 @@ class UDPMessageDeserializer(object):
         msg_buff = self.context
         msg_len = len(msg_buff)
 
+        if msg_len < PacketLayout.MINIMUM_VALID_PACKET_SIZE:
+            raise exc.MessageDeserializationError("packet length", "packet is too short")
+
         if ord(msg_buff[0]) & PackFlags.LL_ACK_FLAG:
             num_acks = ord(msg_buff[msg_len-1])
             #logger.debug("Decoding packet with acks: %d", num_acks)
             ack_length = 1 + sizeof(MsgType.MVT_U32) * num_acks
+            if ack_length > msg_len - PacketLayout.PACKET_ID_LENGTH:
+                raise exc.MessageDeserializationError("packet length", "packet is shorter than its acks")
             temp_acks = msg_buff[-ack_length:]
             msg_buff = msg_buff[:-ack_length]
 
@@ -156,7 +161,10 @@ class UDPMessageDeserializer(object):
         #the message number follows the extra header, if there is any
         number_pos = PacketLayout.PACKET_ID_LENGTH + ord(message_buffer[PacketLayout.PHL_OFFSET])
         header = message_buffer[number_pos:number_pos + 6]
-        self.current_template = self.__decode_header(header)
+        try:
+            self.current_template = self.__decode_header(header)
+        except (IndexError, struct.error), error:
+            raise exc.MessageDeserializationError("message number", error)
         if self.current_template != None:
             return True
 
-- 
2.43.0


From 9931b87359a10e84ca05f5d658f1a4268803316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 13/44] fix: do not read the appended acks of a truncated
 packet as its body

---
 pyogp/lib/base/message/udpdeserializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index becbc39..b8f35af 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -255,6 +255,8 @@ class UDPMessageDeserializer(object):
                 ack_pos += sizeof(MsgType.MVT_U32)
                 packet.add_ack(ack_packet_id)
                 acks -= 1
+            #the acks are no part of the body
+            data = data[:msg_size-ack_start]
 
         #RELIABLE - means the message wants to be acked by us
         if packet.send_flags & PackFlags.LL_RELIABLE_FLAG:
-- 
2.43.0


From bd9d081b10d5739c09db0e3eb976a1513842464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 14/44] fix: fall back to the embedded template and message.xml
 as documented

The warning about the wrong parameter type was logged through an undefined name
and the embedded template imported from a module that does not exist.
---
 pyogp/lib/base/message/udpdispatcher.py | 2 +-
 pyogp/lib/base/message_manager.py       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index bb4325d..52acc40 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -78,7 +78,7 @@ class UDPDispatcher(object):
             if isinstance(message_template, file):
                 self.message_template = message_template
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
                 self.message_template = None
 
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 2cf8f4b..7f7f482 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -70,10 +70,10 @@ class MessageManager(object):
             if isinstance(message_template, file):
                 self.message_template = message_template
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
 
-                from pyogp.lib.base.data import msg_tmpl
+                from pyogp.lib.base.message.data import msg_tmpl
                 self.message_template = msg_tmpl
 
         # allow the passing in of message.xml as a file handle
@@ -84,7 +84,7 @@ class MessageManager(object):
             if isinstance(message_xml, file):
                 self.message_xml = MessageDotXML(message_xml = message_xml.read())
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message.xml" % (message_xml, type(message_xml)))
                 self.message_xml = MessageDotXML()
 
-- 
2.43.0


From 2241689a8166a315b3b2ee3eb8888db21a93bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 15/44] fix: apply the message.xml given to the manager or
 dispatcher

The serializer and deserializer always used the embedded one.
---
 pyogp/lib/base/message/udpdispatcher.py | 6 ++++--
 pyogp/lib/base/message_manager.py       | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 52acc40..48b7788 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -100,8 +100,10 @@ class UDPDispatcher(object):
         # set up our parsers
         self.udp_deserializer = UDPMessageDeserializer(self.message_handler, 
                                                         self.settings,
-                                                        message_template = self.message_template)
-        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template)
+                                                        message_template = self.message_template,
+                                                        message_xml = self.message_xml)
+        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template,
+                                                    message_xml = self.message_xml)
 
     def find_circuit(self, host):
         circuit = self.circuit_manager.get_circuit(host)
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 7f7f482..1870253 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -109,7 +109,8 @@ class MessageManager(object):
 
         self.udp_dispatcher = UDPDispatcher(settings = self.settings,
                                             message_handler = self.message_handler,
-                                            message_template = self.message_template)
+                                            message_template = self.message_template,
+                                            message_xml = self.message_xml)
 
         # if start parameter = True, kick off the queue monitors
         if start_monitors:
-- 
2.43.0


From 5d6630519bffaac7b902ad4dac970de0e310b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 16/44] fix: message.xml entries without a flavor do not raise
 a KeyError

---
 pyogp/lib/base/message/message_dot_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/message_dot_xml.py b/pyogp/lib/base/message/message_dot_xml.py
index 33a6ec2..6cba785 100644
--- a/pyogp/lib/base/message/message_dot_xml.py
+++ b/pyogp/lib/base/message/message_dot_xml.py
@@ -54,7 +54,7 @@ class MessageDotXML(object):
         """ checks whether a message is allowed over UDP or not """
 
         if self.messages.has_key(msg_name):
-            if self.messages[msg_name]['flavor'] == 'template':
+            if self.messages[msg_name].get('flavor') == 'template':
                 return True
             else:
                 return False
-- 
2.43.0


From 11e91874b5adca00b4f90134f518362975ae1bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 17/44] fix: keep working when packet handling is switched off

Without HANDLE_PACKETS and a message handler there was none, which the receiving
and sending of packets nonetheless used.
---
 pyogp/lib/base/message/udpdeserializer.py | 2 +-
 pyogp/lib/base/message/udpdispatcher.py   | 2 +-
 pyogp/lib/base/message_manager.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index b8f35af..70325da 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -62,7 +62,7 @@ class UDPMessageDeserializer(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             self.message_handler = MessageHandler()
 
     def deserialize(self, context):
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 48b7788..f901157 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -93,7 +93,7 @@ class UDPDispatcher(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             from pyogp.lib.base.message.message_handler import MessageHandler
             self.message_handler = MessageHandler()
 
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 1870253..fab6b3a 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -60,7 +60,7 @@ class MessageManager(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             self.message_handler = MessageHandler()
 
         # allow the passing in of message_template.msg as a file handle
-- 
2.43.0


From 617992f9622f1b754b55ef885744db206e78a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 18/44] fix: treat packets that are not parsed like others as
 to acks

They were acked even if not sent reliably, and the acks appended to them were
lost.
---
 pyogp/lib/base/message/udpdeserializer.py | 12 ++++++++++++
 pyogp/lib/base/message/udpdispatcher.py   |  7 ++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 70325da..b027f1e 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -145,6 +145,18 @@ class UDPMessageDeserializer(object):
 
         return None
 
+    def decode_acks(self, message_buffer):
+        """ Returns the packet ids of the acks appended to a packet. """
+        acks = []
+        if ord(message_buffer[0]) & PackFlags.LL_ACK_FLAG:
+            num_acks = ord(message_buffer[-1])
+            ack_pos = len(message_buffer) - 1 - num_acks * sizeof(MsgType.MVT_U32)
+            for i in range(num_acks):
+                acks.append(self.unpacker.unpack_data(message_buffer, MsgType.MVT_U32, \
+                                                      ack_pos + i * sizeof(MsgType.MVT_U32), \
+                                                      endian_type=EndianType.BIG))
+        return acks
+
     def __validate_message(self, message_buffer):
         """ Determines if the message follows a given template. """
         if self.__decode_template(message_buffer) == True:
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index f901157..d4e864f 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -143,8 +143,13 @@ class UDPDispatcher(object):
                 send_flags = ord(msg_buf[0])
                 packet_id = self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, 1, endian_type=EndianType.BIG)
 
+                # it may ack packets of ours all the same
+                for ack_packet_id in self.udp_deserializer.decode_acks(msg_buf):
+                    circuit.ack_reliable_packet(ack_packet_id)
+
                 # queue the ack up
-                circuit.collect_ack(packet_id)
+                if send_flags & PackFlags.LL_RELIABLE_FLAG:
+                    circuit.collect_ack(packet_id)
 
                 return None
 
-- 
2.43.0


From 85601d573b2c4f7f0b079442ebecfac52fd5ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 19/44] fix: the acks in a PacketAck retire the packets they
 name

Only acks appended to other packets did.
---
 pyogp/lib/base/message/circuit.py         | 5 +++++
 pyogp/lib/base/message/udpdeserializer.py | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 23a24f3..769527b 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -94,6 +94,11 @@ class Circuit(object):
         for ack_packet_id in packet.acks:
             self.ack_reliable_packet(ack_packet_id)
 
+        #acks also come in packets of their own
+        if packet.name == 'PacketAck':
+            for block in packet.blocks.get('Packets', []):
+                self.ack_reliable_packet(block.get_variable('ID').data)
+
         if packet.reliable == True:
             self.collect_ack(packet.packet_id)
 
diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index b027f1e..ae4ec94 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -126,7 +126,8 @@ class UDPMessageDeserializer(object):
                 return None
 
             # if the packet is being handled, or if have have disabled deferred packet parsing, handle it!
-            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING:
+            # acks concern the circuit, whether or not anybody watches them
+            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING or self.current_template.name == 'PacketAck':
 
                 try:
                     return self.__decode_data(msg_buff)
-- 
2.43.0


From 674ee73e356356667f0a8941d8df72789dc4781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 20/44] fix: do not await an ack for packets that could not be
 sent

A message unknown or banned over udp was also passed on as None to the udp client.
---
 pyogp/lib/base/message/udpdispatcher.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index d4e864f..7f79ba2 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -221,6 +221,9 @@ class UDPDispatcher(object):
         try:
             send_buffer = self.udp_serializer.serialize(packet)
 
+            if send_buffer == None:
+                raise exc.MessageSerializationError(packet.name, "it cannot be sent over udp")
+
             if self.settings.ENABLE_UDP_LOGGING:
                 if packet.name in self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS:
                     pass
@@ -246,6 +249,10 @@ class UDPDispatcher(object):
             pass
 
         except Exception, error:
+            # it wasn't sent, so nobody will ack it
+            if reliable == True:
+                circuit.ack_reliable_packet(packet.packet_id)
+
             logger.warning("Error trying to serialize the following packet: %s" % (packet))
             traceback.print_exc()
 
-- 
2.43.0


From 8c5316ef4b58d4dc21abc8043f7e561d4548e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 21/44] fix: the sender of a packet stays the same when others
 arrive

The one Host object of the client became the host of every circuit.
---
 pyogp/lib/base/network/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 3a4274b..028db48 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -49,8 +49,8 @@ class NetUDPClient(object):
         except:
             return '', 0
         #print self.sender
-        self.sender.ip = addr[0]
-        self.sender.port = addr[1]
+        # callers keep the sender, so it has to be another one each time
+        self.sender = Host((addr[0], addr[1]))
         return data, len(data)
 
     def start_udp_connection(self):
-- 
2.43.0


From 7f1db9a4a78e80515b825556b376e29448c50201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 22/44] fix: stopping the monitors stops a just started event
 queue, and needs none

Without an event queue it raised an AttributeError; one whose coroutine had not
run yet was left to poll for good. The monitors can be started again.
---
 pyogp/lib/base/message_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index fab6b3a..43c4e5c 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -127,6 +127,7 @@ class MessageManager(object):
 
         if self.event_queue != None and self.settings.ENABLE_REGION_EVENT_QUEUE:
             logger.debug('Spawning region event queue connection')
+            self.event_queue.stopped = False
             api.spawn(self.event_queue.start)
 
         #api.spawn(self.monitor_outgoing_queue)
@@ -141,8 +142,8 @@ class MessageManager(object):
 
         #stops event_queue
 
-        if self.event_queue._running:
-            self.event_queue.stop()        
+        if self.event_queue != None:
+            self.event_queue.stop()
 
     def monitor_outgoing_queue(self):
         """  """
-- 
2.43.0


From 76b3b9b5074490d45f67d57fc1df3532cbba9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 23/44] fix: the manager's settings apply to its event queue

---
 pyogp/lib/base/message_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 43c4e5c..71b7aa4 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -97,6 +97,7 @@ class MessageManager(object):
         self.capabilities = capabilities
         if self.capabilities.has_key('EventQueueGet'):
             self.event_queue = EventQueueClient(self.capabilities['EventQueueGet'], 
+                                                settings = self.settings,
                                                 message_handler = self.message_handler, 
                                                 host = self.host)
         else:
-- 
2.43.0


From 872f3546fd7a10e4f333cb0af7a090eea2b1673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 24/44] fix: malformed packets and failing handlers do not end
 the udp loop

---
 pyogp/lib/base/message_manager.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 71b7aa4..2f8f71b 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -175,16 +175,23 @@ class MessageManager(object):
         while self._is_running:
             api.sleep(0)
             msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)
-            recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
-                                                            msg_buf, 
-                                                            msg_size)
+            try:
+                recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
+                                                                msg_buf, 
+                                                                msg_size)
+            except Exception, error:
+                # a bad packet or a failing handler must not end the connection
+                logger.warning("Error handling a packet for %s: %r" % (self.host, error))
             #self.incoming_queue.append(recv_packet)
             if self.udp_dispatcher.has_unacked():
                 self.udp_dispatcher.process_acks()
 
             while len(self.outgoing_queue) > 0:                
                 (packet, reliable) = self.outgoing_queue.pop(0)
-                self.send_udp_message(packet, reliable)
+                try:
+                    self.send_udp_message(packet, reliable)
+                except Exception, error:
+                    logger.warning("Error sending a packet to %s: %r" % (self.host, error))
 
         logger.debug("Stopped the UDP connection for %s" % (self.host))
 
-- 
2.43.0


From 07f7e0ff1a3b1b1b17b2107e2579eccc8a17459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 25/44] fix: resend reliable packets that were not acked

No circuit was ever registered for resending, and the resending itself passed
its parameters in the wrong order and needed a buffer that was never kept. What
is resent is what was sent, while there are retries left.
---
 pyogp/lib/base/message/udpdispatcher.py | 38 +++++++++++++------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 7f79ba2..5182ca0 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -17,6 +17,7 @@ $/LicenseInfo$
 """
 
 # standard python libs
+import copy
 from logging import getLogger
 import traceback
 #from msgtypes import *
@@ -186,7 +187,7 @@ class UDPDispatcher(object):
     def send_retry(self, message, host):
         """ This is a retry because we didn't get acked """
         #sets up the message so send_message will add the RETRY flag to it
-        return self.__send_message(host, message, retrying=True)                
+        return self.__send_message(message, host, retrying=True)                
 
     def send_message(self, message, host):
         return self.__send_message(message, host)
@@ -211,8 +212,6 @@ class UDPDispatcher(object):
 
         if reliable == True:
             circuit.prepare_packet(packet, PackFlags.LL_RELIABLE_FLAG, retries)
-            if circuit.unack_packet_count <= 0:
-                self.circuit_manager.unacked_circuits[host] = circuit
         elif retrying == True:
             circuit.prepare_packet(packet, PackFlags.LL_RESENT_FLAG)
         else:
@@ -238,6 +237,12 @@ class UDPDispatcher(object):
                         host_string = ''
                     logger.debug('Sent packet    %s : %s (%s)%s' % (host_string, packet.name, packet.packet_id, hex_string))
 
+            # keep what was sent, in case it has to be sent again. The message may change until then
+            if reliable == True:
+                unacked_packet = copy.copy(packet)
+                unacked_packet.buffer = send_buffer
+                circuit.unacked_packets[packet.packet_id] = unacked_packet
+
             #TODO: remove this when testing a network
             self.udp_client.send_packet(self.socket, send_buffer, host)
 
@@ -272,27 +277,24 @@ class UDPDispatcher(object):
         #now_time = get_time_now()
 
         #go through all circuits in the map
-        for circuit in self.circuit_manager.unacked_circuits.values():
+        for circuit in self.circuit_manager.circuit_map.values():
 
             for unacked_packet in circuit.unacked_packets.values():
 
-                unacked_packet.retries -= 1
-                #is this correct? should it be serialized or something?
-                #self.reset_send_buffer()
-
-                self.send_buffer = ''
-                self.send_buffer += unacked_packet.buffer
-                self.send_retry(unacked_packet.host, unacked_packet.buffer)
-
                 if unacked_packet.retries <= 0:
+                    continue
+
+                unacked_packet.retries -= 1
 
-                    circuit.final_retry_packets[unacked_packet.packet_id] = unacked_packet
-                    del circuit.unacked_packets[unacked_packet.packet_id]
+                #the same packet, with the same id, marked as sent before
+                send_flags = ord(unacked_packet.buffer[0]) | PackFlags.LL_RESENT_FLAG
+                send_buffer = chr(send_flags) + unacked_packet.buffer[1:]
 
-            #final retries aren't resent, they are just forgotten about. boo
-            #for unacked_packet in circuit.final_retry_packets.values():
-            #    if now_time > unacked_packet.expiration_time:
-            #        del circuit.final_retry_packets[unacked_packet.packet_id] 
+                try:
+                    self.udp_client.send_packet(self.socket, send_buffer, circuit.host)
+                    self.packets_out += 1
+                except Exception, error:
+                    logger.warning("Error resending packet %s: %r" % (unacked_packet.packet_id, error))
 
     def __send_acks(self):
         """ Acks all packets received that we haven't acked yet. """
-- 
2.43.0


From 86653ea18572a74bf62e528b8025fcd85bdc62e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 26/44] fix: any message can be rendered as text

Unset and unicode values and fixed data of odd size raised, also while logging
that a packet could not be sent.
---
 pyogp/lib/base/message/message.py  | 14 +++++++++++---
 pyogp/lib/base/message/template.py |  6 +++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index b9f2529..0adf7cb 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -181,11 +181,11 @@ class Message(MessageBase):
         for k in self.__dict__:
 
             if k == 'name':
-                string += '\nName: %s\n' % (self.name)
+                string += '\nName: %s\n' % (self.__as_string(self.name))
             if k == 'blocks':
 
                 for ablock in self.blocks:
-                    string += "%sBlock Name:%s%s\n" % (delim, delim, ablock)
+                    string += "%sBlock Name:%s%s\n" % (delim, delim, self.__as_string(ablock))
                     for somevars in self.blocks[ablock]:
 
                         for avar in somevars.var_list:
@@ -195,10 +195,18 @@ class Message(MessageBase):
                             #    string += "%s%s%s:%s%s\n" % (delim, delim, zvar.name, delim, hexlify(zvar.data))
                             #except TypeError:
                             #    string += "%s%s%s:%s%s\n" % (delim, delim, zvar.name, delim, zvar.data)
-                            string += "%s%s%s:%s%s\n" % (delim, delim, zvar.name, delim, zvar)
+                            string += "%s%s%s:%s%s\n" % (delim, delim, self.__as_string(zvar.name), delim, zvar)
 
         return string
 
+    def __as_string(self, name):
+        """ names from llsd may be unicode, which doesn't mix with binary data """
+
+        if isinstance(name, unicode):
+            return name.encode('utf-8')
+
+        return name
+
     def __repr__(self):
         """ a string representation of a packet """
 
diff --git a/pyogp/lib/base/message/template.py b/pyogp/lib/base/message/template.py
index 52a033f..abcd938 100644
--- a/pyogp/lib/base/message/template.py
+++ b/pyogp/lib/base/message/template.py
@@ -90,9 +90,9 @@ class MsgVariableData(object):
         return MsgType.MVT_as_string(self.var_type) #LDE 23oct2008 adding var_type_as_string to allow for easier display
 
     def get_data_as_string(self):
-        if self.var_type == MsgType.MVT_VARIABLE:
-            return self.data
-        elif self.var_type == MsgType.MVT_FIXED:
+        if isinstance(self.data, unicode):
+            return self.data.encode('utf-8')
+        elif self.var_type == MsgType.MVT_FIXED and isinstance(self.data, str) and len(self.data) % 2 == 0:
             return str(struct.unpack('h'*(len(self.data)/2), self.data))
         else: 
             return str(self.data)
-- 
2.43.0


From acbe43eb01126523c2b73e7db3716cd14067e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 27/44] fix: Message.to_dict contains all instances of a block,
 not only the last

---
 pyogp/lib/base/message/message.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index 0adf7cb..3f5d69e 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -140,10 +140,10 @@ class Message(MessageBase):
                     this_var = _vars.get_variable(avar)
                     new_vars[this_var.name] = this_var.data
  
-            if block in base_repr['body']:
-                base_repr['body'][block].append(new_vars)
-            else: 
-                base_repr['body'][block] = [new_vars]
+                if block in base_repr['body']:
+                    base_repr['body'][block].append(new_vars)
+                else: 
+                    base_repr['body'][block] = [new_vars]
 
         return base_repr
 
-- 
2.43.0


From cf1724f4cfe223463631ae184da8f31892625df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 28/44] fix: a KeyError raised by a message's subscriber is not
 swallowed

---
 pyogp/lib/base/message/message_handler.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyogp/lib/base/message/message_handler.py b/pyogp/lib/base/message/message_handler.py
index 4daa4ac..ae3d968 100644
--- a/pyogp/lib/base/message/message_handler.py
+++ b/pyogp/lib/base/message/message_handler.py
@@ -66,9 +66,9 @@ class MessageHandler(object):
     def handle(self, message):
         """ essentially a case statement to pass messages to event notifiers in the form of self attributes """
 
-        try:
+        handler = self.handlers.get(message.name)
 
-            handler = self.handlers[message.name]
+        if handler != None:
 
             # Handle the message if we have subscribers
             # Conveniently, this will also enable verbose message logging
@@ -77,10 +77,6 @@ class MessageHandler(object):
 
                 handler(message)
 
-        except KeyError:
-            #logger.info("Received an unhandled message: %s" % (message.name))
-            pass
-
 class MessageHandledNotifier(object):
     """ pseudo subclassing the Event class to treat the message like an event """
 
-- 
2.43.0


From 2bec383a2c6e44399c3ed13508af18f18aa732cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 29/44] fix: events whose handlers unsubscribe call the others,
 and can be cleared

Unsubscribing an absent handler raised a NameError instead of the ValueError it
was writing, clearing an AttributeError, and a handler that unsubscribed made
the next one miss the event.
---
 pyogp/lib/base/events.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/events.py b/pyogp/lib/base/events.py
index 45f45a9..a13b2b9 100644
--- a/pyogp/lib/base/events.py
+++ b/pyogp/lib/base/events.py
@@ -46,13 +46,13 @@ class Event(object):
 
         except:
 
-            raise ValueError("Handler '%s' is not subscribed to this event." %s (handler))
+            raise ValueError("Handler '%s' is not subscribed to this event." % (handler,))
 
         return self
 
     def notify(self, args):
 
-        for instance, inner_args, kwargs in self.subscribers:
+        for instance, inner_args, kwargs in list(self.subscribers):
 
             try:
 
@@ -70,7 +70,7 @@ class Event(object):
 
     def clearSubscribers(self):
 
-        self.subscribers.clear()
+        del self.subscribers[:]
         return self
 
     def getSubscribers(self):
-- 
2.43.0


From f81d950e7fbcc96407b78c3d1fead27ed4ad57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 30/44] fix: a failed poll of the event queue does not deliver
 the last events again

---
 pyogp/lib/base/event_queue.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 0c06fe3..d60b427 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -186,6 +186,9 @@ class EventQueueClient(object):
                             host_string = ''
                         logger.debug('Posting to the event queue%s: %s' % (host_string, self.data))
 
+                    # nothing is known yet about this poll
+                    self.result = None
+
                     try:
                         self.result = self.cap.POST(self.data)
                     except Exception, error:
@@ -194,6 +197,7 @@ class EventQueueClient(object):
                         else:
                             host_string = ''
                         logger.info("Received an error we ought not care about%s: %s" % (host_string, error))
+                        continue
 
                     if self.result != None: 
                         self.last_id = self.result['id']
-- 
2.43.0


From ec7e904a35626dbfef8bcec41da377452a86bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 31/44] fix: the event queue is not running after its last post
 failed

---
 pyogp/lib/base/event_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index d60b427..7dc174b 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -213,7 +213,10 @@ class EventQueueClient(object):
                 # Need to ack the last message received, otherwise it will be
                 # resent if we re-connect to the same queue
                 self.data = {'ack':self.last_id, 'done':True}
-                self.cap.POST(self.data)
+                try:
+                    self.cap.POST(self.data)
+                except Exception, error:
+                    logger.info("Error in the last post to the event queue for %s: %r" % (self.host, error))
 
             self._running = False
 
-- 
2.43.0


From f3492592373d4b470dc5d14b55687f41a0d61518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 32/44] fix: an event that cannot be handled does not cost the
 others of its response

Nor are other entries of the response taken for lists of events.
---
 pyogp/lib/base/event_queue.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 7dc174b..a5f0c2b 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -258,7 +258,13 @@ class EventQueueClient(object):
                 parsed_data = self._decode_eq_result(data)
 
                 for packet in parsed_data:
-                    self.message_handler.handle(packet)
+
+                    # the events after one whose handler fails are to be handled as well
+                    try:
+                        self.message_handler.handle(packet)
+                    except Exception, error:
+                        traceback.print_exc()
+                        logger.warning("Error handling event %s: %r" % (packet.name, error))
 
         except Exception, error:
 
@@ -281,16 +287,10 @@ class EventQueueClient(object):
 
             if data.has_key('events'):
 
-                for i in data:
-
-                    if i == 'id':
+                for message in data['events']:
 
-                        #last_id = data[i]
-                        pass
-
-                    else:
-
-                        for message in data[i]:
+                        # an event we can't make sense of must not cost us the others
+                        try:
 
                             # move this to a proper solution, for now, append to some list eq events
                             # or some dict mapping name to action to take
@@ -332,6 +332,9 @@ class EventQueueClient(object):
 
                             messages.append(new_message)                                   
 
+                        except Exception, error:
+                            logger.warning("Error parsing event %r: %r" % (message, error))
+
             return messages
 
 
-- 
2.43.0


From 4ee30355f05ce54db073f366f5ab7c3d3ab1d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 33/44] fix: Capability.GET sends the custom headers it is
 given

---
 pyogp/lib/base/caps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 0d05b33..b7df45d 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -71,7 +71,7 @@ class Capability(object):
         if self.settings.ENABLE_CAPS_LOGGING: logger.debug('%s: GETing %s' %(self.name, self.public_url))
 
         try:
-            response = self.restclient.GET(self.public_url)
+            response = self.restclient.GET(self.public_url, headers=custom_headers)
         except HTTPError, e:
             if e.code==404:
                 raise ResourceNotFound(self.public_url)
-- 
2.43.0


From 2d6fe47e61ee9fda45d215e2ee6452e79ab3d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 34/44] fix: a response without a content type raises
 DeserializerNotFound, not KeyError

---
 pyogp/lib/base/caps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index b7df45d..085325b 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -79,7 +79,7 @@ class Capability(object):
                 raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method="GET")
 
         # now deserialize the data again
-        content_type_charset = response.headers['Content-Type']
+        content_type_charset = response.headers.get('Content-Type', '')
         content_type = content_type_charset.split(";")[0] # remove the charset part
 
         # ToDo: write a generic serializer/deserializer
@@ -146,7 +146,7 @@ class Capability(object):
     def _response_handler(self, response):
         # now deserialize the data again, we ask for a utility with the content type
         # as the name
-        content_type_charset = response.headers['Content-Type']
+        content_type_charset = response.headers.get('Content-Type', '')
         content_type = content_type_charset.split(";")[0] # remove the charset part
 
         pattern = re.compile('<\?xml\sversion="1.0"\s\?><llsd>.*?</llsd>.*')
-- 
2.43.0


From 3f7e47be97ee9be86a1ac0285b65a932518df3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 35/44] fix: LLSD that cannot be parsed always raises
 DeserializationFailed

And a payload of zero is not mistaken for a failure.
---
 pyogp/lib/base/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 518e9df..2666548 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -264,9 +264,10 @@ class LLSDDeserializer(object):
 
         try:
             r = llsd.parse(data)
-        except llsd.LLSDParseError, e:
+        except Exception, e:
+            # depending on what is wrong it isn't always an LLSDParseError
             raise DeserializationFailed(data, str(e))
-        if r==False:
+        if r is False:
             raise DeserializationFailed(data, 'result was False')
         return r
 
-- 
2.43.0


From 872dbbf8462cb94cdf79684a69714f1ecd31301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 36/44] fix: UUID inequality and hash are consistent with its
 equality

---
 pyogp/lib/base/datatypes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyogp/lib/base/datatypes.py b/pyogp/lib/base/datatypes.py
index bdfff7c..1ed6e34 100644
--- a/pyogp/lib/base/datatypes.py
+++ b/pyogp/lib/base/datatypes.py
@@ -241,6 +241,12 @@ class UUID(object):
             return False
 
 
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash(self.uuid)
+
     def __xor__(self, arg):
         """ the xor of two UUIDs """
         temp = self.uuid.int ^ arg.uuid.int
-- 
2.43.0


From 40daf4edd17c8d77a4177c5e524659eeff36215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 37/44] fix: a stopped event queue does not poll again

---
 pyogp/lib/base/event_queue.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index a5f0c2b..86dcffb 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -175,6 +175,10 @@ class EventQueueClient(object):
                 try:
                     api.sleep(self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL)
 
+                    # stopped while waiting for the next poll
+                    if self.stopped:
+                        break
+
                     self.data = {}
                     if self.last_id != -1:
                         self.data = {'ack':self.last_id}
-- 
2.43.0


From 7b05f97293ce0e7465b87860e7753e424f090c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 38/44] fix: an empty fixed size value can be rendered

---
 pyogp/lib/base/message/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/template.py b/pyogp/lib/base/message/template.py
index abcd938..822ab1c 100644
--- a/pyogp/lib/base/message/template.py
+++ b/pyogp/lib/base/message/template.py
@@ -92,7 +92,7 @@ class MsgVariableData(object):
     def get_data_as_string(self):
         if isinstance(self.data, unicode):
             return self.data.encode('utf-8')
-        elif self.var_type == MsgType.MVT_FIXED and isinstance(self.data, str) and len(self.data) % 2 == 0:
+        elif self.var_type == MsgType.MVT_FIXED and isinstance(self.data, str) and self.data and len(self.data) % 2 == 0:
             return str(struct.unpack('h'*(len(self.data)/2), self.data))
         else: 
             return str(self.data)
-- 
2.43.0


From 3ea972a6f600d49c15eb02b03fc90ed179c8c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 39/44] fix: an error can be shown whatever value it holds

---
 pyogp/lib/base/exc.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyogp/lib/base/exc.py b/pyogp/lib/base/exc.py
index f9b4cae..7c875e7 100644
--- a/pyogp/lib/base/exc.py
+++ b/pyogp/lib/base/exc.py
@@ -33,7 +33,7 @@ class LoginError(Error):
         self.error = error
 
     def __str__(self):
-        return "Agent login error: %s" % (self.error)
+        return "Agent login error: %s" % (self.error,)
 
 class ParseStartLocError(LoginError):
     """ raised when the is an error in parsing the user specified start location """
@@ -73,7 +73,7 @@ class ResourceNotFound(NetworkError):
         self.url = url
 
     def __str__(self):
-        return self.url
+        return "%s" % (self.url,)
 
 class ResourceError(NetworkError):
     """raised if any other error occurred (usually a 500)
@@ -116,7 +116,7 @@ class DeserializerNotFound(DeserializationError):
         self.content_type = content_type
 
     def __str__(self):
-        return "deserialization for '%s' not supported" % (self.content_type)
+        return "deserialization for '%s' not supported" % (self.content_type,)
 
 class CredentialDeserializerNotFound(DeserializationError):
     """raised if a deserializer for a certain content type couldn't be found
@@ -128,7 +128,7 @@ class CredentialDeserializerNotFound(DeserializationError):
         self.payload = payload
 
     def __str__(self):
-        return "deserialization for payload '%s' not supported" % (self.payload)
+        return "deserialization for payload '%s' not supported" % (self.payload,)
 
 class DeserializationFailed(DeserializationError):
     """raised if a deserializer couldn't deserialize a payload
@@ -161,7 +161,7 @@ class MessageTemplateNotFound(MessageSystemError):
         self.template = template
 
     def __str__(self):   
-        return "No message template found, context: '%s'" % (self.context)
+        return "No message template found, context: '%s'" % (self.context,)
 
 class MessageTemplateParsingError(MessageSystemError):
     """ message template parsing error
@@ -174,7 +174,7 @@ class MessageTemplateParsingError(MessageSystemError):
         self.template = template
 
     def __str__(self):   
-        return "Error parsing message template, context: '%s'" % (self.context)
+        return "Error parsing message template, context: '%s'" % (self.context,)
 
 class CircuitNotFound(MessageSystemError):
     """ circuit to host could not be found
@@ -302,7 +302,7 @@ class RegionSeedCapNotAvailable(RegionDomainError):
         self.reason = reason
 
     def __str__(self):   
-        return "Region seed capability not found when %s'" % (self.reason)  
+        return "Region seed capability not found when %s'" % (self.reason,)  
 
 class RegionCapNotAvailable(RegionDomainError):
     """an error raised in case a user couldn't be authorized
@@ -330,7 +330,7 @@ class RegionMessageError(RegionDomainError):
         self.region = region
 
     def __str__(self):   
-        return "Agent has no udp connection enabled for: %s'" % (self.region)
+        return "Agent has no udp connection enabled for: %s'" % (self.region,)
 
 ### General errors
 
@@ -345,7 +345,7 @@ class DataParsingError(Error):
         self.error = error
 
     def __str__(self):   
-        return "Data parsing error: %s'" % (self.error)
+        return "Data parsing error: %s'" % (self.error,)
 
 class NotImplemented(Error):
     """ an error raised when method is not implemented """
@@ -356,7 +356,7 @@ class NotImplemented(Error):
         self.error = error
 
     def __str__(self):
-        return "This method has to be implemented here: %s" % (self.error)
+        return "This method has to be implemented here: %s" % (self.error,)
 
 class Deprecated(Error):
     """ an error raised when method is not implemented """
@@ -367,6 +367,6 @@ class Deprecated(Error):
         self.thing = thing
 
     def __str__(self):
-        return "This thing is deprecated: %s" % (self.thing)
+        return "This thing is deprecated: %s" % (self.thing,)
 
 
-- 
2.43.0


From 439cb3996a1f731b77a9f321a0b55009064c9936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 40/44] fix: LLSD whose parse error quotes other than ASCII
 text raises DeserializationFailed too

---
 pyogp/lib/base/helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 2666548..6e3c41e 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -266,7 +266,12 @@ class LLSDDeserializer(object):
             r = llsd.parse(data)
         except Exception, e:
             # depending on what is wrong it isn't always an LLSDParseError
-            raise DeserializationFailed(data, str(e))
+            try:
+                reason = str(e)
+            except UnicodeError:
+                # the error quotes text that isn't ASCII
+                reason = repr(e)
+            raise DeserializationFailed(data, reason)
         if r is False:
             raise DeserializationFailed(data, 'result was False')
         return r
-- 
2.43.0


From 318b370d07fd4648d514d10866ffa318e4d7e072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 41/44] fix: Message.to_llsd called a method that does not
 exist

---
 pyogp/lib/base/message/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index 3f5d69e..dc1b0ac 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -170,7 +170,7 @@ class Message(MessageBase):
         TypeError: invalid type
         '''
         
-        return llsd.format_xml(self.as_dict())
+        return llsd.format_xml(self.to_dict())
 
     def data(self):
         """ a string representation of a packet """
-- 
2.43.0


From 4f1c66527fb5d7fe9c94d5cafaa42401d401275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 42/44] fix: the packet logging handler failed on names and
 values that are not ASCII

---
 pyogp/lib/base/helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 6e3c41e..9a451d0 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -147,7 +147,12 @@ class Helpers(object):
     def log_packet(packet, _object):
         """ default logging function for packets  """
 
-        logger.info("Object %s is monitoring packet type %s: \n%s" % (type(_object), packet.name, packet.data()))
+        name = packet.name
+        if isinstance(name, unicode):
+            # doesn't mix with the bytes packets show themselves as
+            name = name.encode('utf-8')
+
+        logger.info("Object %s is monitoring packet type %s: \n%s" % (type(_object), name, packet.data()))
 
     @staticmethod
     def log_event_queue_data(data, _object):
-- 
2.43.0


From 834a108d8cf79d087a9c58018f390324ab03e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 43/44] fix: a failing handler of outgoing packets kept them
 from being sent, or ended the udp loop

---
 pyogp/lib/base/message/udpdispatcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 5182ca0..72fd0a7 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -205,7 +205,11 @@ class UDPDispatcher(object):
 
         # enable monitoring of outgoing packets
         if self.settings.HANDLE_OUTGOING_PACKETS:
-            self.message_handler.handle(packet)
+            try:
+                self.message_handler.handle(packet)
+            except Exception, error:
+                # who merely watches a packet must not keep it from being sent
+                logger.warning("Error in a handler of the outgoing packet %s: %r" % (packet.name, error))
 
         #use circuit manager to get the circuit to send on
         circuit = self.find_circuit(host)
-- 
2.43.0


From 8e3b092d9d54e726138e97a5d9e098aad663a5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 44/44] fix: the agent domain event queue was never polled,
 start ended in an error instead

---
 pyogp/lib/base/event_queue.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 86dcffb..5387f19 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -163,7 +163,7 @@ class EventQueueClient(object):
 
     def _processRegionEventQueue(self):
 
-        if self.cap.name != 'EventQueueGet':
+        if self.cap.name not in ('EventQueueGet', 'event_queue'):
             raise RegionCapNotAvailable('EventQueueGet')
             # well then get it...?
         else:
@@ -233,18 +233,8 @@ class EventQueueClient(object):
             raise RegionCapNotAvailable('event_queue')
             # change the exception here (add a new one)
         else:
-            self._running = True
-            while not self.stopped:
-
-                api.sleep(self.settings.agentdomain_event_queue_interval)
-
-                self.result = self.capabilities['event_queue'].POST(self.data)
-
-                if self.result != None: self.last_id = self.result['id']
-
-                self._parse_result(self.result)
-
-            self._running = False
+            # it is polled the way a simulator's is
+            self._processRegionEventQueue()
 
     def _parse_result(self, data):
         """ tries to parse the llsd response from an event queue request. 
-- 
2.43.0

