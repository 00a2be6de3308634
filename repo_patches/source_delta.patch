From b4d00c29fca1f7d38d5628aa6633b3f3747fe550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 01/59] fix: TCP write of more than max_count registers raised
 UnboundLocalError

---
 sunspec/core/modbus/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 7509187..11b4d8e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -943,8 +943,8 @@ class ModbusClientDeviceTCP(object):
                     write_count = self.max_count
                 else:
                     write_count = count
-                    start = (write_offset * 2)
-                    end = int((write_offset + write_count) * 2)
+                start = int(write_offset * 2)
+                end = int((write_offset + write_count) * 2)
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
-- 
2.43.0


From a09757f8733bfacd14c52879b3ca95db7d5426aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 02/59] fix: limit Modbus write requests to 123 registers

---
 sunspec/core/modbus/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 11b4d8e..a5229dd 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -39,6 +39,7 @@ PARITY_NONE = 'N'
 PARITY_EVEN = 'E'
 
 REQ_COUNT_MAX = 125
+WRITE_COUNT_MAX = 123       # Modbus limit for write multiple registers
 
 FUNC_READ_HOLDING = 3
 FUNC_READ_INPUT = 4
@@ -431,6 +432,7 @@ class ModbusClientRTU(object):
         write_count = 0
         write_offset = 0
         count = len(data)/2
+        max_count = min(max_count, WRITE_COUNT_MAX)
 
         if self.serial is not None:
             while (count > 0):
@@ -932,6 +934,7 @@ class ModbusClientDeviceTCP(object):
         write_offset = 0
         local_connect = False
         count = len(data)/2
+        max_count = min(self.max_count, WRITE_COUNT_MAX)
 
         if self.socket is None:
             local_connect = True
@@ -939,8 +942,8 @@ class ModbusClientDeviceTCP(object):
 
         try:
             while (count > 0):
-                if count > self.max_count:
-                    write_count = self.max_count
+                if count > max_count:
+                    write_count = max_count
                 else:
                     write_count = count
                 start = int(write_offset * 2)
-- 
2.43.0


From dc9179459c7c07bf5a094f7593beb6ebced5496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 03/59] fix: str_to_data produced one byte more than the length
 it was given for lengths below 16

---
 sunspec/core/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 2c59734..0c6b3ce 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -143,11 +143,11 @@ def float_to_data(f, len=None):
 def str_to_data(s, slen=None):
     if slen is None:
         slen = len(s)
+        # short strings without a given length are null terminated
+        if slen < 16:
+            slen += 1
     if sys.version_info > (3,):
         s = bytes(s, 'latin-1')
-    if slen < 16:
-        s += b'\x00'
-        slen += 1
     return struct.pack(str(slen) + 's', s)
 
 def eui48_to_data(eui48):
-- 
2.43.0


From d4f10ec1f11156ee0826ed3e9a9f0f03f73f0a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 04/59] fix: eui48 points could not be written (eui48_to_data
 did not take the length)

---
 sunspec/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 0c6b3ce..334bde7 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -150,7 +150,7 @@ def str_to_data(s, slen=None):
         s = bytes(s, 'latin-1')
     return struct.pack(str(slen) + 's', s)
 
-def eui48_to_data(eui48):
+def eui48_to_data(eui48, len=None):
     return (b'\x00\x00' + base64.b16decode(eui48.replace(':', '')))
 
 
-- 
2.43.0


From c89a1cb8296269ac08731b3a611074e0c36f25eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 05/59] fix: uint64 and acc64 points were converted as signed
 values

---
 sunspec/core/suns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/suns.py b/sunspec/core/suns.py
index 3204939..063be93 100644
--- a/sunspec/core/suns.py
+++ b/sunspec/core/suns.py
@@ -182,8 +182,8 @@ suns_point_type_info = {
     SUNS_TYPE_BITFIELD32: (2, suns_is_impl_bitfield32, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_IPADDR: (2, suns_is_impl_ipaddr, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_INT64: (4, suns_is_impl_int64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
+    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
+    SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
     SUNS_TYPE_IPV6ADDR: (8, suns_is_impl_ipv6addr, util.data_to_ipv6addr, util.ipv6addr_to_data, suns_to_str, 0),
     SUNS_TYPE_FLOAT32: (2, suns_is_impl_float32, util.data_to_float, util.float_to_data32, suns_to_float, 0),
     SUNS_TYPE_STRING: (None, suns_is_impl_string, util.data_to_str, util.str_to_data, suns_to_str, ''),
-- 
2.43.0


From b1ccfc735ae22221f315a5a4d3fdbe5decd5c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 06/59] fix: a failed TCP connect left an unusable socket
 behind, so the device never connected again

---
 sunspec/core/modbus/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index a5229dd..3444590 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -729,6 +729,8 @@ class ModbusClientDeviceTCP(object):
 
             self.socket.connect((self.ipaddr, self.ipport))
         except Exception as e:
+            # do not keep a socket that is not connected
+            self.disconnect()
             raise ModbusClientError('Connection error: %s' % str(e))
 
     def disconnect(self):
-- 
2.43.0


From 6932b69a968281ecccdf5f1cdf228b1b2009244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 07/59] fix: TCP receive errors and timeouts were not reported
 as Modbus client errors

---
 sunspec/core/modbus/client.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 3444590..d8d4541 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -765,7 +765,12 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            try:
+                c = self.socket.recv(len_remaining)
+            except socket.timeout:
+                raise ModbusClientTimeout('Response timeout')
+            except Exception as e:
+                raise ModbusClientError('Socket read error: %s' % str(e))
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
@@ -880,7 +885,12 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            try:
+                c = self.socket.recv(len_remaining)
+            except socket.timeout:
+                raise ModbusClientTimeout('Response timeout')
+            except Exception as e:
+                raise ModbusClientError('Socket read error: %s' % str(e))
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
-- 
2.43.0


From 000db0a07f19c27ba43aef0539c2e1126271675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 08/59] fix: TCP connection was reused after a failed request,
 so a late response passed as the next one

---
 sunspec/core/modbus/client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index d8d4541..102b256 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -848,6 +848,12 @@ class ModbusClientDeviceTCP(object):
                     read_offset += read_count
                 else:
                     break
+        except ModbusClientException:
+            raise
+        except ModbusClientError:
+            # the response may still arrive, do not take it for the response to a later request
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
@@ -963,6 +969,12 @@ class ModbusClientDeviceTCP(object):
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
+        except ModbusClientException:
+            raise
+        except ModbusClientError:
+            # the response may still arrive, do not take it for the response to a later request
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
-- 
2.43.0


From 815908600270a63c505ec5fdf05e54668f141ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 09/59] fix: TCP responses to another function or of the wrong
 length were taken as data

---
 sunspec/core/modbus/client.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 102b256..2608fee 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -800,9 +800,15 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if ord(resp[TCP_HDR_LEN + 1]) & 0x7f != op:
+            raise ModbusClientError('Modbus response format error')
+
+        if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        if ord(resp[TCP_HDR_LEN + 2]) != count * 2 or len(resp) != TCP_HDR_LEN + 3 + count * 2:
+            raise ModbusClientError('Modbus response format error')
+
         return resp[(TCP_HDR_LEN + 3):]
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
@@ -932,9 +938,17 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if ord(resp[TCP_HDR_LEN + 1]) & 0x7f != func:
+            raise ModbusClientError('Modbus response format error')
+
+        if except_code is not None:
             raise ModbusClientException('Modbus exception: %d' % (except_code))
 
+        if sys.version_info > (3,):
+            resp = bytes(resp, 'latin-1')
+        if resp[TCP_HDR_LEN + 2:] != struct.pack('>HH', int(addr), write_count):
+            raise ModbusClientError('Modbus response format error')
+
     def write(self, addr, data):
         """ Write Modbus device registers. If no connection exists to the
         destination, one is created and disconnected at the end of the request.
-- 
2.43.0


From f881539cf54702e5e0a5fd3ba3da1f407e2ffae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 10/59] fix: RTU responses of another slave, to another
 function or of the wrong length were taken as data

---
 sunspec/core/modbus/client.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 2608fee..fbef661 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -274,9 +274,15 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if ord(resp[0]) != int(slave_id) or ord(resp[1]) & 0x7f != op:
+            raise ModbusClientError('Modbus response format error')
+
+        if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        if ord(resp[2]) != count * 2:
+            raise ModbusClientError('Modbus response format error')
+
         return resp[3:-2]
 
     def read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None, max_count=REQ_COUNT_MAX):
@@ -399,13 +405,16 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if ord(resp[0]) != int(slave_id) or ord(resp[1]) & 0x7f != func:
+            raise ModbusClientError('Modbus response format error')
+
+        if except_code is not None:
             raise ModbusClientException('Modbus exception: %d' % (except_code))
         else:
             if sys.version_info > (3,):
                 resp = bytes(resp, 'latin-1')
             resp_slave_id, resp_func, resp_addr, resp_count, resp_crc = struct.unpack('>BBHHH', resp)
-            if resp_slave_id != slave_id or resp_func != func or resp_addr != addr or resp_count != count:
+            if resp_slave_id != int(slave_id) or resp_func != func or resp_addr != addr or resp_count != count:
                 raise ModbusClientError('Mobus response format error')
 
     def write(self, slave_id, addr, data, trace_func=None, max_count=REQ_COUNT_MAX):
-- 
2.43.0


From 00e5dbbd35bce5f3b793d7cf32fda9a3eb421853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 11/59] fix: serial flush and read errors were not reported as
 Modbus client errors

---
 sunspec/core/modbus/client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index fbef661..f9cb17c 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -237,14 +237,17 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             self.serial.write(req)
         except Exception as e:
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            try:
+                c = self.serial.read(len_remaining)
+            except Exception as e:
+                raise ModbusClientError('Serial read error: %s' % str(e))
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
@@ -366,8 +369,8 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             if sys.version_info > (3,):
                 req = bytes(req, "latin-1")
             self.serial.write(req)
@@ -375,7 +378,10 @@ class ModbusClientRTU(object):
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            try:
+                c = self.serial.read(len_remaining)
+            except Exception as e:
+                raise ModbusClientError('Serial read error: %s' % str(e))
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
-- 
2.43.0


From a701afb8e09c0aea68eb28c11a5741742b3c6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 12/59] fix: requests beyond the Modbus address space raised
 struct.error instead of a client error

---
 sunspec/core/modbus/client.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index f9cb17c..2c9590a 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -58,6 +58,10 @@ class ModbusClientTimeout(ModbusClientError):
 class ModbusClientException(ModbusClientError):
     pass
 
+def check_addr_range(addr, count):
+    if addr < 0 or addr + count > 0x10000:
+        raise ModbusClientError('Modbus address out of range: addr = %d  count = %d' % (addr, count))
+
 def modbus_rtu_client(name=None, baudrate=None, parity=None):
 
     global modbus_rtu_clients
@@ -322,6 +326,7 @@ class ModbusClientRTU(object):
         read_offset = 0
 
         if self.serial is not None:
+            check_addr_range(addr, count)
             while (count > 0):
                 if count > max_count:
                     read_count = max_count
@@ -450,6 +455,7 @@ class ModbusClientRTU(object):
         max_count = min(max_count, WRITE_COUNT_MAX)
 
         if self.serial is not None:
+            check_addr_range(addr, count)
             while (count > 0):
                 if count > max_count:
                     write_count = max_count
@@ -851,6 +857,7 @@ class ModbusClientDeviceTCP(object):
         read_offset = 0
         local_connect = False
 
+        check_addr_range(addr, count)
         if self.socket is None:
             local_connect = True
             self.connect(self.timeout)
@@ -983,6 +990,7 @@ class ModbusClientDeviceTCP(object):
         count = len(data)/2
         max_count = min(self.max_count, WRITE_COUNT_MAX)
 
+        check_addr_range(addr, count)
         if self.socket is None:
             local_connect = True
             self.connect(self.timeout)
-- 
2.43.0


From 18ca1822a2338aa8f6dc82dcb2995adcff8d331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 13/59] fix: trace functions made every TCP request and RTU
 read fail on Python 3

---
 sunspec/core/modbus/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 2c9590a..895c744 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -237,8 +237,8 @@ class ModbusClientRTU(object):
 
         if trace_func:
             s = '{}:{}[addr={}] ->'.format(self.name, str(slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % c
             trace_func(s)
 
         try:
@@ -776,8 +776,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % c
             self.trace_func(s)
 
         try:
@@ -909,8 +909,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % c
             self.trace_func(s)
 
         try:
-- 
2.43.0


From 23a02412319d889e9e19e19313cc2398d50fe4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 14/59] fix: closing a serial device twice, or one of two for
 the same slave, took the port from other devices

---
 sunspec/core/modbus/client.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 895c744..347322f 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -142,8 +142,8 @@ class ModbusClientRTU(object):
             Write timeout in seconds. Fractional values are permitted.
 
         devices
-            List of :const:`sunspec.core.modbus.client.ModbusClientDeviceRTU`
-            devices currently using the client.
+            Lists of :const:`sunspec.core.modbus.client.ModbusClientDeviceRTU`
+            devices currently using the client by slave id.
     """
 
     def __init__(self, name='/dev/ttyUSB0', baudrate=9600, parity=None):
@@ -207,24 +207,32 @@ class ModbusClientRTU(object):
                 Device to add to the client.
         """
 
-        self.devices[slave_id] = device
+        self.devices.setdefault(slave_id, []).append(device)
 
-    def remove_device(self, slave_id):
+    def remove_device(self, slave_id, device):
         """Remove a device from the RTU client.
 
         Parameters:
 
             slave_id :
                 Modbus slave id.
+
+            device :
+                Device to remove from the client.
         """
 
-        if self.devices.get(slave_id):
+        # nothing to do if the device has been removed before
+        if device not in self.devices.get(slave_id, []):
+            return
+
+        self.devices[slave_id].remove(device)
+        if len(self.devices[slave_id]) == 0:
             del self.devices[slave_id]
 
         # if no more devices using the client interface, close and remove the client
         if len(self.devices) == 0:
-            self.close()
             modbus_rtu_client_remove(self.name)
+            self.close()
 
     def _read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None):
         resp = ''
@@ -537,7 +545,7 @@ class ModbusClientDeviceRTU(object):
         """
 
         if self.client:
-            self.client.remove_device(self.slave_id)
+            self.client.remove_device(self.slave_id, self)
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
         """Read Modbus device registers.
-- 
2.43.0


From f573b617a3d63c33a7ebdb0a708999382eae5d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 15/59] fix: mapped devices raised ModbusMapError, so a scan
 stopped at the first absent base address

---
 sunspec/core/modbus/client.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 347322f..005ead0 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -1078,9 +1078,12 @@ class ModbusClientDeviceMapped(object):
 
         if name is not None:
             self.modbus_map = mbmap.ModbusMap(slave_id)
-            self.modbus_map.from_xml(name, pathlist)
+            try:
+                self.modbus_map.from_xml(name, pathlist)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError('Modbus map error: %s' % str(e))
         else:
-            raise mbmap.ModbusMapError('No modbus map file provided during initialization')
+            raise ModbusClientError('No modbus map file provided during initialization')
 
     def close(self):
         """Close the device. Called when device is not longer in use.
@@ -1109,7 +1112,10 @@ class ModbusClientDeviceMapped(object):
         """
 
         if self.modbus_map is not None:
-            return self.modbus_map.read(addr, count, op)
+            try:
+                return self.modbus_map.read(addr, count, op)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError('Modbus map error: %s' % str(e))
         else:
             raise ModbusClientError('No modbus map set for device')
 
@@ -1127,7 +1133,10 @@ class ModbusClientDeviceMapped(object):
         """
 
         if self.modbus_map is not None:
-            return self.modbus_map.write(addr, data)
+            try:
+                return self.modbus_map.write(addr, data)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError('Modbus map error: %s' % str(e))
         else:
             raise ModbusClientError('No modbus map set for device')
 
-- 
2.43.0


From 103fff6eb74d64f77e6165518a30a635c68ebf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 16/59] fix: insecure_skip_tls_verify only skipped the host
 name check

---
 sunspec/core/modbus/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 005ead0..72d3d5b 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -753,6 +753,8 @@ class ModbusClientDeviceTCP(object):
                 context = ssl.create_default_context(ssl.Purpose.SERVER_AUTH, cafile=self.cafile)
                 context.load_cert_chain(certfile=self.certfile, keyfile=self.keyfile)
                 context.check_hostname = self.tls_verify
+                if not self.tls_verify:
+                    context.verify_mode = ssl.CERT_NONE
 
                 self.socket = context.wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
 
-- 
2.43.0


From 5534895c8b34652c38f39350f2cf71d9e21b7462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 17/59] fix: a failed scan left the connection open, and a
 failed connect was not reported as a client error

---
 sunspec/core/client.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 4962a9a..99ed88f 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -232,16 +232,27 @@ class ClientDevice(device.Device):
         SunSpec model definitions.
         """
 
-        error = ''
-
         connect = False
         if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
-            self.modbus_device.connect()
+            try:
+                self.modbus_device.connect()
+            except modbus.ModbusClientError as e:
+                raise SunSpecClientError('Modbus connection error: %s' % str(e))
             connect = True
 
             if delay is not None:
                 time.sleep(delay)
 
+        try:
+            self._scan_models(progress, delay)
+        finally:
+            if connect:
+                self.modbus_device.disconnect()
+
+    def _scan_models(self, progress=None, delay=None):
+
+        error = ''
+
         if self.base_addr is None:
             for addr in self.base_addr_list:
                 # print('trying base address %s' % (addr))
@@ -303,9 +314,6 @@ class ClientDevice(device.Device):
                 error = 'Unknown error'
             raise SunSpecClientError(error)
 
-        if connect:
-            self.modbus_device.disconnect()
-
 class ClientModel(device.Model):
     """A derived class based on :const:`sunspec.core.device.Model`. It adds
     Modbus device access capability to the model base class.
-- 
2.43.0


From 51804da05fb20b165cf1f894e5e386bf71342cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 18/59] fix: scanning a device again raised UnboundLocalError
 instead of replacing the model list

---
 sunspec/core/client.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 99ed88f..0f179ae 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -252,14 +252,21 @@ class ClientDevice(device.Device):
     def _scan_models(self, progress=None, delay=None):
 
         error = ''
+        base_addr = None
+        base_addr_list = self.base_addr_list
+        # base address may be known from an earlier scan, the result of which is replaced
+        if self.base_addr is not None:
+            base_addr_list = [self.base_addr]
+        self.models_list = []
+        self.models = {}
 
-        if self.base_addr is None:
-            for addr in self.base_addr_list:
+        if base_addr is None:
+            for addr in base_addr_list:
                 # print('trying base address %s' % (addr))
                 try:
                     data = self.read(addr, 3)
                     if data[:4] == b'SunS':
-                        self.base_addr = addr
+                        base_addr = self.base_addr = addr
                         # print('device base address = %d' % self.base_addr)
                         break
                     else:
@@ -271,7 +278,7 @@ class ClientDevice(device.Device):
                 if delay is not None:
                     time.sleep(delay)
 
-        if self.base_addr is not None:
+        if base_addr is not None:
             # print('base address = %s' % (self.base_addr))
             model_id = util.data_to_u16(data[4:6])
             addr = self.base_addr + 2
-- 
2.43.0


From 4e0ad47bbf7c788cbd9a3d5853e2b011c4b66475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 19/59] fix: scan gave every instance of a model the index 1

---
 sunspec/core/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 0f179ae..fd8266b 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -296,7 +296,8 @@ class ClientDevice(device.Device):
                     # print('model_id = %s  model_len = %s' % (model_id, model_len))
 
                     # move address past model id and length
-                    model = ClientModel(self, model_id, addr + 2, model_len)
+                    index = len(self.models.get(model_id, [])) + 1
+                    model = ClientModel(self, model_id, addr + 2, model_len, index)
                     # print('loading model %s at %d' % (model_id, addr + 2))
                     try:
                         model.load()
-- 
2.43.0


From fb6d54b8b719a13fbb1b57e9748d1f4105f8e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 20/59] fix: an unresolvable scale factor raised
 TypeError/AttributeError instead of SunSpecError

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index cafc223..32c5c98 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -765,7 +765,7 @@ class Model(object):
                         if point.sf_point is None:
                             # ### what state should model be left in on exception
                             raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
-                                point.point_type.sf, point.point_type.pid, self.id)
+                                (point.point_type.sf, point.point_type.id, self.id))
 
                 block_addr += block_len
                 block_type = self.model_type.repeating_block
-- 
2.43.0


From af8226abe6e2a897bdd0e02e924e5b4f6929256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 21/59] fix: loading a model with an empty repeating block did
 not terminate

---
 sunspec/core/device.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 32c5c98..ed0466d 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -776,6 +776,8 @@ class Model(object):
                 block_len = int(block_type.len)
                 if end_addr == block_end:
                     break
+                if block_len <= 0:
+                    raise SunSpecError('Invalid repeating block length in model %s' % (self.id))
         else:
             raise SunSpecError('Unknown model type - id: %s' % str(self.id))
 
-- 
2.43.0


From 95044ad3623920d006882481638c7063aedf9f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 22/59] fix: a failed write lost the modifications it did not
 send

---
 sunspec/core/client.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index fd8266b..9f66b9f 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -434,6 +434,7 @@ class ClientModel(device.Model):
         addr = None
         next_addr = None
         data = b''
+        points = []                    # points contained in data
 
         for block in self.blocks:
             for point in block.points_list:
@@ -447,15 +448,24 @@ class ClientModel(device.Model):
                     else:
                         if point_addr != next_addr:
                             block.model.device.write(addr, data)
+                            self._points_written(points)
+                            points = []
                             addr = point_addr
                             data = b''
                     next_addr = point_addr + point_len
                     data += point_data
-                    point.dirty = False
+                    points.append(point)
             if addr is not None:
                 block.model.device.write(addr, data)
+                self._points_written(points)
+                points = []
                 addr = None
 
+    def _points_written(self, points):
+
+        for point in points:
+            point.dirty = False
+
 class ClientBlock(device.Block):
     """A derived class based on :const:`sunspec.core.device.Block`. It adds
     Modbus device access capability to the block base class.
-- 
2.43.0


From f2eac17f0df43efba785b5dd2eaeb2b1d6fd9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 23/59] fix: a modification replaced by a read was still
 written by the next write

---
 sunspec/core/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 9f66b9f..e71bf78 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -418,6 +418,8 @@ class ClientModel(device.Model):
                                     point.value_sf = None
                             else:
                                 raise SunSpecClientError('No data_to function set for {} : {}'.format(pname, point.point_type))
+                            # a modification not written before is replaced by the value read
+                            point.dirty = False
 
             except SunSpecError as e:
                 raise SunSpecClientError(e)
-- 
2.43.0


From bc0a9831bce0f39da7ffc818a413c9e74be9247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 24/59] fix: a value assigned to an unimplemented scaled point
 was not scaled

---
 sunspec/core/client.py | 8 +++-----
 sunspec/core/device.py | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index e71bf78..296c4df 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -410,12 +410,10 @@ class ClientModel(device.Model):
                                 if (type(point.value_base) == bytes and
                                         sys.version_info > (3,)):
                                     point.value_base = str(point.value_base, 'latin-1')
-                                if point.point_type.is_impl(point.value_base):
-                                    if point.sf_point is not None:
-                                        point.value_sf = point.sf_point.value_base
-                                else:
+                                if point.sf_point is not None:
+                                    point.value_sf = point.sf_point.value_base
+                                if not point.point_type.is_impl(point.value_base):
                                     point.value_base = None
-                                    point.value_sf = None
                             else:
                                 raise SunSpecClientError('No data_to function set for {} : {}'.format(pname, point.point_type))
                             # a modification not written before is replaced by the value read
diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index ed0466d..864f623 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -510,7 +510,7 @@ class Point(object):
     # use older property format to support earlier python 2.x versions
     def value_getter(self):
 
-        if self.value_sf:
+        if self.value_sf and self.value_base is not None:
             return self.value_base * math.pow(10, self.value_sf)
         else:
             return self.value_base
-- 
2.43.0


From e46fe3d095f2fd517c8103e6816874d38131bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 25/59] fix: PICS documents with a base address, hex numbers or
 without model length were refused

---
 sunspec/core/device.py | 7 ++++---
 sunspec/core/pics.py   | 7 +++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 864f623..0db0046 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -165,7 +165,7 @@ class Device(object):
                 d = element
             if d.tag != pics.PICS_DEVICE:
                 raise SunSpecError("Unexpected device tag: '%s'" % (d.tag))
-            self.base_addr = d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT)
+            self.base_addr = pics.pics_int(d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT))
             addr = self.base_addr + 2
 
             for m in d.findall('*'):
@@ -178,9 +178,10 @@ class Device(object):
                 if model_id is None:
                     raise SunSpecError('Module id error')
                 model_len = m.attrib.get(pics.PICS_ATTR_LEN)
+                model_id = pics.pics_int(model_id)
                 if model_len is not None:
                     # raise SunSpecError('Module len error in model %d' % (model_id))
-                    model_len = int(model_len)
+                    model_len = pics.pics_int(model_len)
 
                 # move address past model id and length (even though address is not real in the case)
                 model = Model(self, model_id, addr + 2, model_len)
@@ -681,7 +682,7 @@ class Model(object):
         self.index = index
         self.model_type = None
         self.addr = addr               # modbus address of first point in the model
-        self.len = int(mlen)           # register count of the point elements in the model
+        self.len = int(mlen or 0)      # register count of the point elements in the model
         self.points_list = []          # fixed block non-scale factor points list ordered by offset
         self.points = {}               # fixed block non-scale factor points
         self.points_sf = {}            # fixed block scale factor points
diff --git a/sunspec/core/pics.py b/sunspec/core/pics.py
index 33ee8bc..356bdec 100644
--- a/sunspec/core/pics.py
+++ b/sunspec/core/pics.py
@@ -58,6 +58,13 @@ pics_access_types = {
     PICS_ACCESS_RW: suns.SUNS_ACCESS_RW
 }
 
+def pics_int(s):
+    # number in decimal or hex
+    try:
+        return int(s)
+    except ValueError:
+        return int(s, 0)
+
 # map PICS block types to SunSpec block types
 pics_block_types = {
     PICS_TYPE_FIXED: suns.SUNS_BLOCK_FIXED,
-- 
2.43.0


From fd69e1e61909938c5c5e0bc0d5022daaca2c3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 26/59] fix: models loaded from PICS had a string as index, or
 all the index 1

---
 sunspec/core/device.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 0db0046..7f8be9d 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -184,7 +184,8 @@ class Device(object):
                     model_len = pics.pics_int(model_len)
 
                 # move address past model id and length (even though address is not real in the case)
-                model = Model(self, model_id, addr + 2, model_len)
+                index = len(self.models.get(model_id, [])) + 1
+                model = Model(self, model_id, addr + 2, model_len, index)
                 try:
                     model.load()
                 except Exception as e:
@@ -801,7 +802,7 @@ class Model(object):
         """
 
         # update index if present
-        self.index = element.attrib.get(pics.PICS_ATTR_INDEX, self.index)
+        self.index = pics.pics_int(element.attrib.get(pics.PICS_ATTR_INDEX, self.index))
 
         for b in element.findall('*'):
             if b.tag != pics.PICS_BLOCK:
-- 
2.43.0


From 4e17f4542598fd06de8a3fe0c2a5b855dd04cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 27/59] fix: PICS repeating blocks with index 0 or below were
 loaded into other blocks

---
 sunspec/core/device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 7f8be9d..e5694ba 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -821,8 +821,8 @@ class Model(object):
                         for block in self.blocks[1:]:
                             block.from_pics(b)
                 else:
-                    block_index = int(block_index)
-                    if len(self.blocks) < block_index:
+                    block_index = pics.pics_int(block_index)
+                    if block_index < 1 or block_index >= len(self.blocks):
                         raise SunSpecError('Block index out of range: %s' % (str(block_index)))
                     self.blocks[block_index].from_pics(b)
             else:
-- 
2.43.0


From f9742e3bb9c9ef7139af1dd3b7c7fb9720841a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 28/59] fix: points unimplemented in one repeating block kept
 the value of another when loaded from PICS

---
 sunspec/core/device.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index e5694ba..c81085f 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -552,7 +552,9 @@ class Point(object):
         else:
             self.impl = False
 
-        if self.impl and value is not None:
+        if not self.impl:
+            self.value_base = None
+        elif value is not None:
             self.value_base = value
 
     def to_pics(self, parent):
-- 
2.43.0


From 01a3a327ad61a88be1c5a3d381bea591db6b6b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 29/59] fix: map entries without length had a fractional
 register count on Python 3

---
 sunspec/core/modbus/mbmap.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 0a010d3..b3f3d4a 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -140,7 +140,9 @@ class ModbusMap(object):
                             else:
                                 data += c
 
-            mmr = ModbusMapRegs(offset, len(data)/2, data, MBMAP_REGS_ACCESS_RW)
+            if len(data) % 2 != 0:
+                raise ModbusMapError('Odd number of bytes')
+            mmr = ModbusMapRegs(offset, len(data)//2, data, MBMAP_REGS_ACCESS_RW)
             self.regs.append(mmr)
             f.close()
         except Exception as e:
@@ -263,7 +265,7 @@ class ModbusMap(object):
                     if text_len % 4 != 0:
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
-                        rlen = text_len/4
+                        rlen = text_len//4
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
@@ -272,11 +274,11 @@ class ModbusMap(object):
                             data = c
                         else:
                             data += c
+                    if data is None:
+                        data = b''
                     # fill remainder of string with nulls
                     padding_needed = 2 * int(rlen - text_len / 4)
                     if padding_needed > 0:
-                        if data is None:
-                            data = b''
                         data += struct.pack(str(padding_needed) + 's', b'')
                 else:
                     raise ModbusMapError('Unknown type at offset %d' % (offset))
-- 
2.43.0


From 3ea44007c4f6a3dc7d41773769d2c9b319c3260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 30/59] fix: string map entries without length were refused or
 cut

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index b3f3d4a..e98d6d3 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -250,7 +250,7 @@ class ModbusMap(object):
                     rlen = 4
                 elif rtype == MBMAP_REGS_TYPE_STRING:
                     if rlen == 0:
-                        rlen = (len(text) + 3)/4
+                        rlen = (len(text) + 1)//2
 
                     # Python 3 compatibility for byte strings
                     if sys.version_info > (3,):
-- 
2.43.0


From 973d6b8da6ae8f7bf93427167bd39aa2d7101704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 31/59] fix: the base address of a loaded map was a string,
 unequal to the same number

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index e98d6d3..9b2bad0 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -188,7 +188,7 @@ class ModbusMap(object):
             if value is None:
                 raise ModbusMapError('Unsupported function: %s' % (func))
             self.func = value
-            self.base_addr = root.attrib.get(MBMAP_ADDR, 40000)
+            self.base_addr = int(root.attrib.get(MBMAP_ADDR, 40000))
             self.ns = root.attrib.get(MBMAP_NS)
             self.lid = root.attrib.get(MBMAP_LID)
             self.mapid = root.attrib.get(MBMAP_MAPID)
-- 
2.43.0


From 887b6b9bfca9e93f4cc92f98fa5961ce438e41e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 32/59] fix: a malformed register offset raised TypeError
 instead of a map error

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 9b2bad0..c2bf972 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -294,7 +294,7 @@ class ModbusMap(object):
                     last_regs.append(offset, rlen, data, access)
 
         except Exception as e:
-            raise ModbusMapError('Error loading %s (%s) at offset %d - %s' % (filename, pathlist, offset, str(e)))
+            raise ModbusMapError('Error loading %s (%s) at offset %s - %s' % (filename, pathlist, offset, str(e)))
 
     def to_xml(self, parent=None, no_data=False):
 
-- 
2.43.0


From 72e759a4a1884eb231d22fc617ed826156813226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 33/59] fix: maps written as XML lost the access of their
 registers

---
 sunspec/core/modbus/mbmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index c2bf972..5d6bad9 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -316,7 +316,8 @@ class ModbusMap(object):
             element = ET.SubElement(parent, MBMAP_ROOT, attrib=attr)
 
         for regs in self.regs:
-            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count)})
+            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count),
+                                                              MBMAP_REGS_ACCESS: regs.access})
 
             if no_data is False:
                 s = ''
-- 
2.43.0


From 02ac989a4c27659d84a3150bb47e954cbd4728ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 34/59] fix: a map write over several register blocks stored
 wrong data, a refused one part of it

---
 sunspec/core/modbus/mbmap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 5d6bad9..f31be8f 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -419,13 +419,17 @@ class ModbusMap(object):
         """
 
         data_len = len(data)
-        count_remaining = data_len/2
+        count_remaining = data_len//2
 
         if data_len % 2 != 0:
             raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, data_len))
 
         data_offset = 0
         offset = addr - int(self.base_addr)
+
+        # must be able to write all data
+        self.read(addr, count_remaining)
+
         for regs in self.regs:
             if count_remaining > 0:
                 regs_end_offset = regs.offset + regs.count
@@ -439,7 +443,7 @@ class ModbusMap(object):
                     end = int(data_offset + (write_count * 2))
                     regs.write(offset, data[start:end])
                     offset += write_count
-                    data_offset += write_count
+                    data_offset += write_count * 2
                     count_remaining -= write_count
                 else:
                     continue
-- 
2.43.0


From a72ee74d0c508a19bd96dc1b0b451e63646b83a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 35/59] fix: reading an absent register printed the map

---
 sunspec/core/modbus/mbmap.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index f31be8f..e754917 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -401,7 +401,6 @@ class ModbusMap(object):
 
         # must have all requested data for success
         if len(data) != int(count) * 2:
-            print(self)
             raise ModbusMapError('Data read error - addr = %d  data len = %d  count = %d' % (addr, len(data), count))
 
         return data
-- 
2.43.0


From 952ed67c93b8830ee453ddf2d054cf16609e1818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 36/59] fix: model_add swapped the namespace and the index of a
 data record model

---
 sunspec/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index f1d6260..48f7ca0 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -138,7 +138,7 @@ class DeviceData(object):
 
     def model_add(self, model_id=None, index=None, namespace=None):
 
-    	m = ModelData(model_id, namespace, index)
+    	m = ModelData(model_id, index, namespace)
     	self.model_data.append(m)
     	return m
 
-- 
2.43.0


From ef5fc0a54fb9b19123022ea6275df28a4f0b3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 37/59] fix: a loaded data record lost its timestamps when
 written again

---
 sunspec/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index 48f7ca0..8c17b6a 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -157,7 +157,7 @@ class DeviceData(object):
         self.man = element.attrib.get(SDX_DEVICE_MAN)
         self.mod = element.attrib.get(SDX_DEVICE_MOD)
         self.sn = element.attrib.get(SDX_DEVICE_SN)
-        self.time = element.attrib.get(SDX_DEVICE_TIME)
+        self.timestamp = element.attrib.get(SDX_DEVICE_TIME)
         self.cid = element.attrib.get(SDX_DEVICE_CORRELATION_ID)
 
         for m in element.findall('*'):
-- 
2.43.0


From 841f571a6bcfc40a3651a0972bf537e57072a3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 38/59] fix: data records with a model index could not be
 written

---
 sunspec/core/data.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index 8c17b6a..2153ea6 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -244,12 +244,8 @@ class ModelData(object):
 
         attr = {SDX_MODEL_ID: str(self.model_id)}
 
-        if self.index is None and sys.version_info > (3,):
-            self.index = -233
-        if self.index > 1:
-            attr[SDX_MODEL_INDEX] = self.index
-        if self.index is -233 and sys.version_info > (3,):
-            self.index = None
+        if self.index is not None and self.index > 1:
+            attr[SDX_MODEL_INDEX] = str(self.index)
         if self.namespace:
             attr[SDX_MODEL_NAMESPACE] = self.namespace
 
-- 
2.43.0


From a5352c5524bec52157496c379fe3d3cc37881745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 39/59] fix: point index 0 was left out of data records

---
 sunspec/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index 2153ea6..91e12ac 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -286,7 +286,7 @@ class PointData(object):
 
         attr = {SDX_POINT_ID: str(self.point_id)}
 
-        if self.index:
+        if self.index is not None:
             attr[SDX_POINT_INDEX] = str(self.index)
         if self.sf is not None:
             attr[SDX_POINT_SF] = str(self.sf)
-- 
2.43.0


From 7a3c79d657e76424be3df9d84366c4a56166c36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 40/59] fix: path list entries after a zip file were looked up
 in the zip file

---
 sunspec/core/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 334bde7..358fc3b 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -210,6 +210,7 @@ class PathList(object):
         # traverse path list until first instance of file found
         for p in self.path:
             file_path = ''
+            zip_file_path = ''
             element_list = p.split(os.sep)
             sep = os.sep
 
-- 
2.43.0


From ff02d449ac0e7bc4f63bffdaf44d1312bf6d3f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 41/59] fix: zip files and their directories were not searched
 when their path ended in a separator

---
 sunspec/core/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 358fc3b..373d365 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -216,7 +216,10 @@ class PathList(object):
 
             for e in element_list:
                 if e == '':
-                    file_path += sep
+                    # only a leading separator matters
+                    if not file_path and not zip_file_path:
+                        file_path += sep
+                    continue
                 elif file_path and file_path != sep:
                     file_path += sep
                 file_path += e
-- 
2.43.0


From 68be801b3b817b3464c33c3e235ccad8364b748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 42/59] fix: assigning an item of a scripting device raised
 AttributeError

---
 sunspec/core/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 296c4df..3523147 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -888,7 +888,7 @@ class SunSpecClientDevice(object):
         return self.__dict__.get(key, None)
 
     def __setitem__(self, key, item):
-        self.__dict__.set(key, item)
+        self.__dict__[key] = item
 
     def __str__(self):
 
-- 
2.43.0


From 5c3d28205cb3ae5d6af190669ead40dcf1bce39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 43/59] fix: suns crashed on models without a definition

---
 scripts/suns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 146e403..329c687 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -88,7 +88,7 @@ if __name__ == "__main__":
         sd.read()
 
         for model in sd.device.models_list:
-            if model.model_type.label:
+            if model.model_type is not None and model.model_type.label:
                 label = '%s (%s)' % (model.model_type.label, str(model.id))
             else:
                 label = '(%s)' % (str(model.id))
-- 
2.43.0


From 97c527cdfe81e62a2f11a64210b7adab7511405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 44/59] fix: suns crashed when reading the device failed

---
 scripts/suns.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 329c687..35edae3 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -85,7 +85,11 @@ if __name__ == "__main__":
         print( '\nTimestamp: %s' % (time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime())))
 
         # read all models in the device
-        sd.read()
+        try:
+            sd.read()
+        except client.SunSpecClientError as e:
+            print('Error: %s' % (e))
+            sys.exit(1)
 
         for model in sd.device.models_list:
             if model.model_type is not None and model.model_type.label:
-- 
2.43.0


From 8fd79849aff088d9e9a1aea014711b2e4b7f7bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 45/59] fix: comparison of equal points with symbols reported a
 difference, and attributes absent in one device none

---
 sunspec/core/device.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index c81085f..6bde2dc 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1435,13 +1435,15 @@ class PointType(object):
         if point_type is None:
             return "PointType '%s' is None" % (str(self.id))
         if len(self.__dict__) != len(point_type.__dict__):
-            return "PointType '%s' attribute count not equal': %s  %s" % (str(self.id))
+            return "PointType '%s' attribute count not equal" % (str(self.id))
         for k, v in self.__dict__.items():
             if k != 'block_type':
                 value = point_type.__dict__.get(k)
-                if v is not None and value is not None:
-                    if value is None or v != value:
-                        return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
+                if k == 'symbols':
+                    v = [s.__dict__ for s in v]
+                    value = [s.__dict__ for s in value]
+                if v != value:
+                    return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
 
         return False
 
-- 
2.43.0


From d4ee93c87a6e8e271bf459b481f7c67432c3b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 46/59] fix: comparison ignored the names of models and blocks

---
 sunspec/core/device.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 6bde2dc..ced7a5f 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1087,6 +1087,8 @@ class ModelType(object):
             return "ModelType attribute 'id' not equal: {}  {}".format(str(self.id), str(model_type.id))
         if self.len != model_type.len:
             return "ModelType attribute 'len' not equal: {}  {}".format(str(self.len), str(model_type.len))
+        if self.name != model_type.name:
+            return "ModelType attribute 'name' not equal: {}  {}".format(str(self.name), str(model_type.name))
         if self.label != model_type.label:
             return "ModelType attribute 'label' not equal: {}  {}".format(str(self.label), str(model_type.label))
         if self.description != model_type.description:
@@ -1209,6 +1211,8 @@ class BlockType(object):
             return "BlockType attribute 'type' not equal: {}  {}".format(str(self.type), str(block_type.type))
         if self.len != block_type.len:
             return "BlockType attribute 'len' not equal: {}  {}".format(str(self.len), str(block_type.len))
+        if self.name != block_type.name:
+            return "BlockType attribute 'name' not equal: {}  {}".format(str(self.name), str(block_type.name))
         if len(self.points) != len(block_type.points):
             return "BlockType '%s' point count not equal" % (str(self.type))
         for k, v in self.points.items():
-- 
2.43.0


From 2031ba58e8611ee148c63cbaa62e3d037184c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 47/59] fix: comparison of devices with unknown models raised
 AttributeError

---
 sunspec/core/device.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index ced7a5f..1f3f26c 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -868,8 +868,15 @@ class Model(object):
                 Model to compare.
         """
 
+        if self.id != model.id:
+            return 'model {} not equal - model id not equal: {}'.format(self.id, model.id)
         if len(self.blocks) != len(model.blocks):
-            return 'model %s not equal - block counts: %d  %d' % (self.model_type.id, len(self.blocks), len(model.blocks))
+            return 'model %s not equal - block counts: %d  %d' % (self.id, len(self.blocks), len(model.blocks))
+        # model types may be unknown
+        if self.model_type is None or model.model_type is None:
+            if self.model_type is not model.model_type:
+                return 'model {} not equal - model type not known'.format(self.id)
+            return False
         s = self.model_type.not_equal(model.model_type)
         if s:
             return 'model {} not equal - model id not equal: {}'.format(self.model_type.id, s)
-- 
2.43.0


From 377076f1beb270093a3112e37cfd0ccdf4462f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 48/59] fix: report a failure to close a client device as a
 SunSpec client error

---
 sunspec/core/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 3523147..4cc669e 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -173,7 +173,10 @@ class ClientDevice(device.Device):
     def close(self):
 
         if self.modbus_device is not None:
-            self.modbus_device.close()
+            try:
+                self.modbus_device.close()
+            except modbus.ModbusClientError as e:
+                raise SunSpecClientError('Modbus close error: %s' % str(e))
 
     def read(self, addr, count):
         """Read Modbus device registers.
-- 
2.43.0


From f033ad8b20bf88f703270d96f78ef4190c9349eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 49/59] fix: points of the same id in both blocks of a
 definition shared their symbols

---
 sunspec/core/device.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 1f3f26c..8b9d2a3 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1408,10 +1408,7 @@ class PointType(object):
                 self.notes = e.text
             elif e.tag == smdx.SMDX_SYMBOL:
                 sid = e.attrib.get(smdx.SMDX_ATTR_ID)
-                symbol = self.block_type.model_type.symbol_get(
-                    sid=sid,
-                    point_id=self.id,
-                )
+                symbol = self.symbol_get(sid)
                 if symbol is None:
                     symbol = Symbol()
                     symbol.from_smdx(e, strings)
@@ -1419,7 +1416,6 @@ class PointType(object):
                         symbol=symbol,
                         point_id=self.id,
                     )
-                if self.symbol_get(sid) is None:
                     self.symbols.append(symbol)
                 symbol.from_smdx(e, strings)
 
-- 
2.43.0


From 25ed3c55e14a17ab4bb97fa21fcd341d80de98b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 50/59] fix: damaged definitions raised ParseError, or loaded
 without a model

---
 sunspec/core/device.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 8b9d2a3..79cdc0e 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -931,10 +931,9 @@ def model_type_get(model_id):
                     raise SunSpecError('Error loading model {} at {}: {}'.format(model_id, filename, str(e)))
 
         if smdx_data:
-            root = ET.fromstring(smdx_data)
-
             # load model type
             try:
+                root = ET.fromstring(smdx_data)
                 model_type = ModelType()
                 model_type.from_smdx(root)
                 model_types[model_type.id] = model_type
@@ -1043,6 +1042,9 @@ class ModelType(object):
             else:
                 raise SunSpecError('Unexpected smdx element: %s' % m.tag)
 
+        if self.len is None:
+            raise SunSpecError("No '{}' element found in '{}' element".format(smdx.SMDX_MODEL, element.tag))
+
         for s in element.findall(smdx.SMDX_STRINGS):
             if s.attrib.get(smdx.SMDX_ATTR_ID) == str(self.id):
                 m = s.find(smdx.SMDX_MODEL)
-- 
2.43.0


From d07b20517353d1e8a2e490d753d4c9be9cf870dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 51/59] fix: do not change the points of existing model objects
 when another device is created

---
 sunspec/core/client.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 4cc669e..6320530 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -707,11 +707,10 @@ def model_class_get(model_id):
     def block_class_init(self, block, name):
         SunSpecClientBlockBase.__init__(self, block, name)
 
+    # the objects of an earlier device keep the class made from the definition they were created with
     class_name = 'Model' + str(model_id)
-    class_ = globals().get(class_name)
-    if class_ is None:
-        class_ = type(class_name, (SunSpecClientModelBase,), {'__init__' : class_init})
-        globals()[class_name] = class_
+    class_ = type(class_name, (SunSpecClientModelBase,), {'__init__' : class_init})
+    globals()[class_name] = class_
 
     setattr(class_, 'points', [])
     model_type = None
-- 
2.43.0


From 85f07ade0cd4988c9746cde5d8a420886890d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 52/59] fix: threads creating scripting devices with the same
 models used each other's unfinished block classes

---
 sunspec/core/client.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 6320530..06b5a05 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -580,15 +580,12 @@ class SunSpecClientModelBase(object):
         self.repeating_name = 'repeating'
 
         if len(model.blocks) > 1:
-            block_class_name = self.__class__.__name__ + 'Repeating'
             for block in model.blocks[1:]:
                 # set repeating block name and attribute if present
                 if block.block_type.name != self.repeating_name:
                     self.repeating_name = block.block_type.name
                     setattr(self, self.repeating_name, self.repeating)
-                # block_class_ = globals().get(block_class_name)
-                block_class = globals().get(block_class_name)
-                c = block_class(block, self.repeating_name)
+                c = self._repeating_class(block, self.repeating_name)
                 self.repeating.append(c)
 
     def _get_property(self, name):
@@ -730,6 +727,8 @@ def model_class_get(model_id):
             block_class_name = class_name + 'Repeating'
             block_class = type(block_class_name, (SunSpecClientBlockBase,), {'__init__' : block_class_init})
             globals()[block_class_name] = block_class
+            # another thread may replace the global one before the blocks are created
+            setattr(class_, '_repeating_class', block_class)
 
             setattr(block_class, 'points', [])
             for point_type in block_type.points_list:
-- 
2.43.0


From dfee1a4258ac80dfc4cad544cd0d1f8f5da7a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 53/59] fix: printing a scripting device shows every instance
 of a model that occurs several times

---
 sunspec/core/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 06b5a05..51a649e 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -894,8 +894,13 @@ class SunSpecClientDevice(object):
     def __str__(self):
 
         s = ''
-        for model in self.models:
-            s += str(self[model])
+        for name in self.models:
+            models = self[name]
+            # multiple instances of a model are in a list that starts at index 1
+            if type(models) is not list:
+                models = [None, models]
+            for model in models[1:]:
+                s += str(model)
 
         return s
 
-- 
2.43.0


From e0fee965ecdeede2b8d93cf6ac0763fac51c6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 54/59] fix: read XML documents as bytes, so that their
 declared encoding counts wherever they are found

---
 sunspec/core/device.py       | 4 ++--
 sunspec/core/modbus/mbmap.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 79cdc0e..6915759 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -150,7 +150,7 @@ class Device(object):
 
                 # try local directory
                 if not pics_data:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     pics_data = f.read()
                     f.close()
 
@@ -924,7 +924,7 @@ def model_type_get(model_id):
 
             if os.path.exists(filename):
                 try:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     smdx_data = f.read()
                     f.close()
                 except Exception as e:
diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index e754917..072af02 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -173,7 +173,7 @@ class ModbusMap(object):
                 if pathlist is not None:
                     map_data = pathlist.read(filename)
                 else:
-                    f = open(filename, 'r')
+                    f = open(filename, 'rb')
                     map_data = f.read()
                     f.close()
 
-- 
2.43.0


From 2abe0f4aaeb3cf7843e0204c8caf3e9fda1f8c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 55/59] fix: load a hex dump whatever encoding its comments are
 in

---
 sunspec/core/modbus/mbmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 072af02..cdebaa6 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -126,10 +126,10 @@ class ModbusMap(object):
         data = None
         offset = 0
         try:
-            f = open(name, 'r')
-            for line in f:
-                if line[0] != '#':
-                    data_list = line.rstrip('\r\n').split()
+            f = open(name, 'rb')
+            for line in f.read().splitlines():
+                if not line.startswith(b'#'):
+                    data_list = line.split()
                     data_len = len(data_list)/2
                     if data_len > 0:
                         # print(offset, data_list)
-- 
2.43.0


From 6b13ca876c187e5721932d3cda0718034a739609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 56/59] fix: a model that is loaded again starts over instead
 of adding its blocks a second time

---
 sunspec/core/device.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 6915759..bad9ca4 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -706,8 +706,15 @@ class Model(object):
                 Point class to use to create point instances.
         """
 
+        # start over if the model was loaded before
+        self.points_list = []
+        self.points = {}
+        self.points_sf = {}
+        self.blocks = []
+        self.load_error = None
+
         last_read_addr = self.addr
-        self.read_blocks.append(last_read_addr)
+        self.read_blocks = [last_read_addr]
 
         self.model_type = model_type_get(self.id)
 
-- 
2.43.0


From 1a06e42b964fbb1ed953cad6b61975b72cabb3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 57/59] fix: an interrupted operation leaves no connection or
 port open and no reply to be taken for a later one

KeyboardInterrupt and the like are not derived from Exception: they left the
socket of a connection attempt or of a delayed scan open, kept an explicit
connection whose next reply answers the interrupted request, and left the port
of a scripting device that could not be constructed open.
---
 sunspec/core/client.py        | 6 +++---
 sunspec/core/modbus/client.py | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 51a649e..917a807 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -243,10 +243,10 @@ class ClientDevice(device.Device):
                 raise SunSpecClientError('Modbus connection error: %s' % str(e))
             connect = True
 
-            if delay is not None:
+        try:
+            if connect and delay is not None:
                 time.sleep(delay)
 
-        try:
             self._scan_models(progress, delay)
         finally:
             if connect:
@@ -866,7 +866,7 @@ class SunSpecClientDevice(object):
                 else:
                     setattr(self, name, model_class)
                     self.models.append(name)
-        except Exception as e:
+        except BaseException:
             if self.device is not None:
                 self.device.close()
             raise
diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 72d3d5b..45c81f6 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -759,9 +759,11 @@ class ModbusClientDeviceTCP(object):
                 self.socket = context.wrap_socket(self.socket, server_side=False, server_hostname=self.ipaddr)
 
             self.socket.connect((self.ipaddr, self.ipport))
-        except Exception as e:
+        except BaseException as e:
             # do not keep a socket that is not connected
             self.disconnect()
+            if not isinstance(e, Exception):
+                raise
             raise ModbusClientError('Connection error: %s' % str(e))
 
     def disconnect(self):
@@ -888,7 +890,7 @@ class ModbusClientDeviceTCP(object):
                     break
         except ModbusClientException:
             raise
-        except ModbusClientError:
+        except BaseException:
             # the response may still arrive, do not take it for the response to a later request
             self.disconnect()
             raise
@@ -1018,7 +1020,7 @@ class ModbusClientDeviceTCP(object):
                 write_offset += write_count
         except ModbusClientException:
             raise
-        except ModbusClientError:
+        except BaseException:
             # the response may still arrive, do not take it for the response to a later request
             self.disconnect()
             raise
-- 
2.43.0


From de59615dcd8a84f1bf8020a046cdc4491616af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 58/59] fix: do not split a point over two write requests

A run of adjacent modified points longer than a request was cut at 123
registers, which may be inside a point: the device then holds half of the old
and half of the new value, or refuses the request.
---
 sunspec/core/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 917a807..1c6cb32 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -449,7 +449,8 @@ class ClientModel(device.Model):
                         addr = point_addr
                         data = b''
                     else:
-                        if point_addr != next_addr:
+                        # do not let a point be split over two requests
+                        if point_addr != next_addr or point_addr + point_len - addr > modbus.WRITE_COUNT_MAX:
                             block.model.device.write(addr, data)
                             self._points_written(points)
                             points = []
-- 
2.43.0


From b99688f4ed1062a691736c28bfdabbc0e18731df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:12 +0000
Subject: [PATCH 59/59] fix: drop a TCP socket whose close failed instead of
 using it for the next request

---
 sunspec/core/modbus/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 45c81f6..b2b599e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -773,9 +773,10 @@ class ModbusClientDeviceTCP(object):
         try:
             if self.socket:
                 self.socket.close()
-            self.socket = None
         except Exception:
             pass
+        # a socket that failed to close is not usable any more
+        self.socket = None
 
     def _read(self, addr, count, op=FUNC_READ_HOLDING):
 
-- 
2.43.0

