From c0a252d7f6f6520b8b7dafc5833c3aba03b80af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 01/55] fix: a full request queue raised NameError instead of
 AsiRequestQueueFullError

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 452c196..069333c 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -3,7 +3,7 @@ __import__("pkg_resources").declare_namespace(__name__)
 import os
 from infi.instruct import *
 from infi.pyutils.decorators import wraps
-from .errors import AsiException, AsiCheckConditionError, AsiInternalError
+from .errors import AsiException, AsiCheckConditionError, AsiInternalError, AsiRequestQueueFullError
 from .sense import *
 
 try:
-- 
2.43.0


From e0c3a9bc5a09d5a82b6bcef83085500238f6cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 02/55] fix: do not give a new command the packet index of one
 still pending

---
 src/infi/asi/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 069333c..3767900 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -116,6 +116,9 @@ class CommandExecuterBase(CommandExecuter):
     def _next_packet_index(self):
         if len(self.pending_packets) >= self.max_queue_size:
             raise AsiRequestQueueFullError()
+        while self.packet_index in self.pending_packets:
+            # commands may complete out of order, so the next index may still be in use
+            self.packet_index = (self.packet_index + 1) % self.max_queue_size
         result = self.packet_index
         self.packet_index = (self.packet_index + 1) % self.max_queue_size
         return result
-- 
2.43.0


From 411e0af8eabb2fb7f3a73a200c26e95f4151c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 03/55] fix: the completion of a command sent without a
 callback raised TypeError

---
 src/infi/asi/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 3767900..2ea2931 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -133,7 +133,9 @@ class CommandExecuterBase(CommandExecuter):
         if request is None:
             raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
 
-        if isinstance(result, Exception):
+        if callback is None:
+            pass
+        elif isinstance(result, Exception):
             callback(None, result)
         else:
             callback(result, None)
-- 
2.43.0


From 09fd1cf836820494b6ce6cdd2df99572a6372d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 04/55] fix: report a good response of an unknown packet as
 AsiInternalError on linux

---
 src/infi/asi/linux.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index bb5b4f0..b18fe86 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -264,7 +264,9 @@ class LinuxCommandExecuter(CommandExecuterBase):
             return (error, packet_id)
 
         data = None
-        if request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
+        if request_sgio is None:
+            pass  # unknown packet_id, reported by our caller
+        elif request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
             data = request_sgio.data_buffer.raw
 
         return (data, packet_id)
-- 
2.43.0


From 649fa21fd69dc4175d879ffc959304fcb19113a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 05/55] fix: LinuxIoctlCommandExecuter never saw the status of
 a command

---
 src/infi/asi/linux.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index b18fe86..8b94871 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -286,8 +286,9 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
 
     def _os_send(self, os_data):
         from fcntl import ioctl
+        # IMPORTANT: the buffer must be mutable, otherwise the ioctl can't return the status fields in it
+        gevent_friendly(ioctl)(self.io.fd, SG_IO, os_data.source_buffer)
         self.buffer = os_data.to_raw()
-        gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
         yield len(self.buffer)
 
     def _os_receive(self):
-- 
2.43.0


From 9bcf61aeeed832969705df93c10f1c2320f3b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 06/55] fix: look for a reservation conflict in the SCSI status

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 8b94871..4bc2ea9 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -240,7 +240,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
         if response_sgio.status != 0:
             if response_sgio.host_status == 0x07:
                 return (AsiRequestQueueFullError(), packet_id)
-            if response_sgio.host_status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
+            if response_sgio.status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
                 return (AsiReservationConflictError(), packet_id)
             error = AsiSCSIError(("SCSI response status is not zero: %s" +
                                   "(driver status: %s, host status: %s)") %
-- 
2.43.0


From 9b30b8ecb49368493d66fcf85766c877169cd449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 07/55] fix: keep the responses of all commands sent through
 the ioctl executers, not only the last

---
 src/infi/asi/aix.py     | 17 ++++++++++-------
 src/infi/asi/linux.py   |  8 +++++---
 src/infi/asi/solaris.py | 21 ++++++++++++---------
 3 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index e0d105b..8dd5e56 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -365,9 +365,12 @@ class AixCommandExecuter(CommandExecuterBase):
         super(AixCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.responses = []
 
     def _os_prepare_to_send(self, command, packet_index):
-        return sc_passthru.create(packet_index, self.io, command, self.timeout)
+        scsicmd = sc_passthru.create(packet_index, self.io, command, self.timeout)
+        scsicmd.packet_id = packet_index
+        return scsicmd
 
     def _os_send(self, os_data):
         try:
@@ -380,13 +383,13 @@ class AixCommandExecuter(CommandExecuterBase):
             elif os_data.status_validity == 0:
                 # no valid status to parse in _handle_raw_response
                 raise AsiOSError("ioctl failed, no valid status")
-        self.buffer = os_data.to_raw()
-        yield len(self.buffer)
+        raw = os_data.to_raw()
+        self.responses.append((raw, os_data.packet_id))
+        yield len(raw)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id):
         response_cmd = sc_passthru.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
 
         if response_cmd.status_validity != 0:
@@ -407,5 +410,5 @@ class AixCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = self.responses.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 4bc2ea9..ce94c81 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -283,14 +283,16 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
         super(LinuxIoctlCommandExecuter, self).__init__(io, max_queue_size, timeout)
         self.io = io
         self.timeout = timeout
+        self.responses = []
 
     def _os_send(self, os_data):
         from fcntl import ioctl
         # IMPORTANT: the buffer must be mutable, otherwise the ioctl can't return the status fields in it
         gevent_friendly(ioctl)(self.io.fd, SG_IO, os_data.source_buffer)
-        self.buffer = os_data.to_raw()
-        yield len(self.buffer)
+        raw = os_data.to_raw()
+        self.responses.append(raw)
+        yield len(raw)
 
     def _os_receive(self):
-        raw = yield self.buffer
+        raw = yield self.responses.pop(0)
         yield self._handle_raw_response(raw)
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index b24f09d..ab6ca62 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -189,25 +189,28 @@ class SolarisCommandExecuter(CommandExecuterBase):
         super(SolarisCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.responses = []
 
     def _os_prepare_to_send(self, command, packet_index):
-        return SCSICMD.create(packet_index, command, self.timeout)
+        scsicmd = SCSICMD.create(packet_index, command, self.timeout)
+        scsicmd.packet_id = packet_index
+        return scsicmd
 
     def _os_send(self, os_data):
         from fcntl import ioctl
-        self.buffer = os_data.to_raw()
+        raw = os_data.to_raw()
         # IMPORTANT: we must pass a ctypes string for the ioctl, and not just a
         # string, otherwise the ioctl won't be able to modify relevant status
         # values in the buffer (e.g. uscsi_status):
-        buffer_ctypes_string = create_string_buffer(self.buffer)
+        buffer_ctypes_string = create_string_buffer(raw)
         gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
-        self.buffer = buffer_ctypes_string.raw
-        yield len(self.buffer)
+        raw = buffer_ctypes_string.raw
+        self.responses.append((raw, os_data.packet_id))
+        yield len(raw)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id):
         response_cmd = SCSICMD.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
         response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
@@ -232,5 +235,5 @@ class SolarisCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = self.responses.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
-- 
2.43.0


From f94225f81199454fdf2e4219e368f5d87573a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 08/55] fix: a failing ioctl went unnoticed on AIX when called
 through libc

---
 src/infi/asi/aix.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 8dd5e56..42f0012 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -341,6 +341,14 @@ class sc_passthru(Structure):
     def sizeof(cls):
         return sizeof(cls)
 
+def raise_on_ioctl_failure(result, func, args):
+    # raise what fcntl.ioctl does
+    if result == -1:
+        import ctypes, os
+        errno = ctypes.get_errno()
+        raise IOError(errno, os.strerror(errno))
+    return result
+
 def get_ioctl_function():
     # fcntl.ioctl doesn't support arguments above 32-bit, but we pass
     # a pointer to ioctl which, in 64-bit mode, may be a 64-bit value -
@@ -349,7 +357,7 @@ def get_ioctl_function():
     try:
         # this will only work on 64-bit Python and only
         # on Python >= 3.7 (bpo-26439)
-        libc = ctypes.CDLL("libc.a(shr_64.o)")
+        libc = ctypes.CDLL("libc.a(shr_64.o)", use_errno=True)
     except OSError:  # Could not load module
         # use fcntl
         import fcntl
@@ -358,6 +366,7 @@ def get_ioctl_function():
         ioctl = libc.ioctl
         ioctl.restype = ctypes.c_int
         ioctl.argtypes = (ctypes.c_int, ctypes.c_int, ctypes.c_void_p)
+        ioctl.errcheck = raise_on_ioctl_failure
         return ioctl
 
 class AixCommandExecuter(CommandExecuterBase):
-- 
2.43.0


From d796c53b1097426a2045a6bd6f22e9a7bcc81cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 09/55] fix: the AIX status mask turned TASK SET FULL into BUSY
 and TASK ABORTED into GOOD

---
 src/infi/asi/aix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 42f0012..5421694 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -193,7 +193,7 @@ SCSI_VERSION_4 = 0x04
 SC_QUIESCE_IO =  0x0          # Quiesce device before issuing
 SC_MIX_IO =      0x1          # Do not quiesce device before
 
-SCSI_STATUS_MASK = 0x1e  # mask for useful bits
+SCSI_STATUS_MASK = 0x7e  # mask for useful bits, SAM-3 uses up to 0x40 (TASK ABORTED)
 
 ADAPTER_STATUS_CODES = dict(
      SCSI_HOST_IO_BUS_ERR =      0x01,  # indicates a Host I/O Bus error
-- 
2.43.0


From 13c923c8d7435c8c84567450ba5cca8ba2a1fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 10/55] fix: uscsi_reason is the high byte on solaris

---
 src/infi/asi/solaris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index ab6ca62..9b3f526 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -213,7 +213,7 @@ class SolarisCommandExecuter(CommandExecuterBase):
 
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
-        response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
+        response_reason_code = (response_cmd.uscsi_status >> 8) & 0xFF
 
         if response_status_code & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']:
             logger.debug("response_cmd.status = 0x{:x}".format(response_cmd.uscsi_status))
-- 
2.43.0


From 6d8165adb81103bafcc9d893a75654f129413569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 11/55] fix: on solaris, EIO with a SCSI status hid the check
 condition

---
 src/infi/asi/solaris.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index 9b3f526..73a6541 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -203,7 +203,12 @@ class SolarisCommandExecuter(CommandExecuterBase):
         # string, otherwise the ioctl won't be able to modify relevant status
         # values in the buffer (e.g. uscsi_status):
         buffer_ctypes_string = create_string_buffer(raw)
-        gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
+        try:
+            gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
+        except IOError:
+            # EIO is also how a command that ended with a failing SCSI status is reported
+            if SCSICMD.from_string(buffer_ctypes_string.raw).uscsi_status & 0xFF == 0:
+                raise
         raw = buffer_ctypes_string.raw
         self.responses.append((raw, os_data.packet_id))
         yield len(raw)
-- 
2.43.0


From e7111983426752132d00e505aadb40ed7aaa318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 12/55] fix: malformed sense data must not replace the check
 condition error

---
 src/infi/asi/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 2ea2931..cf2fe24 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -158,7 +158,10 @@ class CommandExecuterBase(CommandExecuter):
         raise NotImplementedError()
 
     def _check_condition(self, buf):
-        sense = get_sense_object_from_buffer(buf)
+        try:
+            sense = get_sense_object_from_buffer(buf)
+        except Exception:
+            sense = None    # malformed sense data; the error still carries the raw bytes
         return AsiCheckConditionError(buf, sense)
 
 # TODO: maybe add a ReactorCommandExecuter that also adds a "register_response_listener()" that automatically reads
-- 
2.43.0


From 148c14c49309d3fa816e1dd988c790ad7e35428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 13/55] fix: waiting for a response depended on the wall clock
 and gave up on one already available

---
 src/infi/asi/unix.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/unix.py b/src/infi/asi/unix.py
index 819cd25..03c5cd7 100644
--- a/src/infi/asi/unix.py
+++ b/src/infi/asi/unix.py
@@ -13,13 +13,17 @@ class UnixFile(OSFile):
         self._read_timeout = read_timeout
 
     def read(self, size):
-        start_time = time.time()
+        get_time = getattr(time, "monotonic", time.time)   # the wall clock may jump
+        start_time = get_time()
+        expired = False
 
         # A time-out value of zero specifies a poll and never blocks:
         while not select.select([self.fd], [], [], 0)[0]:
-            time.sleep(0.01)
-            if time.time() > start_time + self._read_timeout:
+            if expired:
                 raise IOError("Timeout while waiting for file descriptor to become readable")
+            time.sleep(0.01)
+            # we may have been suspended meanwhile, so check the file descriptor once more even if the time is over
+            expired = get_time() > start_time + self._read_timeout
 
         return os.read(self.fd, size)
 
-- 
2.43.0


From 3978ed4b1e3330d10dc3cb5023b7af1866a263ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 14/55] fix: close the device handle when creating the executer
 fails

---
 src/infi/asi/executers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/executers.py b/src/infi/asi/executers.py
index 00179b9..072bf29 100644
--- a/src/infi/asi/executers.py
+++ b/src/infi/asi/executers.py
@@ -10,8 +10,8 @@ SG_TIMEOUT_IN_MS = SG_TIMEOUT_IN_SEC * MS
 @contextmanager
 def windows(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle)
     try:
+        executer = create_platform_command_executer(handle)
         yield executer
     finally:
         handle.close()
@@ -22,8 +22,8 @@ def linux_dm(device):
     from infi.asi.linux import LinuxIoctlCommandExecuter
 
     handle = create_os_file(device)
-    executer = LinuxIoctlCommandExecuter(handle)
     try:
+        executer = LinuxIoctlCommandExecuter(handle)
         yield executer
     finally:
         handle.close()
@@ -32,8 +32,8 @@ def linux_dm(device):
 @contextmanager
 def linux_sg(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle, timeout=SG_TIMEOUT_IN_MS)
     try:
+        executer = create_platform_command_executer(handle, timeout=SG_TIMEOUT_IN_MS)
         yield executer
     finally:
         handle.close()
@@ -42,8 +42,8 @@ def linux_sg(device):
 @contextmanager
 def solaris(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle)
     try:
+        executer = create_platform_command_executer(handle)
         yield executer
     finally:
         handle.close()
@@ -52,8 +52,8 @@ def solaris(device):
 @contextmanager
 def aix(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle)
     try:
+        executer = create_platform_command_executer(handle)
         yield executer
     finally:
         handle.close()
-- 
2.43.0


From c0f9592f4fbf0efd0d9965a26fe2b7fd51775aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 15/55] fix: a command interrupted after its submission stays
 pending until it completes

---
 src/infi/asi/__init__.py |  7 ++++++-
 src/infi/asi/linux.py    | 11 ++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index cf2fe24..198fc2c 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -106,7 +106,8 @@ class CommandExecuterBase(CommandExecuter):
         try:
             yield self._os_send(os_data)
         except:
-            del self.pending_packets[packet_index]
+            if not self._os_is_in_flight(os_data):
+                del self.pending_packets[packet_index]
             raise
 
     def wait(self):
@@ -153,6 +154,10 @@ class CommandExecuterBase(CommandExecuter):
         """Sends a packet prepared by _os_prepare_to_send()"""
         raise NotImplementedError()
 
+    def _os_is_in_flight(self, os_data):
+        """Returns True if the OS still works on a packet although _os_send() raised"""
+        return False
+
     def _os_receive(self):
         """Returns the raw packet or an exception and packet_id as a pair: (packet, packet_id)"""
         raise NotImplementedError()
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index ce94c81..efd2b1b 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -144,6 +144,7 @@ class SGIO(Structure):
     def __init__(self, *args, **kwargs):
         super(SGIO, self).__init__(*args, **kwargs)
         self.source_buffer = None
+        self.in_flight = False
 
     def init_sense_buffer(self):
         self.sense_buffer = create_string_buffer(SENSE_SIZE)
@@ -222,8 +223,16 @@ class LinuxCommandExecuter(CommandExecuterBase):
     def _os_prepare_to_send(self, command, packet_index):
         return SGIO.create(packet_index, command, self.timeout)
 
+    def _write_packet(self, os_data):
+        result = self.io.write(os_data.to_raw())
+        os_data.in_flight = True
+        return result
+
     def _os_send(self, os_data):
-        yield gevent_friendly(self.io.write)(os_data.to_raw())
+        yield gevent_friendly(self._write_packet)(os_data)
+
+    def _os_is_in_flight(self, os_data):
+        return os_data.in_flight
 
     def _handle_raw_response(self, raw):
         response_sgio = SGIO.from_string(raw)
-- 
2.43.0


From 0f3a50708a831bcb689920fb55233507558e9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 16/55] fix: a response read just before an interruption was
 lost

---
 src/infi/asi/linux.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index efd2b1b..5f8d1fc 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -219,6 +219,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
         super(LinuxCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.unhandled_responses = []
 
     def _os_prepare_to_send(self, command, packet_index):
         return SGIO.create(packet_index, command, self.timeout)
@@ -280,8 +281,20 @@ class LinuxCommandExecuter(CommandExecuterBase):
 
         return (data, packet_id)
 
+    def _read_response(self):
+        if self.unhandled_responses:
+            return self.unhandled_responses.pop(0)
+        responses = []
+        try:
+            gevent_friendly(lambda: responses.append(self.io.read(SGIO.sizeof())))()
+        except:
+            # the OS will not return this response again, so keep it for the next time
+            self.unhandled_responses.extend(responses)
+            raise
+        return responses[0]
+
     def _os_receive(self):
-        raw = yield gevent_friendly(self.io.read)(SGIO.sizeof())
+        raw = yield self._read_response()
         yield self._handle_raw_response(raw)
 
 SG_IO = 0x2285
-- 
2.43.0


From b3c37cdfc6d3d9f40f495220fa1463d1ca1609c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 17/55] fix: coroutines: handled exceptions reappeared, I/O
 errors skipped handlers, stale results

---
 src/infi/asi/coroutines/sync_adapter.py | 41 +++++++++++++++++--------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 689b105..055dc5e 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -8,6 +8,7 @@ class Coroutine(object):
     def __init__(self, generator):
         self.stack = [ generator ]
         self.args = None
+        self.throwing = False    # args is an exception to throw into the generator
         self.tb = None
         self.result = None
         self.done = False
@@ -15,28 +16,35 @@ class Coroutine(object):
     def _handle_async_io_token(self):
         raise NotImplementedError()
 
+    def _throw_current_exception(self):
+        """ the exception being handled is thrown into the generator in the next step """
+        _, self.args, self.tb = sys.exc_info()
+        self.throwing = True
+
     def _next_step(self):
         """ invokes next generator in stack. returns False if execution should stop """
         try:
-            if isinstance(self.args, BaseException):
-                self.result = self.stack[-1].throw(self.args, None, self.tb)
+            if self.throwing:
+                exception, self.args, self.throwing = self.args, None, False
+                self.result = self.stack[-1].throw(exception, None, self.tb)
             else:
                 self.result = self.stack[-1].send(self.args)
-            self.args = None
-            if isinstance(self.result, types.GeneratorType):
-                self.stack.append(self.result)
-            elif isinstance(self.result, OSAsyncIOToken):
-                return self._handle_async_io_token()
-            else:
-                self.args = self.result
         except StopIteration as e:
             self.stack.pop()
+            return True
         except BaseException as e:
-            self.tb = sys.exc_info()[2]
             self.stack.pop()
             if len(self.stack) == 0:
                 raise
-            self.args = e
+            self._throw_current_exception()
+            return True
+        self.args = None
+        if isinstance(self.result, types.GeneratorType):
+            self.stack.append(self.result)
+        elif isinstance(self.result, OSAsyncIOToken):
+            return self._handle_async_io_token()
+        else:
+            self.args = self.result
         return True
 
     def loop(self):
@@ -44,6 +52,7 @@ class Coroutine(object):
             if not self._next_step():
                 return self.result
         self.done = True
+        self.result = self.args
         return self.result
 
     def is_done(self):
@@ -59,12 +68,18 @@ class AsyncCoroutine(Coroutine):
     def async_io_complete(self):
         """ Callback for reactor to signal that a blocking async IO has been completed """
         # current self.result is an Async IO Token, we can ask for its result now and continue with the stack
-        self.args = self.result.get_result()
+        try:
+            self.args = self.result.get_result()
+        except BaseException:
+            self._throw_current_exception()
 
 class SyncCoroutine(Coroutine):
     def _handle_async_io_token(self):
         # we just ask for a synhronous result from self.result which is the Async IO Token, and then continue
-        self.args = self.result.get_result(block=True)
+        try:
+            self.args = self.result.get_result(block=True)
+        except BaseException:
+            self._throw_current_exception()
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-- 
2.43.0


From e0735f49acd7a289ac36ddef73de4e3b45d6f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 18/55] fix: sync_call called the function twice, and failed
 for one that is not a coroutine (is_queue_full)

---
 src/infi/asi/coroutines/sync_adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 055dc5e..5c926b4 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -83,8 +83,8 @@ class SyncCoroutine(Coroutine):
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-    stack = [ func(*init_args, **init_kwargs) ]
-    return sync_wait(func(*init_args, **init_kwargs))
+    result = func(*init_args, **init_kwargs)
+    return sync_wait(result) if isinstance(result, types.GeneratorType) else result
 
 def sync_wait(generator):
     coroutine = SyncCoroutine(generator)
-- 
2.43.0


From 9b4c71e69198ffbcefd1372715771bf413764bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 19/55] fix: overlapped I/O on windows: errors were ignored,
 immediate completion was an error, events leaked

---
 src/infi/asi/win32.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 2b3ce44..f062ac1 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -38,6 +38,7 @@ DWORD WINAPI GetLastError(void);
 """
 GetLastError = kernel32.GetLastError
 
+ERROR_IO_INCOMPLETE = 996
 ERROR_IO_PENDING = 997
 
 """
@@ -146,7 +147,12 @@ class WinAsyncIOToken(OSAsyncIOToken):
     def get_result(self, block=False):
         result = c_ulong()
         overlapped_struct = overlapped_struct_from_event(self.event)
-        err = kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block)
+        if not kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block):
+            error = GetLastError()
+            if error != ERROR_IO_INCOMPLETE:
+                CloseHandle(c_void_p(self.event))
+            raise AsiWin32OSError(error, "GetOverlappedResult failed")
+        CloseHandle(c_void_p(self.event))
         return result
 
 class Win32AsyncFile(OSAsyncFile, Win32File):
@@ -164,11 +170,13 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
         api_result = DeviceIoControl(self.handle, control_code, input, input_size, output, output_size,
                                      None, byref(self._overlapped_struct))
         last_error = GetLastError()
-        if not api_result and last_error == ERROR_IO_PENDING:
+        if api_result or last_error == ERROR_IO_PENDING:
+            # the event is signaled also if the operation has completed already
             token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
             yield token
         else:
-            raise AsiWin32OSError(GetLastError(), "DeviceIoControl %d for path %s failed" % (control_code, self.path))
+            CloseHandle(c_void_p(self._windows_event_handle))
+            raise AsiWin32OSError(last_error, "DeviceIoControl %d for path %s failed" % (control_code, self.path))
 
 def WaitForMultipleObjects(events):
     from struct import pack
-- 
2.43.0


From cde0fb805b2e4b250db0764f508adf00ddd99397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 20/55] fix: an error in one windows command abandoned the I/O
 of the others; wait for more than 64

---
 src/infi/asi/win32.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index f062ac1..f7cb571 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -4,6 +4,7 @@ from .errors import AsiOSError, AsiSCSIError
 from . import OSAsyncIOToken, OSFile, OSAsyncFile, OSAsyncReactor, DEFAULT_TIMEOUT, gevent_friendly
 from .coroutines.sync_adapter import AsyncCoroutine
 import six
+import sys
 
 # Taken from Windows DDK
 # WinDDK/7600.16385.1/inc/ddk/scsi.h
@@ -178,6 +179,8 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
             CloseHandle(c_void_p(self._windows_event_handle))
             raise AsiWin32OSError(last_error, "DeviceIoControl %d for path %s failed" % (control_code, self.path))
 
+MAXIMUM_WAIT_OBJECTS = 64
+
 def WaitForMultipleObjects(events):
     from struct import pack
     event_array = pack("{}P".format(len(events)), *events)
@@ -189,8 +192,9 @@ def WaitForMultipleObjects(events):
 class Win32AsyncReactor(OSAsyncReactor):
     def _wait_for_events(self, coroutines):
         events = {coroutine.get_result().event: (command, coroutine) for (command, coroutine) in coroutines.items()}
-        returned_event_index = WaitForMultipleObjects(list(events.keys()))
-        returned_event = list(events.keys())[returned_event_index]
+        waited_events = list(events.keys())[:MAXIMUM_WAIT_OBJECTS]
+        returned_event_index = WaitForMultipleObjects(waited_events)
+        returned_event = waited_events[returned_event_index]
         command, coroutine = events[returned_event]
         coroutine.async_io_complete()
         return [command]
@@ -199,17 +203,27 @@ class Win32AsyncReactor(OSAsyncReactor):
         coroutines = {command: AsyncCoroutine(command) for command in commands}
         non_blocking_commands = commands[:]
         results_dict = {}
+        error = None
 
         while len(coroutines) > 0:
             for command in non_blocking_commands:
                 coroutine = coroutines[command]
-                coroutine.loop()
+                try:
+                    coroutine.loop()
+                except BaseException:
+                    # the other commands have I/O in flight, so we must wait for them before raising
+                    error = error or sys.exc_info()
+                    del coroutines[command]
+                    continue
                 if coroutine.is_done():
                     results_dict[command] = coroutine.get_result()
                     del coroutines[command]
             if len(coroutines) > 0:
                 non_blocking_commands = self._wait_for_events(coroutines)
 
+        if error is not None:
+            six.reraise(*error)
+
         # sort results_dict in the same order as commands
         results = []
         for command in commands:
-- 
2.43.0


From 67b2bd3dfb3246f3af2a6e685607dd57f2b54922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 21/55] fix: a refused submission raised AttributeError and
 kept its slot

---
 src/infi/asi/linux.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 5f8d1fc..ab4a4fe 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -141,10 +141,11 @@ class SGIO(Structure):
         ("info", c_uint)
         ]
 
+    in_flight = False    # from_buffer() does not call __init__
+
     def __init__(self, *args, **kwargs):
         super(SGIO, self).__init__(*args, **kwargs)
         self.source_buffer = None
-        self.in_flight = False
 
     def init_sense_buffer(self):
         self.sense_buffer = create_string_buffer(SENSE_SIZE)
-- 
2.43.0


From 2a41c79ecdec2cac24dfa951c7b783ce3ea3987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 22/55] fix: all commands shared one control byte, so setting
 it in one changed the others

---
 src/infi/asi/cdb/__init__.py | 8 ++++++++
 src/infi/asi/cdb/control.py  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/infi/asi/cdb/__init__.py b/src/infi/asi/cdb/__init__.py
index aff5064..2c839f3 100644
--- a/src/infi/asi/cdb/__init__.py
+++ b/src/infi/asi/cdb/__init__.py
@@ -1,5 +1,6 @@
 from infi.instruct import *
 from infi.instruct.buffer import Buffer
+from infi.instruct.struct import copy_if_supported
 
 
 class CDB(Struct):
@@ -13,6 +14,13 @@ class CDB(Struct):
 
 
 class CDBBuffer(Buffer):
+    def __init__(self, **kwargs):
+        super(CDBBuffer, self).__init__(**kwargs)
+        # infi.instruct.buffer uses the same default for all objects, so what is set in one would show in the others
+        for field in self._all_fields():
+            if field.default is not None and getattr(self, field.attr_name()) is field.default:
+                setattr(self, field.attr_name(), copy_if_supported(field.default))
+
     def create_datagram(self):
         return self.pack()
 
diff --git a/src/infi/asi/cdb/control.py b/src/infi/asi/cdb/control.py
index 96b3667..5fb29bc 100644
--- a/src/infi/asi/cdb/control.py
+++ b/src/infi/asi/cdb/control.py
@@ -11,6 +11,11 @@ class Control(Struct):
         BitField("vendor_specific", 2),  # 6-7: vendor specific
     )
 
+    def copy(self):
+        # infi.instruct copies a field's default for each new object if it can
+        return Control(vendor_specific=self.vendor_specific, naca=self.naca)
+
+
 DEFAULT_CONTROL = Control(vendor_specific=0, naca=0)
 
 
@@ -18,4 +23,7 @@ class ControlBuffer(Buffer):
     naca = be_int_field(where=bytes_ref[0].bits[2:3])
     vendor_specific = be_int_field(where=bytes_ref[0].bits[6:8])
 
+    def copy(self):
+        return ControlBuffer(vendor_specific=self.vendor_specific, naca=self.naca)
+
 DEFAULT_CONTROL_BUFFER = ControlBuffer(vendor_specific=0, naca=0)
-- 
2.43.0


From 5dc8c0b61831aa7e7e64ba830a697cc8291348e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 23/55] fix: WRITE SAME refused buffers of a block size that is
 not a multiple of 512

---
 src/infi/asi/cdb/write_same.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/write_same.py b/src/infi/asi/cdb/write_same.py
index d3ada25..dc95180 100644
--- a/src/infi/asi/cdb/write_same.py
+++ b/src/infi/asi/cdb/write_same.py
@@ -33,7 +33,7 @@ class WriteSame10Command(CDB):
 
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame10Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
@@ -66,7 +66,7 @@ class WriteSame16Command(CDB):
                 ]
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame16Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
-- 
2.43.0


From bb5328087898bf01c5403ca2c6cbd75b61442bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 24/55] fix: READ(6) of 256 blocks assumed 512-byte blocks

---
 src/infi/asi/cdb/read.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index e59524d..c3bb325 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -39,8 +39,7 @@ class Read6Command(CDB):
         datagram = self.create_datagram()
         read_length = self.block_size * self.transfer_length
         if read_length == 0: # This is only in READ 6
-            # read_length = 256 * self.block_size
-            read_length = 256 * 512
+            read_length = 256 * self.block_size
         result_datagram = yield executer.call(SCSIReadCommand(datagram, read_length))
         yield result_datagram
 
-- 
2.43.0


From 215fef811feec94253ed08c846e645c8c5642d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 25/55] fix: UNMAP data length was one too large

---
 src/infi/asi/cdb/unmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/unmap.py b/src/infi/asi/cdb/unmap.py
index 7ca710f..5ea7b2e 100644
--- a/src/infi/asi/cdb/unmap.py
+++ b/src/infi/asi/cdb/unmap.py
@@ -49,7 +49,7 @@ class UnmapParameterListHeader(CDB):
 
     def __init__(self, data_length):
         super(UnmapParameterListHeader, self).__init__()
-        self.unmap_data_length=data_length+7
+        self.unmap_data_length=data_length+6
         self.unmap_block_descriptor_data_length=data_length
         self.datagram = self.create_datagram()
 
-- 
2.43.0


From 505d649a65bbfebbc319be8af6ec8282025cd9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 26/55] fix: required_allocation_length of the full status
 raised NameError

---
 src/infi/asi/cdb/persist/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 9fe81e7..0ca00d8 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -117,7 +117,7 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
         unpack_if=additional_length > 0)
 
     def required_allocation_length(self):
-        return additional_length + 8
+        return self.additional_length + 8
 
 
 class PersistentReserveInCommand(CDBBuffer):
-- 
2.43.0


From 99f327ba2bd9cef48ff93cb963aea9a305606c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 27/55] fix: PERSISTENT RESERVE OUT ignored the request to
 persist through power loss

---
 src/infi/asi/cdb/persist/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index a86a2fa..c41d16c 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -42,7 +42,7 @@ class PersistentReserveOutCommandBasicParameterList(CDBBuffer):
     """
     reservation_key = be_uint_field(where=bytes_ref[0:8])
     service_action_reservation_key = be_uint_field(where=bytes_ref[8:16])
-    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], set_before_pack=0, default=0)
+    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], default=0)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], set_before_pack=0, default=0)
     all_target_ports = be_uint_field(where=bytes_ref[20].bits[2], default=0)
     specify_initiator_ports = be_uint_field(where=bytes_ref[20].bits[3], default=0)  
-- 
2.43.0


From df20b64291c76655f5da7a16856da7156feb00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 28/55] fix: a full status longer than the allocation raised
 instead of reporting the required length

---
 src/infi/asi/cdb/persist/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 0ca00d8..304d1f3 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -114,7 +114,7 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
     full_status_descriptors = list_field(
         where=bytes_ref[8:8 + additional_length],
         type=PersistentReserveInReadFullStatusDescriptor,
-        unpack_if=additional_length > 0)
+        unpack_if=(additional_length > 0) * (input_buffer_length >= additional_length + 8))
 
     def required_allocation_length(self):
         return self.additional_length + 8
-- 
2.43.0


From 7b12c439a70f80aefd4bb70191bd7f13a3d77b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 29/55] fix: logical block provisioning page invented a group
 descriptor from the padding after the page

---
 .../asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
index 9c9abfa..6bc74ad 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
@@ -23,7 +23,7 @@ class LogicalBlockProvisioningVPDPageBuffer(Buffer):
     # reserved
     provisioning_group_descriptor = buffer_field(where=bytes_ref[8:], type=DesignatorDescriptor,
                                                  unpack_selector=determine_designator,
-                                                 unpack_if=input_buffer_length>8)
+                                                 unpack_if=(input_buffer_length > 8) * (page_length != 4))
 
 
 class LogicalBlockProvisioningPageCommand(EVPDInquiryCommand):
-- 
2.43.0


From f98cf54e7b4de347947e0e5b008c22fba6dea9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 30/55] fix: ATA information page read status and signature
 bytes as signed numbers

---
 .../cdb/inquiry/vpd_pages/ata_information.py  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index a726537..bd60656 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -1,6 +1,6 @@
 from .. import PeripheralDeviceDataBuffer
 from . import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_int_field
+from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_uint_field
 
 
 # sat3r04: 12.4.2
@@ -23,27 +23,27 @@ class AtaIdentifyDevice(Buffer):
 
 class DeviceSignature(Buffer):
     byte_size = 20
-    transport_id = be_int_field(where=bytes_ref[0])
-    pm_port = be_int_field(where=bytes_ref[1].bits[0:4])
-    interrupt = be_int_field(where=bytes_ref[1].bits[6])
-    status = be_int_field(where=bytes_ref[2])
-    error = be_int_field(where=bytes_ref[3])
+    transport_id = be_uint_field(where=bytes_ref[0])
+    pm_port = be_uint_field(where=bytes_ref[1].bits[0:4])
+    interrupt = be_uint_field(where=bytes_ref[1].bits[6])
+    status = be_uint_field(where=bytes_ref[2])
+    error = be_uint_field(where=bytes_ref[3])
     lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
                            bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
-    device = be_int_field(where=bytes_ref[7])
-    sector_count = be_int_field(where=bytes_ref[12:14])
+    device = be_uint_field(where=bytes_ref[7])
+    sector_count = be_uint_field(where=bytes_ref[12:14])
 
 
 class AtaInformationVPDPageBuffer(Buffer):
     byte_size = 572
     peripheral_device = buffer_field(where=bytes_ref[0:], type=PeripheralDeviceDataBuffer)
-    page_code = be_int_field(where=bytes_ref[1:2])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[1:2])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     sat_vendor_identification = str_field(where=bytes_ref[8:16])  # bytes 8-15
     sat_product_identification = str_field(where=bytes_ref[16:32])  # bytes 16-31
     sat_product_revision_level = str_field(where=bytes_ref[32:36])  # bytes 32-35
     device_signature = buffer_field(where=bytes_ref[36:56], type=DeviceSignature)  # bytes 36-55
-    command_code = be_int_field(where=bytes_ref[56:57])
+    command_code = be_uint_field(where=bytes_ref[56:57])
     # ATA IDENTIFY DEVICE: bytes 60-571
     identify_device = buffer_field(where=bytes_ref[60:572], type=AtaIdentifyDevice)
 
-- 
2.43.0


From 2396ba43ecc02122e1c529589846fe4b316a98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 31/55] fix: ATA information page failed on a device signature
 that is not ASCII, such as ATAPI's

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index bd60656..b21454a 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -1,6 +1,6 @@
 from .. import PeripheralDeviceDataBuffer
 from . import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_uint_field
+from infi.instruct.buffer import Buffer, str_field, bytearray_field, bytes_ref, buffer_field, be_uint_field
 
 
 # sat3r04: 12.4.2
@@ -28,8 +28,8 @@ class DeviceSignature(Buffer):
     interrupt = be_uint_field(where=bytes_ref[1].bits[6])
     status = be_uint_field(where=bytes_ref[2])
     error = be_uint_field(where=bytes_ref[3])
-    lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
-                           bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
+    lba = bytearray_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
+                                 bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
     device = be_uint_field(where=bytes_ref[7])
     sector_count = be_uint_field(where=bytes_ref[12:14])
 
-- 
2.43.0


From 9877dc9e4ed72fa74157c3a3bddc10572b5481b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 32/55] fix: three and five byte numbers in EUI-64 and NAA 2
 designators were read backwards

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 8e85618..4b39c7b 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -24,8 +24,9 @@ class Reserved_Designator(DesignatorDescriptor):
 
 # spc4r30, section 7.8.5.5.2, page 617
 class EUI64_Designator(DesignatorDescriptor):
-    ieee_company = be_uint_field(where=bytes_ref[4:7])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[7:12])
+    ieee_company = be_uint_field(where=(bytes_ref[6] + bytes_ref[5] + bytes_ref[4]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9] +
+                                                               bytes_ref[8] + bytes_ref[7]))
 
 
 # spc4r30, section 7.8.5.5.3, page 617
@@ -36,8 +37,9 @@ class EUI64_12Byte_Designator(EUI64_Designator):
 # spc4r30, section 7.8.5.5.4, page 618
 class EUI64_16Byte_Designator(DesignatorDescriptor):
     identifier_extension = be_uint_field(where=bytes_ref[4:12])
-    ieee_company = be_uint_field(where=bytes_ref[12:15])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[15:20])
+    ieee_company = be_uint_field(where=(bytes_ref[14] + bytes_ref[13] + bytes_ref[12]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[19] + bytes_ref[18] + bytes_ref[17] +
+                                                               bytes_ref[16] + bytes_ref[15]))
 
 
 # spc4r30, section 7.8.5.6.1, page 618
@@ -48,8 +50,8 @@ class NAA_Descriptor(DesignatorDescriptor):
 # spc4r30, section 7.8.5.6.2, page 619
 class NAA_IEEE_Extended_Designator(NAA_Descriptor):
     vendor_specific_identifier_a = be_uint_field(where=(bytes_ref[5] + bytes_ref[4].bits[0:4]))
-    ieee_company = be_uint_field(where=bytes_ref[6:9])
-    vendor_specific_identifier_b = be_uint_field(where=bytes_ref[9:12])
+    ieee_company = be_uint_field(where=(bytes_ref[8] + bytes_ref[7] + bytes_ref[6]))
+    vendor_specific_identifier_b = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9]))
 
 
 # spc4r30, section 7.8.5.6.2, page 619
-- 
2.43.0


From 97ab7b01c29285caa8eccce34a8283fb9b5f7b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 33/55] fix: device identification page failed on a reserved
 designator that is not ASCII, such as a UUID

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 4b39c7b..8c77898 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -19,7 +19,7 @@ class DesignatorDescriptor(Buffer):
 # Designator types 09-0F are reserved
 class Reserved_Designator(DesignatorDescriptor):
     designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.designator))
-    desginator = str_field(where=bytes_ref[4:4+designator_length])
+    designator = bytearray_field(where=bytes_ref[4:4+designator_length])
 
 
 # spc4r30, section 7.8.5.5.2, page 617
-- 
2.43.0


From 1b692d43c652837a2026e424574baaf8c96d152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 34/55] fix: ATA model number lost its last two characters

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index b21454a..a725446 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -18,7 +18,7 @@ class AtaIdentifyDevice(Buffer):
                                                   52])  # word 23-26 in ATA IDENTIFY DEVICE range
     model_number = str_field(where=bytes_ref[55, 54, 57, 56, 59, 58, 61, 60, 63, 62, 65, 64, 67, 66, 69, 68,
                                              71, 70, 73, 72, 75, 74, 77, 76, 79, 78, 81, 80, 83, 82, 85, 84,
-                                             87, 86, 89, 88, 91, 90])  # word 27-46 in ATA IDENTIFY DEVICE range
+                                             87, 86, 89, 88, 91, 90, 93, 92])  # word 27-46 in ATA IDENTIFY DEVICE range
 
 
 class DeviceSignature(Buffer):
-- 
2.43.0


From 0782e5a76bd2870063ede8506937b42682a8e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 35/55] fix: block limits page failed, or took padding for
 limits, when the device's page is short

---
 .../asi/cdb/inquiry/vpd_pages/block_limits.py    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/block_limits.py b/src/infi/asi/cdb/inquiry/vpd_pages/block_limits.py
index 19284e6..9f1c133 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/block_limits.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/block_limits.py
@@ -13,13 +13,15 @@ class BlockLimitsVPDPageBuffer(Buffer):
     optimal_transfer_length_granularity = be_uint_field(where=bytes_ref[6:8])
     maximum_transfer_length = be_uint_field(where=bytes_ref[8:12])
     optimal_transfer_length = be_uint_field(where=bytes_ref[12:16])
-    maximum_prefetch_xdread_xdwrite_transfer_length = be_uint_field(where=bytes_ref[16:20])
-    maximum_unmap_lba_count = be_uint_field(where=bytes_ref[20:24])
-    maximum_unmap_block_descriptor_count = be_uint_field(where=bytes_ref[24:28])
-    optimal_unmap_granularity = be_uint_field(where=bytes_ref[28:32])
-    unmap_granularity_alignment = be_uint_field(where=(bytes_ref[35] + bytes_ref[34] + bytes_ref[33] + bytes_ref[32].bits[0:7]))
-    ugavalid = be_uint_field(where=bytes_ref[32].bits[7])
-    maximum_write_same_length = be_uint_field(where=bytes_ref[36:44])
+    # the fields that follow are missing in pages of older standards
+    maximum_prefetch_xdread_xdwrite_transfer_length = be_uint_field(where=bytes_ref[16:20], unpack_if=page_length >= 16)
+    maximum_unmap_lba_count = be_uint_field(where=bytes_ref[20:24], unpack_if=page_length >= 20)
+    maximum_unmap_block_descriptor_count = be_uint_field(where=bytes_ref[24:28], unpack_if=page_length >= 24)
+    optimal_unmap_granularity = be_uint_field(where=bytes_ref[28:32], unpack_if=page_length >= 28)
+    unmap_granularity_alignment = be_uint_field(where=(bytes_ref[35] + bytes_ref[34] + bytes_ref[33] + bytes_ref[32].bits[0:7]),
+                                                unpack_if=page_length >= 32)
+    ugavalid = be_uint_field(where=bytes_ref[32].bits[7], unpack_if=page_length >= 32)
+    maximum_write_same_length = be_uint_field(where=bytes_ref[36:44], unpack_if=page_length >= 40)
 
 
 class BlockLimitsPageCommand(EVPDInquiryCommand):
-- 
2.43.0


From 370d4c7220cea35873047c7f6fd24dc243a00ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 36/55] fix: extended report target port groups read its
 descriptors one byte early and past the end

---
 src/infi/asi/cdb/rtpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 5aee687..9c25fb8 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -83,5 +83,5 @@ class TargetPortGroupLengthOnlyResponse(Buffer):
 class TargetPortGroupExtendedResponse(Buffer):
     data_length = be_int_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
-    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[7:7 + data_length])
+    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From c7aabff31e6098413290795e482cdfd75891226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:09 +0000
Subject: [PATCH 37/55] fix: report target port groups read counts and status
 codes of 128 and more as negative

---
 src/infi/asi/cdb/rtpg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 9c25fb8..b643fd1 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -71,17 +71,17 @@ class TargetPortGroupDescriptor(Buffer):
     t_sup = be_int_field(where=bytes_ref[1].bits[7])
 
     target_port_group = be_uint_field(where=bytes_ref[2:4])
-    status_code = be_int_field(where=bytes_ref[5])
+    status_code = be_uint_field(where=bytes_ref[5])
 
-    target_port_count = be_int_field(where=bytes_ref[7])
+    target_port_count = be_uint_field(where=bytes_ref[7])
     target_port_list = list_field(type=TargetPortDescriptor, where=bytes_ref[8:], n=target_port_count)
 
 class TargetPortGroupLengthOnlyResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[4:4 + data_length])
 
 class TargetPortGroupExtendedResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From d8ee0b6d9011d8eced339e06a7dce4710aa9b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 38/55] fix: reading a diagnostic page without a decoder raised
 an error

---
 src/infi/asi/cdb/diagnostic/ses_pages/unknown.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
index f9d0049..2c29de4 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
@@ -1,10 +1,11 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field
-from . import PCVReceiveDiagnosticResultCommand
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
+from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
-class UnknownDiagnosticPageData(Buffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_data = be_int_field(where=bytes_ref[1:])
+class UnknownDiagnosticPageData(DiagnosticDataBuffer):
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    page_data = list_field(type=uint8, where=bytes_ref[4:4 + page_length])
 
 
 def UnknownDiagnosticPageCommand(page_code):
-- 
2.43.0


From bdf2d441c133593d4bf777ff83704624f6c4923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 39/55] fix: enclosure configuration page read counts, lengths
 and the generation code as negative

---
 .../cdb/diagnostic/ses_pages/configuration.py    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
index d7b7b3e..2abd6d7 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
@@ -65,8 +65,8 @@ ELEMENT_TYPE_CODES = {ELEMENT_TYPE_UNSPECIFIED: 'Unspecified',
 class EnclosureDescriptor(Buffer):
     enclosure_services_processes_num = be_int_field(where=bytes_ref[0].bits[0:3])
     relative_enclosure_services_process_identifier = be_int_field(where=bytes_ref[0].bits[4:7])
-    subenclosure_identifier = be_int_field(where=bytes_ref[1])
-    type_descriptor_headers_num = be_int_field(where=bytes_ref[2])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[1])
+    type_descriptor_headers_num = be_uint_field(where=bytes_ref[2])
     enclosure_descriptor_length = be_uint_field(where=bytes_ref[3])
     enclosure_logical_identifier = bytearray_field(where=bytes_ref[4:12])
     enclosure_vendor_identification = str_field(where=bytes_ref[12:20])
@@ -78,9 +78,9 @@ class EnclosureDescriptor(Buffer):
 
 class TypeDescriptorHeader(Buffer):
     element_type = be_int_field(where=bytes_ref[0], sign='unsigned')
-    possible_elements_num = be_int_field(where=bytes_ref[1])
-    subenclosure_identifier = be_int_field(where=bytes_ref[2])
-    type_descriptor_text_length = be_int_field(where=bytes_ref[3])
+    possible_elements_num = be_uint_field(where=bytes_ref[1])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[2])
+    type_descriptor_text_length = be_uint_field(where=bytes_ref[3])
 
 
 class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
@@ -92,9 +92,9 @@ class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
         return buffer[0:l].to_bytes(), l
 
     page_code = be_int_field(where=bytes_ref[0])
-    secondary_subenclosures_num = be_int_field(where=bytes_ref[1])
-    page_length = be_int_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    secondary_subenclosures_num = be_uint_field(where=bytes_ref[1])
+    page_length = be_uint_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     enclosure_descriptor_list = list_field(type=EnclosureDescriptor,
                                            where=bytes_ref[8:],
                                            n=secondary_subenclosures_num + 1)
-- 
2.43.0


From a1ee1e2cd02bac70ca91f60f55ddc9c4606305c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 40/55] fix: enclosure status page read unsigned bytes and
 words as negative

---
 .../diagnostic/ses_pages/enclosure_status.py  | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index eb8d7b1..415e7a7 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -1,16 +1,16 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, int8, member_func_ref
+from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, be_uint_field, list_field, buffer_field, uint8, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class GeneralElementInfo(Buffer):
     byte_size = 3
-    general = list_field(type=int8, where=bytes_ref[0:])
+    general = list_field(type=uint8, where=bytes_ref[0:])
 
 
 # ses3r05: 7.3.2
 class DeviceSlotElementInfo(Buffer):
     byte_size = 3
-    slot_address = be_int_field(where=bytes_ref[0])
+    slot_address = be_uint_field(where=bytes_ref[0])
     report = be_int_field(where=bytes_ref[1].bits[0])
     ident = be_int_field(where=bytes_ref[1].bits[1])
     rmv = be_int_field(where=bytes_ref[1].bits[2])
@@ -103,7 +103,7 @@ class TempSensorElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    temperature = be_int_field(where=bytes_ref[1])
+    temperature = be_uint_field(where=bytes_ref[1])
     ut_warn = be_int_field(where=bytes_ref[2].bits[0])
     ut_fail = be_int_field(where=bytes_ref[2].bits[1])
     ot_warn = be_int_field(where=bytes_ref[2].bits[2])
@@ -156,20 +156,20 @@ class NonVolotileCacheElementInfo(Buffer):
     size_mult = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    cache_size = be_int_field(where=bytes_ref[1:])
+    cache_size = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.12
 class InvalidOpReasonElementInfo(Buffer):
     byte_size = 3
     invop_type = be_int_field(where=bytes_ref[0].bits[6:8])
-    invop_bytes = be_int_field(where=bytes_ref[1:])
+    invop_bytes = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.13
 class UninterruptiblePowerSupplyElementInfo(Buffer):
     byte_size = 3
-    battery_status = be_int_field(where=bytes_ref[0])
+    battery_status = be_uint_field(where=bytes_ref[0])
     intf_fail = be_int_field(where=bytes_ref[1].bits[0])
     warn = be_int_field(where=bytes_ref[1].bits[1])
     ups_fail = be_int_field(where=bytes_ref[1].bits[2])
@@ -190,7 +190,7 @@ class DisplayElementInfo(Buffer):
     display_mode_status = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    display_char_status = be_int_field(where=bytes_ref[1:])
+    display_char_status = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.15
@@ -227,7 +227,7 @@ class ScsiPortTransceiverElementInfo(Buffer):
 class LanguageElementInfo(Buffer):
     byte_size = 3
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    language_code = be_int_field(where=bytes_ref[1:])
+    language_code = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.19
@@ -283,7 +283,7 @@ class SimpleSubenclosureElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    short_enclosure_status = be_int_field(where=bytes_ref[2])
+    short_enclosure_status = be_uint_field(where=bytes_ref[2])
 
 
 # ses3r05: 7.3.25
@@ -298,7 +298,7 @@ class SasConnectorElementInfo(Buffer):
     byte_size = 3
     connector_type = be_int_field(where=bytes_ref[0].bits[0:7])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    connector_phys_link = be_int_field(where=bytes_ref[1])
+    connector_phys_link = be_uint_field(where=bytes_ref[1])
     fail = be_int_field(where=bytes_ref[2].bits[6])
 
 
@@ -494,8 +494,8 @@ class EnclosureStatusDiagnosticPagesData(DiagnosticDataBuffer):
     non_crit = be_int_field(where=bytes_ref[1].bits[2])
     info = be_int_field(where=bytes_ref[1].bits[3])
     invop = be_int_field(where=bytes_ref[1].bits[4])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     status_descriptors = list_field(where=bytes_ref[8:], type=StatusDescriptor,
                                     unpack_selector=_unpack_status_descriptor,
                                     n=member_func_ref(_possible_elements_num))
-- 
2.43.0


From 7596ff00db8b91113cb90a6516e30d312e71d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 41/55] fix: vendor diagnostic page 0x80 reported a negative
 page code and length, and bytes after the page

---
 src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
index eeed147..92b6229 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
@@ -1,11 +1,11 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Vendor0x80DiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    vendor_specific = list_field(type=uint8, where=bytes_ref[4:])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    vendor_specific = list_field(type=uint8, where=bytes_ref[4:4 + page_length])
 
 
 class Vendor0x80DiagnosticPagesCommand(PCVReceiveDiagnosticResultCommand):
-- 
2.43.0


From de5d351fea9edab448a45eb2e475f0cd0cccb8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 42/55] fix: supported diagnostic pages listed the unused rest
 of the buffer as page 0

---
 src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
index bffbb72..8a07133 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
@@ -14,4 +14,10 @@ class SupportedDiagnosticPagesCommand(PCVReceiveDiagnosticResultCommand):
     def __init__(self):
         super(SupportedDiagnosticPagesCommand, self).__init__(0x00, 255, SupportedDiagnosticPagesData)
 
+    def execute(self, executer):
+        result = yield super(SupportedDiagnosticPagesCommand, self).execute(executer)
+        # the rest of the allocated buffer is not part of the page
+        result.supported_pages = result.supported_pages[:result.page_length]
+        yield result
+
 __all__ = ["SupportedDiagnosticPagesCommand", "SupportedDiagnosticPagesData"]
-- 
2.43.0


From 2740e8460d883b65e7b7125e284f690f424931d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 43/55] fix: element descriptor page read lengths and the
 generation code as negative

---
 .../asi/cdb/diagnostic/ses_pages/element_descriptor.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
index 816ae12..7c644ab 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
@@ -1,9 +1,9 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
+from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, be_uint_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Descriptor(Buffer):
-    descriptor_length = be_int_field(where=bytes_ref[2:4])
+    descriptor_length = be_uint_field(where=bytes_ref[2:4])
     descriptor = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:descriptor_length + 4])
 
 
@@ -31,8 +31,8 @@ class ElementDescriptorDiagnosticPagesData(DiagnosticDataBuffer):
         return len(self.conf_page.type_descriptor_header_list)
 
     page_code = be_int_field(where=bytes_ref[0])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     element_descriptors = list_field(where=bytes_ref[8:], type=ElementDescriptor,
                                      unpack_selector=_unpack_status_descriptor,
                                      n=member_func_ref(_possible_elements_num))
-- 
2.43.0


From 62b3df39a815de67a7c6cfcddf599e671e2873de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 44/55] fix: actual fan speed of a cooling element was composed
 in the wrong order

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index 415e7a7..5cd15c9 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -89,7 +89,7 @@ FAN_SPEED_CODE = {0: 'Cooling mechanism is stopped',
 class CoolingElementInfo(Buffer):
     byte_size = 3
     # for real fan speed the fan speed value should be multiplied by a factor of 10
-    fan_speed = be_int_field(where=(bytes_ref[0].bits[0:3] + bytes_ref[1]))
+    fan_speed = be_int_field(where=(bytes_ref[1] + bytes_ref[0].bits[0:3]))
     ident = be_int_field(where=bytes_ref[0].bits[7])
     speed_code = be_int_field(where=bytes_ref[2].bits[0:3])
     off = be_int_field(where=bytes_ref[2].bits[4])
-- 
2.43.0


From efb5bf025fae94b2b70c209d03bff62a97a4db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 45/55] fix: enclosure element requests were read from the byte
 of its indications

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index 5cd15c9..c5e1e9e 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -207,9 +207,9 @@ class EnclosureElementInfo(Buffer):
     warn_indication = be_int_field(where=bytes_ref[1].bits[0])
     failure_indication = be_int_field(where=bytes_ref[1].bits[1])
     time_until_power_cycle = be_int_field(where=bytes_ref[1].bits[2:8])
-    warn_requested = be_int_field(where=bytes_ref[1].bits[0])
-    failure_requested = be_int_field(where=bytes_ref[1].bits[1])
-    requested_power_off_duration = be_int_field(where=bytes_ref[1].bits[2:8])
+    warn_requested = be_int_field(where=bytes_ref[2].bits[0])
+    failure_requested = be_int_field(where=bytes_ref[2].bits[1])
+    requested_power_off_duration = be_int_field(where=bytes_ref[2].bits[2:8])
 
 
 # ses3r05: 7.3.17
-- 
2.43.0


From 1066bf7385b4e6b92b69c9d0298625671e5d52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 46/55] fix: enclosure configuration page lost empty type
 descriptor texts at its end

---
 src/infi/asi/cdb/diagnostic/ses_pages/configuration.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
index 2abd6d7..76a4fdb 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
@@ -91,6 +91,15 @@ class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
         l = self.type_descriptor_header_list[index].type_descriptor_text_length
         return buffer[0:l].to_bytes(), l
 
+    def unpack(self, buffer):
+        result = super(ConfigurationDiagnosticPagesData, self).unpack(buffer)
+        # unpacking a list stops at the end of the page, where there may still be texts without any byte
+        for header in self.type_descriptor_header_list[len(self.type_descriptor_text_list):]:
+            if header.type_descriptor_text_length != 0:
+                break
+            self.type_descriptor_text_list.append(b'')
+        return result
+
     page_code = be_int_field(where=bytes_ref[0])
     secondary_subenclosures_num = be_uint_field(where=bytes_ref[1])
     page_length = be_uint_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
-- 
2.43.0


From c2fcdc354586225d10deac41f8c49c961e97bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 47/55] fix: READ(6) and WRITE(6) took a negative address for
 one near the end of their range

---
 src/infi/asi/cdb/read.py  | 2 +-
 src/infi/asi/cdb/write.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index c3bb325..dfd2b48 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -30,7 +30,7 @@ class Read6Command(CDB):
         self.logical_block_address = logical_block_address
         self.block_size = block_size
         self.transfer_length = transfer_length
-        assert self.logical_block_address < 2 ** 21
+        assert 0 <= self.logical_block_address < 2 ** 21
         assert self.transfer_length < 2 ** 8, "transfer_length should be in range [0,256), instead got: {}".format(self.transfer_length)
         self.logical_block_address__msb = self.logical_block_address >> 16
         self.logical_block_address__lsb = self.logical_block_address & 0xffff
diff --git a/src/infi/asi/cdb/write.py b/src/infi/asi/cdb/write.py
index abf3763..5745e1b 100644
--- a/src/infi/asi/cdb/write.py
+++ b/src/infi/asi/cdb/write.py
@@ -32,7 +32,7 @@ class Write6Command(CDB):
         self.buffer = buffer
         self.block_size = block_size
 
-        assert self.logical_block_address < 2 ** 21, "lba > 2**21"
+        assert 0 <= self.logical_block_address < 2 ** 21, "lba should be in range [0, 2**21)"
         assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
 
         num_blocks = len(buffer) // block_size
-- 
2.43.0


From 11b44736c9de7e6df97f1d25f51c5d960d0ad892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:04 +0000
Subject: [PATCH 48/55] fix: COMPARE AND WRITE accepted a buffer of another
 number of blocks than it names

---
 src/infi/asi/cdb/compare_and_write.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/asi/cdb/compare_and_write.py b/src/infi/asi/cdb/compare_and_write.py
index 4795694..a0e437c 100644
--- a/src/infi/asi/cdb/compare_and_write.py
+++ b/src/infi/asi/cdb/compare_and_write.py
@@ -40,6 +40,8 @@ class CompareAndWriteCommand(CDB):
         self.number_of_logical_blocks = number_of_logical_blocks
         self.transfer_length = len(buffer) // block_size
         assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
+        assert self.transfer_length == 2 * number_of_logical_blocks, \
+            "buffer should hold {0} blocks to compare and {0} to write".format(number_of_logical_blocks)
 
     def execute(self, executer):
         assert self.logical_block_address < 2 ** 64, "lba > 2**64"
-- 
2.43.0


From 465cd6f040694ec1a9cb579c333e86f4114c51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 49/55] fix: descriptors of descriptor format sense data start
 after the byte that states their length

---
 src/infi/asi/sense/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/sense/__init__.py b/src/infi/asi/sense/__init__.py
index 4c6f796..5fa61e7 100644
--- a/src/infi/asi/sense/__init__.py
+++ b/src/infi/asi/sense/__init__.py
@@ -59,7 +59,7 @@ class SCSISenseDataDescriptorBased(Struct):
             BitPadding(4)
             ),
         Field("additional_sense_code", AdditionalSenseCode),
-        BytePadding(2),
+        BytePadding(3),
         SumSizeArray("descriptors", UBInt8,
                      StructSelector(UBInt8, SENSE_DESCIPTOR_TYPES, default=SCSISenseDataGenericDescriptor))
     ]
-- 
2.43.0


From 9d7779c4dcc7fc28c598c623b5935130b5dc392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 50/55] fix: additional sense codes whose qualifier may be
 anything are named for qualifier FFh too

---
 src/infi/asi/sense/asc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/sense/asc.py b/src/infi/asi/sense/asc.py
index 052f25f..1be2678 100644
--- a/src/infi/asi/sense/asc.py
+++ b/src/infi/asi/sense/asc.py
@@ -668,10 +668,10 @@ ASC_CODES = {
     struct.pack(">BB", 0x7F, 0x00): "VENDOR SPECIFIC",
 }
 
-for i in range(0x80, 0xFF):
+for i in range(0x80, 0x100):
     ASC_CODES[struct.pack(">BB", 0x40, i)] = "DIAGNOSTIC FAILURE ON COMPONENT %2X" % (i,)
 
-for i in range(0, 0xFF):
+for i in range(0, 0x100):
     ASC_CODES[struct.pack(">BB", 0x4D, i)] = "TAGGED OVERLAPPED COMMANDS (%2X = TASK TAG)" % (i,)
     ASC_CODES[struct.pack(">BB", 0x70, i)] = "DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF %2X" % (i,)
 
-- 
2.43.0


From 3d533f21dad224cf7c967db4d660ed5e801b166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 51/55] fix: a command longer than the OS interface can take is
 refused instead of cut

---
 src/infi/asi/aix.py     | 2 ++
 src/infi/asi/linux.py   | 2 ++
 src/infi/asi/solaris.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 5421694..52995db 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -284,6 +284,8 @@ class sc_passthru(Structure):
         self.autosense_length = sizeof(self.sense_buffer)
 
     def init_command_buffer(self, command):
+        if len(command) > SC_PASSTHRU_CDB_LEN:
+            raise ValueError("the OS cannot take a command of %d bytes" % len(command))
         self.command_buffer = create_string_buffer(command, len(command))
         for i in range(SC_PASSTHRU_CDB_LEN):
             self.scsi_cdb[i] = 0
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index ab4a4fe..b0929fe 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -156,6 +156,8 @@ class SGIO(Structure):
         self.command_buffer = create_string_buffer(command, len(command))
         self.cmdp = cast(self.command_buffer, c_void_p)
         self.cmd_len = sizeof(self.command_buffer)
+        if self.cmd_len != len(command):
+            raise ValueError("the OS cannot take a command of %d bytes" % len(command))
 
     def set_data_buffer(self, buf):
         if buf is not None:
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index 73a6541..e594669 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -128,6 +128,8 @@ class SCSICMD(Structure):
         self.command_buffer = create_string_buffer(command, len(command))
         self.uscsi_cdb = cast(self.command_buffer, c_void_p)
         self.uscsi_cdblen = sizeof(self.command_buffer)
+        if self.uscsi_cdblen != len(command):
+            raise ValueError("the OS cannot take a command of %d bytes" % len(command))
 
     def set_data_buffer(self, buf):
         if buf is not None:
-- 
2.43.0


From 9cf4a6d5a23ee5284c9bc08929f62172f5f7a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 52/55] fix: a timeout the OS interface cannot express is
 refused instead of cut

---
 src/infi/asi/aix.py     | 2 ++
 src/infi/asi/linux.py   | 2 ++
 src/infi/asi/solaris.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 52995db..4e206a8 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -318,6 +318,8 @@ class sc_passthru(Structure):
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
         scsicmd.timeout_value = timeout
+        if scsicmd.timeout_value != timeout:
+            raise ValueError("the OS cannot take a timeout of %r" % (timeout,))
         scsicmd.devflags = SC_MIX_IO
 
         if isinstance(command, SCSIReadCommand):
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index b0929fe..874b419 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -191,6 +191,8 @@ class SGIO(Structure):
         sgio.init_sense_buffer()
         sgio.init_command_buffer(command.command)
         sgio.timeout = timeout
+        if sgio.timeout != timeout:
+            raise ValueError("the OS cannot take a timeout of %r" % (timeout,))
 
         if isinstance(command, SCSIReadCommand):
             if command.max_response_length > 0:
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index e594669..6b9b673 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -160,6 +160,8 @@ class SCSICMD(Structure):
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
         scsicmd.uscsi_timeout = timeout
+        if scsicmd.uscsi_timeout != timeout:
+            raise ValueError("the OS cannot take a timeout of %r" % (timeout,))
 
         if isinstance(command, SCSIReadCommand):
             if command.max_response_length > 0:
-- 
2.43.0


From 0a16b05e8eb07bde22e25b4630f6d0a98f7b9378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 53/55] fix: other greenlets get their turn also after a system
 call that failed

---
 src/infi/asi/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 198fc2c..e99e0b7 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -243,7 +243,8 @@ def gevent_friendly(func):
     """
     @wraps(func)
     def wrapper(*args, **kwargs):
-        return_value = func(*args, **kwargs)
-        _gevent_friendly_sleep(0)
-        return return_value
+        try:
+            return func(*args, **kwargs)
+        finally:
+            _gevent_friendly_sleep(0)
     return wrapper
-- 
2.43.0


From e756cd5227213bcc6200f525d2b9fde47a4549cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 54/55] fix: the control byte of persistent reserve, log sense
 and diagnostic commands was shared by all of them, and one set by the user
 was not sent

---
 src/infi/asi/cdb/diagnostic/__init__.py | 2 +-
 src/infi/asi/cdb/log_sense.py           | 2 +-
 src/infi/asi/cdb/persist/input.py       | 2 +-
 src/infi/asi/cdb/persist/output.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/__init__.py b/src/infi/asi/cdb/diagnostic/__init__.py
index c9f59ec..b0f5be9 100644
--- a/src/infi/asi/cdb/diagnostic/__init__.py
+++ b/src/infi/asi/cdb/diagnostic/__init__.py
@@ -11,7 +11,7 @@ class ReceiveDiagnosticResultCommand(CDBBuffer):
     pcv = be_int_field(where=bytes_ref[1].bits[0])
     page_code = be_uint_field(where=bytes_ref[2])
     allocation_length = be_int_field(where=bytes_ref[3:5], sign='unsigned')
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, result_class, conf_page, *args, **kwargs):
         super(ReceiveDiagnosticResultCommand, self).__init__(*args, **kwargs)
diff --git a/src/infi/asi/cdb/log_sense.py b/src/infi/asi/cdb/log_sense.py
index de3ca01..0870e2c 100644
--- a/src/infi/asi/cdb/log_sense.py
+++ b/src/infi/asi/cdb/log_sense.py
@@ -13,7 +13,7 @@ class LogSenseCommand(CDBBuffer):
     subpage_code = be_uint_field(where=bytes_ref[3])
     parameter_pointer = be_uint_field(where=bytes_ref[5:7])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, page_code, subpage_code=0, allocation_length=396):
         super(LogSenseCommand, self).__init__()
diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 304d1f3..bb45f31 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -128,7 +128,7 @@ class PersistentReserveInCommand(CDBBuffer):
     operation_code = be_uint_field(where=bytes_ref[0], set_before_pack=CDB_OPCODE_PERSISTENT_RESERVE_IN)
     service_action = be_uint_field(where=bytes_ref[1].bits[0:5])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, service_action, allocation_length=520, **kwargs):
         super(PersistentReserveInCommand, self).__init__(
diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index c41d16c..e9242be 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -80,7 +80,7 @@ class PersistentReserveOutCommand(CDBBuffer):
     pr_type = be_uint_field(where=bytes_ref[2].bits[0:4])
     scope = be_uint_field(where=bytes_ref[3].bits[4:8], set_before_pack=0)
     parameter_list_length = be_uint_field(where=bytes_ref[5:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, service_action, reservation_key=0, service_action_reservation_key=0,
                  pr_type=PERSISTENT_RESERVE_OUT_TYPES.WRITE_EXCLUSIVE, **kwargs):
-- 
2.43.0


From 193ea167866335b272306668f8ae7db5585a910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:23 +0000
Subject: [PATCH 55/55] fix: a designator that the allocation length cut off is
 not reported as an identifier

---
 .../asi/cdb/inquiry/vpd_pages/device_identification.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/device_identification.py b/src/infi/asi/cdb/inquiry/vpd_pages/device_identification.py
index c4d208d..6da9b77 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/device_identification.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/device_identification.py
@@ -12,6 +12,14 @@ class DeviceIdentificationVPDPageBuffer(Buffer):
     designators_list = list_field(where=bytes_ref[4:4+page_length], type=DesignatorDescriptor,
                                   unpack_selector=determine_designator, unpack_after=page_length)
 
+    def unpack(self, buffer):
+        # The page may have been cut at the allocation length: a designator that has not arrived whole identifies nothing.
+        data = bytearray(buffer)
+        end = 4
+        while len(data) >= end + 4 and len(data) >= end + 4 + data[end + 3]:
+            end += 4 + data[end + 3]
+        return super(DeviceIdentificationVPDPageBuffer, self).unpack(buffer[:end])
+
 
 # spc4r30: 7.8.5
 class DeviceIdentificationVPDPageCommand(EVPDInquiryCommand):
-- 
2.43.0

