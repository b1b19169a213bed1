"""A stand-in for kernel32.dll on 64-bit Windows, as far as infi.asi uses it."""

import ctypes
import struct

from . import mem as _mem
from .world import File, Node, Outcome, Submission, SimAbort

IOCTL_SPTD = 0x0004D014
ERROR_FILE_NOT_FOUND = 2
ERROR_INVALID_HANDLE = 6
ERROR_IO_PENDING = 997
ERROR_IO_INCOMPLETE = 996
ERROR_IO_DEVICE = 1117
ERROR_SEM_TIMEOUT = 121
ERROR_INVALID_PARAMETER = 87
WAIT_TIMEOUT = 258
FLAG_OVERLAPPED = 0x40000000

# SCSI_PASS_THROUGH_DIRECT on 64-bit Windows
SPTD_FMT = "=HBBBBBBB3xII4xQI16s4x"
SPTD_SIZE = 56
assert struct.calcsize(SPTD_FMT) == SPTD_SIZE
OVL_FMT = "=QQIIQ"
OVL_SIZE = 32


def addr_of(x):
    if x is None:
        return 0
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    obj = getattr(x, "_obj", None)
    if isinstance(x, ctypes.c_void_p):
        return x.value or 0
    if isinstance(x, ctypes.Array) or isinstance(x, ctypes.Structure):
        return ctypes.addressof(x)
    if isinstance(x, ctypes._SimpleCData):
        v = x.value
        return v if isinstance(v, int) else (ctypes.cast(x, ctypes.c_void_p).value or 0)
    try:
        return ctypes.cast(x, ctypes.c_void_p).value or 0
    except Exception:
        return ctypes.addressof(obj)


def int_of(x):
    if x is None:
        return 0
    if isinstance(x, int):
        return int(x)
    return int(x.value or 0)


def win_code(e):
    """The error code of a failing DeviceIoControl, for the errno a scenario names."""
    return {22: ERROR_INVALID_PARAMETER, 5: ERROR_IO_DEVICE}.get(e, e)


class WinEvent(object):
    def __init__(self, manual, initial):
        self.manual, self.signaled = bool(manual), bool(initial)
        self.ops = 0


class WinFile(File):
    def __init__(self, node, fd, flags):
        File.__init__(self, node, fd, flags)
        self.overlapped = bool(flags & FLAG_OVERLAPPED)
        self.pending = {}

    def submit(self, code, in_addr, in_size, out_addr, out_size, ret_addr, ovl_addr):
        """Returns (ok, error)."""
        w = self.world
        if code != IOCTL_SPTD:
            w.problem("bad-ioctl", hex(code))
            return False, 1
        if in_size < SPTD_SIZE or out_size < SPTD_SIZE or not in_addr or not out_addr:
            w.problem("bad-header", "size %d/%d" % (in_size, out_size))
            return False, ERROR_INVALID_PARAMETER
        if self.overlapped and not ovl_addr:
            w.problem("bad-header", "no OVERLAPPED on an overlapped handle")
            return False, ERROR_INVALID_PARAMETER
        raw = w.copy_in(in_addr, in_size, "pass-through structure")
        (length, status, path, target, lun, cdblen, senselen, datain, dlen, timeout, buf, senseoff,
         cdb) = struct.unpack(SPTD_FMT, raw[:SPTD_SIZE])
        if length != SPTD_SIZE:
            w.problem("bad-header", "Length %d" % length)
            return False, 1306
        if not 1 <= cdblen <= 16 or datain not in (0, 1, 2):
            w.problem("bad-header", "cdb %d direction %d" % (cdblen, datain))
            return False, ERROR_INVALID_PARAMETER
        if senselen and (senseoff < SPTD_SIZE or senseoff + senselen > in_size or senseoff + senselen > out_size):
            w.problem("bad-header", "sense area")
            return False, ERROR_INVALID_PARAMETER
        direction = "none" if not dlen or datain == 2 else ("in" if datain == 1 else "out")
        if datain == 2 and dlen:
            w.problem("bad-header", "data length without a direction")
        if direction != "none" and not buf:
            w.problem("null-pointer", "data")
            return False, ERROR_INVALID_PARAMETER
        if timeout == 0:
            w.problem("bad-header", "timeout 0")
        if any(cdb[cdblen:]):
            w.problem("bad-header", "bytes after the cdb")
        data = w.copy_in(buf, dlen, "data-out") if direction == "out" else b""
        sub = Submission(node=self.node, platform="windows", cdb=cdb[:cdblen], direction=direction,
                         length=dlen if direction != "none" else 0, data_out=data, timeout_us=timeout * 1000000,
                         pack_id=0, data_addr=buf, sense_addr=out_addr + senseoff, sense_len=senselen, raw=raw)
        sub.struct_addr = out_addr
        o = self.node.device(sub)
        sub.outcome = o
        if o.submit_errno:
            w.fault("submit-errno")
            return False, win_code(o.submit_errno)
        w.record(sub)
        if o.hang or o.lost or o.lat > sub.timeout_us:
            if o.hang or o.lost:
                w.fault("device-hang")
            o = sub.outcome = Outcome(api_error=ERROR_SEM_TIMEOUT, lat=sub.timeout_us)
        elif o.host or o.driver:
            o = sub.outcome = Outcome(api_error=ERROR_IO_DEVICE, lat=o.lat)

        def finish():
            sub.deliver(w.now)
            if w.check_memory:
                w.memory.collect()
                for what, addr in (("data", buf if direction != "none" else 0), ("struct", out_addr), ("overlapped", ovl_addr)):
                    if addr and not w.memory.alive(addr):
                        w.problem("freed-buffer", what)
                w.probe("memory-checked")
            if o.api_error:
                w.fault("ioctl-errno")
                w.trace("response", sub.seq, "error", o.api_error)
                return False, o.api_error
            got = (o.data or b"")[:dlen] if direction == "in" else b""
            w.copy_out(buf, got, "data-in")
            moved = len(got) if direction == "in" else sub.length
            out = struct.pack(SPTD_FMT, length, o.status, path, target, lun, cdblen,
                              min(senselen, len(o.sense)), datain, moved, timeout, buf, senseoff, cdb)
            w.copy_out(out_addr, out, "pass-through structure")
            w.copy_out(out_addr + senseoff, o.sense[:senselen], "sense")
            w.trace("response", sub.seq, o.status)
            return True, 0

        if not ovl_addr or not self.overlapped:
            w.block(o.lat)
            ok, err = finish()
            if ok and ret_addr:
                w.memory.write(ret_addr, struct.pack("=I", SPTD_SIZE + senselen))
            return ok, err

        ovl = struct.unpack(OVL_FMT, w.copy_in(ovl_addr, OVL_SIZE, "OVERLAPPED"))
        ev = w.win_events.get(ovl[4])
        if ev is None:
            w.problem("bad-header", "OVERLAPPED without an event")
            return False, ERROR_INVALID_HANDLE
        if ovl_addr in self.pending and not self.pending[ovl_addr]["done"]:
            w.problem("overlapped-reused", "")
        ev.signaled = False
        ev.ops += 1
        state = self.pending[ovl_addr] = {"done": False, "ok": None, "err": 0, "sub": sub, "event": ev,
                                          "handle": ovl[4]}

        def complete():
            state["ok"], state["err"] = finish()
            state["done"] = True
            if w.win_events.get(state["handle"]) is not ev:
                w.problem("event-closed-early", "")
            ev.signaled = True
        if o.variant == 1 and not o.api_error:
            w.probe("overlapped-completed-synchronously")
            complete()
            return True, 0
        if o.variant == 3:
            w.probe("overlapped-already-complete-when-waited")
            w.at(0, complete)
        else:
            w.at(o.lat, complete)
        return False, ERROR_IO_PENDING


class WinNode(Node):
    file_class = WinFile


class Function(object):
    """What ctypes gives for an exported function: callable, with settable restype/argtypes."""
    def __init__(self, fn):
        self.fn = fn
        self.restype = ctypes.c_int
        self.argtypes = None
        self.errcheck = None

    def __call__(self, *args):
        result = self.fn(*args)
        if isinstance(self.restype, type) and not hasattr(self.restype, "_type_") and self.restype is not None:
            result = self.restype(result)               # a Python callable as the result type
        if self.errcheck is not None:
            result = self.errcheck(result, self, args)
        return result


class Kernel32(object):
    def __init__(self, get_world):
        self._w = get_world
        for name in ("GetLastError", "FormatMessageA", "CreateFileW", "DeviceIoControl", "CloseHandle",
                     "CreateEventW", "GetOverlappedResult", "WaitForMultipleObjects", "WaitForSingleObject",
                     "ResetEvent", "SetEvent", "CancelIo", "CancelIoEx"):
            setattr(self, name, Function(getattr(self, "_" + name)))

    def _GetLastError(self):
        w = self._w()
        return w.last_error

    def _fail(self, w, err, ret=0):
        w.last_error = err
        return ret

    def _FormatMessageA(self, flags, source, msg, lang, buf, size, args):
        text = b"simulated error %d\r\n\0" % int_of(msg)
        addr = addr_of(buf)
        self._w().memory.write(addr, text[:int_of(size)])
        return len(text) - 1

    def _CreateFileW(self, path, access, share, sa, disposition, flags, template):
        w = self._w()
        w.seam("CreateFile")
        if w.open_faults:
            e = w.open_faults.pop(0)
            if e:
                w.fault("open-errno")
                return self._fail(w, e, -1)
        node = w.nodes.get(path)
        if node is None:
            return self._fail(w, ERROR_FILE_NOT_FOUND, -1)
        h = self._number(w)
        w.handles[h] = node.open(h, int_of(flags))
        w.fds[h] = w.handles[h]
        w.opened(h, path)
        w.trace("CreateFile", path)
        return h

    def _number(self, w):
        h = w.first_handle + 4
        while w.reuse and (h in w.handles or h in w.win_events):
            h += 4
        if not w.reuse:
            h = w.next_handle + 4
        elif h <= w.next_handle:
            w.probe("handle-number-reused")
        w.next_handle = max(w.next_handle, h)
        return h

    def _CloseHandle(self, handle):
        w = self._w()
        h = int_of(handle)
        if h is not None and h > 0x100 and not w.first_handle < h <= w.next_handle:
            return 0    # an object of an earlier run is being collected
        w.seam("CloseHandle")
        if h in w.win_events:
            del w.win_events[h]
            w.trace("close event")
            return 1
        if h not in w.handles:
            w.problem("double-close", "handle")
            return self._fail(w, ERROR_INVALID_HANDLE)
        if w.close_faults:
            e = w.close_faults.pop(0)
            if e:
                w.fault("close-errno")
                return self._fail(w, e)
        w.closed(h)
        del w.handles[h]
        del w.fds[h]
        w.trace("close file")
        return 1

    def _DeviceIoControl(self, handle, code, inp, insz, out, outsz, ret, ovl):
        w = self._w()
        w.seam("DeviceIoControl")
        f = w.handles.get(int_of(handle))
        if f is None:
            w.problem("use-after-close", "handle")
            return self._fail(w, ERROR_INVALID_HANDLE)
        w.device_call("DeviceIoControl")
        ok, err = f.submit(int_of(code), addr_of(inp), int_of(insz), addr_of(out), int_of(outsz), addr_of(ret), addr_of(ovl))
        w.last_error = err
        return 1 if ok else 0

    def _CreateEventW(self, sa, manual, initial, name):
        w = self._w()
        w.step()
        h = self._number(w)
        w.win_events[h] = WinEvent(manual, initial)
        return h

    def _ResetEvent(self, handle):
        w = self._w()
        w.win_events[int_of(handle)].signaled = False
        return 1

    def _SetEvent(self, handle):
        w = self._w()
        w.win_events[int_of(handle)].signaled = True
        return 1

    def _CancelIoEx(self, handle, ovl=None):
        w = self._w()
        w.probe("cancel")
        return 1
    _CancelIo = _CancelIoEx

    def _GetOverlappedResult(self, handle, ovl, bytes_, wait):
        w = self._w()
        w.seam("GetOverlappedResult")
        f = w.handles.get(int_of(handle))
        if f is None:
            w.problem("use-after-close", "handle")
            return self._fail(w, ERROR_INVALID_HANDLE)
        state = f.pending.get(addr_of(ovl))
        if state is None:
            w.problem("bad-header", "GetOverlappedResult on an unknown OVERLAPPED")
            return self._fail(w, ERROR_INVALID_PARAMETER)
        if not state["done"]:
            if not int_of(wait):
                return self._fail(w, ERROR_IO_INCOMPLETE)
            self._block_until(w, lambda: state["done"])
        if not state["ok"]:
            return self._fail(w, state["err"])
        w.memory.write(addr_of(bytes_), struct.pack("=I", SPTD_SIZE))
        return 1

    def _block_until(self, w, cond, timeout_us=None):
        deadline = None if timeout_us is None else w.now + timeout_us
        while not cond():
            w.step()
            if deadline is not None and w.now >= deadline:
                return False
            if not w.events and w.current is None and deadline is None:
                w.dead = "blocked"
                raise SimAbort("waits for ever")
            nxt = w.events[0][0] if w.events else (deadline or w.now + 10000)
            if deadline is not None:
                nxt = min(nxt, deadline)
            w.block(max(1, nxt - w.now))
        return True

    def _WaitForSingleObject(self, handle, ms):
        w = self._w()
        w.seam("WaitForSingleObject")
        ev = w.win_events.get(int_of(handle))
        if ev is None:
            return self._fail(w, ERROR_INVALID_HANDLE, -1)
        ms = int_of(ms)
        return 0 if self._block_until(w, lambda: ev.signaled, None if ms in (-1, 0xFFFFFFFF) else ms * 1000) else WAIT_TIMEOUT

    def _WaitForMultipleObjects(self, n, handles, wait_all, ms):
        w = self._w()
        w.seam("WaitForMultipleObjects")
        n = int_of(n)
        if not 1 <= n <= 64:
            return self._fail(w, ERROR_INVALID_PARAMETER, -1)
        hs = struct.unpack("=%dQ" % n, w.copy_in(addr_of(handles), 8 * n, "handle array"))
        if len(set(hs)) != n:
            w.problem("bad-header", "duplicate handles in a wait")
            return self._fail(w, ERROR_INVALID_PARAMETER, -1)
        evs = [w.win_events.get(h) for h in hs]
        if any(e is None for e in evs):
            w.problem("use-after-close", "event")
            return self._fail(w, ERROR_INVALID_HANDLE, -1)
        ms = int_of(ms)
        test = (lambda: all(e.signaled for e in evs)) if int_of(wait_all) else (lambda: any(e.signaled for e in evs))
        if not self._block_until(w, test, None if ms in (-1, 0xFFFFFFFF) else ms * 1000):
            return WAIT_TIMEOUT
        ready = [i for i, e in enumerate(evs) if e.signaled]
        if len(ready) > 1:
            w.probe("several-events-signaled")
        # Windows reports the lowest signaled index
        i = ready[0]
        if not evs[i].manual:
            evs[i].signaled = False
        return i


class Windll(object):
    def __init__(self, get_world):
        self.kernel32 = Kernel32(get_world)

    def __getitem__(self, name):
        return getattr(self, name)
