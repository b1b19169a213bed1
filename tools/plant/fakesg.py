"""A tiny sg driver: completes the commands written to it in the order it is told to."""
import ctypes
from infi.asi.linux import SGIO


class FakeSg(object):
    fd = 99

    def __init__(self, device, order=None):
        self.device = device          # function(cdb, header, data out) -> dict(status, data, sense, host, driver)
        self.order = order or (lambda queue: 0)
        self.queue = []
        self.written = []

    def write(self, raw):
        assert len(raw) == ctypes.sizeof(SGIO)
        hdr = SGIO.from_buffer_copy(raw)
        cdb = ctypes.string_at(hdr.cmdp, hdr.cmd_len)
        out = ctypes.string_at(hdr.dxferp, hdr.dxfer_len) if hdr.dxfer_direction == -2 else b""
        self.written.append((cdb, out, hdr.dxfer_direction, hdr.dxfer_len, hdr.timeout))
        self.queue.append((hdr, self.device(cdb, hdr, out)))
        return len(raw)

    def read(self, size):
        if not self.queue:
            raise IOError("nothing to read")
        hdr, result = self.queue.pop(self.order(self.queue))
        hdr.status = result.get("status", 0)
        hdr.host_status = result.get("host", 0)
        hdr.driver_status = result.get("driver", 0)
        sense, data = result.get("sense", b""), result.get("data", b"")
        if sense:
            ctypes.memmove(hdr.sbp, sense, len(sense))
            hdr.sb_len_wr = len(sense)
        if data:
            ctypes.memmove(hdr.dxferp, data, min(len(data), hdr.dxfer_len))
        return ctypes.string_at(ctypes.addressof(hdr), ctypes.sizeof(SGIO))

    def close(self):
        pass


def fixed_sense(key, asc, ascq):
    return bytes([0x70, 0, key, 0, 0, 0, 0, 10, 0, 0, 0, 0, asc, ascq, 0, 0, 0, 0])
