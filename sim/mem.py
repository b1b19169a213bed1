"""Tracked user memory.

Every ctypes string buffer the code under test creates is a window onto backing
memory that the simulator keeps for the whole run, so a simulated kernel can
look at an address that the code has already dropped without touching freed
memory, and can tell that it was dropped."""

import bisect
import ctypes
import gc
import weakref

_real_csb = ctypes.create_string_buffer
_real_c_buffer = ctypes.c_buffer


class _Block(object):
    __slots__ = ("addr", "size", "backing", "ref", "serial")

    def __init__(self, addr, size, backing, ref, serial):
        self.addr, self.size, self.backing, self.ref, self.serial = addr, size, backing, ref, serial


class Memory(object):
    def __init__(self):
        self.addrs = []
        self.blocks = []
        self.serial = 0

    def allocate(self, real, init, size):
        backing = real(init) if size is None else real(init, size)
        window = type(backing).from_buffer(backing)
        self.serial += 1
        addr = ctypes.addressof(backing)
        block = _Block(addr, ctypes.sizeof(backing), backing, weakref.ref(window), self.serial)
        at = bisect.bisect_left(self.addrs, addr)
        self.addrs.insert(at, addr)
        self.blocks.insert(at, block)
        return window

    def find(self, addr, size):
        at = bisect.bisect_right(self.addrs, addr) - 1
        if at < 0:
            return None
        block = self.blocks[at]
        if addr < block.addr + block.size and addr + size <= block.addr + block.size:
            return block
        return None

    def find_start(self, addr):
        at = bisect.bisect_right(self.addrs, addr) - 1
        if at < 0:
            return None
        block = self.blocks[at]
        return block if addr < block.addr + max(block.size, 1) else None

    def alive(self, addr):
        """Is the allocation an address lies in still reachable from Python?
        Unknown (untracked) memory counts as alive."""
        block = self.find_start(addr)
        if block is None:
            return True
        return block.ref() is not None

    @staticmethod
    def collect():
        gc.collect()

    def in_use(self):
        """Allocations still reachable from Python."""
        return sum(1 for b in self.blocks if b.ref() is not None)

    def read(self, addr, size):
        if size <= 0:
            return b""
        return ctypes.string_at(addr, size)

    def write(self, addr, data):
        if data:
            ctypes.memmove(addr, bytes(data), len(data))


class Bounds(Exception):
    pass
