"""A kernel32 that records calls, for importing infi.asi.win32 elsewhere than on Windows."""
import ctypes
import struct
calls = []


def value(x):
    return getattr(x, "value", x)


class Function(object):
    def __init__(self, name):
        self.name = name

    def __call__(self, *args):
        return globals().get("do_" + self.name, lambda *a: 1)(*args)


def do_CreateFileW(*args):
    calls.append(("CreateFileW", 0x44))
    return 0x44


def do_CloseHandle(handle):
    calls.append(("CloseHandle", value(handle)))
    return 1


def do_GetLastError():
    return 997


events = [0x100]


def do_CreateEventW(*args):
    events[0] += 4
    return events[0]


class Kernel32(object):
    def __getattr__(self, name):
        f = Function(name)
        setattr(self, name, f)
        return f


class Windll(object):
    kernel32 = Kernel32()


ctypes.windll = Windll()
