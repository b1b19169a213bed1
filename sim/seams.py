"""Put the simulator behind every seam infi.asi uses to reach the outside:
os, select, time, fcntl, gevent, ctypes allocation, ctypes.CDLL, ctypes.windll,
struct (native layout of Windows) and the platform name.

install() has to run before infi.asi is imported, so that it does not matter
how the code imports these modules.  While no world is active every seam passes
through to the real thing."""

import ctypes
import errno
import fcntl
import os
import select
import struct
import sys
import time
import types

from . import mem
from . import windows

_installed = False
_world = None
_loading_windows = False
REPO_SRC = os.environ.get("ASI_SIM_SRC", "/repo/src")


def world():
    return _world


def current():
    if _world is None:
        raise RuntimeError("no simulated machine is running")
    return _world


def activate(w):
    global _world
    _world = w


real = {}


def install(fine=False):
    global _installed
    if _installed:
        return
    _installed = True
    if "infi.asi" in sys.modules:
        raise RuntimeError("infi.asi was imported before the seams were installed")

    real.update(open=os.open, read=os.read, write=os.write, close=os.close, select=select.select, time=time.time,
                monotonic=time.monotonic, sleep=time.sleep, ioctl=fcntl.ioctl, perf=time.perf_counter)

    def fake_open(path, flags, mode=0o777, **kw):
        w = _world
        if w is not None and w.sim_path(path):
            return w.os_open(path, flags)
        return real["open"](path, flags, mode, **kw)

    def fake_read(fd, n):
        w = _world
        if w is not None and w.is_fd(fd):
            return w.os_read(fd, n)
        return real["read"](fd, n)

    def fake_write(fd, data):
        w = _world
        if w is not None and w.is_fd(fd):
            return w.os_write(fd, data)
        return real["write"](fd, data)

    def fake_close(fd):
        w = _world
        if w is not None and w.is_fd(fd):
            return w.os_close(fd)
        return real["close"](fd)

    def fake_select(r, wl, x, timeout=None):
        w = _world
        fds = [f if isinstance(f, int) else f.fileno() for f in r] if w is not None else []
        if w is not None and any(w.is_fd(f) for f in fds):
            return w.select(r, wl, x, timeout)
        return real["select"](r, wl, x, timeout)

    class FakePoll(object):
        def __init__(self):
            self.fds = {}

        def register(self, fd, mask=1 | 2 | 4):
            self.fds[fd if isinstance(fd, int) else fd.fileno()] = mask
        modify = register

        def unregister(self, fd):
            del self.fds[fd if isinstance(fd, int) else fd.fileno()]

        def poll(self, timeout=None):
            t = None if timeout is None or timeout < 0 else timeout / 1000.0
            r, _, _ = current().select([f for f, m in self.fds.items() if m & 1], [], [], t)
            return [(f, 1) for f in r]

    real["poll"] = getattr(select, "poll", None)

    def fake_poll():
        return FakePoll() if _world is not None else real["poll"]()

    real["epoll"] = getattr(select, "epoll", None)

    class FakeEpoll(FakePoll):
        def poll(self, timeout=None, maxevents=-1):
            return FakePoll.poll(self, None if timeout is None or timeout < 0 else timeout * 1000.0)

        def close(self):
            self.fds = {}
        closed = property(lambda self: False)

        def __enter__(self):
            return self

        def __exit__(self, *_):
            self.close()

    def fake_epoll(*args, **kw):
        return FakeEpoll() if _world is not None else real["epoll"](*args, **kw)

    def fake_time():
        return _world.time_us() / 1e6 if _world is not None else real["time"]()

    def fake_monotonic():
        return _world.monotonic_us() / 1e6 if _world is not None else real["monotonic"]()

    def fake_perf():
        return _world.monotonic_us() / 1e6 if _world is not None else real["perf"]()

    def fake_sleep(s):
        if _world is not None:
            return _world.sleep(s)
        return real["sleep"](s)

    def fake_ioctl(fd, request, arg=0, mutate_flag=True):
        w = _world
        f = fd if isinstance(fd, int) else fd.fileno()
        if w is not None and w.is_fd(f):
            return w.fcntl_ioctl(f, request, arg, mutate_flag)
        return real["ioctl"](fd, request, arg, mutate_flag)

    os.open, os.read, os.write, os.close = fake_open, fake_read, fake_write, fake_close
    select.select = fake_select
    if real["poll"]:
        select.poll = fake_poll
    if real["epoll"]:
        select.epoll = fake_epoll
    import selectors
    for name, fake in (("PollSelector", fake_poll), ("EpollSelector", fake_epoll)):
        if hasattr(selectors, name):
            getattr(selectors, name)._selector_cls = staticmethod(fake)
    time.time, time.monotonic, time.sleep, time.perf_counter = fake_time, fake_monotonic, fake_sleep, fake_perf
    fcntl.ioctl = fake_ioctl
    time.time_ns, time.monotonic_ns = lambda: int(fake_time() * 1e9), lambda: int(fake_monotonic() * 1e9)
    time.perf_counter_ns = lambda: int(fake_perf() * 1e9)

    # gevent: only what infi.asi imports from it
    g = types.ModuleType("gevent")
    g.__version__ = "0-simulated"

    def gevent_sleep(seconds=0, ref=True):
        if _world is not None:
            return _world.gevent_sleep(seconds, ref)
    g.sleep = gevent_sleep
    g.GreenletExit = SystemExit
    sys.modules["gevent"] = g

    # memory
    def csb(init, size=None):
        w = _world
        if w is None:
            return mem._real_csb(init) if size is None else mem._real_csb(init, size)
        w.allocs += 1
        if w.alloc_fail_at is not None and w.allocs == w.alloc_fail_at:
            w.fault("allocation-failure")
            raise MemoryError("simulated")
        return w.memory.allocate(mem._real_csb, init, size)
    ctypes.create_string_buffer = csb
    ctypes.c_buffer = csb

    # AIX libc
    real["CDLL"] = ctypes.CDLL

    class FakeLibc(object):
        def __init__(self):
            def ioctl(fd, request, arg=0):
                w = current()
                try:
                    w.ioctl(windows.int_of(fd), windows.int_of(request), windows.addr_of(arg))
                    return 0
                except OSError as e:
                    ctypes.set_errno(e.errno or errno.EIO)
                    return -1
            self.ioctl = windows.Function(ioctl)

        def __getitem__(self, name):
            return getattr(self, name)

    def fake_cdll(name, *args, **kw):
        w = _world
        if w is not None and isinstance(name, str) and "shr_64" in name:
            if not w.aix_libc:
                raise OSError("Could not load module %s" % name)
            return FakeLibc()
        return real["CDLL"](name, *args, **kw)
    ctypes.CDLL = fake_cdll

    ctypes.windll = windows.Windll(current)
    ctypes.WinDLL = lambda name, *a, **kw: getattr(ctypes.windll, name.split(".")[0].lower())
    ctypes.get_last_error = ctypes.GetLastError = lambda: current().last_error

    # On 64-bit Windows a native long has four bytes.
    real_pack, real_unpack, real_calc = struct.pack, struct.unpack, struct.calcsize

    def conv(fmt):
        if _loading_windows or _world is not None and _world.platform.startswith("windows"):
            s = fmt.decode() if isinstance(fmt, bytes) else fmt
            if s[:1] not in ("<", ">", "!", "="):
                return s.replace("L", "I").replace("l", "i")
        return fmt
    struct.pack = lambda fmt, *a: real_pack(conv(fmt), *a)
    struct.unpack = lambda fmt, b: real_unpack(conv(fmt), b)
    struct.calcsize = lambda fmt: real_calc(conv(fmt))
    real_into, real_from, real_struct = struct.pack_into, struct.unpack_from, struct.Struct
    struct.pack_into = lambda fmt, *a: real_into(conv(fmt), *a)
    struct.unpack_from = lambda fmt, *a, **kw: real_from(conv(fmt), *a, **kw)
    struct.Struct = lambda fmt: real_struct(conv(fmt))

    # the platform name
    import infi.os_info
    real["platform"] = infi.os_info.get_platform_string

    def fake_platform():
        w = _world
        if w is None:
            return real["platform"]()
        w.platform_hook()
        return w.platform
    infi.os_info.get_platform_string = fake_platform

    from . import threads
    threads.install(fine)
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    load()


def load():
    """Import the code under test, with Windows' idea of a long for win32.py."""
    import infi
    path = os.path.join(REPO_SRC, "infi")
    if path not in infi.__path__:
        infi.__path__.insert(0, path)
    import infi.asi
    if not os.path.realpath(infi.asi.__file__).startswith(os.path.realpath(REPO_SRC)):
        raise RuntimeError("infi.asi was imported from %s" % infi.asi.__file__)
    import infi.asi.linux
    import infi.asi.unix
    import infi.asi.solaris
    import infi.asi.aix
    import infi.asi.executers
    global _loading_windows
    import ctypes.wintypes as wt
    names = [n for n in dir(wt) if getattr(wt, n) in (ctypes.c_ulong, ctypes.c_long)]
    longs = {ctypes.c_ulong: ctypes.c_uint32, ctypes.c_long: ctypes.c_int32}
    saved = [(ctypes, n, getattr(ctypes, n)) for n in ("c_ulong", "c_long")] + [(wt, n, getattr(wt, n)) for n in names]
    for owner, n, v in saved:
        setattr(owner, n, longs[v])
    _loading_windows = True
    try:
        import infi.asi.win32
    finally:
        _loading_windows = False
        for owner, n, v in saved:
            setattr(owner, n, v)
