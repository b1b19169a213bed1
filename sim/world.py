"""The simulated machine: one clock, one event queue, one scheduler, and the
kernels of the five platforms infi.asi talks to.

Nothing in here imports infi.asi.  The layouts of the kernel structures are
taken from the public headers (sg.h, uscsi.h, scsi_buf.h, ntddscsi.h), not from
the code under test.  Nothing in here draws random numbers: every choice is
read from the scenario, so a scenario is one exactly repeatable execution."""

import ctypes
import errno
import hashlib
import heapq
import struct

import greenlet

from . import mem as _mem

FD_BASE = 0x4D0000
WALL_BASE = 1700000000 * 1000000          # simulated wall clock at power on, in microseconds


_numbers = 0


def new_numbers(seed):
    """descriptors and handles of this run differ from those of the runs before, so that objects of an earlier run
    which are collected during this one cannot close what this one opened"""
    global _numbers
    _numbers = seed % 2000 * 100000


def next_numbers():
    global _numbers
    _numbers += 10000
    return _numbers


class SimAbort(BaseException):
    """The run left its bounds (hang); raised from every seam once it happened."""


class SimTimeout(BaseException):
    """Stands for gevent.Timeout."""


class SimKill(BaseException):
    """Stands for gevent.GreenletExit."""


INTERRUPTS = {"timeout": SimTimeout, "kill": SimKill, "kbd": KeyboardInterrupt}


class Outcome(object):
    """What happened to one command, in platform-independent terms."""
    __slots__ = ("status", "data", "sense", "host", "driver", "lat", "lost", "api_error",
                 "submit_errno", "variant", "hang", "stray")

    def __init__(self, status=0, data=b"", sense=b"", host=0, driver=0, lat=100, lost=False,
                 api_error=None, submit_errno=None, variant=0, hang=False, stray=None):
        self.status, self.data, self.sense, self.host, self.driver = status, data, sense, host, driver
        self.lat, self.lost, self.api_error, self.submit_errno = lat, lost, api_error, submit_errno
        self.variant = variant
        self.hang = hang            # the device never answers: the OS gives up after its timeout
        self.stray = stray

    @property
    def failed(self):
        return bool(self.status or self.host or self.driver or self.api_error or self.submit_errno or
                    self.hang or self.lost)


class Submission(object):
    """One command as the OS saw it."""
    __slots__ = ("seq", "node", "platform", "cdb", "direction", "length", "data_out", "timeout_us",
                 "addrs", "pack_id", "raw", "outcome", "done", "returned", "time", "done_time", "hdr_addr",
                 "bad", "data_addr", "sense_addr", "sense_len", "direct", "usr", "task", "event", "ovl",
                 "struct_addr", "returned_time", "stray", "dropped")

    def __init__(self, **kw):
        for name in self.__slots__:
            setattr(self, name, None)
        for name, value in kw.items():
            setattr(self, name, value)
        self.done = False
        self.returned = False
        self.bad = []

    def deliver(self, now):
        """The caller has the completion; the OS is done with its memory."""
        if not self.done:
            self.done, self.done_time = True, now
        self.returned, self.returned_time = True, now


class Task(object):
    def __init__(self, world, name, fn):
        self.world, self.name, self.fn = world, name, fn
        self.wake = None
        self.ran = 0
        self.every = None             # of a bystander
        self.waiting = None
        self.done = False
        self.error = None
        self.g = greenlet.greenlet(self._run)

    def _run(self):
        try:
            self.fn()
        except greenlet.GreenletExit:
            raise
        except BaseException as e:          # recorded, judged by the property
            self.error = e
        finally:
            self.done = True


class Opened(object):
    """One successful open of a device; its number may be used again once it is closed."""
    __slots__ = ("number", "path", "task", "file", "closed")

    def __init__(self, number, path, task, file):
        self.number, self.path, self.task, self.file, self.closed = number, path, task, file, 0


class World(object):
    def __init__(self, platform="linux-ubuntu", gevent=True, sched=(), preempt=True, max_steps=40000,
                 max_time=None):
        self.platform = platform
        self.gevent = gevent
        self.now = 0
        self.wall_offset = 0
        self.events = []
        self.seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.dead = None
        self.fds = {}
        self.numbers = next_numbers()
        self.first_fd = self.next_fd = FD_BASE + self.numbers
        self.nodes = {}
        self.handles = {}
        self.win_events = {}
        self.first_handle = self.next_handle = 0x100 + 4 * self.numbers
        self.last_error = 0
        self.fine = []                # [statement number, which other thread]: where a thread loses the processor in the code itself
        self.fine_at = 0
        self.busy = 0
        self.log = []
        self.faults = {}
        self.probes = {}
        self.submissions = []
        self.problems = []            # things the code did to the kernel that no correct client does
        self.memory = _mem.Memory()
        self.tasks = []
        self.current = None
        self.main = greenlet.getcurrent()
        self.sched = list(sched)
        self.sched_at = 0
        self.preempt = preempt
        self.interrupt = None         # {"site": "gevent"|"sleep"|"select"|"write", "n": k, "exc": name}
        self.interrupt_of = {}        # task -> the interrupt that is to hit this task only
        self.interrupts_fired = 0
        self.fired_in = {}            # task -> interrupts it got
        self.stalled = 0
        self.stalls = []              # microseconds the process is stopped after the n-th select
        self.selects = 0
        self.read_errors = []
        self.aix_libc = True
        self.alloc_fail_at = None
        self.allocs = 0
        self.open_log = []            # every Opened of the run, in order
        self.low = None               # 1: the next file opened gets descriptor 0 (stdin is closed); 0: it has been given
        self.reuse = False            # numbers of closed descriptors and handles are used again, lowest first
        self.check_memory = False
        self.open_faults = []
        self.close_faults = []
        self.platform_hook = lambda: None
        self.fifo = False             # whoever has waited longest runs next, as in gevent's loop
        self.patched = False          # sleep and select let other greenlets run, as gevent.monkey makes them
        self.bystanders = []          # greenlets that only count their turns
        self.owed = {}                # task -> the bystanders' turns when its last device system call returned
        self.starved = []
        self.forced = None
        self.hash = hashlib.sha256()

    @property
    def threads(self):
        """The tasks are threads (or greenlets that replace them), not greenlets of one thread."""
        return self.preempt or self.patched

    # ---- bookkeeping -------------------------------------------------------------------------
    def trace(self, *what):
        line = "%d %s" % (self.now, " ".join(str(w) for w in what))
        self.hash.update(line.encode("utf-8", "replace") + b"\n")
        if len(self.log) < 4000:
            self.log.append(line)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.trace("fault", kind)

    def probe(self, kind):
        self.probes[kind] = self.probes.get(kind, 0) + 1

    def problem(self, kind, detail=""):
        self.problems.append((kind, detail))
        self.trace("problem", kind, detail)

    def digest(self):
        return self.hash.hexdigest()[:16]

    # ---- time, events, scheduling --------------------------------------------------------------
    def step(self):
        if self.dead:
            raise SimAbort(self.dead)
        self.steps += 1
        if self.steps > self.max_steps or (self.max_time and self.now > self.max_time):
            self.dead = "steps" if self.steps > self.max_steps else "time"
            self.trace("abort", self.dead)
            raise SimAbort(self.dead)

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.events, (self.now + max(0, int(delay)), self.seq, fn))

    def pump(self, until):
        while self.events and self.events[0][0] <= until:
            when, _, fn = heapq.heappop(self.events)
            if when > self.now:
                self.now = when
            self.busy += 1
            try:
                fn()
            finally:
                self.busy -= 1
        if until > self.now:
            self.now = until

    def choose(self, n):
        if n <= 1:
            return 0
        if self.sched_at < len(self.sched):
            c = self.sched[self.sched_at] % n
            self.sched_at += 1
            return c
        return 0

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    def run_tasks(self):
        """Run every task to its end; the scenario's schedule picks who runs at each seam."""
        last = None
        self.turn = 0
        while True:
            live = [t for t in self.tasks if not t.done]
            if all(t in self.bystanders for t in live):
                for t in live:
                    t.g.throw()
                return
            ready = [t for t in live if t.wake is None or t.wake <= self.now]
            if all(t.every == 0 for t in ready):
                # nobody is ready but those who always are
                nxt = min(t.wake for t in live if t.every != 0)
                if self.events:
                    nxt = min(nxt, self.events[0][0])
                self.pump(nxt)
                continue
            if self.fifo:
                ready.sort(key=lambda t: t.ran)
            elif last in ready:
                ready.remove(last)
                ready.insert(0, last)
            forced, self.forced = self.forced, None
            if forced is not None and len(ready) > 1 and last is ready[0]:
                t = ready[1 + forced % (len(ready) - 1)]
                self.probe("switch-in-the-code")
            else:
                t = ready[self.choose(len(ready))]
            if t is not last:
                self.probe("context-switch")
            last = t
            self.turn += 1
            t.ran = self.turn
            t.wake = None
            self.current = t
            t.g.switch()
            self.current = None

    def _yield(self):
        if self.current is not None:
            errors = self.last_error, ctypes.get_errno()      # every thread has its own
            self.main.switch()
            self.last_error = errors[0]
            ctypes.set_errno(errors[1])

    def give_way(self):
        """Let another thread run, to get what it holds."""
        self.forced = 0
        self._yield()

    def fine_step(self):
        """A statement of the code under test was reached."""
        if self.current is None or self.busy:
            return
        self.fine_at += 1
        if self.fine[0][0] > self.fine_at:
            return
        which = self.fine[0][1]
        while self.fine and self.fine[0][0] <= self.fine_at:
            del self.fine[0]
        self.forced = which
        self._yield()

    def block(self, us, cooperative=False):
        """The calling thread sleeps in the kernel."""
        if self.current is not None and (self.preempt or cooperative):
            self.current.wake = self.now + max(0, int(us))
            self.main.switch()
            self.pump(self.now)
        else:
            self.pump(self.now + max(0, int(us)))

    # ---- turns of the others ---------------------------------------------------------------------
    def bystander(self, us):
        """A greenlet that only takes turns; us: what it sleeps in between."""
        def live():
            while True:
                t.turns += 1
                due = self.now + us
                self.gevent_sleep(us / 1e6)
                t.held_up = max(t.held_up, self.now - due)
        t = self.spawn("bystander%d" % len(self.bystanders), live)
        t.turns = t.held_up = 0
        t.every = us
        self.bystanders.append(t)

    def check_turn(self, what):
        """The current task goes on: with another system call, or with its caller."""
        owed = self.owed.pop(self.current, None)
        if owed is not None:
            for t in self.bystanders:
                if t.every == 0 and t.turns <= owed[1][t]:
                    self.starved.append((owed[0], what))
                    self.trace("starved", owed[0], what)
                    return

    def device_call(self, kind):
        if self.bystanders and self.current is not None:
            self.check_turn(kind)
            self.owed[self.current] = (kind, {t: t.turns for t in self.bystanders})

    def seam(self, kind):
        """Every system call comes through here."""
        self.step()
        self.now += 1
        self.pump(self.now)
        if self.preempt:
            self._yield()
            self.pump(self.now)

    def maybe_interrupt(self, site):
        me = self.current
        i = self.interrupt_of.get(me) or self.interrupt
        if i and i["site"] == site:
            i["n"] -= 1
            if i["n"] < 0:
                if i is self.interrupt:
                    self.interrupt = None
                else:
                    del self.interrupt_of[me]
                self.interrupts_fired += 1
                self.fired_in[me] = self.fired_in.get(me, 0) + 1
                self.fault("interrupt-" + site)
                raise INTERRUPTS[i["exc"]]()

    # ---- clock seams ------------------------------------------------------------------------
    def time_us(self):
        self.step()
        self.now += 1
        return WALL_BASE + self.now + self.wall_offset

    def monotonic_us(self):
        self.step()
        self.now += 1
        return 5000000 + self.now

    def sleep(self, seconds):
        self.step()
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        self.maybe_interrupt("sleep")
        self.block(int(round(seconds * 1000000)) + 1, self.patched)

    def gevent_sleep(self, seconds=0, ref=True):
        if not self.gevent:
            return
        self.step()
        self.maybe_interrupt("gevent")
        if self.current is not None:
            self.probe("gevent-switch")
            self.current.wake = self.now + int(seconds * 1000000)
            self.main.switch()
        elif seconds:
            self.pump(self.now + int(seconds * 1000000))
        self.pump(self.now)

    def jump(self, us):
        self.wall_offset += us
        self.fault("clock-jump")

    # ---- files ---------------------------------------------------------------------------------
    def sim_path(self, path):
        if isinstance(path, bytes):
            path = path.decode("utf-8", "replace")
        return isinstance(path, str) and (path in self.nodes or path.startswith("/dev/sim"))

    def add_node(self, path, node):
        self.nodes[path] = node
        node.path = path
        node.world = self

    def os_open(self, path, flags):
        self.seam("open")
        node = self.nodes.get(path)
        if self.open_faults:
            e = self.open_faults.pop(0)
            if e:
                self.fault("open-errno")
                raise OSError(e, "simulated", path)
        if node is None:
            raise OSError(errno.ENOENT, "No such file or directory", path)
        fd = self.first_fd
        while self.reuse and fd in self.fds:
            fd += 1
        if self.low or self.low == 0 and self.reuse and 0 not in self.fds:
            fd, self.low = 0, 0
            self.probe("descriptor-0")
        elif not self.reuse:
            fd = self.next_fd
        elif fd < self.next_fd:
            self.probe("descriptor-number-reused")
        self.next_fd = max(self.next_fd, fd + 1)
        self.fds[fd] = node.open(fd, flags)
        self.opened(fd, path)
        self.trace("open", path, flags & 3)
        return fd

    def opened(self, number, path):
        self.open_log.append(Opened(number, path, self.current.name if self.current else None, self.fds[number]))

    def closed(self, number):
        for o in self.open_log:
            if o.number == number and o.file is self.fds[number]:
                o.closed += 1

    def is_fd(self, fd):
        return isinstance(fd, int) and (self.first_fd <= fd < self.next_fd or fd == 0 and self.low == 0)

    def _file(self, fd):
        f = self.fds.get(fd)
        if f is None:
            self.problem("use-after-close", "fd")
            raise OSError(errno.EBADF, "Bad file descriptor")
        return f

    def os_close(self, fd):
        self.seam("close")
        f = self.fds.get(fd)
        if f is None:
            self.problem("double-close", "fd")
            raise OSError(errno.EBADF, "Bad file descriptor")
        self.closed(fd)
        del self.fds[fd]
        self.trace("close", f.node.path)
        f.closed()
        if self.close_faults:
            e = self.close_faults.pop(0)
            if e:
                self.fault("close-errno")
                raise OSError(e, "simulated")

    def os_write(self, fd, data):
        self.seam("write")
        f = self._file(fd)
        self.maybe_interrupt("write")
        self.device_call("write")
        return f.write(bytes(data))

    def os_read(self, fd, size):
        self.seam("read")
        f = self._file(fd)
        self.device_call("read")
        if self.read_errors:
            e = self.read_errors.pop(0)
            if e:
                self.fault("read-errno")
                f.node.read_errors_raised += 1
                raise OSError(e, "simulated")
        return f.read(size)

    def readable(self, fd):
        return self._file(fd).readable()

    def select(self, rlist, wlist, xlist, timeout=None):
        self.seam("select")
        self.maybe_interrupt("select")
        self.selects += 1

        def fileno(x):
            return x if isinstance(x, int) else x.fileno()

        waited = 0
        while True:
            ready = [x for x in rlist if self.readable(fileno(x))]
            if ready or (timeout is not None and waited >= timeout * 1000000):
                break
            if timeout is None:
                if not self.events and self.current is None:
                    self.dead = "blocked"
                    raise SimAbort("select without a timeout, nothing will ever become readable")
                d = 10000
            else:
                d = min(10000, int(timeout * 1000000) - waited)
            d = max(d, 1)
            self.step()
            self.block(d, self.patched)
            waited += d
        if self.stalls:
            s = self.stalls.pop(0)
            if s:
                self.fault("stall")
                self.stalled += s
                self.pump(self.now + s)
        return ready, list(wlist), []

    # ---- ioctl -----------------------------------------------------------------------------------
    def fcntl_ioctl(self, fd, request, arg=0, mutate_flag=True):
        """fcntl.ioctl with Python's own rules about its argument."""
        if isinstance(arg, int):
            if not -(1 << 63) <= arg < (1 << 64):
                raise OverflowError("ioctl argument")
            self.ioctl(fd, request, arg)
            return 0
        if isinstance(arg, str):
            arg = arg.encode("utf-8")
        if isinstance(arg, bytes):
            if len(arg) > 1024:
                raise ValueError("ioctl string arg too long")
            buf = _mem._real_csb(arg, max(len(arg), 1))
            import ctypes
            self.keep = buf
            self.ioctl(fd, request, ctypes.addressof(buf), size=len(arg))
            return buf.raw[:len(arg)]
        import ctypes
        view = memoryview(arg)
        if view.readonly:
            return self.fcntl_ioctl(fd, request, view.tobytes())
        raw = view.tobytes()
        buf = _mem._real_csb(raw, max(len(raw), 1))
        self.keep = buf
        try:
            self.ioctl(fd, request, ctypes.addressof(buf), size=len(raw))
        finally:
            if mutate_flag:
                out = buf.raw[:len(raw)]
                ctypes.memmove((ctypes.c_char * len(raw)).from_buffer(arg), out, len(raw))
        if not mutate_flag:
            return buf.raw[:len(raw)]
        return 0

    def ioctl(self, fd, request, addr, size=None):
        self.seam("ioctl")
        f = self._file(fd)
        self.maybe_interrupt("ioctl")
        self.device_call("ioctl")
        f.ioctl(request, addr, size)

    # ---- DMA -------------------------------------------------------------------------------------
    def copy_in(self, addr, size, what):
        if size == 0:
            return b""
        if not addr:
            self.problem("null-pointer", what)
            return b"\0" * size
        block = self.memory.find_start(addr)
        if block is not None and self.memory.find(addr, size) is None:
            self.problem("beyond-buffer", what)
            size2 = block.addr + block.size - addr
            return self.memory.read(addr, size2).ljust(size, b"\0")
        return self.memory.read(addr, size)

    def copy_out(self, addr, data, what):
        if not data:
            return
        if not addr:
            self.problem("null-pointer", what)
            return
        block = self.memory.find_start(addr)
        if block is not None and self.memory.find(addr, len(data)) is None:
            self.problem("beyond-buffer", what)
            data = data[:block.addr + block.size - addr]
        self.memory.write(addr, data)

    def record(self, sub):
        sub.seq = len(self.submissions)
        sub.time = self.now
        sub.task = self.current.name if self.current else None
        self.submissions.append(sub)
        self.trace("submit", sub.node.path, sub.cdb.hex(), sub.direction, sub.length)
        return sub


class Node(object):
    """A device node; `device(sub)` decides the Outcome of a command."""
    kind = None

    def __init__(self, device):
        self.device = device
        self.path = None
        self.world = None
        self.files = []
        self.stray_reads = 0
        self.read_errors_raised = 0

    def open(self, fd, flags):
        f = self.file_class(self, fd, flags)
        self.files.append(f)
        return f


class File(object):
    def __init__(self, node, fd, flags):
        self.node, self.fd, self.flags = node, fd, flags
        self.world = node.world

    def closed(self):
        pass

    def readable(self):
        return True

    def read(self, size):
        raise OSError(errno.EINVAL, "Invalid argument")

    def write(self, data):
        raise OSError(errno.EINVAL, "Invalid argument")

    def ioctl(self, request, addr, size):
        raise OSError(errno.ENOTTY, "Inappropriate ioctl for device")


# ---- Linux -------------------------------------------------------------------------------------
# struct sg_io_hdr, x86-64:  offsets from <scsi/sg.h>
SG_FMT = "=iiBBHIQQQIIi4xQBBBBHHiII4x"
SG_SIZE = 88
assert struct.calcsize(SG_FMT) == SG_SIZE
SG_DIR = {-1: "none", -2: "out", -3: "in", -4: "in"}
SG_IO = 0x2285


class SgHdr(object):
    NAMES = ("interface_id", "dxfer_direction", "cmd_len", "mx_sb_len", "iovec_count", "dxfer_len", "dxferp",
             "cmdp", "sbp", "timeout", "flags", "pack_id", "usr_ptr", "status", "masked_status", "msg_status",
             "sb_len_wr", "host_status", "driver_status", "resid", "duration", "info")

    def __init__(self, raw):
        for n, v in zip(self.NAMES, struct.unpack(SG_FMT, raw)):
            setattr(self, n, v)

    def pack(self):
        return struct.pack(SG_FMT, *[getattr(self, n) for n in self.NAMES])


class SgFile(File):
    def __init__(self, node, fd, flags):
        File.__init__(self, node, fd, flags)
        self.outstanding = []
        self.completed = []
        self.detached = False
        self.open_time = node.world.now

    def closed(self):
        for sub in self.outstanding:
            sub.node.world.trace("orphan", sub.seq)

    def _parse(self, raw):
        w = self.world
        if len(raw) != SG_SIZE:
            w.problem("bad-header", "size %d" % len(raw))
            raise OSError(errno.EINVAL, "Invalid argument")
        h = SgHdr(raw)
        if h.interface_id != ord("S"):
            w.problem("bad-header", "interface_id")
            raise OSError(errno.ENOSYS, "Function not implemented")
        if not h.cmdp or h.cmd_len < 6:
            w.problem("bad-header", "cmd")
            raise OSError(errno.EMSGSIZE, "Message too long")
        if h.dxfer_direction not in SG_DIR:
            w.problem("bad-header", "direction %d" % h.dxfer_direction)
            raise OSError(errno.EINVAL, "Invalid argument")
        if h.iovec_count:
            w.problem("bad-header", "iovec")
            raise OSError(errno.EINVAL, "Invalid argument")
        direction = SG_DIR[h.dxfer_direction]
        cdb = w.copy_in(h.cmdp, h.cmd_len, "cdb")
        length = h.dxfer_len if direction != "none" else 0
        if h.dxfer_direction == -1 and h.dxfer_len:
            w.problem("bad-header", "data length without a direction")
        if length == 0:
            direction = "none"
        data = w.copy_in(h.dxferp, length, "data-out") if direction == "out" else b""
        if direction == "in" and not h.dxferp:
            w.problem("null-pointer", "data-in")
            raise OSError(errno.EFAULT, "Bad address")
        sub = Submission(node=self.node, platform="linux", cdb=cdb, direction=direction, length=length,
                         data_out=data, timeout_us=h.timeout * 1000, pack_id=h.pack_id, raw=h,
                         data_addr=h.dxferp, sense_addr=h.sbp, sense_len=h.mx_sb_len,
                         direct=bool(h.flags & 1), usr=h.usr_ptr)
        return h, sub

    def _fill(self, sub, h, o):
        """The output half of the header."""
        w = self.world
        data = (o.data or b"")[:sub.length] if sub.direction == "in" else b""
        moved = len(data) if sub.direction == "in" else (sub.length if not o.failed or o.status == 0 else sub.length)
        h.status = o.status
        h.masked_status = (o.status >> 1) & 0x1f
        h.msg_status = 0
        h.host_status = o.host
        h.driver_status = o.driver
        sense = o.sense[:h.mx_sb_len] if o.sense else b""
        h.sb_len_wr = min(len(sense), 255)
        h.resid = sub.length - moved
        h.duration = (w.now - sub.time) // 1000
        h.info = 1 if (o.status or o.host or o.driver) else 0
        return data, sense

    def _alive(self, sub):
        w = self.world
        if w.check_memory:
            if sub.stray:
                return
            h = sub.raw
            w.memory.collect()
            for what, addr, n in (("data", h.dxferp, sub.length), ("cdb", h.cmdp, h.cmd_len), ("sense", h.sbp, h.mx_sb_len)):
                if n and addr and not w.memory.alive(addr):
                    w.problem("freed-buffer", what)
            w.probe("memory-checked")

    # asynchronous interface
    def write(self, raw):
        w = self.world
        h, sub = self._parse(raw)
        if self.detached:
            raise OSError(errno.ENODEV, "No such device")
        if len(self.outstanding) + len(self.completed) >= 16:
            w.probe("kernel-queue-full")
            raise OSError(errno.EDOM, "Numerical argument out of domain")
        o = self.node.device(sub)
        sub.outcome = o
        if o.submit_errno:
            w.fault("submit-errno")
            raise OSError(o.submit_errno, "simulated")
        w.record(sub)
        self.outstanding.append(sub)
        if o.lost:
            w.fault("lost-completion")
        elif o.hang or (sub.timeout_us and o.lat > sub.timeout_us):
            if o.hang:
                w.fault("device-hang")
            to = sub.timeout_us or 60000000
            timed = Outcome(host=3, driver=6, lat=to)
            sub.outcome = timed
            w.at(to, lambda: self._complete(sub, timed))
        else:
            w.at(o.lat, lambda: self._complete(sub, o))
        return len(raw)

    def _complete(self, sub, o):
        w = self.world
        if sub not in self.outstanding:
            return
        self.outstanding.remove(sub)
        sub.done = True
        sub.done_time = w.now
        if w.fds.get(self.fd) is not self:
            w.trace("orphan-complete", sub.seq)
            if w.check_memory and sub.direct:
                self._alive(sub)
            return
        if self.completed:
            w.probe("several-completions-waiting")
        if any(s.seq < sub.seq for s in self.outstanding):
            w.probe("out-of-order-completion")
        data, sense = self._fill(sub, sub.raw, o)
        self._alive(sub)
        if sub.direct:
            w.copy_out(sub.data_addr, data, "data-in")
        self.completed.append((sub, data, sense))
        w.trace("complete", sub.seq, o.status, o.host, o.driver)

    def readable(self):
        return bool(self.completed) or self.detached

    def read(self, size):
        w = self.world
        if size < SG_SIZE:
            w.problem("bad-header", "read size %d" % size)
            raise OSError(errno.EIO, "Input/output error")
        while not self.completed:
            if self.detached:
                raise OSError(errno.ENODEV, "No such device")
            w.step()
            if not w.events and w.current is None:
                w.dead = "blocked"
                raise SimAbort("read() blocks for ever")
            w.block(10000)
        sub, data, sense = self.completed.pop(0)
        if not sub.direct:
            w.copy_out(sub.data_addr, data, "data-in")
        w.copy_out(sub.sense_addr, sense, "sense")
        self._alive(sub)
        sub.deliver(w.now)
        if sub.stray:
            self.node.stray_reads += 1
        w.trace("response", sub.seq)
        return sub.raw.pack()

    # SG_IO
    def ioctl(self, request, addr, size):
        w = self.world
        if request != SG_IO:
            w.problem("bad-ioctl", hex(request))
            raise OSError(errno.ENOTTY, "Inappropriate ioctl for device")
        if size is not None and size < SG_SIZE:
            w.problem("bad-header", "size %d" % size)
            raise OSError(errno.EFAULT, "Bad address")
        h, sub = self._parse(w.memory.read(addr, SG_SIZE))
        if self.detached:
            raise OSError(errno.ENODEV, "No such device")
        o = self.node.device(sub)
        sub.outcome = o
        if o.submit_errno:
            w.fault("submit-errno")
            raise OSError(o.submit_errno, "simulated")
        w.record(sub)
        if o.hang or o.lost or (sub.timeout_us and o.lat > sub.timeout_us):
            if o.hang or o.lost:
                w.fault("device-hang")
            to = sub.timeout_us or 60000000
            o = sub.outcome = Outcome(host=3, driver=6, lat=to)
        w.block(o.lat)
        sub.deliver(w.now)
        data, sense = self._fill(sub, h, o)
        w.copy_out(sub.data_addr, data, "data-in")
        w.copy_out(sub.sense_addr, sense, "sense")
        w.memory.write(addr, h.pack())
        w.trace("response", sub.seq, o.status, o.host, o.driver)


class SgNode(Node):
    file_class = SgFile

    def stray(self, op):
        """A completion nobody on this handle asked for."""
        f = self.files[-1]
        buf = _mem._real_csb(64)
        import ctypes
        h = SgHdr(b"\0" * SG_SIZE)
        h.interface_id, h.pack_id, h.status = ord("S"), op["id"], op.get("status", 0)
        h.dxfer_direction, h.sbp, h.mx_sb_len = -1, ctypes.addressof(buf), 64
        sub = Submission(node=self, platform="linux", cdb=b"", direction="none", length=0, raw=h, stray=True,
                         sense_addr=h.sbp, sense_len=64, task=buf)
        sub.seq = -1
        self.world.fault("stray-completion")
        f.completed.append((sub, b"", b""))


# ---- Solaris -----------------------------------------------------------------------------------
# struct uscsi_cmd, little endian LP64
USCSI_FMT = "=iBBhQQQQBBBB4xQQ"
USCSI_SIZE = 64
assert struct.calcsize(USCSI_FMT) == USCSI_SIZE
USCSICMD = (0x04 << 8) | 201


class SolarisFile(File):
    def ioctl(self, request, addr, size):
        w = self.world
        if request != USCSICMD:
            w.problem("bad-ioctl", hex(request))
            raise OSError(errno.ENOTTY, "Inappropriate ioctl for device")
        if size is not None and size < USCSI_SIZE:
            w.problem("bad-header", "size %d" % size)
            raise OSError(errno.EFAULT, "Bad address")
        raw = w.memory.read(addr, USCSI_SIZE)
        (flags, status, reason, timeout, cdb_p, buf_p, buflen, resid, cdblen, rqlen, rqstatus, rqresid, rq_p,
         path) = struct.unpack(USCSI_FMT, raw)
        if not cdb_p or cdblen < 6:
            w.problem("bad-header", "cdb length %d" % cdblen)
            raise OSError(errno.EINVAL, "Invalid argument")
        cdb = w.copy_in(cdb_p, cdblen, "cdb")
        direction = "none" if not buflen else ("in" if flags & 0x8 else "out")
        data = w.copy_in(buf_p, buflen, "data-out") if direction == "out" else b""
        if direction == "in" and not buf_p:
            w.problem("null-pointer", "data-in")
            raise OSError(errno.EFAULT, "Bad address")
        sub = Submission(node=self.node, platform="solaris", cdb=cdb, direction=direction, length=buflen,
                         data_out=data, timeout_us=timeout * 1000000, pack_id=0,
                         data_addr=buf_p, sense_addr=rq_p, sense_len=rqlen)
        o = self.node.device(sub)
        sub.outcome = o
        if o.submit_errno:
            w.fault("submit-errno")
            raise OSError(o.submit_errno, "simulated")
        w.record(sub)
        if timeout <= 0:
            w.problem("bad-header", "timeout %d" % timeout)
        if o.hang or o.lost or (timeout > 0 and o.lat > sub.timeout_us):
            if o.hang or o.lost:
                w.fault("device-hang")
            to = sub.timeout_us or 60000000
            w.block(to)
            sub.deliver(w.now)
            sub.outcome = Outcome(api_error=errno.EIO)
            w.memory.write(addr, struct.pack(USCSI_FMT, flags, 0, 2, timeout, cdb_p, buf_p, buflen, buflen, cdblen,
                                             rqlen, 0, rqlen, rq_p, path))
            raise OSError(errno.EIO, "simulated timeout")
        w.block(o.lat)
        sub.deliver(w.now)
        got = (o.data or b"")[:buflen] if direction == "in" else b""
        if not o.api_error:
            w.copy_out(buf_p, got, "data-in")
        sense = (o.sense or b"")[:rqlen] if flags & 0x10000 else b""
        w.copy_out(rq_p, sense, "sense")
        resid = buflen - len(got) if direction == "in" else 0
        w.memory.write(addr, struct.pack(USCSI_FMT, flags, o.status, o.host & 0xff, timeout, cdb_p, buf_p, buflen, resid, cdblen,
                                         rqlen, o.driver & 0xff, rqlen - len(sense), rq_p, path))
        w.trace("response", sub.seq, o.status)
        if o.api_error:
            w.fault("ioctl-errno")
            raise OSError(o.api_error, "simulated")
        if o.status and o.variant == 1:
            w.fault("ioctl-errno-with-status")
            raise OSError(errno.EIO, "simulated")


class SolarisNode(Node):
    file_class = SolarisFile


# ---- AIX ----------------------------------------------------------------------------------------
# struct sc_passthru, 64 bit (natural alignment)
AIX_FMT = "@HBBBBBBBBBBBHHHIQQQQQ64sQQIQQ"
AIX_SIZE = struct.calcsize(AIX_FMT)
AIX_NAMES = ("version status_validity scsi_bus_status adap_status_type adapter_status adap_set_flags add_device_status "
             "adap_q_status q_tag_msg flags devflags q_flags command_length einval_arg autosense_length timeout_value "
             "data_length scsi_id lun_id buffer autosense_buffer_ptr scsi_cdb world_wide_name node_name "
             "variable_cdb_length variable_cdb_ptr residual").split()
DK_PASSTHRU = 23


class AixFile(File):
    def ioctl(self, request, addr, size):
        w = self.world
        if request != DK_PASSTHRU:
            w.problem("bad-ioctl", hex(request))
            raise OSError(errno.ENOTTY, "Inappropriate ioctl for device")
        raw = w.memory.read(addr, AIX_SIZE)
        f = dict(zip(AIX_NAMES, struct.unpack(AIX_FMT, raw)))

        def writeback():
            w.memory.write(addr, struct.pack(AIX_FMT, *[f[n] for n in AIX_NAMES]))

        def einval(code, what):
            w.problem("bad-header", what)
            f["einval_arg"] = code
            writeback()
            raise OSError(errno.EINVAL, "Invalid argument")

        if f["version"] != 2:
            einval(1, "version")
        if not 6 <= f["command_length"] <= 64:
            einval(13, "command length")
        if f["timeout_value"] <= 0:
            einval(17, "timeout")
        cdb = f["scsi_cdb"][:f["command_length"]]
        if any(f["scsi_cdb"][f["command_length"]:]):
            w.problem("bad-header", "bytes after the cdb")
        n = f["data_length"]
        direction = "none" if not n else ("in" if f["flags"] & 1 else "out")
        if n and not f["buffer"]:
            einval(21, "buffer")
        data = w.copy_in(f["buffer"], n, "data-out") if direction == "out" else b""
        sub = Submission(node=self.node, platform="aix", cdb=cdb, direction=direction, length=n, data_out=data,
                         timeout_us=f["timeout_value"] * 1000000, pack_id=0, data_addr=f["buffer"],
                         sense_addr=f["autosense_buffer_ptr"], sense_len=f["autosense_length"])
        o = self.node.device(sub)
        sub.outcome = o
        if o.submit_errno:
            w.fault("submit-errno")
            if o.submit_errno == errno.EINVAL:
                f["einval_arg"] = 19
                writeback()
            raise OSError(o.submit_errno, "simulated")
        w.record(sub)
        if o.hang or o.lost or o.lat > sub.timeout_us:
            if o.hang or o.lost:
                w.fault("device-hang")
            o = sub.outcome = Outcome(host=3, lat=sub.timeout_us)
        w.block(o.lat)
        sub.deliver(w.now)
        got = (o.data or b"")[:n] if direction == "in" else b""
        if o.api_error:
            w.fault("ioctl-errno")
            raise OSError(o.api_error, "simulated")
        w.copy_out(f["buffer"], got, "data-in")
        f["residual"] = n - len(got) if direction == "in" else 0
        bad = False
        if o.status:
            f["status_validity"] = 1
            f["scsi_bus_status"] = o.status
            bad = True
        elif o.host or o.driver:
            f["status_validity"] = 2
            f["adap_status_type"] = 2
            f["adapter_status"] = o.host or o.driver
            bad = True
        if o.sense:
            w.copy_out(f["autosense_buffer_ptr"], o.sense[:f["autosense_length"]], "sense")
            f["adap_set_flags"] |= 1
        writeback()
        w.trace("response", sub.seq, o.status, o.host)
        if bad and o.variant != 2:
            raise OSError(errno.EIO, "simulated")


class AixNode(Node):
    file_class = AixFile
