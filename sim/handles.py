"""The handle engine: programs of nested sessions on device handles, opened with
the library's context managers, with failures at every point; the simulated
kernels keep a ledger of every descriptor and handle."""

import errno
import importlib

from . import seams
from .scsi import *
from .transport import pick, pattern, errors
from .world import World, Outcome, SgNode, SolarisNode, AixNode, SimAbort
from .windows import WinNode

ENGINE = "handles"
PROPS = ("C07",)
KINDS = {
    "not-closed": {"C07"},
    "closed-twice": {"C07"},
    "used-after-close": {"C07"},
    "closed-early": {"C07"},
    "exception-lost": {"C07"},
    "body-ran": {"C07"},
    "open-refused": {"C07"},
    "command-failed": {"C07"},
    "hang": {"C07"},
}
RULE = ("A case is a program of up to 8 sessions (linux_sg, linux_dm, windows, solaris, aix context managers; nested, sequential, in closed generators, "
        "left by return, in up to 3 greenlets, or a plain file closed twice on Windows) whose bodies run commands and raise, with failures of open, of "
        "executer creation, of commands, of allocation and of close, and exceptions raised inside blocking calls. Non-trivial: at least one session was "
        "left by an exception or failed to open.")
REAL = ["infi.asi.executers", "create_os_file, create_platform_command_executer", "UnixFile, Win32File, and the five executers", "sync_wait"]
SIMULATED = ["the sg driver, USCSICMD, DK_PASSTHRU, kernel32.dll, libc of AIX", "clocks, select, gevent's scheduler, platform detection", "SCSI devices"]
ASSUMPTIONS = ["after a failed close() on UNIX the descriptor is gone (Linux semantics); after a failed CloseHandle it is not, and may be closed again",
               "when both the body and the close fail, either exception may reach the caller"]
OPTIONAL = ("low", "gevent", "lat", "interrupt", "alloc_fail_at", "platform_fail", "no_libc", "how", "submit_errno", "status")
SHRINK_INT = {"lat": 0, "n": 0, "open_faults": 0, "close_faults": 0, "sched": 0}
NONEMPTY = ("tasks",)

KINDS_OF = ("linux_sg", "linux_dm", "windows", "solaris", "aix")
PLATFORM = {"linux_sg": "linux-ubuntu", "linux_dm": "linux-ubuntu", "windows": "windows-2012", "solaris": "solaris-11", "aix": "aix-7"}
EXCS = ("A", "B", "StopIteration", "GeneratorExit", "KeyboardInterrupt", "SystemExit", "RuntimeError", "IOError", "AsiException", "StopIterationValue")
HOWS = ("with", "gen-close", "gen-throw", "return", "manual", "gen-done")


class BodyA(Exception):
    pass


class BodyB(BaseException):
    pass


def make_exc(name):
    if name == "A":
        return BodyA("body")
    if name == "B":
        return BodyB("body")
    if name == "AsiException":
        return errors().AsiException("body")
    if name == "StopIterationValue":
        return StopIteration(42)
    if name == "IOError":
        return IOError(errno.EIO, "body")
    return {"StopIteration": StopIteration, "GeneratorExit": GeneratorExit, "KeyboardInterrupt": KeyboardInterrupt,
            "SystemExit": SystemExit, "RuntimeError": RuntimeError}[name]("body")


# ---- generation ----------------------------------------------------------------------------------

def gen_call(r, p):
    op = {"op": "call", "n": r.choice([0, 4, 36, 512]), "out": r.random() < 0.3, "lat": r.choice([0, 50, 3000, 30000])}
    if r.random() < p:
        if r.random() < 0.3:
            op["submit_errno"] = r.choice([5, 12, 22])
        else:
            op["status"] = r.choice([2, 8, 0x18, 0x28])
    return op


def gen_body(r, depth, p, budget, kind):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        k = pick(r, [("call", 5), ("session", 2 if depth < 3 else 0), ("raise", 6 * p), ("try", 1.5 if depth < 4 else 0), ("return", 0.4)])
        if k == "call":
            out.append(gen_call(r, p))
        elif k == "session":
            out.append(gen_session(r, depth + 1, p, budget, kind))
        elif k == "raise":
            out.append({"op": "raise", "e": r.choice(EXCS)})
            break
        elif k == "try":
            out.append({"op": "try", "body": gen_body(r, depth + 1, p, budget, kind)})
        else:
            out.append({"op": "return"})
            break
    return out


def gen_session(r, depth, p, budget, kind):
    s = {"op": "session", "dev": r.randrange(3), "body": gen_body(r, depth, p, budget, kind)}
    how = pick(r, [("with", 6), ("gen-close", 1), ("gen-throw", 1), ("return", 1), ("manual", 1), ("gen-done", 1),
                   ("file-twice", 1 if kind == "windows" else 0)])
    if how != "with":
        s["how"] = how
    if r.random() < 0.03:
        s["dev"] = 9                    # no such device
    return s


def gen(prop, r):
    kind = r.choice(KINDS_OF)
    p = r.choice([0.0, 0.1, 0.25, 0.4])
    s = {"kind": kind, "tasks": []}
    for _ in range(pick(r, [(1, 6), (2, 2), (3, 1)])):
        budget = [r.choice([6, 12, 25])]
        s["tasks"].append([gen_session(r, 0, p, budget, kind) for _ in range(r.choice([1, 1, 2, 4]))])
    s["gevent"] = r.random() < 0.8
    if r.random() < 0.7:
        s["reuse"] = 1
    if r.random() < 0.15:
        s["low"] = 1
    if len(s["tasks"]) > 1:
        s["sched"] = [r.randrange(6) for _ in range(r.choice([20, 100]))]
    s["open_faults"] = [r.choice([2, 13, 24, 16]) if r.random() < r.choice([0, 0.1, 0.3]) else 0 for _ in range(6)]
    s["close_faults"] = [r.choice([5, 4, 28]) if r.random() < r.choice([0, 0, 0.1, 0.3]) else 0 for _ in range(8)]
    if r.random() < 0.25:
        s["platform_fail"] = sorted(set(r.randrange(8) for _ in range(r.choice([1, 2]))))
    if r.random() < 0.2:
        s["interrupt"] = {"site": r.choice(["gevent", "sleep", "select", "write", "ioctl"]), "n": r.randrange(6), "exc": r.choice(["timeout", "kill", "kbd"])}
    if r.random() < 0.2:
        s["alloc_fail_at"] = r.randrange(1, 20)
    if kind == "aix" and r.random() < 0.25:
        s["no_libc"] = True
    return s


# ---- execution -----------------------------------------------------------------------------------

class Left(Exception):
    """Never leaves the engine: a `return` inside a body."""


class PlatformError(OSError):
    pass


class Run(object):
    def __init__(self, s):
        self.s = s
        self.violations = []
        self.stats = {}
        self.hurt = 0
        kind = s["kind"]
        self.kind = kind
        w = self.w = World(PLATFORM[kind], gevent=s.get("gevent", False), sched=s.get("sched", ()), max_steps=60000)
        w.open_faults = list(s["open_faults"])
        w.reuse = bool(s.get("reuse"))
        w.low = s.get("low")
        w.close_faults = list(s["close_faults"])
        w.alloc_fail_at = s.get("alloc_fail_at")
        w.interrupt = dict(s["interrupt"]) if s.get("interrupt") else None
        w.aix_libc = not s.get("no_libc")
        self.platform_calls = 0
        w.platform_hook = self.platform_hook
        cls = {"linux_sg": SgNode, "linux_dm": SgNode, "windows": WinNode, "solaris": SolarisNode, "aix": AixNode}[kind]
        self.paths = ["/dev/sim%d" % i for i in range(3)]
        for i in range(3):
            w.add_node(self.paths[i], cls(self.device))
        self.ops = {}
        self.serial = 0

    def bad(self, kind, text):
        self.violations.append((kind, text))

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def platform_hook(self):
        n = self.platform_calls
        self.platform_calls += 1
        if n in self.s.get("platform_fail", ()):
            self.w.fault("platform-detection-failed")
            raise PlatformError(errno.EMFILE, "Too many open files")

    def device(self, sub):
        n = un(sub.cdb[2:6])
        op = self.ops.get(n, {})
        o = Outcome(lat=op.get("lat", 0), data=pattern(n, op.get("n", 0)))
        if op.get("submit_errno"):
            o.submit_errno = op["submit_errno"]
        elif op.get("status"):
            o.status = op["status"]
            if o.status == 2:
                o.sense = fixed_sense(5, 0x20, 0)
        return o

    def trouble(self):
        """Faults fired so far that may make opening or a command fail."""
        w = self.w
        return sum(v for k, v in w.faults.items() if k != "close-errno")

    def unsure(self):
        """A command was cut short: its slot may be in use until somebody waits for it."""
        return self.w.interrupts_fired or self.w.faults.get("allocation-failure")

    def body(self, ops, executer):
        for op in ops:
            k = op["op"]
            if k == "call":
                self.call(op, executer)
            elif k == "session":
                self.session(op)
            elif k == "raise":
                e = make_exc(op["e"])
                self.w.trace("raise", op["e"])
                raise e
            elif k == "try":
                try:
                    self.body(op["body"], executer)
                except (SimAbort, Left):
                    raise
                except BaseException as e:
                    if type(e).__name__ == "GreenletExit":
                        raise
                    self.stat("handled in a body")
            elif k == "return":
                raise Left()

    def call(self, op, executer):
        asi = importlib.import_module("infi.asi")
        wait = importlib.import_module("infi.asi.coroutines.sync_adapter").sync_wait
        self.serial += 1
        n = self.serial
        self.ops[n] = op
        cdb = bytes([0xC0, 0]) + be(4, n) + b"\0\0\0\0"
        cmd = asi.SCSIWriteCommand(cdb, pattern(n, op["n"])) if op.get("out") else asi.SCSIReadCommand(cdb, op["n"])
        before = self.trouble()
        self.stat("commands")
        try:
            got = wait(executer.call(cmd))
        except Exception as e:
            if type(e).__name__ != "GreenletExit" and not op.get("status") and not op.get("submit_errno") and self.trouble() == before and \
                    not self.unsure() and len(self.s["tasks"]) == 1 and not self.w.dead:
                self.bad("command-failed", "a command inside the session failed although the device was fine: %s: %s" % (type(e).__name__, e))
            raise
        if op.get("status") or op.get("submit_errno"):
            return          # C03 judges that
        if not self.unsure() and not op.get("out") and op["n"] and got != pattern(n, op["n"]) and len(self.s["tasks"]) == 1:
            self.bad("command-failed", "a command inside the session returned other data")

    # one session, in one of the ways a user may write it
    def session(self, op):
        ex = importlib.import_module("infi.asi.executers")
        w = self.w
        dev = op["dev"]
        path = self.paths[dev] if dev < 3 else "/dev/sim-none"
        st = {"entered": False, "fds": None, "body": None, "left": False, "opened0": None}
        cm_of = getattr(ex, self.kind)
        task = w.current.name if w.current else None
        before = self.trouble()
        mark = len(w.open_log)
        close0 = w.faults.get("close-errno", 0)
        single = len(self.s["tasks"]) == 1
        run_body = self.body

        def entered(x):
            st["entered"] = True
            st["fds"] = self.fresh(mark, path, task)
            self.stat("sessions")
            if not st["fds"]:
                self.bad("closed-early", "the body of a session on %s runs, but no handle is open" % path)

        def inside(x):
            try:
                run_body(op["body"], x)
            except Left:
                st["left"] = True
            except BaseException as e:
                st["body"] = e
                raise
            finally:
                for o in st["fds"]:
                    if o.closed and not w.dead:
                        self.bad("closed-early", "the handle was closed before its session was left")
                st["close0"] = w.faults.get("close-errno", 0)

        outer = None
        how = op.get("how", "with")
        try:
            if how == "with" or how == "return":
                def use():
                    with cm_of(path) as x:
                        entered(x)
                        inside(x)
                        if how == "return":
                            return 1
                use()
            elif how == "manual":
                cm = cm_of(path)
                x = cm.__enter__()
                entered(x)
                try:
                    inside(x)
                except BaseException as e:
                    if type(e).__name__ == "GreenletExit":
                        raise
                    if not cm.__exit__(type(e), e, e.__traceback__):
                        raise
                else:
                    cm.__exit__(None, None, None)
            elif how == "file-twice":
                asi = importlib.import_module("infi.asi")
                f = asi.create_os_file(path)
                try:
                    x = asi.create_platform_command_executer(f)
                    entered(x)
                    inside(x)
                except BaseException:
                    st["entered"] = True
                    st["fds"] = st["fds"] or self.fresh(mark, path, task)
                    raise
                finally:
                    try:
                        f.close()
                    finally:
                        f.close()
            else:
                def g():
                    with cm_of(path) as x:
                        entered(x)
                        yield x
                        if how == "gen-done":
                            inside(x)
                it = g()
                x = next(it)
                try:
                    if how != "gen-done":
                        inside(x)
                except BaseException as e:
                    if type(e).__name__ == "GreenletExit":
                        raise
                    if how == "gen-throw" and not isinstance(e, (StopIteration, GeneratorExit)):
                        it.throw(e)
                    else:
                        it.close()
                    raise
                if how == "gen-done":
                    try:
                        next(it)
                    except StopIteration:
                        pass
                    except RuntimeError as e:
                        if isinstance(e.__cause__, StopIteration):      # a StopIteration in a generator (PEP 479)
                            raise e.__cause__
                        raise
                else:
                    it.close()
        except BaseException as e:
            if type(e).__name__ == "GreenletExit" or isinstance(e, SimAbort):
                raise
            outer = e
        if w.dead:
            return
        self.judge(op, how, st, outer, path, task, mark, before, single, close0)
        if outer is not None:
            self.hurt += 1
            raise outer

    def fresh(self, mark, path, task):
        """Handles on this path opened by this task since the mark."""
        return [o for o in self.w.open_log[mark:] if o.path == path and o.task == task]

    def judge(self, op, how, st, outer, path, task, mark, before, single, close0):
        w = self.w
        mine = st["fds"] if st["entered"] else self.fresh(mark, path, task)
        close_failed = w.faults.get("close-errno", 0) > (st.get("close0") if st["entered"] and "close0" in st else close0)
        for o in mine or ():
            n = o.closed
            if n == 0 and not (close_failed and self.kind == "windows"):
                self.bad("not-closed", "the session on %s was left (%s, %s) but its handle is still open" %
                         (path, how, type(outer).__name__ if outer is not None else "normally"))
            if n > 1:
                self.bad("closed-twice", "handle closed %d times" % n)
        if not st["entered"]:
            if outer is None:
                self.bad("body-ran", "opening %s failed, but no exception was raised" % path)
            elif single and op["dev"] < 3 and self.trouble() == before and not close_failed:
                self.bad("open-refused", "a session on %s could not be opened: %s: %s" % (path, type(outer).__name__, outer))
            return
        if st["body"] is not None:
            if outer is None:
                self.bad("exception-lost", "%s left the body of a session (%s) but did not reach the caller" % (type(st["body"]).__name__, how))
            elif outer is not st["body"] and not close_failed:
                self.bad("exception-lost", "%s left the body of a session (%s) but the caller got %s: %s" %
                         (type(st["body"]).__name__, how, type(outer).__name__, outer))
        elif outer is not None and not close_failed and self.trouble() == before and single:
            self.bad("exception-lost", "the body of a session (%s) ended normally but the caller got %s: %s" % (how, type(outer).__name__, outer))

    def task_main(self, ops):
        def main():
            for op in ops:
                try:
                    self.session(op)
                except SimAbort:
                    raise
                except BaseException as e:
                    if type(e).__name__ == "GreenletExit":
                        raise
        return main

    def execute(self):
        w = self.w
        seams.activate(w)
        try:
            if len(self.s["tasks"]) == 1:
                self.task_main(self.s["tasks"][0])()
            else:
                for i, t in enumerate(self.s["tasks"]):
                    w.spawn("t%d" % i, self.task_main(t))
                w.run_tasks()
                for t in w.tasks:
                    if t.error is not None and not isinstance(t.error, SimAbort):
                        raise t.error
        except SimAbort:
            pass
        finally:
            seams.activate(None)
        if w.dead:
            self.bad("hang", "the program did not end (%s)" % w.dead)
            return self
        for k, d in w.problems:
            if k == "use-after-close":
                self.bad("used-after-close", "a %s was used after it was closed" % d)
            elif k == "double-close":
                self.bad("closed-twice", "a %s was closed again" % d)
        if not w.faults.get("close-errno") or self.kind != "windows":
            left = [o for o in w.open_log if not o.closed]
            if left:
                self.bad("not-closed", "%d of %d handles are open when every session has ended" % (len(left), len(w.open_log)))
        return self


def run(scenario):
    return Run(scenario).execute()


def nontrivial(r):
    return r.hurt > 0


def count(r):
    return {}
