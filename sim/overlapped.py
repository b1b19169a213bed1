"""The overlapped engine: several commands at a time on overlapped Windows
handles, run by the real reactor on a simulated kernel32.

A case is a list of rounds; in each, up to 80 commands are given to async_wait
(or wait_for, or one by one to sync_wait).  A command is a coroutine of steps,
each step one SCSI command whose outcome and latency the scenario states."""

import importlib

from . import seams
from .scsi import *
from .transport import pick, pattern, errors
from .world import World, Outcome, SimAbort, INTERRUPTS
from .windows import WinNode, FLAG_OVERLAPPED, win_code

ENGINE = "overlapped"
PROPS = ("C14", "C13", "C07")
KINDS = {
    "wrong-result": {"C14"},
    "false-success": {"C14"},
    "wrong-error": {"C14"},
    "spurious-error": {"C14"},
    "step-wrong": {"C14"},
    "not-finished": {"C14"},
    "in-flight": {"C14"},
    "not-once": {"C14"},
    "hang": {"C14"},
    "event-leak": {"C07"},
    "event-closed-early": {"C07"},
    "used-after-close": {"C07"},
    "closed-twice": {"C07"},
    "freed-buffer": {"C13"},
    "beyond-buffer": {"C13"},
    "shared-buffer": {"C13"},
}
RULE = ("A case is 1 to 4 rounds of 0 to 80 concurrent commands of 1 to 4 SCSI commands each on 1 to 4 overlapped handles, with own or shared executers, "
        "all completion orders, I/O that completes at once or before it is waited for, failing statuses, failing and timed-out I/O, refused submissions, "
        "exceptions inside the coroutines and interruptions. Non-trivial: two or more operations were in flight at the same time, or an operation failed.")
REAL = ["Win32AsyncReactor, AsyncCoroutine, SyncCoroutine, async_wait, sync_wait", "Win32AsyncFile, WinAsyncIOToken", "Win32CommandExecuter"]
SIMULATED = ["kernel32.dll (CreateFile, DeviceIoControl, events, GetOverlappedResult, WaitForMultipleObjects)", "SCSI devices", "gevent's scheduler"]
ASSUMPTIONS = ["an event handle can always be created, and WaitForMultipleObjects itself does not fail",
               "when several commands fail, the error of any of them may be the one raised"]
OPTIONAL = ("status", "api_error", "submit_errno", "hang", "now", "catch", "interrupt", "own", "nested", "raise", "gevent", "how", "empty")
SHRINK_INT = {"lat": 0, "n": 1, "dev": 0}
NONEMPTY = ("rounds", "steps", "devs")


class Own(Exception):
    """Raised by a command itself."""


def gen_step(r, p, lats):
    st = {"n": r.choice([1, 8, 36, 512]), "lat": r.choice(lats), "out": r.random() < 0.2}
    if r.random() < p:
        k = r.choice(["status", "status", "api_error", "submit_errno", "hang"])
        st[k] = {"status": r.choice([2, 2, 8, 0x18, 0x28]), "api_error": r.choice([31, 1117, 995, 21, 2, 5, 6, 38, 87, 170, 234, 1167, 1460]), "submit_errno": r.choice([5, 5, 22, 22, 6, 8, 21, 31, 38, 170]), "hang": 1}[k]
    if r.random() < 0.2:
        st["now"] = r.choice([1, 1, 3])
    if r.random() < 0.3:
        st["catch"] = 1
    if r.random() < 0.03 and p:
        st["raise"] = 1
    if r.random() < 0.2:
        st["nested"] = r.choice([1, 2])
    return st


def gen(prop, r):
    big = r.random() < 0.15 and prop != "C13"
    p = r.choice([0, 0, 0.05, 0.2, 0.4])
    lats = r.choice([[100], [0, 10, 100, 1000], [10, 20, 30, 40, 50, 60, 70, 80], [1000, 500000, 9000000], [5, 10000000, 12000000], [0]])
    s = {"devs": [{} for _ in range(r.choice([1, 1, 2, 4]))], "rounds": [], "gevent": r.random() < 0.8}
    if prop == "C13":
        s["mem"] = True
    for _ in range(r.choice([1, 2, 3] if prop != "C13" else [1, 1, 2])):
        n = r.choice([63, 64, 65, 66, 80]) if big else r.choice([0, 1, 2, 2, 3, 3, 5, 8, 14] if prop != "C13" else [1, 2, 3, 4])
        rd = {"cmds": []}
        how = pick(r, [("async_wait", 5), ("wait_for", 2), ("sync", 1 if n < 16 else 0)])
        if how != "async_wait":
            rd["how"] = how
        for _ in range(n):
            c = {"dev": r.randrange(4), "steps": [gen_step(r, p, lats) for _ in range(r.choice([1, 1, 1, 2, 3, 4] if not big else [1, 1, 2]))]}
            if r.random() < 0.3:
                c["own"] = 1
            if r.random() < 0.1:
                c["empty"] = 1                      # the command yields a value of its own without any I/O
            rd["cmds"].append(c)
        if r.random() < 0.1 and n and how != "sync":
            rd["interrupt"] = {"site": "gevent", "n": r.randrange(0, 2 * n), "exc": r.choice(["timeout", "kill", "kbd"])}
        s["rounds"].append(rd)
    return s


class Step(object):
    __slots__ = ("op", "token", "sub", "device", "round", "cmd")


class Run(object):
    def __init__(self, s):
        self.s = s
        self.violations = []
        self.stats = {}
        self.hit = 0
        w = self.w = World("windows-2012", gevent=s.get("gevent", False), max_steps=60000)
        w.check_memory = bool(s.get("mem"))
        self.paths = []
        self.steps = {}
        self.serial = 0
        self.submitted = {}
        self.flying = []
        for i in range(len(s["devs"])):
            p = "\\\\.\\sim%d" % i
            w.add_node(p, WinNode(self.device))
            self.paths.append(p)

    def bad(self, kind, text):
        self.violations.append((kind, text))

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def device(self, sub):
        t = un(sub.cdb[2:6])
        op = self.steps[t]
        self.submitted[t] = self.submitted.get(t, 0) + 1
        o = Outcome(lat=op["lat"], data=pattern(t, op["n"]))
        self.flying = [x for x in self.flying if not x.done]
        if self.flying:
            self.hit += 1
            if self.w.check_memory:
                self.overlaps(sub)
        if op.get("submit_errno"):
            o.submit_errno = op["submit_errno"]
            return o
        self.flying.append(sub)
        if op.get("hang"):
            o.hang = True
        elif op.get("api_error"):
            o.api_error = op["api_error"]
        elif op.get("status"):
            o.status = op["status"]
            if o.status == 2:
                o.sense = fixed_sense(3, 0x11, 0, info=t)
        if op.get("now"):
            o.variant = op["now"]
        return o

    def overlaps(self, sub):
        def ranges(x):
            out = [("structure", x.struct_addr, 56 + x.sense_len)]
            if x.direction != "none":
                out.append(("data", x.data_addr, x.length))
            return out
        for other in self.flying:
            for a, b, n in ranges(other):
                for c, d, m in ranges(sub):
                    if b < d + m and d < b + n:
                        self.bad("shared-buffer", "the %s of a command overlaps the %s of another still in flight" % (c, a))

    # what a step must do
    @staticmethod
    def fails(op):
        if op.get("submit_errno"):
            return "submit"
        if op.get("hang") or op["lat"] > 10000000 and op.get("now") != 1:
            return "api"
        if op.get("now") == 1 and op["lat"] > 10000000:
            return "api"
        if op.get("api_error"):
            return "api"
        if op.get("status"):
            return "status"
        return None

    def matches(self, exc, t, op):
        """Is exc the error this step must raise?"""
        e = errors()
        win = importlib.import_module("infi.asi.win32")
        kind = self.fails(op)
        if kind == "status" and op["status"] == 2:
            return isinstance(exc, e.AsiCheckConditionError) and exc.sense_buffer[:18] == fixed_sense(3, 0x11, 0, info=t)
        if kind == "status":
            return isinstance(exc, e.AsiSCSIError) and not isinstance(exc, e.AsiCheckConditionError)
        if kind == "submit":
            return isinstance(exc, win.AsiWin32OSError) and exc.win32_errno == win_code(op["submit_errno"])
        want = 121 if op.get("hang") or op["lat"] > 10000000 else op["api_error"]
        return isinstance(exc, win.AsiWin32OSError) and exc.win32_errno == want

    def command(self, c, executer, hist):
        asi = importlib.import_module("infi.asi")
        toks = []
        for op in c["steps"]:
            self.serial += 1
            toks.append(self.serial)
            self.steps[self.serial] = op
        c = {"c": c, "toks": toks}

        def io(t, op, depth):
            cdb = bytes([0xC0, 0]) + be(4, t) + b"\0\0\0\0"
            cmd = asi.SCSIWriteCommand(cdb, pattern(t, op["n"])) if op.get("out") else asi.SCSIReadCommand(cdb, op["n"])
            if depth:
                got = yield io(t, op, depth - 1)
            else:
                got = yield executer.call(cmd)
            yield got

        def body():
            total = []
            try:
                for t, op in zip(toks, c["c"]["steps"]):
                    if op.get("raise"):
                        hist.append(("own", t))
                        raise Own(t)
                    try:
                        nested = op.get("nested", 0)
                        got = yield io(t, op, nested)
                    except Exception as exc:
                        hist.append(("error", t, exc))
                        if not op.get("catch"):
                            raise
                        total.append("failed")
                        continue
                    except BaseException as exc:
                        hist.append(("interrupted", t, exc))
                        raise
                    hist.append(("ok", t, got))
                    total.append(got)
                    if c["c"].get("empty"):
                        total.append((yield "plain"))
            finally:
                hist.append(("end",))
            yield total
        return body(), toks

    def expected(self, c, toks):
        """-> (history, value or None, token of the failing step or None)"""
        hist, total = [], []
        for t, op in zip(toks, c["steps"]):
            if op.get("raise"):
                return hist + [("own", t), ("end",)], None, t
            k = self.fails(op)
            if k:
                hist.append(("error", t))
                if not op.get("catch"):
                    return hist + [("end",)], None, t
                total.append("failed")
                continue
            data = None if op.get("out") else pattern(t, op["n"])
            hist.append(("ok", t, data))
            total.append(data)
            if c.get("empty"):
                total.append("plain")
        return hist + [("end",)], total, None

    def judge_history(self, hist, want, interrupted):
        for i, h in enumerate(hist):
            if h[0] == "interrupted":
                if not interrupted:
                    self.bad("spurious-error", "%s inside a command" % type(h[2]).__name__)
                return
            if i >= len(want):
                self.bad("step-wrong", "a command did more than its steps: %r" % (h[0],))
                return
            x = want[i]
            if h[0] != x[0] or len(h) > 1 and h[1] != x[1]:
                kind = "false-success" if (h[0], x[0]) == ("ok", "error") else "spurious-error" if (h[0], x[0]) == ("error", "ok") else "step-wrong"
                self.bad(kind, "a step of a command ended as %s%s, it should be %s" %
                         (h[0], " (%s: %s)" % (type(h[2]).__name__, h[2]) if h[0] == "error" else "", x[0]))
                return
            if h[0] == "error" and not self.matches(h[2], h[1], self.steps[h[1]]):
                self.bad("wrong-error", "a step got %s: %s, which is not the error of its I/O" % (type(h[2]).__name__, h[2]))
                return
            if h[0] == "ok" and (h[2] or None) != (x[2] or None):
                self.bad("step-wrong", "a step got %r instead of its own data" % (h[2][:16] if isinstance(h[2], bytes) else h[2],))
                return
        if len(hist) < len(want):
            self.bad("not-finished", "a command had not ended when waiting for it did: after %d of %d events" % (len(hist), len(want)))

    def round(self, rd):
        from infi.asi.coroutines.sync_adapter import async_wait, sync_wait
        asi = importlib.import_module("infi.asi")
        w = self.w
        how = rd.get("how", "async_wait")
        gens, hists, wants = [], [], []
        for c in rd["cmds"]:
            f, shared = self.files[c["dev"] % len(self.files)]
            ex = asi.create_platform_command_executer(f) if c.get("own") else shared
            hist = []
            g, toks = self.command(c, ex, hist)
            gens.append(g)
            hists.append(hist)
            wants.append(self.expected(c, toks))
        fired0 = w.interrupts_fired
        w.interrupt = dict(rd["interrupt"]) if rd.get("interrupt") else None
        result = exc = None
        try:
            if how == "sync":
                result = []
                for g, want in zip(gens, wants):
                    try:
                        result.append(sync_wait(g))
                    except SimAbort:
                        raise
                    except BaseException as e:
                        result.append(e)
            elif how == "wait_for":
                result = asi.create_os_async_reactor().wait_for(*gens)
            else:
                result = async_wait(*gens)
        except SimAbort:
            return
        except BaseException as e:
            if type(e).__name__ == "GreenletExit":
                raise
            exc = e
        if w.dead:
            return
        interrupted = w.interrupts_fired > fired0
        w.interrupt = None
        self.stat("rounds")
        self.stat("commands", len(gens))
        for h, want in zip(hists, wants):
            self.judge_history(h, want[0], interrupted)
        flying = [x for x in self.flying if not x.done]
        if flying:
            self.bad("in-flight", "%d operations are still in flight when waiting has ended" % len(flying))
        for t, n in self.submitted.items():
            if n > 1:
                self.bad("not-once", "a command was submitted %d times" % n)
        failing = [(i, want[2]) for i, want in enumerate(wants) if want[2] is not None]
        if how == "sync":
            for want, r in zip(wants, result):
                if want[2] is None:
                    if r != want[1]:
                        self.bad("wrong-result", "a command returned %r" % (r,))
                elif not self.is_error_of(r, want[2]):
                    self.bad("wrong-error", "a command raised %r" % (r,))
        elif exc is not None:
            self.stat("rounds that raised")
            if interrupted and type(exc) in tuple(INTERRUPTS.values()):
                pass
            elif not failing and not interrupted:
                self.bad("spurious-error", "waiting raised %s: %s but no command fails" % (type(exc).__name__, exc))
            elif not any(self.is_error_of(exc, t) for _, t in failing):
                self.bad("wrong-error", "waiting raised %s: %s which is not the error of a failing command" % (type(exc).__name__, exc))
        else:
            if failing:
                self.bad("false-success", "waiting returned although %d commands failed" % len(failing))
            elif interrupted:
                self.bad("false-success", "waiting returned although a command was interrupted")
            elif not isinstance(result, (list, tuple)) or list(result) != [want[1] for want in wants]:
                self.bad("wrong-result", "the results are not those of the commands, in order: %s" % self.first_difference(result, wants))
        if w.win_events:
            self.bad("event-leak", "%d events are open after all I/O has completed" % len(w.win_events))
            w.win_events.clear()

    @staticmethod
    def first_difference(result, wants):
        if not isinstance(result, (list, tuple)) or len(result) != len(wants):
            return "%s of %s" % (type(result).__name__, len(result) if hasattr(result, "__len__") else "?")
        i = [i for i in range(len(wants)) if result[i] != wants[i][1]][0]
        return "number %d of %d" % (i, len(wants))

    def is_error_of(self, exc, t):
        op = self.steps[t]
        if op.get("raise"):
            return isinstance(exc, Own) and exc.args == (t,)
        return self.matches(exc, t, op)

    def execute(self):
        w = self.w
        seams.activate(w)
        try:
            asi = importlib.import_module("infi.asi")
            self.files = []
            for p in self.paths:
                f = asi.create_async_os_file(p)
                self.files.append((f, asi.create_platform_command_executer(f, max_queue_size=100)))
            for rd in self.s["rounds"]:
                self.round(rd)
                if w.dead or self.violations:
                    break
            if not w.dead:
                for f, _ in self.files:
                    f.close()
        except SimAbort:
            pass
        finally:
            seams.activate(None)
        for k, d in w.problems:
            kind = {"use-after-close": "used-after-close", "double-close": "closed-twice", "overlapped-reused": "shared-buffer"}.get(k, k)
            if kind in KINDS:
                self.bad(kind, "%s %s" % (k, d))
            elif k == "bad-header":
                self.bad("step-wrong", "bad request: %s" % d)
        if w.dead:
            self.bad("hang", "the round did not end (%s)" % w.dead)
        elif [o for o in w.open_log if not o.closed]:
            self.bad("used-after-close", "a closed file is still open")
        return self


def run(scenario):
    return Run(scenario).execute()


def nontrivial(r):
    return r.hit > 0 or bool(r.w.faults)


def count(r):
    return {}
