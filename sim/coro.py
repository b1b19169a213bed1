"""The coroutine engine: a generated program runs once as coroutines under the
code under test (synchronously, or several at a time under the asynchronous
reactor, with real I/O on a simulated kernel) and once as plain direct-style
calls; the two histories and outcomes must be the same.

A program is a list of functions, a function a list of statements (JSON); both
forms are produced from it as Python source."""

import importlib

from . import seams
from .scsi import *
from .transport import pick, pattern, errors
from .world import World, Outcome, SgNode, SimAbort
from .windows import WinNode

ENGINE = "coro"
PROPS = ("C08",)
KINDS = {
    "history-differs": {"C08"},
    "outcome-differs": {"C08"},
    "io-not-once": {"C08"},
    "called-twice": {"C08"},
    "hang": {"C08"},
}
RULE = ("A case is a random program of up to 6 mutually nested coroutines (yields of plain values, sub-coroutines, I/O tokens and SCSI commands, "
        "try/except/else/finally, raise, re-raise, loops, conditions, returns, sub-coroutines created early), with scripted I/O results, "
        "exceptions and latencies, run synchronously or up to 4 at a time under the Windows reactor. Non-trivial: the direct-style run "
        "raised or handled at least one exception, or performed I/O.")
REAL = ["infi.asi.coroutines.sync_adapter", "Win32AsyncReactor, Win32AsyncFile, Win32File, WinAsyncIOToken", "the Linux and Windows executers"]
SIMULATED = ["kernel32.dll, the sg driver, select, clocks, gevent's scheduler", "SCSI devices", "I/O tokens yielded directly"]
ASSUMPTIONS = ["what `return value` in a coroutine means, and exception instances yielded as plain values, are left unspecified",
               "a coroutine whose last yield raised and was handled without a further yield has the result None"]
OPTIONAL = ("early", "bind", "else", "finally", "except", "gevent", "lat")
SHRINK_INT = {"lat": 0, "n": 1, "v": 0}
NONEMPTY = ("funcs", "programs")

VALUES = [0, 1, "", "a", None, False, True, b"xy", (1, 2), [], 7, {"k": 1}, 3.5]
EXCS = ("A", "B", "BASE", "KeyboardInterrupt", "SystemExit", "ValueError")
CATCH = ("A", "B", "A2", "Exception", "BaseException", "AsiSCSIError", "OS", "ValueError", "BASE", "KeyboardInterrupt")


# ---- generation --------------------------------------------------------------------------------

class Gen(object):
    def __init__(self, rng, mode, n_funcs):
        self.rng, self.mode, self.n = rng, mode, n_funcs
        self.budget = rng.choice([12, 25, 50])
        self.mark = 0
        self.p_exc = rng.choice([0.0, 0.15, 0.3])

    def io(self):
        r = self.rng
        k = pick(r, [("good", 5), ("check", 1.5 if self.p_exc else 0), ("busy", 1 if self.p_exc else 0), ("refused", 1 if self.p_exc else 0)])
        o = {"op": "io", "k": k, "n": r.choice([0, 1, 8, 36]), "lat": r.choice([0, 0, 20, 300, 5000, 20000])}
        if self.mode in ("async", "reactor") and r.random() < 0.3:
            o["now"] = r.choice([1, 3])
        return o

    def block(self, f, depth, in_loop, in_handler, at_least=0):
        out = []
        for _ in range(max(at_least, self.rng.choice([0, 1, 2, 2, 3, 4]))):
            if self.budget <= 0:
                break
            out.append(self.stmt(f, depth, in_loop, in_handler))
        return out

    def stmt(self, f, depth, in_loop, in_handler):
        r = self.rng
        self.budget -= 1
        w = [("mark", 2), ("val", 3), ("sub", 4 if f + 1 < self.n else 0), ("io", 2.5 if self.mode != "none" else 0),
             ("tok", 2.5 if self.mode != "reactor" else 0),
             ("raise", 8 * self.p_exc * 0.5), ("try", (3 if self.p_exc else 1) if depth < 4 else 0), ("loop", 0.8 if depth < 3 else 0),
             ("if", 0.8 if depth < 3 else 0), ("return", 0.4), ("break", 0.5 if in_loop else 0), ("continue", 0.3 if in_loop else 0),
             ("reraise", 1.2 if in_handler else 0)]
        k = pick(r, w)
        if k == "mark":
            return {"op": "mark"}
        if k == "val":
            return {"op": "val", "v": r.randrange(len(VALUES))}
        if k == "sub":
            s = {"op": "sub", "f": r.randrange(f + 1, self.n)}
            if r.random() < 0.15:
                s["early"] = 1
            return s
        if k == "io":
            return self.io()
        if k == "tok":
            s = {"op": "tok", "v": r.randrange(len(VALUES))}
            if r.random() < self.p_exc:
                s["raise"] = r.choice(EXCS[:3] + ("OSError",))
            return s
        if k == "raise":
            return {"op": "raise", "e": r.choice(EXCS)}
        if k == "try":
            t = {"op": "try", "body": self.block(f, depth + 1, in_loop, in_handler, 1)}
            if r.random() < 0.75:
                t["except"] = [{"on": r.choice(CATCH), "body": self.block(f, depth + 1, in_loop, True)} for _ in range(r.choice([1, 1, 2]))]
                if r.random() < 0.25:
                    t["else"] = self.block(f, depth + 1, in_loop, in_handler)
            if r.random() < 0.4 or "except" not in t:
                t["finally"] = self.block(f, depth + 1, False, False)
            return t
        if k == "loop":
            return {"op": "loop", "n": r.choice([1, 2, 2, 3]), "body": self.block(f, depth + 1, True, in_handler, 1)}
        if k == "if":
            return {"op": "if", "body": self.block(f, depth + 1, in_loop, in_handler), "orelse": self.block(f, depth + 1, in_loop, in_handler)}
        return {"op": k}

    def program(self):
        return {"funcs": [self.block(f, 0, False, False, 1) for f in range(self.n)]}


def gen(prop, rng):
    mode = pick(rng, [("none", 3), ("sg", 2), ("win", 1), ("async", 1.5), ("reactor", 4)])
    count = rng.choice([1, 2, 3, 4]) if mode == "reactor" else 1
    s = {"engine": ENGINE, "mode": mode, "gevent": rng.random() < 0.5,
         "programs": [Gen(rng, mode, rng.choice([1, 2, 3, 4, 6])).program() for _ in range(count)]}
    if mode != "reactor":
        s["how"] = rng.choice(["wait", "wait", "call"])
    if rng.random() < 0.05 and mode != "reactor":
        s["deep"] = rng.choice([20, 100, 250])
    return s


# ---- the two forms -----------------------------------------------------------------------------

class Source(object):
    """Python source of one program, as coroutines or in direct style."""
    def __init__(self, program, coroutine):
        self.co = coroutine
        self.lines = []
        self.site = 0
        self.funcs = program["funcs"]
        for i, body in enumerate(self.funcs):
            if self.co:
                self.lines.append("def f%d(ctx):" % i)
            else:
                self.lines += ["def f%d(ctx):" % i, "    last = [None]", "    body%d(ctx, last)" % i, "    return last[0]", "def body%d(ctx, last):" % i]
            self.fn = i
            self.emit(1, "me = ctx.enter(%d)" % i)
            self.emit(1, "x = None")
            early = self.early_subs(body)
            self.names = {}
            for n, s in enumerate(early):
                self.names[id(s)] = "early%d" % n
                if self.co:
                    self.emit(1, "early%d = f%d(ctx)" % (n, s["f"]))
                else:
                    self.emit(1, "early%d = lambda: f%d(ctx)" % (n, s["f"]))
            self.block(1, body, False, False)
            if self.co:
                self.emit(1, "ctx.log(me, 'end')")
                self.emit(1, "return")
                self.emit(1, "yield")
            else:
                self.emit(1, "ctx.log(me, 'end')")

    def early_subs(self, body):
        """Sub-coroutines created at the start; only outside loops, so that each is used at most once."""
        out = []
        for s in body:
            if s["op"] == "sub" and s.get("early") and s["f"] > self.fn and s["f"] < len(self.funcs):
                out.append(s)
            elif s["op"] == "try":
                out += self.early_subs(s.get("body", []))
                for h in s.get("except", []):
                    out += self.early_subs(h.get("body", []))
                out += self.early_subs(s.get("else", [])) + self.early_subs(s.get("finally", []))
            elif s["op"] == "if":
                out += self.early_subs(s.get("body", [])) + self.early_subs(s.get("orelse", []))
        return out

    def emit(self, depth, text):
        self.lines.append("    " * depth + text)

    def block(self, depth, body, in_loop, in_handler):
        if not body:
            self.emit(depth, "pass")
        for s in body:
            self.stmt(depth, s, in_loop, in_handler)

    def stmt(self, d, s, in_loop, in_handler):
        self.site += 1
        n = self.site
        k = s["op"]
        if k == "mark":
            self.emit(d, "ctx.log(me, 'mark %d')" % n)
        elif k in ("val", "sub", "io", "tok"):
            if k == "val":
                what = "VALUES[%d]" % s["v"]
            elif k == "sub":
                if s["f"] <= self.fn or s["f"] >= len(self.funcs):
                    return
                if id(s) in self.names:
                    what = self.names[id(s)] + ("" if self.co else "()")
                else:
                    what = "f%d(ctx)" % s["f"]
            elif k == "io":
                what = "ctx.io(%d, %r)" % (n, s) if self.co else "ctx.direct_io(%d, %r)" % (n, s)
            else:
                what = "ctx.tok(%d, %r)" % (n, s) + ("" if self.co else ".direct()")
            if self.co:
                self.emit(d, "x = yield %s" % what)
            else:
                self.emit(d, "last[0] = None")
                self.emit(d, "x = last[0] = %s" % what)
            self.emit(d, "ctx.log(me, 'got %d', x)" % n)
        elif k == "raise":
            self.emit(d, "raise ctx.make(%r, %d)" % (s["e"], n))
        elif k == "reraise":
            if in_handler:
                self.emit(d, "ctx.log(me, 'reraise %d')" % n)
                self.emit(d, "raise")
        elif k == "return":
            self.emit(d, "ctx.log(me, 'return %d')" % n)
            self.emit(d, "return")
        elif k in ("break", "continue"):
            if in_loop:
                self.emit(d, k)
        elif k == "loop":
            self.emit(d, "for i%d in range(%d):" % (d, s["n"]))
            self.emit(d + 1, "ctx.log(me, 'loop %d')" % n)
            self.block(d + 1, s.get("body", []), True, in_handler)
        elif k == "if":
            self.emit(d, "if x:")
            self.block(d + 1, s.get("body", []), in_loop, in_handler)
            self.emit(d, "else:")
            self.block(d + 1, s.get("orelse", []), in_loop, in_handler)
        elif k == "try":
            handlers, last = s.get("except"), s.get("finally")
            if not handlers and last is None:
                return self.block(d, s.get("body", []), in_loop, in_handler)
            self.emit(d, "try:")
            self.block(d + 1, s.get("body", []), in_loop, in_handler)
            for h in handlers or ():
                self.emit(d, "except CATCH[%r] as e%d:" % (h.get("on", "Exception"), d))
                self.emit(d + 1, "ctx.caught(me, 'caught %d', e%d)" % (n, d))
                self.block(d + 1, h.get("body", []), in_loop, True)
            if handlers and s.get("else") is not None:
                self.emit(d, "else:")
                self.block(d + 1, s["else"], in_loop, in_handler)
            if last is not None:
                self.emit(d, "finally:")
                self.emit(d + 1, "ctx.log(me, 'finally %d')" % n)
                self.block(d + 1, last, False, False)
        else:
            raise ValueError(k)

    def functions(self, env):
        exec("\n".join(self.lines) + "\n", env)
        return env


class A(Exception):
    pass


class B(A):
    pass


class Base(BaseException):
    pass


MAKE = {"A": A, "B": B, "BASE": Base, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "ValueError": ValueError, "OSError": OSError}
LIMIT = 20000


class TooLong(Exception):
    pass


class Context(object):
    """What a running program does, in order."""
    def __init__(self, run, index, coroutine):
        self.run, self.index, self.co = run, index, coroutine
        self.history = []
        self.calls = 0
        self.toks = []
        self.io_n = 0
        self.excs = self.made = 0

    def enter(self, f):
        self.calls += 1
        self.log(self.calls, "enter f%d" % f)
        return self.calls

    def log(self, me, what, *value):
        if len(self.history) > LIMIT:
            raise TooLong()
        self.history.append((me, what) + tuple(repr(v) for v in value))
        if self.co:
            self.run.w.trace(self.index, me, what)

    def caught(self, me, what, e):
        self.log(me, what, describe(e))

    def make(self, name, n):
        self.excs += 1
        self.made += 1
        e = MAKE[name]("%s at %d, number %d" % (name, n, self.made))
        e.label = self.made
        return e

    def io(self, n, s):
        self.io_n += 1
        return self.run.real_io(self, n, s, self.io_n)

    def direct_io(self, n, s):
        self.io_n += 1
        if s["k"] == "good":
            data = pattern(self.index * 1000 + self.io_n, s["n"])
            return self.run.as_result(data)
        self.excs += 1
        raise self.run.direct_error(s["k"])

    def tok(self, n, s):
        from infi.asi import OSAsyncIOToken
        ctx = self

        class Token(OSAsyncIOToken):
            gets = 0

            def get_result(self, block=False):
                self.gets += 1
                return self.direct()

            def direct(self):
                ctx.log(0, "io at %d" % n)
                if s.get("raise"):
                    raise ctx.make(s["raise"], n)
                return VALUES[s["v"]]
        t = Token()
        if self.co:
            self.toks.append(t)
        return t


def describe(e):
    E = errors()
    if isinstance(e, E.AsiCheckConditionError):
        return "check condition"
    if isinstance(e, E.AsiSCSIError):
        return "scsi error"
    if hasattr(e, "label"):
        return "%s %s" % (type(e).__name__, e)
    if isinstance(e, (OSError, E.AsiOSError)):
        return "os error"
    return "%s %s" % (type(e).__name__, e)


class Run(object):
    def __init__(self, scenario):
        self.s = scenario
        self.violations = []
        self.stats = {}

    def bad(self, kind, text):
        self.violations.append((kind, text))
        self.w.trace("VIOLATION", kind, text)

    def as_result(self, data):
        return data if data else (None if self.s["mode"] != "sg" else None)

    def direct_error(self, k):
        E = errors()
        if k == "check":
            return E.AsiCheckConditionError(b"", None)
        if k == "busy":
            return E.AsiSCSIError("busy")
        return OSError(5, "refused")

    def real_io(self, ctx, n, s, number):
        """A generator of the code under test that performs a SCSI command."""
        from infi.asi import SCSIReadCommand
        token = ctx.index * 1000 + number
        cdb = b"\xe1" + be(4, token) + be(2, n) + b"\0\0\0"
        self.orders[cdb] = (token, s)
        return self.executers[ctx.index].call(SCSIReadCommand(cdb, s["n"]))

    def device(self, sub):
        token, s = self.orders[bytes(sub.cdb)]
        self.done_io[token] = self.done_io.get(token, 0) + 1
        if self.done_io[token] > 1:
            self.bad("io-not-once", "the command of I/O %d was submitted %d times" % (token, self.done_io[token]))
        v = s.get("now", 0)
        if s["k"] == "good":
            return Outcome(data=pattern(token, s["n"]), lat=s.get("lat", 0), variant=v)
        if s["k"] == "check":
            return Outcome(status=CHECK, sense=fixed_sense(5, 0x24, 0), lat=s.get("lat", 0), variant=v)
        if s["k"] == "busy":
            return Outcome(status=BUSY, lat=s.get("lat", 0), variant=v)
        if self.s["mode"] == "sg" or (token + s["n"]) % 2:
            return Outcome(submit_errno=5)
        return Outcome(api_error=1117, lat=s.get("lat", 0), variant=v)

    def env(self, ctx):
        E = errors()
        return {"VALUES": VALUES, "ctx": ctx,
                "CATCH": {"A": A, "A2": (A, ValueError), "B": B, "Exception": Exception, "BaseException": BaseException,
                          "AsiSCSIError": E.AsiSCSIError, "OS": (OSError, E.AsiOSError), "ValueError": ValueError, "BASE": Base,
                          "KeyboardInterrupt": KeyboardInterrupt}}

    def execute(self):
        import infi.asi as asi
        from infi.asi.coroutines.sync_adapter import sync_call, sync_wait, async_wait
        s = self.s
        mode = s["mode"]
        win = mode in ("win", "async", "reactor")
        w = self.w = World(platform="windows-2008" if win else "linux-ubuntu-jammy", gevent=s.get("gevent", False), preempt=False,
                           max_steps=300000)
        seams.activate(w)
        self.executers, self.orders, self.done_io = {}, {}, {}
        try:
            programs = s["programs"]
            want, contexts = [], []
            for i, p in enumerate(programs):
                ctx = Context(self, i, False)
                f = Source(p, False).functions(self.env(ctx))
                want.append((self.outcome(lambda: f["f0"](ctx)), ctx))
                if mode != "none":
                    path = "/dev/sim%d" % i
                    node = (WinNode if win else SgNode)(self.device)
                    w.add_node(path, node)
                    file = asi.create_async_os_file(path) if mode in ("async", "reactor") else asi.create_os_file(path)
                    self.executers[i] = asi.create_platform_command_executer(file)
            self.excs = sum(c.excs for _, c in want)
            self.ios = sum(c.io_n for _, c in want)
            self.too_long = any(o == ("raised", "TooLong ") for o, _ in want)
            if self.too_long:
                return self
            made = []
            for i, p in enumerate(programs):
                ctx = Context(self, i, True)
                contexts.append(ctx)
                made.append(Source(p, True).functions(self.env(ctx)))
            if mode == "reactor":
                gens = [m["f0"](c) for m, c in zip(made, contexts)]
                got = self.outcome(lambda: async_wait(*gens))
                self.judge_many(got, want, contexts)
            else:
                m, ctx = made[0], contexts[0]
                called = []
                if s.get("deep"):
                    f0 = m["f0"]

                    def wrap(n):
                        if n:
                            x = yield wrap(n - 1)
                        else:
                            x = yield f0(ctx)
                        yield x
                    start = lambda: wrap(s["deep"])
                else:
                    start = lambda: m["f0"](ctx)
                if s.get("how") == "call":
                    def func(*args, **kw):
                        called.append((args, kw))
                        return start()
                    got = self.outcome(lambda: sync_call(func, 1, key=2))
                    if called != [((1,), {"key": 2})]:
                        self.bad("called-twice", "sync_call called the function with %r" % (called,))
                    # and a function that is no coroutine
                    calls = []
                    plain = sync_call(lambda a: calls.append(a) or a * 2, 21)
                    if plain != 42 or calls != [21]:
                        self.bad("called-twice", "sync_call of a plain function gave %r after calls %r" % (plain, calls))
                else:
                    got = self.outcome(lambda: sync_wait(start()))
                self.compare(0, want[0][1], ctx)
                if got != want[0][0] and not self.violations:
                    self.bad("outcome-differs", "the coroutines %s %s, the plain calls %s %s" % (got + want[0][0]))
        except SimAbort:
            self.bad("hang", "no progress (%s)" % w.dead)
        finally:
            seams.activate(None)
        return self

    def outcome(self, fn):
        try:
            return ("returned", repr(fn()))
        except SimAbort:
            raise
        except BaseException as e:
            return ("raised", describe(e))

    def compare(self, i, ref, ctx):
        if ref.history != ctx.history:
            n = 0
            while n < min(len(ref.history), len(ctx.history)) and ref.history[n] == ctx.history[n]:
                n += 1
            self.bad("history-differs", "program %d, event %d: the coroutines did %s, the plain calls %s" %
                     (i, n, ctx.history[n] if n < len(ctx.history) else "nothing more", ref.history[n] if n < len(ref.history) else "nothing more"))
        for t in ctx.toks:
            if t.gets > 1:
                self.bad("io-not-once", "program %d: the result of one I/O was asked for %d times" % (i, t.gets))

    def judge_many(self, got, want, contexts):
        raised = [o[1] for o, _ in want if o[0] == "raised"]
        for i, ((o, ref), ctx) in enumerate(zip(want, contexts)):
            self.compare(i, ref, ctx)
        if self.violations:
            return
        if raised:
            if got[0] != "raised" or got[1] not in raised:
                self.bad("outcome-differs", "the coroutines %s %s, the plain calls raise %s" % (got[0], got[1], raised))
        else:
            expect = "[%s]" % ", ".join(o[1] for o, _ in want)
            if got != ("returned", expect):
                self.bad("outcome-differs", "the coroutines %s %s, the plain calls return %s" % (got + (expect,)))


def run(scenario):
    return Run(scenario).execute()


def nontrivial(r):
    return bool(getattr(r, "excs", 0) or getattr(r, "ios", 0)) and not r.too_long


def count(r):
    out = {}

    def walk(x):
        if isinstance(x, dict):
            if x.get("op") == "io" and x["k"] != "good":
                out["device-" + x["k"]] = out.get("device-" + x["k"], 0) + 1
            if x.get("op") == "tok" and x.get("raise"):
                out["io-exception"] = out.get("io-exception", 0) + 1
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(r.s["programs"])
    return out
