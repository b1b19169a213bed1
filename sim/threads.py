"""Threads that lose the processor between any two statements or calls of the code under test.

With install(), the modules of infi.asi are compiled from their source with a
call of step() before every statement of a function and after every call made
by one; whether the simulated thread goes on there is up to the scenario
(World.fine).  Locks and thread-local data of the code are those of the
simulated threads."""

import ast
import builtins
import importlib.machinery
import sys
import threading
import _thread

from . import seams

PLAIN = frozenset(("super", "locals", "globals", "vars", "dir", "eval", "exec", "isinstance", "len", "range", "__asi_step__", "__asi_after__"))


def step():
    w = seams._world
    if w is not None and w.fine:
        w.fine_step()


def after(value):
    w = seams._world
    if w is not None and w.fine:
        w.fine_step()
    return value


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def function(self, node):
        # decorators and defaults are evaluated where the function is defined
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.visit(node.args)
        self.depth += 1
        node.body = self.block(node.body, True)
        self.depth -= 1
        return node
    visit_FunctionDef = visit_AsyncFunctionDef = function

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        return node

    def block(self, body, top=False):
        out = []
        for i, s in enumerate(body):
            s = self.visit(s)
            if not (isinstance(s, (ast.Global, ast.Nonlocal)) or
                    top and i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                call = ast.Expr(ast.Call(ast.Name("__asi_step__", ast.Load()), [], []))
                out.append(ast.copy_location(call, s))
            out.append(s)
        return out

    def generic_visit(self, node):
        if self.depth:
            for name in ("body", "orelse", "finalbody"):
                body = getattr(node, name, None)
                if isinstance(body, list):
                    setattr(node, name, self.block(body))
            for name, value in ast.iter_fields(node):
                if name in ("body", "orelse", "finalbody") and isinstance(value, list):
                    continue
                if isinstance(value, list):
                    setattr(node, name, [self.visit(v) if isinstance(v, ast.AST) else v for v in value])
                elif isinstance(value, ast.AST):
                    setattr(node, name, self.visit(value))
            return node
        return super(Instrument, self).generic_visit(node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth or isinstance(node.func, ast.Name) and node.func.id in PLAIN:
            return node
        return ast.copy_location(ast.Call(ast.Name("__asi_after__", ast.Load()), [node], []), node)


def compiled(source, path):
    tree = Instrument().visit(ast.parse(source, path))
    return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)


# ---- what threads of the code have for themselves ------------------------------------------------

def me():
    w = seams._world
    return w.current if w is not None and w.threads else None


class Lock(object):
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        w, t = seams._world, me()
        while self.count and not (self.reentrant and self.owner is t):
            if not blocking or t is None:
                return False
            w.step()
            w.now += 1
            w.give_way()
        self.owner = t
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return bool(self.count)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


class RLock(Lock):
    reentrant = True


class Local(object):
    def __init__(self, *args, **kw):
        object.__setattr__(self, "_spaces", [])

    def _space(self):
        w, t = seams._world, me()
        for world, task, d in self._spaces:
            if world is w and task is t:
                return d
        self._spaces[:] = [s for s in self._spaces if s[0] is w]
        self._spaces.append((w, t, {}))
        return self._spaces[-1][2]

    def __getattribute__(self, name):
        if name == "__dict__":
            return object.__getattribute__(self, "_space")()
        return object.__getattribute__(self, name)

    def __getattr__(self, name):
        try:
            return self._space()[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, value):
        self._space()[name] = value

    def __delattr__(self, name):
        try:
            del self._space()[name]
        except KeyError:
            raise AttributeError(name)


def ours():
    return sys._getframe(2).f_globals.get("__name__", "").startswith("infi.asi")


def install(fine):
    real = {n: getattr(threading, n) for n in ("Lock", "RLock", "local", "get_ident")}

    def Lock_():
        return Lock() if ours() else real["Lock"]()

    def RLock_():
        return RLock() if ours() else real["RLock"]()

    def get_ident():
        t = me()
        return real["get_ident"]() if t is None else 1000 + t.world.tasks.index(t)
    threading.Lock, threading.RLock = Lock_, RLock_
    threading.get_ident = _thread.get_ident = get_ident

    class LocalOf(type):
        def __call__(cls, *args, **kw):
            if cls is local and not ours():
                return real["local"](*args, **kw)
            return type.__call__(cls, *args, **kw)

    class local(Local, metaclass=LocalOf):
        pass
    threading.local = local

    if fine:
        builtins.__asi_step__, builtins.__asi_after__ = step, after
        loader = importlib.machinery.SourceFileLoader
        get_code = loader.get_code

        def instrumented(self, fullname):
            if fullname == "infi.asi" or fullname.startswith("infi.asi."):
                path = self.get_filename(fullname)
                return compiled(self.get_data(path), path)
            return get_code(self, fullname)
        loader.get_code = instrumented
