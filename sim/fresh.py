"""Every run starts with the code under test as it is just after import.

A simulated run stands for a process of its own.  Runs share one real process
for speed, so whatever module or class level state the code keeps (containers,
counters, caches, mutable defaults, ctypes buffers) is put back before each."""

import collections
import ctypes
import importlib
import pkgutil
import sys
import types

CONTAINERS = (dict, list, set, bytearray, collections.deque)
_saved = None


def _modules():
    return [m for n, m in sorted(sys.modules.items()) if m is not None and (n == "infi.asi" or n.startswith("infi.asi."))]


def load_all():
    import infi.asi
    for info in pkgutil.walk_packages(infi.asi.__path__, "infi.asi."):
        try:
            importlib.import_module(info.name)
        except ImportError:
            pass


class Snapshot(object):
    def __init__(self):
        self.seen = {}
        self.attributes = []       # (owner, name, value)
        self.owners = []           # (owner, names)
        self.contents = []         # (container, copy)
        self.buffers = []          # (ctypes object, bytes)
        self.caches = []
        for m in _modules():
            self.namespace(m)

    def visit(self, value):
        if id(value) in self.seen:
            return
        if isinstance(value, CONTAINERS):
            self.seen[id(value)] = value
            copy = list(value) if isinstance(value, collections.deque) else type(value)(value) if type(value) in CONTAINERS else value.copy()
            self.contents.append((value, copy))
            for v in (list(value.values()) if isinstance(value, dict) else list(value)):
                self.visit(v)
        elif isinstance(value, (ctypes.Array, ctypes.Structure)):
            self.seen[id(value)] = value
            self.buffers.append((value, ctypes.string_at(ctypes.addressof(value), ctypes.sizeof(value))))
        elif hasattr(type(value), "cache_clear") or (callable(value) and "cache_clear" in getattr(value, "__dict__", ())):
            self.seen[id(value)] = value
            self.caches.append(value)
        elif isinstance(value, types.FunctionType):
            self.seen[id(value)] = value
            for d in (value.__defaults__ or ()):
                self.visit(d)
            for d in (value.__kwdefaults__ or {}).values():
                self.visit(d)
            for cell in value.__closure__ or ():
                try:
                    self.visit(cell.cell_contents)
                except ValueError:
                    pass
        elif isinstance(value, (classmethod, staticmethod)):
            self.visit(value.__func__)
        elif isinstance(value, tuple):
            for v in value:
                self.visit(v)
        elif isinstance(value, type):
            if value.__module__.startswith("infi.asi"):
                self.namespace(value)
        elif type(value).__module__.startswith("infi.asi") and hasattr(value, "__dict__"):
            self.namespace(value)

    def namespace(self, owner):
        if id(owner) in self.seen:
            return
        self.seen[id(owner)] = owner
        names = dict((n, v) for n, v in vars(owner).items() if not (n.startswith("__") and n.endswith("__")))
        self.owners.append((owner, set(names)))
        for n, v in names.items():
            if not isinstance(v, types.ModuleType):
                self.attributes.append((owner, n, v))
                self.visit(v)

    def restore(self):
        for owner, names in self.owners:
            d = vars(owner)
            if len(d) != len(names):
                for n in [n for n in d if n not in names and not (n.startswith("__") and n.endswith("__"))]:
                    if not isinstance(d[n], types.ModuleType):
                        delattr(owner, n)
        for owner, n, v in self.attributes:
            if vars(owner).get(n) is not v:
                setattr(owner, n, v)
        for c, copy in self.contents:
            if isinstance(c, collections.deque):
                if list(c) != copy:
                    c.clear()
                    c.extend(copy)
            elif isinstance(c, dict):
                if len(c) != len(copy) or any(k not in c or c[k] is not v for k, v in copy.items()):
                    c.clear()
                    c.update(copy)
            elif isinstance(c, set):
                if c != copy:
                    c.clear()
                    c.update(copy)
            elif len(c) != len(copy) or any(a is not b for a, b in zip(c, copy)):
                c[:] = copy
        for b, raw in self.buffers:
            ctypes.memmove(ctypes.addressof(b), raw, len(raw))
        for c in self.caches:
            c.cache_clear()


ATOMS = frozenset((type(None), bool, int, float, str))


def measure(roots):
    """How much the modules of the code under test and the given objects hold: entries of containers, attributes, bytes."""
    seen, total = {}, 0
    todo = list(roots) + _modules()
    while todo:
        v = todo.pop()
        if type(v) in ATOMS or id(v) in seen:
            continue
        seen[id(v)] = v
        if isinstance(v, (bytes, bytearray)):
            total += len(v)
        elif isinstance(v, dict):
            total += len(v)
            todo.extend(v.keys())
            todo.extend(v.values())
        elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
            total += len(v)
            todo.extend(v)
        elif isinstance(v, types.FunctionType):
            if (v.__module__ or "").startswith("infi.asi"):
                todo.extend(v.__defaults__ or ())
                todo.append(v.__dict__)
                for cell in v.__closure__ or ():
                    try:
                        todo.append(cell.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(v, types.MethodType):
            todo.extend((v.__self__, v.__func__))
        elif isinstance(v, (classmethod, staticmethod)):
            todo.append(v.__func__)
        elif isinstance(v, (ctypes.Array, ctypes.Structure)):
            total += ctypes.sizeof(v)
            todo.append(getattr(v, "__dict__", None))
        elif hasattr(type(v), "cache_info") or "cache_info" in getattr(v, "__dict__", ()):
            total += v.cache_info().currsize
        elif isinstance(v, types.ModuleType):
            if v.__name__ == "infi.asi" or v.__name__.startswith("infi.asi."):
                todo.extend(x for n, x in vars(v).items() if not n.startswith("__"))
        elif isinstance(v, type):
            if v.__module__.startswith("infi.asi"):
                names = [n for n in vars(v) if n not in ("__dict__", "__weakref__", "__doc__")]
                total += len(names)
                todo.extend(vars(v)[n] for n in names)
        elif type(v).__module__.startswith("infi.asi"):
            d = getattr(v, "__dict__", {})
            total += len(d)
            todo.extend(d.values())
            for k in type(v).__mro__:
                for n in k.__dict__.get("__slots__", ()) if not isinstance(k.__dict__.get("__slots__", ()), str) else ():
                    todo.append(getattr(v, n, None))
    return total


def snapshot():
    global _saved
    load_all()
    _saved = Snapshot()


def restore():
    if _saved is not None:
        _saved.restore()
