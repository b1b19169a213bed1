"""What a caller was given: its values, as the caller sees them, and writing on it."""


def _named(v):
    return (type(v).__module__ or "").startswith("infi.") or isinstance(v, BaseException)


def _names(v):
    names = set(n for n in getattr(v, "__dict__", ()) if not n.startswith("_"))
    for k in type(v).__mro__:
        if (k.__module__ or "").startswith("infi.asi"):
            names.update(n for n, x in vars(k).items() if isinstance(x, property) and not n.startswith("_"))
    return sorted(names)


def freeze(v, depth=0):
    """The values one can read from v."""
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    if depth > 12:
        return "..."
    if isinstance(v, (list, tuple)):
        return [freeze(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {repr(k): freeze(x, depth + 1) for k, x in v.items()}
    if _named(v):
        out = {"": type(v).__name__}
        if isinstance(v, BaseException):
            out["args"] = freeze(v.args, depth + 1)
            out["str"] = str(v)
        for n in _names(v):
            out[n] = _read(v, n, depth)
        return out
    return type(v).__name__


def _read(v, n, depth):
    try:
        x = getattr(v, n)
    except Exception as e:
        return "raises " + type(e).__name__
    return freeze(x, depth + 1)


def changed(v, frozen, path="it", depth=0):
    """None, or where v no longer reads as it did; what was not there then is ignored."""
    if isinstance(frozen, dict) and not isinstance(v, dict) and _named(v):
        for n, old in frozen.items():
            if n == "":
                now = type(v).__name__
                if now != old:
                    return "%s is a %s, it was a %s" % (path, now, old)
            elif n == "str":
                if str(v) != old:
                    return "%s says %.80r, it said %.80r" % (path, str(v), old)
            else:
                try:
                    x = getattr(v, n)
                except Exception as e:
                    if old != "raises " + type(e).__name__:
                        return "%s.%s raises %s" % (path, n, type(e).__name__)
                    continue
                d = changed(x, old, "%s.%s" % (path, n), depth + 1)
                if d:
                    return d
        return None
    if isinstance(frozen, list) and isinstance(v, (list, tuple)):
        if len(v) != len(frozen):
            return "%s has %d items, it had %d" % (path, len(v), len(frozen))
        for i, (x, old) in enumerate(zip(v, frozen)):
            d = changed(x, old, "%s[%d]" % (path, i), depth + 1)
            if d:
                return d
        return None
    now = freeze(v, depth)
    return None if now == frozen else "%s is %.120r, it was %.120r" % (path, now, frozen)


def scribble(v, depth=0):
    """Write on everything that can be written on, as its owner may."""
    if depth > 12:
        return
    if isinstance(v, bytearray):
        for i in range(len(v)):
            v[i] ^= 0x5a
    elif isinstance(v, list):
        for x in v:
            scribble(x, depth + 1)
        if v and isinstance(v[0], int):
            v[:] = [x ^ 5 for x in v if isinstance(x, int)]
        v.append(v[0] if v else 7)
    elif isinstance(v, dict):
        for x in v.values():
            scribble(x, depth + 1)
        v["scribble"] = 1
    elif _named(v) and not isinstance(v, type):
        for n, x in list(getattr(v, "__dict__", {}).items()):
            if n.startswith("_"):
                continue
            try:
                if isinstance(x, bool):
                    setattr(v, n, not x)
                elif isinstance(x, int):
                    setattr(v, n, x ^ 1)
                elif isinstance(x, str):
                    setattr(v, n, x + "?")
                elif isinstance(x, bytes):
                    setattr(v, n, bytes(b ^ 0x5a for b in x))
                else:
                    scribble(x, depth + 1)
            except Exception:
                pass
