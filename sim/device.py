"""The device engine: initiators run histories of real command classes, through
the real executers, against simulated SCSI targets.

The target applies what it decodes from the bytes that reach it; a reference
copy of its state applies what the user asked for, at the same instant.  The
two states, and what the user is told, must agree."""

from . import fresh, keep, seams, target
from .scsi import *
from .target import Check, Conflict, Maybe
from .transport import NODE, PLATFORM, errors, pick, watch
from .world import World, Outcome, SimAbort

ENGINE = "device"
PROPS = ("C05", "C10", "C11", "C12", "C16", "C17", "C21", "C22")
_ALL = set(PROPS) - {"C12", "C21", "C22"}

KINDS = {
    "read-wrong": {"C05"},
    "touched": {"C05"},
    "miscompare": {"C05"},
    "effect": {"C10"},
    "identity-wrong": {"C11"},
    "state-wrong": {"C16"},
    "reservation-wrong": {"C10"},
    "enclosure-wrong": {"C17"},
    "repeated": _ALL,                 # one request, several commands
    "unasked": _ALL,                  # a command reached the device while nobody asked for one
    "not-sent": _ALL,                 # success or an error of the library's own, and nothing was sent
    "refused": _ALL,                  # the device rejects what was sent, not what was asked
    "raised": _ALL,                   # the device did it, the library raises
    "silent": _ALL,                   # the device did not do it, the library reports success
    "error-lost": _ALL,               # CHECK CONDITION that does not arrive as one
    "hang": _ALL,
    "piles-up": {"C21"},
    "result-changed": {"C22"},
    "argument-changed": {"C22"},
    "tainted": {"C22"},               # what a caller does to its results is seen by others
    "interference": {"C12"},          # any of these with several users, and not with any user alone
    "accepted": {"C05", "C10"},       # a request its command cannot express was sent as another one
}

RULE = ("A case is one to four initiators, each with its own handle of one of the platforms, running a history of commands (possibly concurrently, "
        "possibly built long before they run, possibly run again) against one to three logical units whose layout, contents and capabilities are "
        "drawn from the seed, with state changes, power losses, unit attentions and faults of single commands in between. Non-trivial: at least two "
        "commands reached a device and one of them was a change of state, a failure, or a query of state drawn from the seed.")
REAL = ["infi.asi command classes (cdb package: build, encode, decode)", "infi.asi executers and coroutines", "infi.instruct"]
SIMULATED = ["operating system (as in the transport engine)", "SCSI targets: block store with volatile cache, reservations, identity, LUN inventory, "
             "port groups, logs, enclosure"]
ASSUMPTIONS = ["the target's behaviour follows SPC-4, SBC-3 and SES-3", "the operating systems behave as in the transport engine"]
OPTIONAL = ("spell", "gevent", "preempt", "sched", "fine", "early", "f", "scribble", "change", "lat", "fua", "dpo", "group", "prot", "unmap", "again", "conc", "adapter", "aptpl", "atp", "sip",
            "slack", "via", "naca", "pc", "strict", "plain", "times", "sp", "pointer", "show", "raw", "zero", "cache", "kinds", "wsnz", "tpe", "nat")
SHRINK_INT = {"lat": 0, "us": 0, "sched": 0}
NONEMPTY = ("users",)
KEEP_LISTS = ("path", "groups", "enclosures", "types", "elements", "ports", "kinds", "ranges")

KINDS_W = [("sg", 5), ("sgio", 2), ("solaris", 2), ("aix", 1.5), ("aixf", 0.7), ("win", 2)]


# ------------------------------------------------------------------------------------------------
# generation

def gen(prop, rng):
    s = globals()["gen_" + prop](rng)
    s["engine"] = ENGINE
    s["prop"] = prop
    if prop in ("C10", "C11", "C16", "C17") and rng.random() < 0.4:
        add_again(rng, s, rng.choice([0.1, 0.3]))
    for d in s["devs"]:
        if rng.random() < 0.3:
            d["strict"] = 1
    return s


def gen_C21(rng):
    prop = pick(rng, [("C05", 1), ("C10", 1), ("C11", 1), ("C16", 1), ("C17", 1)])
    s = globals()["gen_" + prop](rng)
    s["as"] = prop
    s["repeat"] = 6
    for k in ("conc", "sched", "preempt"):
        s.pop(k, None)
    s["steps"] = s["steps"][:12]
    return s


def gen_C12(rng):
    """Users in threads of their own, on devices of their own."""
    from .transport import fine_switches
    prop = pick(rng, [("C05", 1), ("C10", 2), ("C11", 3), ("C16", 3), ("C17", 2)])
    s = None
    for i in range(rng.randrange(2, 4)):
        one = globals()["gen_" + prop](rng)
        if s is None:
            s = dict(one, users=[], devs=[], steps=[])
        s["users"].append(dict(one["users"][0], dev=i))
        s["devs"].append(one["devs"][0])
        s["steps"].extend(dict(st, u=i) for st in one["steps"][:15])
    s["as"] = prop
    s["conc"] = 1
    s["preempt"] = True
    s["sched"] = [rng.randrange(4) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 20, 100]))]
    if rng.random() < 0.85:
        s["fine"] = fine_switches(rng)
    return s


def add_again(rng, s, p):
    """Some command objects are executed again, later."""
    for st in list(s["steps"]):
        if st.get("op") not in (None, "again", "bad") and "tok" in st and rng.random() < p:
            at = [i for i, x in enumerate(s["steps"]) if x is st][0]
            again = {"op": "again", "of": st["tok"], "u": st["u"]}
            if rng.random() < 0.1:
                again = faulty(rng, 1, again)
                again.pop("early", None)
            s["steps"].insert(rng.randrange(at, len(s["steps"])) + 1, again)


def gen_C22(rng):
    prop = pick(rng, [("C05", 1), ("C10", 2), ("C11", 4), ("C16", 4), ("C17", 3)])
    s = globals()["gen_" + prop](rng)
    s["as"] = prop
    s["keep"] = 1
    ops = [st for st in s["steps"] if st.get("op") not in (None, "bad")]
    for st in ops:
        if rng.random() < 0.7:
            st.pop("f", None)
        if rng.random() < 0.25:
            st["scribble"] = 1
    # the same command objects and the same queries again, later
    add_again(rng, s, 0.3)
    for st in rng.sample(ops, min(len(ops), rng.randrange(4))):
        if st["op"] != "again" and not st.get("early"):
            again = dict(st)
            again.pop("f", None)
            s["steps"].insert(rng.randrange(len(s["steps"]) + 1), again)
    return s


def base(rng, n_users):
    kind = pick(rng, KINDS_W)
    s = {"kind": kind, "gevent": rng.random() < 0.6, "users": [], "steps": []}
    if n_users > 1 and rng.random() < 0.4:
        s["conc"] = 1
        s["sched"] = [rng.randrange(4) for _ in range(40)]
        s["preempt"] = rng.random() < 0.7
    for _ in range(n_users):
        u = {"dev": 0}
        if rng.random() < 0.25:
            u["adapter"] = 1
        s["users"].append(u)
    return s


def faulty(rng, rate, step, extra=()):
    if rng.random() < rate:
        k = rng.choice(["status", "check", "lost", "errno", "hang", "check"] + list(extra))
        f = {"k": k}
        if k == "status":
            f["status"] = rng.choice(FAILING_STATUS)
        elif k == "check":
            f["sense"] = rng.choice([[6, 0x29, 0], [6, 0x3f, 0x0e], [6, 0x2a, 1], [0xb, 0x47, 0], [4, 0x44, 0], [2, 4, 1], [3, 0x11, 0], [5, 0x25, 0]])
        elif k == "hang":
            f["ex"] = rng.randrange(2)
        elif k in ("partial", "short"):
            f["cut"] = rng.random()
        step["f"] = f
    if rng.random() < 0.3:
        step["lat"] = rng.choice([0, 50, 1000, 20000])
    if rng.random() < 0.15:
        step["early"] = 1
    if rng.random() < 0.07:
        step["show"] = 1
    if rng.random() < 0.03 and step.get("op") != "again":
        step["naca"] = 1
    if step.get("op") in ("vpd", "ses") and rng.random() < 0.12:
        step["raw"] = 1
    return step


def gen_bad_block(rng):
    """A request the command cannot express."""
    op = rng.choice(["read", "write", "ws", "caw", "unmap"])
    form = rng.choice([6, 10, 12, 16]) if op in ("read", "write") else rng.choice([10, 16]) if op == "ws" else 16
    width = {6: 21, 10: 32, 12: 32, 16: 64}[form]
    over = {"read": {6: 257, 10: 65536}.get(form, 2 ** 32), "write": {6: 257}.get(form), "ws": 65536 if form == 10 else 2 ** 32,
            "caw": 256, "unmap": 2 ** 32}[op]
    how = rng.choice(["lba-high", "lba-low", "n-high", "n-low", "ragged"])
    if how == "n-high" and over is None or how == "n-low" and op in ("write", "caw"):
        how = "lba-high"
    if how == "ragged" and op in ("read", "unmap", "ws"):
        how = "lba-low"
    st = {"op": "bad", "of": op, "form": form, "lba": rng.randrange(40), "n": rng.randrange(1, 4), "how": how}
    if how == "lba-high":
        st["lba"] = (1 << width) * rng.choice([1, 1, 2, 256]) + rng.randrange(20)
    elif how == "lba-low":
        st["lba"] = -rng.choice([1, 2, 5, 256, 2 ** 16, 2 ** 20])
    elif how == "n-high":
        st["n"] = over + rng.choice([0, 1, 2, 5, 44])
    elif how == "n-low":
        st["n"] = -rng.choice([1, 2, 255])
    elif op == "write" and form == 12 and rng.random() < 0.3:
        st["n"] = 0
    else:
        st["extra"] = rng.choice([1, -1, 3])
        if op == "caw" and rng.random() < 0.5:
            st["blocks"] = rng.choice([-2, -1, 1, 2, 4])       # more or fewer than to compare and to write
            st["extra"] = 0
    return st


def gen_bad_reservation(rng):
    st = {"op": "bad", "of": "prout", "sa": rng.randrange(8), "rk": 5, "sark": 6, "type": 1}
    st[rng.choice(["rk", "sark", "type"])] = rng.choice([2 ** 64, 2 ** 64 + 5, 2 ** 65, -1])
    if st["type"] != 1:
        st["type"] = rng.choice([16, 17, 21, 256 + 5])
    return st


def gen_C05(rng):
    s = base(rng, pick(rng, [(1, 5), (2, 3), (3, 1)]))
    bs = pick(rng, [(512, 6), (4096, 2), (8, 2), (520, 1), (1024, 1), (16, 1)])
    blocks = rng.choice([64, 300, 2048, 2 ** 16 + 40, 2 ** 21, 2 ** 21 + 77, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 99, 2 ** 45, 2 ** 63 + 5, 2 ** 64 - 1])
    disk = {"blocks": blocks, "bs": bs, "salt": rng.getrandbits(32)}
    for k, p in (("cache", 0.4), ("wsnz", 0.3), ("tpe", 0.7)):
        if rng.random() < p:
            disk[k] = 1
    if rng.random() < 0.2:
        disk["max_caw"] = rng.randrange(1, 20)
    if rng.random() < 0.2:
        disk["max_ws"] = rng.choice([8, 64, 2 ** 16 - 1])
    s["devs"] = [{"disk": disk}]
    edges = [x for x in (0, 0xff, 2 ** 16 - 4, 2 ** 21 - 5, 2 ** 31 - 3, 2 ** 32 - 6, 2 ** 33 + 2 ** 8, 2 ** 48 - 3) if x < blocks] + [max(0, blocks - 9)]
    hot = [rng.choice(edges) if rng.random() < 0.7 else rng.randrange(blocks) for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.5:
        # two places that a lost high or low part of the address would confuse
        for shift in (8, 16, 21, 32):
            if rng.random() < 0.4 and (hot[0] + (1 << shift)) < blocks:
                hot.append(hot[0] + (1 << shift))
    tok = [rng.getrandbits(30)]
    big = rng.random() < 0.08 and bs <= 16

    def place(limit):
        c = [h for h in hot if h < limit] or [0]
        return max(0, min(rng.choice(c) + rng.randrange(14), min(limit, blocks + 3) - 1))

    def amount(form, write):
        n = pick(rng, [(1, 4), (2, 2), (3, 2), (rng.randrange(4, 20), 2), (0, 0.5), (rng.choice([255, 256, 257]) if bs <= 1024 else 4, 0.25)])
        if big and rng.random() < 0.3 and form > 6:
            n = rng.choice([65535, 65536, 65537, 300])
        if form == 6:
            n = min(max(n, 1), 256)
            if rng.random() < 0.05 and bs <= 1024:
                n = 256
        if form == 10:
            n = min(n, 65535)
        if form == 12 and write:
            n = max(n, 1)
        return n

    def block_op():
        op = pick(rng, [("read", 5), ("write", 4), ("ws", 1.5), ("caw", 2), ("unmap", 1)])
        tok[0] += 1
        if op in ("read", "write"):
            form = rng.choice([6, 10, 12, 16])
            lba = place({6: 2 ** 21, 10: 2 ** 32, 12: 2 ** 32, 16: 2 ** 64}[form])
            st = {"op": op, "form": form, "lba": lba, "n": amount(form, op == "write")}
            if form != 6:
                if rng.random() < 0.3:
                    st["fua"] = 1
                if rng.random() < 0.2:
                    st["dpo"] = 1
                if rng.random() < 0.05 and not (op == "read" and form in (12, 16)):
                    st["prot"] = rng.randrange(1, 8)
                if form != 12 and rng.random() < 0.1:
                    st["group"] = rng.randrange(32)
        elif op == "ws":
            form = rng.choice([10, 16])
            n = rng.choice([0, 1, 2, 5, 40, 255, 256, 65535] + ([65536, 2 ** 20 + 1, 2 ** 32 - 1] if form == 16 else []))
            st = {"op": op, "form": form, "lba": place(2 ** 32 if form == 10 else 2 ** 64), "n": n}
            if form == 16 and rng.random() < 0.4:
                st["unmap"] = 1
            if rng.random() < 0.3:
                st["zero"] = 1
            if rng.random() < 0.1:
                st["group"] = rng.randrange(32)
            if n == 1 and rng.random() < 0.5:
                st["plain"] = 1
            if rng.random() < 0.04:
                st["times"] = rng.choice([0, 2, 3])
        elif op == "caw":
            st = {"op": op, "lba": place(2 ** 64), "n": pick(rng, [(1, 5), (2, 2), (rng.randrange(1, 30), 2), (0, 0.2), (255 if bs <= 16 else 7, 0.3)]),
                  "match": pick(rng, [(1, 5), (0, 3)]), "at": rng.random()}
            if rng.random() < 0.2:
                st["fua"] = 1
        else:
            k = pick(rng, [(1, 4), (2, 2), (rng.randrange(3, 12), 2), (0, 0.5), (255, 0.1)])
            st = {"op": op, "ranges": [[place(2 ** 64), rng.choice([0, 1, 2, 3, 8, 100, 2 ** 16 + 1, 2 ** 31, 2 ** 32 - 1]) if rng.random() < 0.3
                                        else rng.randrange(1, 9)] for _ in range(k)]}
            if rng.random() < 0.08:
                st["group"] = rng.randrange(32)
        st["tok"] = tok[0]
        return st

    rate = rng.choice([0, 0.1, 0.3])
    for _ in range(rng.randrange(2, 18)):
        u = rng.randrange(len(s["users"]))
        r = rng.random()
        if r < 0.08:
            s["steps"].append({"u": u, "ev": "power"})
            continue
        if r < 0.14 and [i for i, x in enumerate(s["steps"]) if "op" in x and x["u"] == u]:
            j = rng.choice([i for i, x in enumerate(s["steps"]) if "op" in x and x["u"] == u and x["op"] not in ("again", "bad")] or [0])
            if s["steps"][j].get("op") not in (None, "again", "bad") and s["steps"][j]["u"] == u:
                old, st = s["steps"][j], {"u": u, "op": "again", "of": s["steps"][j]["tok"]}
                if old["op"] in ("read", "write", "ws", "caw") and old.get("form") != 6 and rng.random() < 0.6:
                    # the same object, changed
                    st["change"] = {"lba": place(2 ** 32 if old.get("form") in (10, 12) else 2 ** 64)}
                    if old["op"] == "read" and rng.random() < 0.5:
                        st["change"]["n"] = amount(old["form"], False)
                    if old["op"] in ("read", "write") and rng.random() < 0.3:
                        st["change"]["fua"] = rng.randrange(2)
                s["steps"].append(faulty(rng, rate, st))
                continue
        if rng.random() < 0.06:
            s["steps"].append(dict(gen_bad_block(rng), u=u, tok=0))
            continue
        st = block_op()
        st["u"] = u
        extra = ["partial", "partial"] if st["op"] in ("write", "ws") else ["short"] if st["op"] == "read" else []
        s["steps"].append(faulty(rng, rate, st, extra))
    # read back what was touched
    for lba in sorted(set(st["lba"] for st in s["steps"] if "lba" in st and st["op"] != "bad"))[:6]:
        if rng.random() < 0.7:
            s["steps"].append({"u": rng.randrange(len(s["users"])), "op": "read", "form": 16, "lba": max(0, lba - 2), "n": min(24, blocks - max(0, lba - 2)), "tok": 0})
    return s


FC = lambda r: bytes([0x00]) + bytes(7) + bytes(r.randrange(256) for _ in range(8)) + bytes(8)


def gen_tid(rng):
    k = rng.randrange(5)
    if k == 0:
        return FC(rng).hex()
    if k == 1:
        return (bytes([0x06]) + bytes(3) + bytes(rng.randrange(256) for _ in range(8)) + bytes(12)).hex()            # SAS
    if k == 2:
        return (bytes([0x04]) + bytes(7) + bytes(rng.randrange(256) for _ in range(16))).hex()                      # SRP
    name = b"iqn.2001-04.com.example:" + bytes(rng.choice(b"abcdefghij0123456789") for _ in range(rng.randrange(1, 60)))
    code = 0x05
    if k == 4:
        code, name = 0x45, name + b",i,0x" + b"%012x" % rng.getrandbits(48)
    name += b"\0"
    name += b"\0" * (-len(name) % 4)
    return (bytes([code, 0]) + be(2, len(name)) + name).hex()


def gen_C10(rng):
    n = pick(rng, [(1, 2), (2, 4), (3, 3), (4, 1)])
    s = base(rng, n)
    ports = rng.choice([[1], [1, 2], [1, 2, 0x8001], [0xff00, 3]])
    n_init = rng.randrange(max(1, n - 1), n + 1) if rng.random() < 0.4 else n
    many = rng.choice([0, 0, 0, 3, 20, 70, 130]) if rng.random() < 0.5 else 0
    tids = []
    while len(tids) < n_init + many:
        t = gen_tid(rng)
        if t not in tids:
            tids.append(t)
    flag = lambda p=0.6: 1 if rng.random() < p else 0
    pr = {"ports": ports, "initiators": tids, "generation": rng.choice([0, 1, 7, 0x7fffffff, 0x80000000, 0xffffffff]), "ptpl_c": flag(0.7), "atp_c": flag(),
          "sip_c": flag(), "crh": flag(), "rlr_c": flag(0.3), "tmv": flag(0.8), "allow": rng.randrange(8),
          "types": [t for t in target.ALL_TYPES if rng.random() < 0.8], "others": []}
    key = lambda: rng.choice([1, 0xabcd, 2 ** 63 + 5, 2 ** 64 - 1, rng.getrandbits(64) or 1, 0x1122334455667788, 0xff])
    for i in range(many):
        pr["others"].append([n_init + i, rng.choice(ports), key(), 0])
    s["devs"] = [{"pr": pr, "disk": {"blocks": 100, "bs": 8, "salt": 5}}]
    keys = [key() for _ in range(rng.randrange(1, 5))]
    for i, u in enumerate(s["users"]):
        u["init"], u["port"] = (i % n_init), rng.choice(ports)
    rate = rng.choice([0, 0, 0.1, 0.25])
    legacy = rng.random() < 0.25
    if rng.random() < 0.2:                           # a reservation, and the holder moves it away
        a = rng.randrange(n)
        for sa in (0, 1, 7):
            st = {"op": "prout", "sa": sa, "rk": "own", "sark": rng.choice(keys), "type": rng.choice([1, 3, 5, 6]), "u": a, "tok": 2000 + sa}
            if sa == 7:
                st.update(to=rng.randrange(len(tids)), rtpi=rng.choice(ports), unreg=rng.randrange(2))
            s["steps"].append(st)
        s["steps"].append({"u": rng.randrange(n), "op": "prin", "sa": rng.choice([1, 3]), "tok": 2010})
    for k in range(rng.randrange(3, 24)):
        u = rng.randrange(n)
        op = pick(rng, [("out", 5), ("in", 4), ("res", 4 if legacy else 0.2), ("io", 1), ("power", 0.4), ("ua", 0.4)])
        if op == "power":
            s["steps"].append({"u": u, "ev": "power"})
            continue
        if op == "ua":
            s["steps"].append({"u": u, "ev": "ua", "asc": rng.choice([[0x29, 0], [0x2a, 1], [0x3f, 0x0e], [0x2a, 6]])})
            continue
        if rng.random() < 0.03:
            s["steps"].append(dict(gen_bad_reservation(rng), u=u, tok=0))
            continue
        if op == "in":
            st = {"op": "prin", "sa": rng.randrange(4)}
            r = rng.random()
            if r < 0.4:
                st["alloc"] = rng.choice([8, 9, 16, 20, 21, 22, 23, 24, 31, 32, 40, 64, 100, 255, 256, 520, 4096, 65535])
        elif op == "out":
            sa = pick(rng, [(0, 6), (6, 3), (1, 4), (2, 2), (3, 0.7), (4, 2), (5, 1), (7, 1.2), (8, 0.3)])
            st = {"op": "prout", "sa": sa, "rk": pick(rng, [("own", 8), (0, 2), (rng.choice(keys), 2)]),
                  "sark": pick(rng, [(rng.choice(keys), 6), (0, 1.5), ("of%d" % rng.randrange(n), 4 if sa in (4, 5) else 0.5)])}
            st["type"] = rng.choice(target.ALL_TYPES) if rng.random() < 0.9 else rng.choice([0, 2, 4, 9, 15])
            if rng.random() < 0.5:
                st["type"] = pr.setdefault("habit", rng.choice(target.ALL_TYPES))
            for f in ("aptpl", "atp", "sip"):
                if sa in (0, 6, 7) and rng.random() < 0.25 and not (f != "aptpl" and sa == 7):
                    st[f] = 1
            if sa == 7:
                st.update(to=rng.randrange(len(tids)) if rng.random() < 0.9 else -1, rtpi=rng.choice(ports + [9]), unreg=rng.randrange(2))
            olds = [x for x in s["steps"] if x.get("op") == "prout"]
            if olds and rng.random() < 0.15:         # an earlier request once more, all but one thing
                st = dict((f, v) for f, v in rng.choice(olds).items() if f not in ("u", "tok", "f", "lat", "again", "early"))
                what = rng.randrange(4)
                if what == 0 and st["sa"] != 7:
                    f = rng.choice(["aptpl", "atp", "sip"])
                    st[f] = 1 - st.get(f, 0)
                elif what == 1:
                    st["sark"] = rng.choice(keys)
                elif what == 2:
                    st["type"] = rng.choice(target.ALL_TYPES)
                elif st["sa"] == 7:
                    st.update(to=rng.randrange(len(tids)), unreg=rng.randrange(2))
            if rng.random() < 0.3:
                st["spell"] = 1
        elif op == "res":
            st = {"op": rng.choice(["reserve6", "reserve10", "release6", "release10", "reserve10", "release10"])}
            if st["op"].endswith("10") and rng.random() < 0.6:
                st["third"] = rng.choice([0, 1, 5, 254, 255, 256, 2 ** 31, 2 ** 64 - 1])
        else:
            st = rng.choice([{"op": "tur"}, {"op": "read", "form": 10, "lba": 3, "n": 1}, {"op": "write", "form": 10, "lba": 3, "n": 1}])
        st["u"], st["tok"] = u, k + 1
        s["steps"].append(faulty(rng, rate, st))
        if op in ("out", "res") and rng.random() < 0.5:
            s["steps"].append({"u": rng.randrange(n), "op": "prin", "sa": rng.randrange(4), "tok": 1000 + k})
    return s


def gen_text(rng, n, empty=True):
    r = rng.random()
    if r < 0.1 and empty:
        return ""
    s = "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghij0123456789-_./:#+ ") for _ in range(rng.randrange(1, n + 1)))
    if r < 0.2:
        s = " " * rng.randrange(1, 4) + s
    if r > 0.9:
        s = (s * n)[:n]
    return s[:n].rstrip(" ")


def gen_hex(rng, n):
    k = rng.randrange(4)
    b = bytes(n) if k == 0 else b"\xff" * n if k == 1 else bytes(rng.randrange(256) for _ in range(n))
    return b.hex()


def bits(rng, n):
    return rng.choice([0, (1 << n) - 1, 1 << (n - 1), 1, rng.getrandbits(n), rng.getrandbits(n)])


def gen_designator(rng):
    t = rng.choice(["vendor", "t10", "eui8", "eui12", "eui16", "naa2", "naa3", "naa5", "naa6", "rtp", "tpg", "lug", "md5", "name", "reserved"])
    d = {"t": t, "cs": rng.choice([1, 2, 3]), "proto": bits(rng, 4), "assoc": rng.randrange(4), "piv": rng.randrange(2)}
    if t in ("vendor", "t10", "reserved"):
        d["hex"] = gen_hex(rng, rng.choice([0, 1, 4, 8, 18, 33]))
    if t == "md5":
        d["hex"] = gen_hex(rng, 16)
    if t == "name":
        s = b"iqn.2009-11.com.example:" + b"x" * rng.randrange(20)
        d["hex"] = (s + b"\0" * (4 - len(s) % 4)).hex()
    if t == "reserved":
        d["code"] = rng.randrange(9, 16)
        if d["code"] == 10:
            d["hex"] = "1000" + gen_hex(rng, 16)
    if t == "t10":
        d["vid"] = gen_text(rng, 8)
    if t in ("eui8", "eui12", "eui16"):
        d.update(company=bits(rng, 24), ext=bits(rng, 40), dir=bits(rng, 32), id=bits(rng, 64))
    if t == "naa2":
        d.update(a=bits(rng, 12), company=bits(rng, 24), b=bits(rng, 24))
    if t == "naa3":
        d["local"] = bits(rng, 60)
    if t in ("naa5", "naa6"):
        d.update(company=bits(rng, 24), vsi=bits(rng, 36), vsx=bits(rng, 64))
    if t in ("rtp", "tpg", "lug"):
        d["id"] = bits(rng, 16)
    return d


def gen_vpd(rng, code):
    if code == 0x80:
        return gen_text(rng, 40) if rng.random() < 0.8 else gen_text(rng, 248).ljust(rng.choice([0, 63, 64, 127, 128, 200, 248]), "X")[:248]
    if code == 0x83:
        out, size = [], 0
        most = rng.choice([248, 248, 248, 400, 1000])
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12]) * (1 if most == 248 else 3)):
            d = gen_designator(rng)
            n = len(target.designator(d)[0])
            if size + n <= most:
                out.append(d)
                size += n
        return out
    if code == 0x89:
        return {"vendor": gen_text(rng, 8), "product": gen_text(rng, 16), "rev": gen_text(rng, 4), "sig": gen_hex(rng, 20) if rng.random() < 0.6 else
                rng.choice(["34005001010000a00000000001000000" + "00000000", "340050010114eba00000000001000000" + "00000000"]),
                "identify": gen_hex(rng, 1), "sn": gen_text(rng, 20), "fw": gen_text(rng, 8), "model": gen_text(rng, 40), "cmd": rng.choice([0xec, 0xa1, 0])}
    if code == 0xb0:
        v = {"len": rng.choice([0x3c, 0x3c, 0x0c, 0x10]), "wsnz": rng.randrange(2), "ugavalid": rng.randrange(2), "unmap_granularity_alignment": bits(rng, 31)}
        for name, at, size in target.LIMITS:
            v[name] = bits(rng, 8 * size)
        return v
    if code == 0xb2:
        v = dict((k, rng.randrange(2)) for k in ("lbpu", "lbpws", "lbpws10", "lbprz", "anc_sup"))
        v.update(threshold_exponent=bits(rng, 8), provisioning_type=rng.randrange(8))
        if rng.random() < 0.4:
            v["group"] = gen_designator(rng)
        return v
    if code == 0xc0:
        v = dict((k, rng.randrange(2)) for k in target.VERITAS)
        v.update(raid_type=bits(rng, 8), more=rng.choice([0, 0, 5, 40]))
        return v
    return gen_hex(rng, rng.choice([0, 1, 4, 60, 300, 1500, 2044, 2045, 3000]))


KNOWN_VPD = (0x80, 0x83, 0x89, 0xb0, 0xb2, 0xc0)


def gen_identity(rng):
    inq = {"type": rng.choice([0, 0, 0, 1, 3, 5, 8, 0xc, 0xd, 0x14, 0x1e, 0x1f, rng.randrange(32)]), "q": rng.choice([0, 0, 0, 1, 3, rng.randrange(8)]),
           "bits": dict((n, bits(rng, w)) for n, _, _, w in target.INQ_BITS if rng.random() < 0.6), "vendor": gen_text(rng, 8),
           "product": gen_text(rng, 16), "rev": gen_text(rng, 4), "ext": gen_hex(rng, rng.choice([0, 0, 1, 19, 20, 21, 22, 23, 24, 25, 30, 38, 60, 61, 100, 219])),
           "vpd": {}}
    for code in KNOWN_VPD:
        if rng.random() < 0.75:
            inq["vpd"]["%02x" % code] = gen_vpd(rng, code)
    for _ in range(rng.choice([0, 1, 1, 3, 30])):
        code = rng.choice([0x81, 0x84, 0x85, 0x86, 0x87, 0x88, 0x8a, 0x8d, 0x8f, 0x90, 0xb1, 0xb3, 0xc1, 0xc9, rng.randrange(1, 256)])
        if code not in KNOWN_VPD:
            inq["vpd"]["%02x" % code] = gen_vpd(rng, code)
    return inq


def gen_C11(rng):
    n = pick(rng, [(1, 5), (2, 3), (3, 1)])
    s = base(rng, n)
    s["devs"] = []
    for i in range(rng.randrange(1, n + 1)):
        d = {"inq": gen_identity(rng)}
        if rng.random() < 0.3:
            d["slack"] = gen_hex(rng, rng.choice([1, 4, 60, 1200]))
        s["devs"].append(d)
    for i, u in enumerate(s["users"]):
        u["dev"] = i % len(s["devs"])
    rate = rng.choice([0, 0, 0.1, 0.25])
    for k in range(rng.randrange(2, 16)):
        u = rng.randrange(n)
        inq = s["devs"][s["users"][u]["dev"]]["inq"]
        r = rng.random()
        if r < 0.2:
            what = rng.randrange(4)
            if what == 0:
                s["steps"].append({"u": u, "ev": "set", "path": ["inq", "type"], "value": rng.randrange(32)})
            elif what == 1:
                s["steps"].append({"u": u, "ev": "set", "path": ["inq", "product"], "value": gen_text(rng, 16)})
            elif what == 2:
                s["steps"].append({"u": u, "ev": "set", "path": ["inq", "ext"], "value": gen_hex(rng, rng.choice([0, 20, 22, 24, 60]))})
            else:
                code = rng.choice(KNOWN_VPD)
                s["steps"].append({"u": u, "ev": "set", "path": ["inq", "vpd", "%02x" % code], "value": gen_vpd(rng, code)})
            continue
        if r < 0.45:
            st = {"op": "inquiry"}
            if rng.random() < 0.6:
                st["alloc"] = rng.choice([36, 37, 55, 56, 57, 58, 59, 60, 61, 74, 95, 96, 97, 100, 252, 255, 256, 512, 4096])
        else:
            have = [int(c, 16) for c in inq["vpd"]] + [0]
            st = {"op": "vpd", "code": rng.choice(have) if rng.random() < 0.85 else rng.randrange(256)}
        st["u"], st["tok"] = u, k + 1
        s["steps"].append(faulty(rng, rate, st))
    return s


def gen_lun(rng):
    r = rng.random()
    if r < 0.75:
        return be(8, rng.choice([0, 1, 2, 255, rng.randrange(256), rng.randrange(2 ** 14)]) << 48).hex()
    if r < 0.9:
        return be(8, rng.choice([0x4000, 0x4001, 0x7fff, 0xc101, 0x8001, 0x3fff]) << 48).hex()
    return gen_hex(rng, 8)


def gen_cap(rng):
    return {"last": bits(rng, rng.choice([16, 32, 40, 64])), "bl": rng.choice([512, 4096, 520, 8, 2 ** 31, 2 ** 32 - 1]), "p_type": bits(rng, 3), "prot_en": rng.randrange(2),
            "p_i": bits(rng, 4), "lbppbe": bits(rng, 4), "tpe": rng.randrange(2), "tprz": rng.randrange(2), "lowest": bits(rng, 14)}


def gen_groups(rng):
    return [{"pref": rng.randrange(2), "state": rng.choice([0, 1, 2, 3, 4, 14, 15]), "sup": bits(rng, 8) & 0xdf, "id": bits(rng, 16), "status": bits(rng, 8),
             "vendor": bits(rng, 8), "ports": [bits(rng, 16) for _ in range(rng.choice([0, 1, 2, 4, 16, 127, 128, 255]) if rng.random() < 0.3 else rng.randrange(4))]}
            for _ in range(rng.choice([0, 1, 2, 4, 8, 33]))]


def gen_copy(rng):
    c = dict((name, bits(rng, 8 * size)) for name, _, size in target.COPY)
    c.update(snlid=rng.randrange(2), descriptors=[rng.randrange(256) for _ in range(rng.choice([0, 1, 4, 20, 128, 255]))])
    return c


def gen_C16(rng):
    n = pick(rng, [(1, 5), (2, 3), (3, 1)])
    s = base(rng, n)
    s["devs"] = []
    for i in range(rng.randrange(1, n + 1)):
        k = rng.choice([0, 1, 2, 3, 16, 255, 256, 600, 2047])
        lun = gen_lun if rng.random() < 0.7 else lambda rng: be(8, rng.randrange(2 ** 14) << 48).hex()
        logs = {}
        for _ in range(rng.randrange(1, 5)):
            logs["%02x/%02x" % (rng.randrange(64), rng.choice([0, 0, 1, 255]))] = gen_hex(rng, rng.choice([0, 4, 20, 100, 392, 900]))
        d = {"cap": gen_cap(rng), "luns": {"0": [lun(rng) for _ in range(k)], "1": [gen_lun(rng) for _ in range(rng.randrange(3))],
                                           "2": [gen_lun(rng) for _ in range(rng.randrange(3))]},
             "tpg": {"itt": bits(rng, 8), "groups": gen_groups(rng)}, "copy": gen_copy(rng), "logs": logs}
        if k and lun is not gen_lun:                 # all in the ordinary format, or all but one
            d["luns"]["0"][rng.choice([0, k // 2, k - 1])] = gen_lun(rng)
        s["devs"].append(d)
    for i, u in enumerate(s["users"]):
        u["dev"] = i % len(s["devs"])
    rate = rng.choice([0, 0, 0.1, 0.25])
    for k in range(rng.randrange(2, 16)):
        u = rng.randrange(n)
        d = s["devs"][s["users"][u]["dev"]]
        r = rng.random()
        if r < 0.25:
            what = rng.randrange(7)
            path, value = [(["cap"], gen_cap(rng)), (["luns", "0"], [gen_lun(rng) for _ in range(rng.randrange(20))]), (["tpg", "groups"], gen_groups(rng)),
                           (["copy"], gen_copy(rng)), (["logs", rng.choice(sorted(d["logs"]))], gen_hex(rng, rng.choice([4, 20, 392]))),
                           (["not_ready"], rng.choice([[4, 1], [4, 2], [0x3a, 0], [4, 3]])), (["not_ready"], None)][what]
            s["steps"].append({"u": u, "ev": "set", "path": path, "value": value})
            continue
        if r < 0.3:
            s["steps"].append({"u": u, "ev": "ua", "asc": rng.choice([[0x29, 0], [0x2a, 9], [0x3f, 0x0e], [0x2a, 6]])})
            continue
        op = rng.choice(["cap10", "cap16", "luns", "luns", "rtpg", "rtpg", "copy", "log", "tur"])
        st = {"op": op}
        if op in ("cap10", "cap16") and rng.random() < 0.3:
            st.update(lba=bits(rng, 32), pmi=rng.randrange(2))
        if op == "luns":
            if rng.random() < 0.3:
                st["select"] = rng.choice([0, 1, 2, 2, 0x10, 255])
            if rng.random() < 0.3:
                st["alloc"] = rng.choice([0, 4, 8, 15, 16, 17, 24, 31, 32, 40, 264, 2056, 65535, 65536])
            if rng.random() < 0.5:
                st["allow"] = 1
        if op == "rtpg":
            st["fmt"] = rng.randrange(2)
            if rng.random() < 0.3:
                st["alloc"] = rng.choice([4, 8, 12, 16, 20, 28, rng.randrange(8, 64), 64, 4096, 65536])
        if op == "copy":
            st["alloc"] = rng.choice([44, 45, 48, 64, 300, 520, 65535, 65536])
        if op == "log":
            key = rng.choice(sorted(d["logs"]))
            st["page"], st["sub"] = int(key[:2], 16), int(key[3:], 16)
            if rng.random() < 0.1:
                st["page"] = rng.randrange(64)
            if rng.random() < 0.3:
                st["alloc"] = rng.choice([4, 255, 256, 396, 1024, 65535])
            if rng.random() < 0.3:
                st["pc"] = rng.randrange(4)
            if rng.random() < 0.06:
                st[rng.choice(["sp", "pointer"])] = 1
        st["u"], st["tok"] = u, k + 1
        s["steps"].append(faulty(rng, rate, st))
    return s


def gen_element(rng):
    return {"raw": bytes(rng.choice([0, 0xff, 0x80, rng.randrange(256), rng.randrange(256)]) for _ in range(4)).hex(), "text": gen_text(rng, rng.choice([4, 20, 200]))}


def gen_types(rng, sanity):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6]) if rng.random() < 0.97 else rng.choice([33, 65, 130])):
        t = rng.choice(list(range(0x1a)) + [0x9e, 0x1a, 0x80, 0xff]) if rng.random() < 0.9 else rng.randrange(256)
        k = rng.choice([0, 1, 1, 2, 3, 8]) if rng.random() < 0.93 else rng.choice([24, 127, 128, 200, 255])
        if k > 24:
            if sanity[0] <= 0:
                k = 2
            sanity[0] -= 1
        out.append({"type": t, "text": gen_text(rng, rng.choice([10, 40, 140, 255])), "otext": gen_text(rng, rng.choice([8, 300])),
                    "overall": bytes(rng.choice([0, 0xff, 0x80, rng.randrange(256)]) for _ in range(4)).hex(), "elements": [gen_element(rng) for _ in range(k)]})
    return out


def gen_enclosures(rng):
    sanity = [1]
    out = []
    for i in range(rng.choice([1, 1, 1, 2, 3])):
        out.append({"rel": rng.randrange(8), "procs": rng.randrange(8), "sub": rng.choice([i, 0x80, 0xff]), "id": gen_hex(rng, 8), "vendor": gen_text(rng, 8),
                    "product": gen_text(rng, 16), "rev": gen_text(rng, 4), "vs": gen_hex(rng, rng.choice([0, 0, 4, 100, 212])), "types": gen_types(rng, sanity)})
    return out


def gen_C17(rng):
    n = pick(rng, [(1, 5), (2, 2), (3, 1)])
    s = base(rng, n)
    s["devs"] = []
    for i in range(rng.randrange(1, n + 1)):
        d = {"ses": {"generation": rng.choice([0, 1, 2 ** 31, 2 ** 32 - 1, rng.getrandbits(32)]), "flags": rng.randrange(32), "enclosures": gen_enclosures(rng),
                     "pages": {"80": gen_hex(rng, rng.choice([0, 1, 100, 251]))}}}
        for _ in range(rng.choice([0, 1, 3])):
            d["ses"]["pages"]["%02x" % rng.choice([0x04, 0x05, 0x0a, 0x0e, 0x20, 0x81, 0xff])] = gen_hex(rng, rng.choice([0, 4, 200]))
        if rng.random() < 0.3:
            d["slack"] = gen_hex(rng, rng.choice([1, 4, 60, 300]))
        s["devs"].append(d)
    for i, u in enumerate(s["users"]):
        u["dev"] = i % len(s["devs"])
    rate = rng.choice([0, 0, 0.1, 0.25])
    gen_of = {}
    for k in range(rng.randrange(2, 12)):
        u = rng.randrange(n)
        dev = s["users"][u]["dev"]
        c = s["devs"][dev]["ses"]
        r = rng.random()
        if r < 0.25:
            what = rng.randrange(4)
            if what == 0:
                s["steps"].append({"u": u, "ev": "set", "path": ["ses", "flags"], "value": rng.randrange(32)})
            elif what in (1, 2):
                at = [(e, t) for e in range(len(c["enclosures"])) for t in range(len(c["enclosures"][e]["types"]))]
                if at and not gen_of.get(dev):
                    e, t = rng.choice(at)
                    els = c["enclosures"][e]["types"][t]["elements"]
                    if els:
                        i = rng.randrange(len(els))
                        s["steps"].append({"u": u, "ev": "set", "path": ["ses", "enclosures", e, "types", t, "elements", i], "value": gen_element(rng)})
            elif rng.random() < 0.5:
                gen_of[dev] = gen_of.get(dev, 0) + 1
                s["steps"].append({"u": u, "ev": "set", "path": ["ses", "enclosures"], "value": gen_enclosures(rng), "bump": 1})
            continue
        code = pick(rng, [(1, 3), (2, 5), (7, 4), (0, 1), (0x80, 1), (rng.choice([int(x, 16) for x in c["pages"]] + [0x33]), 1)])
        st = {"op": "ses", "code": code}
        st["u"], st["tok"] = u, k + 1
        s["steps"].append(faulty(rng, rate, st))
    return s


# ------------------------------------------------------------------------------------------------
# comparing what the library says with what the device holds

def differs(got, want, path=""):
    """None, or where and how got is not want."""
    if isinstance(want, Maybe):
        return None if got is None or got == 0 else "%s: %r, the device stated nothing" % (path, got)
    if isinstance(want, dict):
        if got is None or isinstance(got, (int, bytes, bytearray, str, list, tuple)):
            return "%s: %r instead of an object" % (path, got)
        for k in sorted(want):
            try:
                v = getattr(got, k)
            except AttributeError:
                return "%s.%s is missing" % (path, k)
            except Exception as e:
                return "%s.%s: %s: %s" % (path, k, type(e).__name__, e)
            d = differs(v, want[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(want, list):
        try:
            got = list(got)
        except TypeError:
            return "%s: %r instead of a list" % (path, got)
        if len(got) != len(want):
            return "%s: %d items, the device has %d" % (path, len(got), len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            d = differs(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(want, str):
        if isinstance(got, (bytes, bytearray)):
            got = bytes(got).decode("latin-1")
        if not isinstance(got, str) or got.rstrip("\0 ") != want.rstrip("\0 "):
            return "%s: %r, the device holds %r" % (path, got, want)
        return None
    if isinstance(want, (bytes, bytearray)):
        if isinstance(got, str):
            got = got.encode("latin-1")
        try:
            same = bytes(got) == bytes(want)
        except Exception:
            same = False
        return None if same else "%s: %r, the device holds %r" % (path, got, bytes(want))
    if want is None:
        return None if got is None else "%s: %s, the device has none" % (path, type(got).__name__)
    if isinstance(got, (int, bool)) and got == want:
        return None
    return "%s: %r, the device holds %r" % (path, got, want)


# ------------------------------------------------------------------------------------------------
# running

NACA = ("read", "write", "ws", "caw", "unmap", "tur", "inquiry", "vpd", "cap10", "cap16", "luns", "rtpg", "reserve6", "reserve10", "release6", "release10",
        "prin", "prout", "log", "ses")


class Op(object):
    """One request of a user."""
    def __init__(self, step, user):
        self.step, self.user = step, user
        self.obj = None
        self.meaning = None
        self.subs = []
        self.ref = None                  # ("ok", what to expect) or Check / Conflict, as the reference says
        self.outcome = None
        self.refused = None
        self.built = None
        self.short = None                # a transfer that ended early, after that many bytes
        self.given = None                # arguments that the library could write on


class RawPage(object):
    """The page read as bytes, and decoded with the class the library gives for its code."""
    def __init__(self, command, new):
        self.command, self.new = command, new

    def execute(self, executer):
        from infi.asi import SCSIReadCommand
        raw = yield executer.call(SCSIReadCommand(bytes(self.command.create_datagram()), self.command.allocation_length))
        page = self.new()
        page.unpack(raw)
        yield page


class User(object):
    def __init__(self, index, j):
        self.index, self.j = index, j
        self.op = None
        self.objects = {}
        self.conf = None


class Dev(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.unit = target.Unit(cfg)
        self.blocks = target.Blocks(cfg["disk"]) if "disk" in cfg else None
        self.pr = target.Reservations(cfg["pr"]) if "pr" in cfg else None
        self.ua = {}
        if self.pr:
            for r in (self.pr, self.unit.pr):
                for i, port, key, atp in cfg["pr"].get("others", ()):
                    r.add((i, port), key, bool(atp))


class Run(object):
    def __init__(self, scenario):
        self.s = scenario
        self.prop = scenario.get("as") or scenario.get("prop")
        self.kept = []
        self.watched = None
        self.violations = []
        self.stats = {}
        self.w = None

    def bad(self, kind, text):
        if not self.violations:
            self.violations.append((kind, text))
            self.w.trace("VIOLATION", kind, text)

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def wrong(self):
        return {"C10": "reservation-wrong", "C11": "identity-wrong", "C16": "state-wrong", "C17": "enclosure-wrong", "C05": "read-wrong"}[self.prop]

    # ---- the device -----------------------------------------------------------------------------
    def nexus(self, user):
        return (user.j.get("init", user.index), user.j.get("port", 1))

    def device_for(self, user):
        def device(sub):
            op, dev = user.op, user.dev
            cdb, data = bytes(sub.cdb), bytes(sub.data_out or b"")
            self.w.trace("cdb", user.index, cdb.hex(), len(data))
            if op is None:
                self.bad("unasked", "a command reached the device of user %d, who asked for none: %s" % (user.index, cdb.hex()))
                return Outcome(status=CHECK, sense=fixed_sense(0xb, 0, 0))
            op.subs.append(sub)
            if op.step["op"] == "bad":
                return Outcome(status=CHECK, sense=fixed_sense(0x5, 0x24, 0))
            first = len(op.subs) == 1
            if not first:
                self.bad("repeated", "%s was sent %d times" % (self.name(op), len(op.subs)))
            f = op.step.get("f") if first else None
            k = f["k"] if f else None
            lat = op.step.get("lat", 10)
            if k == "errno":
                op.outcome = Outcome(submit_errno=5)
                return op.outcome
            if k == "status":
                op.outcome = Outcome(status=f["status"], lat=lat)
                return op.outcome
            if k == "check":
                op.outcome = Outcome(status=CHECK, sense=fixed_sense(*f["sense"]), driver=8 if user.kind in ("sg", "sgio") else 0, lat=lat)
                return op.outcome
            if k == "hang" and not f.get("ex"):
                op.outcome = Outcome(hang=True)
                return op.outcome
            part = None
            if k == "partial":
                part = int(f["cut"] * op.meaning.get("n", 0))
            nexus = self.nexus(user)
            attention = dev.ua.get(nexus)
            if attention and cdb[0] not in (0x12, 0xA0, 0x03):
                asc, ascq = attention.pop(0)
                reply = Check(6, asc, ascq)
            else:
                try:
                    reply = dev.unit.execute(nexus, cdb, data, part)
                except (Check, Conflict) as e:
                    reply = e
                self.stat("executed")
                if first:
                    op.ref = self.reference(op, nexus, part)
                    self.compare(op, dev)
            if attention is not None and op.ref is None:
                op.ref = reply
            op.reply = reply
            if k == "lost":
                op.outcome = Outcome(host=1, lat=lat) if user.kind != "solaris" else Outcome(api_error=5, lat=lat)
            elif k == "hang":
                op.outcome = Outcome(hang=True)
            elif isinstance(reply, Conflict):
                op.outcome = Outcome(status=CONFLICT, lat=lat)
            elif isinstance(reply, Check):
                op.outcome = Outcome(status=CHECK, sense=fixed_sense(reply.key, reply.asc, reply.ascq, info=reply.info), lat=lat,
                                     driver=8 if user.kind in ("sg", "sgio") else 0)
            elif k == "partial":
                op.outcome = Outcome(status=CHECK, sense=fixed_sense(3, 0x0c, 0, info=part), lat=lat)
            else:
                if k == "short":
                    op.short = int(f["cut"] * len(reply))
                    reply = reply[:op.short]
                op.got = reply[:sub.length] if sub.direction == "in" else b""
                op.outcome = Outcome(data=op.got, lat=lat)
            return op.outcome
        return device

    @staticmethod
    def cut(m, data, want):
        """A VPD page that is longer than what its command has room for: what was received whole is reported."""
        room = {0x83: 252, 0x89: 1024}.get(m["code"], 2048 if m["code"] not in KNOWN_VPD else 252)
        if len(data) <= room:
            return ("object", want)
        if m["code"] == 0x83:
            ds, at = [], 4
            for d in want["designators_list"]:
                at += 4 + d["designator_length"]
                if at > room:
                    break
                ds.append(d)
            want["designators_list"] = ds
        elif "page_data" in want:
            want["page_data"] = want["page_data"][:room - 4]
        else:
            return ("any", None)
        return ("object", want)

    def reference(self, op, nexus, part):
        """Apply what was asked for to the reference state; what the user must be told."""
        st, m, dev = op.step, op.meaning, op.user.dev
        o = m["op"]
        c = dev.cfg
        try:
            if dev.pr and o not in ("inquiry", "vpd", "luns"):
                q = dev.pr.ua.get(nexus)
                if q:
                    asc, ascq = q.pop(0)
                    raise Check(6, asc, ascq)
            if c.get("strict") and (m.get("hint") or m.get("naca")) or m.get("never"):
                raise Check(*target.BAD_CDB)
            if o in ("read", "write", "ws", "caw", "unmap"):
                if dev.pr:
                    dev.pr.allowed(nexus, "read" if o == "read" else "write")
                return ("data", dev.blocks.apply(m, part))
            if o == "tur":
                if dev.pr:
                    dev.pr.allowed(nexus, "none")
                if c.get("not_ready"):
                    raise Check(2, *c["not_ready"])
                return ("is", True)
            if o == "prout":
                dev.pr.out(nexus, m)
                return ("nothing", None)
            if o in ("reserve6", "reserve10", "release6", "release10"):
                (dev.pr.reserve if o.startswith("reserve") else dev.pr.unreserve)(nexus, m)
                return ("nothing", None)
            if o == "prin":
                if dev.pr.legacy and dev.pr.legacy[0] != nexus:
                    raise Conflict()
                return ("prin", self.want_prin(dev.pr, m))
            if o == "inquiry":
                return ("object", target.standard_inquiry(c["inq"], m["alloc"])[1])
            if o == "vpd":
                return self.cut(m, *target.vpd_page(c["inq"], m["code"]))
            if o in ("cap10", "cap16"):
                if m["lba"] and not m["pmi"]:
                    raise Check(*target.BAD_CDB)
                return ("object", (target.capacity10 if o == "cap10" else target.capacity16)(c["cap"])[1])
            if o == "luns":
                key = "%d" % m["select"]
                if key not in c["luns"]:
                    raise Check(*target.BAD_CDB)
                data, items = target.report_luns(c["luns"][key])
                return ("luns", (data, items, m))
            if o == "rtpg":
                data, want = target.port_groups(c["tpg"], m["fmt"])
                return ("object", want) if len(data) <= m["alloc"] else ("groups", want)
            if o == "copy":
                data, want = target.copy_limits(c["copy"])
                if len(data) > m["alloc"] >= 44:
                    want["implemented_descriptor_list"] = want["implemented_descriptor_list"][:m["alloc"] - 44]
                return ("object", want) if m["alloc"] >= 44 else ("any", None)
            if o == "log":
                key = "%02x/%02x" % (m["page"], m["sub"])
                if key not in c["logs"]:
                    raise Check(*target.BAD_CDB)
                return ("bytes", (dev.unit.log(key, m.get("pc", 0)), m["alloc"]))
            if o == "ses":
                data, want = target.ses_page(c["ses"], m["code"])
                limit = {0: 255, 1: 65535, 2: 65535, 7: 65535, 0x80: 255}.get(m["code"], 2048)
                if len(data) > limit:
                    return ("any", None)
                if m["code"] in (2, 7) and m["conf_layout"] != c["ses"].get("layout", 0):
                    return ("stale", {"generation_code": c["ses"]["generation"]})
                if m["code"] == 1:
                    op.layout = c["ses"].get("layout", 0)
                return ("object", want)
            raise ValueError(o)
        except (Check, Conflict) as e:
            return e

    def want_prin(self, pr, m):
        sa, alloc = m["sa"], m["alloc"]
        full = len(pr.encode_in(sa))
        fits = full <= alloc
        want = {"pr_generation": pr.generation}
        if sa == 0:
            want["key_list"] = pr.keys() if fits else Unfit
        elif sa == 1:
            held = pr.holder is not None
            want["additional_length"] = 16 if held else 0
            if held and fits:
                want.update(reservation_key=pr.reported_key(), pr_type=pr.type, scope=0)
        elif sa == 2:
            c = pr.cfg
            want = {"length": 8, "persist_through_power_lost_capable": c["ptpl_c"], "all_target_ports_capable": c["atp_c"],
                    "specify_initiator_ports_capable": c["sip_c"], "compatible_reservation_handling": c["crh"],
                    "replace_lost_reservation_capable": c["rlr_c"], "persist_through_power_lost_activates": pr.aptpl, "allow_commands": c["allow"],
                    "type_mask_valid": c["tmv"]}
            for t, name in ((1, "write_exclusive"), (3, "exclusive_access"), (5, "write_exclusive_registrants_only"),
                            (6, "exclusive_access_registrants_only"), (7, "write_exclusive_all_registrants"), (8, "exclusive_access_all_registrants")):
                want[name] = int(t in c["types"])
        elif fits:
            out = []
            for d in pr.full():
                w = {"reservation_key": d["key"], "reservation_holder": d["holder"], "all_target_ports": d["atp"],
                     "additional_length": len(d["tid"]), "scope": 0,
                     "transport_id": {"protocol_identifier": d["tid"][0] & 0xf, "format_code": d["tid"][0] >> 6, "specific_data": d["tid"][1:]}}
                if d["holder"]:
                    w["pr_type"] = d["type"]
                if not d["atp"]:
                    w["relative_target_port_identifier"] = d["rtpi"]
                out.append(w)
            want["full_status_descriptors"] = out
        return {"want": want, "full": full, "sa": sa, "empty": sa == 3 and full == 8}

    def compare(self, op, dev):
        if dev.blocks:
            x = dev.blocks.differs(dev.unit.blocks)
            if x is not None:
                self.bad("touched" if self.prop == "C05" else "effect",
                         "%s left block %d %s, it must be %s" % (self.name(op), x, dev.unit.blocks.block(x)[:16].hex(), dev.blocks.block(x)[:16].hex()))
        if dev.pr and dev.pr.snapshot() != dev.unit.pr.snapshot():
            a, b = dev.pr.snapshot(), dev.unit.pr.snapshot()
            i = [i for i in range(len(a)) if a[i] != b[i]][0]
            what = ("registrations", "order of registrations", "holder", "type", "generation", "persist through power loss", "legacy reservation",
                    "unit attentions")[i]
            self.bad("effect", "%s: %s of the device are %r, what was asked for gives %r" % (self.name(op), what, b[i], a[i]))

    # ---- the user -------------------------------------------------------------------------------
    def name(self, op):
        st = dict(op.meaning or op.step)
        return "user %d %s(%s)" % (op.user.index, st.get("op"), ", ".join(
            "%s=%s" % (k, v if not isinstance(v, (bytes, bytearray)) else "%d bytes" % len(v)) for k, v in sorted(st.items()) if k not in ("op", "u", "f")))

    def build(self, op):
        """Resolve the step's meaning and make the command object."""
        import infi.asi.cdb.read as rd
        import infi.asi.cdb.write as wr
        st, user = op.step, op.user
        dev = user.dev
        o = st["op"]
        if o == "again":
            old = user.objects.get(st["of"])
            if old is None or old.obj is None:
                return False
            op.obj, op.meaning = old.obj, old.meaning
            change = st.get("change")
            if change:
                op.meaning = dict(old.meaning, **change)
                for k, v in change.items():
                    setattr(op.obj, {"lba": "logical_block_address", "n": "transfer_length"}.get(k, k), v)
                user.objects[st["of"]] = op
            return True
        m = {"op": o}
        bs = dev.cfg["disk"]["bs"] if "disk" in dev.cfg else 512
        attrs = {}
        if o in ("read", "write", "ws", "caw"):
            m.update(lba=st["lba"], n=st["n"])
            for k in ("fua", "dpo"):
                if st.get(k):
                    attrs[k] = 1
            if st.get("fua"):
                m["fua"] = 1
            if st.get("prot"):
                m["prot"] = st["prot"]
                attrs["rdprotect" if o == "read" and st.get("form") == 10 else "reserved" if o == "read" else "wrprotect"] = st["prot"]
            if st.get("group"):
                attrs["group_number"] = st["group"]
            if st.get("dpo") or st.get("group"):
                m["hint"] = 1
        if o == "read":
            n = st["n"]
            if st["form"] == 6 and n == 256:
                n = 0
            op.obj = getattr(rd, "Read%dCommand" % st["form"])(st["lba"], n, *([bs] if bs != 512 else []))
        elif o == "write":
            m["data"] = b"".join(target.pattern(st.get("tok", 0) * 7919 + 1, i, bs) for i in range(st["n"]))
            op.obj = getattr(wr, "Write%dCommand" % st["form"])(st["lba"], m["data"], *([bs] if bs != 512 else []))
        elif o == "ws":
            from infi.asi.cdb import write_same
            m["data"] = bytes(bs) if st.get("zero") else target.pattern(st.get("tok", 0) * 7919 + 1, 0, bs)
            if st.get("unmap"):
                m["unmap"] = 1
                attrs["unmap"] = 1
            m["data"] *= st.get("times", 1)
            size = {} if bs == 512 else {"block_size": bs}
            op.obj = getattr(write_same, "WriteSame%dCommand" % st["form"])(st["lba"], m["data"], *([] if st.get("plain") else [st["n"]]), **size)
        elif o == "caw":
            from infi.asi.cdb import compare_and_write
            old = bytearray(dev.blocks.read(st["lba"], min(st["n"], max(0, dev.blocks.count - st["lba"]))).ljust(st["n"] * bs, b"\0"))
            if not st["match"] and old:
                old[int(st["at"] * len(old))] ^= 1 + int(st["at"] * 997) % 255
            new = b"".join(target.pattern(st.get("tok", 0) * 7919 + 1, i, bs) for i in range(st["n"]))
            m["data"] = bytes(old) + new
            op.obj = compare_and_write.CompareAndWriteCommand(st["lba"], m["data"], st["n"], *([bs] if bs != 512 else []))
        elif o == "unmap":
            from infi.asi.cdb import unmap
            m["ranges"] = [list(r) for r in st["ranges"]]
            op.given = [tuple(r) for r in st["ranges"]]
            op.obj = unmap.UnmapCommand(op.given)
            if st.get("group"):
                attrs["GROUP_NUMBER"] = st["group"]
                m["hint"] = 1
        elif o == "tur":
            from infi.asi.cdb import tur
            op.obj = tur.TestUnitReadyCommand()
        elif o == "prout":
            from infi.asi.cdb.persist import output
            from infi.asi.cdb.persist.transport import TransportId
            me = self.nexus(user)
            regs = dev.pr.regs
            rk = regs[me][0] if st["rk"] == "own" and me in regs else 0 if st["rk"] == "own" else st["rk"]
            sark = st["sark"]
            if isinstance(sark, str):
                other = self.nexus(self.users[int(sark[2:]) % len(self.users)])
                sark = regs[other][0] if other in regs else 77
            m.update(sa=st["sa"], rk=rk, sark=sark, type=st["type"], aptpl=st.get("aptpl", 0))
            kw = {}
            said = lambda f: st.get(f) or st.get("spell")      # a flag can be left out or be given as 0
            if said("aptpl"):
                kw["activate_persist_through_power_loss"] = st.get("aptpl", 0)
            if st["sa"] == 7:
                tid = bytes.fromhex(dev.cfg["pr"]["initiators"][st["to"]]) if st["to"] >= 0 else bytes([0, 0]) + bytes(22)
                m.update(tid=tid, rtpi=st["rtpi"], unreg=st["unreg"])
                t = TransportId(protocol_identifier=tid[0] & 0xf, format_code=tid[0] >> 6, specific_data=bytearray(tid[1:]))
                op.given = t
                kw.update(transport_id=t, relative_target_port_identifier=st["rtpi"], unregister=st["unreg"])
            else:
                m.update(atp=st.get("atp", 0), sip=st.get("sip", 0))
                if said("atp"):
                    kw["all_target_ports"] = st.get("atp", 0)
                if said("sip"):
                    kw["specify_initiator_ports"] = st.get("sip", 0)
            op.obj = output.PersistentReserveOutCommand(st["sa"], reservation_key=rk, service_action_reservation_key=sark, pr_type=st["type"], **kw)
        elif o == "prin":
            from infi.asi.cdb.persist import input
            m.update(sa=st["sa"], alloc=st.get("alloc", 520))
            op.obj = input.PersistentReserveInCommand(st["sa"], **({"allocation_length": st["alloc"]} if "alloc" in st else {}))
        elif o in ("reserve6", "reserve10", "release6", "release10"):
            from infi.asi.cdb import release, reserve
            cls = getattr(reserve if o.startswith("reserve") else release, o.capitalize() + "Command")
            third = st.get("third", 0)
            m["third"] = third or None
            op.obj = cls(**({"third_party_device_id": third} if "third" in st else {}))
        elif o == "inquiry":
            from infi.asi.cdb.inquiry.standard import StandardInquiryCommand
            m["alloc"] = st.get("alloc", 36)
            op.obj = StandardInquiryCommand(**({"allocation_length": st["alloc"]} if "alloc" in st else {}))
        elif o == "vpd":
            from infi.asi.cdb.inquiry import vpd_pages
            m["code"] = st["code"]
            op.obj = vpd_pages.get_vpd_page(st["code"])()
            if st.get("raw"):
                op.obj = RawPage(op.obj, lambda: vpd_pages.get_vpd_page_data(st["code"])())
        elif o in ("cap10", "cap16"):
            from infi.asi.cdb import read_capacity
            m.update(lba=st.get("lba", 0), pmi=st.get("pmi", 0))
            op.obj = getattr(read_capacity, "ReadCapacity%sCommand" % o[3:])(m["lba"], m["pmi"])
        elif o == "luns":
            from infi.asi.cdb.report_luns import ReportLunsCommand
            m.update(select=st.get("select", 0), alloc=st.get("alloc", 16384), allow=st.get("allow", 0))
            op.obj = ReportLunsCommand(select_report=m["select"], allocation_length=m["alloc"], allow_unsupported_addressing_format=bool(m["allow"]))
        elif o == "rtpg":
            from infi.asi.cdb.rtpg import RTPGCommand
            m.update(fmt=st["fmt"], alloc=st.get("alloc", 16384))
            op.obj = RTPGCommand(st["fmt"], **({"allocation_length": st["alloc"]} if "alloc" in st else {}))
        elif o == "copy":
            from infi.asi.cdb.receive_copy_operating_parameters import ReceiveCopyOperatingParametersCommand
            m["alloc"] = st["alloc"]
            op.obj = ReceiveCopyOperatingParametersCommand(allocation_length=st["alloc"], control=4 if st.get("naca") else 0)
            if st.get("naca"):
                m["naca"] = 1
        elif o == "log":
            from infi.asi.cdb.log_sense import LogSenseCommand
            m.update(page=st["page"], sub=st["sub"], alloc=st.get("alloc", 396))
            op.obj = LogSenseCommand(st["page"], st["sub"], **({"allocation_length": st["alloc"]} if "alloc" in st else {}))
            for k, name in (("pc", "pc"), ("pointer", "parameter_pointer"), ("sp", "sp")):
                if st.get(k):
                    m[k] = attrs[name] = st[k]
            if st.get("pointer") or st.get("sp"):
                m["never"] = 1
        elif o == "ses":
            from infi.asi.cdb.diagnostic.ses_pages import get_ses_page, get_ses_page_data
            m["code"] = st["code"]
            cls = get_ses_page(st["code"])
            if st["code"] in (2, 7):
                if user.conf is None:
                    return False
                m["conf_layout"] = user.conf[1]
                op.given = user.conf[0]
                op.obj = cls(user.conf[0])
            else:
                op.obj = cls()
            if st.get("raw") and st["code"] != 0:
                conf = user.conf
                op.obj = RawPage(op.obj, lambda: get_ses_page_data(st["code"])(conf[0] if conf else None))
        else:
            raise ValueError(o)
        for k, v in attrs.items():
            setattr(op.obj, k, v)
        if st.get("naca") and o in NACA and not st.get("raw"):
            op.obj.control.naca = 1
            m["naca"] = 1
        op.meaning = m
        user.objects[st.get("tok")] = op
        return True

    def perform_bad(self, user, step):
        """A request that its command cannot express has to be refused, with nothing sent."""
        from infi.asi.coroutines.sync_adapter import sync_wait
        bs = user.dev.cfg["disk"]["bs"]
        size = [] if bs == 512 else [bs]
        lba, n, of, form = step.get("lba"), step.get("n"), step["of"], step.get("form")
        data = bytes(max(0, max(n or 0, 0) * bs + step.get("extra", 0))) if of in ("write", "caw") else bytes(bs)
        if of == "caw":
            data = bytes(max(0, len(data) + (max(n, 0) + step.get("blocks", 0)) * bs))
        op = Op(step, user)
        op.meaning = {"op": of}
        user.op, before = op, len(op.subs)
        self.w.trace("bad", user.index, of, step.get("how"))
        try:
            if of == "read":
                import infi.asi.cdb.read as rd
                obj = getattr(rd, "Read%dCommand" % form)(lba, n, *size)
            elif of == "write":
                import infi.asi.cdb.write as wr
                obj = getattr(wr, "Write%dCommand" % form)(lba, data, *size)
            elif of == "ws":
                from infi.asi.cdb import write_same
                obj = getattr(write_same, "WriteSame%dCommand" % form)(lba, data, n, *size)
            elif of == "caw":
                from infi.asi.cdb import compare_and_write
                obj = compare_and_write.CompareAndWriteCommand(lba, data, n, *size)
            elif of == "unmap":
                from infi.asi.cdb import unmap
                obj = unmap.UnmapCommand([(3, 1), (lba, n)])
            else:
                from infi.asi.cdb.persist import output
                obj = output.PersistentReserveOutCommand(step["sa"], reservation_key=step["rk"], service_action_reservation_key=step["sark"],
                                                         pr_type=step["type"])
            sync_wait(obj.execute(user.adapter or user.executer))
            said = "success"
        except SimAbort:
            raise
        except BaseException as e:
            said = "%s: %s" % (type(e).__name__, str(e)[:100])
        user.op = None
        self.stat("inexpressible")
        if op.subs or said == "success":
            self.bad("accepted", "%s cannot be expressed; it was sent all the same (%s), with the outcome: %s" %
                     (", ".join("%s=%s" % kv for kv in sorted(step.items()) if kv[0] not in ("op", "u", "tok")), len(op.subs), said))

    def perform(self, user, step):
        from infi.asi.coroutines.sync_adapter import sync_wait
        w = self.w
        if step["op"] == "bad":
            return self.perform_bad(user, step)
        op = self.early.pop(id(step), None)
        if op is None:
            if step["op"] == "ses" and step["code"] in (2, 7) and user.conf is None:
                self.perform(user, {"u": user.index, "op": "ses", "code": 1, "tok": -1})
                if user.conf is None or self.violations:
                    return
            op = Op(step, user)
            if not self.try_build(op):
                return
        w.trace("op", user.index, step["op"])
        user.op = op
        op.outcome = op.ref = op.reply = op.short = None
        op.got = b""
        data = exc = None
        if self.s.get("keep"):
            given = keep.freeze(op.given)
        try:
            data = sync_wait(op.obj.execute(user.adapter or user.executer))
        except SimAbort:
            raise
        except BaseException as e:
            exc = e
        user.op = None
        w.trace("done", user.index, type(exc).__name__ if exc else "ok")
        if self.watched is not None:
            watch(self.watched["commands"], op.obj)
            watch(self.watched["results"], data)
            watch(self.watched["errors"], exc)
        if self.s.get("keep"):
            self.judge_kept(op, given, data if exc is None else exc)
        self.judge(op, data, exc)
        if step.get("scribble") and not self.violations:
            w.fault("scribbled")
            if step["op"] != "ses":
                self.kept.pop()
                keep.scribble(data)
            if hasattr(getattr(op.obj, "control", None), "naca"):
                op.obj.control.naca ^= 1
                user.objects = {k: o for k, o in user.objects.items() if o.obj is not op.obj}
            self.judge_kept(None, None, None)

    def judge_kept(self, op, given, result):
        """What was handed out earlier, and what was handed in, is as it was."""
        after = "after " + self.name(op) if op else "after a caller changed another result"
        if op:
            d = keep.changed(op.given, given, "its argument")
            if d:
                self.bad("argument-changed", "%s: %s" % (after, d))
        for name, old, frozen in self.kept:
            d = keep.changed(old, frozen)
            if d:
                self.bad("result-changed", "%s, the result of %s changed: %s" % (after, name, d))
                return
        if op:
            self.kept.append((self.name(op), result, keep.freeze(result)))

    def try_build(self, op):
        try:
            return self.build(op)
        except SimAbort:
            raise
        except Exception as e:
            op.meaning = op.meaning or dict(op.step)
            self.bad("not-sent", "building %s raised %s: %s" % (self.name(op), type(e).__name__, str(e)[:200]))
            return False

    def judge(self, op, data, exc):
        E = errors()
        name = self.name(op)
        f = op.step.get("f")
        said = "%s: %s" % (type(exc).__name__, str(exc)[:200]) if exc is not None else "success"
        if not op.subs:
            self.bad("not-sent", "%s ended with %s and nothing was sent" % (name, said))
            return
        if self.violations:
            return
        self.stat("commands")
        o = op.outcome
        if o.failed:
            if exc is None:
                self.bad("silent", "%s reports success; the device or the system said status=0x%02x host=%s errno=%s hang=%s" %
                         (name, o.status, o.host, o.submit_errno or o.api_error, o.hang))
                return
            if o.status == CHECK and not isinstance(exc, E.AsiCheckConditionError):
                self.bad("error-lost", "%s ended with CHECK CONDITION and raised %s" % (name, said))
                return
            if f and op.reply is None or f and f["k"] in ("partial", "lost", "hang"):
                self.stat("faulted")
                return
            reply, ref = op.reply, op.ref
            if not isinstance(ref, (Check, Conflict)):
                self.bad("refused", "the device refused %s (%s); it was not what was asked for" % (name, reply))
            elif not ref.same(reply):
                self.bad("refused", "the device answered %s with %s; what was asked for gives %s" % (name, reply, ref))
            elif isinstance(ref, Check) and ref.key == 0xe and self.prop == "C05":
                key = getattr(getattr(exc, "sense_obj", None), "sense_key", None)
                if key not in ("MISCOMPARE", 0xe):
                    self.bad("miscompare", "%s: the comparison failed on the device and the error says %r" % (name, key))
            self.stat("rejected")
            return
        ref = op.ref
        if isinstance(ref, (Check, Conflict)):
            self.bad("effect" if self.prop == "C10" else "refused", "the device did %s, which must give %s %s" % (name, type(ref).__name__, ref))
            return
        how, want = ref
        if exc is not None:
            self.raised(op, how, want, exc, name, said)
            return
        d = self.result_differs(op, how, want, data)
        if d:
            self.bad(self.wrong(), "%s: %s" % (name, d))
        elif op.step.get("show"):
            try:
                repr(data)
            except Exception as e:
                self.bad("raised", "%s: printing the result raised %s: %s" % (name, type(e).__name__, str(e)[:200]))
        if how == "object" and op.meaning["op"] == "ses" and op.meaning["code"] == 1 and not d:
            op.user.conf = (data, op.layout)

    def raised(self, op, how, want, exc, name, said):
        if how in ("any", "stale", "groups"):
            return
        if how == "luns":
            raw, items, m = want
            if len(raw) > m["alloc"] if m["alloc"] >= 16 else len(raw) < m["alloc"]:
                return
            if m["alloc"] >= 16 and not m["allow"] and any(x & 0xffffffffffff or x >> 62 for x in items):
                from infi.asi.cdb.report_luns import UnsupportedReportLuns
                if isinstance(exc, UnsupportedReportLuns):
                    return
        self.bad("raised", "%s was done by the device and raised %s" % (name, said))

    def result_differs(self, op, how, want, data):
        if how == "any":
            return None
        if how == "is":
            return None if data is want else "gave %r" % (data,)
        if how == "nothing":
            return None if data is None or len(data) == 0 else "gave %r" % (data,)
        if how in ("data", "bytes"):
            if how == "bytes":
                n = want[1]
                want = want[0][:n]
                if op.short is not None:
                    want = want[:op.short]
            elif want is None:
                return None if data is None or len(data) == 0 else "gave %r" % (data,)
            else:
                n = len(want)
                if op.short is not None:
                    want = want[:op.short]
            if data is None:
                data = b""
                n = n if want else 0
            if not isinstance(data, (bytes, bytearray)):
                return "gave %s" % type(data).__name__
            if bytes(data[:len(want)]) != want or len(data) > max(n, len(want)) or any(data[len(want):]):
                i = [i for i in range(min(len(data), len(want))) if data[i] != want[i]]
                return "returned %d bytes that are not the %d the device holds (first difference at %s)" % (len(data), len(want), i[0] if i else "the end")
            return None
        if how == "stale":
            return differs(data, want)
        if how == "object":
            return differs(data, want)
        if how == "groups":
            # the response was cut: what is reported must have been received
            got = list(data.descriptor_list)
            rows = [dict(w) for w in want["descriptor_list"][:len(got)]]
            if got and len(rows) == len(got):
                ports = len(list(got[-1].target_port_list))
                rows[-1]["target_port_list"] = rows[-1]["target_port_list"][:ports]
            return differs(got, rows, "descriptor_list")
        if how == "luns":
            raw, items, m = want
            if m["alloc"] < 16:
                got = bytes(data or b"")
                return None if got == raw[:m["alloc"]].ljust(m["alloc"], b"\0")[:m["alloc"]] else "gave %r" % (data,)
            if len(raw) > m["alloc"]:
                items = items[:(m["alloc"] - 8) // 8]
                got = list(data.lun_list)
                return differs(got, [x >> 48 for x in items[:len(got)]], "lun_list")
            if not m["allow"] and any(x & 0xffffffffffff or x >> 62 for x in items):
                return "a LUN in an unsupported format was not refused: %r" % data.lun_list
            got = [int(x, 16) for x in data.hex_lun_list]
            return differs(data.lun_list, [x >> 48 for x in items], "lun_list") or differs(got, items, "hex_lun_list")
        if how == "prin":
            w = dict(want["want"])
            keys = w.get("key_list")
            if keys is Unfit:
                w.pop("key_list")
                if data.key_list is not None and len(data.key_list or ()) != 0:
                    return "key_list is %r for keys that do not fit the allocation" % (data.key_list,)
            elif "key_list" in w and not keys:
                w.pop("key_list")
                if data.key_list:
                    return "key_list is %r, nobody is registered" % (data.key_list,)
            if want["empty"]:
                w.pop("full_status_descriptors")
                if data.full_status_descriptors:
                    return "descriptors where nobody is registered"
            d = differs(data, w)
            if d:
                return d
            if want["sa"] == 2:
                return None if data.required_allocation_length() == 8 else "required_allocation_length() is %r" % data.required_allocation_length()
            need = data.required_allocation_length()
            return None if need == want["full"] else "required_allocation_length() is %r, the device has %d bytes" % (need, want["full"])
        raise ValueError(how)

    # ---- events ---------------------------------------------------------------------------------
    def event(self, user, step):
        dev = user.dev
        ev = step["ev"]
        self.w.trace("event", user.index, ev)
        self.stat("events")
        if ev == "power":
            self.w.fault("power-loss")
            dev.unit.power_loss()
            if dev.blocks:
                dev.blocks.power_loss()
            if dev.pr:
                dev.pr.power_loss()
            for u in self.users:
                if u.dev is dev:
                    dev.ua[self.nexus(u)] = [(0x29, 0)] if self.prop != "C05" else []
        elif ev == "ua":
            self.w.fault("unit-attention")
            for u in self.users:
                if u.dev is dev:
                    dev.ua.setdefault(self.nexus(u), []).append(tuple(step["asc"]))
        elif ev == "set":
            self.w.fault("state-change")
            at = dev.cfg
            for k in step["path"][:-1]:
                at = at[k]
            try:
                at[step["path"][-1]] = step["value"]
            except (IndexError, KeyError, TypeError):
                pass
            if step.get("bump"):
                dev.cfg["ses"]["generation"] = (dev.cfg["ses"]["generation"] + 1) & 0xffffffff
                dev.cfg["ses"]["layout"] = dev.cfg["ses"].get("layout", 0) + 1

    def do_step(self, user, step):
        if "ev" in step:
            try:
                self.event(user, step)
            except (IndexError, KeyError, TypeError):
                pass                     # a path that a shrunk scenario does not have
        else:
            self.perform(user, step)

    # ---- the run --------------------------------------------------------------------------------
    def setup(self, i, j):
        import json
        import infi.asi as asi
        from infi.asi.coroutines.sync_adapter import sync_call
        kind = self.s.get("kind", "sg")
        user = User(i, j)
        user.kind = kind
        user.dev = self.devs[j["dev"] % len(self.devs)]
        path = "/dev/sim%d" % i
        self.w.add_node(path, NODE[kind](self.device_for(user)))
        f = asi.create_os_file(path)
        if kind == "sgio":
            from infi.asi.linux import LinuxIoctlCommandExecuter as cls
        else:
            cls = asi.create_platform_command_executer
        user.executer = cls(f)
        user.adapter = asi.CommandExecuterAdapter(user.executer, sync_call) if j.get("adapter") else None
        return user

    def execute(self):
        import json
        s = self.s
        kind = s.get("kind", "sg")
        w = self.w = World(platform=PLATFORM[kind], gevent=s.get("gevent", True), sched=s.get("sched", ()), preempt=s.get("preempt", False),
                           max_steps=400000)
        w.fine = [list(x) for x in s.get("fine", ())] if w.preempt else []
        w.aix_libc = kind != "aixf"
        seams.activate(w)
        try:
            self.devs = [Dev(json.loads(json.dumps(d))) for d in s["devs"]]
            self.users = []
            for i, j in enumerate(s["users"]):
                self.users.append(self.setup(i, j))
            self.early = {}
            steps = [st for st in s["steps"]]
            n = len(self.users)
            for st in steps:
                if st.get("early") and "op" in st and st["op"] not in ("again", "ses", "bad"):
                    op = Op(st, self.users[st["u"] % n])
                    if not self.try_build(op):
                        return self
                    self.early[id(st)] = op
            try:
                if s.get("conc") and n > 1:
                    for u in self.users:
                        w.spawn("user%d" % u.index, lambda u=u: self.main(u, [st for st in steps if st["u"] % n == u.index]))
                    w.run_tasks()
                    for t in w.tasks:
                        if t.error is not None and not isinstance(t.error, SimAbort):
                            raise t.error
                elif s.get("repeat"):
                    self.repeat(steps)
                else:
                    for st in steps:
                        self.do_step(self.users[st["u"] % n], st)
                        if self.violations:
                            break
            except SimAbort:
                pass
            if w.dead and not self.violations:
                self.bad("hang", "no progress (%s)" % w.dead)
        finally:
            seams.activate(None)
        return self

    def repeat(self, steps):
        """The same history again and again: what is still in use must not grow each time."""
        w = self.w
        self.watched = {"commands": [], "results": [], "errors": []}
        counts = []
        for n in range(self.s["repeat"]):
            for st in steps:
                self.do_step(self.users[st["u"] % len(self.users)], st)
                if self.violations:
                    return
            if n % 2 == 0:
                continue
            for u in self.users:
                u.objects, u.conf = {}, None
            w.memory.collect()
            if len(counts) == 2:
                w.memory.collect()
            now = {"buffers": w.memory.in_use()}
            for k, refs in self.watched.items():
                now[k] = sum(1 for r in refs if r() is not None)
            now["entries"] = fresh.measure([x for u in self.users for x in (u.executer, u.adapter)])
            counts.append(now)
        for k in counts[0]:
            grown = [b[k] - a[k] for a, b in zip(counts, counts[1:])]
            if grown and min(grown) > 0:
                self.bad("piles-up", "the same commands over and over; with nothing outstanding, after every second time, "
                         "%s still in use: %s" % (k, ", ".join(str(c[k]) for c in counts)))

    def main(self, user, steps):
        for st in steps:
            self.do_step(user, st)
            if self.violations:
                return


class Unfit(object):
    pass


def run(scenario):
    r = Run(scenario).execute()
    if scenario.get("prop") == "C12" and r.violations:
        alone = set()
        for i in range(len(scenario["users"])):
            fresh.restore()
            steps = [st for st in scenario["steps"] if st["u"] % len(scenario["users"]) == i]
            alone.update(k for k, _ in Run(dict(scenario, steps=steps, conc=0)).execute().violations)
        r.violations.extend([("interference", "%s: %s" % v) for v in r.violations if v[0] not in alone])
    if r.violations and any(st.get("scribble") for st in scenario["steps"]) and r.violations[0][0] not in ("result-changed", "argument-changed"):
        fresh.restore()
        plain = dict(scenario, steps=[{k: v for k, v in st.items() if k != "scribble"} for st in scenario["steps"]])
        if not Run(plain).execute().violations:
            r.violations.insert(0, ("tainted", "only because a caller changed its own result: " + r.violations[0][1]))
    return r


def nontrivial(r):
    return r.stats.get("executed", 0) >= 2 or bool(r.w.faults)


def count(r):
    out = {}
    for st in r.s["steps"]:
        if st.get("f"):
            k = "device-" + st["f"]["k"]
            out[k] = out.get(k, 0) + 1
        if st.get("early"):
            out["built-early"] = out.get("built-early", 0) + 1
    return out
