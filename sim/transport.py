"""The transport engine: users drive executers of every platform through the
simulated kernels; the device's behaviour is scripted per command.

gen(prop, rng) makes a scenario (plain JSON); run(scenario) executes it and
judges it.  run() draws nothing at random."""

import json
import re
import weakref

from . import fresh, keep, seams
from .scsi import *
from .world import (World, Outcome, SgNode, SolarisNode, AixNode, SimAbort, SimTimeout, SimKill, INTERRUPTS)
from .windows import WinNode, win_code

ENGINE = "transport"
PROPS = ("C01", "C02", "C03", "C04", "C06", "C09", "C12", "C13", "C15", "C20", "C21", "C22")

# what a broken oracle refutes
KINDS = {
    "wrong-data": {"C01", "C03", "C06", "C15"},                  # a command got bytes the device did not give for it
    "tail-not-zero": {"C03"},
    "wrong-error": {"C01", "C04", "C06", "C15"},                 # the error carries another command's sense
    "good-raised": {"C01", "C03", "C06", "C15"},
    "completed-twice": {"C01", "C06", "C15"},
    "never-completed": {"C01", "C06", "C15"},
    "premature": {"C01", "C03", "C06", "C15"},
    "internal-error": {"C01", "C06", "C15"},
    "no-callback": {"C01"},
    "stray-unreported": {"C01"},
    "stray-disturbed": {"C01"},
    "over-limit": {"C02"},
    "refused-below-limit": {"C02"},
    "slot-leak": {"C02", "C15"},
    "wait-early": {"C02", "C01"},
    "wait-raised": {"C02", "C15", "C06"},
    "wait-never-empties": {"C02", "C15"},
    "bad-accepted": {"C02", "C09"},
    "full-lies": {"C02"},
    "full-raised": {"C02"},
    "false-success": {"C03", "C04", "C06", "C15"},
    "sense-lost": {"C04"},
    "sense-wrong": {"C04"},
    "sense-type": {"C04"},
    "conflict-type": {"C04"},
    "status-unnamed": {"C04"},
    "code-lost": {"C04"},
    "timeout-late": {"C06"},
    "timeout-early": {"C06"},
    "available-not-returned": {"C06"},
    "timeout-type": {"C06"},
    "hang": {"C01", "C02", "C06", "C15", "C20"},
    "starved": {"C20"},
    "held-up": {"C20"},
    "piles-up": {"C21"},
    "result-changed": {"C22"},
    "tainted": {"C22"},
    "garbled": {"C09"},
    "not-submitted": {"C09", "C01", "C02"},
    "refused-wrong": {"C02"},
    "submitted-twice": {"C09"},
    "refused-submitted": {"C09", "C02"},
    "wrong-direction": {"C09"},
    "wrong-length": {"C09"},
    "wrong-data-out": {"C09"},
    "wrong-time-limit": {"C09"},
    "wrong-device": {"C12", "C09"},
    "bad-request": {"C09", "C13"},                        # the kernel had to reject or repair the request
    "freed-memory": {"C13"},
    "beyond-memory": {"C13"},
    "shared-memory": {"C13"},
    "interrupt-swallowed": {"C15"},
    "interrupt-wrong": {"C15"},
    "interference": {"C12"},                              # any of these with several users, and not with any user alone
}

RULE = ("A case is one simulated machine (Linux sg, Linux SG_IO, Solaris, AIX with and without libc, Windows) with one or more users "
        "drawing operations (send, call, wait, is_queue_full, idle, clock jump, stray completion), command shapes, device outcomes, latencies, "
        "stalls, interruption points and context switches from the seed. Non-trivial: a fault fired, completions were out of order or waiting "
        "together, a send was refused, an operation was interrupted, threads switched, or more than two commands were submitted.")
REAL = ["infi.asi (CommandExecuterBase, CommandExecuterAdapter, the Linux, Solaris, AIX and Windows executers, UnixFile, Win32File, "
        "executers context managers, coroutines, sense decoding, read and write CDB classes)", "infi.instruct", "ctypes structures and buffers"]
SIMULATED = ["sg driver and SG_IO ioctl", "Solaris USCSICMD ioctl", "AIX passthru ioctl and libc", "kernel32.dll", "os.open/read/write/close, select, "
             "poll", "clocks and sleep", "gevent's scheduler", "threads (greenlets switched at every seam by the recorded schedule)", "SCSI devices"]
ASSUMPTIONS = ["the simulated kernels behave as the drivers' documentation and sources say (DESIGN.md)", "the structures' layouts are those of 64-bit systems"]
OPTIONAL = ("gevent", "preempt", "sched", "fine", "stalls", "read_errors", "adapter", "chain", "int", "nocb", "max", "timeout", "read_timeout", "via",
            "naca", "vendor", "early", "driver", "host", "variant", "after", "status")
SHRINK_INT = {"lat": 0, "us": 0, "n": 0, "max": 1, "sched": 0, "stalls": 0}
NONEMPTY = ("users",)

PLATFORM = {"sg": "linux-ubuntu-jammy", "sgio": "linux-redhat-8", "solaris": "solaris-11", "aix": "aix-7",
            "aixf": "aix-7", "win": "windows-2008"}
NODE = {"sg": SgNode, "sgio": SgNode, "solaris": SolarisNode, "aix": AixNode, "aixf": AixNode, "win": WinNode}
DEFAULT_MAX = {"sg": 15, "sgio": 1, "solaris": 1, "aix": 1, "aixf": 1, "win": 15}
FAMILY = {"sg": ("sg", "sgio"), "sgio": ("sg", "sgio"), "solaris": ("solaris",), "aix": ("aix",), "aixf": ("aixf",),
          "win": ("win",)}
ASYNC = ("sg",)
RAW_OP = {6: 0xC0, 10: 0xE1, 12: 0xD2, 16: 0xF3, 32: 0x7F, 60: 0x7F, 64: 0x7F, 200: 0x7F, 255: 0x7F}
LONGEST = {"sg": 255, "sgio": 255, "solaris": 255, "aix": 64, "aixf": 64, "win": 16}
WIDEST = {"sg": 2 ** 32 - 1, "sgio": 2 ** 32 - 1, "solaris": 32767, "aix": 2 ** 32 - 1, "aixf": 2 ** 32 - 1}
# requests no kernel can be given
BAD = ("cdb-text", "cdb-none", "cdb-long", "data-text", "data-none", "length-text", "length-none", "command-none", "command-bytes")
CLS = ("Read6", "Read10", "Read12", "Read16", "Write6", "Write10", "Write12", "Write16")


# ------------------------------------------------------------------------------------------------
# generation

def pick(rng, pairs):
    total = sum(w for _, w in pairs)
    x = rng.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def gen_sense(rng, hard):
    key, asc, ascq = rng.randrange(16), rng.randrange(256), rng.randrange(256)
    if rng.random() < 0.5:
        asc, ascq = rng.choice([(0x40, 0x80 + rng.randrange(128)), (0x4d, rng.randrange(256)), (0x70, rng.randrange(256)), (0x4d, 0xff),
                                (0x55, 0x0e)] + sorted(ASC_NAMES))
    r = rng.random()
    form = pick(rng, [("fixed", 5), ("desc", 4), ("missing", 1 if hard else 0), ("odd", 3 if hard else 0)])
    if form == "fixed":
        length = rng.choice([18, 18, 18, 14, 20, 32, 96, 252])
        return fixed_sense(key, asc, ascq, info=rng.getrandbits(32), deferred=r < 0.2, length=length,
                           valid=rng.random() < 0.5, spec=rng.getrandbits(24),
                           extra=bytes(rng.randrange(256) for _ in range(max(0, length - 18))),
                           flags=rng.choice([0, 0x20, 0x40, 0x80, 0xe0]), csi=rng.choice([0, rng.getrandbits(32)]),
                           fru=rng.choice([0, rng.randrange(256)]))
    if form == "desc":
        ds = b""
        for _ in range(rng.randrange(4)):
            ds += rng.choice([descriptor(0, b"\x80\0" + bytes(rng.randrange(256) for _ in range(8))),
                              descriptor(1, b"\0\0" + bytes(8)), descriptor(2, b"\0\0\xc0\x00\x01\0"),
                              descriptor(3, b"\0\x07"), descriptor(0x80 + rng.randrange(64), bytes(rng.randrange(30)))])
        return desc_sense(key, asc, ascq, ds, deferred=r < 0.2)
    if form == "missing":
        return b""
    kind = rng.randrange(5)
    if kind == 0:                               # truncated
        s = fixed_sense(key, asc, ascq) if rng.random() < 0.5 else desc_sense(key, asc, ascq, descriptor(0, bytes(10)))
        return s[:rng.randrange(1, len(s))]
    if kind == 1:                               # descriptor with a wrong length, in both places a decoder may look
        d = bytes([rng.choice([0, 0, 1, 2, 3]), rng.randrange(256)]) + bytes(rng.randrange(256) for _ in range(rng.randrange(12)))
        s = bytearray(desc_sense(key, asc, ascq, d))
        if rng.random() < 0.6:
            s[6] = rng.randrange(1, 256)
        return bytes(s)
    if kind == 2:                               # unknown response code
        return bytes([rng.choice([0x7f, 0x00, 0x01, 0x6f, 0x74, 0xff, 0x80])]) + bytes(rng.randrange(256) for _ in range(rng.randrange(40)))
    if kind == 3:                               # descriptor list longer than the data
        s = bytearray(desc_sense(key, asc, ascq))
        s[6] = s[7] = rng.choice([1, 2, 8, 200, 244, 247, 248, 255])
        return bytes(s) + bytes(rng.randrange(256) for _ in range(rng.randrange(6)))
    return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 252)))


def gen_outcome(rng, kind, mix, lats, hard=False):
    """mix: good/check/status/host/errno/hang/short weights."""
    o = {"lat": rng.choice(lats)}
    k = pick(rng, mix)
    o["k"] = k
    if k == "check":
        o["sense"] = gen_sense(rng, hard).hex()
        if kind in ("sg", "sgio"):
            o["driver"] = pick(rng, [(8, 3), (0, 2), (0x28, 1)])
        if kind == "solaris" and (mix is MIX_FAIL or mix is MIX_SENSE) and rng.random() < 0.3:
            o["variant"] = 1
    elif k == "status":
        o["status"] = rng.choice(FAILING_STATUS)
        if kind in ("sg", "sgio") and rng.random() < 0.2 and mix is MIX_FAIL:
            o["host"] = rng.choice([1, 2, 7, 8])
        if kind == "solaris" and rng.random() < 0.4:
            o["host"] = rng.choice([1, 2, 4, 0x0c, 0x80, 0xff])          # uscsi_reason
        if kind in ("sg", "sgio") and rng.random() < 0.3:
            o["driver"] = rng.choice([0, 4, 6])
        if kind.startswith("aix") and rng.random() < 0.2:
            o["variant"] = 2
        if kind == "solaris" and (mix is MIX_FAIL or mix is MIX_SENSE) and rng.random() < 0.3:
            o["variant"] = 1
    elif k == "host":
        o["host"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 0xb, 0xe, 0xf] + ([0xa, 0xc, 0xd] if kind.startswith("aix") else []))
        if rng.random() < 0.3:
            o["driver"] = rng.choice([4, 5, 6, 7, 0x16, 0x26])
        if kind.startswith("aix") and rng.random() < 0.2:
            o["variant"] = 2
    elif k == "driver":
        o["driver"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 0x14, 0x26, 0x37])
    elif k == "errno":
        o["errno"] = rng.choice([5, 6, 12, 16, 19, 22, 11, 13, 14, 110])
    elif k == "api":
        o["errno"] = rng.choice([5, 6, 19, 14, 16, 22, 110] if kind != "win" else [1117, 1117, 2, 5, 6, 21, 31, 38, 87, 121, 170, 234, 995, 1167, 1460])
    elif k == "short":
        o["cut"] = rng.random()
    return o


MIX_GOOD = [("good", 1)]
MIX_MOST = [("good", 12), ("check", 2), ("status", 1), ("host", 1), ("driver", 0.4), ("short", 0.6)]
MIX_SLOT = [("good", 8), ("check", 2), ("status", 1), ("host", 1), ("errno", 3), ("hang", 0.4), ("api", 0.5)]
MIX_FAIL = [("good", 3), ("check", 3), ("status", 4), ("host", 3), ("driver", 2), ("errno", 1.5), ("api", 1), ("hang", 1), ("short", 2)]
MIX_SENSE = [("good", 1), ("check", 8), ("status", 3), ("host", 1.5), ("driver", 0.7), ("errno", 0.5), ("api", 0.5)]

NS = [0, 1, 4, 8, 36, 96, 255, 256, 512, 4096]


def gen_cmd(rng, kind, mix, lats, cls=0.0, hard=False):
    o = gen_outcome(rng, kind, mix, lats, hard)
    if rng.random() < cls:
        c = {"cls": rng.choice(CLS), "n": rng.randrange(1, 4), "bs": rng.choice([512, 512, 4096, 8]), "o": o}
        if rng.random() < 0.25:
            c["naca"] = 1
        if rng.random() < 0.15:
            c["vendor"] = rng.randrange(1, 4)
        if rng.random() < 0.5:
            c["early"] = 1
        return c
    d = pick(rng, [("in", 6), ("out", 3), ("none", 1)])
    if o["k"] == "short":
        d = "in"
    n = rng.choice(NS) if rng.random() < 0.8 else rng.randrange(1, 3000)
    if o["k"] == "short":
        n = max(n, 2)
    l = rng.choice([6, 10, 10, 12, 16])
    if rng.random() < 0.08:
        l = rng.choice([x for x in RAW_OP if x <= LONGEST[kind]])
    return {"l": l, "d": d, "n": n, "o": o}


LAT_SETS = ([0, 0, 1], [50, 100, 200], [0, 20, 1000, 9000], [10, 500, 15000, 40000], [100, 30000, 200000])


def gen_user(rng, kind, mix, n_ops, max_queue, lats, weights, cls=0.0, hard=False, nocb=0.1):
    ops = []
    for _ in range(n_ops):
        k = pick(rng, weights)
        if k in ("send", "call"):
            op = {"op": k, "cmd": gen_cmd(rng, kind, mix, lats, cls if k == "call" else 0, hard)}
            if k == "send" and rng.random() < nocb:
                op["nocb"] = 1
        elif k == "idle":
            op = {"op": "idle", "us": rng.choice([0, 10, 200, 5000, 30000, 100000])}
        else:
            op = {"op": k}
        ops.append(op)
    u = {"kind": kind, "ops": ops}
    if max_queue is not None:
        u["max"] = max_queue
    return u


def gen(prop, rng):
    G = globals()["gen_" + prop]
    s = G(rng)
    s["engine"] = ENGINE
    if prop in ("C01", "C02", "C09", "C12", "C15") and rng.random() < (0.5 if prop in ("C02", "C09") else 0.2):
        for u in s["users"]:
            for _ in range(rng.randrange(1, 4)):
                op = {"op": "bad", "how": rng.choice(BAD), "call": int(rng.random() < 0.5)}
                if op["how"] == "cdb-long":
                    most = LONGEST[u["kind"]]
                    op["n"] = rng.choice([x for x in (most + 1, most + 4, 32, 64, 65, 256, 260, 262, 266, 272, 512, 522, 65546) if x > most])
                u["ops"].insert(rng.randrange(len(u["ops"]) + 1), op)
            if prop == "C09" and u["kind"] != "win" and rng.random() < 0.15 and not u.get("via"):
                most = WIDEST[u["kind"]]
                u["timeout"] = most + rng.choice([1, 2, 1000, 7200, most // 2, most + 1, most + 2, most + 31])
    if prop in ("C01", "C02", "C12", "C15", "C13") and rng.random() < (0.5 if prop == "C12" else 0.25):
        s["reuse"] = int(rng.random() < 0.8)
        for u in s["users"]:
            for _ in range(pick(rng, [(0, 1), (1, 3), (2, 1)])):
                op = {"op": "reopen"}
                if prop != "C13" and rng.random() < 0.4:
                    op["drop"] = 1
                if rng.random() < 0.5:
                    op["us"] = rng.choice([1, 100, 5000, 50000])
                u["ops"].insert(rng.randrange(len(u["ops"]) + 1), op)
    return s


def base(rng, kind):
    return {"kind": kind, "gevent": rng.random() < 0.6}


KW_ALL = [("sg", 5), ("sgio", 1.5), ("solaris", 1.5), ("aix", 1), ("aixf", 0.7), ("win", 2)]


def finish(rng, s, kind):
    if kind == "sg" or True:
        for u in s["users"]:
            if rng.random() < 0.3:
                u["adapter"] = 1
    return s


def max_for(rng, kind):
    if rng.random() < 0.25:
        return None
    return rng.choice([1, 2, 2, 3, 4, 5, 8, 15])


def gen_C01(rng):
    kind = pick(rng, KW_ALL)
    s = base(rng, kind)
    lats = rng.choice(LAT_SETS)
    mix = MIX_GOOD if rng.random() < 0.3 else MIX_MOST
    w = [("send", rng.choice([2, 5])), ("call", rng.choice([1, 3])), ("wait", 0.5), ("idle", 1)]
    u = gen_user(rng, kind, mix, rng.randrange(2, 26), max_for(rng, kind), lats, w, nocb=rng.choice([0, 0.1, 0.3]))
    if rng.random() < 0.2:
        for op in u["ops"]:
            if op["op"] == "send" and rng.random() < 0.4:
                op["chain"] = gen_cmd(rng, kind, mix, lats)
                op.pop("nocb", None)
    if kind == "sg" and rng.random() < 0.2:
        for _ in range(rng.randrange(1, 3)):
            st = {"op": "stray", "id": rng.choice([100, 1000, 77777, -1, 2 ** 31 - 1])}
            if rng.random() < 0.4:
                st["status"] = rng.choice([2, 8])
            u["ops"].insert(rng.randrange(len(u["ops"]) + 1), st)
    s["users"] = [u]
    return finish(rng, s, kind)


def gen_C02(rng):
    kind = pick(rng, KW_ALL)
    s = base(rng, kind)
    lats = rng.choice(LAT_SETS)
    w = [("send", 5), ("call", 1.5), ("wait", 0.6), ("full", 2), ("idle", 1)]
    mq = rng.choice([None, 1, 1, 2, 2, 3, 4, 6, 15, 16, 20])
    n = rng.randrange(3, 40)
    mix = MIX_SLOT if rng.random() < 0.7 else MIX_GOOD
    u = gen_user(rng, kind, mix, n, mq, lats, w)
    if rng.random() < 0.25:
        for op in u["ops"]:
            if op["op"] == "send" and rng.random() < 0.5:
                op["chain"] = gen_cmd(rng, kind, mix, lats)
                op.pop("nocb", None)
    if kind == "sg" and rng.random() < 0.25:
        u["read_timeout"] = rng.choice([0.03, 0.1, 0.5])
        u["read_errors"] = [rng.choice([0, 0, 0, 5]) for _ in range(20)]
    if kind == "sg" and rng.random() < 0.3:
        u["timeout"] = rng.choice([50, 1000, 3000])
    s["users"] = [u]
    return finish(rng, s, kind)


def gen_C03(rng):
    kind = pick(rng, [("sg", 2), ("sgio", 2), ("solaris", 2), ("aix", 1.5), ("aixf", 1), ("win", 2)])
    s = base(rng, kind)
    lats = rng.choice(LAT_SETS[:3])
    w = [("send", 2), ("call", 5), ("wait", 0.5), ("idle", 0.3)]
    u = gen_user(rng, kind, MIX_FAIL, rng.randrange(1, 10), max_for(rng, kind), lats, w, cls=0.15)
    if kind == "sg":
        if rng.random() < 0.2:
            u["read_errors"] = [rng.choice([0, 0, 5, 19]) for _ in range(8)]
    if rng.random() < 0.3 and kind != "win":
        u["timeout"] = {"sg": 2000, "sgio": 2000}.get(kind, 2)
    s["users"] = [u]
    return finish(rng, s, kind)


def gen_C04(rng):
    kind = pick(rng, [("sg", 3), ("sgio", 2), ("solaris", 2), ("aix", 1.5), ("aixf", 1), ("win", 2)])
    s = base(rng, kind)
    lats = rng.choice(LAT_SETS[:3])
    w = [("send", 2), ("call", 5), ("wait", 0.5), ("idle", 0.3)]
    u = gen_user(rng, kind, MIX_SENSE, rng.randrange(1, 9), max_for(rng, kind), lats, w, hard=rng.random() < 0.5)
    s["users"] = [u]
    return finish(rng, s, kind)


def gen_C06(rng):
    kind = "sg"
    s = base(rng, kind)
    R = rng.choice([0.05, 0.2, 0.5, 1.0, 5.0, None])
    r_us = int((60 if R is None else R) * 1000000)
    lats = [0, 100, r_us // 2, max(0, r_us - 30000), r_us - 5000, r_us - 1, r_us + 12000, r_us + 60000, 2 * r_us]
    ops = []
    for _ in range(rng.randrange(1, 7)):
        k = pick(rng, [("call", 6), ("send", 2), ("wait", 2), ("idle", 1), ("jump", 3)])
        if k in ("call", "send"):
            op = {"op": k, "cmd": gen_cmd(rng, kind, MIX_GOOD, lats)}
            if rng.random() < 0.04:
                op["cmd"]["o"]["k"] = "lost"
        elif k == "idle":
            op = {"op": "idle", "us": rng.choice([10, r_us // 2, r_us * 2])}
        elif k == "jump":
            op = {"op": "jump", "us": rng.choice([-1, 1]) * rng.choice([5000, 300000, 3600000000, r_us])}
            if rng.random() < 0.7:
                op["after"] = rng.choice([0, 1000, 15000, r_us // 3, r_us - 20000])
        else:
            op = {"op": k}
        ops.append(op)
    u = {"kind": kind, "ops": ops, "timeout": 600000}
    if R is not None:
        u["read_timeout"] = R
    s["users"] = [u]
    if rng.random() < 0.5:
        s["stalls"] = [rng.choice([0, 0, 0, 8000, r_us // 2, r_us + 100000, 2 * r_us]) for _ in range(rng.randrange(1, 12))]
    return finish(rng, s, kind)


def gen_C09(rng):
    kind = pick(rng, KW_ALL)
    s = base(rng, kind)
    lats = rng.choice(LAT_SETS[:3])
    w = [("send", 4), ("call", 4), ("wait", 0.6), ("idle", 0.5)]
    u = gen_user(rng, kind, MIX_SLOT if rng.random() < 0.6 else MIX_GOOD, rng.randrange(1, 16), rng.choice([None, 1, 2, 3, 15]), lats, w,
                 cls=0.4)
    if rng.random() < 0.6 and kind != "win":
        u["timeout"] = rng.choice([1, 2, 7, 60, 255, 600, 3600]) * (1000 if kind in ("sg", "sgio") else 1)
    elif rng.random() < 0.5:
        u["via"] = 1
        u.pop("max", None)
    s["users"] = [u]
    if rng.random() < 0.25:
        # others at the same time, in threads of their own
        s["preempt"] = True
        for _ in range(rng.randrange(1, 3)):
            k = rng.choice(FAMILY[kind])
            s["users"].append(gen_user(rng, k, MIX_MOST, rng.randrange(1, 9), max_for(rng, k), lats, w, cls=0.4))
        s["sched"] = [rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([20, 100, 300]))]
    return finish(rng, s, kind)


def gen_C12(rng):
    kind = pick(rng, KW_ALL)
    s = base(rng, kind)
    s["preempt"] = rng.random() < 0.7
    if not s["preempt"]:
        s["gevent"] = True
    users = []
    for _ in range(rng.randrange(2, 5)):
        k = rng.choice(FAMILY[kind])
        lats = rng.choice(LAT_SETS[:4])
        w = [("send", rng.choice([1, 3])), ("call", 4), ("wait", 0.5), ("idle", 0.5)]
        users.append(gen_user(rng, k, MIX_MOST, rng.randrange(1, 9), max_for(rng, k), lats, w, cls=0.4))
    if rng.random() < 0.25:
        s["gevent"] = s["gevent"] or rng.random() < 0.7
        for u in users:
            if rng.random() < 0.7:
                add_interrupts(rng, u, rng.choice([0.2, 0.5]))
    s["users"] = users
    s["sched"] = [rng.randrange(4) if rng.random() < 0.5 else 0 for _ in range(rng.choice([0, 20, 100, 300]))]
    if s["preempt"] and rng.random() < 0.7:
        s["fine"] = fine_switches(rng)
    return finish(rng, s, kind)


def fine_switches(rng):
    """[statement number, which other thread]"""
    out, at = [], 0
    scale = rng.choice([3, 15, 60, 250])
    for _ in range(rng.choice([3, 10, 30, 100, 300])):
        at += 1 + int(rng.expovariate(1.0 / scale))
        out.append([at, rng.randrange(3)])
    return out


def gen_C13(rng):
    kind = pick(rng, [("sg", 6), ("win", 2), ("solaris", 0.7), ("sgio", 0.7), ("aix", 0.7)])
    s = base(rng, kind)
    s["mem"] = 1
    lats = rng.choice([[0, 50], [100, 3000, 20000], [5000, 50000]])
    w = [("send", 4), ("call", 2), ("wait", 0.4), ("idle", 1)]
    n = rng.randrange(2, 9)
    u = gen_user(rng, kind, rng.choice([MIX_GOOD, MIX_MOST, MIX_SLOT]), n, max_for(rng, kind), lats, w, nocb=0.3)
    if kind == "sg":
        if rng.random() < 0.3:
            u["read_timeout"] = rng.choice([0.03, 0.1])
        if rng.random() < 0.5:
            add_interrupts(rng, u, 0.3)
            s["gevent"] = True
    s["users"] = [u]
    if rng.random() < 0.2:
        # others at the same time, in threads of their own
        s["preempt"] = True
        for _ in range(rng.randrange(1, 3)):
            k = rng.choice(FAMILY[kind])
            s["users"].append(gen_user(rng, k, rng.choice([MIX_GOOD, MIX_MOST]), rng.randrange(2, 7), max_for(rng, k), lats, w))
        s["sched"] = [rng.randrange(3) if rng.random() < 0.5 else 0 for _ in range(rng.choice([20, 100, 300]))]
    return finish(rng, s, kind)


def add_interrupts(rng, u, p):
    for op in u["ops"]:
        if op["op"] in ("send", "call", "wait") and rng.random() < p:
            site = pick(rng, [("gevent", 4), ("sleep", 2), ("select", 2), ("write", 0.7), ("ioctl", 0.7)])
            op["int"] = {"site": site, "n": rng.choice([0, 0, 1, 1, 2, 3, 5]), "exc": rng.choice(["timeout", "kill", "kbd"])}


def gen_C15(rng):
    kind = pick(rng, [("sg", 8), ("sgio", 1), ("solaris", 1), ("aix", 0.7), ("win", 1)])
    s = base(rng, kind)
    s["gevent"] = rng.random() < 0.85
    lats = rng.choice(LAT_SETS[:4])
    w = [("send", 3), ("call", 4), ("wait", 1), ("idle", 1)]
    mix = MIX_GOOD if rng.random() < 0.5 else MIX_MOST
    u = gen_user(rng, kind, mix, rng.randrange(2, 12), rng.choice([None, 1, 2, 3, 5]), lats, w, nocb=0.2)
    add_interrupts(rng, u, rng.choice([0.2, 0.5]))
    s["users"] = [u]
    return finish(rng, s, kind)


def gen_C20(rng):
    kind = pick(rng, [("sg", 4), ("sgio", 2), ("solaris", 2), ("aix", 1.5), ("aixf", 1), ("win", 2)])
    s = {"kind": kind, "gevent": True, "fair": 1, "users": [], "bystanders": [0] * rng.randrange(1, 3)}
    if rng.random() < 0.5 and kind == "sg":
        s["patched"] = 1
        s["bystanders"] += [rng.choice([1000, 5000, 20000])]
    for _ in range(rng.randrange(1, 4)):
        k = rng.choice(FAMILY[kind]) if not s.get("patched") else "sg"
        w = [("send", rng.choice([1, 3])), ("call", 4), ("wait", 0.7), ("full", 0.2), ("idle", 0.4)]
        mix = rng.choice([MIX_GOOD, MIX_MOST, MIX_FAIL, MIX_SLOT])
        u = gen_user(rng, k, mix, rng.randrange(1, 9), max_for(rng, k), rng.choice(LAT_SETS), w, cls=0.3)
        if rng.random() < 0.2 and k == "sg":
            u["read_timeout"] = rng.choice([0.03, 0.1])
        s["users"].append(u)
    if rng.random() < 0.15:
        s["users"][0]["read_errors"] = [rng.choice([0, 0, 5]) for _ in range(10)]
    return finish(rng, s, kind)


def gen_C21(rng):
    kind = pick(rng, KW_ALL)
    s = base(rng, kind)
    s["repeat"] = 6
    k = rng.choice(("check", "status", "host", "errno", "api", "short", "driver", "hang"))
    mix = rng.choice([MIX_GOOD, MIX_FAIL, [("good", 1), (k, 3)]])
    w = [("send", 4), ("call", 3), ("wait", 0.6), ("full", 0.3), ("idle", 0.6)]
    u = gen_user(rng, kind, mix, rng.randrange(1, 7), rng.choice([None, 1, 1, 2, 2, 3, 5]), rng.choice(LAT_SETS), w, cls=0.3, nocb=rng.choice([0, 0.3]))
    r = rng.random()
    if r < 0.3:
        s["gevent"] = True
        add_interrupts(rng, u, 0.5)
    elif r < 0.5 and kind == "sg":
        u["read_timeout"] = rng.choice([0.02, 0.05])
    elif r < 0.6 and kind == "sg":
        u["read_errors"] = [rng.choice([0, 5]) for _ in range(6)]
    elif r < 0.8:
        for _ in range(rng.randrange(1, 3)):
            op = {"op": "bad", "how": rng.choice([b for b in BAD if b != "cdb-long"]), "call": int(rng.random() < 0.5)}
            u["ops"].insert(rng.randrange(len(u["ops"]) + 1), op)
    if rng.random() < 0.25:
        s["reuse"] = rng.randrange(2)
        op = {"op": "reopen"}
        if rng.random() < 0.4:
            op["drop"] = 1
        u["ops"].insert(rng.randrange(len(u["ops"]) + 1), op)
    s["users"] = [u]
    return finish(rng, s, kind)


def gen_C22(rng):
    s = rng.choice([gen_C01, gen_C04, gen_C12, gen_C12, gen_C13, gen_C15])(rng)
    s["keep"] = 1
    for u in s["users"]:
        for op in u["ops"]:
            for key in ("cmd", "chain"):
                if op.get(key) and rng.random() < 0.25:
                    op[key]["scribble"] = 1
    return s


# ------------------------------------------------------------------------------------------------
# execution

def pattern(token, n):
    x = (token * 2654435761) & 0xffffffff
    return bytes(1 + ((x >> ((i % 4) * 8)) + i * 37 + (i >> 8) * 11) % 255 for i in range(n))


def errors():
    import importlib
    return importlib.import_module("infi.asi.errors")


class Rec(object):
    """One command of one user and everything that happened to it."""
    def __init__(self, user, token, j):
        self.user, self.token, self.j = user, token, j
        o = j.get("o") or {}
        self.o = o
        self.k = o.get("k", "good")
        self.cls = j.get("cls")
        if self.cls:
            bs = j.get("bs", 512)
            self.count = j.get("n", 1)
            self.n = bs * self.count
            self.d = "in" if self.cls.startswith("Read") else "out"
            self.lba = token * 8
            ctl = (j.get("naca", 0) << 2) | (j.get("vendor", 0) << 6)
            w = self.d == "out"
            if self.cls in ("Read6", "Write6"):
                self.cdb = bytes([0x0a if w else 0x08]) + be(3, self.lba) + bytes([self.count, ctl])
            elif self.cls.endswith("10"):
                self.cdb = bytes([0x2a if w else 0x28, 0]) + be(4, self.lba) + b"\0" + be(2, self.count) + bytes([ctl])
            elif self.cls.endswith("12"):
                self.cdb = bytes([0xaa if w else 0xa8, 0]) + be(4, self.lba) + be(4, self.count) + bytes([0, ctl])
            else:
                self.cdb = bytes([0x8a if w else 0x88, 0]) + be(8, self.lba) + be(4, self.count) + bytes([0, ctl])
        else:
            l = j.get("l", 10)
            self.d, self.n = j.get("d", "in"), j.get("n", 0)
            if self.d == "none":
                self.n = 0
            self.cdb = bytes([RAW_OP[l]]) + be(4, token) + bytes((token * 31 + i * 7) & 0xff for i in range(l - 5))
        self.payload = pattern(token, self.n)
        self.got = self.payload
        if self.k == "short":
            self.got = self.payload[:int(o.get("cut", 0.5) * self.n)]
        self.subs = []
        self.events = []             # callback invocations
        self.state = "new"           # accepted, refused, failed, done
        self.abandoned = False       # nobody waits for it any more
        self.nocb = False
        self.unsure = False          # completed, but whether its slot is free already is the code's business
        self.obj = None
        self.chain = None            # the command its callback sends

    @property
    def direction(self):
        return self.d if self.n else "none"

    @property
    def sub(self):
        return self.subs[0] if self.subs else None

    def name(self):
        return "command %d (%s, %s%s)" % (self.token, self.cdb.hex(), self.k, ", %d bytes %s" % (self.n, self.d) if self.n else "")


def outcome_for(rec, kind):
    o = rec.o
    lat = o.get("lat", 100)
    k = rec.k
    v = o.get("variant", 0)
    if k == "good" or k == "short":
        return Outcome(data=rec.got if rec.d == "in" else b"", lat=lat)
    if k == "check":
        sense = bytes.fromhex(o.get("sense", ""))
        return Outcome(status=CHECK, sense=sense, driver=o.get("driver", 0), lat=lat, variant=v)
    if k == "status":
        return Outcome(status=o.get("status", BUSY), driver=o.get("driver", 0), host=o.get("host", 0), lat=lat, variant=v)
    if k in ("host", "driver"):
        if kind == "solaris":
            return Outcome(api_error=5, lat=lat)
        return Outcome(host=o.get("host", 0 if k == "driver" else 1), driver=o.get("driver", 4 if k == "driver" else 0), lat=lat, variant=v)
    if k == "errno":
        return Outcome(submit_errno=o.get("errno", 5))
    if k == "api":
        if kind in ("solaris", "aix", "aixf", "win"):
            return Outcome(api_error=o.get("errno", 5 if kind != "win" else 1117), lat=lat)
        return Outcome(host=1, lat=lat)
    if k == "hang":
        return Outcome(hang=True)
    if k == "lost":
        return Outcome(lost=True)
    raise ValueError(k)


class User(object):
    def __init__(self, run, index, j):
        self.run, self.index, self.j = run, index, j
        self.kind = j.get("kind", "sg")
        self.recs = []
        self.node = None
        self.op_index = -1
        self.max = j.get("max") or DEFAULT_MAX[self.kind]
        self.in_op = None
        self.former = []
        self.stray_reads = 0
        self.read_errs = 0


def watch(refs, obj):
    if obj is None or isinstance(obj, (bool, bytes, int, str)):
        return
    try:
        refs.append(weakref.ref(obj))
    except TypeError:
        pass


class Run(object):
    def __init__(self, scenario):
        self.s = scenario
        self.violations = []
        self.stats = {}
        self.by_cdb = {}
        self.token = 1
        self.watched = None
        self.kept = []

    def bad(self, kind, text):
        self.violations.append((kind, text))
        self.w.trace("VIOLATION", kind, text)

    # ---- device ----------------------------------------------------------------------------------
    def device_for(self, user):
        def device(sub):
            rec = self.by_cdb.get(bytes(sub.cdb))
            if rec is None:
                self.bad("garbled", "user %d: the device got a command nobody sent: %s (%d bytes %s)" %
                         (user.index, bytes(sub.cdb).hex(), sub.length, sub.direction))
                return Outcome(data=b"\xee" * sub.length)
            if rec.user is not user:
                self.bad("wrong-device", "%s of user %d reached the device of user %d" % (rec.name(), rec.user.index, user.index))
            o = outcome_for(rec, user.kind)
            if sub.direction != rec.direction:
                self.bad("wrong-direction", "%s went out as %s" % (rec.name(), sub.direction))
            if sub.length != rec.n and not (sub.direction == "none" and rec.n == 0):
                self.bad("wrong-length", "%s: the OS was asked for %d bytes" % (rec.name(), sub.length))
            if rec.d == "out" and sub.direction == "out" and sub.data_out != rec.payload:
                self.bad("wrong-data-out", "%s: the device got other bytes than were sent" % rec.name())
            want = user.time_limit
            if sub.timeout_us != want:
                self.bad("wrong-time-limit", "%s: time limit given to the OS is %d us, configured %s" % (rec.name(), sub.timeout_us, want))
            rec.subs.append(sub)
            if len(rec.subs) > 1:
                self.bad("submitted-twice", "%s was submitted %d times" % (rec.name(), len(rec.subs)))
            if o.submit_errno:
                rec.refused_by_os = True
            else:
                self.outstanding_check(user, sub, rec)
            return o
        return device

    def outstanding_check(self, user, sub, rec):
        w = self.w
        live = [s for s in w.submissions if not s.returned and not s.dropped]
        if user.kind == "sg":
            same = [s for s in live if s.node is sub.node]
            if any(s.pack_id == sub.pack_id for s in same):
                self.stat("packet-id-in-use")         # not wrong by itself; what follows from it is
            if len(same) + 1 > user.max:
                self.bad("over-limit", "user %d: %d commands outstanding in the OS, the limit is %d" % (user.index, len(same) + 1, user.max))
        if self.s.get("mem") or len(self.s["users"]) > 1:
            mine = self.ranges(sub)
            for s in live:
                for a, n, what in self.ranges(s):
                    for b, m, what2 in mine:
                        if a < b + m and b < a + n:
                            self.bad("shared-memory", "%s: its %s buffer overlaps the %s buffer of an outstanding command" %
                                     (rec.name(), what2, what))

    @staticmethod
    def ranges(sub):
        out = []
        if sub.data_addr and sub.length:
            out.append((sub.data_addr, sub.length, "data"))
        if sub.sense_addr and sub.sense_len:
            out.append((sub.sense_addr, sub.sense_len, "sense"))
        return out

    # ---- the code under test -----------------------------------------------------------------------
    def call(self, user, gen):
        from infi.asi.coroutines.sync_adapter import sync_wait
        return sync_wait(gen)

    def setup(self, user):
        k, j = user.kind, user.j
        path = "/dev/sim%d" % user.index
        node = NODE[k](self.device_for(user))
        user.node = node
        self.w.add_node(path, node)
        user.path = path
        self.open(user)
        user.read_timeout = int((j.get("read_timeout") or 60) * 1000000)
        self.prepare(user)

    def prepare(self, user):
        for op in user.j["ops"]:
            for key in ("cmd", "chain"):
                if op.get(key):
                    rec = Rec(user, self.token, op[key])
                    self.token += 1
                    user.op_recs.setdefault(id(op), {})[key] = rec
                    user.recs.append(rec)
                    self.by_cdb[rec.cdb] = rec
                    sense = bytes.fromhex(rec.o.get("sense", ""))
                    if self.watched is not None and len(sense) > 6 and sense[0] & 0x7e == 0x70:
                        # not the same information field every time
                        rec.o = dict(rec.o, sense=(sense[:3] + be(4, rec.token) + sense[7:]).hex())
                    if rec.cls and op[key].get("early"):
                        self.build(rec)

    def repeat(self, user):
        """The same history again and again: what is still in use at its end must not grow each time."""
        w = self.w
        self.watched = {"callbacks": [], "errors": [], "executers": [], "results": []}
        counts = []
        watch(self.watched["executers"], user.executer)
        for n in range(self.s["repeat"]):
            if n:
                user.recs, user.op_recs = [], {}
                self.by_cdb = {}
                self.prepare(user)
                if user.kind == "sg":
                    w.read_errors = list(user.j.get("read_errors", ()))
            for at, op in enumerate(user.j["ops"]):
                user.op_index = at
                self.do_op(user, op)
                if self.violations:
                    return
            w.read_errors = []
            for attempt in range(100):
                if self.do_wait(user, True) is None or self.violations:
                    break
                w.pump(w.events[0][0] if w.events else w.now + 1000)
            if self.violations:
                return
            self.was_interesting = interesting(self) or getattr(self, "was_interesting", False)
            for rec in user.recs:
                rec.events, rec.obj = [], None
            user.former = []
            if n % 2 == 0:
                continue
            w.memory.collect()
            if len(counts) == 2:
                w.memory.collect()
            now = {"buffers": w.memory.in_use()}
            for k, refs in self.watched.items():
                now[k] = sum(1 for r in refs if r() is not None)
            now["entries"] = fresh.measure([user.executer, user.adapter, user.cm, getattr(user, "file", None)])
            counts.append(now)
        w.trace("in use", json.dumps(counts))
        for k in counts[0]:
            grown = [b[k] - a[k] for a, b in zip(counts, counts[1:])]
            if grown and min(grown) > 0:
                self.bad("piles-up", "the same commands over and over; with nothing outstanding, after every second time, "
                         "%s still in use: %s" % (k, ", ".join(str(c[k]) for c in counts)))

    def open(self, user):
        import infi.asi as asi
        import infi.asi.executers as ex
        from infi.asi.coroutines.sync_adapter import sync_call
        k, j, path = user.kind, user.j, user.path
        if j.get("via"):
            cm = {"sg": ex.linux_sg, "sgio": ex.linux_dm, "solaris": ex.solaris, "aix": ex.aix, "aixf": ex.aix,
                  "win": ex.windows}[k](path)
            user.executer = cm.__enter__()
            user.cm = cm
            user.inexpressible = False
            user.max = DEFAULT_MAX[k]
            user.time_limit = {"sg": 3000000, "win": 10000000}.get(k, 30000000)
        else:
            user.cm = None
            user.file = asi.create_os_file(path)
            if k == "sg" and j.get("read_timeout"):
                from infi.asi.unix import UnixFile
                user.file = UnixFile(user.file.fd, j["read_timeout"])
            kw = {}
            if j.get("max"):
                kw["max_queue_size"] = j["max"]
            t = j.get("timeout")
            if k == "sgio":
                from infi.asi.linux import LinuxIoctlCommandExecuter as cls
            else:
                cls = asi.create_platform_command_executer
            if t and k != "win":
                kw["timeout"] = t
            user.inexpressible = bool(t and k != "win" and t > WIDEST[k])
            try:
                user.executer = cls(user.file, **kw)
            except Exception:
                if not user.inexpressible:
                    raise
                user.executer = None
                user.j = dict(j, ops=[])
            if k == "win":
                user.time_limit = 10000000
            elif k in ("sg", "sgio"):
                user.time_limit = (t or 30000) * 1000
            else:
                user.time_limit = (t or 30) * 1000000
        user.adapter = asi.CommandExecuterAdapter(user.executer, sync_call) if j.get("adapter") else None

    def build(self, rec):
        import infi.asi.cdb.read as rd
        import infi.asi.cdb.write as wr
        bs = rec.j.get("bs", 512)
        if rec.d == "in":
            rec.obj = getattr(rd, rec.cls + "Command")(rec.lba, rec.count, bs)
        else:
            rec.obj = getattr(wr, rec.cls + "Command")(rec.lba, rec.payload, bs)
        if rec.j.get("naca"):
            rec.obj.control.naca = 1
        if rec.j.get("vendor"):
            rec.obj.control.vendor_specific = rec.j["vendor"]

    def raw(self, rec):
        import infi.asi as asi
        if rec.d == "out":
            return asi.SCSIWriteCommand(rec.cdb, rec.payload)
        return asi.SCSIReadCommand(rec.cdb, rec.n)

    # ---- what must have happened -------------------------------------------------------------------
    def expected_ok(self, rec):
        o = rec.sub.outcome if rec.sub else None
        return o is not None and not o.failed

    def keep(self, rec, data, exc):
        """What was handed out earlier is as it was then."""
        if not self.s.get("keep"):
            return
        self.judge_kept("after " + rec.name())
        x = exc if exc is not None else data
        self.kept.append((rec, x, keep.freeze(x)))

    def scribble(self, rec):
        """A caller does what it likes with what it was given."""
        if self.s.get("keep") == 1 and rec.j.get("scribble") and not self.violations:
            for old in self.kept:
                if old[0] is rec and isinstance(old[1], (Exception, bytearray)):
                    self.kept.remove(old)
                    self.w.fault("scribbled")
                    keep.scribble(old[1])
                    self.judge_kept("after a caller changed another result")
                    break

    def judge_kept(self, when):
        for rec, old, frozen in self.kept:
            d = keep.changed(old, frozen)
            if d:
                self.bad("result-changed", "%s, the result of %s changed: %s" % (when, rec.name(), d))
                return

    def judge_result(self, rec, data, exc, where):
        self.keep(rec, data, exc)
        self.judge_outcome(rec, data, exc, where)
        self.scribble(rec)

    def judge_outcome(self, rec, data, exc, where):
        """A command's own outcome, as its caller sees it."""
        sub = rec.sub
        k = rec.user.kind
        if sub is None or sub.outcome is None:
            if exc is None:
                self.bad("false-success", "%s: %s reports success, nothing was submitted" % (where, rec.name()))
            return
        o = sub.outcome
        if not sub.returned and not o.submit_errno:
            if exc is None:
                self.bad("premature", "%s: %s reports success before the OS delivered its completion" % (where, rec.name()))
            return
        if exc is None:
            if o.failed:
                self.bad("false-success", "%s: %s reports success; the OS said status=0x%02x host=0x%x driver=0x%x errno=%s" %
                         (where, rec.name(), o.status, o.host, o.driver, o.submit_errno or o.api_error))
                return
            if rec.d == "in" and rec.n:
                got = rec.got
                if data is None and not got:
                    pass
                elif not isinstance(data, (bytes, bytearray)):
                    self.bad("wrong-data", "%s: %s gave %r" % (where, rec.name(), type(data).__name__))
                elif bytes(data[:len(got)]) != got or len(data) > rec.n:
                    self.bad("wrong-data", "%s: %s got %d bytes that are not those the device gave it (%s... instead of %s...)" %
                             (where, rec.name(), len(data), bytes(data[:12]).hex(), got[:12].hex()))
                elif any(data[len(got):]):
                    self.bad("tail-not-zero", "%s: %s: the device transferred %d bytes, the rest is not zero" % (where, rec.name(), len(got)))
            elif data is not None and len(data):
                self.bad("wrong-data", "%s: %s gave %r" % (where, rec.name(), data[:20]))
            return
        if not o.failed:
            self.bad("good-raised", "%s: %s succeeded on the device but %s: %s" % (where, rec.name(), type(exc).__name__, str(exc)[:160]))
            return
        self.judge_error(rec, o, exc, where)

    def judge_error(self, rec, o, exc, where):
        E = errors()
        k = rec.user.kind
        if o.submit_errno or o.api_error:
            self.judge_code(rec, o, exc, where)
            return
        if o.status == CHECK:
            if not isinstance(exc, E.AsiCheckConditionError):
                self.bad("sense-type", "%s: %s ended with CHECK CONDITION but raised %s: %s" %
                         (where, rec.name(), type(exc).__name__, str(exc)[:160]))
                return
            raw = exc.sense_buffer
            raw = bytes(raw) if isinstance(raw, (bytes, bytearray)) else b""
            want = o.sense[:rec.sub.sense_len or 255]
            if raw[:len(want)] != want or any(raw[len(want):]):
                owner = [r for r in rec.user.recs if r is not rec and r.o.get("sense") and
                         raw.startswith(bytes.fromhex(r.o["sense"])) and len(r.o["sense"]) > 8]
                if owner:
                    self.bad("wrong-error", "%s: %s got the sense bytes of %s" % (where, rec.name(), owner[0].name()))
                else:
                    self.bad("sense-lost", "%s: %s carries sense %s..., the device sent %s" %
                             (where, rec.name(), raw[:40].hex(), want[:40].hex()))
                return
            d = decode_sense(o.sense)
            if d is None:
                return
            obj = exc.sense_obj
            try:
                got = (obj.sense_key, obj.additional_sense_code.code, obj.additional_sense_code.qualifier)
            except AttributeError:
                got = None
            key = SENSE_KEYS[d[0]]
            if got is None and not wellformed(o.sense):
                return
            if got != (key, d[1], d[2]) and got != d:
                self.bad("sense-wrong", "%s: %s: the sense bytes state %s/%02x/%02x, the error says %r" % (where, rec.name(), key, d[1], d[2], got))
            elif wellformed(o.sense):
                self.judge_fields(rec, o.sense, obj, where)
            return
        if o.status:
            if o.host == 7:
                return
            if not isinstance(exc, E.AsiSCSIError) or isinstance(exc, E.AsiCheckConditionError):
                self.bad("sense-type", "%s: %s ended with status 0x%02x but raised %s: %s" %
                         (where, rec.name(), o.status, type(exc).__name__, str(exc)[:160]))
                return
            if o.status == CONFLICT and k in ("sg", "sgio"):
                if not isinstance(exc, E.AsiReservationConflictError):
                    self.bad("conflict-type", "%s: %s ended with RESERVATION CONFLICT but raised %s: %s" %
                             (where, rec.name(), type(exc).__name__, str(exc)[:160]))
                return
            if isinstance(exc, E.AsiReservationConflictError):
                if o.status != CONFLICT:
                    self.bad("status-unnamed", "%s: %s ended with status 0x%02x but raised a reservation conflict" % (where, rec.name(), o.status))
                return
            text = str(exc)
            if ("0x%02x" % o.status) not in text.lower() and (": %d" % o.status) not in text:
                self.bad("status-unnamed", "%s: %s ended with status 0x%02x; the error says %r" % (where, rec.name(), o.status, text[:200]))
            else:
                self.judge_names(rec, o, text, where)
            return
        if k in ("sg", "sgio") and o.driver & 0xf == 8 and isinstance(exc, E.AsiCheckConditionError):
            return                                     # the driver says that there is sense data
        if isinstance(exc, (E.AsiCheckConditionError, E.AsiReservationConflictError)):
            self.bad("status-unnamed", "%s: %s failed in the host adapter but raised %s" % (where, rec.name(), type(exc).__name__))
            return
        if k in ("sg", "sgio", "aix", "aixf") and (o.host or o.driver):
            code = (o.driver & 0xf or o.host) if k in ("sg", "sgio") else o.host or o.driver
            text = str(exc)
            if ("0x%02x" % code) not in text.lower() and (": %d" % code) not in text:
                self.bad("status-unnamed", "%s: %s ended with host 0x%x driver 0x%x; the error says %r" %
                         (where, rec.name(), o.host, o.driver, text[:200]))
            else:
                self.judge_names(rec, o, text, where)

    def judge_code(self, rec, o, exc, where):
        """The error for a failed system call says which error it was (AIX executers say why there is no status instead)."""
        k = rec.user.kind
        code = o.submit_errno or o.api_error
        if k == "win" and o.submit_errno:
            code = win_code(code)
        if k.startswith("aix") or isinstance(exc, MemoryError):
            return
        said = [x for x in (getattr(exc, "errno", None), getattr(exc, "win32_errno", None)) if x is not None]
        if code in said or not said and re.search(r"\b%d\b" % code, str(exc)):
            return
        self.bad("code-lost", "%s: %s failed with the operating system's error %d; the error is %s: %s" %
                 (where, rec.name(), code, type(exc).__name__, str(exc)[:160]))

    def judge_fields(self, rec, sense, obj, where):
        """What else the sense data states, where the object has an attribute for it."""
        def check(name, got, want):
            if got != want:
                self.bad("sense-wrong", "%s: %s: the sense bytes %s state %s %r, the error says %r" %
                         (where, rec.name(), sense[:24].hex(), name, want, got))
        asc = obj.additional_sense_code
        name = asc_name(asc.code, asc.qualifier)
        if name is not None and hasattr(asc, "code_name"):
            text = str(asc.code_name)
            if name.lower() not in text.lower():
                check("additional sense", text, name)
        if sense[0] & 0x7f in (0x70, 0x71):
            want = {"ili": sense[2] >> 5 & 1, "eom": sense[2] >> 6 & 1, "filemark": sense[2] >> 7, "information": un(sense[3:7]),
                    "command_specific_information": un(sense[8:12])}
            if len(sense) >= 18:
                want.update(field_replaceable_unit_code=sense[14], sksv=sense[15] >> 7)
            for n, v in want.items():
                check(n, getattr(obj, n, v), v)
        elif hasattr(obj, "descriptors"):
            at, want = 8, []
            while at < len(sense):
                want.append((sense[at], bytes(sense[at + 2:at + 2 + sense[at + 1]])))
                at += 2 + sense[at + 1]
            check("number of descriptors", len(obj.descriptors), len(want))
            for d, (kind, body) in zip(obj.descriptors, want):
                check("descriptor type", getattr(d, "descriptor_type", kind), kind)
                info = getattr(d, "information", None)
                data = getattr(d, "data", None)
                if kind == 0 and isinstance(info, (bytes, bytearray)):
                    check("information", bytes(info), body[2:])
                elif isinstance(data, (bytes, bytearray)):
                    check("descriptor", bytes(data), body)

    def judge_names(self, rec, o, text, where):
        """An error must not name a status that nobody reported."""
        low = o.driver & 0xf
        reason = re.search(r"reason\W+0x([0-9a-fA-F]+)", text)
        if rec.user.kind == "solaris" and reason and int(reason.group(1), 16) != o.host:
            self.bad("status-unnamed", "%s: %s ended with status 0x%02x and reason 0x%02x; the error says %r" % (where, rec.name(), o.status, o.host, text[:200]))
            return
        for prefix, names, value in (("SCSI_STATUS_", SCSI_STATUS_NAMES, o.status), ("SG_ERR_DID_", HOST_NAMES, o.host),
                                     ("SG_ERR_DRIVER_", DRIVER_NAMES, low), ("SCSI_", ADAPTER_NAMES, o.host or o.driver)):
            for name in re.findall(prefix + "([A-Z_]+[A-Z])", text):
                if names.get(name, value) != value:
                    self.bad("status-unnamed", "%s: %s ended with status 0x%02x host 0x%x driver 0x%x; the error says %r" %
                             (where, rec.name(), o.status, o.host, o.driver, text[:200]))
                    return

    # ---- slots ---------------------------------------------------------------------------------------
    def slots(self, user):
        """(certainly held, possibly held as well)"""
        known = unsure = 0
        for r in user.recs:
            if r.state != "accepted":
                continue
            if r.unsure:
                unsure += 1
            elif r.nocb or r.abandoned:
                if r.sub is not None and r.sub.returned:
                    if user.kind == "sg":
                        r.state = "done"
                    else:
                        r.unsure = True
                        unsure += 1
                else:
                    known += 1
            else:
                known += 1
        return known, unsure

    def callback(self, rec):
        def cb(data, exc):
            rec.events.append((data, exc))
            if self.watched is not None:
                watch(self.watched["errors"], exc)
                watch(self.watched["results"], data)
            self.w.trace("callback", rec.token)
            if len(rec.events) > 1:
                self.bad("completed-twice", "the callback of %s ran %d times" % (rec.name(), len(rec.events)))
                return
            if rec.state == "dropped":
                self.bad("completed-twice", "the callback of %s ran after its executer was given up" % rec.name())
            if rec.state in ("accepted", "new"):
                rec.state = "done"
            self.judge_result(rec, data, exc, "callback")
            if rec.chain is not None:
                nxt = rec.chain
                if not nxt.subs and nxt.state == "new":
                    self.do_send(rec.user, nxt, None)
        if self.watched is not None:
            watch(self.watched["callbacks"], cb)
        return cb

    def do_send(self, user, rec, op):
        E = errors()
        known, unsure = self.slots(user)
        rec.nocb = bool(op and op.get("nocb"))
        ex = user.adapter or user.executer
        exc = None
        fired0 = self.fired()
        try:
            cb = None if rec.nocb else self.callback(rec)
            if user.adapter:
                ex.send(self.raw(rec), cb)
            else:
                self.call(user, ex.send(self.raw(rec), cb))
        except SimAbort:
            raise
        except BaseException as e:
            exc = e
        self.after_submission(user, rec, exc, known, unsure, fired0, "send")
        return exc

    def after_submission(self, user, rec, exc, known, unsure, fired0, what):
        """Judges acceptance; returns True if the command was accepted."""
        E = errors()
        interrupted = self.fired() > fired0
        if interrupted:
            self.note_undelivered(user)
        submitted = bool(rec.subs) and not getattr(rec, "refused_by_os", False)
        full = isinstance(exc, E.AsiRequestQueueFullError) and not rec.subs
        if interrupted:
            self.judge_interrupt(user, exc, what)
        if full:
            rec.state = "refused"
            if known + unsure < user.max:
                self.bad("refused-below-limit", "%s: queue-full with %d of %d commands outstanding" % (what, known, user.max))
            self.stat("refused-full")
            return False
        if isinstance(exc, E.AsiRequestQueueFullError) and what == "send":
            self.bad("refused-submitted", "send raised queue-full but %s was submitted" % rec.name())
        if known >= user.max and (submitted or exc is None):
            self.bad("over-limit", "%s: %s accepted with %d commands outstanding, the limit is %d" % (what, rec.name(), known, user.max))
        if submitted:
            if what == "send":
                if exc is not None and not interrupted:
                    o = rec.sub.outcome
                    if o.api_error:
                        self.judge_code(rec, o, exc, what)
                    if o.api_error or o.hang or o.variant == 1 or (o.failed and rec.sub.returned and user.kind != "sg"):
                        rec.state = "failed"
                        if rec.events:
                            self.bad("completed-twice", "%s: send raised and the callback ran as well" % rec.name())
                        return False
                    self.bad("good-raised", "send of %s raised %s: %s although the OS accepted it" % (rec.name(), type(exc).__name__, str(exc)[:160]))
                if rec.state == "new":
                    rec.state = "accepted"
                if interrupted:
                    rec.abandoned = True
                    if rec.sub.returned:
                        rec.unsure = True
            return True
        # nothing is with the OS
        rec.state = "failed"
        if exc is not None and getattr(rec, "refused_by_os", False) and not interrupted:
            self.judge_code(rec, rec.sub.outcome, exc, what)
        if exc is None:
            if getattr(rec, "refused_by_os", False):
                self.bad("false-success", "%s of %s did not raise although the OS refused it" % (what, rec.name()))
            else:
                self.bad("not-submitted", "%s of %s returned, nothing was submitted" % (what, rec.name()))
        elif user.inexpressible:
            self.stat("refused-time-limit")
        elif known >= user.max and not getattr(rec, "refused_by_os", False) and not interrupted and not isinstance(exc, MemoryError):
            self.bad("refused-wrong", "%s of %s with %d commands outstanding, the limit, raised %s: %s" %
                     (what, rec.name(), known, type(exc).__name__, str(exc)[:160]))
        elif not getattr(rec, "refused_by_os", False) and not interrupted and not self.kernel_refused(user, rec):
            self.bad("not-submitted", "%s of %s raised %s: %s before anything was submitted" % (what, rec.name(), type(exc).__name__, str(exc)[:160]))
        return False

    def kernel_refused(self, user, rec):
        p = self.w.probes.get("kernel-queue-full", 0)
        was = getattr(self, "kfull", 0)
        self.kfull = p
        return p > was

    def fired(self):
        return self.w.fired_in.get(self.w.current, 0)

    def note_undelivered(self, user):
        """An interruption may have hit between reading a response and handling it."""
        for r in user.recs:
            if r.state == "accepted" and r.sub is not None and r.sub.returned and not r.events:
                r.unsure = True

    def judge_interrupt(self, user, exc, what):
        self.stat("interrupts")
        want = INTERRUPTS[user.int_exc]
        if exc is None:
            self.bad("interrupt-swallowed", "%s was interrupted by %s but returned" % (what, want.__name__))
        elif not isinstance(exc, want):
            self.bad("interrupt-wrong", "%s was interrupted by %s but raised %s: %s" % (what, want.__name__, type(exc).__name__, str(exc)[:120]))

    def do_call(self, user, rec, op):
        E = errors()
        w = self.w
        known, unsure = self.slots(user)
        ex = user.adapter or user.executer
        exc, data = None, None
        fired0, strays0, errs0 = self.fired(), user.node.stray_reads, user.node.read_errors_raised
        t0 = w.now
        stall0 = w.stalled
        try:
            if rec.cls:
                if rec.obj is None:
                    self.build(rec)
                data = self.call(user, rec.obj.execute(ex))
            elif user.adapter:
                data = ex.call(self.raw(rec))
            else:
                data = self.call(user, ex.call(self.raw(rec)))
        except SimAbort:
            raise
        except BaseException as e:
            exc = e
        accepted = self.after_submission(user, rec, exc, known, unsure, fired0, "call")
        if not accepted:
            if exc is not None and getattr(rec, "refused_by_os", False):
                pass
            return
        interrupted = self.fired() > fired0
        sub = rec.sub
        strays = user.node.stray_reads > strays0
        read_err = user.node.read_errors_raised > errs0
        internal = isinstance(exc, E.AsiInternalError)
        rec.state = "accepted"
        if interrupted:
            rec.abandoned = True
            if sub.returned:
                rec.unsure = True
            return
        if strays:
            self.stat("strays")
            if not internal:
                self.bad("stray-unreported", "call of %s read a completion of no command and %s" %
                         (rec.name(), "returned" if exc is None else "raised " + type(exc).__name__))
            else:
                rec.abandoned = True
                if sub.returned:
                    rec.unsure = True
            return
        if internal:
            self.bad("internal-error", "call of %s raised %s" % (rec.name(), str(exc)[:160]))
            rec.abandoned = True
            rec.unsure = True
            return
        if sub.returned:
            rec.state = "done"
            self.judge_result(rec, data, exc, "call")
            if user.kind == "sg" and len(self.s["users"]) == 1:
                self.judge_time(user, t0, stall0, True, exc, [rec])
            return
        # the completion was not delivered
        rec.abandoned = True
        if exc is None:
            self.judge_result(rec, data, exc, "call")
            return
        if read_err:
            return
        if user.kind == "sg":
            self.judge_timeout(user, t0, stall0, exc, "call of " + rec.name())
        else:
            self.bad("good-raised", "call of %s raised %s: %s before its completion" % (rec.name(), type(exc).__name__, str(exc)[:160]))

    # ---- time ------------------------------------------------------------------------------------------
    SLACK = 60000

    def last_read(self, user, t0):
        """When the wait for the completion that matters began: the last response read, or the operation's start."""
        times = [s.returned_time for s in self.w.submissions if s.node is user.node and s.returned_time is not None and s.returned_time >= t0]
        return max(times) if times else t0

    def judge_timeout(self, user, t0, stall0, exc, what):
        w = self.w
        self.stat("timeouts")
        start = self.last_read(user, t0)
        elapsed = w.now - start
        stalled = w.stalled - stall0
        if not isinstance(exc, (IOError, OSError)) and "imeout" not in type(exc).__name__:
            self.bad("timeout-type", "%s: waiting ended with %s: %s" % (what, type(exc).__name__, str(exc)[:120]))
            return
        avail = [s.done_time for s in w.submissions if s.node is user.node and s.done and not s.returned]
        if avail and min(avail) <= start + user.read_timeout:
            self.bad("available-not-returned", "%s: timed out %d us after the wait began, with a completion available since %d us (read timeout %d us, stalled %d us)"
                     % (what, elapsed, min(avail) - start, user.read_timeout, stalled))
        elif elapsed < user.read_timeout:
            self.bad("timeout-early", "%s: timed out after %d us, the read timeout is %d us" % (what, elapsed, user.read_timeout))
        elif elapsed > user.read_timeout + self.SLACK + stalled:
            self.bad("timeout-late", "%s: timed out after %d us, the read timeout is %d us (stalled %d us)" % (what, elapsed, user.read_timeout, stalled))

    def judge_time(self, user, t0, stall0, ok, exc, recs):
        """A completion was returned: it must not have come much later than it was available."""
        w = self.w
        sub = recs[0].sub
        stalled = w.stalled - stall0
        late = w.now - max(sub.done_time, t0)
        if late > self.SLACK + stalled + 20000 * len(user.recs):
            self.bad("timeout-late", "call of %s returned %d us after its completion became available (stalled %d us)" % (recs[0].name(), late, stalled))
        prev = [s.returned_time for s in w.submissions if s.node is user.node and s.returned_time is not None and t0 <= s.returned_time < sub.returned_time]
        start = max(prev) if prev else t0
        wait = sub.returned_time - start
        if wait > user.read_timeout + self.SLACK + stalled:
            self.bad("timeout-late", "call of %s waited %d us for a completion, the read timeout is %d us (stalled %d us)" % (recs[0].name(), wait, user.read_timeout, stalled))

    def do_wait(self, user, final=False):
        E = errors()
        w = self.w
        exc = None
        fired0, strays0, errs0 = self.fired(), user.node.stray_reads, user.node.read_errors_raised
        t0, stall0 = w.now, w.stalled
        try:
            if user.adapter:
                user.adapter.wait()
            else:
                self.call(user, user.executer.wait())
        except SimAbort:
            raise
        except BaseException as e:
            exc = e
        interrupted = self.fired() > fired0
        if interrupted:
            self.judge_interrupt(user, exc, "wait")
            self.note_undelivered(user)
            return exc
        strays = user.node.stray_reads > strays0
        if exc is None:
            if strays:
                self.bad("stray-unreported", "wait read a completion of no command and returned")
            for r in user.recs:
                if r.state == "accepted":
                    if not r.sub.returned:
                        self.bad("wait-early", "wait returned while %s was outstanding" % r.name())
                    elif not r.nocb and not r.abandoned and not r.events:
                        self.bad("never-completed", "wait returned but the callback of %s never ran" % r.name())
                    r.state = "done"
                    r.unsure = False
            return None
        if strays:
            self.stat("strays")
            if not isinstance(exc, E.AsiInternalError):
                self.bad("stray-unreported", "wait read a completion of no command and raised %s" % type(exc).__name__)
            return exc
        if user.node.read_errors_raised > errs0:
            return exc
        if isinstance(exc, E.AsiInternalError):
            self.bad("internal-error", "wait raised %s" % str(exc)[:160])
            return exc
        waiting = [r for r in user.recs if r.state == "accepted" and r.sub is not None and not r.sub.returned]
        if user.kind == "sg" and waiting and isinstance(exc, (IOError, OSError)):
            self.judge_timeout(user, t0, stall0, exc, "wait")
            return exc
        nocb = [r for r in user.recs if r.nocb]
        if nocb and isinstance(exc, TypeError):
            self.bad("no-callback", "wait raised %s: %s; a command was sent without a callback" % (type(exc).__name__, str(exc)[:100]))
            return exc
        self.bad("wait-raised", "wait raised %s: %s with %d commands outstanding in the OS" % (type(exc).__name__, str(exc)[:160], len(waiting)))
        return exc

    def do_full(self, user):
        known, unsure = self.slots(user)
        try:
            got = (user.adapter or user.executer).is_queue_full()
        except SimAbort:
            raise
        except BaseException as e:
            self.bad("full-raised", "is_queue_full() raised %s: %s" % (type(e).__name__, str(e)[:120]))
            return
        if known >= user.max and not got:
            self.bad("full-lies", "is_queue_full() is %r with %d of %d commands outstanding" % (got, known, user.max))
        if known + unsure < user.max and got:
            self.bad("full-lies", "is_queue_full() is %r with %d of %d commands outstanding" % (got, known, user.max))

    # ---- the run -----------------------------------------------------------------------------------------
    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def do_op(self, user, op):
        w = self.w
        k = op["op"]
        w.trace("op", user.index, k)
        if w.fifo and k == "idle":
            w.gevent_sleep(op.get("us", 0) / 1e6)
            return
        recs = user.op_recs.get(id(op), {})
        i = op.get("int")
        if i and not w.gevent and i["site"] == "gevent":
            i = None
        if i and k in ("send", "call", "wait"):
            w.interrupt_of[w.current] = dict(i)
            user.int_exc = i["exc"]
        try:
            if k == "send":
                rec = recs["cmd"]
                rec.chain = recs.get("chain")
                self.do_send(user, rec, op)
            elif k == "call":
                rec = recs["cmd"]
                rec.chain = None
                self.do_call(user, rec, op)
            elif k == "wait":
                self.do_wait(user)
            elif k == "full":
                self.do_full(user)
            elif k == "idle":
                w.step()
                w.block(op.get("us", 0))
            elif k == "jump":
                us = op["us"]
                if op.get("after"):
                    w.at(op["after"], lambda: w.jump(us))
                else:
                    w.jump(us)
            elif k == "stray":
                user.node.stray(op)
            elif k == "reopen":
                self.do_reopen(user, op)
            elif k == "bad":
                self.do_bad(user, op)
        finally:
            w.interrupt_of.pop(w.current, None)
        w.check_turn("the return to its caller")

    def do_bad(self, user, op):
        """A request no kernel can be given: it must raise, reach nobody and hold no slot."""
        import infi.asi as asi
        how = op["how"]
        cdb, n, data = bytes([RAW_OP[10]]) + bytes(9), 8, b"12345678"
        if how == "cdb-text":
            cdb = u"\xe1" + u"\0" * 9
        elif how == "cdb-none":
            cdb = None
        elif how == "cdb-long":
            cdb = (b"\x7f" + bytes((7 + 3 * i) & 0xff for i in range(op["n"])))[:op["n"]]
        elif how in ("length-text", "length-none"):
            n = None if how == "length-none" else "8"
        elif how in ("data-text", "data-none"):
            data = None if how == "data-none" else u"12345678"
        cmd = asi.SCSIWriteCommand(cdb, data) if how.startswith("data") else asi.SCSIReadCommand(cdb, n)
        if how == "command-none":
            cmd = None
        elif how == "command-bytes":
            cmd = cdb
        ex = user.adapter or user.executer
        before = len(self.w.submissions)
        ran = []
        self.w.fault("bad-request")
        mine = [r for r in user.recs if r.state == "accepted"]
        try:
            if op.get("call"):
                got = ex.call(cmd) if user.adapter else self.call(user, ex.call(cmd))
            else:
                cb = lambda data, exc: ran.append((data, exc))
                got = ex.send(cmd, cb) if user.adapter else self.call(user, ex.send(cmd, cb))
        except SimAbort:
            raise
        except BaseException as e:
            self.w.trace("bad", how, type(e).__name__)
        else:
            self.bad("bad-accepted", "a request that cannot be sent (%s%s) was accepted: %r" % (how, ", %d bytes" % op["n"] if "n" in op else "", got))
        if ran:
            self.bad("bad-accepted", "the callback of a request that was refused (%s) ran" % how)

    def do_reopen(self, user, op):
        """The user closes its handle and opens the device again: a new file, a new executer.  What was outstanding
        is either waited for before or given up."""
        w = self.w
        if not op.get("drop") and not any(r.k == "lost" and r.subs for r in user.recs):
            for attempt in range(100):
                exc = self.do_wait(user, True)
                if self.violations:
                    return
                if exc is None:
                    break
                self.idle(w.events[0][0] if w.events else w.now + 1000)
        for r in user.recs:
            if r.state == "accepted":
                r.state = "dropped"
        for sub in w.submissions:
            if sub.node is user.node and not sub.returned:
                sub.dropped = True
        user.former.append((user.executer, user.adapter, user.cm, getattr(user, "file", None)))
        if user.cm is not None:
            user.cm.__exit__(None, None, None)
        else:
            user.file.close()
        w.step()
        if op.get("us"):
            w.block(op["us"])
        w.fault("reopened")
        self.open(user)
        if self.watched is not None:
            watch(self.watched["executers"], user.executer)

    def idle(self, until):
        w = self.w
        if w.fifo:
            w.gevent_sleep(max(0, until - w.now) / 1e6)
        else:
            w.pump(until)

    def drain(self, user):
        """Faults have stopped: everything outstanding must complete and every slot must come back."""
        w = self.w
        self.was_interesting = interesting(self) or getattr(self, "was_interesting", False)
        if len(self.s["users"]) == 1:
            w.stalls = []
            w.read_errors = []
        if user.executer is None:
            return
        lost = [r for r in user.recs if r.k == "lost" and r.subs and r.state != "dropped"]
        if lost:
            return
        for attempt in range(200):
            self.idle(w.now + 1000)
            exc = self.do_wait(user, True)
            if exc is None or self.violations:
                break
            if w.events:
                self.idle(w.events[0][0])
        else:
            self.bad("wait-never-empties", "wait() keeps failing with nothing outstanding: %s: %s" % (type(exc).__name__, str(exc)[:120]))
        for r in user.recs:
            if r.state == "accepted":
                self.bad("never-completed", "%s was accepted and never completed" % r.name())
        if self.violations:
            return
        if self.s.get("mem"):
            return                      # collecting garbage at each completion is slow
        # every slot again
        extra = []
        limit = user.max if user.kind != "sg" else min(user.max, 16)
        for n in range(limit + 1):
            rec = Rec(user, self.token, {"l": 10, "d": "in", "n": 8, "o": {"lat": 10 + 7 * ((n * 5) % 11)}})
            rec.chain = None
            self.token += 1
            self.by_cdb[rec.cdb] = rec
            user.recs.append(rec)
            extra.append(rec)
            if n == limit and limit < user.max:
                continue
            before = len(self.violations)
            self.do_send(user, rec, None)
            if n < limit and rec.state == "refused":
                self.bad("slot-leak", "with nothing outstanding only %d of %d slots can be used" % (n, user.max))
            if len(self.violations) > before:
                return
        for attempt in range(10):
            # a completion of no command may still be waiting to be reported
            if self.do_wait(user, True) is None or self.violations:
                break
        for rec in extra[:limit]:
            if len(rec.events) != 1 and rec.state != "failed":      # failed: the kernel's own limit
                self.bad("never-completed", "%s: its callback ran %d times" % (rec.name(), len(rec.events)))
        self.stat("drained")

    def user_main(self, user):
        try:
            if self.s.get("repeat"):
                return self.repeat(user)
            for n, op in enumerate(user.j["ops"]):
                user.op_index = n
                self.do_op(user, op)
                if self.violations:
                    return
            self.drain(user)
        except SimAbort as e:
            self.bad("hang", "user %d, operation %d: no progress (%s)" % (user.index, user.op_index, self.w.dead))

    def execute(self):
        s = self.s
        kind = s.get("kind", "sg")
        w = self.w = World(platform=PLATFORM[kind], gevent=s.get("gevent", True), sched=s.get("sched", ()),
                           preempt=s.get("preempt", False), max_steps=400000)
        w.aix_libc = kind != "aixf"
        w.check_memory = bool(s.get("mem"))
        w.reuse = bool(s.get("reuse"))
        w.stalls = list(s.get("stalls", ()))
        w.fine = [list(x) for x in s.get("fine", ())] if w.preempt else []
        w.fifo, w.patched = bool(s.get("fair")), bool(s.get("patched"))
        seams.activate(w)
        try:
            users = [User(self, i, j) for i, j in enumerate(s["users"])]
            for u in users:
                u.op_recs = {}
                self.setup(u)
                if u.kind == "sg":
                    w.read_errors = list(u.j.get("read_errors", ()))
            if len(users) == 1 and not s.get("fair"):
                self.user_main(users[0])
            else:
                for u in users:
                    w.spawn("user%d" % u.index, lambda u=u: self.user_main(u))
                for us in s.get("bystanders", ()):
                    w.bystander(us)
                try:
                    w.run_tasks()
                except SimAbort:
                    self.bad("hang", "no progress (%s)" % w.dead)
                for t in w.tasks:
                    if t.error is not None:
                        raise t.error
            self.kernel_findings()
            self.judge_turns()
            self.judge_kept("at the end")
        finally:
            seams.activate(None)
        return self

    # how late a sleeping greenlet may wake: a poll, and what one command does in between
    HELD_UP = 15000

    def judge_turns(self):
        for kind, what in self.w.starved:
            self.violations.append(("starved", "no other greenlet had a turn between a %s on a device and %s" % (kind, what)))
            break
        if self.s.get("patched"):
            for t in self.w.bystanders:
                if t.every and t.held_up > self.HELD_UP:
                    self.violations.append(("held-up", "a greenlet that wanted to run was held up for %d us" % t.held_up))
                    break

    def kernel_findings(self):
        M = {"freed-buffer": "freed-memory", "beyond-buffer": "beyond-memory", "null-pointer": "bad-request",
             "bad-header": "bad-request", "bad-ioctl": "bad-request"}
        for kind, detail in self.w.problems:
            k = M.get(kind)
            if k:
                self.violations.append((k, "%s %s" % (kind, detail)))


def wellformed(sense):
    if len(sense) < 8:
        return False
    code = sense[0] & 0x7f
    if code in (0x70, 0x71):
        return len(sense) >= 14 and len(sense) >= sense[7] + 8
    if code in (0x72, 0x73):
        if any(sense[4:7]) or len(sense) != sense[7] + 8:
            return False
        at = 8
        need = {0: 10, 1: 10, 2: 6, 3: 2}
        while at < len(sense):
            if at + 2 > len(sense) or at + 2 + sense[at + 1] > len(sense):
                return False
            if need.get(sense[at], sense[at + 1]) != sense[at + 1]:
                return False
            at += 2 + sense[at + 1]
        return True
    return False


def run(scenario):
    r = Run(scenario).execute()
    if scenario.get("keep") == 1 and r.w.faults.get("scribbled") and r.violations and r.violations[0][0] != "result-changed":
        fresh.restore()
        if not Run(dict(scenario, keep=2)).execute().violations:
            r.violations.insert(0, ("tainted", "only because a caller changed its own result: %s: %s" % r.violations[0]))
    if len(scenario["users"]) > 1 and r.violations and not scenario.get("fair"):
        alone = set()
        for u in scenario["users"]:
            fresh.restore()
            alone.update(k for k, _ in Run(dict(scenario, users=[u])).execute().violations)
        r.violations.extend([("interference", "%s: %s" % v) for v in r.violations if v[0] not in alone])
    return r


def interesting(r):
    w = r.w
    return bool(w.faults or w.probes.get("out-of-order-completion") or w.probes.get("several-completions-waiting") or
                r.stats.get("refused-full") or r.stats.get("interrupts") or w.probes.get("context-switch") or
                len([u for u in r.by_cdb.values() if u.subs]) > 2)


def nontrivial(r):
    """Before the closing drain and slot check."""
    return getattr(r, "was_interesting", False)


def count(r):
    """Fault kinds of this run that the kernels do not count themselves."""
    out = {}
    for u in r.s["users"]:
        for op in u["ops"]:
            k = ((op.get("cmd") or {}).get("o") or {}).get("k")
            if k and k != "good":
                out["device-" + k] = out.get("device-" + k, 0) + 1
            if op["op"] == "stray":
                out["stray-completion"] = out.get("stray-completion", 0) + 1
    return out
