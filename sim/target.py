"""A SCSI target, written from the standards (SPC-4, SBC-3, SES-3) and not from
the code under test.

Every part keeps its state and applies *meanings* (small dicts), so that the
engine can keep a second copy that applies what the user asked for, while the
target itself applies what it decoded from the CDB and the data it received."""

from .scsi import be, un


class Check(Exception):
    """The device ends the command with CHECK CONDITION."""
    def __init__(self, key, asc, ascq=0, info=0):
        Exception.__init__(self, "%x/%02x/%02x" % (key, asc, ascq))
        self.key, self.asc, self.ascq, self.info = key, asc, ascq, info

    def same(self, other):
        return isinstance(other, Check) and (self.key, self.asc, self.ascq, self.info) == (other.key, other.asc, other.ascq, other.info)


class Conflict(Exception):
    """RESERVATION CONFLICT."""
    def same(self, other):
        return isinstance(other, Conflict)


BAD_OPCODE = (5, 0x20, 0)
OUT_OF_RANGE = (5, 0x21, 0)
BAD_CDB = (5, 0x24, 0)
BAD_LIST = (5, 0x26, 0)
LIST_LENGTH = (5, 0x1a, 0)


# ------------------------------------------------------------------------------------------------
# blocks (SBC-3)

def pattern(token, index, bs):
    """One block that says who wrote it and which block of the transfer it is."""
    return (be(4, token & 0xffffffff) + be(4, index & 0xffffffff)) * (bs // 8) + be(8, token)[8 - bs % 8:8] * bool(bs % 8)


class Blocks(object):
    def __init__(self, cfg):
        self.count, self.bs = cfg["blocks"], cfg["bs"]
        self.cfg = cfg
        self.salt = cfg.get("salt", 0)
        self.ext = []                    # [start, count, kind, payload, durable]

    def origin(self, lba):
        return (be(8, (lba * 0x9E3779B97F4A7C15 + self.salt) & (2 ** 64 - 1)) * (self.bs // 8 + 1))[:self.bs]

    def block(self, lba):
        for start, count, kind, payload, _ in reversed(self.ext):
            if start <= lba < start + count:
                if kind == "w":
                    i = lba - start
                    return payload[i * self.bs:(i + 1) * self.bs]
                if kind == "s":
                    return payload
                return bytes(self.bs)
        return self.origin(lba)

    def mapped(self, lba):
        for start, count, kind, payload, _ in reversed(self.ext):
            if start <= lba < start + count:
                return kind != "u"
        return True

    def read(self, lba, n):
        return b"".join(self.block(lba + i) for i in range(n))

    def put(self, lba, n, kind, payload, durable):
        if n:
            self.ext.append([lba, n, kind, payload, durable or not self.cfg.get("cache")])

    def range(self, lba, n):
        if lba + n > self.count:
            raise Check(*OUT_OF_RANGE)

    def power_loss(self):
        self.ext = [e for e in self.ext if e[4]]

    def apply(self, m, part=None):
        """part: only that many blocks of a write get done before the medium fails."""
        op = m["op"]
        if m.get("prot"):
            raise Check(*BAD_CDB)
        if op == "unmap":
            if m.get("malformed") or len(m["ranges"]) > self.cfg.get("max_unmap", 1000):
                raise Check(*BAD_LIST)
            for lba, n in m["ranges"]:
                self.range(lba, n)
            for lba, n in m["ranges"]:
                self.put(lba, n, "u", None, False)
            return None
        lba, n = m["lba"], m["n"]
        if op == "ws":
            if n == 0:
                if self.cfg.get("wsnz"):
                    raise Check(*BAD_CDB)
                n = max(0, self.count - lba)
            elif n > self.cfg.get("max_ws", 2 ** 64):
                raise Check(*BAD_CDB)
            self.range(lba, n)
            if len(m["data"]) != self.bs:
                raise Check(0xb, 0x4b, 0)
            if m.get("unmap"):
                if not self.cfg.get("tpe"):
                    raise Check(*BAD_CDB)
                if not any(m["data"]):
                    self.put(lba, n, "u", None, False)
                    return None
            self.put(lba, n if part is None else min(part, n), "s", m["data"], False)
            return None
        self.range(lba, n)
        if op == "read":
            if m.get("fua"):
                for e in self.ext:
                    if e[0] < lba + n and lba < e[0] + e[1]:
                        e[4] = True
            return self.read(lba, n)
        if op == "write":
            if len(m["data"]) != n * self.bs:
                raise Check(0xb, 0x4b, 0)
            k = n if part is None else min(part, n)
            self.put(lba, k, "w", m["data"][:k * self.bs], m.get("fua"))
            return None
        if op == "caw":
            if n > self.cfg.get("max_caw", 255):
                raise Check(*BAD_CDB)
            if len(m["data"]) != 2 * n * self.bs:
                raise Check(0xb, 0x4b, 0)
            old, new = m["data"][:n * self.bs], m["data"][n * self.bs:]
            held = self.read(lba, n)
            if held != old:
                raise Check(0xe, 0x1d, 0, [i for i in range(len(old)) if old[i] != held[i]][0])
            self.put(lba, n, "w", new, m.get("fua"))
            return None
        raise ValueError(op)

    def differs(self, other):
        """A block that is not the same in the two, or None."""
        if self.ext == other.ext:
            return None
        edges = set([0, self.count])
        for b in (self, other):
            for e in b.ext:
                edges.update((e[0], e[0] + e[1]))
        edges = sorted(x for x in edges if 0 <= x <= max(self.count, other.count))
        for a, z in zip(edges, edges[1:]):
            points = range(a, z) if z - a <= 600 else [a, a + 1, z - 2, z - 1]
            for x in points:
                if self.block(x) != other.block(x) or self.mapped(x) != other.mapped(x):
                    return x
        return None


def decode_block(cdb, data):
    """The meaning of a block command's CDB, or None if it is another command."""
    op = cdb[0]
    if op in (0x08, 0x0A):
        m = {"op": "read" if op == 8 else "write", "lba": un(cdb[1:4]) & 0x1fffff, "n": cdb[4] or 256}
    elif op in (0x28, 0x2A):
        m = {"op": "read" if op == 0x28 else "write", "lba": un(cdb[2:6]), "n": un(cdb[7:9])}
    elif op in (0xA8, 0xAA):
        m = {"op": "read" if op == 0xA8 else "write", "lba": un(cdb[2:6]), "n": un(cdb[6:10])}
    elif op in (0x88, 0x8A):
        m = {"op": "read" if op == 0x88 else "write", "lba": un(cdb[2:10]), "n": un(cdb[10:14])}
    elif op == 0x41:
        m = {"op": "ws", "lba": un(cdb[2:6]), "n": un(cdb[7:9])}
    elif op == 0x93:
        m = {"op": "ws", "lba": un(cdb[2:10]), "n": un(cdb[10:14]), "unmap": cdb[1] >> 3 & 1}
    elif op == 0x89:
        m = {"op": "caw", "lba": un(cdb[2:10]), "n": cdb[13]}
    elif op == 0x42:
        m = {"op": "unmap", "ranges": []}
        n = un(cdb[7:9])
        if n == 0:
            return m
        if n != len(data) or n < 8 or un(data[0:2]) != n - 2 or un(data[2:4]) > n - 8 or un(data[2:4]) % 16:
            m["malformed"] = 1
            return m
        for i in range(8, 8 + un(data[2:4]), 16):
            m["ranges"].append([un(data[i:i + 8]), un(data[i + 8:i + 12])])
        return m
    else:
        return None
    if op not in (0x08, 0x0A):
        m["prot"] = cdb[1] >> 5
    if op in (0x28, 0x2A, 0xA8, 0xAA, 0x88, 0x8A, 0x89):
        m["fua"] = cdb[1] >> 3 & 1
    if m["op"] != "read":
        m["data"] = bytes(data)
    return m


# ------------------------------------------------------------------------------------------------
# reservations (SPC-4 5.12, 6.15, 6.16; SPC-2 RESERVE/RELEASE)

ALL_TYPES = (1, 3, 5, 6, 7, 8)


class Reservations(object):
    """nexus: (initiator, relative target port)."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.ports = cfg["ports"]
        self.regs = {}                   # nexus -> [key, registered for all target ports]
        self.order = []
        self.holder = None               # nexus, or "all"
        self.type = 0
        self.generation = cfg.get("generation", 0)
        self.aptpl = 0
        self.legacy = None               # (nexus, third party or None)
        self.ua = {}                     # nexus -> [(asc, ascq)]

    def snapshot(self):
        return (dict((n, tuple(r)) for n, r in self.regs.items()), tuple(self.order), self.holder, self.type, self.generation, self.aptpl,
                self.legacy, dict((n, tuple(u)) for n, u in self.ua.items() if u))

    def attention(self, nexus, asc, ascq):
        q = self.ua.setdefault(nexus, [])
        if (asc, ascq) not in q:
            q.append((asc, ascq))

    def power_loss(self):
        self.legacy = None
        if not self.aptpl:
            self.regs, self.order, self.holder, self.type = {}, [], None, 0
        self.generation = 0

    def drop(self, nexus):
        if nexus in self.regs:
            del self.regs[nexus]
            self.order.remove(nexus)

    def add(self, nexus, key, atp):
        if nexus not in self.regs:
            self.order.append(nexus)
        self.regs[nexus] = [key, atp]

    def holds(self, nexus):
        return self.holder == nexus or (self.holder == "all" and nexus in self.regs)

    def release(self, by=None):
        """The reservation goes; registrants of the registrants types are told."""
        if self.type in (5, 6, 7, 8):
            for n in self.order:
                if n != by:
                    self.attention(n, 0x2a, 0x04)
        self.holder, self.type = None, 0

    def unregister(self, nexus):
        held = self.holds(nexus)
        self.drop(nexus)
        if held:
            if self.holder == "all":
                if not self.regs:
                    self.holder, self.type = None, 0
            else:
                self.release(nexus)

    def pr_active(self):
        return bool(self.regs)

    def allowed(self, nexus, access):
        """access: none, read, write."""
        if self.legacy and self.legacy[0] != nexus:
            if access != "none":
                raise Conflict()
        if self.holder is None or access == "none" or self.holds(nexus):
            return
        if self.type in (1, 5, 7) and access == "read":
            return
        if self.type in (5, 6, 7, 8) and nexus in self.regs:
            return
        raise Conflict()

    def out(self, nexus, m):
        if self.legacy:
            raise Conflict()
        if m.get("malformed"):
            raise Check(*LIST_LENGTH)
        sa, rk, sark, t = m["sa"], m["rk"], m["sark"], m["type"]
        if sa > 8:
            raise Check(*BAD_CDB)
        if m.get("scope"):
            raise Check(*BAD_CDB)
        if sa in (1, 2, 4, 5, 8) and t not in ALL_TYPES:
            raise Check(*BAD_CDB)
        if sa in (0, 6):
            if m["aptpl"] and not self.cfg["ptpl_c"] or m["atp"] and not self.cfg["atp_c"]:
                raise Check(*BAD_LIST)
            if m["sip"]:
                raise Check(*BAD_LIST)               # no transport ids follow
            if sa == 0:
                if nexus in self.regs:
                    if self.regs[nexus][0] != rk:
                        raise Conflict()
                elif rk:
                    raise Conflict()
            targets = [(nexus[0], p) for p in self.ports] if m["atp"] else [nexus]
            for n in targets:
                if sark:
                    self.add(n, sark, bool(m["atp"]))
                elif n in self.regs:
                    self.unregister(n)
            self.generation = (self.generation + 1) & 0xffffffff
            self.aptpl = m["aptpl"]
            return
        if nexus not in self.regs or (self.regs[nexus][0] != rk and sa != 8):
            raise Conflict()
        if sa == 1:
            if self.holder is not None:
                if self.holds(nexus) and self.type == t:
                    return
                raise Conflict()
            self.holder, self.type = ("all" if t in (7, 8) else nexus), t
        elif sa == 2:
            if self.holder is None or not self.holds(nexus):
                return
            if t != self.type:
                raise Check(5, 0x26, 4)
            self.release(nexus)
        elif sa == 3:
            for n in self.order:
                if n != nexus:
                    self.attention(n, 0x2a, 0x03)
            self.regs, self.order, self.holder, self.type = {}, [], None, 0
            self.generation = (self.generation + 1) & 0xffffffff
        elif sa in (4, 5):
            self.preempt(nexus, sark, t)
            self.generation = (self.generation + 1) & 0xffffffff
        elif sa == 7:
            self.move(nexus, m)
        else:
            raise Check(*BAD_CDB)                    # no lost reservation to replace

    def preempt(self, nexus, sark, t):
        if self.holder == "all":
            if sark == 0:
                victims = [n for n in self.order if n != nexus]
                take = True
            else:
                victims = [n for n in self.order if self.regs[n][0] == sark and n != nexus]
                take = False
                if not [n for n in self.order if self.regs[n][0] == sark]:
                    raise Conflict()
        else:
            if sark == 0:
                raise Check(*BAD_LIST)
            victims = [n for n in self.order if self.regs[n][0] == sark and n != nexus]
            take = self.holder is not None and self.regs[self.holder][0] == sark
            if not take and not [n for n in self.order if self.regs[n][0] == sark]:
                raise Conflict()
        for n in victims:
            self.drop(n)
            self.attention(n, 0x2a, 0x05)
        if take:
            if self.type != t:
                for n in self.order:
                    if n != nexus:
                        self.attention(n, 0x2a, 0x04)
            self.holder, self.type = ("all" if t in (7, 8) else nexus), t

    def move(self, nexus, m):
        if self.holder is None:
            raise Check(*BAD_CDB)
        if not self.holds(nexus) or self.type in (7, 8):
            raise Conflict() if not self.holds(nexus) else Check(*BAD_CDB)
        if m["sark"] == 0:
            raise Check(*BAD_LIST)
        who = [i for i, t in enumerate(self.cfg["initiators"]) if bytes.fromhex(t) == m["tid"]]
        if not who or m["rtpi"] not in self.ports:
            raise Check(*BAD_LIST)
        to = (who[0], m["rtpi"])
        if to == nexus:
            raise Check(*BAD_LIST)
        if m["aptpl"] and not self.cfg["ptpl_c"]:
            raise Check(*BAD_LIST)
        self.add(to, m["sark"], False)
        self.holder = to
        if m["unreg"]:
            self.drop(nexus)
        self.generation = (self.generation + 1) & 0xffffffff
        self.aptpl = m["aptpl"]

    def reserve(self, nexus, m):
        if self.pr_active():
            raise Conflict()
        if self.legacy and self.legacy[0] != nexus:
            raise Conflict()
        self.legacy = (nexus, m.get("third"))

    def unreserve(self, nexus, m):
        if self.pr_active():
            raise Conflict()
        if self.legacy and self.legacy == (nexus, m.get("third")):
            self.legacy = None

    # what PERSISTENT RESERVE IN says
    def keys(self):
        return [self.regs[n][0] for n in self.order]

    def reported_key(self):
        return 0 if self.holder == "all" else self.regs[self.holder][0]

    def full(self):
        out, seen = [], set()
        for n in self.order:
            key, atp = self.regs[n]
            if atp:
                if n[0] in seen:
                    continue
                seen.add(n[0])
            h = self.holds(n) or (atp and any(self.holds((n[0], p)) for p in self.ports))
            out.append({"key": key, "holder": int(bool(h)), "atp": int(atp), "type": self.type if h else 0,
                        "rtpi": 0 if atp else n[1], "tid": bytes.fromhex(self.cfg["initiators"][n[0]])})
        return out

    def encode_in(self, sa):
        if sa == 0:
            body = b"".join(be(8, k) for k in self.keys())
        elif sa == 1:
            body = b""
            if self.holder is not None:
                body = be(8, self.reported_key()) + be(4, 0) + b"\0" + bytes([self.type]) + be(2, 0)
        elif sa == 2:
            c = self.cfg
            mask = sum(1 << b for t, b in ((7, 15), (6, 14), (5, 13), (3, 11), (1, 9), (8, 0)) if t in c["types"])
            b2 = c["rlr_c"] << 7 | c["crh"] << 4 | c["sip_c"] << 3 | c["atp_c"] << 2 | c["ptpl_c"]
            b3 = c["tmv"] << 7 | c["allow"] << 4 | self.aptpl
            return be(2, 8) + bytes([b2, b3]) + be(2, mask) + be(2, 0)
        elif sa == 3:
            body = b""
            for d in self.full():
                body += (be(8, d["key"]) + be(4, 0) + bytes([d["atp"] << 1 | d["holder"], d["type"]]) + be(4, 0) + be(2, d["rtpi"]) +
                         be(4, len(d["tid"])) + d["tid"])
        else:
            raise Check(*BAD_CDB)
        return be(4, self.generation) + be(4, len(body)) + body


def decode_pr_out(cdb, data):
    m = {"sa": cdb[1] & 0x1f, "type": cdb[2] & 0xf, "scope": cdb[2] >> 4}
    n = un(cdb[5:9])
    if n != len(data) or n < 24:
        m.update(malformed=1, rk=0, sark=0)
        return m
    m["rk"], m["sark"] = un(data[0:8]), un(data[8:16])
    if m["sa"] == 7:
        m["aptpl"], m["unreg"] = data[17] & 1, data[17] >> 1 & 1
        m["rtpi"] = un(data[18:20])
        m["tid"] = bytes(data[24:])
        if un(data[20:24]) != len(m["tid"]):
            m["malformed"] = 1
    else:
        m["aptpl"], m["atp"], m["sip"] = data[20] & 1, data[20] >> 2 & 1, data[20] >> 3 & 1
        if n != 24 and not m["sip"]:
            m["malformed"] = 1
    return m


def decode_reserve(cdb, data):
    if cdb[0] in (0x16, 0x17):
        if cdb[1] & 1:
            return {"op": "reserve", "malformed": 1}
        return {"third": None}
    third = None
    if cdb[1] & 0x10:
        third = cdb[3]
        if cdb[1] & 2:
            if un(cdb[7:9]) != 8 or len(data) != 8:
                return {"malformed": 1}
            third = un(data)
        elif un(cdb[7:9]) or data:
            return {"malformed": 1}
    return {"third": third}


# ------------------------------------------------------------------------------------------------
# pages: each builder gives (the bytes the device holds, what a decoder must say)

class Maybe(object):
    """A value the device did not transmit: nothing or zero."""
    def __init__(self, value=0):
        self.value = value


class Signed(object):
    def __init__(self, value):
        self.value = value


def peripheral(c):
    return bytes([c["q"] << 5 | c["type"]]), {"type": c["type"], "qualifier": c["q"]}


def text(s, n):
    return s.encode("ascii").ljust(n)[:n]


INQ_BITS = (("rmb", 1, 7, 1), ("cong", 1, 6, 1), ("version", 2, 0, 8), ("response_data_format", 3, 0, 4), ("hisup", 3, 4, 1),
            ("normaca", 3, 5, 1), ("protect", 5, 0, 1), ("threepc", 5, 3, 1), ("tpgs", 5, 4, 2), ("acc", 5, 6, 1), ("sccs", 5, 7, 1),
            ("addr16", 6, 0, 1), ("multi_p", 6, 4, 1), ("enc_serv", 6, 6, 1), ("cmd_que", 7, 1, 1), ("sync", 7, 4, 1), ("wbus16", 7, 5, 1))


def standard_inquiry(c, allocation):
    """c: bits, vendor, product, rev, ext (hex of everything after byte 35)."""
    p, pw = peripheral(c)
    b = bytearray(36)
    b[0:1] = p
    want = {"peripheral_device": pw}
    for name, byte, bit, width in INQ_BITS:
        v = c["bits"].get(name, 0)
        b[byte] |= v << bit
        want[name] = v
    b[8:16], b[16:32], b[32:36] = text(c["vendor"], 8), text(c["product"], 16), text(c["rev"], 4)
    want.update(t10_vendor_identification=c["vendor"], product_identification=c["product"], product_revision_level=c["rev"])
    ext = bytes.fromhex(c["ext"])
    b[4] = 31 + len(ext)
    want["additional_length"] = b[4]
    got = ext[:max(0, allocation - 36)]
    if ext and got:
        e = {"vendor_specific_1": got[:20]}
        if len(got) >= 21:
            e.update(ius=got[20] & 1, qas=got[20] >> 1 & 1, clocking=got[20] >> 2 & 3)
        if len(got) >= 24:
            e["version_descriptors"] = [un(got[i:i + 2]) for i in range(22, min(38, len(got) - 1), 2)]
        if len(got) >= 61:
            e["vendor_specific_2"] = got[60:]
        want["extended"] = e
    elif not ext:
        want["extended"] = None
    return bytes(b) + ext, want


def vpd_header(c, code, body):
    p, pw = peripheral(c)
    return p + bytes([code]) + be(2, len(body)) + body, {"peripheral_device": pw, "page_code": code, "page_length": len(body)}


def vpd_supported(c, codes):
    data, want = vpd_header(c, 0, bytes(codes))
    want["vpd_parameters"] = list(codes)
    return data, want


def vpd_serial(c, v):
    data, want = vpd_header(c, 0x80, v.encode("ascii"))
    want["product_serial_number"] = v
    return data, want


def designator(d):
    """d: {t, cs, proto, assoc, piv, and the type's own fields} -> bytes, what is decoded"""
    t = d["t"]
    w = {}
    if t in ("vendor", "md5", "name", "reserved"):
        body = bytes.fromhex(d["hex"])
        kind = {"vendor": 0, "md5": 7, "name": 8}.get(t, d.get("code"))
        w[{"vendor": "vendor_specific_identifier", "md5": "md5_logical_unit_identifier", "name": "scsi_name_string", "reserved": "designator"}[t]] = body
    elif t == "t10":
        kind = 1
        body = text(d["vid"], 8) + bytes.fromhex(d["hex"])
        w.update(t10_vendor_identification=d["vid"], vendor_specific_identifier=bytes.fromhex(d["hex"]))
    elif t in ("eui8", "eui12", "eui16"):
        kind = 2
        body = be(3, d["company"]) + be(5, d["ext"])
        w.update(ieee_company=d["company"], vendor_specific_extension_identifer=d["ext"])
        if t == "eui12":
            body += be(4, d["dir"])
            w["directory_id"] = d["dir"]
        if t == "eui16":
            body = be(8, d["id"]) + body
            w["identifier_extension"] = d["id"]
    elif t == "naa2":
        kind = 3
        body = be(2, 2 << 12 | d["a"]) + be(3, d["company"]) + be(3, d["b"])
        w.update(naa=2, vendor_specific_identifier_a=d["a"], ieee_company=d["company"], vendor_specific_identifier_b=d["b"])
    elif t == "naa3":
        kind = 3
        body = be(8, 3 << 60 | d["local"])
        w.update(naa=3, locally_administered_value=d["local"])
    elif t in ("naa5", "naa6"):
        kind = 3
        n = int(t[3])
        body = be(8, n << 60 | d["company"] << 36 | d["vsi"])
        w.update(naa=n, ieee_company_id=d["company"], vendor_specific_identifier=d["vsi"])
        if n == 6:
            body += be(8, d["vsx"])
            w["vendor_specific_identifier_extension"] = d["vsx"]
    else:
        kind, name = {"rtp": (4, "relative_target_port_identifier"), "tpg": (5, "target_port_group"), "lug": (6, "logical_unit_group")}[t]
        body = be(2, 0) + be(2, d["id"])
        w[name] = d["id"]
    w.update(code_set=d["cs"], protocol_identifier=d["proto"], designator_type=kind, association=d["assoc"], piv=d["piv"],
             designator_length=len(body))
    return bytes([d["proto"] << 4 | d["cs"], d["piv"] << 7 | d["assoc"] << 4 | kind, 0, len(body)]) + body, w


def vpd_identification(c, ds):
    parts = [designator(d) for d in ds]
    data, want = vpd_header(c, 0x83, b"".join(b for b, _ in parts))
    want["designators_list"] = [w for _, w in parts]
    return data, want


def swap(s, n):
    b = text(s, n)
    return b"".join(b[i + 1:i + 2] + b[i:i + 1] for i in range(0, n, 2))


def vpd_ata(c, v):
    sig = bytes.fromhex(v["sig"])
    ident = bytearray(bytes.fromhex(v["identify"]) * 512)[:512]
    ident[20:40], ident[46:54], ident[54:94] = swap(v["sn"], 20), swap(v["fw"], 8), swap(v["model"], 40)
    body = be(4, 0) + text(v["vendor"], 8) + text(v["product"], 16) + text(v["rev"], 4) + sig + bytes([v["cmd"]]) + be(3, 0) + bytes(ident)
    data, want = vpd_header(c, 0x89, body)
    want.update(sat_vendor_identification=v["vendor"], sat_product_identification=v["product"], sat_product_revision_level=v["rev"],
                command_code=v["cmd"],
                device_signature={"transport_id": sig[0], "pm_port": sig[1] & 0xf, "interrupt": sig[1] >> 6 & 1, "status": sig[2], "error": sig[3],
                                  "lba": sig[4:7] + sig[8:11], "device": sig[7], "sector_count": un(sig[12:14])},
                identify_device={"serial_number": v["sn"], "firmware_revision": v["fw"], "model_number": v["model"]})
    return data, want


LIMITS = (("maximum_compare_and_write_length", 5, 1), ("optimal_transfer_length_granularity", 6, 2), ("maximum_transfer_length", 8, 4),
          ("optimal_transfer_length", 12, 4), ("maximum_prefetch_xdread_xdwrite_transfer_length", 16, 4), ("maximum_unmap_lba_count", 20, 4),
          ("maximum_unmap_block_descriptor_count", 24, 4), ("optimal_unmap_granularity", 28, 4), ("maximum_write_same_length", 36, 8))


def vpd_limits(c, v):
    b = bytearray(64)
    n = v["len"] + 4
    b[4] = v["wsnz"]
    for name, at, size in LIMITS:
        b[at:at + size] = be(size, v[name])
    b[32:36] = be(4, v["ugavalid"] << 31 | v["unmap_granularity_alignment"])
    data, want = vpd_header(c, 0xb0, bytes(b[4:n]))
    want["wsnz"] = v["wsnz"]
    for name, at, size in LIMITS:
        want[name] = v[name] if at + size <= n else Maybe()
    for name in ("ugavalid", "unmap_granularity_alignment"):
        want[name] = v[name] if 36 <= n else Maybe()
    return data, want


def vpd_provisioning(c, v):
    b5 = v["lbpu"] << 7 | v["lbpws"] << 6 | v["lbpws10"] << 5 | v["lbprz"] << 2 | v["anc_sup"] << 1 | (1 if v.get("group") else 0)
    body = bytes([v["threshold_exponent"], b5, v["provisioning_type"], 0])
    want = dict((k, v[k]) for k in ("threshold_exponent", "lbpu", "lbpws", "lbpws10", "lbprz", "anc_sup", "provisioning_type"))
    want["dp"] = 1 if v.get("group") else 0
    want["provisioning_group_descriptor"] = None
    if v.get("group"):
        d, w = designator(v["group"])
        body += d
        want["provisioning_group_descriptor"] = w
    data, head = vpd_header(c, 0xb2, body)
    want.update(head)
    return data, want


VERITAS = ("is_thin_lun", "is_snapshot_lun", "is_space_optimized_src", "is_fcdisk_lun", "is_satadisk_lun", "is_replication_src",
           "is_replication_dst")


def vpd_veritas(c, v):
    data, want = vpd_header(c, 0xc0, bytes([sum(v[n] << i for i, n in enumerate(VERITAS)), v["raid_type"]]) + bytes(v.get("more", 0)))
    for n in VERITAS + ("raid_type",):
        want[n] = v[n]
    return data, want


def vpd_other(c, code, hexed):
    data, want = vpd_header(c, code, bytes.fromhex(hexed))
    want["page_data"] = list(bytes.fromhex(hexed))
    return data, want


def vpd_page(c, code):
    v = c["vpd"]
    if code == 0:
        return vpd_supported(c, sorted(set([0] + [int(k, 16) for k in v])))
    k = "%02x" % code
    if k not in v:
        raise Check(*BAD_CDB)
    build = {0x80: vpd_serial, 0x83: vpd_identification, 0x89: vpd_ata, 0xb0: vpd_limits, 0xb2: vpd_provisioning, 0xc0: vpd_veritas}
    if code in build:
        return build[code](c, v[k])
    return vpd_other(c, code, v[k])


# ------------------------------------------------------------------------------------------------
# capacity, LUNs, port groups, copy limits, logs

def capacity10(c):
    last = min(c["last"], 0xffffffff)
    return be(4, last) + be(4, c["bl"]), {"last_logical_block_address": last, "block_length_in_bytes": c["bl"]}


def capacity16(c):
    low = c["lowest"]
    data = (be(8, c["last"]) + be(4, c["bl"]) + bytes([c["p_type"] << 1 | c["prot_en"], c["p_i"] << 4 | c["lbppbe"],
                                                      c["tpe"] << 7 | c["tprz"] << 6 | low >> 8, low & 0xff]) + bytes(16))
    return data, {"last_logical_block_address": c["last"], "block_length_in_bytes": c["bl"], "prot_en": c["prot_en"], "p_type": c["p_type"],
                  "logical_blocks_per_physical_block": c["lbppbe"], "p_i_exponent": c["p_i"], "lowest_aligned_lba_msb": low >> 8,
                  "lowest_aligned_lba_lsb": low & 0xff, "tpe": c["tpe"], "troz": c["tprz"]}


def report_luns(luns):
    items = [un(bytes.fromhex(x)) for x in luns]
    return be(4, 8 * len(items)) + be(4, 0) + b"".join(be(8, x) for x in items), items


def port_groups(c, extended):
    out, want = b"", []
    for g in c["groups"]:
        sup = g["sup"]
        out += bytes([g["pref"] << 7 | g["state"], sup]) + be(2, g["id"]) + bytes([0, g["status"], g["vendor"], len(g["ports"])])
        out += b"".join(be(2, 0) + be(2, p) for p in g["ports"])
        want.append({"asymetric_access_state": g["state"], "pref": g["pref"], "ao_sup": sup & 1, "an_sup": sup >> 1 & 1, "s_sup": sup >> 2 & 1,
                     "u_sup": sup >> 3 & 1, "lbd_sup": sup >> 4 & 1, "o_sup": sup >> 6 & 1, "t_sup": sup >> 7 & 1, "target_port_group": g["id"],
                     "status_code": g["status"], "target_port_count": len(g["ports"]),
                     "target_port_list": [{"relative_target_port_identifier": p} for p in g["ports"]]})
    if extended:
        out = bytes([1 << 4, c["itt"], 0, 0]) + out
        return be(4, len(out)) + out, {"data_length": len(out), "format_type": 1, "descriptor_list": want}
    return be(4, len(out)) + out, {"data_length": len(out), "descriptor_list": want}


COPY = (("max_cscd_descriptor_count", 8, 2), ("max_segment_descriptor_count", 10, 2), ("max_descriptor_list_length", 12, 4),
        ("max_segment_length", 16, 4), ("max_inline_data_length", 20, 4), ("held_data_limit", 24, 4), ("max_stream_device_transfer_size", 28, 4),
        ("total_concurrent_copies", 34, 2), ("max_concurrent_copies", 36, 1), ("data_segment_granularity", 37, 1),
        ("inline_data_granularity", 38, 1), ("held_data_granularity", 39, 1))


def copy_limits(c):
    b = bytearray(44)
    want = {}
    for name, at, size in COPY:
        b[at:at + size] = be(size, c[name])
        want[name] = c[name]
    b[4] = c["snlid"]
    b[43] = len(c["descriptors"])
    data = bytes(b) + bytes(c["descriptors"])
    data = be(4, len(data) - 4) + data[4:]
    want.update(available_data=len(data) - 4, snlid=c["snlid"], implemented_descriptor_list=list(c["descriptors"]),
                implemented_descriptor_list_length=len(c["descriptors"]))
    return data, want


# ------------------------------------------------------------------------------------------------
# enclosure (SES-3); element fields are (name, byte, lowest bit, bits) or (name, first byte, "u16" / "s16")

INFO = {
    0x01: [("slot_address", 1, 0, 8), ("app_client_bypassed_a", 2, 7, 1), ("do_not_remove", 2, 6, 1), ("encl_bypassed_a", 2, 5, 1),
           ("encl_bypassed_b", 2, 4, 1), ("ready_insert", 2, 3, 1), ("rmv", 2, 2, 1), ("ident", 2, 1, 1), ("report", 2, 0, 1),
           ("app_client_bypassed_b", 3, 7, 1), ("fault_sensed", 3, 6, 1), ("fault_reqstd", 3, 5, 1), ("device_off", 3, 4, 1),
           ("bypassed_a", 3, 3, 1), ("bypassed_b", 3, 2, 1), ("device_bypassed_a", 3, 1, 1), ("device_bypassed_b", 3, 0, 1)],
    0x02: [("ident", 1, 7, 1), ("dc_over_voltage", 2, 3, 1), ("dc_under_voltage", 2, 2, 1), ("dc_over_current", 2, 1, 1), ("hot_swap", 3, 7, 1),
           ("fail", 3, 6, 1), ("reqstd_on", 3, 5, 1), ("off", 3, 4, 1), ("overtmp_fail", 3, 3, 1), ("temp_warn", 3, 2, 1), ("ac_fail", 3, 1, 1),
           ("dc_fail", 3, 0, 1)],
    0x03: [("ident", 1, 7, 1), ("fan_speed", 1, "u11"), ("hot_swap", 3, 7, 1), ("fail", 3, 6, 1), ("reqstd_on", 3, 5, 1), ("off", 3, 4, 1),
           ("speed_code", 3, 0, 3)],
    0x04: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("temperature", 2, 0, 8), ("ot_fail", 3, 3, 1), ("ot_warn", 3, 2, 1), ("ut_fail", 3, 1, 1),
           ("ut_warn", 3, 0, 1)],
    0x05: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("door_open", 3, 1, 1), ("unlocked", 3, 0, 1)],
    0x06: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("rqst_mute", 3, 7, 1), ("muted", 3, 6, 1), ("remind", 3, 4, 1), ("tui_info", 3, 3, 1),
           ("tui_non_crit", 3, 2, 1), ("tui_crit", 3, 1, 1), ("tui_unrecov", 3, 0, 1)],
    0x07: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("report", 2, 0, 1), ("hot_swap", 3, 7, 1)],
    0x08: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("report", 2, 0, 1)],
    0x09: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("size_mult", 1, 0, 2), ("cache_size", 2, "u16")],
    0x0A: [("invop_type", 1, 6, 2), ("invop_bytes", 2, "u16")],
    0x0B: [("battery_status", 1, 0, 8), ("ac_low", 2, 7, 1), ("ac_hi", 2, 6, 1), ("ac_qual", 2, 5, 1), ("ac_fail", 2, 4, 1), ("dc_fail", 2, 3, 1),
           ("ups_fail", 2, 2, 1), ("warn", 2, 1, 1), ("intf_fail", 2, 0, 1), ("ident", 3, 7, 1), ("fail", 3, 6, 1), ("batt_fail", 3, 1, 1),
           ("bpf", 3, 0, 1)],
    0x0C: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("display_mode_status", 1, 0, 2), ("display_char_status", 2, "u16")],
    0x0D: [("ident", 1, 7, 1), ("fail", 1, 6, 1)],
    0x0E: [("ident", 1, 7, 1), ("time_until_power_cycle", 2, 2, 6), ("failure_indication", 2, 1, 1), ("warn_indication", 2, 0, 1),
           ("requested_power_off_duration", 3, 2, 6), ("failure_requested", 3, 1, 1), ("warn_requested", 3, 0, 1)],
    0x0F: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("report", 2, 0, 1), ("disabled", 3, 4, 1), ("lol", 3, 1, 1), ("xmit_fail", 3, 0, 1)],
    0x10: [("ident", 1, 7, 1), ("language_code", 2, "u16")],
    0x11: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("disabled", 3, 0, 1)],
    0x12: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("warn_over", 1, 3, 1), ("warn_under", 1, 2, 1), ("crit_over", 1, 1, 1), ("crit_under", 1, 0, 1),
           ("voltage", 2, "s16")],
    0x13: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("warn_over", 1, 3, 1), ("crit_over", 1, 1, 1), ("current", 2, "s16")],
    0x14: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("report", 2, 0, 1), ("enabled", 3, 0, 1)],
    0x15: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("report", 2, 0, 1), ("enabled", 3, 0, 1)],
    0x16: [("ident", 1, 7, 1), ("fail", 1, 6, 1), ("short_enclosure_status", 3, 0, 8)],
    0x18: [("ident", 1, 7, 1), ("fail", 1, 6, 1)],
    0x19: [("ident", 1, 7, 1), ("connector_type", 1, 0, 7), ("connector_phys_link", 2, 0, 8), ("fail", 3, 6, 1)],
}
INFO[0x17] = [(n, 1, 7 - i, 1) for i, n in enumerate(("ok", "rsvd_device", "hot_spare", "cons_chk", "in_crit_array", "in_failed_array", "rebuild_remap",
                                                     "rr_abort"))] + [f for f in INFO[0x01] if f[0] != "slot_address"]


def element(raw, kind):
    """What a decoder must say of one status element (kind None: the raw bytes)."""
    w = {"element_status_code": raw[0] & 0xf, "swap": raw[0] >> 4 & 1, "disabled": raw[0] >> 5 & 1, "prdfail": raw[0] >> 6 & 1}
    if kind not in INFO:
        w["status_info"] = {"general": list(raw[1:4])}
        return w
    info = {}
    for f in INFO[kind]:
        name, byte, how = f[0], f[1], f[2]
        if how == "u16":
            info[name] = un(raw[byte:byte + 2])
        elif how == "s16":
            info[name] = int.from_bytes(raw[byte:byte + 2], "big", signed=True)
        elif how == "u11":
            info[name] = un(raw[byte:byte + 2]) & 0x7ff
        else:
            info[name] = raw[byte] >> how & ((1 << f[3]) - 1)
    w["status_info"] = info
    return w


def ses_header(code, byte1, body):
    return bytes([code, byte1]) + be(2, len(body)) + body


def all_types(c):
    return [t for e in c["enclosures"] for t in e["types"]]


def ses_configuration(c):
    descs, heads, texts, wd, wh = b"", b"", b"", [], []
    for e in c["enclosures"]:
        vs = bytes.fromhex(e["vs"])
        descs += (bytes([e["rel"] << 4 | e["procs"], e["sub"], len(e["types"]), 36 + len(vs)]) + bytes.fromhex(e["id"]) + text(e["vendor"], 8) +
                  text(e["product"], 16) + text(e["rev"], 4) + vs)
        wd.append({"enclosure_services_processes_num": e["procs"], "relative_enclosure_services_process_identifier": e["rel"],
                   "subenclosure_identifier": e["sub"], "type_descriptor_headers_num": len(e["types"]), "enclosure_descriptor_length": 36 + len(vs),
                   "enclosure_logical_identifier": bytes.fromhex(e["id"]), "enclosure_vendor_identification": e["vendor"],
                   "product_identification": e["product"], "product_revision_level": e["rev"], "vendor_specific_enclosure_information": vs})
    wt = []
    for e in c["enclosures"]:
        for t in e["types"]:
            heads += bytes([t["type"], len(t["elements"]), e["sub"], len(t["text"])])
            wh.append({"element_type": t["type"], "possible_elements_num": len(t["elements"]), "subenclosure_identifier": e["sub"],
                       "type_descriptor_text_length": len(t["text"])})
            texts += t["text"].encode("ascii")
            wt.append(t["text"].encode("ascii"))
    body = be(4, c["generation"]) + descs + heads + texts
    return ses_header(1, len(c["enclosures"]) - 1, body), {
        "page_code": 1, "secondary_subenclosures_num": len(c["enclosures"]) - 1, "page_length": len(body), "generation_code": c["generation"],
        "enclosure_descriptor_list": wd, "type_descriptor_header_list": wh, "type_descriptor_text_list": wt}


def ses_status(c):
    body, want = be(4, c["generation"]), []
    for t in all_types(c):
        raw = bytes.fromhex(t["overall"])
        body += raw
        w = {"overall_element": element(raw, None), "individual_elements": []}
        for e in t["elements"]:
            raw = bytes.fromhex(e["raw"])
            body += raw
            w["individual_elements"].append(element(raw, t["type"]))
        want.append(w)
    b1 = c["flags"]
    return ses_header(2, b1, body), {"page_code": 2, "unrecov": b1 & 1, "crit": b1 >> 1 & 1, "non_crit": b1 >> 2 & 1, "info": b1 >> 3 & 1,
                                     "invop": b1 >> 4 & 1, "page_length": len(body), "generation_code": c["generation"],
                                     "status_descriptors": want}


def ses_descriptors(c):
    body, want = be(4, c["generation"]), []

    def one(s):
        b = s.encode("ascii")
        return be(2, 0) + be(2, len(b)) + b, {"descriptor_length": len(b), "descriptor": b}
    for t in all_types(c):
        raw, w0 = one(t["otext"])
        body += raw
        ind = []
        for e in t["elements"]:
            raw, w = one(e["text"])
            body += raw
            ind.append(w)
        want.append({"overall_element": w0, "individual_elements": ind})
    return ses_header(7, 0, body), {"page_code": 7, "page_length": len(body), "generation_code": c["generation"], "element_descriptors": want}


def ses_page(c, code):
    if code == 0:
        codes = [0, 1, 2, 7] + [int(k, 16) for k in sorted(c["pages"])]
        return ses_header(0, 0, bytes(codes)), {"page_code": 0, "page_length": len(codes), "supported_pages": codes}
    if code == 1:
        return ses_configuration(c)
    if code == 2:
        return ses_status(c)
    if code == 7:
        return ses_descriptors(c)
    k = "%02x" % code
    if k not in c["pages"]:
        raise Check(*BAD_CDB)
    body = bytes.fromhex(c["pages"][k])
    want = {"page_code": code, "page_length": len(body)}
    want["vendor_specific" if code == 0x80 else "page_data"] = list(body)
    return ses_header(code, 0, body), want


# ------------------------------------------------------------------------------------------------
# one logical unit

# The bits of each CDB that carry a meaning every device knows.  A strict device refuses everything else that is set:
# reserved and obsolete bits, hints it does not support (DPO, group numbers), the control byte.
MEANT = {0x00: "ff0000000000", 0x08: "ff1fffffff00", 0x0A: "ff1fffffff00", 0x12: "ff01ffffff00", 0x16: "ffffffffff00", 0x17: "ffffffffff00",
         0x1C: "ff01ffffff00", 0x25: "ff00ffffffff00000100", 0x28: "ffe8ffffffff00ffff00", 0x2A: "ffe8ffffffff00ffff00",
         0x41: "ffe8ffffffff00ffff00", 0x42: "ff000000000000ffff00", 0x4D: "ff01ffff000000ffff00", 0x56: "ffffffffffffffffff00",
         0x57: "ffffffffffffffffff00", 0x5E: "ff1f0000000000ffff00", 0x5F: "ff1fff0000ffffffff00", 0x84: "ff1fff00000000000000ffffffff0000",
         0x88: "ffe8ffffffffffffffffffffffff0000", 0x8A: "ffe8ffffffffffffffffffffffff0000", 0x89: "ffe8ffffffffffffffff000000ff0000",
         0x93: "ffe8ffffffffffffffffffffffff0000", 0x9E: "ff1fffffffffffffffffffffffff0100", 0xA0: "ff00ff000000ffffffff0000",
         0xA3: "ffff00000000ffffffff0000", 0xA8: "ffe8ffffffffffffffff0000", 0xAA: "ffe8ffffffffffffffff0000"}
MEANT = dict((op, bytes.fromhex(mask)) for op, mask in MEANT.items())
# bits of other meanings, which no device of ours implements
NEVER = {0x41: [(1, 0x17)], 0x93: [(1, 0x17)], 0x42: [(1, 1)], 0x28: [(1, 1)], 0x2A: [(1, 1)], 0xA8: [(1, 1)], 0xAA: [(1, 1)],
         0x4D: [(5, 0xff), (6, 0xff)], 0x25: [(1, 1)]}


def unsupported(cdb, strict):
    mask = MEANT.get(cdb[0])
    if mask is None or len(mask) != len(cdb):
        return False
    if any(cdb[i] & bits for i, bits in NEVER.get(cdb[0], ())):
        return True
    return strict and any(c & ~k & 0xff for c, k in zip(cdb, mask))

class Unit(object):
    """Decodes and executes commands; the engine gives it the nexus."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.blocks = Blocks(cfg["disk"]) if "disk" in cfg else None
        self.pr = Reservations(cfg["pr"]) if "pr" in cfg else None

    def execute(self, nexus, cdb, data, part=None):
        """-> the bytes the device would send (before the transfer limit); raises Check, Conflict."""
        op = cdb[0]
        c = self.cfg
        if self.pr and op not in (0x12, 0xA0, 0x03):
            q = self.pr.ua.get(nexus)
            if q:
                asc, ascq = q.pop(0)
                raise Check(6, asc, ascq)
        if unsupported(cdb, c.get("strict")):
            raise Check(*BAD_CDB)
        if self.blocks:
            m = decode_block(cdb, data)
            if m is not None:
                if self.pr:
                    self.pr.allowed(nexus, "read" if m["op"] == "read" else "write")
                return self.blocks.apply(m, part) or b""
        if op == 0x00:
            if self.pr:
                self.pr.allowed(nexus, "none")
            if c.get("not_ready"):
                raise Check(2, *c["not_ready"])
            return b""
        if op == 0x12 and "inq" in c:
            alloc = un(cdb[3:5])
            if cdb[1] & 1:
                return self.limit(vpd_page(c["inq"], cdb[2])[0], alloc)
            if cdb[2]:
                raise Check(*BAD_CDB)
            return self.limit(standard_inquiry(c["inq"], alloc)[0], alloc)
        if op == 0x5E and self.pr:
            if self.pr.legacy and self.pr.legacy[0] != nexus:
                raise Conflict()
            return self.pr.encode_in(cdb[1] & 0x1f)[:un(cdb[7:9])]
        if op == 0x5F and self.pr:
            self.pr.out(nexus, decode_pr_out(cdb, data))
            return b""
        if op in (0x16, 0x56, 0x17, 0x57) and self.pr:
            m = decode_reserve(cdb, data)
            if m.get("malformed"):
                raise Check(*BAD_CDB)
            (self.pr.reserve if op in (0x16, 0x56) else self.pr.unreserve)(nexus, m)
            return b""
        if op == 0x25 and "cap" in c:
            if un(cdb[2:6]) and not cdb[8] & 1:
                raise Check(*BAD_CDB)
            return capacity10(c["cap"])[0]
        if op == 0x9E and cdb[1] & 0x1f == 0x10 and "cap" in c:
            if un(cdb[2:10]) and not cdb[14] & 1:
                raise Check(*BAD_CDB)
            return capacity16(c["cap"])[0][:un(cdb[10:14])]
        if op == 0xA0 and "luns" in c:
            select = "%d" % cdb[2]
            if select not in c["luns"] or un(cdb[6:10]) < 16 and c.get("strict_luns"):
                raise Check(*BAD_CDB)
            return report_luns(c["luns"][select])[0][:un(cdb[6:10])]
        if op == 0xA3 and cdb[1] & 0x1f == 0x0A and "tpg" in c:
            if cdb[1] >> 5 > 1:
                raise Check(*BAD_CDB)
            return port_groups(c["tpg"], cdb[1] >> 5)[0][:un(cdb[6:10])]
        if op == 0x84 and cdb[1] & 0x1f == 3 and "copy" in c:
            return copy_limits(c["copy"])[0][:un(cdb[10:14])]
        if op == 0x4D and "logs" in c:
            key = "%02x/%02x" % (cdb[2] & 0x3f, cdb[3])
            if key not in c["logs"] or cdb[1] & 1:
                raise Check(*BAD_CDB)
            return self.log(key, cdb[2] >> 6)[:un(cdb[7:9])]
        if op == 0x1C and "ses" in c:
            if not cdb[1] & 1:
                raise Check(*BAD_CDB)
            return self.limit(ses_page(c["ses"], cdb[2])[0], un(cdb[3:5]))
        raise Check(*BAD_OPCODE)

    def limit(self, data, alloc):
        """Some devices transfer more than the page's length says."""
        return (data + bytes.fromhex(self.cfg.get("slack", "")))[:alloc]

    def log(self, key, pc=0):
        body = bytes((b + pc * 0x35) & 0xff for b in bytes.fromhex(self.cfg["logs"][key]))
        page, sub = int(key[:2], 16), int(key[3:], 16)
        return bytes([page | (0x40 if sub else 0), sub]) + be(2, len(body)) + body

    def power_loss(self):
        if self.blocks:
            self.blocks.power_loss()
        if self.pr:
            self.pr.power_loss()
