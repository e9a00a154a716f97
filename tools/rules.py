"""Declarations near the border between accepted and rejected: one rule broken, or just not broken.

The specification decides which side each one is on; rustc must agree."""
import copy
from decl import *
from corpus import *
import grid

# attribute texts that are malformed or unknown, whatever the field is (the generator adds them to a valid field)
BAD_FIELD = ["bit_len = 3", "element_bits = 4", "endian = \"le\"", "bits = \"0-4\"", "bits = \"a..4\"", "bits = \"0..b\"", "bits = \"0\"", "bits = 4",
             "bit_length = \"3\"", "byte_length = \"1\"", "endianness = \"up\"", "endianness = \"LE\"", "endianness = \"\"",
             "overlapping_bits = \"2\"", "struct_size = \"1\"", "enum_primitive = \"i8\"", "enum_primitive = \"u7\"", "enum_primitive = 8",
             "element_bit_length = \"3\"", "element_byte_length = \"1\"", "block_bit_length = \"3\"", "block_byte_length = \"1\""]
BAD_STRUCT = ["read_from = \"lsb1\"", "read_from = \"LSB0\"", "read_from = 0", "default_endianness = 1", "default_endianness = \"up\"", "default_endianness = \"BE\"",
              "enforce_bits = \"3\"", "enforce_bytes = \"3\"", "fill_bytes = \"3\""]
BAD_ENUM = BAD_STRUCT + ["id_bit_length = 129", "id_byte_length = 17"]
BAD_VARIANT = ["variant_id = \"1\"", "read_from = \"no\"", "default_endianness = \"\"", "enforce_bits = \"1\"", "fill_bytes = \"1\""]


def small(r): return rnd_struct(r, 0, (), maxbits=60, nf=r.randint(1, 4), nums=[8, 16, 32], feat=0, fill=False, lsb0=False)[0]


def sized(r, kinds="uib"):
    """plain fields of explicit size"""
    fs = []
    for _ in range(r.randint(2, 5)):
        k = r.choice(kinds)
        w = r.choice([8, 16, 32, 64])
        fs.append(F(BO, r.choice([-1, 1]), sp=r.getrandbits(6)) if k == "b" else F({"u": U, "i": I}[k](w), r.randint(1, w), sp=r.getrandbits(6)))
    return fs, [nbits(f) for f in fs]


def at(r, **kw): return AT(r.choice(["-", "le", "be"]), kw.pop("lsb0", r.random() < .2), kw.pop("rev", r.random() < .2), **kw)


def m_overlap(r):
    """fields placed with `bits`, one moved over another by some bits (or exactly next to it)"""
    fs, ns = sized(r)
    cur = 0
    for f, n in zip(fs, ns):
        f["bs"], f["be"], f["len"] = cur, cur + n, -1
        cur += n
    i = r.randrange(1, len(fs))
    over = r.choice([0, 1, 1, 2, ns[i], fs[i]["bs"]])
    over = min(over, fs[i]["bs"])
    d = over
    for f in fs[i:]:
        f["bs"] -= d
        f["be"] -= d
    q = r.random()
    if q < .2:                                     # the later ones stay where they were
        for f in fs[i + 1:]:
            f["bs"] += d
            f["be"] += d
        if i + 1 < len(fs) and d:
            return m_overlap(r)                    # would leave a hole: unspecified
    if over and r.random() < .3 and over < ns[i] and over <= ns[i - 1]:
        fs[i]["ov"] = over                         # declared, so allowed
    elif over and r.random() < .15:
        fs[i]["res"] = "red"
        for f in fs[i + 1:]:
            f["bs"] += d - ns[i]
            f["be"] += d - ns[i]
    if any(f["res"] == "red" and f["be"] > sum(g["be"] - g["bs"] for g in fs if g["res"] != "red") for f in fs):
        return m_overlap(r)                        # a redundant field past the end: unspecified
    if r.random() < .3 and not any(f["ov"] or f["res"] == "red" for f in fs):
        r.shuffle(fs)
    return STRUCT(fs, at(r, lsb0=False), sp=r.getrandbits(6))


def m_enforce(r):
    fs, ns = sized(r)
    tot = sum(ns)
    q = r.random()
    if q < .45:
        if r.random() < .6 and tot % 8:
            for f in fs:
                if f["ty"]["k"] in "ui" and f["len"] >= 0:
                    room = f["ty"]["w"] - f["len"]
                    add = min(room, (-tot) % 8)
                    f["len"] += add
                    tot += add
        a = at(r, enf="full")
    else:
        a = at(r, enf="bits", enfn=max(1, tot + r.choice([0, 0, 0, 1, -1, 8, -8, 7])))
    if r.random() < .3:
        a["fill"] = (tot + 7) // 8 + r.randint(0, 2)
    return STRUCT(fs, a, sp=r.getrandbits(6))


def m_fill(r):
    fs, ns = sized(r)
    tot = sum(ns)
    return STRUCT(fs, at(r, fill=max(1, (tot + 7) // 8 + r.choice([-2, -1, -1, 0, 0, 1, 3]))), sp=r.getrandbits(6))


def m_float(r):
    w = r.choice([32, 64])
    q = r.random()
    if q < .4:
        f = F(FL(w), r.choice([w, w, w - 1, w // 2, w + 1, 16, w - 8, w + 8, 64, 32]), sp=r.getrandbits(6))
    elif q < .7:
        f = F(ARR(FL(w), r.randint(1, 4)), el=r.choice([w, w, w - 1, 16, w - 8, 32, 64]), sp=r.getrandbits(6))
    else:
        c = r.randint(1, 4)
        f = F(ARR(FL(w), c), r.choice([w * c, w * c, (w - 8) * c, 32 * c, 16 * c]), sp=r.getrandbits(6))
    pre = [F(U(8), r.randint(1, 8))] if r.random() < .6 else []
    return STRUCT(pre + [f] + ([F(BO)] if r.random() < .5 else []), at(r), sp=r.getrandbits(6))


def m_array(r):
    c = r.randint(2, 5)
    w = r.choice([8, 16, 32])
    ty = r.choice([U, I])(w)
    q = r.random()
    if q < .45:
        n = r.randint(1, w)
        f = F(ARR(ty, c), n * c + r.choice([0, 0, 1, -1, 2]), sp=r.getrandbits(6))
    elif q < .75:
        n = r.randint(1, w)
        f = F(ARR(ty, c), n * c + r.choice([0, 0, 1, -1, n]), el=n, sp=r.getrandbits(6) & ~16)
    else:
        f = F(ARR(ty, c), bl=max(1, w * (c - 1) + r.choice([1, 2, w - 1, w, 0, -1, w + 1, 2 * w])), sp=r.getrandbits(6))
    if f["len"] == 0 or f["len"] < -1:
        return m_array(r)
    pre = [F(U(8), r.randint(1, 8))] if r.random() < .6 else []
    return STRUCT(pre + [f], at(r), sp=r.getrandbits(6))


def m_length(r):
    """bits and bit_length together"""
    w = r.choice([8, 16, 32, 64])
    n = r.randint(1, w)
    s = 0
    fs = []
    if r.random() < .6:
        s = r.randint(1, 12)
        fs.append(F(U(16), s))
    f = F(r.choice([U, I])(w), max(1, min(w, n + r.choice([0, 0, 1, -1]))), bits=(s, s + n), sp=r.getrandbits(6) & ~16)
    return STRUCT(fs + [f], at(r), sp=r.getrandbits(6))


def m_width(r):
    """a field longer than its type"""
    w = r.choice([8, 16, 32, 64])
    q = r.random()
    if q < .6:
        f = F(r.choice([U, I])(w), w + r.choice([0, 0, 1, 2, 8, 9]), en=r.choice(["-", "le", "be"]), sp=r.getrandbits(6))
    elif q < .8:
        c = r.randint(1, 3)
        f = F(ARR(r.choice([U, I])(w), c), el=w + r.choice([0, 0, 1, 8]), en=r.choice(["-", "le", "be"]), sp=r.getrandbits(6))
    else:
        f = F(BO, r.choice([1, 1, 1]), sp=r.getrandbits(6))
    pre = [F(U(8), r.randint(1, 8))] if r.random() < .6 else []
    return STRUCT(pre + [f], at(r), sp=r.getrandbits(6))


def m_empty(r):
    """fields, elements or blocks without bits, ranges that end before they start, more overlap than field (or just not so)"""
    q = r.choice(["len", "bits", "el", "arr", "none", "block", "back", "back", "nested", "over", "over", "over"])
    sp, w, c = r.getrandbits(6), r.choice([8, 16, 32]), r.randint(1, 6)
    ty = r.choice([U, I])(w)
    pre = [F(U(8), r.randint(1, 8))] if r.random() < .6 else []
    cur = sum(nbits(f) for f in pre)
    if q == "len":
        f = F(r.choice([ty, ty, BO, U(8), CH]), r.choice([0, 0, 1]), sp=sp & ~16)
    elif q == "bits":
        f = F(r.choice([ty, BO]), bits=(cur, cur + r.choice([0, 0, 1])), sp=sp)
    elif q == "el":
        f = F(ARR(ty, c), sp=sp & ~16)
        f["am"], f["al"] = "el", r.choice([0, 0, 1])
    elif q == "arr":
        f = F(ARR(ty, c), r.choice([0, 0, c]), sp=sp & ~16)
    elif q == "none":
        f = F(ARR(r.choice([ty, BO]), r.choice([0, 0, 1])), sp=sp & ~16)
    elif q == "block":
        f = F(ARR(ty, c), bl=max(1, w * r.randint(max(0, c - 2), c) + r.choice([0, 0, 1])), sp=sp & ~16)
    elif q == "back":
        f = F(r.choice([ty, BO, ARR(U(8), 2)]), bits=(cur + r.randint(0, 5), max(0, cur - r.randint(1, 5))), sp=sp)
        f["be"] = min(f["be"], f["bs"])
    elif q == "nested":
        inner = STRUCT([F(U(8), r.randint(1, 8))])
        a, b = r.choice([(cur + 3, cur), (cur + 9, cur + 1), (cur, cur), (cur, cur + 8)])
        f = F(r.choice([ST(inner), ARR(ST(inner), 1)]), bits=(a, b), ss=r.choice([-1, 1]), sp=sp) if r.random() < .6 else F(ST(inner), 0, sp=sp & ~16)
        if f["ty"]["k"] == "a" and f["be"] > f["bs"]:
            f["ss"] = 1
    else:
        f = F(ty, n := r.randint(1, w), ov=0, sp=sp)
        if pre and r.random() < .4:
            k = r.randint(1, min(n, cur))
            f["bs"], f["be"], f["len"], f["ov"] = cur - k, cur - k + n, -1, k
        else:
            f["ov"] = n + r.choice([1, 1, 2, 8, 100, cur + 1])
    post = [F(BO)] if r.random() < .3 and q != "bits" and f["bs"] < 0 and not f["ov"] else []
    if r.random() < .15 and f["ty"]["k"] in "uib" and not f["ov"]:
        f["res"] = "reserve"
    return STRUCT(pre + [f] + post, at(r, lsb0=False), sp=r.getrandbits(6))


def m_bad_field(r, text=None):
    d = small(r)
    f = r.choice(d["fields"])
    f["bad"] = text or r.choice(BAD_FIELD)
    f["sp"] |= 32
    return d


def m_bad_struct(r, text=None):
    d = small(r)
    d["bad"] = text or r.choice(BAD_STRUCT)
    d["sp"] |= 32
    return d


def m_enum(r):
    """an enum with one thing changed"""
    d, big = rnd_enum(r, 0, (), maxbits=24, feat=0, lsb0=False, rev=False, nv=r.randint(2, 5))
    d["payload"] = d["total"] = -1
    idb = d["idb"]
    q = r.choice(["payload", "total", "noid", "small", "dup", "two", "cap2", "capty", "capsigned", "vfill", "venf", "bad", "vbad", "sum", "fits", "payload", "total", "small"])
    vs = d["variants"]
    idw = [w for w in NUMS if w >= idb][0]
    if q == "payload":
        d["payload"] = max(0, big - idb + r.choice([0, 0, -1, -1, 1, -2]))
    elif q == "total":
        d["total"] = max(idb, big + r.choice([0, 0, -1, -1, 1, -2]))
    elif q == "sum":
        d["payload"] = big - idb + r.choice([0, 0, 3])
        d["total"] = d["payload"] + idb + r.choice([0, 0, 1, 5])
        if r.random() < .5:
            d["idb"] = -1
            if d["total"] - d["payload"] != idb:
                return m_enum(r)
    elif q == "noid":
        d["idb"] = -1
        if r.random() < .5:
            d["payload"] = big - idb
        for v in vs:
            v["idattr"] = True
            v["fields"] = [f for f in v["fields"] if not f["cap"]]
    elif q in ("small", "fits"):
        for v in vs:
            v["fields"] = [f for f in v["fields"] if not f["cap"]]
            v["idattr"] = True
        w = r.randint(1, 9)
        d["idb"] = w
        for f in (f for v in vs for f in v["fields"]):
            f["bs"] = -1
        if any(nbits(f) <= 0 for v in vs for f in v["fields"]):
            return m_enum(r)
        for v in vs:
            v["auto"], v["id"] = True, 0
        v = r.choice(vs)
        v["auto"], v["id"] = False, r.choice([(1 << w) - 1, (1 << w) - 1, 1 << w, (1 << w) + 1, 1 << (w + 3), len(vs)])
        if q == "fits" and r.random() < .5:
            v["auto"], v["id"] = True, 0
    elif q == "dup":
        a, b = r.sample(vs, 2)
        for v in (a, b):
            v["auto"], v["idattr"] = False, True
        a["id"] = r.randint(0, (1 << idb) - 1)
        b["id"] = a["id"] if r.random() < .7 else a["id"] ^ 1
        for v in vs:
            v["idattr"] = True
    elif q == "two":
        for v in r.sample(vs, min(len(vs), r.choice([1, 2, 2, 3]))):
            v["inv"] = True
    elif q == "cap2":
        v = r.choice(vs)
        v["fields"] = [f for f in v["fields"] if not f["cap"]]
        v["tuple"] = False
        v["fields"].insert(r.randint(0, len(v["fields"])), F(U(idw), cap=True))
    elif q == "capty":
        v = r.choice(vs)
        v["fields"] = [F(U(r.choice([w for w in NUMS[:4] if w >= idb or True])), r.choice([-1, -1]), cap=True)] + [f for f in v["fields"] if not f["cap"]]
        v["tuple"] = False
    elif q == "capsigned":
        v = r.choice(vs)
        v["fields"] = [F(r.choice([I, U])(idw), cap=True)] + [f for f in v["fields"] if not f["cap"]]
        v["tuple"] = False
    elif q == "vfill":
        v = r.choice(vs)
        if v["at"]["enf"] != "none":
            return m_enum(r)
        size = idb + sum(nbits(f) for f in v["fields"] if not f["cap"])
        v["at"]["fill"] = max(1, (size + 7) // 8 + r.choice([0, 0, -1, 1]))
    elif q == "venf":
        v = r.choice(vs)
        size = idb + sum(nbits(f) for f in v["fields"] if not f["cap"])
        v["at"]["enf"], v["at"]["enfn"] = "bits", max(1, size + r.choice([0, 0, 1, -1]))
    elif q == "bad":
        d["bad"] = r.choice(BAD_ENUM)
        d["sp"] |= 32
    elif q == "vbad":
        r.choice(vs)["bad"] = r.choice(BAD_VARIANT)
        d["sp"] |= 32
    if any(not v["auto"] and not v["idattr"] for v in vs):
        w = d["idb"] if d["idb"] >= 0 else 8
        if not rust_disc_ok(vs, lambda v: v["idattr"], (1 << min(64, [x for x in NUMS if x >= min(w, 128)][0])) - 1):
            return m_enum(r)
    return d


def m_struct_misc(r):
    q = r.random()
    if q < .15:
        return STRUCT([], AT())
    d = small(r)
    if q < .4:
        f = F(U(8), cap=True)
        d["fields"].insert(r.randint(0, len(d["fields"])), f)
        d["at"]["enf"] = "none"
    return d


MUT = [m_overlap, m_enforce, m_fill, m_float, m_array, m_length, m_width, m_empty, m_bad_field, m_bad_struct, m_enum, m_enum, m_enum, m_struct_misc]


def border(r, count):
    out = [MUT[i % len(MUT)](r) for i in range(count)]
    out += [m_bad_field(r, t) for t in BAD_FIELD] + [m_bad_struct(r, t) for t in BAD_STRUCT]
    return out


def id_rules(r, count):
    """ids that collide, do not fit, or just fit"""
    out = []
    while len(out) < count:
        w = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 31, 32, 33, 63, 64])
        nv = r.randint(1, min(9, (1 << w) + 1))
        vs = [VAR(idattr=True) for _ in range(nv)]
        for v in vs:
            if r.random() < .4:
                v["auto"], v["id"] = False, r.choice([r.randint(0, nv), r.randint(0, nv), (1 << w) - 1, r.getrandbits(w), 1 << w if r.random() < .3 else 0])
        if r.random() < .4:
            r.choice(vs)["inv"] = True
        out.append(ENUM(vs, w))
    return out
