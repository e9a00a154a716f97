"""Random declarations: every feature of the declaration language that the documentation defines."""
import random
from decl import *

NUMS = [8, 16, 32, 64, 128]
EDGE = [1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 48, 56, 63, 64, 65, 127, 128]


def rnd_bits(r, w):
    """a length for a w bit number"""
    return r.choice([w, r.randint(1, w), r.randint(1, w), min(w, r.choice(EDGE))])


def rnd_nm(r):
    """what the declaration calls things (decl.py)"""
    return r.choice([0, r.getrandbits(12), r.getrandbits(13)])


def rnd_en(r):
    return r.choice(["-", "-", "-", "le", "le", "be", "be", "ne"])


def rnd_field(r, depth=1, pool=(), arrays=True, nums=NUMS, big=False, only=None):
    """a random field together with its size in bits"""
    k, sp, e = r.random(), r.getrandbits(6), rnd_en(r)
    if only:
        k = {"num": .1, "bool": .45, "float": .55, "char": .6, "array": .7, "nest": .95}[only]
    if k < .42:
        w = r.choice(nums)
        n = rnd_bits(r, w)
        ty = U(w) if r.random() < .55 else I(w)
        return F(ty, -1 if n == w and r.random() < .5 else n, en=e, sp=sp), n
    if k < .50:
        return F(BO, r.choice([-1, -1, 1]), sp=sp), 1
    if k < .57:
        w = r.choice([32, 64])
        return F(FL(w), r.choice([-1, w]), en=e, sp=sp), w
    if k < .63:
        n = r.choice([32, 32, 21, 24, 16, r.randint(1, 32)])
        return F(CH, n, en=e, sp=sp), n
    if k < .84 and arrays:
        cnt = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12] if not big else [8, 17, 33, 40, 65])
        q = r.random()
        if q < .12:
            return F(ARR(BO, cnt), el=r.choice([0, 1]), sp=sp), cnt
        if q < .22:
            cnt = min(cnt, 5)
            if r.random() < .5:
                w = r.choice([32, 64])
                return F(ARR(FL(w), cnt), el=r.choice([0, w]), bl=0, en=e, sp=sp), w * cnt
            n = r.choice([32, 21, r.randint(1, 32)])
            return F(ARR(CH, cnt), el=n, en=e, sp=sp), n * cnt
        w = r.choice([8, 8, 16, 32, 64] if not big else [8, 8, 16])
        if w > 16:
            cnt = min(cnt, 4)
        ty = r.choice([U, U, I])(w)
        if q < .5:
            n = rnd_bits(r, w)
            return F(ARR(ty, cnt), el=n, en=e, sp=sp), n * cnt
        if q < .6:
            return F(ARR(ty, cnt), en=e, sp=sp), w * cnt
        if q < .75:
            n = rnd_bits(r, w)
            return F(ARR(ty, cnt), n * cnt, en=e, sp=sp), n * cnt
        if q < .8:                                  # length said twice, consistently
            n = rnd_bits(r, w)
            return F(ARR(ty, cnt), n * cnt, en=e, el=n, sp=sp & ~16), n * cnt
        n = w * (cnt - 1) + rnd_bits(r, w)
        return F(ARR(ty, cnt), bl=n, en=e, sp=sp), n
    if pool and depth > 0:
        d, n, kind = r.choice(pool)
        if kind == "prim":
            m = r.randint(1, 8)
            if r.random() < .3:
                cnt = r.randint(1, 4)
                return F(ARR(PE(d), cnt), el=m, prim=8, en=e, sp=sp), m * cnt
            m = r.choice([m, m, -1])
            return F(PE(d), m, prim=8, en=e, sp=sp), 8 if m < 0 else m
        if r.random() < .3:
            cnt = r.randint(1, 4)
            if n % 8 == 0 and r.random() < .4:
                return F(ARR(ST(d), cnt), ss=n // 8, sp=sp), n * cnt
            return F(ARR(ST(d), cnt), el=n, sp=sp), n * cnt
        if n % 8 == 0 and r.random() < .4:
            return F(ST(d), ss=n // 8, sp=sp), n
        return F(ST(d), n, sp=sp), n
    n = r.randint(1, 8)
    return F(r.choice([U, I])(8), n, en=e, sp=sp), n


def nbits(f):
    """the size of a field built above (for placing and filling only; the spec decides for itself)"""
    if f["bs"] >= 0: return f["be"] - f["bs"]
    if f["len"] >= 0: return f["len"]
    e = f["ty"]["of"] if f["ty"]["k"] == "a" else f["ty"]
    one = f["al"] if f["am"] == "el" else 8 * f["ss"] if f["ss"] >= 0 else f["prim"] or {"c": 32, "b": 1}.get(e["k"]) or e["w"]
    return f["al"] if f["am"] == "bl" else one * f["ty"]["n"] if f["ty"]["k"] == "a" else one


def place(r, fs, base=0):
    """the same fields, placed explicitly with `bits` (and shuffled, alone or in runs); a field that
    still follows the one declared before it may keep its implicit place"""
    cur, out, plain = base, [], {}
    for f in fs:
        n = nbits(f)
        plain[id(f)] = dict(f)
        if not f["cap"]:
            f["bs"], f["be"] = cur, cur + n
            if r.random() < .6:
                f["len"] = -1
            if f["len"] >= 0:
                f["sp"] &= ~48
            if f["ty"]["k"] == "a" or f["len"] >= 0:
                f["sp"] &= ~16
            cur += n
        out.append(f)
    head = [f for f in out if f["cap"]]
    rest = [f for f in out if not f["cap"]]
    if r.random() < .5:
        r.shuffle(rest)
    else:
        runs = []
        for f in rest:
            if runs and r.random() < .6:
                runs[-1].append(f)
            else:
                runs.append([f])
        r.shuffle(runs)
        rest = [f for run in runs for f in run]
    end, keep = base, r.random()
    for f in rest:
        here = f["bs"]
        nxt = f["be"]
        if here == end and r.random() < keep:
            f.update(plain[id(f)])
        end = nxt
    return head + rest


def extras(r, fs, base, total, pool=()):
    """adds a redundant field over existing bits"""
    if total - base < 2:
        return fs
    a = r.randrange(base, total - 1)
    n = min(total - a, r.randint(1, 32))
    w = r.choice([x for x in NUMS if x >= n])
    f = F(r.choice([U, I])(w), -1, bits=(a, a + n), en=rnd_en(r), res="red", sp=r.getrandbits(6))
    if r.random() < .4:                            # of any type
        g, n = rnd_field(r, 1, pool)
        if n <= total - base:
            a = r.randrange(base, total - n + 1)
            f = dict(g, len=-1, bs=a, be=a + n, res="red", sp=g["sp"] & ~16 if g["ty"]["k"] == "a" else g["sp"])
    fs = list(fs)
    fs.insert(r.randint(1, len(fs)), f)
    return fs


def rnd_struct(r, depth=1, pool=(), maxbits=160, nf=None, lsb0=None, rev=None, fill=None, feat=0.25, **kw):
    """feat: probability of each of the rarer features"""
    nf = nf or r.choice([1, 2, 3, 3, 4, 5, 6, 6, 8, 11])
    fs, tot = [], 0
    while len(fs) < nf:
        f, n = rnd_field(r, depth, pool, **kw)
        if tot + n > maxbits and fs:
            break
        fs.append(f)
        tot += n
    if r.random() < feat:
        for f in fs:
            if r.random() < .4 and reservable(f):
                f["res"] = r.choice(["reserve", "reserve", "ro"])
    if r.random() < feat:
        fs = place(r, fs)
        if fs[-1]["be"] == tot or True:
            pass
    if r.random() < feat * .6:
        fs = extras(r, fs, 0, tot, pool)
    rev = r.random() < .3 if rev is None else rev
    lsb0 = r.random() < .3 if lsb0 is None else lsb0
    at = AT(r.choice(["-", "le", "be", "be", "ne"]), lsb0, rev)
    if fill if fill is not None else r.random() < .15:
        if tot % 8 == 0 and r.random() < .3:
            at["enf"] = "full"
        elif r.random() < .3:
            at["enf"], at["enfn"] = "bits", tot
        at["fill"] = (tot + 7) // 8 + r.choice([0, 1, 2, 2, 5])
        tot = 8 * at["fill"]
    elif tot % 8 == 0 and r.random() < .3:
        at["enf"] = "full"
    elif r.random() < .3:
        at["enf"], at["enfn"] = "bits", tot
    return dict(STRUCT(fs, at, sp=r.getrandbits(7) & (~64 if lsb0 else 127)), nm=rnd_nm(r)), tot


def reservable(f):
    """types with a Default of their own (arrays only up to 32 elements)"""
    t = f["ty"]
    if t["k"] == "a":
        return t["n"] <= 32 and t["of"]["k"] in "uifcb"
    return t["k"] in "uifcb"


def rnd_enum(r, depth=1, pool=(), maxbits=64, lsb0=None, rev=None, wide=.15, feat=.2, nv=None, idb=None, **kw):
    idb = idb or (r.choice([17, 20, 24, 31, 32, 33, 40, 47, 48, 56, 63, 64, 64, 65, 66, 72, 80, 96, 100, 120, 127, 128, 128]) if r.random() < wide else r.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 11, 12, 16]))
    nv = min(nv or r.choice([1, 2, 3, 3, 4, 5, 5, 7, 12]), 1 << min(idb, 10))
    vs, sizes = [], []
    inv = r.randint(1, nv) if r.random() < .5 else 0
    idw = [w for w in NUMS if w >= idb][0]
    top = (1 << idb) - 1
    explicit = r.random() < .6
    style = r.random()
    used = set()
    for v in range(1, nv + 1):
        fs, tot = [], 0
        tup = r.random() < .25
        cap = (v == inv or (inv == 0 and v == nv)) and r.random() < .5
        for _ in range(r.randint(0, 3)):
            f, n = rnd_field(r, depth, pool, **kw)
            if tot + n > maxbits:
                break
            fs.append(f)
            tot += n
        if r.random() < feat:
            for f in fs:
                if r.random() < .4 and reservable(f):
                    f["res"] = r.choice(["reserve", "ro"])
        if fs and r.random() < feat:
            fs = place(r, fs, idb)
        if fs and r.random() < feat * .7:
            fs = extras(r, fs, idb, idb + tot, pool)
        if cap:
            fs = [F(U(idw), r.choice([-1, -1, idb]), cap=True)] + fs
        if tup and not fs:
            tup = False
        at = AT(r.choice(["-", "-", "le", "be"]))
        size = idb + tot
        if r.random() < feat * .5:
            at["fill"] = (size + 7) // 8 + r.randint(0, 1)
            size = 8 * at["fill"]
        elif r.random() < feat * .5:
            at["enf"], at["enfn"] = "bits", idb + tot
        i = None
        if explicit and r.random() < .7:
            for _ in range(20):
                i = r.choice([r.randint(0, min(top, 9)), r.randint(0, top), top, 0, 1 << r.randrange(idb), top ^ 1 << r.randrange(idb)])
                if i not in used:
                    break
            else:
                i = None
            if i is not None:
                used.add(i)
        vs.append(VAR(fs, i, v == inv, at, tup, idattr=idb > 64 or (r.random() < .4 if style < .7 else True)))
        sizes.append(size)
    g = 0
    for v in vs:
        if v["auto"]:
            while g in used:
                g += 1
            used.add(g)
            if g > top:
                return rnd_enum(r, depth, pool, maxbits, lsb0, rev, wide, feat, nv, idb, **kw)
    if any(not v["auto"] and not v["idattr"] for v in vs) and not rust_disc_ok(vs, lambda v: v["idattr"], (1 << min(64, idw)) - 1):
        return rnd_enum(r, depth, pool, maxbits, lsb0, rev, wide, feat, nv, idb, **kw)
    big = max(sizes)
    d = ENUM(vs, idb, at=AT(r.choice(["-", "le", "be", "be"]), r.random() < .25 if lsb0 is None else lsb0,
                            r.random() < .25 if rev is None else rev), sp=r.getrandbits(7) & ~64)
    d["nm"] = rnd_nm(r)
    if r.random() < .25:
        d["payload"] = big - idb + r.choice([0, 0, 1, 8])
    elif r.random() < .25:
        d["total"] = big + r.choice([0, 0, 1, 8])
    return d, big


def rust_disc_ok(vs, skip, top=255):
    """rustc's own rule: explicit discriminants as given, others one more than the previous, all distinct"""
    prev, seen = -1, set()
    for v in vs:
        prev = v["id"] if not v["auto"] and not skip(v) else prev + 1
        if prev in seen or prev < 0 or prev > top:
            return False
        seen.add(prev)
    return True


def rnd_prim(r, nv=None, fullish=False):
    nv = nv or r.choice([1, 2, 3, 4, 5, 6, 9, 20])
    ids = r.sample(range(256), nv) if r.random() < .6 else r.sample(range(nv + 6), nv)
    q = r.random()
    vs = [PVAR(ids[v] if r.random() < .4 else None) for v in range(nv)]
    if q < .3:
        vs[r.randrange(nv)]["inv"] = True
    elif q < .6:
        i = r.choice([nv - 1, r.randrange(nv)])
        vs[i] = PVAR(prim=True, named=r.random() < .5)
    if not rust_disc_ok(vs, lambda v: False):
        return rnd_prim(r, nv)
    if not any(0 <= v["id"] < 256 for v in vs):
        return rnd_prim(r, nv)
    return dict(PRIM(vs, peq=r.random() < .6, u8=r.random() < .7, sp=r.getrandbits(1)), nm=rnd_nm(r))


def rnd_buf(r, n, how=None):
    how = how or r.choice(["r", "r", "r", "0", "1", "s", "s"])
    if how == "r":
        return bytes(r.getrandbits(8) for _ in range(n))
    if how == "0":
        return bytes(n)
    if how == "1":
        return b"\xff" * n
    b = bytearray(n) if r.random() < .5 else bytearray(b"\xff" * n)
    for _ in range(r.randint(1, 3)):
        if n:
            b[r.randrange(n)] ^= 1 << r.randrange(8)
    return bytes(b)


def mixture(r, n, structs=.6, enums=.25, prims=.05, nest=.3, **kw):
    """n random declarations, some of which later ones nest"""
    ds, pool = [], []
    for _ in range(n):
        q = r.random()
        if q < structs:
            d, b = rnd_struct(r, 1, pool, **kw)
            if r.random() < nest and b <= 72:
                pool.append((d, b, "s"))
        elif q < structs + enums:
            d, b = rnd_enum(r, 1, pool)
            if r.random() < nest and b <= 72:
                pool.append((d, b, "s"))
        elif q < structs + enums + prims:
            d = rnd_prim(r)
            pool.append((d, 8, "prim"))
        else:
            d, b = rnd_struct(r, 1, pool, maxbits=600, nf=r.randint(1, 4), big=True)
        ds.append(d)
    return ds
