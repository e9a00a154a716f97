"""For every property: which declarations to generate and which calls to make on them.

The drivers choose arguments only; what a call must do is decided by the specification."""
import random
from decl import *
from corpus import *
from engine import Ev
from harness import frefs, writable
import grid, rules

PRE = {"struct", "enum"}


class X:
    """one declaration with its layout according to the spec"""

    def __init__(self, c, n, lay, salt):
        self.c, self.n, self.d, self.l = c, n, c.decls[n - 1], lay[n - 1]
        self.r = random.Random(f"{salt}|{c.rust(self.d)}")
        self.N, self.kind, self.out, self.lay = self.l["bytes"], self.d["kind"], [], lay

    def fields(self):
        """(variant, index, field, what the spec says about it)"""
        if self.kind == "struct":
            return [(0, i + 1, f, self.l["fields"][i]) for i, f in enumerate(self.d["fields"])]
        if self.kind == "enum":
            return [(v + 1, i + 1, f, self.l["variants"][v]["fields"][i]) for v, var in enumerate(self.d["variants"])
                    for i, f in enumerate(var["fields"])]
        return []

    def wfields(self): return [x for x in self.fields() if writable(self.d, x[0], x[1])]

    def ev(self, op, v=0, f=0, x=None, y=None):
        e = Ev(op, self.n, v, f, x, y)
        self.out.append(e)
        return e

    def load(self, how=None, n=None, buf=None):
        b = rnd_buf(self.r, self.N if n is None else n, how) if buf is None else buf
        self.ev("load", y=b)
        return b

    def longs(self, need):
        """much longer buffers, whose lengths look short when they are cut to a byte or two; almost empty behind the value"""
        r, out = self.r, []
        for base, p in ((256, .5), (512, .1), (65536, .06)):
            if r.random() < p:
                b = bytearray(base + r.choice([0, 0, max(0, need - 1), r.randint(0, need)]))
                head = min(len(b), self.N + 2)
                b[:head] = rnd_buf(r, head, "r")
                b[-1] ^= 1 << r.randrange(8)
                out.append(bytes(b))
        return out

    # ---- values
    def fit(self, sh, how="rand"):
        """a value that survives a round trip, for a shape the spec gave"""
        r, t = self.r, sh["t"]
        if t == "L":
            n, w, k = sh["n"], sh["w"], sh["k"]
            while True:
                x = {"zero": 0, "ones": (1 << n) - 1, "min": 1 << (n - 1), "max": (1 << (n - 1)) - 1 if k == "i" else (1 << n) - 1}.get(how)
                if x is None:
                    q = r.random()
                    x = 1 << r.randrange(n) if q < .15 else ((1 << n) - 1) ^ (1 << r.randrange(n)) if q < .3 else r.getrandbits(n)
                for b in sh["miss"]:
                    x &= ~(1 << b)
                if k == "c":
                    if x > 0x10ffff or 0xd800 <= x < 0xe000:
                        if how != "rand":
                            return min(0x10ffff, x) if x > 0x10ffff else 0xd7ff & x
                        how2 = x % 0x110000
                        x = how2 if not 0xd800 <= how2 < 0xe000 else 0x41 & ((1 << n) - 1)
                    return x
                if k == "i" and x >> (n - 1) & 1:
                    x |= ((1 << w) - 1) ^ ((1 << n) - 1)
                return x
        if t == "P":
            m = (1 << sh["n"]) - 1
            ids = [sum(1 << b for b in i) for i in sh["ids"]]
            ok = [("P", v + 1, 0) for v, i in enumerate(ids) if i <= m and not (sh["carries"] and v + 1 == sh["catch"])]
            if sh["carries"]:
                plain = {i for v, i in enumerate(ids) if v + 1 != sh["catch"]}
                free = [x for x in range(m + 1) if x not in plain]
                if free:
                    ok.append(("P", sh["catch"], r.choice(free)))
            return r.choice(ok) if ok else None
        if t == "A":
            return all_or_none([self.fit(e, how) for e in sh["els"]])
        if t == "S":
            return all_or_none([self.fit(e, how) for e in sh["fs"]])
        return None

    def fit_enum(self, lay_variants, v, how, n):
        """fit value of variant v (1-based) of an enum with these variants"""
        var = lay_variants[v - 1]
        vals = []
        ids = {sum(1 << b for b in x["id"]) for i, x in enumerate(lay_variants)}
        own = sum(1 << b for b in var["id"])
        for j, f in enumerate(var["fields"]):
            if j == 0 and var["cap"]:
                free = [own] + [x for x in (self.r.getrandbits(n) for _ in range(20)) if x not in ids]
                vals.append(self.r.choice(free))
            else:
                vals.append(self.fit(f["shape"], how))
        return None if any(x is None for x in vals) else ("E", v, vals)

    def fits(self, how="rand", v=None):
        if self.kind == "struct":
            return all_or_none([self.fit(f["shape"], how) for f in self.l["fields"]])
        vs = self.l["variants"]
        return self.fit_enum(vs, v or self.r.randint(1, len(vs)), how, self.l["idb"])

    def anyval(self, how="rand", v=None): return self.c.dvalue(self.d, self.r, how, v)

    def over(self, f, how="rand"): return self.c.value(f["ty"], self.r, how)

    def fitf(self, f, li, how="rand"):
        x = self.fit(li["shape"], how)
        return self.over(f) if x is None else x

    def variants(self): return range(1, len(self.d["variants"]) + 1) if self.kind == "enum" else [None]


def all_or_none(xs): return None if any(x is None for x in xs) else xs


# --------------------------------------------------------------------------- recipes: what to call on one declaration
def recipe(ops, prims=False):
    def deco(fn):
        fn.ops, fn.prims = ops.split(), prims
        return fn
    return deco


@recipe("rt enc dec redec")
def r_round(x, k=1):
    x.load(n=0)
    for v in x.variants():
        for how in ["zero", "ones", "min", "max"] + ["rand"] * (2 * k):
            val = x.fits(how, v)
            if val is not None:
                x.ev("rt", x=val)
    for _ in range(k):
        val = x.fits()
        if val is not None:
            x.ev("enc", x=val)
            x.ev("dec")
            x.ev("redec")


@recipe("enc dec read")
def r_place(x, k=1):
    x.load(n=0)
    for v in x.variants():
        for how in ["ones", "zero", "max"] + ["rand"] * (2 * k):
            val = x.fits(how, v)
            if val is not None:
                x.ev("enc", x=val)
    for how in ["0", "1", "r", "r", "s"] * k:
        x.load(how)
        x.ev("dec")
    for v, f, fd, li in x.fields():
        x.load("r")
        x.ev("read", v, f)


@recipe("enc dec read write rt")
def r_access(x, k=1):
    r_place(x, k)
    for how in ["1", "r"] * k:
        x.load(how)
        for v, f, fd, li in x.wfields():
            x.ev("write", v, f, x=x.fitf(fd, li))


@recipe("enc dec read write rs ws vr vmr vw fs fv rt")
def r_access_dyn(x, k=1):
    r_access(x, k)
    for how in ["r", "1"] * k:
        b = x.load(how)
        for v, f, fd, li in x.fields():
            for op in x.r.sample(["rs", "vr", "vmr"], 2):
                x.ev(op, v, f)
        for v, f, fd, li in x.wfields():
            x.ev(x.r.choice(["ws", "vw"]), v, f, x=x.fitf(fd, li))
        x.ev("fs")
        x.ev("fv")


@recipe("enc rt write")
def r_over(x, k=1):
    x.load(n=0)
    for v in x.variants():
        for how in ["ones"] + ["rand"] * (2 * k):
            x.ev("enc", x=x.anyval(how, v))
            x.ev("rt", x=x.anyval(how, v))
    for how in ["0", "1", "r"] * k:
        x.load(how)
        for v, f, fd, li in x.wfields():
            x.ev("write", v, f, x=x.over(fd, "ones" if x.r.random() < .3 else "rand"))


@recipe("ws vw write")
def r_over_dyn(x, k=1):
    for how in ["0", "1", "r"] * k:
        x.load(how)
        for v, f, fd, li in x.wfields():
            x.ev(x.r.choice(["ws", "vw"]), v, f, x=x.over(fd, "ones" if x.r.random() < .3 else "rand"))


@recipe("write read")
def r_write(x, k=1):
    fs = x.wfields()
    for how in ["0", "1", "r", "s"] * k:
        x.load(how)
        for v, f, fd, li in x.r.sample(fs, len(fs)):
            x.ev("write", v, f, x=x.fitf(fd, li, x.r.choice(["rand", "rand", "zero", "ones"])))
            x.ev("read", v, f)
    for v, f, fd, li in fs:                          # over exactly the opposite bits
        x.load("1")
        x.ev("write", v, f, x=x.fitf(fd, li, "zero"))
        x.load("0")
        x.ev("write", v, f, x=x.fitf(fd, li, "ones"))


@recipe("ws vw write read rs")
def r_write_dyn(x, k=1):
    fs = x.wfields()
    for how in ["0", "1", "r", "s"] * k:
        x.load(how, n=x.N + x.r.choice([0, 0, 1, 3]))
        for v, f, fd, li in x.r.sample(fs, len(fs)):
            x.ev(x.r.choice(["ws", "vw", "write"]), v, f, x=x.fitf(fd, li, x.r.choice(["rand", "rand", "zero", "ones"])))
            x.ev(x.r.choice(["read", "rs"]), v, f)


@recipe("enc dec read rs vr vmr fs fv")
def r_read(x, k=1):
    bufs = ["0", "1", "r", "r", "s"] * k + ["enc"]
    for how in bufs:
        if how == "enc":
            x.load(n=0)
            x.ev("enc", x=x.anyval())
        else:
            x.load(how, n=x.N + (x.r.choice([1, 2, 5, 9]) if how == "r" and x.r.random() < .6 else 0))   # what follows the prefix is nobody's
        x.ev("dec")
        x.ev("fs")
        for v, f, fd, li in x.fields():
            for op in ["read", "rs", "vr", "vmr"]:
                x.ev(op, v, f)
        x.ev("fv")


@recipe("dec read rt")
def r_signed(x, k=1):
    for how in ["0", "1", "r", "r", "r", "s"] * k:
        x.load(how)
        x.ev("dec")
    for v, f, fd, li in x.fields():
        e = fd["ty"]["of"] if fd["ty"]["k"] == "a" else fd["ty"]
        if e["k"] == "i":
            for how in ["r", "1"]:
                x.load(how)
                x.ev("read", v, f)
    for v in x.variants():
        for how in ["min", "max", "ones", "rand"]:
            val = x.fits(how, v)
            if val is not None:
                x.ev("rt", x=val)


@recipe("rs vr dec fs")
def r_signed_dyn(x, k=1):
    for how in ["0", "1", "r", "r", "s"] * k:
        x.load(how)
        for v, f, fd, li in x.fields():
            x.ev(x.r.choice(["rs", "vr"]), v, f)
        x.ev("fs")


def lens(x, need, all_below=40):
    N = x.N
    if N <= all_below:
        return range(0, N + 3)
    return sorted({0, 1, need - 2, need - 1, need, need + 1, N - 1, N, N + 1, x.r.randint(0, N)} & set(range(N + 3)))


@recipe("rs ws read write rids")
def r_slice(x, k=1):
    for v, f, fd, li in x.fields():
        ls = [n for n in lens(x, li["need"], 12) if n >= 0]
        near = [n for n in (li["need"] - 1, li["need"]) if n >= 0]
        for n in sorted(set(ls)) + near:
            x.load("r", n=n)
            x.ev("rs", v, f)
            if writable(x.d, v, f):
                x.ev("ws", v, f, x=x.fitf(fd, li))
        x.load("r")
        x.ev("rs", v, f)
        x.ev("read", v, f)
    for b in x.longs(x.N):
        x.load(buf=b)
        for v, f, fd, li in x.fields():
            if x.r.random() < .5:
                x.ev("rs", v, f)
            elif writable(x.d, v, f):
                x.ev("ws", v, f, x=x.fitf(fd, li))
        if x.kind == "enum":
            x.ev("rids")
    if x.kind == "enum":
        for n in range(0, x.N + 2):
            x.load("r", n=n)
            x.ev("rids")


@recipe("chk vr vmr vw read write ur umr uw")
def r_view(x, k=1):
    fs = x.fields()
    for n in lens(x, x.N):
        x.load("r", n=n)
        x.ev("chk")
        if fs:
            v, f, fd, li = x.r.choice(fs)
            x.ev(x.r.choice(["vr", "vmr"]), v, f)
            if writable(x.d, v, f):
                x.ev("vw", v, f, x=x.fitf(fd, li))
    for b in x.longs(x.N):
        x.load(buf=b)
        x.ev("chk")
        for v, f, fd, li in fs[:6]:
            x.ev(x.r.choice(["vr", "vmr", "ur"]), v, f)
            if writable(x.d, v, f):
                x.ev(x.r.choice(["vw", "uw"]), v, f, x=x.fitf(fd, li))
    for v, f, fd, li in fs:                  # views made without a check, also of slices that end with the field
        for n in {li["need"], max(0, li["need"] - 1), x.r.randint(0, x.N), x.N + 1}:
            x.load("r", n=n)
            x.ev(x.r.choice(["ur", "umr"]), v, f)
            if writable(x.d, v, f) and n >= li["need"]:
                x.ev("uw", v, f, x=x.over(fd))
                x.ev("umr", v, f)
    for how in ["r", "1", "0"] * k:
        x.load(how, n=x.N + x.r.choice([0, 0, 1, 2, 5]))
        for v, f, fd, li in fs:
            x.ev("vr", v, f)
            x.ev("vmr", v, f)
            x.ev("read", v, f)
        for v, f, fd, li in x.r.sample(x.wfields(), len(x.wfields())):
            x.ev("vw", v, f, x=x.fitf(fd, li))
            if x.r.random() < .3:
                x.ev("vmr", v, f)


@recipe("fs fv dec enc")
def r_stream(x, k=1):
    for n in lens(x, x.N, 20):
        x.load("r", n=n)
        x.ev("fs")
        x.ev("fv")
        x.ev("fs")
    for how in ["r", "1", "r"] * k:
        x.load(how)
        x.ev("dec")
        x.ev("fs")
        x.ev("fv")
    for b in x.longs(x.N):
        x.load(buf=b)
        for op in ["fs", "fv", "fs", "fv"]:
            x.ev(op)
    for q in range(k + 1):
        x.load(x.r.choice(["r", "r", "s"]), n=x.N * x.r.randint(2, 4) + x.r.randint(0, max(0, x.N - 1)))
        for _ in range(6):
            if x.r.random() < .3:
                x.ev("fs")
            x.ev("fv")


def ids_of(l): return [sum(1 << b for b in v["id"]) for v in l["variants"]]


def some_ids(x, k=1):
    """assigned ids, their neighbours and unassigned ones"""
    w, ids = x.l["idb"], ids_of(x.l)
    if w <= 5:
        return list(range(1 << w))
    out = set(ids) | {0, (1 << w) - 1}
    for i in ids[:6]:
        out |= {i ^ (1 << b) for b in x.r.sample(range(w), min(w, 4))} | {i + 1, max(0, i - 1)}
    out |= {x.r.getrandbits(w) for _ in range(4 * k)}
    return sorted(i for i in out if i < 1 << w)


@recipe("enc dec rid wid id read rt")
def r_enum(x, k=1):
    if x.kind != "enum":
        return
    x.load(n=0)
    for v in x.variants():
        for _ in range(2 * k):
            val = x.anyval("rand", v)
            x.ev("enc", x=val)
            x.ev("rid")
            x.ev("dec")
            x.ev("id", x=val)
    ids = some_ids(x, k)
    for i in x.r.sample(ids, min(len(ids), 24)):
        x.load(x.r.choice(["0", "1", "r", "r"]))
        x.ev("wid", x=i)
        x.ev("rid")
        x.ev("dec")
    for how in ["0", "1", "r", "r", "s"] * k:
        x.load(how)
        x.ev("dec")
        x.ev("rid")
        for v, f, fd, li in x.fields():
            x.ev("read", v, f)


@recipe("enc fs fv rids rid wid dec")
def r_enum_dyn(x, k=1):
    if x.kind != "enum":
        return
    ids = some_ids(x, k)
    for i in x.r.sample(ids, min(len(ids), 16)):
        x.load(x.r.choice(["0", "1", "r"]), n=x.N + x.r.choice([0, 0, 2]))
        x.ev("wid", x=i)
        x.ev("rids")
        x.ev("fs")
        x.ev("fv")


@recipe("id ideq enc dec")
def r_ids(x, k=1):
    if x.kind != "enum":
        return
    x.load(n=0)
    ids = ids_of(x.l)
    w = [q for q in NUMS if q >= x.l["idb"]][0]
    for v in x.variants():
        val = x.anyval("rand", v)
        x.ev("id", x=val)
        x.ev("enc", x=val)
        x.ev("dec")
        own = x.c.decls and ids[v - 1]
        for y in {own, own ^ 1, x.r.choice(ids), x.r.getrandbits(w)} | ({val[2][0]} if x.l["variants"][v - 1]["cap"] else set()):
            x.ev("ideq", x=val, y=y)


@recipe("sizes enc")
def r_sizes(x, k=1):
    x.load(n=0)
    x.ev("sizes")
    x.ev("enc", x=x.anyval())
    x.ev("enc", x=x.anyval("ones"))


@recipe("sizes vsizes enc")
def r_vsizes(x, k=1):
    """also the sizes of the variants (constants that exist only with dyn_fns)"""
    r_sizes(x, k)
    if x.kind == "enum":
        for v in x.variants():
            x.ev("vsizes", v)


@recipe("enc dec")
def r_none(x, k=1):
    """only whether it compiles (and that it works at all)"""
    x.load(n=0)
    x.ev("enc", x=x.anyval())
    x.ev("dec")


@recipe("enc dec read write rt")
def r_special(x, k=1):
    x.load(n=0)
    for v in x.variants():
        for how in ["ones", "rand", "rand"]:
            x.ev("enc", x=x.anyval(how, v))
            x.ev("rt", x=x.anyval(how, v))
    for how in ["0", "1", "r", "r"] * k:
        x.load(how)
        x.ev("dec")
        for v, f, fd, li in x.fields():
            x.ev("read", v, f)
        for v, f, fd, li in x.wfields():
            x.ev("write", v, f, x=x.over(fd))
        x.ev("dec")


@recipe("enc dec read write rs ws vr vw fs fv rt")
def r_special_dyn(x, k=1):
    r_special(x, k)
    for how in ["1", "r"] * k:
        x.load(how)
        x.ev("fs")
        for v, f, fd, li in x.fields():
            x.ev("rs", v, f)
            x.ev("vr", v, f)
        for v, f, fd, li in x.wfields():
            x.ev(x.r.choice(["ws", "vw"]), v, f, x=x.over(fd))
        x.ev("fv")


HEXD = b"0123456789abcdefABCDEF"


@recipe("hexu hexl fh fhs fhv hsize")
def r_hex(x, k=1):
    r, N = x.r, x.N
    x.load(n=0)
    x.ev("hsize")
    for how in ["zero", "ones", "rand", "rand", "rand"]:
        val = x.anyval(how)
        x.ev("hexu", x=val)
        x.ev("hexl", x=val)
    def text(n): return [r.choice(HEXD) for _ in range(n)]
    for _ in range(3 * k):
        t = text(2 * N)
        for op in ["fh", "fhs", "fhv"]:
            x.ev(op, y=t)
    for case in [b"0123456789abcdef", b"0123456789ABCDEF"]:
        t = [r.choice(case) for _ in range(2 * N)]
        x.ev("fh", y=t)
    # every character somewhere
    chars = list(range(256))
    r.shuffle(chars)
    per = max(8, 256 // 12) * k if not x.d.get("note") == "hex" else 256
    for ch in chars[:per] + [47, 58, 64, 71, 96, 103, 0, 32, 255]:
        t = text(2 * N)
        t[r.choice([0, 2 * N - 1, r.randrange(2 * N)])] = ch
        if r.random() < .3:
            t[r.randrange(2 * N)] = r.choice(chars)
        x.ev(r.choice(["fh", "fh", "fhs", "fhv"]), y=t)
    for b in x.longs(2 * N):
        t = [48 + (y & 1) for y in b]
        t[:2 * N] = text(len(t[:2 * N]))
        for op in ["fhs", "fhv"]:
            x.ev(op, y=t)
    for n in sorted({0, 1, 2 * N - 2, 2 * N - 1, 2 * N, 2 * N + 1, 2 * N + 2, 4 * N, r.randint(0, 2 * N)}):
        for op in ["fhs", "fhv"]:
            t = text(n)
            x.ev(op, y=t)
            if n:
                t = list(t)
                t[r.randrange(n)] = r.choice([0x67, 0x47, 0x20, 0x2f, 0x3a, 0xff])
                x.ev(op, y=t)


@recipe("fp ip peq", prims=True)
def r_prim(x, k=1):
    if x.kind != "prim":
        return
    x.load(n=0)
    for y in range(256):
        x.ev("fp", y=y)
    for v in range(1, len(x.d["variants"]) + 1):
        vals = range(0, 256, 5) if x.d["variants"][v - 1]["prim"] else [0]
        for z in vals:
            x.ev("ip", x=("P", v, z))
        if x.d["peq"]:
            ids = [sum(1 << b for b in i) for i in x.l["ids"]]
            for y in set(ids) | {0, 1, 255, x.r.randrange(256), x.r.randrange(256)}:
                x.ev("peq", x=("P", v, x.r.choice(list(vals))), y=y)


@recipe("fp ip peq enc dec read write rt", prims=True)
def r_prim_field(x, k=1):
    if x.kind == "prim":
        return r_prim(x, k)
    x.load(n=0)
    for _ in range(6):
        x.ev("enc", x=x.anyval())
        x.ev("rt", x=x.anyval())
    for _ in range(4):
        x.load("r")
        x.ev("dec")
        for v, f, fd, li in x.fields():
            x.ev("read", v, f)
        for v, f, fd, li in x.wfields():
            x.ev("write", v, f, x=x.over(fd))


@recipe("dec read rs fs fv vr redec enc rt write fh fhs fhv rid rids chk vmr ws vw wid")
def r_total(x, k=1):
    for how in ["0", "1", "r", "r", "s", "s"] * k:
        x.load(how, n=x.N)
        x.ev("dec")
        x.ev("redec")
        for v, f, fd, li in x.fields():
            for op in x.r.sample(["read", "rs", "vr", "vmr"], 2):
                x.ev(op, v, f)
        if x.kind == "enum":
            x.ev("rid")
            x.ev("rids")
        for v, f, fd, li in x.wfields():
            x.ev(x.r.choice(["write", "ws", "vw"]), v, f, x=x.over(fd, x.r.choice(["ones", "rand", "zero"])))
    for n in {0, x.N - 1, x.N + 1, x.r.randint(0, x.N)}:
        x.load("r", n=max(0, n))
        x.ev("chk")
        x.ev("fs")
        x.ev("fv")
        for v, f, fd, li in x.fields()[:4]:
            x.ev("rs", v, f)
            if writable(x.d, v, f):
                x.ev("ws", v, f, x=x.over(fd))
    for _ in range(2):
        x.ev("rt", x=x.anyval())
        x.ev("enc", x=x.anyval("ones"))
        x.ev("fh", y=[x.r.randrange(256) for _ in range(2 * x.N)])
        x.ev("fhs", y=[x.r.choice(HEXD) for _ in range(x.r.randint(0, 2 * x.N + 1))])
        x.ev("fhv", y=[x.r.choice(HEXD) for _ in range(2 * x.N)])


@recipe("read write dec enc rt redec rs ws fs fv chk vr vmr vw ur umr uw rid rids wid id ideq hexu hexl fh fhs fhv sizes vsizes hsize fp ip peq has name", prims=True)
def r_config(x, k=1):
    """every function that the configuration has (the others are left out by the driver), also where it has to fail"""
    r = x.r
    x.load(n=0)
    if x.kind == "prim":
        for y in {0, 1, 255, r.randrange(256), r.randrange(256)} | {sum(1 << b for b in i) for i in x.l["ids"][:8]}:
            x.ev("fp", y=y)
        for v in range(1, len(x.d["variants"]) + 1):
            x.ev("ip", x=("P", v, r.randrange(256) if x.d["variants"][v - 1]["prim"] else 0))
            if x.d["peq"]:
                x.ev("peq", x=("P", v, 0), y=r.randrange(8))
        return
    x.ev("sizes")
    x.ev("hsize")
    for v in x.variants():
        val = x.anyval("rand", v)
        x.ev("enc", x=val)
        x.ev("rt", x=val)
        x.ev(r.choice(["hexu", "hexl"]), x=val)
        if x.kind == "enum":
            x.ev("vsizes", v)
            x.ev("id", x=val)
            ids = ids_of(x.l)
            for y in {ids[v - 1], r.choice(ids)}:
                x.ev("ideq", x=val, y=y)
    for how, n in [("r", x.N), (r.choice("r1"), x.N + r.choice([1, 2])), ("r", max(0, x.N - 1)), ("r", r.choice([0, r.randint(0, x.N)]))] * k:
        x.load(how, n=n)
        x.ev("chk")
        x.ev("fs")
        if x.kind == "enum":
            x.ev("rids")
        for v, f, fd, li in x.fields():
            for op in r.sample(["rs", "vr", "vmr", "ur", "umr"], 2):
                x.ev(op, v, f)
            if n >= x.N:
                x.ev("read", v, f)
        if n >= x.N:
            x.ev("dec")
            x.ev("redec")
            if x.kind == "enum":
                x.ev("wid", x=r.choice(ids_of(x.l)))
                x.ev("rid")
        for v, f, fd, li in x.wfields():
            op = r.choice(["write", "ws", "vw", "uw"] if n >= x.N else ["ws", "vw"] + ["uw"] * (n >= li["need"]))
            x.ev(op, v, f, x=x.over(fd))
            if n >= x.N:
                x.ev("write", v, f, x=x.over(fd))
        x.ev("fv")
    x.load(n=0)
    for n in (2 * x.N, 2 * x.N, max(0, 2 * x.N - 1), 2 * x.N + 1):
        t = [r.choice(HEXD) for _ in range(n)]
        if r.random() < .5 and n:
            t[r.randrange(n)] = r.choice([47, 58, 64, 71, 96, 103])
        for op in ["fh"] * (n == 2 * x.N) + ["fhs", "fhv"]:
            x.ev(op, y=t)


HIST = "load read write dec enc rs ws fs fv chk vr vmr vw ur umr uw rid rids wid redec rt".split()


@recipe(" ".join(HIST[1:]))
def r_history(x, k=1):
    fs, ws = x.fields(), x.wfields()
    for q in range(2 * k):
        x.load(x.r.choice(["r", "0", "1"]), n=x.N + x.r.choice([0, 0, 0, 1, 4, x.N]))
        n = x.N
        for _ in range(24):
            ops = ["write", "ws", "vw", "write", "ws", "vw", "uw"] * bool(ws) + ["read", "rs", "vr", "vmr", "ur", "umr"] * bool(fs) + ["dec", "fs", "chk", "redec"]
            if x.kind == "enum":
                ops += ["wid", "wid", "rid", "rids"]
            op = x.r.choice(ops)
            if op in ("write", "ws", "vw", "uw"):
                v, f, fd, li = x.r.choice(ws)
                x.ev(op, v, f, x=x.over(fd) if x.r.random() < .5 else x.fitf(fd, li))
            elif op in ("read", "rs", "vr", "vmr", "ur", "umr"):
                v, f, fd, li = x.r.choice(fs)
                x.ev(op, v, f)
            elif op == "wid":
                x.ev(op, x=x.r.choice(some_ids(x)))
            else:
                x.ev(op)
        x.ev("fv")
        x.ev("enc", x=x.anyval())
        x.ev("dec")
        x.ev("fv")


r_history.simulate = 8          # behaviours per declaration that TLC generates from the specification
for _r in (r_access_dyn, r_write_dyn, r_view, r_stream, r_enum_dyn, r_special_dyn, r_total):
    _r.simulate = 2


# --------------------------------------------------------------------------- families of declarations
def arrays(r, count, signed=.35, kinds=None):
    """array fields for grid.pack"""
    items = []
    for _ in range(count):
        k = kinds and r.choice(kinds) or r.choice("uuuuiiibcf")
        mode = r.choice(["el", "el", "el", "len", "inf", "bl", "bl", "both"])
        cnt = r.choice([1, 2, 2, 3, 3, 4, 5, 8, 9])
        if k in "ui":
            w = r.choice([8, 8, 8, 16, 16, 32, 32, 64, 128])
            if w >= 64:
                cnt = min(cnt, 3)
            ty = {"u": U, "i": I}[k](w)
        else:
            ty = {"b": BO, "c": CH, "f": FL(r.choice([32, 64]))}[k]
            w = {"b": 1, "c": 32, "f": ty.get("w")}[k]
            cnt = min(cnt, 4) if k != "b" else cnt * 2
        n = w if k in "bf" else rnd_bits(r, w)
        if mode == "bl" and k in "uibf":
            unit = 8 if k == "b" else w
            if k == "b":                       # a bool block: one byte per element, as the type's size says
                mode = "el"
            else:
                rem = w if k == "f" else r.randint(1, w)
                tot = unit * (cnt - 1) + rem
                items.append((lambda sp, ty=ty, cnt=cnt, tot=tot: F(ARR(ty, cnt), bl=tot, sp=sp), tot))
                continue
        if mode in ("inf",):
            tot = w * cnt
            items.append((lambda sp, ty=ty, cnt=cnt: F(ARR(ty, cnt), sp=sp), tot))
        elif mode == "len":
            items.append((lambda sp, ty=ty, cnt=cnt, n=n: F(ARR(ty, cnt), n * cnt, sp=sp), n * cnt))
        elif mode == "both":
            items.append((lambda sp, ty=ty, cnt=cnt, n=n: F(ARR(ty, cnt), n * cnt, el=n, sp=sp & ~16), n * cnt))
        else:
            items.append((lambda sp, ty=ty, cnt=cnt, n=n: F(ARR(ty, cnt), el=n, sp=sp), n * cnt))
    return [(mk, n, r.randrange(8), r.choice(["le", "be"]), *r.choice(grid.FLAGS)) for mk, n in items]


def others(r, count):
    """float, char, bool fields at every position"""
    out = []
    for _ in range(count):
        k = r.choice("ffccb")
        if k == "f":
            w = r.choice([32, 64])
            mk, n = (lambda sp, w=w: F(FL(w), r.choice([-1, w]), sp=sp)), w
        elif k == "c":
            n = r.choice([32, 21, 24, 16, 8, 7, r.randint(1, 32)])
            mk = lambda sp, n=n: F(CH, n, sp=sp)
        else:
            mk, n = (lambda sp: F(BO, sp=sp)), 1
        out.append((mk, n, r.randrange(8), r.choice(["le", "be"]), *r.choice(grid.FLAGS)))
    return out


def inner_pool(r, count, maxb=72, enums=.35, prims=.15):
    pool, sub = [], []
    while len(pool) < count:
        q = r.random()
        if q < prims:
            pool.append((rnd_prim(r), 8, "prim"))
        elif q < prims + enums:
            d, b = rnd_enum(r, 1, sub, maxbits=40)
            if b <= maxb:
                pool.append((d, b, "s"))
        else:
            d, b = rnd_struct(r, 1, sub, maxbits=r.choice([7, 9, 16, 30, 56]), nf=r.randint(1, 4), nums=[8, 16, 32])
            if b <= maxb:
                pool.append((d, b, "s"))
                if len(sub) < 12 and b <= 30:
                    sub.append((d, b, "s"))
    return pool


def nested(r, count, pool):
    """nested fields, alone and in arrays, for grid.pack"""
    out = []
    for _ in range(count):
        d, b, kind = r.choice(pool)
        arr = r.random() < .35
        cnt = r.choice([1, 2, 3, 4])
        if kind == "prim":
            m = r.randint(1, 8)
            mk = (lambda sp, d=d, m=m, cnt=cnt: F(ARR(PE(d), cnt), el=m, prim=8, sp=sp)) if arr else (lambda sp, d=d, m=m: F(PE(d), m, prim=8, sp=sp))
            n = m * cnt if arr else m
        else:
            short = b - r.randint(0, (b - 1) % 8) if r.random() < .15 else b        # only the leading bits, same number of bytes
            if arr:
                mk, n = (lambda sp, d=d, n=short, cnt=cnt: F(ARR(ST(d), cnt), el=n, sp=sp)), short * cnt
            elif b % 8 == 0 and r.random() < .3:
                mk, n = (lambda sp, d=d, b=b: F(ST(d), ss=b // 8, sp=sp)), b
            else:
                mk, n = (lambda sp, d=d, n=short: F(ST(d), n, sp=sp)), short
        out.append((mk, n, r.randrange(8), r.choice(["le", "be"]), *r.choice(grid.FLAGS)))
    return out


def enums(r, count, pool=(), **kw): return [rnd_enum(r, 1, pool, **kw)[0] for _ in range(count)]


def big(r, count):
    """long buffers: many fields or large arrays"""
    out = []
    for i in range(count):
        if i % 6 == 5:                     # beyond byte 255 and bit 2047
            d, _ = rnd_struct(r, 0, (), maxbits=300, nf=r.randint(3, 6), feat=0, fill=False)
            far = F(ARR(U(8), r.choice([254, 255, 256, 257])), sp=0) if r.random() < .6 else F(ARR(U(16), r.choice([127, 128, 130])), bl=0, en=r.choice(["-", "le", "be"]), sp=0)
            d["fields"] = [far] + d["fields"]
            d["at"].update(enf="none", enfn=0)
            out.append(d)
        elif i % 2:
            out.append(rnd_struct(r, 0, (), maxbits=1200, nf=r.randint(16, 40), nums=[8, 16, 32, 64], fill=False)[0])
        else:
            out.append(rnd_struct(r, 0, (), maxbits=1600, nf=r.randint(1, 4), big=True)[0])
    return out


def flagged_at(r): return AT(r.choice(["le", "be", "-"]), *r.choice([(False, False), (False, False), *grid.FLAGS[1:]]))
def pad(r): return [F(U(8), r.randint(1, 7))] if r.random() < .7 else []


def long_arrays(r, count):
    """arrays of more elements than a byte counts, or nearly"""
    out = []
    for i in range(count):
        n = r.choice([127, 128, 129, 200, 255, 256, 257, 300])
        f = [lambda: F(ARR(BO, r.choice([n, 520])), sp=0), lambda: F(ARR(U(8), n), el=r.choice([1, 3, 5, 7]), sp=0),
             lambda: F(ARR(I(8), n), el=r.choice([3, 6]), sp=0), lambda: F(ARR(U(8), n), bl=8 * n - r.randint(0, 7), sp=0),
             lambda: F(ARR(I(16), 130), 130 * 9, sp=0), lambda: F(ARR(U(16), 129), bl=129 * 16 - r.randint(0, 15), sp=0)][i % 6]()
        out.append(STRUCT(pad(r) + [f, F(I(16), r.randint(2, 16))], flagged_at(r)))
    return out


def many_fields(r, count, n=280):
    """more fields than a byte counts"""
    return [STRUCT([F(BO) if r.random() < .4 else F(r.choice([U, I])(8), r.randint(2, 5)) for _ in range(n)], flagged_at(r)) for _ in range(count)]


def deep(r, count, depth=7):
    """bitfields in bitfields in bitfields ..."""
    out = []
    for _ in range(count):
        d, b = rnd_struct(r, 0, (), maxbits=12, nf=2, feat=0, fill=False)
        for i in range(depth - 1):
            f = F(ST(d), b)
            if r.random() < .3:
                d, b = ENUM([VAR([f]), VAR([F(U(8), 3)])], 2, at=flagged_at(r)), b + 2
            else:
                fs = [F(r.choice([U, I])(8), r.randint(1, 8)), f]
                n = fs[0]["len"]
                r.shuffle(fs)
                d, b = STRUCT(fs, flagged_at(r)), b + n
        out.append(d)
    return out


def wide_inner(r, count):
    """long bitfields in bitfields, whole and shortened"""
    out = []
    for i in range(count):
        d, b = rnd_struct(r, 0, (), maxbits=r.choice([100, 200, 400]), nf=r.randint(4, 9), feat=0, fill=False) if i % 3 else rnd_enum(r, 0, (), maxbits=150)
        n = b if r.random() < .7 else b - r.randint(0, (b - 1) % 8)
        ty = ST(d)
        if r.random() < .25:
            out.append(STRUCT(pad(r) + [F(ARR(ty, 3), el=n), F(U(8), 5)], flagged_at(r)))
        else:
            out.append(STRUCT(pad(r) + [F(ty, n), F(U(16), r.randint(1, 16))], flagged_at(r)))
    return out


def huge(r, s, pool):
    """what is longer, deeper or more numerous than elsewhere"""
    k = lambda c: max(1, int(c * s))
    return long_arrays(r, k(6)) + many_fields(r, 1, 280 if s >= 1 else 130) + deep(r, k(5)) + wide_inner(r, k(12))


def special(r, count, pool=()):
    """reserve, read_only, redundant, overlapping, fill"""
    out = []
    for _ in range(count):
        d, tot = rnd_struct(r, 0, (), maxbits=120, fill=r.random() < .35, feat=.6)
        fs = d["fields"]
        if not any(f["res"] != "-" or f["ov"] for f in fs):
            f = r.choice(fs)
            if reservable(f):
                f["res"] = r.choice(["reserve", "reserve", "ro"])
        out.append(d)
    out += [overlap(r, pool) for _ in range(count // 3)]
    return out


def overlap(r, pool=()):
    """fields that share bits, declared with overlapping_bits (counted once)"""
    while True:
        fs, cur = [], 0
        for _ in range(r.randint(2, 5)):
            f, n = rnd_field(r, 1, pool, arrays=r.random() < .5)
            if f["ty"]["k"] == "f" or cur + n > 120:
                continue
            f["len"] = -1
            back = r.randint(1, min(n, prev, 12)) if cur and r.random() < .6 and (prev := fs[-1]["be"] - fs[-1]["bs"]) else 0
            if back and back >= n:
                back = 0
            s = cur - back
            f["bs"], f["be"], f["ov"] = s, s + n, back
            q = r.random()
            if back and q < .5 or q < .15:
                f["res"] = r.choice(["ro", "reserve"]) if reservable(f) else "ro"
            fs.append(f)
            cur = s + n
        if fs and any(f["ov"] for f in fs):
            return STRUCT(fs, AT(r.choice(["-", "le", "be"]), r.random() < .3, r.random() < .3), sp=r.getrandbits(6))


def hexdecls(r, count):
    out = [rnd_struct(r, 0, (), maxbits=r.choice([8, 16, 24, 56, 100]))[0] for _ in range(count)]
    s = STRUCT([F(U(8)), F(U(8))])
    s["note"] = "hex"
    return out + [s] + enums(r, max(2, count // 6))


def prims(r, count):
    out = [rnd_prim(r) for _ in range(count)]
    # every value taken, both without and with a catch-all
    allv = [PVAR() for _ in range(255)]
    out.append(PRIM(allv, peq=True))
    out.append(PRIM([PVAR() for _ in range(255)] + [PVAR()], peq=True, u8=True))
    out.append(PRIM([PVAR(255), PVAR(), PVAR(0), PVAR(), PVAR(inv=True), PVAR(7)], peq=True))
    return out


def prim_fields(r, count):
    pool = [(rnd_prim(r), 8, "prim") for _ in range(max(6, count // 8))]
    return [p[0] for p in pool] + grid.pack(r, nested(r, count, pool), per=4)


def scal(r, kinds, frac, **kw): return grid.pack(r, grid.scalars(r, kinds, frac=frac, **kw), per=4)


# --------------------------------------------------------------------------- the plan of each property
# (flavour, recipe, function giving declarations); `s` scales the amounts
def plan(prop, r, s=1.0):
    n = lambda k: max(1, int(k * s))
    f = lambda x: min(1.0, x * s)
    pool = inner_pool(r, n(24))
    G = {
        "C01": [("nodyn", r_round, lambda: scal(r, "ui", f(.45)) + grid.pack(r, arrays(r, n(300)) + others(r, n(120)) + nested(r, n(160), pool))
                 + mixture(r, n(260)) + enums(r, n(160), pool) + big(r, n(12)) + huge(r, s, pool))],
        "C02": [("nodyn", r_place, lambda: scal(r, "u", f(1)) + scal(r, "i", f(.3)) + grid.pack(r, others(r, n(160)) + arrays(r, n(100))) + mixture(r, n(160)) + big(r, n(12)) + many_fields(r, 1) + long_arrays(r, n(6)))],
        "C03": [("nodyn", r_access, lambda: scal(r, "ui", f(.4), flags=grid.FLAGS[1:]) + grid.pack(r, flagged(r, arrays(r, n(140)) + others(r, n(100)) + nested(r, n(120), pool)))
                 + [d for d in mixture(r, n(300)) if flags_of(d)] + enums(r, n(60), pool, lsb0=True) + enums(r, n(60), pool, rev=True) + huge(r, s, pool)),
                ("full", r_access_dyn, lambda: scal(r, "ui", f(.02), flags=grid.FLAGS[1:]) + [rnd_struct(r, 1, pool, lsb0=a, rev=b)[0] for a, b in grid.FLAGS[1:] for _ in range(n(14))]
                 + enums(r, n(14), pool, lsb0=True, rev=True))],
        "C04": [("nodyn", r_over, lambda: narrow(scal(r, "ui", f(.35), wide=.8)) + grid.pack(r, arrays(r, n(220)) + others(r, n(60))) + mixture(r, n(160)) + enums(r, n(80), pool) + big(r, n(8)) + long_arrays(r, n(6))),
                ("full", r_over_dyn, lambda: scal(r, "ui", f(.015), wide=.8) + mixture(r, n(60), structs=.8))],
        "C05": [("nodyn", r_write, lambda: scal(r, "ui", f(.35)) + grid.pack(r, arrays(r, n(180)) + others(r, n(80)) + nested(r, n(140), pool)) + mixture(r, n(200)) + enums(r, n(60), pool) + big(r, n(8)) + huge(r, s, pool)),
                ("full", r_write_dyn, lambda: scal(r, "ui", f(.02)) + mixture(r, n(80), structs=.75))],
        "C06": [("full", r_read, lambda: scal(r, "ui", f(.1)) + grid.pack(r, arrays(r, n(120)) + others(r, n(60)) + nested(r, n(80), pool)) + mixture(r, n(220)) + special(r, n(50)) + big(r, n(8)) + huge(r, s * .4, pool))],
        "C07": [("nodyn", r_signed, lambda: scal(r, "i", f(1)) + grid.pack(r, arrays(r, n(260), kinds="i")) + mixture(r, n(120), nest=.5)),
                ("full", r_signed_dyn, lambda: scal(r, "i", f(.03)) + grid.pack(r, arrays(r, n(40), kinds="i")))],
        "C08": [("full", r_slice, lambda: scal(r, "ui", f(.08)) + grid.pack(r, arrays(r, n(80)) + nested(r, n(80), pool) + others(r, n(40))) + mixture(r, n(180)) + big(r, n(6)) + special(r, n(30)))],
        "C09": [("full", r_view, lambda: scal(r, "ui", f(.06)) + grid.pack(r, arrays(r, n(80)) + nested(r, n(60), pool) + others(r, n(40))) + mixture(r, n(220)) + big(r, n(6)) + special(r, n(30)))],
        "C10": [("full", r_stream, lambda: scal(r, "ui", f(.03)) + grid.pack(r, arrays(r, n(80)) + nested(r, n(60), pool)) + mixture(r, n(220)) + enums(r, n(60), pool) + special(r, n(60)) + big(r, n(6)))],
        "C11": [("nodyn", r_enum, lambda: enums(r, n(420), pool) + enums(r, n(90), pool, wide=1) + enums(r, n(40), nv=r.choice([17, 33]), idb=r.choice([6, 8])) + enum_nested(r, n(30)) + deep(r, n(6))),
                ("full", r_enum_dyn, lambda: enums(r, n(120), pool))],
        "C12": [("full", r_ids, lambda: enums(r, n(240), (), maxbits=40) + enums(r, n(120), (), maxbits=24, nv=9) + id_orders(r, n(60))),
                ("nodyn", r_none, lambda: rules.id_rules(r, n(240)))],
        "C13": [("nodyn", r_sizes, lambda: scal(r, "ui", f(.04)) + grid.pack(r, arrays(r, n(200)) + nested(r, n(100), pool) + others(r, n(60))) + mixture(r, n(400)) + enums(r, n(200), pool) + special(r, n(160)) + big(r, n(20)) + huge(r, s, pool)),
                ("full", r_vsizes, lambda: enums(r, n(150), pool) + mixture(r, n(40)))],
        "C14": [("nodyn", r_special, lambda: scal(r, "ui", f(.05)) + grid.pack(r, arrays(r, n(160)) + nested(r, n(80), pool) + others(r, n(60))) + mixture(r, n(300)) + special(r, n(100)) + huge(r, s, pool)),
                ("nodyn", r_none, lambda: rules.border(r, n(1000)) + rules.id_rules(r, n(100))),
                ("rel", r_none, lambda: rules.border(r, n(300)) + rules.id_rules(r, n(60)))],
        "C15": [("nodyn", r_special, lambda: special(r, n(420), pool) + enums(r, n(80), (), feat=.8)),
                ("full", r_special_dyn, lambda: special(r, n(110), pool) + enums(r, n(30), (), feat=.8))],
        "C16": [("nodyn", r_special, lambda: grid.pack(r, nested(r, n(700), pool), per=3) + grid.pack(r, nested(r, n(300), inner_pool(r, n(40), enums=.2)), per=2) + deep(r, n(10)) + wide_inner(r, n(40))),
                ("full", r_special_dyn, lambda: grid.pack(r, nested(r, n(120), pool), per=3))],
        "C17": [("nodyn", r_access, lambda: grid.pack(r, arrays(r, n(1000)), per=3) + [rnd_struct(r, 0, (), maxbits=1600, nf=r.randint(1, 3), big=True, only="array")[0] for _ in range(n(24))] + long_arrays(r, n(18))
                 + grid.pack(r, [q for q in nested(r, n(240), pool)])),
                ("full", r_access_dyn, lambda: grid.pack(r, arrays(r, n(120)), per=3))],
        "C18": [("full", r_hex, lambda: hexdecls(r, n(200)) + mixture(r, n(40), structs=.7) + special(r, n(20)) + big(r, n(6)))],
        "C19": [("nodyn", r_prim_field, lambda: prims(r, n(170)) + prim_fields(r, n(260)))],
        "C20": [("full", r_total, lambda: scal(r, "ui", f(.08)) + grid.pack(r, arrays(r, n(90)) + nested(r, n(90), pool) + others(r, n(80))) + mixture(r, n(200)) + enums(r, n(60), pool) + special(r, n(40)) + big(r, n(6)) + huge(r, s * .4, pool))],
        "C21": [("full", r_history, lambda: scal(r, "ui", f(.02)) + mixture(r, n(160)) + enums(r, n(60), pool) + special(r, n(30)) + grid.pack(r, nested(r, n(60), pool)))],
        "C22": [(cfg, r_config, lambda q=q: scal(r, "ui", f(.012 * q)) + grid.pack(r, arrays(r, n(12 * q)) + others(r, n(10 * q)) + nested(r, n(14 * q), pool))
                 + mixture(r, n(22 * q)) + enums(r, n(10 * q), pool) + special(r, n(6 * q)) + prims(r, n(4 * q))[:n(4 * q) + 3]) for cfg, q in
                (("min", 1.2), ("hex", 1.2), ("minstd", .6), ("hexstd", .4), ("dyn", .6), ("all", .6), ("dynstd", .35), ("allstd", .35), ("rel", .4), ("relfull", .35))],
    }
    return [(fl, rc, mk()) for fl, rc, mk in G[prop]]


def flags_of(d): return d["kind"] != "prim" and (d["at"]["lsb0"] or d["at"]["rev"])
def flagged(r, items): return [it if it[4] or it[5] else (*it[:4], *r.choice(grid.FLAGS[1:])) for it in items]
def narrow(ds): return ds


def enum_nested(r, count):
    """enums whose variants hold enums and structs"""
    pool = [(d, b, "s") for d, b in (rnd_enum(r, 0, (), maxbits=24) for _ in range(8)) if b <= 40]
    return enums(r, count, pool) if pool else []


def id_orders(r, count):
    """all kinds of orders of explicit, implicit and invalid variants without payload"""
    out = []
    if count > 20:
        for nv, w in ((130, 8), (257, 9)):          # more variants than a byte counts
            vs = [VAR(id=None if r.random() < .8 else 2 ** w - 1 - i, idattr=True) for i in range(nv)]
            if nv < 2 ** w:
                vs[r.randrange(nv)]["inv"] = True
            out.append(ENUM(vs, w, at=AT("be")))
    while len(out) < count:
        nv = r.randint(2, 10)
        ids = r.sample(range(nv + 3), nv)
        vs = [VAR(id=ids[i] if r.random() < .5 else None, idattr=True) for i in range(nv)]
        if r.random() < .7:
            vs[r.randrange(nv)]["inv"] = True
        w = r.choice([4, 5, 8, 9, 16, 32])
        out.append(ENUM(vs, w, at=AT(r.choice(["-", "be"]))))
    return out
