"""Small declarations for the exhaustive model (spec/MC.tla): systematic, not random."""
import itertools
from decl import *

FLAGS = [(False, False), (False, True), (True, False), (True, True)]      # lsb0, rev


def num(n, k="u", w=None, **kw):
    w = w or (8 if n <= 8 else 16)
    return F({"u": U, "i": I}[k](w), n, **kw)


def parts(ps, kinds="u", en="-", lsb0=False, rev=False, ens=None, **kw):
    fs = [F(BO) if kinds[i % len(kinds)] == "b" and n == 1 else
          num(n, kinds[i % len(kinds)].replace("b", "u"), en=(ens[i % len(ens)] if ens else "-")) for i, n in enumerate(ps)]
    return STRUCT(fs, AT(en, lsb0, rev, **kw))


def structs(kinds=("u",), flags=FLAGS, ps=((3, 5), (1, 6, 1), (2, 2, 3), (8,), (5, 9, 2), (4, 12), (1, 10), (9,)), ens=("le", "be")):
    return [parts(p, k, en, l, r) for p in ps for k in kinds for en in ens for l, r in flags]


def enums(flags=((False, False),), ens=("le", "be"), wide=True):
    out = []
    for (l, r), en in itertools.product(flags, ens):
        a = lambda: AT(en, l, r)
        out.append(ENUM([VAR([num(3)]), VAR([F(BO), num(4, "i")]), VAR([], id=3)], 2, at=a()))
        out.append(ENUM([VAR([num(3)], inv=True), VAR([F(BO)]), VAR([], id=0)], 3, at=a()))
        out.append(ENUM([VAR([num(2)], id=2), VAR([F(U(8), cap=True), num(3)])], 3, at=a()))
        out.append(ENUM([VAR([F(U(8), cap=True), num(1)], inv=True), VAR([num(4, "i")])], 2, at=a()))
        if wide:
            out.append(ENUM([VAR([num(9)], id=5), VAR([num(3), num(4)]), VAR([])], 4, at=a()))
            out.append(ENUM([VAR([num(2)], id=300), VAR([num(4)]), VAR([F(U(16), cap=True)])], 10, at=a()))
    return out


def special(flags=FLAGS):
    out = []
    for l, r in flags:
        at = lambda **kw: AT("be", l, r, **kw)
        out.append(STRUCT([num(2), num(3, res="reserve"), num(3)], at()))
        out.append(STRUCT([num(2), num(3, res="ro"), num(3)], at()))
        out.append(STRUCT([num(3), F(U(8), bits=(1, 4), res="red"), num(4)], at()))
        out.append(STRUCT([F(U(8), bits=(0, 4)), F(U(8), bits=(2, 7), ov=2)], at()))
        out.append(STRUCT([F(U(8), bits=(0, 4)), F(U(8), bits=(2, 7), ov=2, res="ro")], at()))
        out.append(STRUCT([num(3), num(2)], at(fill=1)))
        out.append(STRUCT([num(3), num(4, "i")], at(fill=2)))
        out.append(STRUCT([F(ARR(U(8), 2), el=2, res="reserve"), num(4)], at()))
    return out


def nested(flags=FLAGS, wide=True):
    out = []
    inn = [parts((2, 3)), parts((1, 3), "ui", rev=True), parts((3, 2), "u", lsb0=True), parts((9,), en="le"), parts((9,), "i", "le", rev=True), parts((2, 8), "u", "be", lsb0=True, rev=True),
           ENUM([VAR([num(2)]), VAR([F(BO)], id=2)], 2), STRUCT([num(2), num(1, res="reserve"), num(1)])]
    size = [5, 4, 5, 9, 9, 10, 4, 4]
    for (d, n), (l, r) in itertools.product(zip(inn, size), flags):
        if n >= 9 and not wide and (l or r):
            continue
        for lead in ((0, 3) if n < 9 else (2,)):
            out.append(STRUCT(([num(lead)] if lead else []) + [F(ST(d), n)] + [num(1)], AT("be", l, r)))
    out.append(STRUCT([num(1), F(ARR(ST(inn[1]), 2), el=4), num(3)], AT("be")))
    o2 = STRUCT([num(1), F(ST(inn[0]), 5)], AT("be", True))
    out.append(STRUCT([num(2), F(ST(o2), 6)], AT("-", False, True)))
    return out


def arrays(flags=FLAGS, kinds="ui"):
    out = []
    for (l, r), en, k in itertools.product(flags, ("le", "be"), kinds):
        at = lambda: AT(en, l, r)
        T = {"u": U, "i": I}[k]
        out.append(STRUCT([F(ARR(T(8), 2), el=3), num(2)], at()))
        out.append(STRUCT([num(1), F(ARR(T(8), 3), 6), num(1)], at()))
        out.append(STRUCT([num(3), F(ARR(T(8), 2), bl=11)], at()))
        out.append(STRUCT([num(1), F(ARR(T(8), 2))], at()))
        if (l, r) == (False, False):
            out.append(STRUCT([num(2), F(ARR(T(16), 2), el=9)], at()))
            out.append(STRUCT([F(ARR(T(16), 2), bl=21), num(3)], at()))
            out.append(STRUCT([F(ARR(BO, 3)), num(4)], at()))
    return out


def prims():
    P = PVAR
    return [PRIM([P(), P(), P()], peq=True), PRIM([P(5), P(), P(0), P()], peq=True), PRIM([P(), P(inv=True), P(7)], peq=True),
            PRIM([P(3), P(prim=True), P()], peq=True), PRIM([P(1), P(), P(prim=True, named=True)], peq=True), PRIM([P(255), P(0), P(inv=True), P(254)], peq=True)]


def prim_fields():
    out = []
    for p in prims()[1:5]:
        for n in (2, 3, 5):
            out.append(STRUCT([num(1), F(PE(p), n, prim=8), num(2)], AT("be")))
    return out


def rules():
    out = []
    rng = [(a, b) for a in range(4) for b in range(a + 1, 6)]
    for (a, b), (s, e) in itertools.product(rng, rng):
        if min(a, s) == 0:
            for ov in {0, max(0, min(b, e) - max(a, s))}:
                if not ov or (a == 0 and s < b <= e and s > 0):
                    out.append(STRUCT([F(U(8), bits=(a, b)), F(U(8), bits=(s, e), ov=ov)], AT("be")))
    for t in range(1, 14):
        for at in (AT(enf="full"), AT(enf="bits", enfn=8), AT(fill=1), AT(fill=2), AT(enf="bits", enfn=11, fill=2)):
            out.append(STRUCT([num(t) if t <= 8 else num(t, w=8) if t % 2 else num(t, w=16)], dict(at)))
    for n in range(1, 20):
        for c in (2, 3):
            out.append(STRUCT([F(ARR(U(8), c), n)]))
            out.append(STRUCT([F(ARR(U(8), c), bl=n)]))
            out.append(STRUCT([F(ARR(U(8), c), n, el=3)]))
    for n in (31, 32, 33, 63, 64, 65):
        out += [STRUCT([F(FL(32), n)]), STRUCT([F(FL(64), n)])]
    for n in (3, 4):
        out.append(STRUCT([F(U(8), n, bits=(0, 4))]))
    out += [STRUCT([F(U(8), 3, bad="bit_len = 3")]), STRUCT([num(3)], bad="fill_bytes = \"3\""), STRUCT([]), STRUCT([num(3), F(U(8), cap=True)])]
    return out


def ids():
    out = []
    opts = [None, 0, 1, 2, 3]
    for q in itertools.product(opts, repeat=3):
        for inv in (None, 0, 1):
            out.append(ENUM([VAR([], id=i, inv=j == inv, idattr=True) for j, i in enumerate(q)], 2))
    return out


THIN = {"C04": 4, "C05": 14, "C16": 3, "C17": 2, "C20": 5, "C21": 4}       # quick: every n-th declaration, which ones depends on the seed


def family(prop, deep, seed=0):
    f2 = FLAGS if deep else [(False, False), (True, True)]
    few = ((3, 5), (1, 6, 1), (5, 9, 2)) if not deep else ((3, 5), (1, 6, 1), (2, 2, 3), (8,), (5, 9, 2), (4, 12), (1, 10), (9,))
    nofl = FLAGS[:1]
    F_ = {
        "C01": lambda: structs(("u", "ib"), f2, few) + enums(f2) + special(f2) + nested(nofl) + arrays(nofl),
        "C02": lambda: structs(("u", "ib"), nofl) + special(nofl) + arrays(nofl),
        "C03": lambda: (structs(("ub",), FLAGS, few) + enums(FLAGS, ("be",), deep) + special(FLAGS) + nested(FLAGS)) if deep else
               structs(("ub",), FLAGS, ((1, 6, 1), (5, 9, 2))) + enums(FLAGS, ("be",), False)[::2] + nested(FLAGS)[:8],
        "C04": lambda: structs(("ui",), f2, few) + arrays(nofl) + enums(nofl, ("le",), deep),
        "C05": lambda: structs(("u", "ib"), f2, few) + special(f2) + nested(nofl) + arrays(nofl, "u") + enums(nofl, ("be",), deep),
        "C06": lambda: structs(("ui",), f2, few) + special(f2) + nested(nofl) + arrays(nofl) + enums(f2, ("le",)),
        "C07": lambda: structs(("i",), nofl, ((3, 5), (1, 6, 1), (8,), (5, 9, 2), (4, 12), (16,), (1, 15))) + arrays(nofl, "i"),
        "C08": lambda: structs(("ui",), FLAGS, ((1, 6, 1), (5, 9, 2)) if not deep else few) + special(f2) + enums(f2, ("be",)),
        "C09": lambda: structs(("ui",), f2, few) + enums(nofl) + special(nofl),
        "C10": lambda: structs(("ui",), nofl, ((1, 2), (3, 2, 4), (9,))) + enums(nofl, ("be",)) + special(nofl)[:6],
        "C11": lambda: enums(FLAGS, ("le", "be")),
        "C12": lambda: ids() + enums(nofl),
        "C13": lambda: structs(("ub",), f2) + enums(f2) + special(f2) + nested(nofl) + arrays(nofl) + prim_fields(),
        "C14": lambda: rules(),
        "C15": lambda: special(FLAGS),
        "C16": lambda: nested(f2 if not deep else FLAGS, deep),
        "C17": lambda: arrays(f2),
        "C18": lambda: [parts((3, 5)), parts((5, 9, 2), "ui")] + enums(nofl, ("be",))[:2],
        "C19": lambda: prims() + prim_fields(),
        "C20": lambda: structs(("ib",), f2, few) + special(nofl) + enums(nofl, ("be",)) + nested(nofl)[:6 if not deep else None] + prim_fields()[:4],
        "C21": lambda: structs(("u", "ib"), f2, few) + nested(nofl)[:4 if not deep else None] + enums(nofl, ("be",), False) + arrays(nofl, "i")[:3],
        "C22": lambda: structs(("ub",), nofl, ((3, 5), (5, 9, 2))) + special(nofl)[:5] + enums(nofl, ("be",), False)[:3] + nested(nofl)[:3] + arrays(nofl, "u")[:2] + prims()[:4],
    }
    ds = F_[prop]()
    if not deep and prop in THIN:
        ds = ds[seed % THIN[prop]::THIN[prop]]
    return Corpus(ds)
