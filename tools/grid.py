"""Systematic families of declarations: every width x start bit x byte order x bit order, packed several per struct."""
import random
from decl import *

FLAGS = [(False, False), (True, False), (False, True), (True, True)]     # (lsb0, reverse)
TYW = [8, 16, 32, 64, 128]


def tyw(n, r=None, wide=.3):
    fit = [w for w in TYW if w >= n]
    return r.choice(fit) if r and r.random() < wide else fit[0]


def with_endian(r, f, en, at):
    """says the byte order on the field or leaves it to the struct's default / the built in default"""
    ty = f["ty"]["of"] if f["ty"]["k"] == "a" else f["ty"]
    if ty["k"] == "s":
        return f                                   # the library refuses a byte order on a nested bitfield
    if at["en"] == en or (at["en"] == "-" and en == "le"):
        f["en"] = en if r.random() < .3 else "-"
    else:
        f["en"] = en
    return f


def pack(r, items, per=4, maxbits=400):
    """items: (field builder(sp) -> field, bits, start%8, en, lsb0, rev); returns structs with the fields at these starts.
    Items with equal flags share structs."""
    out, by = [], {}
    for it in items:
        by.setdefault((it[4], it[5]), []).append(it)
    for (lsb0, rev), its in by.items():
        r.shuffle(its)
        i = 0
        while i < len(its):
            at = AT(r.choice(["-", "le", "be"]), lsb0, rev)
            fs, cur, k = [], 0, 0
            while i < len(its) and k < per and (not fs or cur + its[i][1] + 7 <= maxbits):
                mk, n, s, en = its[i][:4]
                if (s - cur) % 8:
                    p = (s - cur) % 8
                    fs.append(F(r.choice([U, I])(r.choice([8, 8, 16])), p, sp=r.getrandbits(6)))
                    cur += p
                fs.append(with_endian(r, mk(r.getrandbits(6)), en, at))
                cur += n
                k += 1
                i += 1
            out.append(STRUCT(fs, at, sp=r.getrandbits(7) if not lsb0 else r.getrandbits(7) & ~64))
    return out


def scalar(kind, n, w):
    """builder of a field of n bits of a w bit number"""
    ty = {"u": U, "i": I}[kind](w)
    return lambda sp: F(ty, n, sp=sp)


def scalars(r, kinds="u", ns=range(1, 129), starts=range(8), ens=("le", "be"), flags=FLAGS, frac=1.0, wide=.3):
    items = []
    for k in kinds:
        for n in ns:
            for s in starts:
                for en in ens:
                    for lsb0, rev in flags:
                        if frac < 1 and r.random() > frac:
                            continue
                        items.append((scalar(k, n, tyw(n, r, wide)), n, s, en, lsb0, rev))
    return items
