"""Declarations of bitfield types: builders, Rust source, values.

A declaration is a dict in the vocabulary of spec/BondrewdLayout.tla (plus spelling choices the spec ignores); the
spec alone decides what it means.  Values are Python trees: int for leaves, list for arrays and structs,
("E", variant, fields) for enums, ("P", variant, carried) for primitive enums."""
import json, random, re, struct


def U(w): return {"k": "u", "w": w}
def I(w): return {"k": "i", "w": w}
def FL(w): return {"k": "f", "w": w}
CH = {"k": "c"}
BO = {"k": "b"}
def ARR(of, n): return {"k": "a", "n": n, "of": of}
def ST(decl): return {"k": "s", "ref": decl}
def PE(decl): return {"k": "e", "ref": decl}


def F(ty, len=-1, bits=None, en="-", el=0, bl=0, res="-", ov=0, cap=False, prim=0, ss=-1, bad="-", sp=0):
    return {"ty": ty, "len": len, "bs": bits[0] if bits else -1, "be": bits[1] if bits else -1, "en": en,
            "am": "el" if el else "bl" if bl else "-", "al": el or bl or 0, "res": res, "ov": ov, "cap": cap,
            "prim": prim, "ss": ss, "bad": bad, "sp": sp}


def AT(en="-", lsb0=False, rev=False, fill=0, enf="none", enfn=0):
    return {"en": en, "lsb0": lsb0, "rev": rev, "fill": fill, "enf": enf, "enfn": enfn}


def STRUCT(fields, at=None, tuple=False, bad="-", sp=0, note=""):
    return {"kind": "struct", "bad": bad, "at": at or AT(), "fields": fields, "tuple": tuple, "sp": sp, "note": note}


def VAR(fields=(), id=None, inv=False, at=None, tuple=False, bad="-", idattr=False):
    return {"auto": id is None, "id": id or 0, "inv": inv, "at": at or AT(), "fields": list(fields), "bad": bad,
            "tuple": tuple, "idattr": idattr}


def ENUM(variants, idb=-1, payload=-1, total=-1, at=None, bad="-", sp=0, note=""):
    return {"kind": "enum", "bad": bad, "at": at or AT(), "idb": idb, "payload": payload, "total": total,
            "variants": variants, "sp": sp, "note": note}


def PVAR(id=None, inv=False, prim=False, named=False):
    return {"auto": id is None, "id": id or 0, "inv": inv, "prim": prim, "named": named}


def PRIM(variants, peq=False, u8=True, sp=0, note=""):
    return {"kind": "prim", "bad": "-", "variants": variants, "peq": peq, "u8": u8, "sp": sp, "note": note}


def bits(n): return [i for i in range(n.bit_length()) if n >> i & 1]


def refs(d):
    out = []
    def ty(t):
        if t["k"] in "se":
            out.append(t["ref"])
        elif t["k"] == "a":
            ty(t["of"])
    for f in fields_of(d):
        ty(f["ty"])
    return out


def fields_of(d):
    if d["kind"] == "struct":
        return d["fields"]
    if d["kind"] == "enum":
        return [f for v in d["variants"] for f in v["fields"]]
    return []


# ---- names: what things are called must not matter.  A declaration's "nm" (0 = plain) picks the names, whether nested
# types are written as paths, how field-less variants are written, and documentation comments.
FNAMES = ["a", "a_bytes", "a_buffer", "a_0", "r#type", "fooBar", "_x", "Z9", "x__y", "id", "value", "r#match", "buffer", "bytes",
          "field_0", "field_2", "num", "me", "len", "self_", "b", "b_1", "index", "bit", "shift", "input", "output", "variant"]
VNAMES = ["FooBar", "HttpServer", "Some", "None", "Ok", "Err", "Type", "Bit", "Byte", "Va", "Self_", "Vec", "String", "Default",
          "Result", "Option", "Box", "Clone"]


def nm(d): return d.get("nm", 0)


def fname(d, i):
    n = nm(d)
    if not n:
        return f"f{i}"
    k = (n + i - 1) % len(FNAMES)
    return FNAMES[k] if i <= len(FNAMES) else f"g{i}"


def vname(d, i):
    n = nm(d)
    if n >> 5 & 1 and i <= len(VNAMES):
        return VNAMES[(n + i - 1) % len(VNAMES)]
    return "V" + "abcdefghijklmnopqrstuvwxyz"[(i - 1) % 26] + ("" if i <= 26 else "abcdefghijklmnopqrstuvwxyz"[(i - 1) // 26 - 1])


def snake(x):
    """CamelCase -> snake_case, for the names above"""
    return "".join(("_" if i and ch.isupper() else "") + ch.lower() for i, ch in enumerate(x)).strip("_")


def vis_of(d): return "pub(crate) " if nm(d) % 7 == 3 else "pub "


def path(d): return ["", "self::", "crate::", ""][nm(d) >> 6 & 3]
def doc(d): return ["", "/** documented */ ", "#[allow(unused)] ", '#[doc = concat!("documented")] '][nm(d) >> 8 & 3]


class Corpus:
    """An ordered set of declarations, closed under references (referenced ones first)."""

    def __init__(self, decls):
        self.decls, self.ix = [], {}
        for d in decls:
            self.add(d)

    def add(self, d):
        if id(d) in self.ix:
            return
        for r in refs(d):
            self.add(r)
        self.decls.append(d)
        self.ix[id(d)] = len(self.decls)          # 1-based, as in the spec

    def __len__(self): return len(self.decls)

    def num(self, d): return self.ix[id(d)]

    def closure(self, nums):
        out = set()
        def go(n):
            if n not in out:
                out.add(n)
                for r in refs(self.decls[n - 1]):
                    go(self.num(r))
        for n in nums:
            go(n)
        return sorted(out)

    # ---- for the spec
    def _ty(self, t):
        if t["k"] in "se":
            return {"k": t["k"], "ref": self.num(t["ref"])}
        if t["k"] == "a":
            return {"k": "a", "n": t["n"], "of": self._ty(t["of"])}
        return t

    def _field(self, f): return dict(f, ty=self._ty(f["ty"]))

    def tla(self, d):
        o = dict(d)
        o.pop("note", None)
        if d["kind"] == "struct":
            o["fields"] = [self._field(f) for f in d["fields"]]
        elif d["kind"] == "enum":
            o["variants"] = [dict(v, id=bits(v["id"]), fields=[self._field(f) for f in v["fields"]]) for v in d["variants"]]
        else:
            o["variants"] = [dict(v, id=bits(v["id"])) for v in d["variants"]]
        return o

    def json(self): return json.dumps([self.tla(d) for d in self.decls])

    # ---- as plain JSON, and back
    def dump(self, d):
        def ty(t): return dict(t, ref=self.num(t["ref"])) if "ref" in t else dict(t, of=ty(t["of"])) if "of" in t else t
        def fs(x): return [dict(f, ty=ty(f["ty"])) for f in x]
        o = dict(d)
        if d["kind"] == "struct":
            o["fields"] = fs(d["fields"])
        elif d["kind"] == "enum":
            o["variants"] = [dict(v, fields=fs(v["fields"])) for v in d["variants"]]
        return o

    @staticmethod
    def undump(ds):
        out = []
        def ty(t): return dict(t, ref=out[t["ref"] - 1]) if "ref" in t else dict(t, of=ty(t["of"])) if "of" in t else t
        def fs(x): return [dict(f, ty=ty(f["ty"])) for f in x]
        for d in ds:
            o = dict(d)
            if d["kind"] == "struct":
                o["fields"] = fs(d["fields"])
            elif d["kind"] == "enum":
                o["variants"] = [dict(v, fields=fs(v["fields"])) for v in d["variants"]]
            out.append(o)
        return Corpus(out)

    # ---- Rust source
    def rty(self, t, pre=""):
        k = t["k"]
        if k in "uif":
            return k + str(t["w"])
        if k == "c":
            return "char"
        if k == "b":
            return "bool"
        if k == "a":
            return f"[{self.rty(t['of'], pre)}; {t['n']}]"
        return pre + "D%d" % self.num(t["ref"])

    def fattrs(self, f):
        a, sp = [], f["sp"]
        if f["len"] >= 0:
            a.append(f"byte_length = {f['len'] // 8}" if f["len"] % 8 == 0 and sp & 1 else f"bit_length = {f['len']}")
        if f["bs"] >= 0:
            a.append(f"bits = \"{f['bs']}..{f['be']}\"")
        if f["en"] != "-":
            opt = {"le": ["le", "lsb", "little", "lil"], "be": ["be", "msb", "big"], "ne": ["ne", "native"]}[f["en"]]
            a.append(f"endianness = \"{opt[sp // 2 % len(opt)]}\"")
        if f["am"] != "-":
            nm = {"el": "element", "bl": "block"}[f["am"]]
            a.append(f"{nm}_byte_length = {f['al'] // 8}" if f["al"] % 8 == 0 and sp & 1 else f"{nm}_bit_length = {f['al']}")
        if f["prim"]:
            a.append(f"enum_primitive = \"u{f['prim']}\"")
        if f["ss"] >= 0:
            a.append(f"struct_size = {f['ss']}")
        if f["res"] != "-":
            a.append({"reserve": "reserve", "ro": "read_only", "red": "redundant"}[f["res"]])
        if f["ov"]:
            a.append(f"overlapping_bits = {f['ov']}")
        if f["cap"]:
            a.append("capture_id")
        if f["bad"] not in ("-", ""):
            a.append(f["bad"])
        if sp & 16:
            a.reverse()
        if not a:
            return ""
        # other orders, where none is documented
        free = f["bad"] == "-" and (f["bs"] >= 0) + (f["len"] >= 0) + (f["am"] != "-" or f["ty"]["k"] == "a") < 2
        if sp & 8 and free and len(a) > 2:
            a = a[1:] + a[:1]
            if sp & 32:
                return f"#[bondrewd({a[0]}, {a[1]})] #[bondrewd({', '.join(a[2:])})] "
        if sp & 32:
            return "".join(f"#[bondrewd({x})] " for x in a)
        return "#[bondrewd(" + ", ".join(a) + ")] "

    def sattrs(self, at, sp, extra=()):
        a = list(extra)
        if at["en"] != "-":
            opt = {"le": ["le", "lsb", "little", "lil"], "be": ["be", "msb", "big"], "ne": ["ne", "native"]}[at["en"]]
            a.append(f"default_endianness = \"{opt[sp // 2 % len(opt)]}\"")
        if at["lsb0"]:
            a.append('read_from = "lsb0"')
        elif sp & 64:
            a.append('read_from = "msb0"')
        if at["rev"]:
            a.append("reverse")
        if at["fill"]:
            a.append(f"fill_bytes = {at['fill']}")
        if at["enf"] == "full":
            a.append("enforce_full_bytes")
        if at["enf"] == "bits":
            a.append(f"enforce_bytes = {at['enfn'] // 8}" if at["enfn"] % 8 == 0 and sp & 1 else f"enforce_bits = {at['enfn']}")
        if sp & 16:
            a.reverse()
        if not a:
            return ""
        if sp & 8 and len(a) > 2:
            a = a[1:] + a[:1]
            if sp & 32:
                return f"#[bondrewd({a[0]}, {a[1]})]\n#[bondrewd({', '.join(a[2:])})]\n"
        if sp & 32:
            return "".join(f"#[bondrewd({x})]\n" for x in a)
        return "#[bondrewd(" + ", ".join(a) + ")]\n"

    def body(self, d, fields, tup, types):
        """types: None, or where to collect the field types, to be passed to a macro"""
        def ty(f):
            t = self.rty(f["ty"], path(d))
            if types is None:
                return t
            types.append(t)
            return f"$t{len(types)}"
        vis = vis_of(d) if d["kind"] == "struct" else ""
        fs = [doc(d) + self.fattrs(f) + vis + ("" if tup else fname(d, i) + ": ") + ty(f) for i, f in enumerate(fields, 1)]
        return "(" + ", ".join(fs) + ")" if tup else "{ " + ", ".join(fs) + " }"

    def rust(self, d):
        if nm(d) % 5 == 4 and d["kind"] != "prim":     # numbers in every notation
            i = iter(range(nm(d), 1 << 20))
            def spell(m):
                v = int(m[2])
                return m[1] + [hex(v), bin(v), oct(v), hex(v).upper().replace("X", "x_") , m[2][0] + "_" + m[2][1:]][next(i) % 5]
            return re.sub(r"((?<!\.)= |\w; )(\d+)\b", spell, self.plain(d))
        return self.plain(d)

    def plain(self, d):
        if not nm(d) >> 12 & 1 or d["kind"] == "prim":
            return self.item(d)
        n, types = self.num(d), []
        text = self.item(d, types)
        return (f"macro_rules! mk{n} {{ (" + ", ".join(f"$t{i}:ty" for i in range(1, len(types) + 1)) + f") => {{\n{text}}} }}\n"
                f"mk{n}!(" + ", ".join(types) + ");\n")

    def item(self, d, types=None):
        n = self.num(d)
        if d["kind"] == "struct":
            s = "#[derive(Bitfields)]\n" + self.sattrs(d["at"], d["sp"], [d["bad"]] if d["bad"] != "-" else [])
            if not d["fields"]:
                return s + f"{vis_of(d)}struct D{n};\n"
            if d["tuple"]:
                return s + f"{vis_of(d)}struct D{n}" + self.body(d, d["fields"], True, types) + ";\n"
            return s + f"{vis_of(d)}struct D{n} " + self.body(d, d["fields"], False, types) + "\n"
        if d["kind"] == "enum":
            ex, sp = [], d["sp"]
            def ln(nm, v):
                ex.append(f"{nm}_byte_length = {v // 8}" if v % 8 == 0 and sp & 1 else f"{nm}_bit_length = {v}")
            if d["idb"] >= 0:
                ln("id", d["idb"])
            if d["payload"] >= 0:
                ln("payload", d["payload"])
            if d["total"] >= 0:
                ex.append(f"enforce_bytes = {d['total'] // 8}" if d["total"] % 8 == 0 and sp & 1 else f"enforce_bits = {d['total']}")
            if d["bad"] != "-":
                ex.append(d["bad"])
            s = ""
            vs = []
            disc = False
            for i, v in enumerate(d["variants"], 1):
                x = []
                if v["inv"]:
                    x.append("invalid")
                if not v["auto"] and v["idattr"]:
                    x.append(f"variant_id = {v['id']}")
                if v["bad"] != "-":
                    x.append(v["bad"])
                t = self.sattrs(v["at"], d["sp"], x).replace("\n", " ") + doc(d) + vname(d, i)
                if v["fields"]:
                    t += self.body(d, v["fields"], v["tuple"], types)
                else:
                    t += ["", " {}", "()", ""][(nm(d) >> 10) + i * bool(nm(d)) & 3]
                if not v["auto"] and not v["idattr"]:
                    t += f" = {v['id']}"
                    disc = True
                vs.append("    " + t)
            idb = d["idb"] if d["idb"] >= 0 else d["total"] - d["payload"]
            s = "#[derive(Bitfields)]\n" + self.sattrs(d["at"], d["sp"], ex)
            if disc:
                s += "#[repr(u%d)]\n" % (8 if idb <= 8 else 16 if idb <= 16 else 32 if idb <= 32 else 64)
            return s + f"{vis_of(d)}enum D{n} {{\n" + ",\n".join(vs) + "\n}\n"
        at = [x for x, on in (("u8", d["u8"]), ("partial_eq", d["peq"])) if on]
        if d["sp"] & 1:
            at.reverse()
        s = "#[derive(BitfieldEnum)]\n" + (f"#[bondrewd_enum({', '.join(at)})]\n" if at else "")
        if any(not v["auto"] for v in d["variants"]) and any(v["prim"] for v in d["variants"]):
            s += "#[repr(u8)]\n"
        vs = []
        for i, v in enumerate(d["variants"], 1):
            t = ("#[bondrewd_enum(invalid)] " if v["inv"] else "") + doc(d) + vname(d, i)
            if v["prim"]:
                t += "{ x: u8 }" if v["named"] else "(u8)"
            if not v["auto"]:
                t += f" = {v['id']}"
            vs.append("    " + t)
        return s + f"pub enum D{n} {{\n" + ",\n".join(vs) + "\n}\n"

    # ---- names in the generated API
    def acc(self, d, v, f):
        if v == 0:
            return f"field_{f - 1}" if d["tuple"] else fname(d, f).replace("r#", "")
        var = d["variants"][v - 1]
        pre = snake(vname(d, v)) + "_"
        if var["tuple"]:
            if var["fields"][f - 1]["cap"]:
                return pre + "variant_id"
            return pre + (f"field_{f - 1}" if var["fields"][0]["cap"] else f"field_{f}")
        return pre + fname(d, f).replace("r#", "")

    # ---- values
    def value(self, t, rnd, how="rand"):
        k = t["k"]
        if k in "uif":
            w = t["w"]
            c = rnd.random()
            if how == "ones": return (1 << w) - 1
            if how == "zero": return 0
            if c < .1: return (1 << w) - 1
            if c < .2: return 1 << rnd.randrange(w)
            if c < .3: return ((1 << w) - 1) ^ (1 << rnd.randrange(w))
            if c < .4: return rnd.getrandbits(rnd.randint(1, w))
            return rnd.getrandbits(w)
        if k == "b":
            return {"ones": 1, "zero": 0}.get(how, rnd.getrandbits(1))
        if k == "c":
            if how == "ones": return 0x10ffff
            if how == "zero": return 0
            while True:
                c = rnd.choice([rnd.randrange(0x80), rnd.randrange(0x10000), rnd.randrange(0x110000), 0xd7ff, 0xe000, 0x10ffff, 0x10000])
                if not 0xd800 <= c < 0xe000:
                    return c
        if k == "a":
            return [self.value(t["of"], rnd, how) for _ in range(t["n"])]
        return self.dvalue(t["ref"], rnd, how)

    def dvalue(self, d, rnd, how="rand", variant=None):
        if d["kind"] == "struct":
            return [self.value(f["ty"], rnd, how) for f in d["fields"]]
        v = variant or rnd.randint(1, len(d["variants"]))
        var = d["variants"][v - 1]
        if d["kind"] == "enum":
            return ("E", v, [self.value(f["ty"], rnd, how) for f in var["fields"]])
        return ("P", v, rnd.getrandbits(8) if var["prim"] else 0)


def tokens(x):
    if isinstance(x, str):
        return x
    if isinstance(x, int):
        return "%x" % x
    if isinstance(x, list):
        return " ".join(tokens(y) for y in x)
    if x[0] == "E":
        return ("%x " % x[1]) + tokens(x[2])
    return "%x %x" % (x[1], x[2])


def vjson(x):
    if isinstance(x, int):
        return "[" + ",".join(map(str, bits(x))) + "]"
    if isinstance(x, list):
        return "[" + ",".join(map(vjson, x)) + "]"
    if x[0] == "E":
        return f"[{x[1]},{vjson(x[2])}]"
    return f"[{x[1]},{vjson(x[2])}]"
