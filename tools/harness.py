"""Generates, compiles and runs the Rust side: the real derives plus a small op interpreter per declaration."""
import concurrent.futures as cf, json, os, re, subprocess, tempfile
import buildlib
from buildlib import ToolError
from decl import Corpus, fname, vname, snake, refs

RT = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rt.rs")).read()
DYN = {"rs", "ws", "fs", "fv", "chk", "vr", "vmr", "vw", "ur", "umr", "uw", "rids", "fhs", "fhv", "vsizes"}
HEX = {"hexu", "hexl", "fh", "fhs", "fhv", "hsize"}
ALL = ["read", "write", "dec", "enc", "rs", "ws", "fs", "fv", "chk", "vr", "vmr", "vw", "rid", "rids", "wid", "id", "ideq",
       "rt", "redec", "hexu", "hexl", "fh", "fhs", "fhv", "sizes", "vsizes", "hsize"]


def offered(op, feats): return (op not in DYN or "dyn_fns" in feats) and (op not in HEX or "hex_fns" in feats)


def frefs(d):
    if d["kind"] == "struct":
        return [(0, i) for i in range(1, len(d["fields"]) + 1)]
    if d["kind"] == "enum":
        return [(v, i) for v in range(1, len(d["variants"]) + 1) for i in range(1, len(d["variants"][v - 1]["fields"]) + 1)]
    return []


def writable(d, v, f): return v == 0 or not d["variants"][v - 1]["fields"][f - 1]["cap"]


def vimpl(c, d):
    n = c.num(d)
    if d["kind"] == "struct":
        names = [str(i) if d["tuple"] else fname(d, i + 1) for i in range(len(d["fields"]))]
        get = (f"D{n}(" + ", ".join("V::get(p)" for _ in names) + ")") if d["tuple"] else \
            f"D{n} {{ " + ", ".join(f"{x}: V::get(p)" for x in names) + " }"
        put = "".join((" o.push(',');" if i else "") + f" self.{x}.put(o);" for i, x in enumerate(names))
        return f"impl V for D{n} {{ fn get(p: &mut P) -> Self {{ {get} }} fn put(&self, o: &mut String) {{ o.push('[');{put} o.push(']') }} }}\n"
    gets, puts = "", ""
    for i, v in enumerate(d["variants"], 1):
        nm = f"D{n}::{vname(d, i)}"
        if d["kind"] == "prim":
            pat = "" if not v["prim"] else "{ x }" if v["named"] else "(x)"
            con = pat.replace("x", "x: tok(p) as u8") if "{" in pat else pat.replace("x", "tok(p) as u8")
            gets += f"{i} => " + (f"{nm}{con}" if v["prim"] else f"{{ tok(p); {nm} }}") + ", "
            puts += f"{nm}{pat} => {{ o.push_str(\"[{i},\"); " + ("bits(*x as u128, o)" if v["prim"] else "o.push_str(\"[]\")") + "; o.push(']') } "
            continue
        k = len(v["fields"])
        if not k:
            pat, con = " {}", " {}"
        elif v["tuple"]:
            pat = "(" + ", ".join(f"a{j}" for j in range(k)) + ")"
            con = "(" + ", ".join("V::get(p)" for _ in range(k)) + ")"
        else:
            pat = " { " + ", ".join(f"{fname(d, j + 1)}: a{j}" for j in range(k)) + " }"
            con = " { " + ", ".join(f"{fname(d, j + 1)}: V::get(p)" for j in range(k)) + " }"
        gets += f"{i} => {nm}{con}, "
        puts += f"{nm}{pat} => {{ o.push_str(\"[{i},[\");" + "".join((" o.push(',');" if j else "") + f" a{j}.put(o);" for j in range(k)) + " o.push_str(\"]]\") } "
    return (f"impl V for D{n} {{ fn get(p: &mut P) -> Self {{ match tok(p) {{ {gets} _ => panic!(\"TOOL: variant\") }} }} "
            f"fn put(&self, o: &mut String) {{ match self {{ {puts} }} }} }}\n")


def runner(c, d, ops):
    n = c.num(d)
    T = f"D{n}"
    A = []
    def per_field(op, fn, wr=False):
        if op not in ops:
            return
        fs = [(v, f) for v, f in frefs(d) if not wr or writable(d, v, f)]
        A.append(f"\"{op}\" => match (v, f) {{ " + " ".join(f"({v}, {f}) => {{ {fn(c.acc(d, v, f))} }}" for v, f in fs)
                 + " _ => panic!(\"TOOL: field\") },")
    def one(op, code):
        if op in ops:
            A.append(f"\"{op}\" => {{ {code} }},")
    if d["kind"] == "prim":
        one("fp", f"ok({T}::from_primitive(tok(p) as u8))")
        one("ip", f"ok(<{T} as V>::get(p).into_primitive())")
        if d["peq"]:
            one("peq", f"let x = <{T} as V>::get(p); raw((x == (tok(p) as u8)).to_string())")
    else:
        per_field("read", lambda a: f"ok({T}::read_{a}(arr(m)))")
        per_field("write", lambda a: f"let x = V::get(p); {T}::write_{a}(arm(m), x); done()", True)
        one("dec", f"ok(<{T} as Bitfields<_>>::from_bytes(own(m)))")
        one("enc", f"let x = <{T} as V>::get(p); *m = x.into_bytes().to_vec(); done()")
        per_field("rs", lambda a: f"match {T}::read_slice_{a}(m) {{ Ok(x) => ok(x), Err(e) => len(e) }}")
        per_field("ws", lambda a: f"let x = V::get(p); match {T}::write_slice_{a}(m, x) {{ Ok(_) => done(), Err(e) => len(e) }}", True)
        one("fs", f"match {T}::from_slice(m) {{ Ok(x) => ok(x), Err(e) => len(e) }}")
        one("fv", f"match {T}::from_vec(m) {{ Ok(x) => ok(x), Err(e) => len(e) }}")
        one("chk", f"let a = match {T}::check_slice(m) {{ Ok(_) => done(), Err(e) => len(e) }}; "
                   f"let b = match {T}::check_slice_mut(m) {{ Ok(_) => done(), Err(e) => len(e) }}; if a == b {{ a }} else {{ (\"differ\", \"[]\".into()) }}")
        per_field("vr", lambda a: f"match {T}::check_slice(m) {{ Ok(w) => ok(w.read_{a}()), Err(e) => len(e) }}")
        per_field("vmr", lambda a: f"match {T}::check_slice_mut(m) {{ Ok(w) => ok(w.read_{a}()), Err(e) => len(e) }}")
        per_field("vw", lambda a: f"let x = V::get(p); match {T}::check_slice_mut(m) {{ Ok(mut w) => {{ w.write_{a}(x); done() }}, Err(e) => len(e) }}", True)
        per_field("ur", lambda a: f"ok({T}Checked::from_unchecked_slice(m).read_{a}())")
        per_field("umr", lambda a: f"ok({T}CheckedMut::from_unchecked_slice(m).read_{a}())")
        per_field("uw", lambda a: f"let x = V::get(p); {T}CheckedMut::from_unchecked_slice(m).write_{a}(x); done()", True)
        if d["kind"] == "enum":
            one("rid", f"ok({T}::read_variant_id(arr(m)))")
            one("rids", f"match {T}::read_slice_variant_id(m) {{ Ok(x) => ok(x), Err(e) => len(e) }}")
            one("wid", f"let x = V::get(p); {T}::write_variant_id(arm(m), x); done()")
            one("id", f"ok(<{T} as V>::get(p).id())")
            one("ideq", f"let x = <{T} as V>::get(p); let y = V::get(p); raw((x == y).to_string())" if False else
                        f"let x = <{T} as V>::get(p); let mut y = x.id(); y = V::get(p); raw((x == y).to_string())")
            if "vsizes" in ops:
                A.append("\"vsizes\" => match v { " + " ".join(
                    f"{i} => raw(format!(\"[{{}},{{}}]\", {T}::{snake(vname(d, i)).upper()}_BIT_SIZE, {T}::{snake(vname(d, i)).upper()}_BYTE_SIZE)),"
                    for i in range(1, len(d["variants"]) + 1)) + " _ => panic!(\"TOOL: variant\") },")
        one("rt", f"let x = <{T} as V>::get(p); ok(<{T} as Bitfields<_>>::from_bytes(x.into_bytes()))")
        one("redec", f"let x = <{T} as Bitfields<_>>::from_bytes(own(m)); ok(<{T} as Bitfields<_>>::from_bytes(x.into_bytes()))")
        one("hexu", f"let x = <{T} as V>::get(p); codes(&x.into_hex_upper())")
        one("hexl", f"let x = <{T} as V>::get(p); codes(&x.into_hex_lower())")
        one("fh", f"let t = list(p); match <{T} as BitfieldHex<_, _>>::from_hex(own(&t)) {{ Ok(x) => ok(x), Err(e) => hex(e) }}")
        one("fhs", f"let t = list(p); match <{T} as BitfieldHexDyn<_, _>>::from_hex_slice(&t) {{ Ok(x) => ok(x), Err(e) => hexd(e) }}")
        one("fhv", f"let mut t = list(p); match <{T} as BitfieldHexDyn<_, _>>::from_hex_vec(&mut t) {{ Ok(x) => ok(x), Err(e) => hexd(e) }}")
        one("hsize", f"raw(<{T} as BitfieldHex<_, _>>::HEX_SIZE.to_string())")
        one("sizes", f"raw(format!(\"[{{}},{{}}]\", {T}::BIT_SIZE, {T}::BYTE_SIZE))")
    return (f"fn run{n}(op: &str, v: usize, f: usize, m: &mut Vec<u8>, p: &mut P) -> R {{ match op {{\n" + "\n".join(A)
            + "\n_ => panic!(\"TOOL: op\") } }\n")


BARE = """\n#![no_std]\n#![forbid(unsafe_code)]\nextern crate std as hoststd;"""
HOST = """mod h {
use super::*;
use hoststd::prelude::rust_2021::*;
use hoststd::{format, vec, eprintln, println};
"""


class Source:
    """One Rust program for a set of declarations; knows which lines belong to which declaration."""

    def __init__(self, c, nums, ops, bare=False):
        """bare: the declarations live in a no_std crate; only the driver around them uses std"""
        self.lines, self.owner = [], {}
        self.add(0, "#![allow(warnings)]" + (BARE if bare else ""))
        self.add(0, "use bondrewd::*;" if bare else "use bondrewd::*;\n" + RT)
        self.add(0, "pub mod api {\nuse ::bondrewd::*;")            # used from outside, as by another module or crate
        for n in nums:
            self.add(n, c.rust(c.decls[n - 1]))
        self.add(0, "}\npub use api::*;")
        if bare:
            self.add(0, HOST + RT.replace("std::", "hoststd::"))
        for n in nums:
            self.add(n, vimpl(c, c.decls[n - 1]) + runner(c, c.decls[n - 1], ops))
        self.add(0, "fn run(d: usize, op: &str, v: usize, f: usize, m: &mut Vec<u8>, p: &mut P) -> R { match d {"
                 + " ".join(f"{n} => run{n}(op, v, f, m, p)," for n in nums) + " _ => panic!(\"TOOL: decl\") } }")
        self.add(0, "pub fn main() { drive(run) }" + ("\n}\nfn main() { h::main() }" if bare else ""))

    def add(self, n, text):
        for ln in text.rstrip("\n").split("\n"):
            self.lines.append(ln)
            self.owner[len(self.lines)] = n

    def text(self): return "\n".join(self.lines) + "\n"


class Nobodys(ToolError):
    """an error of rustc which points at no declaration"""


def blame(src, out):
    """-> {decl number: first message}; raises Nobodys when an error is nobody's"""
    hit = {}
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        if m["message"].startswith("aborting due to"):
            continue
        owners = set()
        def walk(s):
            while s:
                o = src.owner.get(s["line_start"], 0) if s["file_name"].endswith("main.rs") else 0
                if o:
                    owners.add(o)
                    return
                s = (s.get("expansion") or {}).get("span")
        for s in sorted(m["spans"], key=lambda s: not s["is_primary"]):
            if not owners:
                walk(s)
        if not owners:
            raise Nobodys("compile error outside any declaration: " + m.get("rendered", m["message"])[:2000])
        for o in owners:
            hit.setdefault(o, m["message"] + " | " + (m["spans"][0]["label"] or "" if m["spans"] else ""))
    return hit


def guilty(c, nums, ops, lib, work, depth=0):
    """the declarations whose mere use makes the program fail to compile, at no particular place -> {number: why}"""
    try:
        compile_set(c, sorted({m for n in nums for m in c.closure([n])}), ops, lib, work, f"g{depth}", search=False)
        return {}
    except Nobodys as e:
        if len(nums) == 1:
            return {nums[0]: str(e)}
    h = len(nums) // 2
    out = guilty(c, nums[:h], ops, lib, work, depth + 1)
    return {**out, **guilty(c, nums[h:], ops, lib, work, depth + 1)}


class Unusable(str):
    """why a declaration which compiles cannot be used"""


def compile_set(c, nums, ops, lib, work, tag, search=True):
    """Compiles the declarations (dropping those rustc rejects) -> (binary or None, ok numbers, {rejected: why})"""
    rejected, nums = {}, list(nums)
    d = os.path.join(work, tag)
    os.makedirs(d, exist_ok=True)
    path, binp = os.path.join(d, "main.rs"), os.path.join(d, "bin")
    ops = [o for o in ops if offered(o, lib["feats"])]
    for _ in range(12):
        src = Source(c, nums, ops, lib.get("bare"))
        with open(path, "w") as f:
            f.write(src.text())
        extra = ["--error-format=json", "-C", "codegen-units=1", "-C", "opt-level=0"]
        extra += [x for f in sorted(lib["feats"]) for x in ("--cfg", f)]
        p = buildlib.rustc(lib, path, binp, extra)
        try:
            out, _ = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError("rustc timed out")
        if p.returncode == 0:
            return binp, nums, rejected
        try:
            hit = blame(src, out)
        except Nobodys:
            if not search:
                raise
            hit = guilty(c, nums, ops, lib, work)
            hit = {n: Unusable(m) for n, m in hit.items() if not any(k in hit for k in c.closure([n]) if k != n)}
        if not hit:
            raise ToolError("rustc failed without a message: " + out[-2000:])
        rejected.update({k: v for k, v in hit.items() if k not in rejected})
        gone = set(rejected)
        changed = True
        while changed:
            changed = False
            for n in nums:
                if n not in gone and any(c.num(r) in gone for r in refs(c.decls[n - 1])):
                    gone.add(n)
                    rejected[n] = "depends on a rejected declaration"
                    changed = True
        nums = [n for n in nums if n not in gone]
        if not nums:
            return None, [], rejected
    raise ToolError("rustc keeps failing")


def expand(c, nums, lib, work):
    """rustc's expansion of the declarations -> {number: what was generated for it}: pairs (type suffix, function or const),
    "impl Trait" and "unsafe" """
    d = os.path.join(work, "expand")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write("#![no_std]\n#![allow(warnings)]\nuse bondrewd::*;\n" + "".join(c.rust(c.decls[n - 1]) for n in nums))
    p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "-Zunpretty=expanded", "--extern", "bondrewd=" + lib["rlib"],
                        "-L", "dependency=" + lib["deps"], os.path.join(d, "main.rs")], env=dict(buildlib.ENV, RUSTC_BOOTSTRAP="1"),
                       capture_output=True, text=True, timeout=600)
    out, ty = {n: set() for n in nums}, None
    if "impl" not in p.stdout:
        raise ToolError("no expansion: " + p.stderr[-2000:])
    for ln in p.stdout.splitlines():
        m = re.match(r"(?:unsafe )?impl(?:<.*?>)?\s+(?:(.+?) for )?D(\d+)(CheckedMut|Checked|)\b", ln)
        if m:
            ty = (int(m[2]), m[3])
            if m[1]:
                out[ty[0]].add("impl " + re.sub(r"<.*", "", m[1]).split("::")[-1])
        elif re.match(r"[a-z#].*\bD\d+", ln):
            ty = None
        if ty and (m := re.match(r"    (?:pub(?:\(.*?\))? )?(?:const |unsafe |async )*(?:fn|const) ((?:r#)?\w+)", ln)):
            out[ty[0]].add((ty[1], m[1].replace("r#", "")))
            if ln.startswith("    pub("):           # only part of the program may use it
                out[ty[0]].add((ty[1], m[1].replace("r#", ""), "restricted"))
        if re.search(r"\bunsafe\b", re.sub(r"//.*|\"(\\.|[^\"\\])*\"", "", ln)):
            out[ty[0] if ty else nums[0]].add("unsafe")
    return out


def parts(c, d, op, v, f):
    """what an operation's existence shows in"""
    a = c.acc(d, v, f) if f else None
    return {"rs": [("", f"read_slice_{a}")], "ws": [("", f"write_slice_{a}")], "fs": [("", "from_slice"), "impl BitfieldsDyn"],
            "fv": [("", "from_vec"), "impl BitfieldsDyn"], "chk": [("", "check_slice"), ("", "check_slice_mut")],
            "vr": [("Checked", f"read_{a}")], "vmr": [("CheckedMut", f"read_{a}")], "vw": [("CheckedMut", f"write_{a}")],
            "ur": [("Checked", "from_unchecked_slice")], "umr": [("CheckedMut", "from_unchecked_slice")],
            "rids": [("", "read_slice_variant_id")], "read": [("", f"read_{a}")], "write": [("", f"write_{a}")], "rid": [("", "read_variant_id")],
            "wid": [("", "write_variant_id")], "id": [("", "id")],
            "hexu": ["impl BitfieldHex"], "fhs": ["impl BitfieldHexDyn"], "unsafe": ["unsafe"]}[op]


NAMES = ["Bitfields", "BitfieldEnum", "BitfieldsDyn", "BitfieldLengthError", "BitfieldHex", "BitfieldHexError", "BitfieldHexDyn", "BitfieldHexDynError",
         "BitfieldLengthError:Error", "BitfieldHexError:Error", "BitfieldHexDynError:Error"]


def exported(lib, work):
    """which of NAMES exist in this configuration of the library, according to rustc"""
    d = os.path.join(work, "names." + lib["config"])
    os.makedirs(d, exist_ok=True)
    path, found, left = os.path.join(d, "main.rs"), set(), [n for n in NAMES if ":" not in n]
    def errors(lines):
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        p = buildlib.rustc(lib, path, os.path.join(d, "o.rmeta"), ["--crate-type", "lib", "--emit=metadata", "--error-format=json"])
        bad = set()
        for ln in p.communicate(timeout=300)[0].splitlines():
            m = json.loads(ln) if ln.startswith("{") else {}
            if m.get("level") == "error" and m.get("spans"):
                bad.add(m["spans"][0]["line_start"] - 2)
        return bad
    head = "fn main() {} pub fn q<T: ::std::error::Error>() {}"
    bad = errors([head] + [f"pub use ::bondrewd::{n} as N{i};" for i, n in enumerate(left)])
    found = {n for i, n in enumerate(left) if i not in bad}
    left = [n for n in NAMES if ":" in n and n.split(":")[0] in found]
    bad = errors([head] + [f"pub fn f{i}() {{ q::<::bondrewd::{n.split(':')[0]}>() }}" for i, n in enumerate(left)])
    return found | {n for i, n in enumerate(left) if i not in bad}


def run_bin(binp, lines, timeout=300):
    """-> (lines it answered, exit code or None if it had to be stopped)"""
    out = binp + ".out"
    with open(binp + ".in", "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(binp + ".in") as i, open(out, "w") as o:
        p = subprocess.Popen([binp], stdin=i, stdout=o, stderr=subprocess.PIPE, text=True)
        try:
            err, rc = p.communicate(timeout=timeout)[1], p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            err, rc = p.communicate()[1], None
    if rc == 3:
        raise ToolError("harness: " + err[-1000:])
    text = open(out).read()
    os.unlink(out)
    os.unlink(binp + ".in")
    got = text.split("\n")[:-1]              # a line cut off by the death of the process is no answer
    return got, rc
