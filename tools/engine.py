"""Drives the real code with generated calls and validates the recorded traces against the specification."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
import buildlib, harness, tlc
from buildlib import ToolError, VERIF, BUILD
from decl import Corpus, bits, tokens, vjson, refs, fields_of

JOBS = 8


class Ev:
    """one call: operation, declaration number, field, value argument, other argument"""
    __slots__ = ("op", "d", "v", "f", "x", "y", "k", "r", "n", "m")

    def __init__(self, op, d, v=0, f=0, x=None, y=None):
        self.op, self.d, self.v, self.f, self.x, self.y = op, d, v, f, x, y

    def line(self):
        s = f"{self.d} {self.op} {self.v} {self.f}"
        if self.op == "load":
            return s + " " + self.y.hex() if self.y else s
        if self.x is not None:
            s += " " + tokens(self.x)
        if self.y is not None:
            s += " " + (" ".join("%x" % c for c in self.y) if isinstance(self.y, list) else "%x" % self.y)
        return s

    def json(self):
        x = "[]" if self.x is None else json.dumps(self.x) if isinstance(self.x, str) else vjson(self.x)
        y = "[]" if self.y is None or self.op == "load" else str(self.y) if isinstance(self.y, list) else str(bits(self.y))
        r = self.r if self.k != "panic" else "[]"
        return f'{{"op":"{self.op}","d":{self.d},"v":{self.v},"f":{self.f},"x":{x},"y":{y},"k":"{self.k}","r":{r},"n":{self.n},"m":{self.m}}}'


def weight(d):
    return 4 + sum(4 + min(40, f["ty"].get("n", 0) * 3) if f["ty"]["k"] in "as" else 3 for f in fields_of(d))


def chunks(corpus, nums, jobs=JOBS, per=None):
    """split declarations into sub-corpora of similar weight (each closed under references)"""
    jobs = max(jobs, -(-len(nums) // per)) if per else jobs
    load = [[0, []] for _ in range(jobs)]
    for n in sorted(nums, key=lambda n: -weight(corpus.decls[n - 1])):
        b = min(load, key=lambda x: x[0])
        b[0] += weight(corpus.decls[n - 1])
        b[1].append(n)
    return [Corpus([corpus.decls[n - 1] for n in sorted(b[1])]) for b in load if b[1]]


class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.events = self.traces = self.decls = 0
        self.ops = {}
        self.diverge = []        # (corpus, event index, event list, info)
        self.rejected = []       # (corpus, number, rustc's message, spec's layout)
        self.accepted = []       # (corpus, number, spec's layout): compiled although the spec rejects it
        self.samples = []
        self.states = self.transitions = self.simulated = 0

    def add(self, c, o):
        with self.lock:
            self._add(c, o)

    def _add(self, c, o):
        self.events += len(o["evs"])
        self.traces += sum(1 for e in o["evs"] if e.op == "load")
        self.decls += o["good"]
        self.simulated += o["simulated"]
        self.transitions += o["stats"][0]
        self.states += o["stats"][1]
        for e in o["evs"]:
            self.ops[e.op] = self.ops.get(e.op, 0) + 1
        self.rejected += [(c, n, m, l) for n, m, l in o["rejected"]]
        self.accepted += [(c, n, l) for n, l in o["accepted"]]
        for dv in o["diverge"]:
            self.diverge.append((c, dv["line"] - 1, o["evs"], dv))
        if o["evs"] and len(self.samples) < 3:
            e = o["evs"][len(o["evs"]) // 2]
            self.samples.append({"declaration": c.rust(c.decls[e.d - 1]), "call": json.loads(e.json())})


def prepare(corpus, ops, lib, w, mine):
    """compiles the harness and asks the spec for the layouts, at the same time"""
    os.makedirs(w, exist_ok=True)
    with cf.ThreadPoolExecutor(1) as ex:
        fu = ex.submit(tlc.layouts, corpus, w)
        binp, good, rejected = harness.compile_set(corpus, range(1, len(corpus) + 1), ops, lib, w, "rs")
        lay, decls = fu.result()
    return binp, good, rejected, lay, decls


def validate(evs, decls, w, heap, timeout, tag="", config="allstd"):
    """the recorded events against the specification -> (divergences, stats)"""
    trace = os.path.join(w, "trace%s.ndjson" % tag)
    with open(trace, "w") as f:
        for e in evs:
            f.write(e.json() + "\n")
    p, path = tlc.start("Trace", "Trace.cfg", os.path.join(w, "tlc" + tag), {"DECLS": decls, "TRACE": trace, "FEATS": config}, heap=heap)
    rc, text = tlc.finish(p, path, timeout)
    if rc != 0:
        raise ToolError(f"trace validation failed to run ({rc}): " + text[-3000:])
    os.unlink(trace)
    return [json.loads(json.loads(ln)[8:]) for ln in text.splitlines() if ln.startswith('"DIVERGE ')], tlc.stats(text)


def execute(binp, evs, timeout):
    """runs the calls on the real code and records reply and buffer of each -> the events that ran"""
    lines, rc = harness.run_bin(binp, [e.line() for e in evs], timeout)
    for e, ln in zip(evs, lines):
        e.k, e.r, n, e.m = ln.split("\t")
        e.n = int(n)
    if len(lines) != len(evs):
        # the process died (abort, stack overflow, ...) or hangs: that is data about the call it died in
        e = evs[len(lines)]
        e.k, e.r, e.n, e.m = "panic", '"no answer"' if rc is None else '"process died"', 0, "[]"
        evs = evs[:len(lines) + 1]
    return evs


def from_tree(sh, t):
    """a value as the specification prints it, for a shape it gave -> the drivers' form"""
    if sh["t"] == "L":
        return sum(1 << b for b in t)
    if sh["t"] == "P":
        return ("P", t[0], sum(1 << b for b in t[1]))
    if sh["t"] == "E":
        return ("E", t[0], [from_tree(s, x) for s, x in zip(sh["vs"][t[0] - 1], t[1])])
    return [from_tree(s, x) for s, x in zip(sh["els" if sh["t"] == "A" else "fs"], t)]


def root_shape(l):
    if "fields" in l:
        return {"t": "S", "fs": [f["shape"] for f in l["fields"]]}
    return {"t": "E", "vs": [[f["shape"] for f in v["fields"]] for v in l["variants"]]}


def behaviours(good, lay, decls, w, num, depth, seed, config="allstd"):
    """the calls of behaviours that TLC generates from the specification (module Gen)"""
    if not any("fields" in lay[n - 1] or "variants" in lay[n - 1] for n in good):
        return []
    p, path = tlc.start("Gen", "Gen.cfg", os.path.join(w, "gen"), {"DECLS": decls, "FEATS": config}, extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)))
    rc, text = tlc.finish(p, path, 300)
    if rc != 0:
        raise ToolError(f"behaviour generation failed ({rc}): " + text[-3000:])
    evs, good = [], set(good)
    for ln in text.splitlines():
        if not ln.startswith('"CALL '):
            continue
        o = json.loads(json.loads(ln)[5:])
        if o["d"] not in good:
            continue
        e, l = Ev(o["op"], o["d"], o["v"], o["f"]), lay[o["d"] - 1]
        if e.op == "load":
            e.y = bytes(sum(128 >> b for b in range(8) if 8 * i + b in set(o["y"]["b"])) for i in range(o["y"]["n"]))
        elif e.op == "wid":
            e.x = sum(1 << b for b in o["x"])
        elif e.op in ("enc", "rt"):
            e.x = from_tree(root_shape(l), o["x"])
        elif e.op in ("write", "ws", "vw", "uw"):
            e.x = from_tree((l["fields"] if e.v == 0 else l["variants"][e.v - 1]["fields"])[e.f - 1]["shape"], o["x"])
        evs.append(e)
    return evs


HIDDEN = ["rs", "ws", "fs", "fv", "chk", "vr", "vmr", "vw", "ur", "umr", "rids", "hexu", "fhs"]


def offers(c, nums, lib, w, names):
    """what exists in this configuration, as events of the trace.  That an offered function exists has been shown by
    compiling calls of it; whether one that is not offered exists is read from the expansion."""
    evs, exp = [], harness.expand(c, nums, lib, w)
    def ev(op, n, v=0, f=0, x=None, r="[]"):
        e = Ev(op, n, v, f, x)
        e.k, e.r, e.n, e.m = "ok", r, 0, "[]"
        evs.append(e)
    def has(n, op, v=0, f=0):
        ps = harness.parts(c, c.decls[n - 1], op, v, f)
        # an offered function has been called; what is left to see is that everybody may call it
        if harness.offered(op, lib["feats"]) and op != "unsafe":
            there = not any((*p, "restricted") in exp[n] for p in ps)
        else:
            there = any(p in exp[n] for p in ps)
        ev("has", n, v, f, op, "true" if there else "false")
    for n in nums:
        d = c.decls[n - 1]
        ev("load", n)
        has(n, "unsafe")
        for op in HIDDEN + ["read", "write", "rid", "wid", "id"] if d["kind"] != "prim" else []:
            if op in ("rids", "rid", "wid", "id") and d["kind"] != "enum":
                continue
            if op in ("rs", "ws", "vr", "vmr", "vw", "read", "write"):
                for v, f in harness.frefs(d):
                    if op not in ("ws", "vw", "write") or harness.writable(d, v, f):
                        has(n, op, v, f)
            else:
                has(n, op)
    if names and nums:
        found = harness.exported(lib, w)
        ev("load", nums[0])
        for x in harness.NAMES:
            ev("name", nums[0], x=x, r="true" if x in found else "false")
    return evs


def run_chunk(idx, corpus, script, ops, lib, work, heap, timeout, only=None):
    """script(corpus, n, layouts) -> list of Ev for declaration n"""
    w = os.path.join(work, f"c{idx}")
    binp, good, rejected, lay, decls = prepare(corpus, ops, lib, w, only)
    evs, ntr = [], 0
    for n in good:
        if lay[n - 1]["ok"]:
            evs += [e for e in script(corpus, n, lay) if harness.offered(e.op, lib["feats"])]
    if getattr(script, "simulate", None):
        gen = [e for e in behaviours(good, lay, decls, w, *script.simulate(len(good), idx), lib["config"]) if e.op == "load" or e.op in ops]
        ntr = len(gen)
        evs += gen
    # a declaration that only fails where it is used was accepted
    odd = {n for n, m in rejected.items() if isinstance(m, harness.Unusable) and not lay[n - 1]["ok"]}
    out = {"rejected": [(n, m, lay[n - 1]) for n, m in rejected.items() if n not in odd], "evs": evs, "diverge": [], "stats": (0, 0, 0),
           "good": len(good), "simulated": ntr, "accepted": [(n, lay[n - 1]) for n in [*good, *odd] if not lay[n - 1]["ok"]]}
    if not evs and "has" not in ops:
        return out
    evs = out["evs"] = execute(binp, evs, min(timeout, 150)) if evs else evs
    os.unlink(binp)
    if "has" in ops:
        evs = out["evs"] = offers(corpus, [n for n in good if lay[n - 1]["ok"]], lib, w, idx == 0) + evs
    out["diverge"], out["stats"] = validate(evs, decls, w, heap, timeout, "", lib["config"])
    return out


def run(corpus, nums, script, ops, flavour="full", work=None, timeout=600, heap="2g", jobs=JOBS, per=None, res=None):
    lib = buildlib.build_lib(flavour)
    lib["bare"] = flavour in buildlib.CONFIGS
    res = res or Result()
    cs = chunks(corpus, nums, jobs, per)
    for c in cs:
        c.flavour = flavour
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(run_chunk, i, c, script, ops, lib, work, heap, timeout) for i, c in enumerate(cs)]
        for c, fu in zip(cs, futs):
            res.add(c, fu.result())
    return res


def calls(evs, i):
    """the calls since the buffer was last loaded, up to and including call i"""
    start = i
    while start > 0 and not (evs[start].op == "load" and evs[start].d == evs[i].d):
        start -= 1
    return evs[start:i + 1]


def describe(c, i, evs, dv):
    e = evs[i]
    return {"declarations": [c.rust(c.decls[n - 1]) for n in c.closure([e.d])],
            "call": e.line(), "accessor": c.acc(c.decls[e.d - 1], e.v, e.f) if e.f else None,
            "observed": {"kind": e.k, "reply": e.r, "bytes": e.n, "bits": json.loads(e.m)},
            "expected": {"reply": dv["want"], "bits": sorted(dv["mem"])}, "before": sorted(dv["before"]),
            "history": [x.line() for x in calls(evs, i)][-60:]}
