#!/usr/bin/env python3
"""check.py Cxx [--seed N] [--tier quick|thorough] [--replay FILE]: decides one property on /repo's current tree."""
import concurrent.futures as cf, json, os, random, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import buildlib, engine, harness, mini, props, tlc
from buildlib import ToolError, VERIF, BUILD
from decl import Corpus, vjson


def arg(name, default=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def make_script(recipe, salt, k):
    def script(c, n, lay):
        x = props.X(c, n, lay, salt)
        if x.kind != "prim" or recipe.prims:
            recipe(x, k)
        return x.out
    if getattr(recipe, "simulate", 0):       # behaviours per declaration
        script.simulate = lambda good, idx: (max(20, good * recipe.simulate * k), 32, random.Random(f"{salt}|{idx}").getrandbits(31))
    return script


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)).get("known", []) if os.path.exists(p) else []


class Check:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier, self.t0 = prop, seed, tier, time.time()
        self.work = os.path.join(BUILD, "work", f"{prop}.{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.res = engine.Result()
        self.violations, self.findings, self.notes, self.extra = [], [], {}, {}

    def violation(self, cls, info):
        for k in known():
            if k["property"] == self.prop and all(s in json.dumps(info) for s in k["match"]):
                if k["what"] not in self.findings:
                    self.findings.append(k["what"])
                return
        self.violations.append((cls, info))

    # -- the property on the specification itself: every call in every buffer of small declarations
    def model_start(self):
        deep = self.tier != "quick"
        c = mini.family(self.prop, deep, self.seed)
        w = os.path.join(self.work, "mc")
        os.makedirs(w)
        with open(os.path.join(w, "decls.json"), "w") as f:
            f.write(c.json())
        env = {"DECLS": os.path.join(w, "decls.json"), "PROP": self.prop, "DEEP": "1" if deep else "0"}
        self.mc = (time.time(), len(c), *tlc.start("MC", "MC.cfg", w, env, heap="6g" if deep else "3g", workers="3"))

    def model_finish(self):
        t, n, p, path = self.mc
        end = t + (300 if self.tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "800")))
        rc, text = tlc.finish(p, path, max(5, end - time.time()))
        gen, distinct, depth = tlc.stats(text)
        if rc is None:
            m = tlc.progress(text)
            gen, distinct = m if m else (gen, distinct)
        elif rc != 0:
            raise ToolError("the specification does not have the property:\n" + tlc.trim(text))
        self.extra["model"] = {"module": "MC", "declarations": n, "states": distinct, "transitions": gen, "depth": depth,
                               "complete": rc == 0, "wall_s": round(time.time() - t, 1)}

    # -- conformance of the generated code
    def conform(self, scale, seed, k=1):
        r = random.Random(f"{self.prop}.{seed}")
        plan = props.plan(self.prop, r, scale)
        side = 4 if len(plan) > 2 else 1         # many small parts: side by side
        def part(q):
            i, (fl, recipe, ds) = q
            c = Corpus(ds)
            try:
                engine.run(c, range(1, len(c) + 1), make_script(recipe, f"{self.prop}.{seed}", k), recipe.ops, fl, os.path.join(self.work, f"{i}.{fl}"),
                           jobs=engine.JOBS // side, per=260, res=self.res)
            except buildlib.BuildError as e:
                # a configuration in which the library itself does not build, although it does in the others
                if self.prop != "C22":
                    raise
                return fl, str(e)
        with cf.ThreadPoolExecutor(side) as ex:
            bad = [x for x in ex.map(part, enumerate(plan)) if x]
        if len(bad) == len(plan):
            raise ToolError(bad[0][1])
        for fl, msg in bad:
            self.violation("configuration " + fl, {"observed": msg[-1500:], "expected": "bondrewd builds with features " + ", ".join(["derive"] + buildlib.CONFIGS[buildlib.config(fl)]),
                           "replay": {"flavour": fl, "decls": [], "calls": []}})
        self.collect()
        self.verdicts(self.prop in ("C12", "C14", "C19"))

    def collect(self):
        per, num = {}, {}
        for c, i, evs, dv in self.res.diverge:
            e = evs[i]
            d = c.decls[e.d - 1]
            size = len(c.rust(d)) + len(evs)
            cls = (e.op, e.k)
            num[cls] = num.get(cls, 0) + 1
            if cls not in per or size < per[cls][0]:
                per[cls] = (size, c, i, evs, dv)
        for cls, (_, c, i, evs, dv) in per.items():
            info = dict(engine.describe(c, i, evs, dv), count=num[cls])
            info["replay"] = self.replayable(c, i, evs)
            self.violation("call " + "/".join(cls), info)
        self.res.diverge = []

    def verdicts(self, both):
        """rustc's verdict on each declaration against the specification's: a valid declaration that does not compile has none
        of the functions the property is about; accepting an invalid one is the concern of `both` only"""
        per = {}
        count = self.extra.setdefault("declarations_rejected_as_specified", {})
        for c, n, msg, l in self.res.rejected:
            if not l["ok"]:
                count[l["why"]] = count.get(l["why"], 0) + 1
        for c, n, msg, l in self.res.rejected:
            if l["ok"] and not msg.startswith("depends on"):
                per.setdefault(("rejected", msg[:40]), []).append((c, n, msg, "accepted"))
        for c, n, l in self.res.accepted if both else []:
            per.setdefault(("accepted", l["why"]), []).append((c, n, "compiles", "rejected: " + l["why"]))
        for cls, xs in per.items():
            c, n, got, want = min(xs, key=lambda q: len(q[0].rust(q[0].decls[q[1] - 1])))
            nums = c.closure([n])
            sub = Corpus([c.decls[i - 1] for i in nums])
            self.violation("verdict " + "/".join(cls), {"declarations": [c.rust(c.decls[i - 1]) for i in nums], "observed": got, "expected": want,
                           "count": len(xs), "replay": {"flavour": c.flavour, "verdict": want, "decls": [sub.dump(d) for d in sub.decls], "calls": []}})
        self.res.rejected, self.res.accepted = [], []

    def replayable(self, c, i, evs):
        cs = engine.calls(evs, i)
        nums = c.closure([evs[i].d])
        sub = Corpus([c.decls[n - 1] for n in nums])
        return {"flavour": c.flavour, "decls": [sub.dump(d) for d in sub.decls], "calls": [[e.op, sub.num(c.decls[e.d - 1]), e.v, e.f, e.x, e.y.hex() if isinstance(e.y, bytes) else e.y] for e in cs]}

    def finish(self, level="model_checking"):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": dict({"states": self.res.states, "transitions": self.res.transitions, "traces_validated_against_impl": self.res.traces,
                                "declarations": self.res.decls, "events": self.res.events, "events_per_operation": self.res.ops,
                                **({"calls_generated_by_TLC_from_the_specification": self.res.simulated} if self.res.simulated else {}),
                                "samples": self.res.samples}, **self.extra),
              "wall_s": round(time.time() - self.t0, 1), "notes": self.notes,
              "violations": len(self.violations), "known_findings": self.findings}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for w in self.findings:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        for i, (cls, info) in enumerate(self.violations[:5]):
            path = os.path.join(BUILD, "replay", f"{self.prop}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(info, property=self.prop, seed=self.seed, tier=self.tier, **{"class": cls}), f, indent=1)
            print(f"-- {cls} ({info.get('count')} times): " + json.dumps({k: info[k] for k in info if k in ("call", "accessor", "observed", "expected", "message")})[:1500])
            for d in info.get("declarations", [])[-3:]:
                print(d[:1500])
            print(f"VIOLATION property={self.prop} replay={path}")
        shutil.rmtree(self.work, ignore_errors=True)
        print(f"{self.prop} {self.tier}: {self.res.decls} declarations, {self.res.events} calls in {self.res.traces} traces, "
              f"{len(self.violations)} violation(s), {time.time() - self.t0:.0f} s")
        return 1 if self.violations else 0

    def run(self):
        self.model_start()
        try:
            self.explore()
            self.model_finish()
        finally:
            if self.mc[2].poll() is None:
                self.mc[2].kill()
                self.mc[2].wait()
        return self.finish()

    def explore(self):
        if self.tier == "quick":
            self.conform(1.0, self.seed)
        else:
            end = self.t0 + float(os.environ.get("VERIF_THOROUGH_S", "800"))
            i = 0
            while True:
                self.conform(2.5 if i else 1.0, self.seed + 1000 * i, 1 + (i > 0))
                i += 1
                if self.violations or time.time() + (time.time() - self.t0) / i > end:
                    break


def replay(path):
    o = json.load(open(path))
    c = Corpus.undump(o["replay"]["decls"])
    flavour = o["replay"].get("flavour", "full")
    try:
        lib = buildlib.build_lib(flavour)
    except buildlib.BuildError as e:
        print("VIOLATION", e)
        return 1
    if not o["replay"]["decls"]:
        print("conforms")
        return 0
    lib["bare"] = flavour in buildlib.CONFIGS
    w = os.path.join(BUILD, "work", "replay")
    shutil.rmtree(w, ignore_errors=True)
    def unj(x): return tuple([x[0], x[1], unj(x[2])]) if isinstance(x, list) and x and x[0] in ("E", "P") else [unj(y) for y in x] if isinstance(x, list) else x
    def script(cc, n, lay):
        if n != len(cc) or "verdict" in o["replay"]:
            return []
        return [engine.Ev(op, n, v, f, unj(x) if x is not None else None, bytes.fromhex(y) if op == "load" else y) for op, d, v, f, x, y in o["replay"]["calls"]
                if op not in ("has", "name") and not (op == "load" and y is None)]
    ops = {q[0] for q in o["replay"]["calls"]}
    out = engine.run_chunk(0, c, script, ops, lib, w, "2g", 300)
    for d in c.decls:
        print(c.rust(d))
    for e in out["evs"]:
        print(e.line(), "->", e.k, e.r, e.m)
    for d in out["diverge"]:
        print("DIVERGES at call", d["line"], "expected", json.dumps(d["want"]), "bits", sorted(d["mem"]))
    bad = out["diverge"] or [n for n, _, l in out["rejected"] if l["ok"]] or out["accepted"]
    print("rejected by rustc:" if out["rejected"] else "", *(m for _, m, _ in out["rejected"]))
    print("VIOLATION" if bad else "conforms")
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        if "--replay" in sys.argv:
            sys.exit(replay(arg("--replay")))
        seed = int(arg("--seed", os.environ.get("VERIF_SEED", "1")))
        tier = arg("--tier", os.environ.get("VERIF_TIER", "quick"))
        sys.exit(Check(sys.argv[1], seed, tier).run())
    except ToolError as e:
        print("ERROR:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
