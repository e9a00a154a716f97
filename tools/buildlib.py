"""Builds bondrewd in the configurations of its features (std, dyn_fns, hex_fns; always with derive) from /repo's current
sources into /verif/build, through generated manifests (the repository's own manifest names an unreachable private
registry), and compiles harness crates against the result with plain rustc."""
import hashlib, json, os, re, subprocess, sys, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BONDREWD_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.98.1-x86_64-unknown-linux-gnu",
           CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_ENCODED_RUSTFLAGS="")
ENV.pop("RUSTFLAGS", None)


class ToolError(Exception):
    pass


class BuildError(ToolError):
    """the library does not compile in a configuration"""


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def _val(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {_val(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(map(_val, v)) + "]"
    return json.dumps(v)


def manifests(flavour, features):
    ws = os.path.join(BUILD, "ws_" + flavour)
    derive = tomllib.load(open(f"{REPO}/bondrewd-derive/Cargo.toml", "rb"))
    main = tomllib.load(open(f"{REPO}/bondrewd/Cargo.toml", "rb"))
    deps = {k: v for k, v in derive.get("dependencies", {}).items()}
    out = "[package]\nname = \"bondrewd-derive\"\nversion = \"0.0.1\"\nedition = \"2021\"\n"
    out += f"[lib]\nproc-macro = true\npath = \"{REPO}/bondrewd-derive/src/lib.rs\"\n[dependencies]\n"
    out += "".join(f"{k} = {_val(v)}\n" for k, v in deps.items())
    out += "[features]\n" + "".join(f"{k} = {_val(v)}\n" for k, v in derive.get("features", {}).items())
    put(f"{ws}/bondrewd-derive/Cargo.toml", out)
    out = "[package]\nname = \"bondrewd\"\nversion = \"0.0.1\"\nedition = \"2021\"\n"
    out += f"[lib]\npath = \"{REPO}/bondrewd/src/lib.rs\"\n"
    out += "[dependencies]\nbondrewd-derive = { path = \"../bondrewd-derive\", optional = true }\n"
    out += "[features]\n" + "".join(f"{k} = {_val(v)}\n" for k, v in main.get("features", {}).items())
    put(f"{ws}/bondrewd/Cargo.toml", out)
    put(f"{ws}/Cargo.toml", "[workspace]\nresolver = \"2\"\nmembers = [\"bondrewd\", \"bondrewd-derive\"]\n"
        "[profile.dev]\ndebug = false\nincremental = false\n[profile.release]\nopt-level = 1\n")
    lock = os.path.join(VERIF, "harness", "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(f"{ws}/Cargo.lock"):
        put(f"{ws}/Cargo.lock", open(lock).read())
    return ws


# flavour -> features; the specification knows them by the same names (Bondrewd!Config)
CONFIGS = {a + b: ([] if not b else ["std"]) + {"min": [], "dyn": ["dyn_fns"], "hex": ["hex_fns"], "all": ["dyn_fns", "hex_fns"]}[a]
           for a in ("min", "dyn", "hex", "all") for b in ("", "std")}
ALIAS = {"full": "allstd", "nodyn": "hexstd", "rel": "hexstd", "relfull": "allstd"}


def release(flavour): return flavour.startswith("rel")


def config(flavour): return ALIAS.get(flavour, flavour)


def build_lib(flavour="full"):
    """-> dict(rlib=..., deps=...) of bondrewd built from /repo's current tree."""
    feats = CONFIGS[config(flavour)]
    features = ",".join(["derive"] + feats)
    ws = manifests(flavour, features)
    target = os.path.join(BUILD, "target_" + flavour)
    env = dict(ENV, CARGO_TARGET_DIR=target)
    # std is a default feature: ask for it the way users do
    args = ["--no-default-features"] if "std" not in feats else []
    args += ["--release"] if release(flavour) else []
    p = subprocess.run(["cargo", "build", "--offline", "-p", "bondrewd", "--features", ",".join(f for f in features.split(",") if f != "std"), *args,
                        "--message-format=json"], cwd=ws, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        errs = []
        for line in p.stdout.splitlines():
            if line.startswith("{"):
                m = json.loads(line)
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                    errs.append(m["message"]["rendered"])
        raise BuildError("bondrewd does not build:\n" + p.stderr[-1500:] + "".join(errs)[:1500])
    rlib = None
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "bondrewd":
            rlib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    if not rlib:
        raise ToolError("no rlib reported")
    return {"rlib": rlib, "deps": os.path.join(target, "release" if release(flavour) else "debug", "deps"), "flavour": flavour, "feats": set(feats), "config": config(flavour)}


def rustc(lib, src, out, extra=()):
    checks = "off" if release(lib["flavour"]) else "on"
    return subprocess.Popen(["rustc", "--edition", "2021", "-A", "warnings", "--extern", "bondrewd=" + lib["rlib"],
                             "-L", "dependency=" + lib["deps"], "-C", "debuginfo=0", "-C", f"overflow-checks={checks}",
                             "-C", f"debug-assertions={checks}", "-o", out, src, *extra],
                            env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


if __name__ == "__main__":
    print(build_lib(sys.argv[1] if len(sys.argv) > 1 else "full"))
