#!/usr/bin/env python3
"""Build pipeline: /repo's current sources -> LLVM IR of the harnesses -> symx.

Everything is written below /verif/.build; nothing in /repo is touched."""
import os, re, subprocess, sys, glob, shutil, json, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
REPO = "/repo"
TC = "stable"
TARGET = "x86_64-unknown-linux-gnu"
SYSROOT = None

class BuildError(Exception):
    pass

def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC"))}
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    e.update(kw)
    return e

def run(cmd, what, cwd=V, **kw):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env(**kw))
    if p.returncode != 0:
        txt = p.stdout
        if "--message-format=json" in cmd:
            ls = []
            for l in txt.splitlines():
                if l.startswith("{"):
                    m = json.loads(l)
                    if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                        ls.append(m["message"]["rendered"])
                else:
                    ls.append(l)
            txt = "\n".join(ls)
        raise BuildError("%s failed (%d): %s\n%s" % (what, p.returncode, " ".join(cmd)[:120], txt[:5000]))
    return p.stdout

def sysroot():
    global SYSROOT
    if SYSROOT is None:
        SYSROOT = run(["rustc", "--print", "sysroot"], "rustc").strip().splitlines()[-1]
    return SYSROOT

def tool(n):
    return os.path.join(sysroot(), "lib/rustlib", TARGET, "bin", n)

def build_symx():
    run(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", B + "/symx"], "symx build", cwd=V + "/symx")
    return B + "/symx/release/symx"

def overlays():
    """copies of the two randomness crates with the generator replaced by an arbitrary-value source"""
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    def src(n):
        d = glob.glob(home + "/registry/src/*/" + n)
        if not d:
            raise BuildError("crate source %s not found" % n)
        return d[0]
    o = B + "/overlay"
    os.makedirs(o, exist_ok=True)
    for n, d in (("rand-0.8.5", "rand"), ("rand_distr-0.4.3", "rand_distr")):
        t = o + "/" + d
        mine = max(os.path.getmtime(f) for f in glob.glob(V + "/h/overlay/*/*.rs"))
        if os.path.exists(t + "/.done") and os.path.getmtime(t + "/.done") > mine:
            continue
        if os.path.exists(t):
            shutil.rmtree(t)
        shutil.copytree(src(n), t)
        for f in (t + "/Cargo.lock", t + "/.cargo-ok"):
            if os.path.exists(f):
                os.remove(f)
        if d == "rand":
            shutil.copy(V + "/h/overlay/rand/thread.rs", t + "/src/rngs/thread.rs")
        else:
            p = t + "/src/normal.rs"
            s = open(p).read()
            i = s.index("impl<F> Distribution<F> for Normal<F>")
            j = s.index("\n}\n", i) + 3
            open(p, "w").write(s[:i] + open(V + "/h/overlay/rand_distr/sample.rs").read() + s[j:])
        open(t + "/.done", "w").close()

def std_bitcode():
    d = B + "/std"
    out = []
    if os.path.exists(d + "/.done"):
        return json.load(open(d + "/.done"))
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for c in ("core", "alloc", "std", "hashbrown"):
        r = glob.glob("%s/lib/rustlib/%s/lib/lib%s-*.rlib" % (sysroot(), TARGET, c))
        if not r:
            raise BuildError("no rlib for " + c)
        os.makedirs(d + "/" + c)
        run([tool("llvm-ar"), "x", r[0]], "llvm-ar", cwd=d + "/" + c)
        for o in glob.glob(d + "/" + c + "/*.o"):
            bc = o + ".bc"
            run([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, o, "/dev/null"], "llvm-objcopy")
            out.append(bc)
    json.dump(out, open(d + "/.done", "w"))
    return out

RF = "-C no-prepopulate-passes -C codegen-units=1 --emit=llvm-bc -Ctarget-feature=+avx2,+fma -Cpanic=abort -Cdebuginfo=line-tables-only --cfg spf_verif --cap-lints=allow"

def modules(entries):
    """the harness modules (= cargo features) that define the entries"""
    out = {}
    for f in sorted(glob.glob(V + "/h/harness/src/*.rs")):
        s = open(f).read()
        for e in re.findall(r"fn (h_[a-z0-9_]*)\(", s):
            out[e] = (os.path.basename(f)[:-3], "verif_hooks" in s)
    return [out[e] for e in entries]

def harness_bitcode(features=()):
    """type-check + translate the harness crate and all its dependencies to unoptimised bitcode"""
    overlays()
    td = B + "/target"
    dd = "%s/%s/release/deps" % (td, TARGET)
    lock = V + "/h/harness/Cargo.lock"
    # ask cargo which artifacts belong to this build so that stale ones are not linked
    out = run(["cargo", "check", "--release", "--offline", "--target", TARGET, "--target-dir", td, "--message-format=json",
               "--features", ",".join(features)], "harness build", cwd=V + "/h/harness", RUSTFLAGS=RF)
    bcs = []
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.startswith(dd):
                    b = re.sub(r"lib([^/]*)\.rmeta$", r"\1.bc", f)
                    if b != f and os.path.exists(b):
                        bcs.append(b)
    if not any("/harness-" in b for b in bcs):
        raise BuildError("no bitcode for the harness crate: " + out[-2000:])
    return bcs

def llvm_link(bcs, std):
    run([tool("llvm-link"), "--suppress-warnings"] + bcs + std + ["-o", B + "/all.bc"], "llvm-link")

PASSES = "internalize,globaldce,function(lower-invoke,simplifycfg),globaldce,default<O2>,function(scalarizer,instcombine<no-verify-fixpoint>,simplifycfg),globaldce"

def optimise(entries, name):
    ll = "%s/%s.ll" % (B, name)
    run([tool("opt"), "-passes=" + PASSES, "-vectorize-loops=false", "-vectorize-slp=false",
         "-internalize-public-api-list=" + ",".join(list(entries)), B + "/all.bc", "-S", "-o", ll], "opt")
    return ll

def build_native(features):
    overlays()
    td = B + "/native"
    run(["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", td, "--features", ",".join(features)], "native harness build", cwd=V + "/h/native",
        RUSTFLAGS="-Ctarget-feature=+avx2,+fma --cfg spf_verif --cap-lints=allow")
    return td + "/release/libnative.so"

def build(entries, name="h", log=lambda s: None):
    """-> (symx, ll, entries that could be built, features)"""
    os.makedirs(B, exist_ok=True)
    t = time.time()
    ms = modules(entries)
    feats = sorted({m for m, _ in ms}) + ["hook"]
    with ThreadPoolExecutor(3) as ex:
        fs = ex.submit(build_symx)
        fh = ex.submit(harness_bitcode, feats)
        fd = ex.submit(std_bitcode)
        try:
            bcs = fh.result()
        except BuildError as e:
            # internals the hook exposes may have been reshaped: keep what needs only the public interface
            keep = [(e, m) for e, (m, h) in zip(entries, ms) if not h]
            if not keep:
                raise
            log("build with internals failed, retrying without: " + str(e)[:1500])
            entries = [e for e, _ in keep]
            feats = sorted({m for _, m in keep})
            bcs = harness_bitcode(feats)
        std = fd.result()
        log("harness bitcode %.1fs" % (time.time() - t))
        llvm_link(bcs, std)
        log("linked %.1fs" % (time.time() - t))
        ll = optimise(entries, name)
        log("optimised %.1fs" % (time.time() - t))
        symx = fs.result()
    return symx, ll, entries, feats

if __name__ == "__main__":
    ents = sys.argv[1:]
    print(build(ents, log=lambda s: print(s, file=sys.stderr)))
