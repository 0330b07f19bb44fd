"""Build pipeline: engine, C bitcode, LLVM IR of /repo + harness, native replayer. Everything under /verif/build."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
STABLE = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + os.environ.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(kw)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s failed (%d)\n%s\n%s" % (" ".join(cmd[:4]), p.returncode, p.stdout[-2000:], p.stderr[-6000:]))
    return p.stdout


def tree_hash(roots, skip=("target", ".git", "node_modules", "build", "evidence", "seeded", "__pycache__")):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode() + open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in skip)
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
                h.update(b"\0")
    return h.hexdigest()[:24]


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def stamp_ok(name, key, files):
    p = os.path.join(BUILD, name + ".stamp")
    return os.path.exists(p) and open(p).read() == key and all(os.path.exists(f) for f in files)


def stamp_set(name, key):
    with open(os.path.join(BUILD, name + ".stamp"), "w") as f:
        f.write(key)


def engine():
    src = os.path.join(VERIF, "engine")
    out = os.path.join(BUILD, "engine", "release", "symex")
    key = tree_hash([src], skip=("target",))
    if not stamp_ok("engine", key, [out]):
        run(["cargo", "build", "--release", "--offline"], cwd=src,
            env=env(CARGO_TARGET_DIR=os.path.join(BUILD, "engine"), RUSTUP_TOOLCHAIN=STABLE))
        os.utime(out)
        stamp_set("engine", key)
    return out


def registry():
    for d in glob.glob("/root/.cargo/registry/src/*/"):
        if os.path.isdir(d + "tree-sitter-0.23.0"):
            return d
    raise BuildError("crate sources of tree-sitter 0.23.0 not found")


def cbits():
    """bitcode of the tree-sitter runtime and the three grammars (the C code the crates compile with cc)"""
    reg = registry()
    out = os.path.join(BUILD, "c")
    ts = reg + "tree-sitter-0.23.0/"
    jobs = [("ts.bc", ts + "src/lib.c", ["-I" + ts + "src", "-I" + ts + "src/wasm", "-I" + ts + "include"])]
    for g, v in (("jinja2", "0.0.12"), ("rust", "0.23.0"), ("python", "0.23.0")):
        d = reg + "tree-sitter-%s-%s/src/" % (g, v)
        jobs.append(("g-%s.bc" % g, d + "parser.c", ["-I" + d]))
        if os.path.exists(d + "scanner.c"):
            jobs.append(("s-%s.bc" % g, d + "scanner.c", ["-I" + d]))
    files = [os.path.join(out, j[0]) for j in jobs]
    key = tree_hash([j[1] for j in jobs])
    if not stamp_ok("c", key, files):
        os.makedirs(out, exist_ok=True)
        ps = []
        for (o, src, inc), f in zip(jobs, files):
            ps.append(subprocess.Popen(["clang-18", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-emit-llvm", "-c", "-w",
                                        "-D_POSIX_C_SOURCE=200112L", "-D_DEFAULT_SOURCE", "-std=c11"] + inc + [src, "-o", f]))
        for p in ps:
            if p.wait() != 0:
                raise BuildError("clang failed")
        stamp_set("c", key)
    return files


def llvm(tool):
    root = run(["rustc", "--print", "sysroot"], env=env(RUSTUP_TOOLCHAIN=NIGHTLY)).strip()
    return os.path.join(root, "lib/rustlib", TRIPLE, "bin", tool)


def harness_key():
    return tree_hash([REPO, HARNESS, os.path.abspath(__file__)])


def entries():
    import re
    out = []
    for f in sorted(glob.glob(os.path.join(HARNESS, "src", "*.rs"))):
        for m in re.finditer(r"^entry!\((h_\w+)", open(f).read(), re.M):
            out.append(m.group(1))
    return sorted(set(out))


def forget_repo_crates(target):
    """cargo decides freshness by mtime; our decision is by content, so drop what it knows about the changed crates"""
    for c in ("jinja-lsp", "jinja-lsp-queries", "vnode", "napi-derive", "vharness"):
        for d in glob.glob(os.path.join(target, "**", ".fingerprint", c + "-*"), recursive=True):
            if os.path.basename(d)[len(c) + 1:].isalnum():
                shutil.rmtree(d, ignore_errors=True)
        for d in glob.glob(os.path.join(target, "*", "debug", "build", c)) + glob.glob(os.path.join(target, "debug", "build", c)):
            shutil.rmtree(d, ignore_errors=True)


def ir():
    """/repo + harness + dependencies + std, linked, reduced to what the harness entries reach, as textual LLVM IR"""
    out = os.path.join(BUILD, "red.ll")
    key = harness_key()
    if stamp_ok("ir", key, [out]):
        return out, 0.0
    t = time.time()
    cb = cbits()
    target = os.path.join(BUILD, "ir")
    forget_repo_crates(target)
    e = env(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=target,
            RUSTFLAGS="--cfg vsr --emit=llvm-bc -Cno-vectorize-loops -Cno-vectorize-slp")
    msgs = run(["cargo", "build", "--offline", "--lib", "-Zbuild-std=std,panic_abort", "--target", TRIPLE,
                "--message-format=json"], cwd=HARNESS, env=e)
    bcs = []
    for l in msgs.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") != "compiler-artifact":
            continue
        for f in d["filenames"]:
            if "/" + TRIPLE + "/" in f and f.endswith(".rlib"):
                b = os.path.basename(f)
                if b.startswith("libpanic_unwind") or b.startswith("libproc_macro") or b.startswith("libunwind"):
                    continue
                g = os.path.join(os.path.dirname(f), b[3:-5] + ".bc")
                if not os.path.exists(g):
                    raise BuildError("no bitcode for " + f)
                bcs.append(g)
    bcs = sorted(set(bcs))
    all_bc, red_bc = os.path.join(BUILD, "all.bc"), os.path.join(BUILD, "red.bc")
    run([llvm("llvm-link"), "-o", all_bc] + bcs + cb)
    ent = entries()
    run([llvm("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(ent), all_bc, "-o", red_bc])
    run([llvm("llvm-dis"), red_bc, "-o", out + ".tmp"])
    os.replace(out + ".tmp", out)
    for f in (all_bc, red_bc):
        os.unlink(f)
    stamp_set("ir", key)
    return out, time.time() - t


def native():
    """the same harness entries compiled natively with the stable toolchain"""
    target = os.path.join(BUILD, "native")
    out = os.path.join(target, "debug", "replay")
    key = harness_key()
    if stamp_ok("native", key, [out]):
        return out
    forget_repo_crates(target)
    run(["cargo", "build", "--offline", "--bin", "replay", "--features", "replay"], cwd=HARNESS,
        env=env(RUSTUP_TOOLCHAIN=STABLE, CARGO_TARGET_DIR=target, RUSTFLAGS="--cfg vsr"))
    stamp_set("native", key)
    return out


if __name__ == "__main__":
    with Lock():
        t = time.time()
        for n in sys.argv[1:] or ["engine", "ir", "native"]:
            print(n, globals()[n](), "%.1f s" % (time.time() - t), flush=True)
