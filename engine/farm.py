"""Overlay workspace: a copy of /repo's tracked sources under /verif/.build, in
which the workspace is type-checked with the MIR-dumping driver.  Nothing is
executed from the code under analysis except its Cargo build scripts (which
generate headers into the copy, never into /repo)."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SKIP_DIRS = {".git", "target", "node_modules", "test_vectors", "papers", ".github", ".gradle", "zig-cache"}


class FarmError(Exception):
    """The tree could not be analysed (does it compile?)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def toolchain():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    for k in list(env):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            del env[k]
    sysroot = sh(["rustc", "--print", "sysroot"], env=env).stdout.strip().splitlines()[-1]
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    return env


def build_driver(env):
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "mirdump-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".tmp"
        r = sh(["rustc", "-O", "--edition", "2021", "--cap-lints", "allow", src, "-o", tmp], env=env)
        if r.returncode != 0:
            raise FarmError("driver does not build:\n" + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def repo_files():
    """The files of /repo that a build reads: tracked, or new and not ignored."""
    r = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "--cached", "--others", "--exclude-standard"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    fs = []
    if r.returncode == 0:
        fs = [f for f in r.stdout.decode("utf-8", "surrogateescape").split("\0") if f]
    if not fs:
        for d, ds, ff in os.walk(REPO):
            ds[:] = [x for x in ds if x not in SKIP_DIRS]
            fs += [os.path.relpath(os.path.join(d, f), REPO) for f in ff]
    out = []
    for f in sorted(set(fs)):
        parts = f.split("/")
        if any(p in SKIP_DIRS for p in parts[:-1]):
            continue
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            out.append(f)
    return out


def sync():
    ws = os.path.join(BUILD, "ws")
    os.makedirs(ws, exist_ok=True)
    want = repo_files()
    h = hashlib.sha256()
    keep = set(want) | {"Cargo.lock"}
    for f in want:
        src, dst = os.path.join(REPO, f), os.path.join(ws, f)
        data = open(src, "rb").read()
        if f == "Cargo.toml":
            data = b"".join(l for l in data.splitlines(True) if b'"bindings/nim/rust_code"' not in l)
        h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
        if f == "Cargo.lock":
            continue
        try:
            old = open(dst, "rb").read()
        except OSError:
            old = None
        if old != data:
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, "wb") as o:
                o.write(data)
    lockf = os.path.join(VERIF, "engine", "Cargo.lock")
    data = open(lockf, "rb").read()
    dst = os.path.join(ws, "Cargo.lock")
    if not os.path.exists(dst) or open(dst, "rb").read() != data:
        open(dst, "wb").write(data)
    for d, ds, ff in os.walk(ws):
        for f in ff:
            p = os.path.join(d, f)
            if os.path.relpath(p, ws) not in keep:
                os.remove(p)
    return ws, h.hexdigest()


def members(ws):
    """package name -> (dir, lib crate name) of the overlay workspace."""
    txt = open(os.path.join(ws, "Cargo.toml")).read()
    out = {}
    for m in re.findall(r'"([^"]+)"', txt.split("members", 1)[1].split("]", 1)[0]):
        p = os.path.join(ws, m, "Cargo.toml")
        if os.path.exists(p):
            t = open(p).read()
            n = re.search(r'^name\s*=\s*"([^"]+)"', t, re.M)
            if n:
                out[n.group(1)] = (m, n.group(1).replace("-", "_"))
    return out


CONFIGS = {
    "multi": ["-p", "rust_eth_kzg", "--lib", "--no-default-features", "--features", "multithreaded"],
    "bind": ["--workspace", "--lib"],
    "single": ["-p", "rust_eth_kzg", "--lib", "--no-default-features", "--features", "singlethreaded"],
}


GENERATED = ("bindings/c/build/c_eth_kzg.h", "bindings/csharp/csharp_code/EthKZG.bindings/native_methods.g.cs")


def dump(config):
    """Type-checks the overlay workspace and returns the directory of dumps."""
    env = toolchain()
    drv = build_driver(env)
    ws, digest = sync()
    h = hashlib.sha256((digest + os.path.basename(drv) + json.dumps(CONFIGS[config])).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "dump-" + config)
    stamp = os.path.join(out, "STAMP")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    target = os.path.join(BUILD, "target-" + config)
    mem = members(ws)
    env.update({
        "CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
        "CARGO_INCREMENTAL": "0", "RUSTC_WORKSPACE_WRAPPER": drv, "MIRDUMP_OUT": out,
        "MIRDUMP_WS": ",".join(sorted(c for _, c in mem.values())),
    })
    # cargo's freshness cache would skip the wrapper: forget the workspace's units
    for sub in (".fingerprint", "build"):
        fp = os.path.join(target, "debug", sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d in mem or d.rsplit("-", 1)[0] in mem:
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    r = sh(["cargo", "check", "--offline"] + CONFIGS[config], cwd=ws, env=env)
    if r.returncode != 0:
        raise FarmError("cargo check (%s) failed:\n%s" % (config, r.stdout[-4000:]))
    # what the build scripts generate from the C layer's declarations
    for f in GENERATED if config == "bind" else ():
        p = os.path.join(ws, f)
        if os.path.exists(p):
            shutil.copy(p, os.path.join(out, os.path.basename(f)))
    with open(stamp, "w") as f:
        f.write(h)
    return out


def gossa(out):
    """SSA form of the Go binding, against the C header the build generated: a JSON file"""
    import tempfile
    res = os.path.join(out, "go.json")
    if os.path.exists(res):
        return res
    hdr = os.path.join(out, "c_eth_kzg.h")
    if not os.path.exists(hdr):
        raise FarmError("no C header was generated")
    env = dict(os.environ, HOME="/root", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOCACHE=os.path.join(BUILD, "gocache"), CGO_ENABLED="1",
               GOMODCACHE=os.environ.get("GOMODCACHE", "/root/go/pkg/mod"))
    src = os.path.join(VERIF, "driver", "gossa")
    key = hashlib.sha256(b"".join(open(os.path.join(src, f), "rb").read() for f in sorted(os.listdir(src)))).hexdigest()[:16]
    exe = os.path.join(BUILD, "gossa-" + key)
    if not os.path.exists(exe):
        r = sh(["go", "build", "-mod=mod", "-o", exe, "."], cwd=src, env=env)
        if r.returncode != 0:
            raise FarmError("building gossa failed:\n" + r.stdout[-2000:])
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        shutil.copytree(os.path.join(BUILD, "ws", "bindings", "golang"), os.path.join(tmp, "g"))
        os.makedirs(os.path.join(tmp, "g", "build"), exist_ok=True)
        shutil.copy(hdr, os.path.join(tmp, "g", "build"))
        with open(res + ".tmp", "w") as f:
            r = subprocess.run([exe, os.path.join(tmp, "g")], cwd=os.path.join(tmp, "g"), env=env, stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise FarmError("loading the Go binding failed:\n" + r.stderr[-2000:])
        os.rename(res + ".tmp", res)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def javaclass(out):
    """javap of the Java binding's class: a text file"""
    import tempfile
    res = os.path.join(out, "java.txt")
    if os.path.exists(res):
        return res
    src = os.path.join(BUILD, "ws", "bindings", "java", "java_code", "src", "main", "java")
    files = [os.path.join(d, f) for d, _, ff in os.walk(src) for f in ff if f.endswith(".java")]
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        r = sh(["javac", "-g", "-nowarn", "-d", tmp] + files, cwd=tmp, env=dict(os.environ))
        if r.returncode != 0:
            raise FarmError("javac failed:\n" + r.stdout[-2000:])
        cls = [os.path.join(d, f) for d, _, ff in os.walk(tmp) for f in ff if f.endswith(".class")]
        r = sh(["javap", "-p", "-c", "-s", "-constants", "-v"] + sorted(cls), cwd=tmp, env=dict(os.environ))
        if r.returncode != 0:
            raise FarmError("javap failed:\n" + r.stdout[-2000:])
        open(res, "w").write(r.stdout.replace(tmp, ""))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


if __name__ == "__main__":
    l = lock()
    t = time.time()
    for c in sys.argv[1:] or CONFIGS:
        print(c, dump(c), "%.1fs" % (time.time() - t))
