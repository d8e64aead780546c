"""SQL over Hudi tables through the built Rust crates, for demonstrations."""
import glob, os, subprocess, sys, tempfile, atexit, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
D = os.path.join(os.getcwd(), "target/debug/deps")
def _lib(n): return sorted(glob.glob(f"{D}/lib{n}-*.rlib"), key=os.path.getmtime)
def _build():
    out = tempfile.mkdtemp(prefix="sqlrun-"); atexit.register(shutil.rmtree, out)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.84-x86_64-unknown-linux-gnu", HOME=os.environ.get("HOME", "/root"))
    env["PATH"] = env["HOME"] + "/.cargo/bin:" + env["PATH"]
    err = ""
    for hd in reversed(_lib("hudi_datafusion")):
        for df in reversed(_lib("datafusion")):
            for tk in _lib("tokio"):
                exe = os.path.join(out, "x")
                r = subprocess.run(["rustc", "--edition", "2021", os.path.join(HERE, "sqlrun.rs"), "-o", exe, "-L", f"dependency={D}", "--extern", f"hudi_datafusion={hd}",
                                    "--extern", f"datafusion={df}", "--extern", f"tokio={tk}"] + [x for p in glob.glob(os.path.join(os.path.dirname(D), "build/*/out")) for x in ("-L", f"native={p}")],
                                   capture_output=True, text=True, env=env)
                if r.returncode: err = r.stderr; continue
                p = subprocess.run([exe, "/nonexistent", "SELECT 1"], capture_output=True, text=True)
                if "reactor" in p.stderr or "runtime" in p.stderr: err = p.stderr; continue
                return exe
    sys.exit("cannot build the query program: " + err[-3000:])
_exe = None
def sql(uri, q, *opts):
    global _exe
    _exe = _exe or _build()
    p = subprocess.run([_exe, uri, q, *opts], capture_output=True, text=True)
    if p.returncode: return "CRASH " + p.stderr[-500:]
    return sorted(p.stdout.splitlines())
