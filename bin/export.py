"""Build the MIR exporter and export the type-checked MIR of /repo's current working tree."""
import fcntl, os, shutil, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")


def sh(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def sysroot_lib():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, check=True).stdout.decode().strip() + "/lib"


def build_mirx():
    lib = sysroot_lib()
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "--target-dir", WORK + "/mirx"], VERIF + "/mirx", {"LD_LIBRARY_PATH": lib})
    if rc:
        raise SystemExit("mirx build failed:\n" + out)
    return WORK + "/mirx/debug/mirx", lib


def export(out=None):
    os.makedirs(WORK, exist_ok=True)
    out = out or WORK + "/facts.json"
    with open(WORK + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirx, lib = build_mirx()
        lock, saved = os.path.join(REPO, "Cargo.lock"), "/opt/vp/Cargo.lock"
        if not os.path.exists(lock) and os.path.exists(saved):
            shutil.copy(saved, lock)
        env = {"CARGO_INCREMENTAL": "0", "MIRX_CRATE": "reCTBN", "MIRX_OUT": out, "LD_LIBRARY_PATH": lib, "RUSTC_WORKSPACE_WRAPPER": mirx}
        if os.path.exists(out):
            os.remove(out)
        for attempt in (0, 1):
            mt = WORK + "/mt"
            # cargo's freshness cache would skip the wrapper: drop the crate's own fingerprints
            for pat in ("debug/build/reCTBN*", "debug/.fingerprint/reCTBN*", "debug/.fingerprint/rectbn*", "debug/deps/libreCTBN*"):
                for p in glob.glob(os.path.join(mt, pat)):
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)
            rc, txt = sh(["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", mt], REPO, env)
            if rc == 0 and os.path.exists(out):
                return out
            if attempt == 0:
                shutil.rmtree(mt, ignore_errors=True)
        raise SystemExit("export of %s failed (rc %s):\n%s" % (REPO, rc, txt[-4000:]))


if __name__ == "__main__":
    t = time.time()
    print(export(sys.argv[1] if len(sys.argv) > 1 else None), "%.1fs" % (time.time() - t))
