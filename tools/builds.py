"""Builds of the harness against /repo's working tree. Each has its own target directory under
/verif/harness/target (ignored by git)."""
import os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(V, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"


class BuildFailed(Exception):
    pass


def cargo(args, env=None, cwd=H, toolchain=None, timeout=850):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + args
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + "\n")
        raise BuildFailed(" ".join(cmd), r.stdout)
    return r


def target(name):
    return os.path.join(H, "target", name)


def release(features, profile="release"):
    t = target("main")
    a = ["build", "--offline", "--quiet", "--bin", "vh", "--profile", profile, "--target-dir", t]
    if features:
        a += ["--features", ",".join(features)]
        a[a.index("--target-dir") + 1] = t = target("main-" + "-".join(features))
    cargo(a)
    return os.path.join(t, profile, "vh")


def asan(features=(), triple=TRIPLE):
    """AddressSanitizer, nightly, as optimised as for users"""
    t = target("asan" + "".join("-" + f for f in features))
    a = ["build", "--offline", "--quiet", "--bin", "vh", "--profile", "plain", "--target", triple, "--target-dir", t]
    f = ["slow"] + list(features)
    cargo(a + ["--features", ",".join(f)], env={"RUSTFLAGS": "-Zsanitizer=address -Cdebug-assertions=on -Cforce-frame-pointers=yes"}, toolchain="+nightly")
    return os.path.join(t, triple, "plain", "vh")


def tsan():
    t = target("tsan")
    a = ["build", "--offline", "--quiet", "--bin", "vh", "--profile", "release", "--target", TRIPLE, "--target-dir", t,
         "-Zbuild-std", "--features", "slow"]
    cargo(a, env={"RUSTFLAGS": "-Zsanitizer=thread"}, toolchain="+nightly")
    return os.path.join(t, TRIPLE, "release", "vh")


def miri(args, timeout):
    """Runs vh-miri under Miri; one argument list per process. Returns [(exit code, output)]."""
    # (x86 has instructions in the crate that Miri does not know)
    base = ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--target", "aarch64-unknown-linux-gnu",
            "--target-dir", target("miri"), "--bin", "vh-miri", "--"]
    e = dict(os.environ, CARGO_NET_OFFLINE="true", MIRIFLAGS="-Zmiri-disable-isolation")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)

    def start(a):
        return subprocess.Popen(base + [str(x) for x in a], cwd=H, env=e, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, text=True, start_new_session=True)

    # the first also builds the standard library; the others then find it built
    first = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", "aarch64-unknown-linux-gnu"], cwd=H, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if first.returncode != 0:
        sys.stderr.write(first.stdout[-3000:])
        raise BuildFailed("miri setup")
    ps = [start(a) for a in args]
    out = []
    for p in ps:
        try:
            o, _ = p.communicate(timeout=timeout)
            out.append((p.returncode, o))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, _ = p.communicate()
            out.append((None, o))
    return out
