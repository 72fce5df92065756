"""Which runs decide which property."""
import os, subprocess, sys
import builds

V = builds.V


class Step:
    """One run of the harness on one build"""

    def __init__(self, build=None, variant="", share=1.0, env=None, budget=None):
        self.build = build or (lambda: builds.release([]))
        self.variant = variant
        self.name = variant or "main"
        self.share = share
        self.env = env or {}
        self.budget = budget

    def run(self, pid, thorough, tmp):
        try:
            exe = self.build()
        except builds.BuildFailed as e:
            print(f"# build failed: {e}", file=sys.stderr)
            return 3
        env = dict(os.environ)
        env.update(VH_EVDIR=tmp, VH_VARIANT=self.variant)
        base = self.budget or ((600.0, 28.0)[not thorough])
        if "VH_BUDGET" not in os.environ:
            env["VH_BUDGET"] = str(base * self.share)
        env.update(self.env)
        return subprocess.run([exe, "check", pid], env=env, cwd=V).returncode


def precision(**k):
    return Step(build=lambda: builds.release(["precision"]), variant="precision", **k)


def plain(**k):
    return Step(build=lambda: builds.release([], "plain"), variant="plain", **k)


ASAN = {"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"}
TSAN = {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1"}


def asan(**k):
    return Step(build=builds.asan, variant="asan", env=ASAN, **k)


def tsan(**k):
    return Step(build=builds.tsan, variant="tsan", env=TSAN, **k)


class CapiStep(Step):
    """The harness with the C API; a function the header declares and the library lacks is a violation."""

    def run(self, pid, thorough, tmp):
        import re
        try:
            self.build()
        except builds.BuildFailed as e:
            m = sorted(set(re.findall(r"undefined (?:reference to|symbol:) [`'\"]?(ebur128_\w+)", str(e.args[-1]))))
            if m:
                path = os.path.join(V, "out", f"replay-{pid}-link.txt")
                with open(path, "w") as f:
                    f.write(f"replay {pid} link 0 seed=1 tier=quick {self.variant}\nfunctions of the header that the library does not have: {' '.join(m)}\n")
                print(f"# functions of the header that the library does not have: {' '.join(m)}", file=sys.stderr)
                print(f"VIOLATION property={pid} replay={path}")
                return 1
        return super().run(pid, thorough, tmp)


class MiriStep:
    """The small workload of vh-miri under Miri: undefined behaviour and data races. Panics in it are
    the other steps' business."""

    def __init__(self):
        self.variant = self.name = "miri"

    def run(self, pid, thorough, tmp):
        import json, re, time
        t0 = time.time()
        seed = int(os.environ.get("VERIF_SEED", "1"))
        n = 8
        # (in thorough runs a second round with other seeds)
        seeds = [seed] if not thorough else [seed, seed + 1000]
        runs = []
        try:
            for s in seeds:
                args = [[s, i, n] + ([1] if thorough else []) for i in range(n)]
                runs += list(zip(args, builds.miri(args, 700 if thorough else 250)))
        except (builds.BuildFailed, subprocess.TimeoutExpired) as e:
            print(f"# miri: {e}", file=sys.stderr)
            return 3
        calls = insts = done = 0
        samples, notes = [], []
        for a, (rc, out) in runs:
            m = re.search(r"miri instances=(\d+) calls=(\d+)", out)
            if rc == 0 and m:
                insts += int(m[1])
                calls += int(m[2])
                done += 1
                samples.append(f"vh-miri {' '.join(map(str, a))}: {m[0]}")
            elif "Undefined Behavior" in out or "Data race detected" in out or "memory leaked" in out:
                path = self.replay(pid, a, out)
                print(out[-4000:], file=sys.stderr)
                print(f"VIOLATION property={pid} replay={path}")
                self.evidence(pid, thorough, tmp, seed, insts, calls, samples, notes, time.time() - t0)
                return 1
            else:
                notes.append(f"vh-miri {a}: no verdict ({rc}): {out[-300:]}")
                print("# " + notes[-1], file=sys.stderr)
        self.evidence(pid, thorough, tmp, seed, insts, calls, samples, notes, time.time() - t0)
        # a shard that ran out of time, or met an operation Miri does not know, has no verdict
        return 0 if done else 3

    def replay(self, pid, a, out):
        path = os.path.join(V, "out", f"replay-{pid}-miri-{a[1]}.txt")
        with open(path, "w") as f:
            f.write(f"replay {pid} miri {a[1]} seed={a[0]} tier={'thorough' if len(a) > 3 else 'quick'} miri\n{out}")
        return path

    def evidence(self, pid, thorough, tmp, seed, insts, calls, samples, notes, wall):
        import json
        with open(os.path.join(tmp, f"{pid}.miri.json"), "w") as f:
            json.dump({"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
                       "coverage": {"evaluations": insts, "distinct_nontrivial": insts, "rule": "instances built and driven under Miri",
                                    "samples": samples[:3], "observed": {"calls": calls, "instances": insts}, "notes": notes,
                                    "build": "miri"},
                       "assumptions": [], "wall_s": wall, "violations": 0}, f)


PLANS = {
    "C16": lambda th: [Step(share=0.6), asan(share=0.7), MiriStep()] + ([plain(share=0.2)] if th else []),
    "C19": lambda th: [Step(share=0.5), tsan(share=0.7)] + ([MiriStep()] if th else []),
    "C18": lambda th: [CapiStep(build=lambda: builds.release(["capi"]), share=0.8),
                       Step(build=lambda: builds.asan(["capi"]), variant="asan", env=ASAN, share=0.5)],
    "C25": lambda th: [Step(build=lambda: builds.release(["cref"]))],
    "C06": lambda th: [Step(share=0.7), precision(share=0.4)],
}


def plan(pid, thorough):
    p = PLANS.get(pid)
    if p:
        return p(thorough)
    s = [Step()]
    if thorough:
        s.append(plain(share=0.3))
    return s
