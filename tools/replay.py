import os, sys
import builds, plans
pid, stream, idx, variant = sys.argv[1:5]
for th in (False, True):
    for s in plans.plan(pid, th):
        if s.variant == variant:
            if variant == "miri":
                [(rc, out)] = builds.miri([[os.environ.get("VERIF_SEED", "1"), idx, 8] + ([1] if os.environ.get("VERIF_TIER") == "thorough" else [])], 900)
                print(out)
                sys.exit(1 if rc else 0)
            exe = s.build()
            os.environ.update(s.env, VH_VERIF=plans.V, VH_VARIANT=variant)
            os.execv(exe, [exe, "replay", pid, stream, idx])
sys.exit(2)
