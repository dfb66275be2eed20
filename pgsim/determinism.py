"""Proof of determinism: the same seeds under several worker counts and hash seeds."""

from __future__ import annotations

import json
import os
import subprocess
import sys
import tempfile

from pgsim import boot

CONFIGS = [(8, "0"), (3, "0"), (5, "1"), (8, "4242")]


def main(args: list[str], seed: int) -> int:
    props = [a for a in args if a.startswith("P")] or [f"P{i:02}" for i in range(1, 18)]
    nums = [int(a) for a in args if a.isdigit()]
    runs = nums[0] if nums else 120
    bad = 0
    with tempfile.TemporaryDirectory() as d:
        for p in props:
            got: dict[tuple[int, str], dict] = {}
            for nw, hs in CONFIGS:
                path = os.path.join(d, "dump.json")
                env = dict(os.environ, VERIF_SEED=str(seed), PGSIM_WORKERS=str(nw), PGSIM_HASHSEED=hs,
                           PGSIM_RUNS=str(runs), PGSIM_DUMP=path, PGSIM_NOEVIDENCE="1")
                env.pop("PGSIM_BOOT", None)
                r = subprocess.run([boot.PYTHON, "-m", "pgsim", "check", p], env=env, cwd=boot.VERIF,
                                   capture_output=True, text=True)
                if r.returncode != 0:
                    print(p, nw, hs, "exit", r.returncode, r.stdout[-600:], r.stderr[-600:])
                    bad += 1
                    continue
                with open(path) as f:
                    got[(nw, hs)] = json.load(f)
            base = got.get(CONFIGS[0], {})
            diff = {k: sorted(i for i in base if v.get(i) != base[i]) for k, v in got.items()}
            diff = {k: v for k, v in diff.items() if v}
            bad += bool(diff)
            print(p, "seed", seed, "runs", len(base), "configurations", len(got),
                  "identical" if not diff else f"DIFFERENT {diff}", flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:], 1))
