from __future__ import annotations

import os
import sys

from pgsim import boot

if __name__ == "__main__":
    boot.ensure_env()
    from pgsim import core

    cmd = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if cmd == "server":
        from pgsim import server

        sys.exit(server.serve())
    if cmd == "bare":
        from pgsim import p15

        sys.exit(p15.serve())
    if cmd == "setup":
        boot.import_all()
        sys.exit(0)
    if cmd == "check":
        rest = sys.argv[2:]
        if "--thorough" in rest:
            tier = "thorough"
            rest.remove("--thorough")
        sys.exit(core.check(rest[0], seed, tier))
    if cmd == "replay":
        sys.exit(core.replay(sys.argv[2]))
    if cmd == "one":
        sys.exit(core.one(sys.argv[2], seed, int(sys.argv[3]), tier))
    if cmd == "determinism":
        from pgsim import determinism

        sys.exit(determinism.main(sys.argv[2:], seed))
    sys.exit(f"unknown command {cmd}")
