"""Seeded runs, worker pool, minimisation, replay, evidence."""

from __future__ import annotations

import collections
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
from typing import Any, Callable, Iterator, Optional

from pgsim import boot

RUN_TIMEOUT = 120.0
HANG_CPU = 60


class Violation(Exception):
    def __init__(self, cls: str, msg: str) -> None:
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Ctx:
    """What one simulated run records. Recording never draws randomness."""

    def __init__(self, ref: Optional["RefClient"]) -> None:
        self.ref_client = ref
        self.log: list[Any] = []
        self.faults: collections.Counter[str] = collections.Counter()
        self.probes: collections.Counter[str] = collections.Counter()
        self.states: set[str] = set()
        self.sim_time = 0.0
        self.steps = 0
        self.violations: list[tuple[str, str]] = []
        self.extra: dict[str, Any] = {}

    def event(self, *a: Any) -> None:
        self.log.append(a)

    def fail(self, cls: str, msg: str) -> None:
        self.violations.append((cls, msg[:2000]))
        self.event("VIOLATION", cls, msg[:2000])

    def state(self, *a: Any) -> None:
        self.states.add(h(a))

    def ref(self, fn: str, *args: Any) -> Any:
        """Evaluate module function `fn` ("mod:func") in a pristine process."""
        assert self.ref_client is not None
        return self.ref_client.call(fn, args)


def h(x: Any) -> str:
    return hashlib.sha256(repr(x).encode("utf-8", "backslashreplace")).hexdigest()[:16]


# ------------------------------------------------------------------ pristine processes
def _send(fd: int, obj: Any) -> None:
    data = pickle.dumps(obj)
    data = struct.pack("<I", len(data)) + data
    while data:
        data = data[os.write(fd, data) :]


def _recv(fd: int, timeout: Optional[float] = None) -> Any:
    def rd(n: int) -> bytes:
        out = b""
        while len(out) < n:
            if timeout is not None:
                r, _, _ = select.select([fd], [], [], max(0.0, deadline - time.monotonic()))
                if not r:
                    raise TimeoutError
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out

    deadline = time.monotonic() + (timeout or 0)
    (n,) = struct.unpack("<I", rd(4))
    return pickle.loads(rd(n))


def in_fork(fn: Callable[[], Any], timeout: Optional[float] = RUN_TIMEOUT) -> tuple[str, Any]:
    """Run fn in a forked child: ("ok", result) | ("died", info) | ("timeout", None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            resource.setrlimit(resource.RLIMIT_CPU, (HANG_CPU, HANG_CPU + 5))
            try:
                res = ("ok", fn())
            except BaseException:  # noqa: BLE001
                res = ("exc", traceback.format_exc())
            _send(w, res)
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        res = _recv(r, timeout)
    except TimeoutError:
        res = ("timeout", None)
    except EOFError:
        res = ("died", None)
    except Exception:  # noqa: BLE001
        res = ("died", traceback.format_exc())
    os.close(r)
    if res[0] in ("timeout", "died"):
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    _, st = os.waitpid(pid, 0)
    if res[0] == "died":
        res = ("timeout", st) if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (
            signal.SIGXCPU,
        ) else ("died", (st, res[1]))
    return res


class RefServer:
    """Forked from the pristine image; answers each request from its own fresh fork.

    Answers are memoised: a reference is a pure function of its arguments. The memo is shared by all
    workers of a check through the scratch directory `memo`.

    A reference function with an attribute `needs = (fn, n)` gets the (memoised) answer of `fn` called
    with its first n arguments as an additional last argument.
    """

    def __init__(self, memo: Optional[str] = None) -> None:
        self.memo = memo
        self.c2s = os.pipe()
        self.s2c = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.c2s[1])
                os.close(self.s2c[0])
                self._serve()
            finally:
                os._exit(0)
        os.close(self.c2s[0])
        os.close(self.s2c[1])
        self.client = RefClient(self.s2c[0], self.c2s[1])

    def _serve(self) -> None:
        memo: collections.OrderedDict[bytes, Any] = collections.OrderedDict()
        while True:
            try:
                fn, args = _recv(self.c2s[0])
            except EOFError:
                return
            _send(self.s2c[1], self._answer(memo, fn, args))

    def _answer(self, memo: collections.OrderedDict[str, Any], fn: str, args: tuple) -> Any:
        key = hashlib.sha256(repr((fn, args)).encode("utf-8", "backslashreplace")).hexdigest()
        if key in memo:
            return memo[key]
        path = os.path.join(self.memo, key) if self.memo else ""
        if path and os.path.exists(path):
            with open(path, "rb") as file:
                res = pickle.load(file)
        else:
            mod, name = fn.split(":")
            f = getattr(importlib.import_module(mod), name)
            more = ()
            if hasattr(f, "needs"):
                kind, val = self._answer(memo, f.needs[0], args[: f.needs[1]])
                more = (val if kind == "ok" else None,)
            res = in_fork(lambda: f(*args, *more))
            if path and res[0] == "ok":
                tmp = f"{path}.{os.getpid()}"
                with open(tmp, "wb") as file:
                    pickle.dump(res, file)
                os.replace(tmp, path)
        memo[key] = res
        if len(memo) > 20000:
            memo.popitem(last=False)
        return res

    def close(self) -> None:
        for fd in (self.c2s[1], self.s2c[0]):
            try:
                os.close(fd)
            except OSError:
                pass
        os.waitpid(self.pid, 0)


class RefClient:
    def __init__(self, r: int, w: int) -> None:
        self.r, self.w = r, w

    def call(self, fn: str, args: tuple) -> Any:
        _send(self.w, (fn, args))
        kind, val = _recv(self.r)
        if kind == "ok":
            return val
        raise RefError(kind, val)


class RefError(Exception):
    pass


# ------------------------------------------------------------------ one run
def scenario(prop: str) -> Any:
    return importlib.import_module(f"pgsim.{prop.lower()}")


def make_plan(prop: str, seed: int, index: int, tier: str) -> dict:
    rng = random.Random(f"{prop}:{seed}:{index}")
    plan = scenario(prop).generate(rng, index, tier)
    plan.setdefault("prop", prop)
    return plan


def _exec_child(prop: str, plan: dict, ref: RefClient) -> dict:
    random.seed(12345)
    ctx = Ctx(ref)
    mod = scenario(prop)
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        ctx.fail(v.cls, v.msg)
    out = {
        "violations": ctx.violations,
        "faults": dict(ctx.faults),
        "probes": dict(ctx.probes),
        "states": sorted(ctx.states),
        "sim_time": ctx.sim_time,
        "steps": ctx.steps,
        "digest": hashlib.sha256(repr(ctx.log).encode("utf-8", "backslashreplace")).hexdigest(),
        "log_len": len(ctx.log),
        "extra": ctx.extra,
    }
    if os.environ.get("PGSIM_LOG"):
        out["log"] = [repr(x) for x in ctx.log]
    return out


def run_plan(prop: str, plan: dict, ref: RefServer) -> dict:
    init = getattr(scenario(prop), "worker_init", None)
    if init is not None:
        init(plan)
    kind, val = in_fork(lambda: _exec_child(prop, plan, ref.client))
    if kind == "ok":
        return val
    base = {"violations": [], "faults": {}, "probes": {}, "states": [], "sim_time": 0.0,
            "steps": 0, "digest": kind, "log_len": 0, "extra": {}}
    if kind == "timeout":
        base["violations"] = [("hang", "the simulated system stopped making progress")]
        return base
    base["error"] = f"{kind}: {val}"
    return base


# ------------------------------------------------------------------ minimisation
def shrink(prop: str, plan: dict, cls: str, ref: RefServer, budget: float) -> tuple[dict, int]:
    end = time.monotonic() + budget
    tried = 0

    def fails(p: dict) -> bool:
        nonlocal tried
        tried += 1
        try:
            out = run_plan(prop, p, ref)
        except Exception:  # noqa: BLE001
            return False
        return any(c == cls for c, _ in out["violations"])

    mod = scenario(prop)
    best = plan
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for key in getattr(mod, "SHRINK", ["ops"]):
            items = best.get(key)
            if not isinstance(items, list) or not items:
                continue
            n = max(1, len(items) // 2)
            while n >= 1 and time.monotonic() < end:
                i = 0
                while i < len(best[key]) and time.monotonic() < end:
                    cand = copy.deepcopy(best)
                    del cand[key][i : i + n]
                    if fails(cand):
                        best = cand
                        changed = True
                    else:
                        i += n
                n //= 2
        if hasattr(mod, "simplify"):
            for cand in mod.simplify(best):
                if time.monotonic() >= end:
                    break
                if fails(cand):
                    best = cand
                    changed = True
                    break
    return best, tried


# ------------------------------------------------------------------ worker pool
def _worker(prop: str, seed: int, tier: str, w: int, nw: int, total: int, out_fd: int,
            stop_at: float, memo: Optional[str]) -> None:
    ref = RefServer(memo)
    for i in range(w, total, nw):
        if time.monotonic() > stop_at:
            break
        plan = make_plan(prop, seed, i, tier)
        res = run_plan(prop, plan, ref)
        res["index"] = i
        res["plan_hash"] = h(json.dumps(plan, sort_keys=True))
        if res["violations"] or res.get("error"):
            res["plan"] = plan
        elif i < 3:
            res["sample"] = summarise(plan)
        try:
            _send(out_fd, res)
        except BrokenPipeError:
            break
    ref.close()
    done(prop)


def done(prop: str) -> None:
    fn = getattr(scenario(prop), "worker_done", None)
    if fn is not None:
        fn()


def summarise(plan: dict) -> Any:
    s = json.dumps(plan)
    if len(s) > 3000:
        return {"truncated": s[:3000]}
    return plan


def sweep(prop: str, seed: int, tier: str, total: int, nw: int,
          stop_at: float, memo: Optional[str] = None) -> Iterator[dict]:
    procs = []
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for _, rr in procs:
                    os.close(rr)
                _worker(prop, seed, tier, w, nw, total, wfd, stop_at, memo)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 4
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        procs.append((pid, r))
    live = dict((r, pid) for pid, r in procs)
    try:
        while live:
            rs, _, _ = select.select(list(live), [], [], 5.0)
            for r in rs:
                try:
                    res = _recv(r)
                except EOFError:
                    pid = live.pop(r)
                    os.close(r)
                    _, st = os.waitpid(pid, 0)
                    if st:
                        yield {"error": f"worker died: {st}", "violations": [], "index": -1}
                    continue
                yield res
    finally:
        for r, pid in live.items():
            try:
                os.kill(pid, signal.SIGTERM)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
            os.close(r)


# ------------------------------------------------------------------ known findings
def known_findings(prop: str) -> list[dict]:
    path = os.path.join(boot.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line and not line.startswith("#"):
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "known":
                    out.append(e)
    return out


def is_known(entry: dict, cls: str, msg: str) -> bool:
    return entry["class"] == cls and entry["match"] in msg


# ------------------------------------------------------------------ the check
def check(prop: str, seed: int, tier: str) -> int:
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    # references are shared in the quick tier only: a thorough run has too many to keep
    memo = tempfile.mkdtemp(prefix="pgsim-memo-", dir=base) if tier == "quick" else None
    try:
        return _check(prop, seed, tier, memo)
    finally:
        if memo:
            shutil.rmtree(memo, ignore_errors=True)


def _check(prop: str, seed: int, tier: str, memo: Optional[str]) -> int:
    t0 = time.monotonic()
    boot.import_all()
    mod = scenario(prop)
    nw = int(os.environ.get("PGSIM_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))
    total = int(os.environ.get("PGSIM_RUNS", "0")) or mod.RUNS[tier]
    cap = float(os.environ.get("PGSIM_CAP", "0")) or {"quick": 420.0, "thorough": 6 * 3600.0}[tier]
    print(f"pgsim property={prop} tier={tier} VERIF_SEED={seed} runs={total} workers={nw}", flush=True)
    if hasattr(mod, "prepare"):
        mod.prepare(seed, tier)
    faults: collections.Counter[str] = collections.Counter()
    probes: collections.Counter[str] = collections.Counter()
    states: set[str] = set()
    plans: set[str] = set()
    digests: set[str] = set()
    runs = steps = 0
    sim_time = 0.0
    samples: list[Any] = []
    errors: list[str] = []
    failing: list[dict] = []
    known = known_findings(prop)
    known_hit: dict[str, int] = {}
    alld = hashlib.sha256()
    per_index: dict[int, str] = {}
    t_sweep = time.monotonic()
    for res in sweep(prop, seed, tier, total, nw, t0 + cap, memo):
        if res.get("error"):
            errors.append(f"run {res['index']}: {res['error']}")
            continue
        runs += 1
        faults.update(res["faults"])
        probes.update(res["probes"])
        states.update(res["states"])
        steps += res["steps"]
        sim_time += res["sim_time"]
        per_index[res["index"]] = res["digest"]
        if res["log_len"] > 1:
            plans.add(res["plan_hash"])
            digests.add(res["digest"])
        if "sample" in res:
            samples.append(res["sample"])
        if res["violations"]:
            fresh = []
            for cls, msg in res["violations"]:
                k = next((e for e in known if is_known(e, cls, msg)), None)
                if k:
                    known_hit[k["what"]] = known_hit.get(k["what"], 0) + 1
                else:
                    fresh.append((cls, msg))
            if fresh:
                res["violations"] = fresh
                failing.append(res)
                break
    wall_sweep = time.monotonic() - t_sweep
    for i in sorted(per_index):
        alld.update(per_index[i].encode())

    confirmed: list[tuple[str, str, str]] = []
    unreproduced: list[str] = []
    if failing:
        ref = RefServer()
        seen_cls: set[str] = set()
        for res in sorted(failing, key=lambda r: r["index"]):
            cls, msg = res["violations"][0]
            if cls in seen_cls:
                continue
            seen_cls.add(cls)
            plan = res["plan"]
            ok = False
            for _ in range(3):
                again = run_plan(prop, plan, ref)
                if any(c == cls for c, _ in again["violations"]):
                    ok = True
                    break
            if not ok:
                unreproduced.append(f"run {res['index']}: {cls}: {msg[:300]}")
                continue
            if cls != "hang" and hasattr(mod, "explicit"):
                exp = mod.explicit(plan, again)
                if exp is not None:
                    chk = run_plan(prop, exp, ref)
                    if any(c == cls for c, _ in chk["violations"]):
                        plan = exp
            tried = 0
            if cls != "hang":
                plan, tried = shrink(prop, plan, cls, ref, 90.0 if tier == "quick" else 300.0)
            final = run_plan(prop, plan, ref)
            fm = next((m for c, m in final["violations"] if c == cls), msg)
            rdir = os.path.join(boot.VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}-{seed}-{res['index']}-{cls}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": prop, "class": cls, "message": fm, "seed": seed,
                           "index": res["index"], "tier": tier, "digest": final["digest"],
                           "shrink_attempts": tried, "plan": plan}, f, indent=1)
            confirmed.append((cls, fm, path))
        ref.close()
        done(prop)

    hours = max(wall_sweep, 1e-9) / 3600.0
    wall = time.monotonic() - t0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE + " Non-trivial: the run executed at least two recorded events; "
            "distinct: its event log (operations, faults fired, scheduling and results) differs "
            "from every other run's.",
            "samples": samples[:2],
            "distinct_plans": len(plans),
            "distinct_states": len(states),
            "state_measure": getattr(mod, "STATE_MEASURE", ""),
            "runs_per_hour": round(runs / hours),
            "seeds_per_hour": round(runs / hours),
            "simulated_seconds": round(sim_time, 3),
            "simulator_steps": steps,
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
            "log_digest": alld.hexdigest(),
            "workers": nw,
            "harness_errors": errors[:5],
            "unreproduced": unreproduced[:5],
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    if os.environ.get("PGSIM_DUMP"):
        with open(os.environ["PGSIM_DUMP"], "w", encoding="utf-8") as f:
            json.dump(per_index, f)
    if not os.environ.get("PGSIM_NOEVIDENCE"):
        edir = os.path.join(boot.VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1)
    print(f"runs={runs} distinct={len(digests)} states={len(states)} steps={steps} "
          f"sim_s={sim_time:.1f} wall={wall:.1f}s digest={alld.hexdigest()[:16]}")
    print("faults fired:", json.dumps(dict(sorted(faults.items()))))
    print("probes:", json.dumps(dict(sorted(probes.items()))))
    for what, n in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {what} (in {n} runs)")
    for u in unreproduced:
        print("UNREPRODUCED (not reported):", u)
    for cls, msg, path in confirmed:
        print(f"violation class={cls}: {msg[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    if confirmed:
        return 1
    if errors:
        print("harness errors:", len(errors), file=sys.stderr)
        print("\n".join(errors[:3]), file=sys.stderr)
        return 2
    if runs == 0:
        return 2
    return 0


def replay(path: str) -> int:
    boot.import_all()
    with open(path, encoding="utf-8") as f:
        doc = json.load(f)
    ref = RefServer()
    out = run_plan(doc["property"], doc["plan"], ref)
    ref.close()
    done(doc["property"])
    for cls, msg in out["violations"]:
        print(f"violation class={cls}: {msg[:3000]}")
    if out.get("error"):
        print(out["error"])
        return 2
    same = any(c == doc["class"] for c, _ in out["violations"])
    print(f"digest={'same' if out['digest'] == doc['digest'] else 'different'}")
    if same:
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    print("replay did not reproduce the violation")
    return 0


def one(prop: str, seed: int, index: int, tier: str) -> int:
    boot.import_all()
    ref = RefServer()
    if hasattr(scenario(prop), "prepare"):
        scenario(prop).prepare(seed, tier)
    plan = make_plan(prop, seed, index, tier)
    os.environ["PGSIM_LOG"] = "1"
    print(json.dumps(plan, indent=1)[:20000])
    t = time.monotonic()
    out = run_plan(prop, plan, ref)
    ref.close()
    done(prop)
    for l in out.pop("log", []):
        print(l[:600])
    out.pop("states")
    print(json.dumps(out, indent=1, default=str)[:8000], time.monotonic() - t)
    return 0
