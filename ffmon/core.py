"""Case runner, verdict discipline, evidence and replay files.

A check is a module ``checks/<id>.py`` holding *sections*.  A section is a
function ``f(ctx)`` that drives the real code once with a workload derived only
from ``ctx.rng`` and lets oracles observe what happened through ``ctx``.

Verdicts are three-valued:
  exit 0  every oracle evaluation held, and every section observed something
  exit 1  ``VIOLATION property=<id> replay=<path>`` (witness + PRNG state stored)
  exit 2  inconclusive (an oracle was never reached, a worker died, time ran out
          before a section saw anything, the harness could not be imported)
"""

from __future__ import annotations

import collections
import contextlib
import dataclasses
import hashlib
import json
import os
import pathlib
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from typing import Any, Callable

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("FFMON_REPO", "/repo"))
CASE_TIMEOUT_S = 240


class Violation(Exception):
    """An oracle observed a refutation of the property."""

    def __init__(self, key: str, message: str, witness: dict[str, Any] | None = None) -> None:
        super().__init__(f"[{key}] {message}")
        self.key = key
        self.message = message
        self.witness = witness or {}


class Known(Exception):
    """An oracle observed a refutation that is a listed known finding."""

    def __init__(self, finding: str, message: str) -> None:
        super().__init__(message)
        self.finding = finding
        self.message = message


class Skip(Exception):
    """The generated case is outside of the property's domain."""


class CaseTimeout(BaseException):
    pass


class _Overrun(BaseException):
    pass


@dataclasses.dataclass
class Section:
    name: str
    fn: Callable[["Ctx"], None]
    quick: int
    thorough: int
    serial: bool = False
    requires: tuple[str, ...] = ()


SECTIONS: list[Section] = []


def section(
    quick: int,
    thorough: int,
    *,
    name: str | None = None,
    requires: tuple[str, ...] = (),
) -> Callable[[Callable[["Ctx"], None]], Callable[["Ctx"], None]]:
    """Register a workload+oracle pair.

    ``requires`` names events which must have been observed at least once over all
    cases, otherwise the run is inconclusive.
    """

    def deco(fn: Callable[["Ctx"], None]) -> Callable[["Ctx"], None]:
        SECTIONS.append(
            Section(name or fn.__name__, fn, quick, thorough, requires=requires)
        )
        return fn

    return deco


def _short(v: Any, limit: int = 600) -> str:
    try:
        s = repr(v)
    except Exception as e:  # noqa: BLE001
        s = f"<unreprable {type(v).__name__}: {e}>"
    return s if len(s) <= limit else s[:limit] + "…"


class Ctx:
    """What a section sees: seeded randomness, oracles, counters."""

    def __init__(self, prop: str, sec: str, case: int, seed: int, scratch: str, tier: str) -> None:
        self.prop, self.sec, self.case, self.seed, self.tier = prop, sec, case, seed, tier
        digest = hashlib.sha256(f"{seed}/{prop}/{sec}/{case}".encode()).digest()
        self.case_seed = int.from_bytes(digest[:6], "big")
        self.rng = random.Random(self.case_seed)
        self.scratch_root = scratch
        self.events: collections.Counter[str] = collections.Counter()
        self.states: set[str] = set()
        self.evaluations = 0
        self.known: list[tuple[str, str]] = []
        self.notes: dict[str, Any] = {}

    # -- randomness ----------------------------------------------------------
    def torch_seed(self) -> None:
        import torch

        torch.manual_seed(self.case_seed & 0x7FFFFFFF)

    def scratch(self) -> pathlib.Path:
        return pathlib.Path(tempfile.mkdtemp(dir=self.scratch_root))

    # -- bookkeeping ---------------------------------------------------------
    def event(self, name: str, n: int = 1) -> None:
        self.events[name] += n

    def state(self, *sig: Any) -> None:
        """Record a distinct observed state/shape/interleaving signature."""
        self.states.add(
            hashlib.md5((self.sec + repr(sig)).encode(), usedforsecurity=False).hexdigest()[:12]
        )

    def note(self, **kw: Any) -> None:
        self.notes.update(kw)

    # -- oracles -------------------------------------------------------------
    def fail(self, key: str, message: str = "", **witness: Any) -> None:
        raise Violation(key, message, {**self.notes, **witness})

    def check(self, cond: Any, key: str, message: str = "", **witness: Any) -> None:
        self.evaluations += 1
        self.events["oracle:" + key] += 1
        if not bool(cond):
            self.fail(key, message, **witness)

    def equal(self, got: Any, want: Any, key: str, message: str = "", **witness: Any) -> None:
        self.check(got == want, key, message, got=_short(got), want=_short(want), **witness)

    def same(self, got: Any, want: Any, key: str, message: str = "", dtype: bool = False, **witness: Any) -> None:
        """Bit-for-bit tensor equality (NaN == NaN, -0 == 0)."""
        import torch

        self.evaluations += 1
        self.events["oracle:" + key] += 1
        g, w = torch.as_tensor(got).detach(), torch.as_tensor(want).detach()
        if type(g) is not torch.Tensor and type(g).__name__ == "QuantizedTensor":
            g = g.dequantize()
        if g.shape != w.shape:
            self.fail(key, f"{message} shape {tuple(g.shape)} != {tuple(w.shape)}", **witness)
        if dtype and g.dtype != w.dtype:
            self.fail(key, f"{message} dtype {g.dtype} != {w.dtype}", **witness)
        if g.numel() == 0:
            return
        gd, wd = g.to(torch.float64), w.to(torch.float64)
        bad = ~((gd == wd) | (gd.isnan() & wd.isnan()))
        if bool(bad.any()):
            i = bad.flatten().nonzero()[0].item()
            self.fail(
                key,
                f"{message} {int(bad.sum())}/{g.numel()} elements differ; first at flat {i}: "
                f"got {gd.flatten()[i].item()!r} want {wd.flatten()[i].item()!r}",
                **witness,
            )

    def close(
        self,
        got: Any,
        want: Any,
        key: str,
        message: str = "",
        rtol: float = 1e-5,
        atol: float = 1e-6,
        **witness: Any,
    ) -> None:
        import torch

        self.evaluations += 1
        self.events["oracle:" + key] += 1
        g, w = torch.as_tensor(got).detach(), torch.as_tensor(want).detach()
        if g.shape != w.shape:
            self.fail(key, f"{message} shape {tuple(g.shape)} != {tuple(w.shape)}", **witness)
        if g.numel() == 0:
            return
        gd, wd = g.to(torch.float64), w.to(torch.float64)
        ok = torch.isclose(gd, wd, rtol=rtol, atol=atol, equal_nan=True)
        if not bool(ok.all()):
            d = (gd - wd).abs()
            i = (~ok).flatten().nonzero()[0].item()
            self.fail(
                key,
                f"{message} {int((~ok).sum())}/{g.numel()} elements differ (max {d.max().item():.3g}); "
                f"first at flat {i}: got {gd.flatten()[i].item()!r} want {wd.flatten()[i].item()!r}",
                **witness,
            )

    @contextlib.contextmanager
    def limit(self, seconds: float, key: str, message: str = "", memory_gb: float = 3.0) -> Any:
        """Watchdog for code whose termination is promised.

        The limits are two or more orders of magnitude above what the code needs, so that a slow
        machine does not trip them.
        """
        def overrun(_sig: int, _frm: Any) -> None:
            raise _Overrun()

        with open("/proc/self/statm") as f:
            used = int(f.read().split()[0]) * resource.getpagesize()
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        before = signal.signal(signal.SIGALRM, overrun)
        left = signal.alarm(0)
        t0 = time.monotonic()
        try:
            resource.setrlimit(resource.RLIMIT_AS, (used + int(memory_gb * 2**30), hard))
            signal.setitimer(signal.ITIMER_REAL, seconds)
            yield
        except _Overrun:
            raise Violation(key, f"still running after {seconds} s: {message}") from None
        except MemoryError:
            raise Violation(key, f"more than {memory_gb} GB of memory: {message}") from None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
            signal.signal(signal.SIGALRM, before)
            signal.alarm(max(1, left - int(time.monotonic() - t0)) if left else 0)

    def raises(
        self, excs: Any, fn: Callable[[], Any], key: str, message: str = "", **witness: Any
    ) -> BaseException | None:
        self.evaluations += 1
        self.events["oracle:" + key] += 1
        try:
            r = fn()
        except excs as e:
            return e
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            self.fail(key, f"{message} raised {type(e).__name__}: {e} instead of {excs}", **witness)
        self.fail(key, f"{message} did not raise (returned {_short(r, 200)})", **witness)
        return None


# --------------------------------------------------------------------------- runner


def _alarm(_sig: int, _frm: Any) -> None:
    raise CaseTimeout()


def run_case(prop: str, sec: Section, case: int, seed: int, scratch: str, tier: str) -> dict[str, Any]:
    ctx = Ctx(prop, sec.name, case, seed, scratch, tier)
    out: dict[str, Any] = {"section": sec.name, "case": case, "status": "ok"}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    t0 = time.monotonic()
    try:
        ctx.torch_seed()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sec.fn(ctx)
    except Skip:
        out["status"] = "skip"
    except Known as k:
        ctx.known.append((k.finding, k.message))
    except Violation as v:
        out.update(
            status="violation",
            key=v.key,
            message=v.message,
            witness={k: _short(x, 2000) for k, x in v.witness.items()},
            trace=traceback.format_exc()[-4000:],
        )
    except CaseTimeout:
        out.update(status="timeout", message=f"case exceeded {CASE_TIMEOUT_S}s")
    except MemoryError:
        out.update(status="error", message=traceback.format_exc()[-4000:])
    except OSError as e:
        # an OSError may be the sandbox (disk full, ...); only believe it if fastforward raised it
        tb = traceback.extract_tb(e.__traceback__)
        st = "violation" if any(str(REPO / "src") in f.filename for f in tb) else "error"
        out.update(status=st, key="unexpected-exception", message=_short(e), witness={}, trace=traceback.format_exc()[-4000:])
    except BaseException as e:  # noqa: BLE001
        # Every generated case is in the domain in which the property promises an answer, so an
        # exception that the oracle did not ask for refutes it.
        out.update(
            status="violation",
            key="unexpected-exception",
            message=f"{type(e).__name__}: {e}"[:1000],
            witness={k: _short(x, 2000) for k, x in ctx.notes.items()},
            trace=traceback.format_exc()[-6000:],
        )
        if isinstance(e, KeyboardInterrupt):
            out["status"] = "error"
    finally:
        signal.alarm(0)
    out.update(
        events=dict(ctx.events),
        states=sorted(ctx.states),
        evaluations=ctx.evaluations,
        known=ctx.known,
        notes={k: _short(v, 300) for k, v in ctx.notes.items()},
        t=time.monotonic() - t0,
    )
    return out


def _worker(
    prop: str, todo: list[tuple[Section, int]], seed: int, scratch: str, tier: str, fd: int, deadline: float
) -> None:
    with os.fdopen(fd, "w") as f:
        for sec, case in todo:
            if time.monotonic() > deadline:
                f.write(json.dumps({"section": sec.name, "case": case, "status": "late"}) + "\n")
                continue
            r = run_case(prop, sec, case, seed, scratch, tier)
            f.write(json.dumps(r) + "\n")
            f.flush()


def load_known(prop: str) -> dict[str, dict[str, Any]]:
    p = ROOT / "known_findings.txt"
    res: dict[str, dict[str, Any]] = {}
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d.get("property", "").lower() == prop.lower():
                res[d["finding"]] = d
    return res


def main(prop: str, tier: str, seed: int, meta: dict[str, Any], only: str | None = None, workers: int | None = None, cases: int | None = None) -> int:
    import torch

    torch.set_num_threads(1)
    t0 = time.monotonic()
    budget = float(os.environ.get("FFMON_BUDGET", 400 if tier == "quick" else 700))
    deadline = t0 + budget
    secs = [s for s in SECTIONS if only is None or s.name == only]
    todo: list[tuple[Section, int]] = []
    # interleave sections so that a truncated run still observed all of them
    counts = {s.name: cases if cases is not None else (s.quick if tier == "quick" else s.thorough) for s in secs}
    top = max(counts.values())
    for frac in range(top):
        for s in secs:
            n = counts[s.name]
            lo, hi = frac * n // top, (frac + 1) * n // top
            todo.extend((s, c) for c in range(lo, hi))
    nw = workers or int(os.environ.get("FFMON_WORKERS", min(8, os.cpu_count() or 1)))
    scratch = tempfile.mkdtemp(prefix=f"ffmon-{prop}-")
    results: list[dict[str, Any]] = []
    errors: list[str] = []
    # Deal every section's cases out evenly over the workers.
    shards: list[list[tuple[Section, int]]] = [[] for _ in range(nw)]
    for i, s in enumerate(secs):
        for s2, c in todo:
            if s2 is s:
                shards[(c + i) % nw].append((s2, c))
    order = {(id(s), c): k for k, (s, c) in enumerate(todo)}
    for sh in shards:
        sh.sort(key=lambda sc: order[(id(sc[0]), sc[1])])
    pids: list[tuple[int, Any]] = []
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(nw):
            if not shards[w]:
                continue
            path = os.path.join(scratch, f"res-{w}.jsonl")
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    dn = os.open(os.path.join(scratch, f"out-{w}.log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                    wd = os.path.join(scratch, f"w{w}")
                    os.makedirs(wd, exist_ok=True)
                    os.chdir(wd)
                    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    _worker(prop, shards[w], seed, wd, tier, fd, deadline)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                finally:
                    try:
                        sys.stdout.flush()
                        sys.stderr.flush()
                    finally:
                        os._exit(code)
            pids.append((pid, (w, path)))
        hard = deadline + CASE_TIMEOUT_S + 30 if tier == "thorough" else deadline + 120
        hard = min(hard, t0 + 880)
        pending = dict(pids)
        while pending:
            for pid in list(pending):
                r, st = os.waitpid(pid, os.WNOHANG)
                if r:
                    w, path = pending.pop(pid)
                    if st != 0:
                        log = pathlib.Path(scratch, f"out-{w}.log")
                        tail = log.read_text(errors="replace")[-1500:] if log.exists() else ""
                        errors.append(f"worker {w} ended with status {st}: {tail}")
            if pending and time.monotonic() > hard:
                for pid in pending:
                    os.kill(pid, signal.SIGKILL)
                errors.append("watchdog: workers killed")
                hard = time.monotonic() + 20
            time.sleep(0.02)
        for w in range(nw):
            path = os.path.join(scratch, f"res-{w}.jsonl")
            if os.path.exists(path):
                for line in open(path):
                    try:
                        results.append(json.loads(line))
                    except ValueError:
                        errors.append(f"worker {w}: truncated record")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return conclude(prop, tier, seed, meta, secs, counts, results, errors, time.monotonic() - t0, only)


def conclude(
    prop: str,
    tier: str,
    seed: int,
    meta: dict[str, Any],
    secs: list[Section],
    counts: dict[str, int],
    results: list[dict[str, Any]],
    errors: list[str],
    wall: float,
    only: str | None,
) -> int:
    events: collections.Counter[str] = collections.Counter()
    states: set[str] = set()
    evaluations = 0
    per: dict[str, collections.Counter[str]] = {s.name: collections.Counter() for s in secs}
    samples: list[dict[str, Any]] = []
    known_seen: dict[str, str] = {}
    violations = [r for r in results if r["status"] == "violation"]
    results.sort(key=lambda r: (r["section"], r["case"]))
    known_listed = load_known(prop)
    for r in results:
        c = per[r["section"]]
        c[r["status"]] += 1
        if r["status"] == "late":
            continue
        if r["status"] in ("error", "timeout"):
            errors.append(f"{r['section']}#{r['case']}: {r.get('message')}")
        evaluations += r["evaluations"]
        c["oracle_evaluations"] += r["evaluations"]
        c["ms"] += int(r["t"] * 1000)
        for k, n in r["events"].items():
            events[f"{r['section']}/{k}"] += n
        states.update(r["states"])
        for k, m in r["known"]:
            if k in known_listed:
                known_seen.setdefault(k, m)
            else:
                violations.append({**r, "status": "violation", "key": "unlisted-finding:" + k, "message": m, "witness": {}, "trace": ""})
        if r["status"] == "ok" and c["ok"] <= 2 and r["notes"]:
            samples.append({"section": r["section"], "case": r["case"], **r["notes"]})
    inconclusive: list[str] = list(errors)
    for s in secs:
        if counts[s.name] and per[s.name]["oracle_evaluations"] == 0:
            inconclusive.append(f"section {s.name}: no oracle evaluation was reached")
        for need in s.requires:
            if events[f"{s.name}/{need}"] == 0:
                inconclusive.append(f"section {s.name}: event {need!r} never observed")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": meta.get("level", "exploration"),
        "technique": meta.get("technique", "runtime monitoring"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(states),
            "rule": meta.get("rule", "distinct workload/observation signatures recorded by the monitors"),
            "samples": samples[:24] or [{"note": "none"}],
            "sections": {k: dict(v) for k, v in per.items()},
            "events": dict(sorted(events.items())),
        },
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "known_findings": sorted(known_seen),
        "inconclusive": inconclusive[:20],
        "assumptions": meta.get("assumptions", []),
    }
    if only is None:
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for k, m in sorted(known_seen.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {known_listed[k].get('what', m)}")
    print(
        f"{prop} tier={tier} seed={seed} cases={len(results)} oracle-evaluations={evaluations} "
        f"distinct={len(states)} wall={wall:.1f}s"
    )
    for s in secs:
        print("  ", s.name, dict(per[s.name]))
    if violations:
        rd = ROOT / "replays"
        rd.mkdir(exist_ok=True)
        seen: collections.Counter[tuple[str, str]] = collections.Counter()
        for v in violations:
            k = (v["section"], v["key"])
            seen[k] += 1
            if seen[k] > 1:
                continue
            path = rd / f"{prop}-{v['section']}-{v['case']}.json"
            path.write_text(
                json.dumps({"property": prop, "seed": seed, "tier": tier, **{k2: v.get(k2) for k2 in ("section", "case", "key", "message", "witness", "notes", "trace")}}, indent=1)
                + "\n"
            )
            print(f"VIOLATION property={prop} replay={path}")
            print(f"    {v['section']}#{v['case']} [{v['key']}] {str(v['message'])[:400]}")
        print("   violation classes:", {f"{a}/{b}": n for (a, b), n in seen.items()})
        for e in inconclusive[:10]:
            print("   also inconclusive:", e[:600])
        return 1
    if inconclusive:
        for e in inconclusive[:20]:
            print("INCONCLUSIVE", prop, e[:3000])
        return 2
    return 0
