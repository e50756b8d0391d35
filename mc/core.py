"""Shared driver: runs the jobs of a check in parallel, tallies what was enumerated,
writes evidence and replay files, and decides the exit code.

A check is a list of jobs (JSON-able dicts) and a function `run(job) -> Tally`. Each job
enumerates one part of the space completely. Exit codes: 0 held, 1 violated, 2 error."""

import argparse
import hashlib
import json
import multiprocessing as mp
import os
import pathlib
import sys
import time
import traceback


os.environ.setdefault("JAX_PLATFORMS", "cpu")
# The last flag turns off a code path of XLA in which the maximum over an array with NaNs
# is not NaN if the array has 4096 or more elements.
os.environ["XLA_FLAGS"] = (
    "--xla_cpu_multi_thread_eigen=false "
    "--xla_cpu_experimental_ynn_fusion_type="
)
os.environ["OMP_NUM_THREADS"] = "1"
os.environ["OPENBLAS_NUM_THREADS"] = "1"
os.environ["EQX_GETKEY_SEED"] = "0"
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["JAX_ENABLE_COMPILATION_CACHE"] = "false"
sys.dont_write_bytecode = True

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
for p in (str(VERIF), str(REPO)):
    if p not in sys.path:
        sys.path.insert(0, p)

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "0") or 0)
THOROUGH = TIER == "thorough"
MAX_SAMPLES = 6
MAX_VIOLATIONS = 12
HANG = 3600 if THOROUGH else 400


def _plain(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int,)):
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, np.generic):
        return _plain(x.item())
    if hasattr(x, "shape"):
        x = np.asarray(x)
        if x.size > 200:
            return f"array{x.shape}"
        return _plain(x.tolist())
    return repr(x)


class Tally:
    """What one job enumerated and found."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.undecided = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.nviolations = 0
        self.notes = {}

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + int(n)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(_plain(kw))

    def note(self, name, n):
        self.notes[name] = self.notes.get(name, 0) + int(n)

    def bad(self, what, key="", **detail):
        self.nviolations += 1
        if sum(v["key"] == key for v in self.violations) < 3:
            self.violations.append(dict(what=what, key=key, detail=_plain(detail)))

    def count_states(self, *arrays):
        """Count distinct rows of the arrays (leading axes are flattened)."""
        import numpy as np

        cols = []
        for a, lead in arrays:
            a = np.asarray(a)
            n = int(np.prod(a.shape[:lead]))
            if n == 0:
                return 0
            cols.append(np.ascontiguousarray(a.reshape(n, -1).astype(np.float64)))
        m = np.ascontiguousarray(np.concatenate(cols, axis=1) + 0.0)
        m[np.isnan(m)] = np.nan  # one NaN
        rows = m.view(np.dtype((np.void, m.dtype.itemsize * m.shape[1]))).ravel()
        k = len(np.unique(rows))
        self.states += k
        return k

    def check_all(self, ok, what, key="", detail=None):
        """`ok` is a boolean array over instances; report the first failure."""
        import numpy as np

        ok = np.asarray(ok)
        if ok.all():
            return True
        idx = np.argwhere(~ok)
        self.nviolations += len(idx) - 1
        first = tuple(int(i) for i in idx[0])
        self.bad(
            what, key, index=first, failing=len(idx),
            **({} if detail is None else detail(first)),
        )
        return False


def _merge(parts):
    t = Tally()
    for p in parts:
        t.states += p.states
        t.transitions += p.transitions
        t.traces += p.traces
        t.undecided += p.undecided
        for k, v in p.outcomes.items():
            t.outcomes[k] = t.outcomes.get(k, 0) + v
        for k, v in p.notes.items():
            t.notes[k] = t.notes.get(k, 0) + v
    return t


_started = _pids = None


def _init_worker(x64, counter=None, started=None, pids=None):
    global _started, _pids
    _started, _pids = started, pids
    # One core, hence one XLA thread: with several threads this XLA version has a data
    # race that now and then corrupts single members of large batches.
    cpus = sorted(os.sched_getaffinity(0))
    i = 0
    if counter is not None:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
    os.sched_setaffinity(0, {cpus[i % len(cpus)]})

    import jax
    import numpy as np

    np.seterr(all="ignore")

    jax.config.update("jax_enable_x64", x64)


def _work(arg):
    run, job, i = arg
    start = time.time()
    if _started is not None:
        _started[i] = 1e-9 + time.process_time()
        _pids[i] = os.getpid()
    try:
        t = run(job)
    except (MemoryError, KeyboardInterrupt, ImportError, OSError):
        return i, job, None, traceback.format_exc(), time.time() - start
    except Exception:
        # Every job makes only valid calls, so an exception is a failing execution.
        t = Tally()
        t.bad("a valid call raised: " + traceback.format_exc()[-1500:], key="raised")
    return i, job, t, None, time.time() - start


def _cpu(pid):
    """Processor time used by a process so far."""
    try:
        fields = pathlib.Path(f"/proc/{pid}/stat").read_text().rsplit(")", 1)[1].split()
    except OSError:
        return 0.0
    return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")


def _results(pool, items, started, pids):
    """Results in the order they arrive. Every job is a fixed, bounded number of calls
    that takes a small fraction of `HANG` seconds of processor time; one that is still
    running after that contains a call that does not return, which is a failing execution."""
    waiting = pool.imap_unordered(_work, items)
    finished = set()
    while len(finished) < len(items):
        try:
            i, *result = waiting.next(timeout=5)
        except mp.TimeoutError:
            alive = {p.pid for p in mp.active_children()}
            running = [i for i in range(len(items)) if started[i] and i not in finished]
            dead = [i for i in running if pids[i] not in alive]
            stuck = [i for i in running if i not in dead and _cpu(pids[i]) - started[i] > HANG]
            for i in dead:
                yield items[i][1], None, "the worker died", 0.0
            for i in stuck:
                t = Tally()
                t.bad(f"a call did not return within {HANG} s", key="hang")
                yield items[i][1], t, None, float(HANG)
            if dead or stuck:
                return
            continue
        finished.add(i)
        yield result


def known_findings(prop):
    out = []
    path = VERIF / "known_findings.txt"
    for line in path.read_text().splitlines():
        if line.startswith("finding:"):
            fields = dict(
                w.split("=", 1) for w in line.split()[1:3] if "=" in w
            )
            if fields.get("property") == prop:
                out.append((fields["key"], " ".join(line.split()[3:])))
    return out


def main(prop, jobs, run, *, rule, assumptions=(), x64=True, procs=8, bounds=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("--replay", help="rerun the job recorded in a replay file")
    parser.add_argument("--job", help="only jobs whose JSON contains this text")
    parser.add_argument("--serial", action="store_true")
    parser.add_argument("--times", action="store_true")
    opts = parser.parse_args()
    start = time.time()
    if opts.replay:
        jobs = [json.loads(pathlib.Path(opts.replay).read_text())["job"]]
    if opts.job:
        jobs = [j for j in jobs if opts.job in json.dumps(j)]
    done = []
    errors = []
    items = [(run, j, i) for i, j in enumerate(jobs)]
    if opts.serial:
        _init_worker(x64)
        results = (_work(item)[1:] for item in items)
        pool = None
    else:
        ctx = mp.get_context("spawn")
        started = ctx.Array("d", max(1, len(items)), lock=False)
        pids = ctx.Array("l", max(1, len(items)), lock=False)
        args = (x64, ctx.Value("i", 0), started, pids)
        pool = ctx.Pool(min(procs, len(items)), _init_worker, args)
        results = _results(pool, items, started, pids)
    for job, t, err, secs in results:
        if opts.times:
            print(f"{secs:7.1f}s", json.dumps(job), flush=True)
        if err is not None:
            errors.append((job, err))
        else:
            done.append((job, t))
    if pool is not None:
        pool.terminate()
        pool.join()
    done.sort(key=lambda jt: json.dumps(jt[0], sort_keys=True))
    total = _merge([t for _, t in done])
    known = known_findings(prop)
    seen_known = {}
    violations = []
    for job, t in done:
        for v in t.violations:
            match = [k for k, _ in known if v["key"] == k]
            if match:
                seen_known[match[0]] = seen_known.get(match[0], 0) + 1
            else:
                violations.append((job, v))
    samples = []
    for job, t in done:
        for s in t.samples[:1]:
            if len(samples) < MAX_SAMPLES:
                samples.append(dict(job=_plain(job), case=s))
    replay_dir = VERIF / "evidence" / "replays"
    lines = []
    for i, (job, v) in enumerate(violations[:MAX_VIOLATIONS]):
        replay_dir.mkdir(parents=True, exist_ok=True)
        path = replay_dir / f"{prop}-{i}.json"
        path.write_text(
            json.dumps(dict(property=prop, job=job, tier=TIER, violation=v), indent=1)
        )
        print(f"--- {v['what']}\n    job={json.dumps(job)}\n    {json.dumps(v['detail'])[:1500]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    for key, what in known:
        if key in seen_known:
            print(f"KNOWN-FINDING: property={prop} {what}")
    wall = time.time() - start
    coverage = dict(
        states=total.states,
        transitions=total.transitions,
        traces_validated_against_impl=total.traces,
        samples=samples,
        exhaustive=not errors and len(done) == len(jobs),
        jobs=len(done),
        undecided_near_threshold=total.undecided,
        outcomes={k: total.outcomes[k] for k in sorted(total.outcomes)},
        bounds=bounds or {},
        rule=rule,
    )
    if total.notes:
        coverage["notes"] = total.notes
    evidence = dict(
        property=prop,
        tier="thorough" if THOROUGH else "quick",
        seed=SEED,
        level="model_checking",
        coverage=coverage,
        assumptions=list(assumptions),
        wall_s=round(wall, 2),
        violations=sum(t.nviolations for _, t in done) if violations else 0,
    )
    if not opts.replay and not opts.job:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    print(
        f"{prop}: states={total.states} transitions={total.transitions} "
        f"traces={total.traces} undecided={total.undecided} jobs={len(done)} "
        f"wall={wall:.1f}s"
    )
    print("outcomes:", json.dumps(coverage["outcomes"]))
    if total.notes:
        print("notes:", json.dumps(total.notes))
    for job, err in errors[:3]:
        print("ERROR in job", json.dumps(job), "\n", err)
    for line in lines:
        print(line)
    if violations:
        sys.exit(1)
    if errors:
        sys.exit(2)
    if total.transitions == 0 and not opts.job:
        print("ERROR: nothing was explored")
        sys.exit(2)
    sys.exit(0)


def pick(seq, n, salt=""):
    """A deterministic, seed-dependent choice of `n` indices to *replay* (conformance
    only; never decides what is enumerated)."""
    m = len(seq) if hasattr(seq, "__len__") else int(seq)
    if m <= n:
        return list(range(m))
    h = int(hashlib.sha256(f"{SEED}{salt}{m}".encode()).hexdigest(), 16)
    start = h % m
    stride = max(1, m // n)
    return sorted({(start + i * stride) % m for i in range(n)})
