"""Core of the simulator: seeded plans, forked deterministic execution, search,
minimisation, replay files, evidence.

A *plan* is a JSON document that fixes everything a run does: the operations,
the faults and where they strike, and every scheduling decision.  The PRNG is
used only to *make* plans; executing one is a pure function of (plan, code
under /repo).  Each execution happens in a child forked from a parent that has
imported the code and started no thread, so no run can see another run.
"""
import hashlib
import json
import os
import random
import select
import signal
import sys
import time as _time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

real_time = _time.time
real_perf = _time.perf_counter


def rng_for(*parts):
    """One PRNG per (seed, property, run index); independent of hash seed."""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


class Violation(Exception):
    """The property under test is broken."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Inconclusive(Exception):
    """The oracle cannot decide this run (an input on a numerical knife edge)."""


class SimBug(Exception):
    """Something is wrong with the harness itself."""


class Recorder:
    """Event log and counters of one run.  Never draws randomness or time."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.log = []
        self.stats = {}
        self.marks = set()

    def ev(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.h.update(s.encode() + b"\n")
        if len(self.log) < 400:
            self.log.append(s if len(s) <= 600 else s[:600] + " ...")

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def mark(self, key):
        """a rare condition was reached in this run"""
        self.marks.add(key)


# --------------------------------------------------------------------------
# forked execution


def _child(fn, plan, wfd):
    out = {}
    try:
        rec = Recorder()
        try:
            fn(plan, rec)
            out["status"] = "ok"
        except Violation as v:
            out["status"] = "violation"
            out["cls"] = v.cls
            out["msg"] = v.msg[:2000]
        except Inconclusive as e:
            out["status"] = "inconclusive"
            out["msg"] = str(e)[:500]
        out["hash"] = rec.h.hexdigest()
        out["stats"] = rec.stats
        out["marks"] = sorted(rec.marks)
        out["log"] = rec.log
    except BaseException as e:
        where = _in_repo(e)
        if where:
            # code under test failed where nothing was injected and no refusal
            # is specified
            out = {
                "status": "violation",
                "cls": "unexpected-exception",
                "msg": f"{type(e).__name__}: {str(e)[:300]} raised in {where}",
                "hash": rec.h.hexdigest(),
                "stats": rec.stats,
                "marks": sorted(rec.marks),
                "log": rec.log,
            }
        else:
            out = {"status": "error", "msg": traceback.format_exc()[-3000:]}
    data = json.dumps(out).encode()
    try:
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off : off + 65536])
    finally:
        os._exit(0)


def _in_repo(e):
    """'file:function' of the innermost /repo frame if the exception came out of
    code under test (and not out of the harness), else None"""
    if isinstance(e, (SimBug, MemoryError, KeyboardInterrupt, SystemExit)):
        return None
    tb, inner, last = e.__traceback__, None, ""
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(REPO + "/"):
            inner = f"{os.path.relpath(last, REPO)}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return None if last.startswith(VERIF + "/sim/") else inner


class Pool:
    """Runs plans in forked children, at most `width` at a time."""

    def __init__(self, fn, width=None, timeout=150):
        self.fn = fn
        self.width = width or min(8, os.cpu_count() or 1)
        self.timeout = timeout
        self.live = {}

    def _spawn(self, key, plan):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            _child(self.fn, plan, w)
        os.close(w)
        self.live[r] = [pid, key, plan, bytearray(), real_time()]

    def run(self, jobs, on_result):
        """jobs: iterator of (key, plan).  on_result(key, plan, out) -> stop?"""
        jobs = iter(jobs)
        done = stop = False
        while True:
            while not done and not stop and len(self.live) < self.width:
                try:
                    key, plan = next(jobs)
                except StopIteration:
                    done = True
                    break
                self._spawn(key, plan)
            if not self.live:
                return
            ready, _, _ = select.select(list(self.live), [], [], 1.0)
            now = real_time()
            for fd in list(self.live):
                pid, key, plan, buf, t0 = self.live[fd]
                if fd in ready:
                    chunk = os.read(fd, 1 << 16)
                    if chunk:
                        buf += chunk
                        continue
                    os.close(fd)
                    del self.live[fd]
                    os.waitpid(pid, 0)
                    try:
                        out = json.loads(bytes(buf))
                    except ValueError:
                        out = {"status": "error", "msg": "child died without a result"}
                elif now - t0 > self.timeout:
                    os.killpg(pid, signal.SIGKILL) if _alive_group(pid) else os.kill(
                        pid, signal.SIGKILL
                    )
                    os.waitpid(pid, 0)
                    os.close(fd)
                    del self.live[fd]
                    out = {
                        "status": "timeout",
                        "msg": f"run exceeded {self.timeout}s of real time",
                    }
                else:
                    continue
                if on_result(key, plan, out):
                    stop = True


def _alive_group(pid):
    try:
        return os.getpgid(pid) == pid
    except OSError:
        return False


def run_one(fn, plan, timeout=150, hang_is_violation=False):
    res = []
    Pool(fn, 1, timeout).run([(0, plan)], lambda k, p, o: res.append(o))
    out = res[0]
    if out["status"] == "timeout" and hang_is_violation:
        out = {
            "status": "violation",
            "cls": "no-progress",
            "msg": f"the run did not come to an end in {timeout}s "
            "(runs of this size take seconds)",
            "hash": "", "stats": {}, "marks": [], "log": [],
        }
    return out


# --------------------------------------------------------------------------
# minimisation


def minimise(fn, plan, cls, reducers, budget_s=90, timeout=150):
    """Greedy: try every smaller plan a reducer proposes, keep those that still
    show a violation of the same class."""
    t0 = real_perf()
    best = plan
    tried = 0
    changed = True
    while changed and real_perf() - t0 < budget_s:
        changed = False
        for red in reducers:
            k = 0
            while real_perf() - t0 < budget_s:
                cands = list(red(best))
                if k >= len(cands):
                    break
                # evaluate candidates in parallel, accept the first that fails
                batch = cands[k : k + 8]
                outs = {}
                Pool(fn, len(batch), timeout).run(
                    list(enumerate(batch)), lambda i, p, o: outs.__setitem__(i, o)
                )
                tried += len(batch)
                hit = None
                for i in range(len(batch)):
                    o = outs.get(i, {})
                    if o.get("status") == "violation" and o.get("cls") == cls:
                        hit = i
                        break
                if hit is None:
                    k += len(batch)
                else:
                    best = batch[hit]
                    changed = True
                    k = max(0, k + hit - 1) if len(list(red(best))) else 0
    return best, tried


def drop_chunks(key):
    """reducer: drop runs of elements of plan[key]"""

    def red(plan):
        xs = plan.get(key) or []
        n = len(xs)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                q = dict(plan)
                q[key] = xs[:i] + xs[i + size :]
                if len(q[key]) < n:
                    yield q
            size //= 2

    return red


# --------------------------------------------------------------------------
# known findings


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        doc = json.load(f)
    return [k for k in doc.get("findings", []) if k["property"] == prop]


# --------------------------------------------------------------------------
# search driver


def search(prop, spec, tier, seed):
    """spec: object with
    prepare(tier)            heavy imports, in the parent, before forking
    plans(tier, seed)        iterator of plans (each has a 'run' index)
    execute(plan, rec)       raises Violation/Inconclusive
    reducers                 list of reducers
    describe                 static text for the evidence
    """
    t0 = real_perf()
    spec.prepare(tier)
    prep = real_perf() - t0
    agg = {}
    marks = {}
    hashes = set()
    nontrivial = set()
    samples = []
    bad = []
    errors = []
    hung = []
    tally = {"ok": 0, "violation": 0, "inconclusive": 0, "error": 0, "timeout": 0}
    why = {}
    n_sched = set()

    def on_result(key, plan, out):
        st = out["status"]
        tally[st] += 1
        if st == "error":
            errors.append((plan, out))
            return len(errors) >= 3
        if st == "timeout":
            hung.append(plan)
            return len(hung) >= 2
        if st == "inconclusive":
            why[out.get("msg", "")[:70]] = why.get(out.get("msg", "")[:70], 0) + 1
        for k, v in out.get("stats", {}).items():
            agg[k] = agg.get(k, 0) + v
        for m in out.get("marks", []):
            marks[m] = marks.get(m, 0) + 1
        hashes.add(out["hash"])
        if spec.nontrivial(out):
            nontrivial.add(out["hash"])
        if st == "ok" and len(samples) < 3 and spec.nontrivial(out):
            samples.append(
                {"plan": spec.sample(plan), "log_head": out["log"][:25], "hash": out["hash"]}
            )
        if st == "violation":
            bad.append((plan, out))
            return not spec.is_known(out)
        return False

    pool = Pool(spec.execute, timeout=spec.timeout)
    print(f"seed={seed} property={prop} tier={tier} workers={pool.width}", flush=True)
    pool.run(((p["run"], p) for p in spec.plans(tier, seed)), on_result)
    for plan in hung[:2]:
        # once more, alone and with more time: hung or only slow?
        tally["timeout"] -= 1
        on_result(plan["run"], plan, run_one(spec.execute, plan, 3 * spec.timeout, True))
    wall = real_perf() - t0
    search_s = wall - prep

    unknown = [b for b in bad if not spec.is_known(b[1])]
    n_runs = sum(tally.values())
    replay_path = None
    if unknown:
        unknown.sort(key=lambda b: b[0]["run"])
        plan, out = unknown[0]
        print(f"violation in run {plan['run']}: {out['cls']}: {out['msg']}", flush=True)
        if out["cls"] == "no-progress":
            mplan, tried, mout = plan, 0, out
        else:
            mplan, tried = minimise(
                spec.execute, plan, out["cls"], spec.reducers,
                budget_s=spec.shrink_s, timeout=spec.timeout,
            )
            mout = run_one(spec.execute, mplan, spec.timeout)
        if mout.get("status") != "violation":
            mplan, mout = plan, out
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{plan['run']}.json")
        with open(replay_path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "seed": seed,
                    "run": plan["run"],
                    "violation": {"class": mout["cls"], "message": mout["msg"]},
                    "hash": mout["hash"],
                    "original_size": spec.size(plan),
                    "minimised_size": spec.size(mplan),
                    "shrink_attempts": tried,
                    "plan": mplan,
                    "log": mout["log"],
                },
                f,
                indent=1,
            )
        print(f"minimised {spec.size(plan)} -> {spec.size(mplan)} ({tried} attempts)")
        print(f"  {mout['cls']}: {mout['msg']}")

    cov = {
        "evaluations": n_runs,
        "distinct_nontrivial": len(nontrivial),
        "rule": spec.rule,
        "samples": samples or [spec.sample(bad[0][0])] if (samples or bad) else ["none"],
        "inconclusive_runs": tally["inconclusive"],
        "inconclusive_reasons": dict(sorted(why.items())),
        "distinct_executions_by_event_log": len(hashes),
        "runs_per_hour": int(n_runs / max(search_s, 1e-6) * 3600),
        "seeds": 1,
        "simulated_time_s": round(agg.pop("sim_time_ms", 0) / 1000, 3),
        "faults_fired": {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("fault:")},
        "operations": {k[3:]: v for k, v in sorted(agg.items()) if k.startswith("op:")},
        "oracle_checks": {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("check:")},
        "probes_runs_hit": dict(sorted(marks.items())),
        "counters": {
            k: v
            for k, v in sorted(agg.items())
            if not k.startswith(("fault:", "op:", "check:"))
        },
        "real_components": spec.real,
        "stubbed_components": spec.stubs,
    }
    for p in spec.required_probes:
        cov["probes_runs_hit"].setdefault(p, 0)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec.level,
        "coverage": cov,
        "assumptions": spec.assumptions,
        "wall_s": round(real_perf() - t0, 2),
        "violations": len(unknown),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k['what_fails']}")
    if unknown:
        print(f"VIOLATION property={prop} replay={replay_path}", flush=True)
        return 1
    if errors:
        for plan, out in errors[:3]:
            print(f"HARNESS ERROR in run {plan['run']}:\n{out['msg']}", file=sys.stderr)
        return 2
    if tally["inconclusive"] > 0.5 * n_runs:
        print(f"HARNESS ERROR: {tally['inconclusive']}/{n_runs} runs inconclusive: {why}", file=sys.stderr)
        return 2
    print(
        f"OK property={prop} runs={n_runs} distinct={len(hashes)} "
        f"nontrivial={len(nontrivial)} inconclusive={tally['inconclusive']} "
        f"wall={real_perf() - t0:.1f}s"
    )
    return 0


class Spec:
    """defaults for a property's check"""

    reducers = [drop_chunks("faults"), drop_chunks("ops")]
    timeout = 60
    shrink_s = 90
    level = "exploration"
    real = []
    stubs = []
    assumptions = []
    required_probes = []
    rule = ""

    def prepare(self, tier):
        pass

    def nontrivial(self, out):
        return True

    def is_known(self, out):
        for k in known_findings(self.prop):
            if out.get("cls") == k.get("class") and (
                not k.get("contains") or k["contains"] in out.get("msg", "")
            ):
                return True
        return False

    def sample(self, plan):
        return plan

    def size(self, plan):
        return {
            k: len(v) for k, v in plan.items() if isinstance(v, list)
        }
