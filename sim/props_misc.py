"""Properties C15 (interrupted database migration) and C16 (launcher)."""
import io
import json
import os
import re
import shlex
import shutil
import signal
import sqlite3
import subprocess
import sys
import tempfile
import time

from core import REPO, Inconclusive, SimBug, Spec, Violation, drop_chunks, rng_for

# --------------------------------------------------------------------------
# C15


_mig = {}


class Died(BaseException):
    pass


def tables(con):
    return [
        r[0] for r in con.execute("select name from sqlite_master where type='table' and name not like 'sqlite_%' order by 1")
    ]


def columns(con, t):
    return con.execute(f'pragma table_info("{t}")').fetchall()


def schema_of(con, prefix=""):
    out = {}
    for t in tables(con):
        if t.startswith(prefix):
            out[t] = {
                "columns": [list(c[1:]) for c in columns(con, t)],
                "indexes": sorted(
                    [r[2], sorted(str(c[2]) for c in con.execute(f'pragma index_info("{r[1]}")'))]
                    for r in con.execute(f'pragma index_list("{t}")')
                ),
                "foreign": sorted(list(map(str, r[2:])) for r in con.execute(f'pragma foreign_key_list("{t}")')),
            }
    return out


def rows_in(con, t):
    names = [c[1] for c in columns(con, t)]
    return [dict(zip(names, r)) for r in con.execute(f'select * from "{t}" order by 1')]


def history_of(con):
    if "django_migrations" not in tables(con):
        return []
    return sorted(con.execute("select app, name from django_migrations").fetchall())


def dump(path):
    con = sqlite3.connect(path)
    try:
        d = {"schema": schema_of(con), "history": [list(r) for r in history_of(con)], "rows": {}}
        for t in tables(con):
            if t == "django_migrations":
                continue
            d["rows"][t] = rows_in(con, t)
        # Django's own bookkeeping, filled in after the migrations
        for t in ("django_content_type", "auth_permission"):
            d["rows"].pop(t, None)
        d["ok"] = con.execute("pragma integrity_check").fetchone()[0]
        return d
    finally:
        con.close()


def in_child(fn):
    """run fn in a forked process; what it returns, or {'died': code}"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            out = fn()
            with os.fdopen(w, "w") as p:
                json.dump(out, p)
            code = 0
        except BaseException:
            import traceback

            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as p:
        data = p.read()
    st = os.waitpid(pid, 0)[1]
    if data:
        return json.loads(data)
    return {"died": os.waitstatus_to_exitcode(st)}


CRASH = 77


def migrate(path, args=(), faults=(), hist=None):
    """one run of `manage.py migrate`, as a process of its own"""

    def body():
        from django.db import connections
        from django.db.backends.base.base import BaseDatabaseWrapper
        from django.db.utils import OperationalError

        connections.settings["default"]["NAME"] = path
        connections["default"].settings_dict["NAME"] = path
        con = connections["default"]
        n = {"stmt": 0, "commit": 0, "after": 0, "committed": 0}
        plan = {(a[0], a[1]): a[2] for a in faults}
        state = {"fired": None, "full": False, "last": ""}

        def event(name, sql=""):
            n[name] += 1
            act = plan.get((name, n[name]))
            if state["full"]:
                raise OperationalError("database or disk is full")
            if not act:
                return
            state["fired"] = [name, n[name], act, sql[:90]]
            if act == "crash":
                os.write(logfd, json.dumps(state["fired"]).encode())
                os._exit(CRASH)
            if act == "full":
                state["full"] = True
                raise OperationalError("database or disk is full")
            if act == "locked":
                raise OperationalError("database is locked")
            if act == "io":
                raise OperationalError("disk I/O error")
            if act == "interrupt":
                raise KeyboardInterrupt
            if act == "mem":
                raise MemoryError("simulated")
            raise SimBug(act)

        logr, logfd = _log_pipe
        os.close(logr)

        def wrap(execute, sql, params, many, context):
            event("stmt", sql)
            out = execute(sql, params, many, context)
            event("after", sql)
            return out

        real = BaseDatabaseWrapper._commit

        def _commit(self):
            event("commit")
            real(self)
            event("committed")

        BaseDatabaseWrapper._commit = _commit
        out = {}
        sys.argv = ["manage.py", "migrate", *args]
        real_out = sys.stdout
        sys.stdout = io.StringIO()
        try:
            with con.execute_wrapper(wrap):
                _mig["manage"].main()
            out["ended"] = "ok"
        except KeyboardInterrupt:
            out["ended"] = "interrupted"
        except SystemExit as e:
            out["ended"] = f"exit {e.code}"
        except Exception as e:
            out["ended"] = f"{type(e).__name__}: {str(e)[:200]}"
        finally:
            sys.stdout = real_out
        out["fired"] = state["fired"]
        out["n"] = n
        state["full"] = False
        return out

    _log_pipe = os.pipe()
    out = in_child(body)
    os.close(_log_pipe[1])
    with os.fdopen(_log_pipe[0]) as p:
        note = p.read()
    if out.get("died") == CRASH:
        return {"ended": "crash", "fired": json.loads(note), "n": {}}
    if "died" in out:
        raise SimBug(f"migrate process died: {out}")
    return out


class C15(Spec):
    prop = "C15"
    runs = {"quick": 500, "thorough": 20000}
    reducers = [drop_chunks("attempts"), drop_chunks("rows")]
    timeout = 60
    rule = "a run counts when a crash or fault struck inside a migration that was applying something; distinct by event-log hash"
    real = ["slope/migrations", "manage.py", "Django migration executor and schema editor", "sqlite (rollback journal, recovery after a crash)"]
    stubs = ["the process running manage.py (a forked child that ends at the planned point)"]
    assumptions = [
        "the tables of Django's own applications are in place (their migrations are not this repository's)",
        "a crash is the end of the process; what it wrote to the file system survives",
        "content types and permissions are Django's bookkeeping and not compared",
        "the color of a material is lost by migration 0007, which drops the column",
    ]

    def prepare(self, tier):
        root = tempfile.mkdtemp(prefix="migsim-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        owner = os.getpid()
        import atexit

        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(root, ignore_errors=True))
        _mig["root"] = root
        os.environ["SECRET_KEY"] = "simulated"
        os.environ["DATABASE_URL"] = "sqlite:///" + os.path.join(root, "none.sqlite3")
        os.environ["DJANGO_SETTINGS_MODULE"] = "engineering.settings"
        sys.path.insert(0, REPO)
        import importlib.util
        import logging

        import django

        django.setup()
        logging.disable(logging.CRITICAL)
        import django.core.management.commands.migrate  # noqa: F401
        import django.db.migrations.executor  # noqa: F401
        from django.core.management import call_command

        sink = io.StringIO()
        call_command("check", stdout=sink, stderr=sink)  # imports what every command imports

        spec = importlib.util.spec_from_file_location("manage_under_test", os.path.join(REPO, "manage.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mig["manage"] = m
        from django.db.migrations.loader import MigrationLoader

        loader = MigrationLoader(None)
        plan = []
        for leaf in loader.graph.leaf_nodes("slope"):
            for k in loader.graph.forwards_plan(leaf):
                if k[0] == "slope" and k not in plan:
                    plan.append(k)
        _mig["names"] = [k[1] for k in plan]
        # a database for every version
        base = os.path.join(root, "v0.sqlite3")
        for app in ("contenttypes", "auth", "admin", "sessions"):
            self.must(migrate(base, [app]))
        _mig["versions"] = []
        prev = base
        for v in range(len(plan) + 1):
            path = os.path.join(root, f"v{v}.sqlite3")
            if v:
                shutil.copyfile(prev, path)
                self.must(migrate(path, ["slope", plan[v - 1][1]]))
            con = sqlite3.connect(path)
            _mig["versions"].append({
                "path": path,
                "schema": schema_of(con, "slope_"),
                "columns": {t: [list(c) for c in columns(con, t)] for t in tables(con) if t.startswith("slope_")},
                "events": None,
            })
            con.close()
            prev = path
        for v, ver in enumerate(_mig["versions"]):
            p = os.path.join(root, "probe.sqlite3")
            shutil.copyfile(ver["path"], p)
            ver["events"] = self.must(migrate(p))["n"]
            os.unlink(p)

    def must(self, out):
        if out["ended"] != "ok":
            # on an empty database: without rows and faults nothing excuses it
            self.broken = out["ended"]
        return out

    broken = None

    def plans(self, tier, seed):
        for i in range(self.runs[tier]):
            rng = rng_for(self.prop, seed, i)
            vs = _mig["versions"]
            v = rng.choice([0, 0, rng.randrange(len(vs)), rng.randrange(len(vs)), rng.randrange(len(vs)), max(0, len(vs) - 2)])
            rows = []
            for t, cols in sorted(vs[v]["columns"].items()):
                for k in range(rng.choice([0, 1, 1, 2, 5])):
                    rows.append([t, {c[1]: self.value(rng, c, k) for c in cols}])
            for k in range(rng.choice([0, 1, 2])):
                rows.append(["django_session", {
                    "session_key": f"{k}" * 32, "session_data": "x" * rng.randrange(1, 4000), "expire_date": "2030-01-01 00:00:00"}])
            attempts = []
            ev = vs[v]["events"] or {"stmt": 40, "commit": 6}
            for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
                fs = []
                x = rng.random()
                if x < 0.75:
                    name = rng.choice(["stmt", "stmt", "after"])
                    k = 1 + int(rng.random() * ev.get("stmt", 40))
                else:
                    name = rng.choice(["commit", "committed"])
                    k = 1 + int(rng.random() * ev.get("commit", 6))
                act = rng.choice(["crash"] * 5 + ["full", "locked", "io", "interrupt", "mem"])
                fs.append([name, k, act])
                # now and then only up to some version
                to = rng.randrange(1, len(vs)) if rng.random() < 0.15 and len(vs) > 1 else None
                attempts.append([fs, to])
            yield {"run": i, "start": v, "rows": rows, "attempts": attempts}

    def value(self, rng, c, k):
        _, name, typ, notnull, dflt, pk = c
        if name == "id":
            return k * rng.choice([1, 1, 3]) + 1
        if not notnull and rng.random() < 0.35:
            return None
        if typ.upper() in ("REAL", "DOUBLE"):
            return rng.choice([0.0, 1.0, 2.5, 1e-9, 123456.789, -3.25, 45.0])
        if typ.lower().startswith("bool"):
            return rng.choice([0, 1])
        return rng.choice(["", "Fill", "clay", "é ü", "a'b\"c", "x" * 20, "blue", "#aabbcc"])

    def nontrivial(self, out):
        return out["stats"].get("struck", 0) > 0

    def execute(self, plan, rec):
        if self.broken:
            raise Violation("migrate-fails", f"bringing an empty database up to date: {self.broken}")
        d = tempfile.mkdtemp(prefix="run-", dir=_mig["root"])
        try:
            self.go(plan, rec, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def go(self, plan, rec, d):
        ver = _mig["versions"][plan["start"]]
        start = os.path.join(d, "start.sqlite3")
        shutil.copyfile(ver["path"], start)
        con = sqlite3.connect(start)
        used = {}
        stored = []
        for t, row in plan["rows"]:
            row = dict(row)
            if "id" in row:
                while row["id"] in used.setdefault(t, set()):
                    row["id"] += 1
                used[t].add(row["id"])
            con.execute(
                f'insert into "{t}" ({",".join(row)}) values ({",".join("?" * len(row))})', list(row.values())
            )
            stored.append([t, row])
        con.commit()
        con.close()
        rec.count("op:rows", len(stored))
        rec.mark(f"from_version_{plan['start']}")
        # the uninterrupted run
        ref = os.path.join(d, "ref.sqlite3")
        shutil.copyfile(start, ref)
        out = migrate(ref)
        rec.ev("uninterrupted from version", plan["start"], "with", len(stored), "rows:", out["ended"])
        if out["ended"] != "ok":
            raise Violation("migrate-fails", f"from version {plan['start']} with {len(stored)} rows: {out['ended']}")
        want = dump(ref)
        self.survived(rec, stored, plan["start"], want, "an uninterrupted run")
        # the interrupted ones
        db = os.path.join(d, "db.sqlite3")
        shutil.copyfile(start, db)
        at = plan["start"]
        for k, (fs, to) in enumerate(plan["attempts"]):
            args = ["slope", _mig["names"][to - 1]] if to and to > at else []
            out = migrate(db, args, faults=fs)
            rec.count("op:migrate")
            f = out["fired"]
            rec.ev("attempt", k, fs, *args, "->", out["ended"], f or "no fault")
            if f:
                rec.count("fault:" + ("crash" if f[2] == "crash" else f[2]))
                rec.count("struck")
                if f[3]:
                    rec.mark("struck_at:" + f[3].split("(")[0].split('"')[0].strip()[:30])
            elif out["ended"] != "ok":
                raise Violation("cannot-complete", f"migrate after an interruption: {out['ended']}")
            at = self.agree(rec, db, k)
        out = migrate(db)
        rec.count("op:migrate")
        rec.ev("final:", out["ended"])
        if out["ended"] != "ok":
            raise Violation("cannot-complete", f"migrate after {self.tell(plan)}: {out['ended']}")
        got = dump(db)
        rec.count("check:compared_to_uninterrupted")
        for part in ("schema", "history", "rows"):
            if got[part] != want[part]:
                raise Violation("differs", f"{part} after {self.tell(plan)}: {self.first_diff(got[part], want[part])}")
        if got["ok"] != "ok":
            raise Violation("differs", f"database damaged: {got['ok']}")
        self.survived(rec, stored, plan["start"], got, self.tell(plan))
        # complete: once more changes nothing
        out = migrate(db)
        again = dump(db)
        rec.count("check:idempotent")
        if out["ended"] != "ok" or again != got:
            raise Violation("differs", f"running migrate once more: {out['ended']}")

    def tell(self, plan):
        return f"{len(plan['attempts'])} interrupted runs {json.dumps(plan['attempts'])[:200]} from version {plan['start']}"

    @staticmethod
    def first_diff(a, b):
        if isinstance(a, dict):
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k):
                    return f"{k}: {str(a.get(k))[:200]} instead of {str(b.get(k))[:200]}"
        return f"{str(a)[-200:]} instead of {str(b)[-200:]}"

    def agree(self, rec, db, k):
        """after any interruption the recorded history matches the schema"""
        con = sqlite3.connect(db)
        try:
            names = {n for a, n in history_of(con) if a == "slope"}
            v = 0
            for v, name in enumerate([*_mig["names"], None]):
                if name not in names:
                    break
            rec.count("check:history_matches_schema")
            rec.ev("  at version", v)
            rec.mark(f"interrupted_at_version_{v}")
            if len(names) != v:
                raise Violation("torn", f"recorded migrations {sorted(names)} have a gap")
            got, want = schema_of(con, "slope_"), _mig["versions"][v]["schema"]
            if got != want:
                raise Violation("torn", f"interrupted at version {v}, but the schema is not: {self.first_diff(got, want)}")
            left = [t for t in tables(con) if t.startswith("new__")]
            if left:
                raise Violation("torn", f"left behind: {left}")
            return v
        finally:
            con.close()

    def survived(self, rec, stored, v, got, when):
        rec.count("check:rows_survive", len(stored))
        by = {t: {str(r.get("id", r.get("session_key"))): r for r in rs} for t, rs in got["rows"].items() if rs and isinstance(rs[0], dict)}
        for t, row in stored:
            want_t = "slope_lineloadmodel" if t == "slope_pointloadmodel" else t
            r = by.get(want_t, {}).get(str(row.get("id", row.get("session_key"))))
            if r is None:
                raise Violation("lost-row", f"row {str(row)[:200]} of {t} is gone after {when}")
            for c, x in row.items():
                if c not in r:
                    raise Violation("lost-row", f"column {c} of {t} is gone after {when}")
                if x is None:
                    continue
                if c == "color" and t == "slope_materialmodel" and v < 7:
                    continue
                if r[c] != x:
                    raise Violation("lost-row", f"{c} of a row of {t} was {x!r}, is {r[c]!r} after {when}")

    def sample(self, plan):
        return {k: plan[k] for k in ("run", "start", "attempts")}


# --------------------------------------------------------------------------
# C16


class Stage:
    """a simulated child process"""

    def __init__(self, kind, argv, start, length, code, grace):
        self.kind, self.argv = kind, argv
        self.start, self.end, self.code = start, start + length, code
        self.grace = grace  # how long it takes to go after SIGINT
        self.reaped = False


class Machine:
    """processes, time and the terminal, for one launch"""

    def __init__(self, plan, rec):
        self.plan, self.rec = plan, rec
        self.now = 0.0
        self.stages = []
        self.ctrl_c = plan.get("at")
        self.pressed = None
        self.masked = False
        self.lines = 0

    # -- time
    def wait_until(self, t):
        c = self.ctrl_c
        if c is not None and self.pressed is None and c <= t:
            self.now = max(self.now, c)
            self.press()
            if not self.masked:
                raise KeyboardInterrupt
            return self.wait_until(min(t, min([s.end for s in self.stages if s.end >= self.now], default=t)))
        self.now = max(self.now, t)

    def press(self):
        self.pressed = self.now
        self.rec.ev("Ctrl-C at", round(self.now, 3))
        self.rec.count("fault:ctrl_c")
        for s in self.stages:
            if s.end > self.now:
                # the terminal signals every process of the foreground group
                self.rec.mark("pressed_during_" + s.kind)
                s.end = self.now + s.grace
                s.code = -2

    def line(self, code, line):
        if code.co_name == "__del__":
            return  # Python itself discards what is raised in a destructor
        self.lines += 1
        if self.lines == self.plan.get("line") and self.pressed is None and self.stages:
            self.press()
            self.rec.mark("pressed_in_" + code.co_name)
            if not self.masked:
                raise KeyboardInterrupt

    # -- processes
    def launch(self, argv, shell=False):
        words = argv if isinstance(argv, (list, tuple)) else shlex.split(argv)
        words = [os.fspath(w) for w in words]
        text = " ".join(words)
        kinds = [k for k in ("migrate", "collectstatic", "runserver") if re.search(rf"\b{k}\b", text)]
        if len(kinds) > 1:
            return [self.one(k, words) for k in kinds][-1]
        return self.one(kinds[0] if kinds else "other", words)

    def one(self, kind, words):
        n = sum(s.kind == kind for s in self.stages)
        length, code, grace = self.plan["stages"].get(kind, [0.5, 0, 0.1])
        if self.pressed is not None:
            raise Violation("started-after-ctrl-c", f"{kind} was started after Ctrl-C")
        running = [s.kind for s in self.stages if not s.reaped and s.end > self.now]
        if running:
            raise Violation("order", f"{kind} was started while {running[0]} was still running")
        self.rec.ev("start", kind, "at", round(self.now, 3))
        self.rec.count("op:" + kind)
        if n:
            raise Violation("twice", f"{kind} was started a second time")
        s = Stage(kind, words, self.now, length, code, grace)
        self.stages.append(s)
        return s


MACHINE = None


class SimPopen(subprocess.Popen):
    """the real Popen on simulated processes"""

    def _execute_child(self, args, executable, preexec_fn, close_fds, pass_fds, cwd, env, startupinfo, creationflags, shell, *a, **kw):
        self.stage = MACHINE.launch(args, shell)
        self._child_created = True
        self.pid = 4000 + len(MACHINE.stages)
        MACHINE.by_pid = {**getattr(MACHINE, "by_pid", {}), self.pid: self.stage}

    def _try_wait(self, flags):
        s = self.stage
        if flags & os.WNOHANG:
            if s.end > MACHINE.now:
                return (0, 0)
        else:
            MACHINE.wait_until(s.end)
            while s.end > MACHINE.now:
                MACHINE.wait_until(s.end)
        s.reaped = True
        st = s.code << 8 if s.code >= 0 else -s.code
        return (self.pid, st)

    def _internal_poll(self, _deadstate=None, **kw):
        if self.returncode is None:
            pid, sts = self._try_wait(os.WNOHANG)
            if pid == self.pid:
                self._handle_exitstatus(sts)
        return self.returncode

    def send_signal(self, sig):
        if self.poll() is not None:
            return
        MACHINE.rec.ev("signal", int(sig), "to", self.stage.kind)
        s = self.stage
        if sig == signal.SIGKILL:
            s.end, s.code = MACHINE.now, -9
        elif sig in (signal.SIGINT, signal.SIGTERM):
            s.end, s.code = min(s.end, MACHINE.now + s.grace), -int(sig)


class C16(Spec):
    prop = "C16"
    runs = {"quick": 3000, "thorough": 40000}
    reducers = []
    timeout = 30
    rule = "a run counts when Ctrl-C struck after the first stage had started or a stage ended with an error; distinct by event-log hash"
    real = ["pyslope.cli", "the subprocess module of the standard library (run, call, Popen, waiting, Ctrl-C handling)"]
    stubs = ["child processes", "time", "the terminal (Ctrl-C reaches the launcher and the running stage)"]
    assumptions = [
        "Ctrl-C is pressed once, after the first stage was started and before the last one has ended",
        "a stage may take any time and end with any status; the launcher goes on",
    ]

    def prepare(self, tier):
        sys.path.insert(0, REPO)
        import importlib

        self.cli = importlib.import_module("pyslope.cli")

    def plans(self, tier, seed):
        for i in range(self.runs[tier]):
            rng = rng_for(self.prop, seed, i)
            st = {}
            for k in ("migrate", "collectstatic", "runserver"):
                length = rng.choice([0.0, 0.01, 0.3, 2.0, 60.0, 3600.0]) * rng.choice([1, 1, rng.random() + 0.5])
                st[k] = [length, rng.choice([0, 0, 0, 1, 2, 130, -9, -11, 255]), rng.choice([0.0, 0.01, 0.2, 0.3, 5.0, 1000.0])]
            plan = {"run": i, "stages": st}
            x = rng.random()
            total = sum(s[0] for s in st.values())
            ends = [0, st["migrate"][0], st["migrate"][0] + st["collectstatic"][0], total]
            if x < 0.5:
                k = rng.randrange(3)
                plan["at"] = ends[k] + rng.random() * (ends[k + 1] - ends[k])
            elif x < 0.6:
                plan["at"] = rng.choice(ends[:3])
            elif x < 0.9:
                plan["line"] = rng.randrange(1, 260)
            yield plan

    def nontrivial(self, out):
        return any(k.startswith("fault:") for k in out["stats"])

    def execute(self, plan, rec):
        global MACHINE
        m = MACHINE = Machine(plan, rec)
        for k, (a, code, c) in plan["stages"].items():
            if code:
                rec.count("fault:stage_fails")
        mono = lambda: m.now  # noqa: E731

        def sleep(d):
            m.wait_until(m.now + max(0, d))

        def system(cmd):
            # the C library ignores SIGINT while it waits
            s = m.launch(cmd, True)
            m.masked = True
            while s.end > m.now:
                m.wait_until(s.end)
            m.masked = False
            s.reaped = True
            return s.code << 8 if s.code >= 0 else -s.code

        def no(*a, **k):
            raise SimBug("a process was started by unknown means")

        real_time = (time.monotonic, time.sleep, time.time)
        time.monotonic, time.sleep, time.time = mono, sleep, mono
        subprocess._time = mono
        for name, real in [(n, getattr(self.cli, n)) for n in dir(self.cli)]:
            if real is subprocess.Popen:
                setattr(self.cli, name, SimPopen)
            elif real is os.system:
                setattr(self.cli, name, system)
        subprocess.Popen = SimPopen
        os.system = system
        for n in ("fork", "posix_spawn", "posix_spawnp", "spawnv", "spawnvp", "execv", "execve", "execvp", "execvpe", "popen"):
            setattr(os, n, no)
        out = io.StringIO()
        err = io.StringIO()
        sys.stdout, sys.stderr = out, err
        ended = "returned"
        where = ("/pyslope/cli.py", "/subprocess.py")

        def tracer(frame, ev, arg):
            if frame.f_code.co_filename.endswith(where):
                return local
            return None

        def local(frame, ev, arg):
            if ev == "line":
                m.line(frame.f_code, frame.f_lineno)
            return local

        try:
            if plan.get("line"):
                sys.settrace(tracer)
            self.cli.cli()
        except KeyboardInterrupt:
            ended = "KeyboardInterrupt"
        except SystemExit as e:
            ended = f"exit {e.code}"
        except (Violation, SimBug):
            raise
        except Exception as e:
            ended = f"{type(e).__name__}: {e}"
        finally:
            sys.settrace(None)
            time.monotonic, time.sleep, time.time = real_time
            sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
        rec.count("sim_time_ms", int(1000 * m.now))
        text = out.getvalue() + err.getvalue()
        started = [s.kind for s in m.stages if s.kind != "other"]
        rec.ev("ended:", ended, "started", started, "printed", text.strip()[:100])
        order = ["migrate", "collectstatic", "runserver"]
        rec.count("check:order")
        if started != order[: len(started)]:
            raise Violation("order", f"stages started: {started}")
        over = m.pressed is not None and len(started) == 3 and m.pressed >= [s for s in m.stages if s.kind == "runserver"][0].end
        if m.pressed is None:
            if len(started) != 3:
                raise Violation("order", f"stages started: {started}; {ended}")
            if ended != "returned" and not ended.startswith("exit"):
                raise Violation("traceback", f"nothing was pressed, yet it ended with {ended}")
            open_ = [s.kind for s in m.stages if s.end > m.now]
            if open_:
                raise Violation("order", f"{open_[0]} was still running when the launcher ended")
            return
        if over and ended == "KeyboardInterrupt":
            raise Inconclusive("Ctrl-C after the server had ended")
        rec.count("check:stopped_cleanly")
        if ended != "returned" and not ended.startswith("exit"):
            raise Violation("traceback", f"Ctrl-C at {m.pressed:.3f} ended it with {ended}")
        if not re.search(r"server\s+stopped", text, re.I):
            raise Violation("silent", f"Ctrl-C at {m.pressed:.3f}: printed {text.strip()[:80]!r}, not that the server stopped")


SPECS = {c.prop: c for c in (C15, C16)}
