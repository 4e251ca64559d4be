"""The web application under simulation.

One process holds everything: simulated browsers, one to three simulated server
processes ("workers") with their threads, the database file, the clock and the
PDF exporter.  A plan is a flat list of steps; a request runs in its server
thread until it ends or reaches an anchor planned for it (the k-th distinct
line of application code, a database statement, a commit, the exporter), where
it is parked, its worker crashes, or an error is raised into it.  Exactly one
thread runs at any instant.

Each worker incarnation imports its own copy of the application's modules, so
module state is private to a worker and lost on a crash, as in a deployment.
Django's own code, the models (Django registers them once per process) and the
settings are shared.
"""
import atexit
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import io
import json
import os
import random
import re
import shutil
import sys
import tempfile
import threading
import types
from html.parser import HTMLParser
from http.cookies import SimpleCookie
from urllib.parse import urlencode, urlsplit

import look
from core import REPO, SimBug, rng_for
from seams import CLOCK, SimStream, install_clock, install_fast_figures, seed_everything

APPS = ("pyslope", "slope", "engineering")
HOST = "127.0.0.1"

# --------------------------------------------------------------------------
# modules of the application, loaded once per worker from code compiled once

_code = {}
_mon_codes = []


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        c = _code.get(path)
        if c is None:
            with open(path, "rb") as f:
                c = compile(f.read(), path, "exec", dont_inherit=True)
            _code[path] = c
            _watch(c, path)
        return c


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        parts = name.split(".")
        if parts[0] not in APPS:
            return None
        base = os.path.join(REPO, *parts)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            fn, pkg = os.path.join(base, "__init__.py"), [base]
        elif os.path.isfile(base + ".py"):
            fn, pkg = base + ".py", None
        else:
            return None
        return importlib.util.spec_from_file_location(
            name, fn, loader=_Loader(name, fn), submodule_search_locations=pkg
        )


def is_app(name):
    return name.split(".")[0] in APPS


def app_modules():
    return {k: v for k, v in sys.modules.items() if is_app(k)}


_shared = {}


def drop_app_modules():
    for k in list(app_modules()):
        del sys.modules[k]


class ModuleSet:
    """one worker's modules"""

    def __init__(self):
        drop_app_modules()
        for name, mod in _shared.items():
            sys.modules[name] = mod
        for name, mod in list(_shared.items()):
            if "." in name:
                parent, _, leaf = name.rpartition(".")
                setattr(importlib.import_module(parent), leaf, mod)
        self.mods = {}
        self.wsgi = importlib.import_module("engineering.wsgi")
        self.urls = importlib.import_module("engineering.urls")
        importlib.import_module("slope.urls")
        importlib.import_module("slope.views")
        self.save()

    def save(self):
        self.mods = app_modules()

    def activate(self):
        drop_app_modules()
        sys.modules.update(self.mods)


# --------------------------------------------------------------------------
# line events

MON = sys.monitoring
TOOL = 4
_skip = ("/migrations/", "/settings.py", "/admin.py", "/apps.py")


def _watch(code, path):
    if any(s in path for s in _skip):
        return
    todo = [code]
    while todo:
        c = todo.pop()
        if c is not code:  # module level code is not part of a request
            _mon_codes.append(c)
            MON.set_local_events(TOOL, c, MON.events.LINE)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]


def _on_line(code, line):
    r = SIM.cur if SIM is not None else None
    if r is None:
        return MON.DISABLE
    return r.line(code, line)


SIM = None


# --------------------------------------------------------------------------
# locks created by the application: a request that has to wait is parked and
# the controller lets others run


class WebLock:
    def __init__(self, free=1, reentrant=False, bounded=False):
        self.free, self.start = free, free
        self.reentrant, self.bounded = reentrant, bounded
        self.owner, self.depth = None, 0

    @staticmethod
    def me():
        return SIM.cur if SIM is not None and SIM.cur is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self.me()
        if self.reentrant and self.owner is me:
            self.depth += 1
            return True
        if timeout is None:
            timeout = -1
        while self.free <= 0:
            if not blocking or timeout == 0:
                return False
            if me == "main":
                raise SimBug("the application waits on a lock outside a request")
            if timeout > 0 and SIM.nobody_else(me):
                CLOCK.advance(timeout)
                return False
            me.waits = self
            SIM.rec.count("lock_waits")
            SIM.rec.ev("  waits", me.label())
            me.thread.park("yield")
            me.waits = None
        self.free -= 1
        self.owner, self.depth = me, 1
        return True

    def release(self, n=1):
        if self.reentrant:
            if self.owner is not self.me():
                raise RuntimeError("cannot release un-acquired lock")
            self.depth -= 1
            if self.depth:
                return
        elif self.free >= self.start and (self.bounded or self.start == 1):
            raise (ValueError if self.bounded else RuntimeError)("release unlocked lock")
        self.owner = None
        self.free += n

    def locked(self):
        return self.free <= 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install_web_locks():
    real = {k: getattr(threading, k) for k in ("Lock", "RLock", "Semaphore", "BoundedSemaphore")}

    def ours():
        return sys._getframe(2).f_code.co_filename.startswith(REPO + "/")

    def Lock():
        return WebLock() if ours() else real["Lock"]()

    def RLock():
        return WebLock(reentrant=True) if ours() else real["RLock"]()

    def Semaphore(value=1):
        return WebLock(value) if ours() else real["Semaphore"](value)

    def BoundedSemaphore(value=1):
        return WebLock(value, bounded=True) if ours() else real["BoundedSemaphore"](value)

    for f in (Lock, RLock, Semaphore, BoundedSemaphore):
        setattr(threading, f.__name__, f)


# --------------------------------------------------------------------------
# preparation, in the parent

_prep = {}
_real_urandom = os.urandom


def prepare():
    if _prep:
        return
    root = tempfile.mkdtemp(prefix="websim-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(root, ignore_errors=True))
    _prep["root"] = root
    os.environ["SECRET_KEY"] = "simulated"
    os.environ.pop("DJANGO_DEBUG", None)
    os.environ["DATABASE_URL"] = "sqlite:///" + os.path.join(root, "template.sqlite3")
    os.environ["DJANGO_SETTINGS_MODULE"] = "engineering.settings"
    sys.path.insert(0, REPO)
    import logging

    import numpy  # noqa: F401
    import plotly.graph_objects  # noqa: F401
    import plotly.io  # noqa: F401
    import django
    import django.contrib.sessions.backends.db  # noqa: F401
    import whitenoise.middleware  # noqa: F401

    install_clock()
    install_fast_figures()
    install_web_locks()
    MON.use_tool_id(TOOL, "websim")
    MON.register_callback(TOOL, MON.events.LINE, _on_line)
    sys.meta_path.insert(0, _Finder())
    django.setup()
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    for k, v in app_modules().items():
        if k in ("slope", "engineering"):
            continue
        _shared[k] = v
    _patch_django()
    from django.core.management import call_command
    from django.db import connections

    call_command("migrate", verbosity=0)
    store_rows()
    connections.close_all()
    _prep["stored"] = stored_rows(os.path.join(root, "template.sqlite3"))
    # compile everything once
    m = ModuleSet()
    drop_app_modules()
    _prep["pristine"] = m


STORED = "Kept by the administrator"
STORED_DIGITS = "7.1357"


def store_rows():
    """what an administrator keeps in the tables of the application"""
    from django.apps import apps

    values = {"unit_weight": 17.1357, "friction_angle": 33.3, "cohesion": 7.7, "depth_to_bottom": 7.5, "magnitude": 177.1357,
              "offset": 0.77, "length": 1.77, "name": STORED, "color": "red"}
    for m in apps.get_app_config("slope").get_models():
        have = {f.name for f in m._meta.get_fields()}
        for k in range(3):
            m.objects.create(**{a: (b if isinstance(b, str) else b + k) for a, b in values.items() if a in have})


def stored_rows(path):
    import sqlite3

    db = sqlite3.connect(path)
    try:
        names = sorted(n for (n,) in db.execute("select name from sqlite_master where type = 'table' and name like 'slope_%'"))
        return {n: sorted(map(repr, db.execute(f'select * from "{n}"'))) for n in names}
    finally:
        db.close()


def craft(f, k):
    """the same submission, with references to stored rows slipped in"""
    f = dict(f)
    p = ("material", "udl", "lineload")[k % 3]
    n = int(f.get(p + "-TOTAL_FORMS", 0))
    if not n:
        return f
    if k // 3 % 2 and n:
        f[p + "-INITIAL_FORMS"] = str(min(n, 1 + k // 6 % 2))
        for i in range(min(n, 1 + k // 6 % 2)):
            f[f"{p}-{i}-id"] = str(1 + (i + k) % 3)
    else:
        f[f"{p}-{k % n}-id"] = str(1 + k % 3)
    if k // 12 % 2:
        f[f"{p}-0-DELETE"] = "on"
    return f


def _patch_django():
    import django.utils.timezone as tz
    from datetime import datetime, timezone

    tz.now = lambda: datetime.fromtimestamp(CLOCK.t, tz=timezone.utc)
    from django.db.backends.base.base import BaseDatabaseWrapper

    real = BaseDatabaseWrapper._commit

    def _commit(self):
        r = SIM.cur if SIM is not None else None
        if r is not None:
            r.db_event("commit")
        real(self)
        if r is not None:
            r.db_event("committed")

    BaseDatabaseWrapper._commit = _commit

    from django.core.signals import got_request_exception

    def note(sender, **kw):
        e = sys.exc_info()[1]
        if SIM is not None and SIM.cur is not None and e is not None:
            tb, where = e.__traceback__, ""
            while tb is not None:
                fn = tb.tb_frame.f_code.co_filename
                if fn.startswith(REPO + "/"):
                    where = f"{os.path.relpath(fn, REPO)}:{tb.tb_frame.f_code.co_name}"
                tb = tb.tb_next
            SIM.cur.exc = f"{type(e).__name__}: {str(e)[:160]} in {where}"

    got_request_exception.connect(note, weak=False)

    import plotly.io
    import plotly.io._kaleido as k

    def to_image(fig, format=None, *a, **kw):
        if SIM is None:
            raise SimBug("exporter called outside a run")
        return SIM.export(fig, format)

    k.to_image = to_image
    plotly.io.to_image = to_image


# --------------------------------------------------------------------------
# forms: what users submit, and what the library says about them


def fresh_form():
    """the form as the empty page offers it"""
    f = {
        "slope-height": "1", "slope-angle": "45", "slope-length": "1",
        "watertable-water_depth": "1",
        "limits-left_x": "0", "limits-right_x": "8",
        "limits-left_x_right": "4", "limits-right_x_left": "6",
        "options-analysis_choice": "normal", "options-slope_choice": "length",
        "options-critical_FOS": "1.5", "options-max_display_FOS": "2.0",
        "options-iterations": "500", "options-slices": "10",
        "Analyse": "Analyse",
    }
    return f


def rows_form(f, prefix, rows):
    f[f"{prefix}-TOTAL_FORMS"] = str(len(rows))
    f[f"{prefix}-INITIAL_FORMS"] = "0"
    f[f"{prefix}-MIN_NUM_FORMS"] = "0"
    f[f"{prefix}-MAX_NUM_FORMS"] = "1000"
    for i, r in enumerate(rows):
        f[f"{prefix}-{i}-id"] = ""
        for k, v in r.items():
            f[f"{prefix}-{i}-{k}"] = v


MAT0 = {"unit_weight": "20", "friction_angle": "35", "cohesion": "2", "depth_to_bottom": "5", "name": "", "color": ""}
UDL0 = {"magnitude": "0", "offset": "0", "length": "0", "color": "red"}
LL0 = {"magnitude": "0", "offset": "0", "color": "blue"}


def g2(x):
    return f"{x:g}"


def make_form(rng, i, kind):
    """form i of a catalogue.  Its height, its planes and the name of its first
    soil are unique, so any part of a page can be traced to it."""
    f = fresh_form()
    h = 2.05 + 0.1 * i + rng.choice([0, 0.01, 0.02])
    ang = rng.choice([30, 35, 40, 45, 50, 55, 60, 70])
    f["slope-height"] = g2(round(h, 3))
    f["slope-angle"] = str(ang)
    f["slope-length"] = g2(round(h * rng.choice([0.6, 0.8, 1, 1.2, 1.5]), 2))
    f["options-slope_choice"] = rng.choice(["length", "angle"])
    f["options-iterations"] = rng.choice(["500"] * 24 + ["750", "750", "1500", "4800"])
    f["options-slices"] = rng.choice(["10"] * 7 + ["15", "20", "50"])
    f["options-critical_FOS"] = rng.choice(["0.8", "1.0", "1.1", "1.15", "1.2", "1.3", "1.5", "1.75", "2.0"])
    f["options-max_display_FOS"] = rng.choice(["0.5", "1.0", "1.5", "2.0", "3", "5"])
    tag = f"Qz{i}x"
    spice = rng.choice(["", "", "", " <b>", " & co", " \"q\"", " 'a'", " </script>", " é", " {{x}}"])
    n = rng.choice([1, 1, 1, 2, 2, 3, 4])
    mats, d = [], 0.0
    strong = kind == "strong"
    for k in range(n):
        d = round(d + rng.choice([0.7, 1, 1.5, 2, 3]), 2)
        if k == n - 1 and rng.random() < 0.6:
            d = round(max(d, 1.2 * h), 2)
        mats.append({
            "unit_weight": g2(rng.choice([16, 18, 19.5, 20, 22])),
            "friction_angle": g2(44 if strong else rng.choice([15, 20, 25, 28, 30, 35, 40])),
            "cohesion": g2(400 if strong else rng.choice([0, 1, 2, 3, 5, 8, 12])),
            "depth_to_bottom": g2(d),
            "name": (tag + spice) if k == 0 else rng.choice(["", f"{tag}-{k}", "clay"]),
            "color": rng.choice(["", "", "grey", "#aabbcc", "rgb(10, 20, 30)"]),
        })
    rng.shuffle(mats) if n > 1 and rng.random() < 0.3 else None
    if not strong and rng.random() < 0.2:
        # a row left as the empty page offers it
        k = rng.randrange(n)
        if all(m["depth_to_bottom"] != MAT0["depth_to_bottom"] for j, m in enumerate(mats) if j != k):
            mats[k] = dict(MAT0)
    udls, lls = [], []
    dyn = kind == "dynamic" or strong and rng.random() < 0.3
    for k in range(rng.choice([0, 0, 1, 1, 2]) + dyn):
        udls.append({
            "magnitude": g2(rng.choice([5, 10, 20, 40, 60])),
            "offset": g2(rng.choice([0, 0.2, 0.5, 1, 1.5])),
            "length": g2(rng.choice([0.5, 1, 2, 3])),
            "color": rng.choice(["red", "green", "red", ""]),
        })
        if dyn and k == 0:
            udls[-1]["dynamic_offset"] = "on"
    for k in range(rng.choice([0, 0, 0, 1, 2])):
        lls.append({
            "magnitude": g2(rng.choice([5, 10, 20])),
            "offset": g2(rng.choice([0, 0.3, 0.8, 1.7])),
            "color": rng.choice(["blue", "orange", "blue", ""]),
        })
        if dyn and rng.random() < 0.5:
            lls[-1]["dynamic_offset"] = "on"
    if dyn or rng.random() < 0.08:
        f["options-analysis_choice"] = "dynamic"
    if rng.random() < 0.7:
        udls.insert(rng.choice([len(udls), len(udls), 0]), dict(UDL0))
    if rng.random() < 0.7:
        lls.insert(rng.choice([len(lls), len(lls), 0]), dict(LL0))
    rows_form(f, "material", mats)
    rows_form(f, "udl", udls)
    rows_form(f, "lineload", lls)
    if rng.random() < 0.4:
        f["watertable-consider_water"] = "on"
        f["watertable-water_depth"] = g2(rng.choice([0, 0.3, 0.5, 1, 1.4, 2]))
    if kind == "limits" or rng.random() < 0.1:
        # the crest lies somewhere right of x = 0; wide windows stay satisfiable
        f["limits-consider_limits"] = "on"
        f["limits-left_x"] = g2(rng.choice([0, 0.5, 1]))
        f["limits-right_x"] = g2(round(rng.choice([4, 5, 6]) * h, 1))
        if rng.random() < 0.5:
            f["limits-consider_internal_limits"] = "on"
            f["limits-left_x_right"] = g2(round(rng.choice([2.4, 2.8, 3.2]) * h, 1))
            f["limits-right_x_left"] = g2(round(rng.choice([2.0, 2.4, 2.8]) * h, 1))
    return f


def spoil_form(rng, f):
    """a submission that must be refused"""
    f = dict(f)
    what = rng.choice([
        "blank", "text", "iterations", "slices", "fos", "missing", "choice", "nomgmt",
        "nan", "height", "friction", "weight", "depth", "twice", "udl", "limits", "longname",
        "angle", "pick", "pick",
    ])
    if what == "blank":
        f[rng.choice(["slope-height", "slope-angle", "material-0-cohesion"])] = ""
    elif what == "text":
        f[rng.choice(["slope-height", "material-0-unit_weight", "watertable-water_depth"])] = rng.choice(["abc", "1,5", "--"])
    elif what == "nan":
        f["slope-height"] = rng.choice(["nan", "inf", "1e999"])
    elif what == "iterations":
        f["options-iterations"] = rng.choice(["499", "5001", "-1", "1.5"])
    elif what == "slices":
        f["options-slices"] = rng.choice(["9", "51", ""])
    elif what == "fos":
        f["options-critical_FOS"] = rng.choice(["-1", "5.1", "x"])
    elif what == "missing":
        del f[rng.choice(["slope-height", "options-slices", "options-analysis_choice"])]
    elif what == "choice":
        f["options-analysis_choice"] = "magic"
    elif what == "nomgmt":
        del f["material-TOTAL_FORMS"]
    elif what == "height":
        f["slope-height"] = rng.choice(["0", "-2"])
    elif what == "friction":
        f["material-0-friction_angle"] = rng.choice(["-5", "95"])
    elif what == "weight":
        f["material-0-unit_weight"] = rng.choice(["-18", "0"])
    elif what == "depth":
        f["material-0-depth_to_bottom"] = rng.choice(["0", "-1"])
    elif what == "twice":
        n = int(f["material-TOTAL_FORMS"])
        for k in ("unit_weight", "friction_angle", "cohesion", "depth_to_bottom", "name", "color", "id"):
            f[f"material-{n}-{k}"] = f[f"material-0-{k}"]
        f["material-TOTAL_FORMS"] = str(n + 1)
    elif what == "udl":
        rows_form(f, "udl", [dict(UDL0, magnitude="-10", length="1")])
    elif what == "limits":
        f["limits-consider_limits"] = "on"
        f["limits-left_x"], f["limits-right_x"] = "6", "2"
    elif what == "longname":
        f["material-0-name"] = "n" * 51
    elif what == "pick":
        # rows that are not, or not quite, stored
        p = rng.choice(["material", "udl", "lineload"])
        if int(f[p + "-TOTAL_FORMS"]) == 0:
            p = "material"
        f[p + "-INITIAL_FORMS"] = "1"
        f[p + "-0-id"] = rng.choice(["", "99", "zzz", "-1"])
    elif what == "angle":
        f["options-slope_choice"] = "angle"
        f["slope-angle"] = rng.choice(["0", "-10", "95"])
    return f, what


def near_form(rng, f):
    """the same submission but for one thing"""
    f = dict(f)
    ticks = [k for k in f if k.endswith("dynamic_offset") or "-consider_" in k]
    what = rng.random()
    if ticks and what < 0.3:
        k = rng.choice(ticks)
        del f[k]
    elif what < 0.4:
        f["watertable-consider_water"] = "on"
        f["watertable-water_depth"] = g2(rng.choice([0, 0.2, 0.7]))
    elif what < 0.5:
        n = int(f["udl-TOTAL_FORMS"])
        rows = rows_of(f, "udl")
        for k in [k for k in f if k.startswith("udl-")]:
            del f[k]
        if n and rng.random() < 0.5:
            rows.pop(rng.randrange(n))
        else:
            rows.append({"magnitude": "25", "offset": "0.4", "length": "1.5", "color": "red"})
        rows_form(f, "udl", rows)
    else:
        keys = [k for k in f if k not in ticks and k.endswith(("cohesion", "friction_angle", "unit_weight", "magnitude", "offset", "water_depth", "depth_to_bottom"))
                or k in ("slope-length", "slope-angle", "options-slices", "options-max_display_FOS", "options-critical_FOS", "limits-left_x", "limits-right_x")]
        k = rng.choice(keys)
        v = float(f[k])
        if k == "options-slices":
            f[k] = g2(10 if v > 10 else 12)
        elif k.endswith("_FOS"):
            f[k] = g2(1.4 if v != 1.4 else 1.6)
        else:
            f[k] = g2(round(v * rng.choice([0.9, 1.1, 1.25]) + rng.choice([0, 0.25]), 3))
    return f


FORM_ONLY = {"blank", "text", "iterations", "slices", "fos", "missing", "choice", "nomgmt", "nan", "longname"}


def rows_of(f, prefix):
    return [
        {
            k.split("-", 2)[2]: v
            for k, v in f.items()
            if k.startswith(f"{prefix}-{i}-")
        }
        for i in range(int(f[f"{prefix}-TOTAL_FORMS"]))
    ]


def solve(f):
    """What the library gives for a form, by direct calls in a pristine
    process.  The independent reading of what each field means."""
    m = _prep["pristine"]
    m.activate()
    L = m.mods["pyslope.pyslope"]
    sys.stderr = SimStream()
    seed_everything(1)
    CLOCK.reset()
    fl = float
    try:
        if f is None:  # the example on the empty page
            s = L.Slope(angle=45)
            s.set_materials(L.Material())
            s.update_analysis_options(iterations=500, slices=10)
            s.analyse_slope(max_fos=5)
            return {
                "search": clean(look.planes(s)),
                "plot": json.loads(s.plot_critical().to_json()),
            }
        if f["options-slope_choice"] == "length":
            s = L.Slope(height=fl(f["slope-height"]), length=fl(f["slope-length"]))
        else:
            s = L.Slope(height=fl(f["slope-height"]), length=None, angle=fl(f["slope-angle"]))
        s.update_analysis_options(slices=int(f["options-slices"]), iterations=int(f["options-iterations"]))
        for r in rows_of(f, "material"):
            s.set_materials(L.Material(
                unit_weight=fl(r["unit_weight"]), friction_angle=fl(r["friction_angle"]),
                cohesion=fl(r["cohesion"]), depth_to_bottom=fl(r["depth_to_bottom"]),
                name=r["name"].strip(), color=r["color"],
            ))
        for r in rows_of(f, "lineload"):
            s.set_lls(L.LineLoad(
                magnitude=fl(r["magnitude"]), offset=fl(r["offset"]), color=r["color"] or None,
                dynamic_offset=bool(r.get("dynamic_offset")),
            ))
        for r in rows_of(f, "udl"):
            s.set_udls(L.Udl(
                magnitude=fl(r["magnitude"]), offset=fl(r["offset"]), length=fl(r["length"]),
                color=r["color"] or None, dynamic_offset=bool(r.get("dynamic_offset")),
            ))
        if f.get("watertable-consider_water"):
            s.set_water_table(fl(f["watertable-water_depth"]))
        if f.get("limits-consider_limits"):
            kw = {k: fl(f["limits-" + k]) for k in ("left_x", "right_x")}
            if f.get("limits-consider_internal_limits"):
                kw.update({k: fl(f["limits-" + k]) for k in ("left_x_right", "right_x_left")})
            s.set_analysis_limits(**kw)
    except ValueError as e:
        return {"refused": str(e)[:200]}
    if f["options-analysis_choice"] == "normal":
        s.analyse_slope(max_fos=5)
    else:
        try:
            s.analyse_dynamic(critical_fos=fl(f["options-critical_FOS"]))
        except (IndexError, ZeroDivisionError):
            # no plane at all: shown is what there is without the search for an offset
            s.analyse_slope(max_fos=5)
    fig = (s.plot_critical if look.planes(s) else s.plot_boundary)(material_table=True, legend=True)
    return {
        "search": clean(look.planes(s)), "plot": json.loads(fig.to_json()),
        "work": len(getattr(s, "_dynamic_results", ())),
    }


def clean(search):
    return [
        {k: r[k] for k in ("FOS", "c_x", "c_y", "radius", "l_c", "r_c")} for r in json.loads(json.dumps(search))
    ]


_known = {}


def fkey(f):
    return json.dumps(f, sort_keys=True)


def ask(forms, width=8):
    """expected results, each computed in a forked pristine child"""
    todo = [f for f in forms if fkey(f) not in _known]
    while todo:
        batch, todo = todo[:width], todo[width:]
        kids = []
        for f in batch:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    try:
                        out = solve(f)
                    except BaseException as e:
                        import traceback

                        out = {"skip": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-800:]}
                    with os.fdopen(w, "w") as p:
                        json.dump(out, p)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((f, r, pid))
        for f, r, pid in kids:
            with os.fdopen(r) as p:
                data = p.read()
            os.waitpid(pid, 0)
            if not data:
                raise SimBug("the library died on a form")
            _known[fkey(f)] = json.loads(data)
    return [_known[fkey(f)] for f in forms]


_alike = {}


def catalogue(seed, n):
    """([[valid form, near twin or None]], [refused form]); deterministic in
    the seed"""
    rng = rng_for("web-catalogue", seed)
    forms, bad = [], []
    for i in range(n):
        kind = ["plain", "plain", "dynamic", "plain", "limits", "strong", "dynamic", "plain"][i % 8]
        forms.append(make_form(rng, i, kind))
    # pairs alike but for one thing
    for f in list(forms[: n // 2]):
        g = near_form(rng, f)
        if g != f:
            forms.append(g)
            _alike[fkey(f)] = g
    for i in range(max(6, n // 3)):
        bad.append(spoil_form(rng, make_form(rng, n + i, rng.choice(["plain", "dynamic", "limits"]))))
    ask([None] + forms + [b for b, w in bad if w not in FORM_ONLY])
    valid, refused = [], []
    for f in forms:
        r = _known[fkey(f)]
        if "refused" in r:
            refused.append(f)
        elif "skip" not in r and (r["work"] <= 6 or n > 100):
            valid.append(f)
    for f, w in bad:
        if w in FORM_ONLY or "refused" in _known[fkey(f)]:
            refused.append(f)
    # [form, the one almost like it or None]
    twins = {fkey(g) for g in _alike.values()}
    ok = {fkey(f) for f in valid}
    out = []
    for f in valid:
        if fkey(f) in twins:
            continue
        g = _alike.get(fkey(f))
        out.append([f, g if g is not None and fkey(g) in ok else None])
    return out, refused


# --------------------------------------------------------------------------
# reading a page


class _Form(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.fields = {}
        self.sel = None

    def handle_starttag(self, tag, attrs):
        a = dict(reversed(attrs))  # of repeated attributes the first counts
        if tag == "input" and a.get("name"):
            if a.get("type") in ("checkbox", "radio"):
                if "checked" in a:
                    self.fields[a["name"]] = a.get("value") or "on"
            else:
                self.fields[a["name"]] = a.get("value") or ""
        elif tag == "textarea" and a.get("name"):
            self.fields[a["name"]] = ""
        elif tag == "select":
            self.sel = a.get("name")
        elif tag == "option" and self.sel and "selected" in a:
            self.fields[self.sel] = a.get("value") or ""

    def handle_endtag(self, tag):
        if tag == "select":
            self.sel = None


def json_script(html, name):
    m = re.search(r'<script\b[^>]*\bid="%s"[^>]*>(.*?)</script>' % name, html, re.S)
    return json.loads(m[1]) if m else None


def parse_page(body):
    html = body.decode("utf-8")
    p = _Form()
    p.feed(html)
    plot = json_script(html, "plot_json")
    for _ in range(2):
        if isinstance(plot, str):
            plot = json.loads(plot)
    return {"fields": p.fields, "search": json_script(html, "search"), "plot": plot}


# --------------------------------------------------------------------------
# one request


class Crash(Exception):
    pass


class Req:
    def __init__(self, sim, b, kind, arg=None, anchors=(), flags=(), parent=None):
        self.sim, self.b, self.kind, self.arg = sim, b, kind, arg
        self.anchors = {}
        for a in anchors:
            a = list(a)
            self.anchors.setdefault((a[0], a[1]), a[2:])
        self.flags = set(flags)
        self.parent = parent
        self.seen = set()
        self.n = {}
        self.watch = None
        self.faults = []
        self.crashed = False
        self.inv = self.ret = None
        self.resp = None
        self.waits = None
        self.exports = []
        self.escaped = None
        self.exc = ""

    @property
    def tainted(self):
        return bool(self.faults) or self.crashed or "expired" in self.flags

    # -- instrumentation, called in the server thread while running
    def line(self, code, line):
        key = (id(code), line)
        if key in self.seen:
            w = self.watch
            if w and w[0] == key:
                w[1] -= 1
                if w[1] <= 0:
                    self.watch = None
                    self.act(w[2], f"{code.co_name}:{self.rel(code, line)}")
                    return MON.DISABLE
                return None
            return MON.DISABLE
        self.seen.add(key)
        ret = MON.DISABLE
        names = ("line", "vline") if "/slope/" in code.co_filename else ("line",)
        for name in names:
            k = self.n[name] = self.n.get(name, 0) + 1
            act = self.anchors.get((name, k))
            if act:
                if len(act) > 1 and act[1] > 0:
                    self.watch = [key, act[1], act]
                    ret = None
                else:
                    self.act(act, f"{code.co_name}:{self.rel(code, line)}")
        return ret

    @staticmethod
    def rel(code, line):
        return line - code.co_firstlineno

    def db_event(self, name):
        k = self.n[name] = self.n.get(name, 0) + 1
        act = self.anchors.get((name, k))
        if act:
            self.act(act, f"{name}-{k}")

    def statement(self, execute, sql, params, many, context):
        self.db_event("stmt")
        return execute(sql, params, many, context)

    def act(self, act, where):
        sim = self.sim
        kind = act[0]
        if kind == "yield":
            c = self.thread.conn
            if c.in_atomic_block or (c.connection is not None and c.connection.in_transaction):
                return
            sim.rec.count("yields")
            sim.rec.ev("  parked", self.label(), "at", where)
            sim.rec.mark("parked_in:" + where.split(":")[0])
            self.thread.park("yield")
        elif kind == "crash":
            sim.rec.ev("  crash of worker", self.worker.index, "in", self.label(), "at", where)
            sim.rec.count("fault:worker_crash")
            sim.rec.mark("crash_at:" + where.split(":")[0])
            self.crashed = True
            self.thread.park("crash")
            raise SimBug("resumed after a crash")
        else:
            self.faults.append(kind)
            sim.rec.ev("  fault", kind, "in", self.label(), "at", where)
            sim.rec.count("fault:" + kind)
            sim.rec.mark(f"fault_at:{where.split(':')[0]}")
            raise make_error(kind)

    def label(self):
        a = self.arg
        return f"b{self.b}.{self.kind}" + (f"({a})" if a is not None else "")


def make_error(kind):
    from django.db.utils import OperationalError

    if kind == "mem":
        return MemoryError("simulated")
    if kind == "db_locked":
        return OperationalError("database is locked")
    if kind == "db_io":
        return OperationalError("disk I/O error")
    if kind == "db_full":
        return OperationalError("database or disk is full")
    if kind in ("commit_fail", "commit_lost"):
        return OperationalError("disk I/O error")
    if kind == "export_error":
        return ValueError("Failed to start the exporter (simulated)")
    if kind == "export_disk":
        return OSError(28, "No space left on device")
    raise SimBug("unknown fault " + kind)


# --------------------------------------------------------------------------
# server threads and workers


class ServerThread:
    def __init__(self, worker):
        self.worker = worker
        self.sim = worker.sim
        self.go = threading.Semaphore(0)
        self.job = None
        self.state = "idle"
        self.conn = None
        self.t = threading.Thread(target=self.main, daemon=True)
        self.t.start()

    def main(self):
        from django.db import connections

        self.go.acquire()
        self.conn = connections["default"]
        while self.job is not None:
            r = self.job
            try:
                self.serve(r)
            except SimBug as e:
                self.sim.error = e
            except BaseException as e:
                r.escaped = f"{type(e).__name__}: {e}"
            self.state = "done"
            self.hand_back()
        self.conn.close()
        self.state = "gone"
        self.sim.back.release()

    def hand_back(self):
        self.sim.back.release()
        self.go.acquire()

    def park(self, state):
        self.state = state
        self.hand_back()
        self.state = "running"

    def serve(self, r):
        env = r.environ
        out = {}

        def start_response(status, headers, exc_info=None):
            out["status"] = int(status.split()[0])
            out["headers"] = headers

        with self.conn.execute_wrapper(r.statement):
            resp = self.worker.app(env, start_response)
            try:
                out["body"] = b"".join(resp)
            finally:
                if hasattr(resp, "close"):
                    resp.close()
        r.db_event("end")
        r.resp = out


class Worker:
    def __init__(self, sim, index):
        self.sim, self.index = sim, index
        self.alive = False
        self.incarnation = 0
        self.boot()

    def boot(self):
        from django.core.handlers.wsgi import WSGIHandler, WSGIRequest
        from django.utils.datastructures import MultiValueDict  # noqa: F401

        self.incarnation += 1
        self.threads = []
        self.locmem = ({}, {}, {})
        self.sim.park_modules()
        self.set = ModuleSet()
        self.sim.active = self
        self.sim.swap_cache(self)
        urls = self.set.urls

        class Request(WSGIRequest):
            def __init__(self, environ):
                super().__init__(environ)
                self.urlconf = urls

        app = getattr(self.set.wsgi, "application", None)
        if not isinstance(app, WSGIHandler):
            app = WSGIHandler()
        app.request_class = Request
        self.app = app
        self.alive = True

    def activate(self):
        if self.sim.active is self:
            return
        self.sim.park_modules()
        self.set.activate()
        self.sim.active = self
        self.sim.swap_cache(self)

    def free_thread(self):
        """an idle server thread, or None when all are busy"""
        mode = self.sim.plan["mode"]
        if mode == "perreq":
            if len(self.threads) >= 4:
                return None
            t = ServerThread(self)
            self.threads.append(t)
            return t
        for t in self.threads:
            if t.state == "idle":
                return t
        if len(self.threads) < (1 if mode == "sync" else 3):
            t = ServerThread(self)
            self.threads.append(t)
            return t
        return None

    def busy(self):
        return [t for t in self.threads if t.state in ("yield", "running")]

    def die(self):
        """nothing of this process runs again; uncommitted work is gone"""
        for t in self.threads:
            raw = t.conn.connection if t.conn is not None else None
            if raw is not None:
                raw.rollback()
                raw.close()
            if t.job is not None:
                t.job.crashed = True
            t.state = "dead"
        self.alive = False

    def stop(self):
        """orderly stop of an idle worker"""
        self.activate()
        for t in self.threads:
            if t.state == "idle":
                t.job = None
                t.go.release()
                self.sim.back.acquire()
        self.alive = False


# --------------------------------------------------------------------------
# the simulation of one plan


class Sim:
    def __init__(self, plan, rec):
        self.plan, self.rec = plan, rec
        self.back = threading.Semaphore(0)
        self.cur = None
        self.error = None
        self.active = None
        self.now = 0  # event number
        self.exported = {}
        self.inflight = []
        self.stats = {}
        self.forms = plan["forms"]

    # -- setup ------------------------------------------------------------
    def go(self, body):
        global SIM
        from django.db import connections

        scratch = tempfile.mkdtemp(prefix="run-", dir=_prep["root"])
        self.scratch = scratch
        db = os.path.join(scratch, "db.sqlite3")
        shutil.copyfile(os.path.join(_prep["root"], "template.sqlite3"), db)
        tempfile.tempdir = scratch
        os.chdir(scratch)
        s = connections.settings["default"]
        s["NAME"] = db
        s["CONN_MAX_AGE"] = self.plan.get("conn_age", 0)
        s["OPTIONS"] = {"timeout": 0, "init_command": "PRAGMA synchronous=OFF;"}
        sys.stderr = SimStream()
        seed_everything(1)
        CLOCK.reset(rec=self.rec)
        ent = random.Random(f"entropy-{self.plan.get('entropy', 1)}")
        os.urandom = lambda n: ent.randbytes(n)
        random._urandom = os.urandom
        SIM = self
        try:
            self.workers = [Worker(self, i) for i in range(self.plan["workers"])]
            body(self)
            self.drain()
            self.kept(db)
        finally:
            SIM = None
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)

    def kept(self, db):
        """what a run says about the database left at its end"""

    def park_modules(self):
        if self.active is not None:
            self.active.set.save()

    def swap_cache(self, w):
        from django.core.cache import caches
        from django.core.cache.backends import locmem

        locmem._caches, locmem._expire_info, locmem._locks = w.locmem
        for alias in list(caches.settings):
            try:
                delattr(caches._connections, alias)
            except AttributeError:
                pass

    # -- running requests ---------------------------------------------------
    def tick(self):
        self.now += 1
        return self.now

    def begin(self, r, want):
        """give the request to a worker and run it until it ends or parks"""
        r.want_worker = want
        alive = [w for w in self.workers if w.alive]
        if not alive:
            w = self.workers[want % len(self.workers)]
            w.boot()
            self.rec.count("worker_restarts")
            alive = [w]
        order = alive[want % len(alive) :] + alive[: want % len(alive)]
        t = None
        for w in order:
            t = w.free_thread()
            if t:
                break
        if t is None:
            w = order[0]
            self.rec.count("queued_requests")
            while t is None and w.alive:
                jobs = [x.job for x in w.busy() if not self.waiting(x.job)]
                if not jobs:
                    jobs = [x for x in self.inflight if not self.waiting(x)]
                if not jobs:
                    self.stuck()
                    break
                self.resume(jobs[0])
                t = w.free_thread()
            if t is None:
                return self.begin(r, want)
        r.worker, r.thread = w, t
        t.job = r
        r.inv = self.tick()
        self.rec.ev("req", r.label(), "-> worker", f"{w.index}.{w.incarnation}", sorted(r.flags) or "")
        self.rec.count("op:" + r.kind)
        self.inflight.append(r)
        self.run(r)

    def resume(self, r):
        self.rec.count("resumes")
        self.rec.ev("resume", r.label())
        self.run(r)

    def run(self, r):
        t = r.thread
        r.worker.activate()
        MON.restart_events()
        self.cur = r
        t.state = "running"
        t.go.release()
        self.back.acquire()
        self.cur = None
        if self.error:
            raise self.error
        if t.state == "crash":
            r.ret = self.tick()
            w = r.worker
            dead = [x for x in self.inflight if x.worker is w]
            w.die()
            self.rec.count("requests_lost_in_crash", len(dead))
            for x in dead:
                x.ret = r.ret
                self.inflight.remove(x)
                self.finished(x)
        elif t.state == "done":
            r.ret = self.tick()
            t.job = None
            if self.plan["mode"] == "perreq":
                t.go.release()
                self.back.acquire()
                r.worker.threads.remove(t)
            else:
                t.state = "idle"
            self.inflight.remove(r)
            self.finished(r)
        elif t.state != "yield":
            raise SimBug("thread state " + t.state)

    @staticmethod
    def waiting(r):
        return r.waits is not None and r.waits.locked()

    def nobody_else(self, me):
        return all(self.waiting(x) for x in self.inflight if x is not me)

    def stuck(self):
        """every request waits for a lock nobody will release; the operator
        restarts the workers concerned"""
        dead = list(self.inflight)
        self.rec.ev("stuck", [x.label() for x in dead])
        t = self.tick()
        for w in {id(x.worker): x.worker for x in dead}.values():
            w.die()
        self.inflight.clear()
        for x in dead:
            x.ret = t
            x.crashed = False
            self.hung(x)
            x.crashed = True
            self.finished(x)

    def hung(self, r):
        pass

    def drain(self):
        while self.inflight:
            ready = [x for x in self.inflight if not self.waiting(x)]
            if not ready:
                self.stuck()
                continue
            self.resume(ready[0])

    def finished(self, r):
        raise NotImplementedError

    def export(self, fig, fmt):
        r = self.cur
        if r is None:
            raise SimBug("export outside a request")
        r.db_event("export")
        d = fig if isinstance(fig, dict) else fig.to_dict()
        import plotly.io

        d = json.loads(plotly.io.to_json(fig, validate=False)) if not isinstance(fig, dict) else json.loads(
            json.dumps(d)
        )
        body = f"%PDF-simulated {len(self.exported)}".encode()
        self.exported[body] = {"fig": d, "fmt": fmt}
        return body


# --------------------------------------------------------------------------
# browsers


class Browser:
    def __init__(self, index):
        self.index = index
        self.jar = {}  # name -> (value, expires at)
        self.keys = []

    def cookies(self):
        for k in [k for k, (v, e) in self.jar.items() if e is not None and CLOCK.t >= e]:
            del self.jar[k]
        return {k: v for k, (v, e) in self.jar.items()}

    def take(self, headers):
        for k, v in headers:
            if k.lower() == "set-cookie":
                c = SimpleCookie()
                c.load(v)
                for name, m in c.items():
                    age = m["max-age"]
                    if age != "" and int(age) <= 0 or m.value == "":
                        self.jar.pop(name, None)
                    else:
                        self.jar[name] = (m.value, CLOCK.t + int(age) if age != "" else None)


def set_cookie(headers, name):
    out = None
    for k, v in headers:
        if k.lower() == "set-cookie":
            c = SimpleCookie()
            c.load(v)
            if name in c:
                out = c[name].value
    return out


def environ(method, path, cookies, form=None):
    u = urlsplit(path)
    body = urlencode(form).encode() if form is not None else b""
    e = {
        "REQUEST_METHOD": method,
        "SCRIPT_NAME": "",
        "PATH_INFO": u.path,
        "QUERY_STRING": u.query,
        "SERVER_NAME": HOST,
        "SERVER_PORT": "80",
        "SERVER_PROTOCOL": "HTTP/1.1",
        "HTTP_HOST": HOST,
        "REMOTE_ADDR": "10.0.0.1",
        "wsgi.version": (1, 0),
        "wsgi.url_scheme": "http",
        "wsgi.input": io.BytesIO(body),
        "wsgi.errors": io.StringIO(),
        "wsgi.multithread": True,
        "wsgi.multiprocess": True,
        "wsgi.run_once": False,
    }
    if cookies:
        e["HTTP_COOKIE"] = "; ".join(f"{k}={v}" for k, v in cookies.items())
    if form is not None:
        e["CONTENT_TYPE"] = "application/x-www-form-urlencoded"
        e["CONTENT_LENGTH"] = str(len(body))
    return e
