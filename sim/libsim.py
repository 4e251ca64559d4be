"""Simulator for the analysis library: runs planned histories of edits, analyses
and drawings against the real `pyslope.pyslope`, under a simulated clock and
progress stream, with planned interrupts and thread switches."""
import json
import math
import os
import re
import socket
import sys
import types

import look

from core import Inconclusive, SimBug, Violation
from ref import Bishop, Contents
from seams import (
    CLOCK, SCHED, Sched, SimStream, Tracer, install_clock, install_fast_figures,
    install_locks,
    loc_of, seed_everything,
)
from world import World

P = types.SimpleNamespace()  # the code under test


def load():
    """import the code under test (parent process, once)"""
    import numpy  # noqa: F401
    import plotly.graph_objects  # noqa: F401
    import plotly.io  # noqa: F401
    import plotly.graph_objs.layout  # noqa: F401
    import tqdm  # noqa: F401

    install_clock()
    install_locks()
    install_fast_figures()
    from core import REPO

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pyslope.pyslope as m

    if not os.path.abspath(m.__file__).startswith(REPO + "/"):
        raise SimBug(f"imported {m.__file__}, not the tree under test")
    P.m = m
    P.Slope, P.Material, P.Udl, P.LineLoad = m.Slope, m.Material, m.Udl, m.LineLoad
    # touch lazily imported plotly parts so that forked runs need not
    s = m.Slope()
    s.set_materials(m.Material())
    s.set_udls(m.Udl(1))
    s.set_lls(m.LineLoad(1))
    s.set_water_table(0.5)
    s.add_single_circular_plane(6.0, 8.0, 4.0)
    old, sys.stderr = sys.stderr, SimStream()
    try:
        s.analyse_slope()
        s.plot_all_planes().to_json()
    except Exception:
        pass  # judged inside runs, not here
    finally:
        sys.stderr = old


# --------------------------------------------------------------------------
# building and observing real slopes


def mk_mat(m):
    return P.Material(
        unit_weight=m["uw"], friction_angle=m["phi"], cohesion=m["c"],
        depth_to_bottom=m["depth"], name=m["name"], color=m["color"],
    )


def mk_udl(u):
    return P.Udl(
        magnitude=u["magnitude"], offset=u["offset"], length=u["length"],
        color=u["color"], dynamic_offset=u["dyn"],
    )


def mk_ll(p):
    return P.LineLoad(
        magnitude=p["magnitude"], offset=p["offset"], color=p["color"],
        dynamic_offset=p["dyn"],
    )


def cdict(c):
    d = dict(vars(c))
    for k in ("materials", "udls", "lls"):
        d[k] = [dict(x) for x in d[k]]
    return d


def cload(d):
    c = Contents(1, 45, None)
    c.__dict__.update(d)
    return c


def build(c, order=None):
    """a fresh slope with these contents, through the public interface only"""
    if c.length is None:
        s = P.Slope(height=c.height, angle=c.angle)
    else:
        s = P.Slope(height=c.height, length=c.length)
    mats, udls, lls = list(c.materials), list(c.udls), list(c.lls)

    def materials():
        if mats and order is None:
            s.set_materials(*[mk_mat(m) for m in mats])
        elif mats:
            for m in reversed(mats):
                s.set_materials(mk_mat(m))

    def loads():
        if order is not None:
            udls.reverse()
            lls.reverse()
        for p in lls:
            s.set_lls(mk_ll(p))
        if udls:
            s.set_udls(*[mk_udl(u) for u in udls])

    def water():
        if c.water is not None:
            s.set_water_table(c.water)
        if not c.h_auto:
            s.update_water_analysis_options(auto=False, H=c.h_val)

    def options():
        s.update_analysis_options(
            slices=c.slices, iterations=c.iterations, min_failure_dist=c.min_dist,
            tolerance=c.tolerance, max_iterations=c.max_iter,
        )

    def limits():
        if c.limits is not None:
            l, lr, rl, r = c.limits
            s.set_analysis_limits(left_x=l, right_x=r, left_x_right=lr, right_x_left=rl)

    def planes():
        for a in c.circles:
            s.add_single_circular_plane(*a)
        for l, r, n in c.ee:
            s.add_single_entry_exit_plane(l, r, n)

    def extents():
        s.update_boundary_options(MIN_EXT_L=c.min_l, MIN_EXT_H=c.min_h)

    # materials and loads may grow the model and growth clears the limits, so
    # the extents in force are restated after them, and limits after that
    steps = [materials, loads, extents, water, options, limits, planes]
    if order is not None:
        steps = [water, options, loads, materials, extents, planes, limits]
    for f in steps:
        f()
    return s


def rows(s):
    out = []
    for p in list(look.planes(s)):
        out.append(
            [p["FOS"], p["c_x"], p["c_y"], p["radius"], *p["l_c"], *p["r_c"]]
        )
    return out


def peek(s):
    """what a user sees when asking for results"""
    o = {}
    try:
        o["min"] = s.get_min_FOS()
        o["circle"] = list(s.get_min_FOS_circle())
        l, r = s.get_min_FOS_end_points()
        o["ends"] = [*l, *r]
    except Exception as e:
        o["refused"] = type(e).__name__
    try:
        o["rows"] = rows(s)
    except KeyError as e:
        o["half"] = f"a listed plane has no {e}"
    return o


def dig(fig):
    return json.loads(fig.to_json())


def draw(s, op):
    kw = {"material_table": op["mt"], "legend": op["lg"]}
    if op["k"] == "boundary":
        return s.plot_boundary(**kw)
    if op["k"] == "critical":
        return s.plot_critical(**kw)
    return s.plot_all_planes(max_fos=op["mf"], **kw)


# --------------------------------------------------------------------------
# comparison


def near(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def rows_diff(a, b, tol=1e-9):
    """None when the two lists report the same planes with the same results"""
    if len(a) != len(b):
        return f"{len(a)} planes reported, {len(b)} expected"

    def cmp(x, y):
        for i, (p, q) in enumerate(zip(x, y)):
            for u, v in zip(p, q):
                if not near(u, v, tol):
                    return f"plane {i}: got {short(p)}, expected {short(q)}"
        return None

    if cmp(a, b) is None:
        return None
    key = lambda r: [round(v, 6) for v in r[1:4]] + [r[0]]
    return cmp(sorted(a, key=key), sorted(b, key=key))


def short(x):
    return "[" + ", ".join(f"{v:.10g}" if isinstance(v, float) else str(v) for v in x) + "]"


def whole(text):
    """a text with its whole numbers written one way ("20.0" says what "20" says)"""
    return re.sub(r"(?<![\d.])(\d+)\.0+(?!\d)", r"\1", text)


def fig_diff(a, b, path="fig", tol=1e-7):
    """ignores the colours picked automatically for soil layers"""
    if isinstance(a, dict) and isinstance(b, dict):
        if path.endswith("]") or path == "fig":
            pass
        ka, kb = set(a) - {"fillcolor", "template"}, set(b) - {"fillcolor", "template"}
        if ka != kb:
            return f"{path}: keys {sorted(ka ^ kb)}"
        for k in sorted(ka):
            d = fig_diff(a[k], b[k], f"{path}.{k}", tol)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} items, {len(b)} expected"
        for i, (x, y) in enumerate(zip(a, b)):
            d = fig_diff(x, y, f"{path}[{i}]", tol)
            if d:
                return d
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if near(a, b, tol) else f"{path}: {a} vs {b} expected"
    if isinstance(a, str) and isinstance(b, str) and whole(a) == whole(b):
        return None
    return None if a == b else f"{path}: {str(a)[:80]!r} vs {str(b)[:80]!r} expected"


# --------------------------------------------------------------------------
# the zygote: a process forked before anything happened, which forks a pristine
# child for every question the oracle asks


class Zygote:
    def __init__(self, handler):
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            a.close()
            self._serve(b, handler)
            os._exit(0)
        b.close()
        self.s = a
        self.f = a.makefile("rwb")

    @staticmethod
    def _serve(sock, handler):
        f = sock.makefile("rb")
        for line in f:
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    try:
                        out = json.dumps(handler(json.loads(line)))
                    except BaseException as e:
                        import traceback

                        out = json.dumps({
                            "raised": type(e).__name__,
                            "text": f"{type(e).__name__}: {e}",
                            "tb": traceback.format_exc()[-1500:],
                        })
                    sock.sendall(out.encode() + b"\n")
                    code = 0
                finally:
                    os._exit(code)
            if os.waitpid(pid, 0)[1] != 0:
                sock.sendall(b'{"harness": "oracle child died"}\n')

    def ask(self, req):
        self.f.write(json.dumps(req).encode() + b"\n")
        self.f.flush()
        line = self.f.readline()
        if not line:
            raise SimBug("oracle process died")
        out = json.loads(line)
        if "harness" in out:
            raise SimBug(out["harness"])
        return out

    def close(self):
        self.f.close()
        self.s.close()
        os.waitpid(self.pid, 0)


def handle(req):
    """runs in a pristine child"""
    sys.stderr = SimStream()
    CLOCK.reset()
    seed_everything(req.get("seed", 1))
    k = req["q"]
    if k == "solo":
        return solo(req["plan"], req["s"])
    c = cload(req["c"])
    s = build(c, req.get("order"))
    if k == "twin":
        s.analyse_slope()
        out = {"rows": rows(s)}
        if req.get("plot"):
            if req.get("mf"):
                s.analyse_slope(max_fos=req["mf"])
            out["fig"] = dig(draw(s, req["plot"]))
        return out
    if k == "draw":
        return {"fig": dig(draw(s, req["plot"]))}
    if k == "count":
        op = req["op"]
        if op["o"] == "plot" and op["k"] != "boundary":
            s.analyse_slope()
        with Tracer(hist={}) as t:
            try:
                run_op_simple(s, op)
            except Exception:
                pass
        return {"n": t.n, "hist": t.hist}
    if k == "dynamic":
        try:
            ret = s.analyse_dynamic(critical_fos=req["crit"])
        except (IndexError, ZeroDivisionError) as e:
            return {"raised": type(e).__name__}
        return {
            "ret": ret,
            "res": [[a, b] for a, b in s.get_dynamic_results().items()],
            "rows": rows(s),
            "ext": list(s.get_top_coordinates()),
        }
    if k == "offsets":
        res = []
        udls = [mk_udl(u) for u in c.udls]
        lls = [mk_ll(p) for p in c.lls]
        for off in req["offs"]:
            s.remove_udls(remove_all=True)
            s.remove_lls(remove_all=True)
            for u in c.udls:
                s.set_udls(mk_udl(dict(u, offset=off) if u["dyn"] else u))
            for p in c.lls:
                s.set_lls(mk_ll(dict(p, offset=off) if p["dyn"] else p))
            s.analyse_slope()
            try:
                res.append(s.get_min_FOS())
            except IndexError:
                res.append(None)
        return {"fos": res, "rows": rows(s)}
    raise SimBug(k)


def run_op_simple(s, op):
    if op["o"] == "analyse":
        s.analyse_slope(max_fos=op.get("mf"))
    elif op["o"] == "dynamic":
        s.analyse_dynamic(critical_fos=op["crit"])
    elif op["o"] == "plot":
        draw(s, op)


# --------------------------------------------------------------------------
# the run


class Run:
    def __init__(self, plan, rec, **want):
        self.plan, self.rec, self.want = plan, rec, want
        self.z = Zygote(handle)
        seed_everything(plan["seed"])
        CLOCK.reset(rec=rec, **plan.get("clock", {}))
        self.err = SimStream(rec)
        sys.stderr = self.err
        self.w = World(plan)
        self.user = Objects(plan)
        self.s = []
        for i in plan["init"]:
            self.s.append(P.Slope(height=i["h"], angle=i.get("a"), length=i.get("l")))
        n = len(self.s)
        self.fresh = [None] * n  # None, or {"mf": ...}: results are current
        self.mfs = [{None} for _ in range(n)]
        self.cache = {}

    def go(self):
        try:
            for i, op in enumerate(self.plan["ops"]):
                self.step(i, op)
        finally:
            self.z.close()

    # -- oracle
    def ask(self, **req):
        self.rec.count("oracle_forks")
        out = self.z.ask(req)
        return out

    def twin(self, si, order=None):
        """all planes of a fresh slope with these contents (no FOS filter), or
        None when the contents cannot be restated (see opaque_planes)"""
        c = self.w.c[si]
        if c.opaque_planes:
            return None
        d = cdict(c)
        if c.circles and not c.ee and not self.crossing(c):
            return []  # planes were requested; none of them meets the ground now
        key = json.dumps([d, order], sort_keys=True)
        if key not in self.cache:
            self.cache[key] = self.ask(q="twin", c=d, order=order)
        out = self.cache[key]
        if "raised" in out:
            raise Violation(
                "valid-contents-cannot-be-analysed",
                f"a fresh slope with these valid contents fails: {out['text']}; contents {brief(c)}",
            )
        return out["rows"]

    @staticmethod
    def crossing(c):
        b = Bishop(c)
        for circ in c.circles:
            pts, safe = b.crossings(*circ)
            if not safe:
                raise Inconclusive("circle on a knife edge")
            if len(pts) >= 2:
                return True
        return False

    @staticmethod
    def cut(rws, mf):
        return [r for r in rws if not mf or r[0] <= mf]

    # -- one step
    def step(self, i, op):
        rec, si = self.rec, op["s"]
        rec.count("op:" + op["o"])
        s = self.s[si]
        if op["o"] == "peek":
            return self.check_peek(si, i)
        if op["o"] == "dynamic":
            return self.dynamic(i, op)
        before = cdict(self.w.c[si])
        if op["o"] == "make_bad":
            return self.make_bad(i, op)
        exp = self.w.apply(op)
        if exp == "unclear":
            raise Inconclusive("circle on a knife edge")
        val, exc = self.attempt(op, s)
        fault = op.get("fault")
        rec.ev(i, op["o"], si, exp, type(exc).__name__ if exc else "-")
        if fault and fault.get("fired") and exc is not None:
            rec.count("fault:" + fault["k"] + ":" + op["o"])
            if op["o"] == "analyse":
                self.mfs[si].add(op.get("mf"))
                self.fresh[si] = None
                rec.mark("analysis_interrupted")
            else:
                rec.mark("drawing_interrupted")
            return self.check_peek(si, i, "after an interrupted " + op["o"])
        if exp == "refuse":
            rec.mark("edit_refused")
            if exc is None:
                raise Violation("invalid-edit-accepted", f"op {i} {opstr(op)} was accepted")
            rec.count("check:refusal")
            self.check_peek(si, i, f"after the refused {opstr(op)}")
            return
        if exc is not None:
            if op["o"] == "plot" and op["k"] != "boundary" and not self.showable(si):
                return
            raise Violation(
                "valid-operation-failed",
                f"op {i} {opstr(op)} raised {type(exc).__name__}: {exc}; contents {brief(cload(before))}",
            )
        if exp == "ok":
            self.fresh[si] = None
            self.mfs[si] = {None}
        if op["o"] == "analyse":
            self.fresh[si] = {"mf": op.get("mf")}
            self.mfs[si].add(op.get("mf"))
            self.check_peek(si, i, "after analyse_slope")
        elif op["o"] == "plot":
            self.check_plot(si, i, op, val)
        elif op["o"] == "query":
            pass
        self.after(i, op, si)

    def after(self, i, op, si):
        pass

    def showable(self, si):
        """results are present and non-empty, so drawings of them must work"""
        if self.fresh[si] is None:
            return False
        rws = self.twin(si)
        return rws is not None and bool(self.cut(rws, self.fresh[si]["mf"]))

    def attempt(self, op, s):
        """perform op on the real slope, with its planned fault"""
        fault = op.get("fault")
        self.err.fail = {}
        self.err.n = 0
        if not fault:
            try:
                return self.user.perform(s, op), None
            except Exception as e:
                return None, e
        fault["fired"] = False
        if fault["k"] == "stream":
            self.err.fail = {"from": (fault["n"], fault["e"])}
            f0 = self.err.fired
            try:
                return self.user.perform(s, op), None
            except Exception as e:
                return None, e
            finally:
                self.err.fail = {}
                fault["fired"] = self.err.fired > f0
        cd = cdict(self.w.c[op["s"]])
        if self.w.c[op["s"]].opaque_planes:
            cd["ee"] = []
        r = self.ask(q="count", c=cd, op=op)
        if "raised" in r:
            raise Violation("valid-operation-failed", f"{opstr(op)} on a fresh slope: {r['text']}; contents {brief(self.w.c[op['s']])}")
        n, func = r["n"], None
        if "fn" in fault and r["hist"]:
            # strike within one function, every function being equally likely
            names = sorted(r["hist"])
            func = names[int(fault["fn"] * len(names))]
            n = r["hist"][func]
        at = 1 + int(fault["frac"] * n)

        def hit(t):
            fault["fired"] = True
            t.at = float("inf")
            self.rec.ev("interrupt at", loc_of(t.where), "line event", t.n)
            self.rec.mark("interrupted_in:" + t.where.f_code.co_name)
            raise (KeyboardInterrupt if fault["k"] == "kbd" else MemoryError)("simulated")

        try:
            with Tracer(hit, at, func=func):
                return self.user.perform(s, op), None
        except Exception as e:
            return None, e
        except KeyboardInterrupt as e:
            return None, e

    # -- checks
    def check_peek(self, si, i, when="later"):
        s, rec = self.s[si], self.rec
        o = peek(s)
        rec.ev(i, "peek", si, json.dumps(o))
        rec.count("check:peek")
        if "half" in o:
            raise Violation("half-done-results", f"op {i}, {when}: {o['half']}")
        rws = o["rows"]
        full = None
        f = self.fresh[si]
        if rws or "min" in o or f is not None:
            full = self.twin(si)
            if full is None:
                rec.count("skip:opaque")
                return o
        if f is not None:
            rec.count("check:current_results")
            want = self.cut(full, f["mf"])
            if rws or not want:
                d = rows_diff(rws, want)
            else:
                d = "results of a completed analysis are gone"
            if d:
                raise Violation("wrong-results", f"op {i}, {when}: {d}; contents {brief(self.w.c[si])}")
            if want and "refused" in o:
                raise Violation("wrong-results", f"op {i}, {when}: results refused ({o['refused']})")
        elif rws or "min" in o:
            rec.mark("unrequested_results_seen")
            d = None
            for mf in self.mfs[si]:
                d = rows_diff(rws, self.cut(full, mf))
                if d is None:
                    break
            if d:
                raise Violation("stale-results", f"op {i}, {when}: results are shown that are not those of the current contents: {d}; contents {brief(self.w.c[si])}")
        else:
            rec.count("check:results_refused")
            return o
        # the getters agree with the list, which is sorted
        if rws:
            best = min(r[0] for r in rws)
            if "min" not in o or not near(o["min"], best):
                raise Violation("wrong-minimum", f"op {i}, {when}: get_min_FOS {o.get('min')} but the least plane has {best}")
            if any(rws[k][0] > rws[k + 1][0] + 1e-12 for k in range(len(rws) - 1)):
                raise Violation("unsorted", f"op {i}, {when}: planes not in order of FOS")
            if not any(
                near(r[0], best) and rows_diff([o["circle"]], [r[1:4]]) is None
                and rows_diff([o["ends"]], [r[4:]]) is None
                for r in rws
            ):
                raise Violation("wrong-minimum", f"op {i}, {when}: critical circle/ends are not those of the least plane")
        return o

    def check_plot(self, si, i, op, fig):
        pass

    def dynamic(self, i, op):
        raise SimBug("dynamic not planned here")

    def make_bad(self, i, op):
        """constructing an invalid material or load must be refused"""
        kind, kw = op["kind"], op["kw"]
        try:
            getattr(P, kind)(**kw)
        except Exception as e:
            self.rec.ev(i, "make_bad", type(e).__name__)
            self.rec.count("check:refusal")
            return
        raise Violation("invalid-edit-accepted", f"{kind}({kw}) was accepted")


def brief(c):
    d = dict(vars(c))
    for k in ("min_h", "min_l", "tolerance", "max_iter", "opaque_planes"):
        d.pop(k, None)
    return json.dumps({k: v for k, v in d.items() if v not in ([], None)}, default=str)[:700]


def opstr(op):
    return json.dumps({k: v for k, v in op.items() if k not in ("fault",)})


class Objects:
    """the user's side: Material/Udl/LineLoad objects kept in hand"""

    def __init__(self, plan):
        self.plan = plan
        self.o = {}

    def get(self, kind, idx, s):
        if idx == "bad":
            return "not a material"
        k = (kind, idx, "shared" if self.plan.get("share") else s)
        if k not in self.o:
            mk = {"mats": mk_mat, "udls": mk_udl, "lls": mk_ll}[kind]
            self.o[k] = mk(self.plan[kind][idx])
        return self.o[k]

    def perform(self, s, op):
        o, si = op["o"], op["s"]
        g = lambda kind: [self.get(kind, i, si) for i in op.get("ids", [])]
        if o == "boundary":
            return s.set_external_boundary(height=op["h"], angle=op.get("a"), length=op.get("l"))
        if o == "bopt":
            return s.update_boundary_options(**op["kw"])
        if o == "mats":
            return s.set_materials(*g("mats"))
        if o == "rm_mat":
            kw = {}
            if op.get("id") is not None:
                kw["material"] = self.get("mats", op["id"], si)
            if op.get("depth"):
                kw["depth"] = op["depth"]
            if op.get("all"):
                kw["remove_all"] = True
            return s.remove_material(**kw)
        if o == "udls":
            return s.set_udls(*g("udls"))
        if o == "rm_udls":
            return s.remove_udls(*g("udls"), remove_all=bool(op.get("all")))
        if o == "lls":
            return s.set_lls(*g("lls"))
        if o == "rm_lls":
            return s.remove_lls(*g("lls"), remove_all=bool(op.get("all")))
        if o == "water":
            return s.set_water_table(op["d"])
        if o == "rm_water":
            return s.remove_water_table()
        if o == "wopt":
            if op["auto"]:
                return s.update_water_analysis_options(auto=True)
            return s.update_water_analysis_options(auto=False, H=op["H"])
        if o == "aopt":
            return s.update_analysis_options(**op["kw"])
        if o == "limits":
            return s.set_analysis_limits(**op["kw"])
        if o == "rm_limits":
            return s.remove_analysis_limits()
        if o == "circle":
            return s.add_single_circular_plane(*op["xyr"])
        if o == "ee":
            return s.add_single_entry_exit_plane(op["l"], op["r"], op["n"])
        if o == "rm_planes":
            return s.remove_individual_planes()
        if o == "analyse":
            return s.analyse_slope(max_fos=op["mf"]) if "mf" in op else s.analyse_slope()
        if o == "dynamic":
            return s.analyse_dynamic(critical_fos=op["crit"])
        if o == "plot":
            return draw(s, op)
        if o == "query":
            return [
                s.get_external_y_intersection(op["x"]),
                s.get_external_x_intersection(op["y"]),
                s.get_top_coordinates(), s.get_bottom_coordinates(), repr(s),
            ]
        raise SimBug(o)


# --------------------------------------------------------------------------
# solo execution (what one slope does when nobody else exists)


def observe(user, s, op):
    """one operation and everything the user can see of it afterwards"""
    try:
        v = user.perform(s, op)
        out = ["ok"]
        if op["o"] == "plot":
            out.append(dig(v))
        elif op["o"] == "query":
            out.append(json.loads(json.dumps(v)))
        elif op["o"] == "dynamic":
            out.append([v, [[a, b] for a, b in s.get_dynamic_results().items()]])
    except Exception as e:
        out = ["raised", type(e).__name__]
    out.append(peek(s))
    return out


def solo(plan, si):
    q = dict(plan)
    q.pop("share", None)
    user = Objects(q)
    i = plan["init"][si]
    obs = []
    with Tracer() as t:
        s = P.Slope(height=i["h"], angle=i.get("a"), length=i.get("l"))
        for op in plan["ops"]:
            if op["s"] == si:
                obs.append(observe(user, s, op))
    return {"obs": obs, "n": t.n}
