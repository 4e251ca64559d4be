"""Properties C01..C08: the analysis library as a stateful object."""
import copy
import json
import math
import sys

import libsim
import look
from core import Inconclusive, Spec, Violation, drop_chunks, rng_for
from libsim import Run, brief, cdict, cload, dig, fig_diff, near, peek, rows_diff, short
from ref import Bishop
from seams import CLOCK, SCHED, Sched, SimStream, Tracer, seed_everything
from world import Gen, World, r2

REAL = ["pyslope.pyslope", "pyslope.utilities", "pyslope.data_validation", "numpy", "plotly figure objects", "tqdm progress bar"]
STUBS = ["wall/monotonic clock (simulated)", "stderr progress stream (simulated)"]


def strip_faults(plan):
    """reducer: remove the planned faults one at a time"""
    for i, op in enumerate(plan["ops"]):
        if "fault" in op:
            q = dict(plan)
            q["ops"] = list(plan["ops"])
            q["ops"][i] = {k: v for k, v in op.items() if k != "fault"}
            yield q


def simpler_ops(plan):
    """reducer: fewer things per operation; plain clock"""
    if plan.get("clock", {}).get("step") or plan.get("clock", {}).get("jumps"):
        yield dict(plan, clock={"step": 0})
    for i, op in enumerate(plan["ops"]):
        alts = []
        if len(op.get("ids", [])) > 1:
            for k in range(len(op["ids"])):
                alts.append(dict(op, ids=op["ids"][:k] + op["ids"][k + 1 :]))
        if len(op.get("kw", {})) > 1 and op["o"] != "make_bad":
            for k in op["kw"]:
                alts.append(dict(op, kw={a: b for a, b in op["kw"].items() if a != k}))
        if op["o"] == "plot" and op.get("mt"):
            alts.append(dict(op, mt=False))
        for a in alts:
            q = dict(plan)
            q["ops"] = list(plan["ops"])
            q["ops"][i] = a
            yield q


class LibSpec(Spec):
    reducers = [drop_chunks("ops"), strip_faults, simpler_ops, drop_chunks("ops")]
    real, stubs = REAL, STUBS
    runs = {"quick": 900, "thorough": 6000}
    run_cls = Run
    gen_opts = {}
    timeout = 60

    def prepare(self, tier):
        libsim.load()

    def plans(self, tier, seed):
        for i in range(self.runs[tier]):
            rng = rng_for(self.prop, seed, i)
            plan = self.make(rng, i)
            plan["run"] = i
            yield plan

    def execute(self, plan, rec):
        plan = copy.deepcopy(plan)
        self.run_cls(plan, rec).go()
        rec.count("operations_total", len(plan["ops"]))

    def sample(self, plan):
        return {"run": plan["run"], "init": plan["init"], "ops": plan["ops"][:14]}

    # shared plan pieces
    def start(self, rng, slopes=1, grid=False, **o):
        g = Gen(rng, **{**self.gen_opts, **o})
        g.pools(slopes)
        for s in range(slopes):
            g.emit({"o": "aopt", "s": s, "kw": {"iterations": 500, "slices": 10}})
            if grid and rng.random() < 0.03:
                # many planes; more circles for each pair of points
                g.emit({"o": "aopt", "s": s, "kw": {"iterations": rng.choice([2000, 4800, 6400])}})
            if rng.random() < 0.85:
                g.tight(s)
            g.solid(s)
            for k in ("udls", "lls", "water", "wopt"):
                if rng.random() < 0.5:
                    g.edit(s, [k])
            if rng.random() < 0.05:
                # many loads
                for _ in range(rng.randrange(3, 12)):
                    k = rng.choice(["udls", "lls"])
                    g.emit({"o": k, "s": s, "ids": [rng.randrange(len(g.plan[k]))]})
            if rng.random() < 0.2:
                g.edit(s, ["limits"])
            if not grid:
                g.circles(s, rng.randrange(2, 6))
        return g


# --------------------------------------------------------------------------


class C01(LibSpec):
    prop = "C01"
    rule = "a run counts when at least one edit followed a completed analysis and results were then asked for; distinct by event-log hash (every operation, outcome and reported number)"
    required_probes = ["edit_after_analysis", "results_asked_while_stale"]

    class run_cls(Run):
        def step(self, i, op):
            had = self.fresh[op["s"]]
            super().step(i, op)
            if had is not None and self.fresh[op["s"]] is None:
                self.rec.mark("edit_after_analysis")
            if op["o"] == "peek" and self.fresh[op["s"]] is None:
                self.rec.mark("results_asked_while_stale")

    def nontrivial(self, out):
        return "edit_after_analysis" in out["marks"]

    def make(self, rng, i):
        grid = rng.random() < 0.1
        n = rng.choice([1, 1, 1, 2])
        g = self.start(rng, n, grid)
        left = 3 if grid else 100
        for _ in range(rng.randrange(4, 16)):
            s = rng.randrange(n)
            k = rng.random()
            if left and k < 0.45:
                g.solid(s)
                if not grid and not g.w.c[s].circles:
                    g.circles(s, 3)
                g.analyse(s)
                left -= 1
                # an edit right after, then a look
                for _ in range(rng.choice([0, 1, 1, 1, 2])):
                    g.edit(s)
                    if rng.random() < 0.6:
                        g.emit({"o": "peek", "s": s})
            elif k < 0.48 and left > 2:
                g.solid(s)
                g.near_misses(s, lambda: g.analyse(s), 1)
                left -= 3
            elif k < 0.55:
                g.emit({"o": "peek", "s": s})
            elif k < 0.6:
                g.plot(s, "boundary")
            else:
                g.edit(s)
            if rng.random() < 0.3:
                g.emit({"o": "peek", "s": s})
        return g.plan


class C02(LibSpec):
    prop = "C02"
    rule = "a run counts when a history of at least 6 edits ended in an analysis compared with a slope built afresh, in another order, from the same contents; distinct by event-log hash"
    required_probes = ["compared_after_long_history", "boundary_changed_after_contents"]

    class run_cls(Run):
        edits = 0

        def step(self, i, op):
            if op["o"] in ("boundary", "bopt") and self.w.c[op["s"]].materials:
                self.rec.mark("boundary_changed_after_contents")
            super().step(i, op)
            self.edits += op["o"] not in ("analyse", "peek", "plot", "query")

        def after(self, i, op, si):
            if op["o"] != "analyse":
                return
            full = self.twin(si, order="rev")
            if full is None:
                return
            got = libsim.rows(self.s[si])
            d = rows_diff(got, self.cut(full, op.get("mf")))
            self.rec.count("check:reordered_twin")
            if d:
                raise Violation(
                    "history-dependent",
                    f"op {i}: same contents assembled in another order give other results: {d}; contents {brief(self.w.c[si])}",
                )
            if self.edits >= 6:
                self.rec.mark("compared_after_long_history")
            if i and any(o["o"] == "analyse" for o in self.plan["ops"][:i]):
                self.rec.mark("compared_after_earlier_analysis")

    def nontrivial(self, out):
        return "compared_after_long_history" in out["marks"]

    def make(self, rng, i):
        grid = rng.random() < 0.12
        g = self.start(rng, 1, grid)
        if rng.random() < 0.3:
            # histories that differ from a shorter one in a single thing
            if rng.random() < 0.5:
                g.emit({"o": "rm_planes", "s": 0})
            elif not g.w.c[0].circles:
                g.circles(0, 4)
            g.solid(0)

            def look():
                g.solid(0)
                g.analyse(0)

            g.near_misses(0, look)
            return g.plan
        for _ in range(1 if grid else rng.randrange(1, 4)):
            for _ in range(rng.randrange(3, 14)):
                g.edit(0)
            if rng.random() < 0.3:
                g.edit(0, ["boundary"])
            g.solid(0)
            if grid:
                g.emit({"o": "rm_planes", "s": 0})
            elif not g.w.c[0].circles or rng.random() < 0.5:
                g.circles(0, rng.randrange(1, 4))
            g.analyse(0)
        return g.plan


class C03(LibSpec):
    prop = "C03"
    rule = "a run counts when at least one reported plane was judged (not skipped as too close to call) by the independent Bishop reference; distinct by event-log hash"
    required_probes = ["judged_with_water", "judged_with_loads", "judged_multilayer", "judged_below_model_base", "judged_with_ties"]

    class run_cls(Run):
        def after(self, i, op, si):
            if op["o"] != "analyse":
                return
            c = self.w.c[si]
            if c.opaque_planes:
                return
            rec = self.rec
            b = Bishop(c)
            got = libsim.rows(self.s[si])
            mf = op.get("mf")
            step = max(1, len(got) // 40)
            for k, row in enumerate(got):
                if mf and row[0] > mf:
                    raise Violation("beyond-requested-limit", f"op {i}: plane {k} has FOS {row[0]} > {mf}")
                if k % step and k > 3:
                    continue
                if not c.materials:
                    raise Violation("bishop", f"op {i}: a factor of safety {row[0]} without any soil")
                v = b.judge(row[1:4], row[0])
                if b.ties and v is None:
                    rec.mark("judged_with_ties")
                if v == "skip":
                    rec.count("skip:too_close")
                    continue
                if v:
                    raise Violation("bishop", f"op {i}: circle {short(row[1:4])}: {v}; contents {brief(c)}")
                rec.count("check:bishop")
                rec.mark("judged")
                if c.water is not None:
                    rec.mark("judged_with_water")
                if c.udls or c.lls:
                    rec.mark("judged_with_loads")
                if len(c.materials) > 1:
                    rec.mark("judged_multilayer")
                if row[2] - row[3] < 0:
                    rec.mark("judged_below_model_base")
                pts, safe = b.crossings(*row[1:4])
                if safe and len(pts) >= 2:
                    want = [*pts[0], *pts[1]]
                    if any(not near(x, y, 1e-6) for x, y in zip(row[4:], want)):
                        raise Violation("end-points", f"op {i}: circle {short(row[1:4])} is said to end at {short(row[4:])}, it meets the ground at {short(want)}; contents {brief(c)}")
                    rec.count("check:end_points")
            if c.circles and not c.ee:
                # every circle the user asked about is answered, and no other
                for circ in c.circles:
                    found = [r for r in got if all(near(x, y) for x, y in zip(r[1:4], circ))]
                    if found:
                        continue
                    v = b.judge(circ, None) if c.materials else None
                    if v == "skip" or v is None:
                        continue
                    if mf:
                        continue
                    raise Violation("plane-missing", f"op {i}: requested circle {short(circ)}: {v}; contents {brief(c)}")
                if len(got) > len(c.circles):
                    raise Violation("plane-unasked", f"op {i}: {len(got)} planes reported for {len(c.circles)} requested")

    gen_opts = {"deep": 0.25}
    runs = {"quick": 3000, "thorough": 15000}

    def nontrivial(self, out):
        return "judged" in out["marks"]

    def make(self, rng, i):
        grid = rng.random() < 0.08
        g = self.start(rng, 1, grid)
        if rng.random() < 0.6:
            g.edit(0, ["water"])
        for _ in range(1 if grid else rng.randrange(1, 4)):
            for _ in range(rng.randrange(0, 6)):
                g.edit(0)
            g.solid(0)
            if grid:
                g.emit({"o": "rm_planes", "s": 0})
            else:
                if rng.random() < 0.5:
                    g.emit({"o": "rm_planes", "s": 0})
                g.circles(0, rng.randrange(3, 8))
                if rng.random() < 0.3:
                    g.edge_loads(0)
            g.analyse(0)
        return g.plan


def some_fault(rng, clock_step):
    k = rng.random()
    if k < 0.8:
        f = {"k": "kbd" if k < 0.55 else "mem", "frac": round(rng.random(), 4)}
        if rng.random() < 0.5:
            f["fn"] = round(rng.random(), 4)
        return f
    return {"k": "stream", "n": rng.choice([1, 1, 2, 3, 4, 6]), "e": rng.choice(["EPIPE", "ENOSPC", "EIO", "closed"])}


class C04(LibSpec):
    prop = "C04"
    rule = "a run counts when an analysis was cut short by an injected fault and results were asked for afterwards; distinct by event-log hash"
    required_probes = ["analysis_interrupted", "rerun_after_interrupt"]

    class run_cls(Run):
        def step(self, i, op):
            s, fault = self.s[op["s"]], op.get("fault")
            fig0 = dig(s.plot_boundary()) if fault and fault.get("look") else None
            super().step(i, op)
            if fig0 is not None and fault["fired"]:
                d = fig_diff(dig(s.plot_boundary()), fig0)
                self.rec.count("check:contents_untouched")
                if d:
                    raise Violation("interrupted-analysis-changed-model", f"op {i}: after the interrupted analysis the drawing of the model differs: {d}; contents {brief(self.w.c[op['s']])}")

        def after(self, i, op, si):
            if op["o"] == "analyse" and "analysis_interrupted" in self.rec.marks:
                self.rec.mark("rerun_after_interrupt")

    def nontrivial(self, out):
        return "analysis_interrupted" in out["marks"]

    def make(self, rng, i):
        grid = rng.random() < 0.2
        g = self.start(rng, 1, grid)
        if rng.random() < 0.5:
            g.plan["clock"]["step"] = 0.3  # frequent progress output
        for _ in range(1 if grid else rng.randrange(1, 4)):
            if rng.random() < 0.4:
                g.analyse(0)
            for _ in range(rng.choice([0, 0, 1, 2])):
                g.edit(0)
            g.solid(0)
            if grid:
                g.emit({"o": "rm_planes", "s": 0})
            elif not g.w.c[0].circles:
                g.circles(0, rng.randrange(2, 7))
            for _ in range(rng.choice([1, 1, 2])):
                f = some_fault(rng, g.plan["clock"]["step"])
                if rng.random() < 0.7:
                    f["look"] = 1
                g.analyse(0, fault=f)
                if rng.random() < 0.3:
                    g.emit({"o": "peek", "s": 0})
                if rng.random() < 0.2 and not grid:
                    g.plot(0, "boundary")
            if rng.random() < 0.3:
                g.edit(0)
                g.solid(0)
            g.analyse(0)
        return g.plan


class C05(LibSpec):
    prop = "C05"
    rule = "a run counts when at least one invalid edit was refused and the slope was then re-examined; distinct by event-log hash"
    required_probes = ["edit_refused", "refused_with_results_present", "refused_part_valid"]

    class run_cls(Run):
        def step(self, i, op):
            si = op["s"]
            had = self.fresh[si]
            if op.get("part"):
                self.rec.mark("refused_part_valid")
            bad = op.get("bad")
            if bad and had is not None:
                self.rec.mark("refused_with_results_present")
            fig0 = None
            if bad and op["o"] != "make_bad" and op.get("look"):
                fig0 = dig(self.s[si].plot_boundary())
            super().step(i, op)
            if fig0 is not None:
                d = fig_diff(dig(self.s[si].plot_boundary()), fig0)
                self.rec.count("check:drawing_unchanged")
                if d:
                    raise Violation("refused-edit-changed-model", f"op {i} {libsim.opstr(op)} was refused, yet the drawing of the model changed: {d}")

    def nontrivial(self, out):
        return "edit_refused" in out["marks"]

    def bad(self, g, s, rng):
        c = g.w.c[s]
        el = c.ext()[1]
        dup = None
        have = {m["depth"] for m in c.materials}
        for i, m in enumerate(g.plan["mats"]):
            if m["depth"] in have:
                dup = i
        fresh = [i for i, m in enumerate(g.plan["mats"]) if m["depth"] not in have]
        opts = [
            {"o": "boundary", "h": rng.choice([-1, 0, -0.5, "3", None]), "a": 30, "l": None if rng.random() < 0.5 else 4},
            {"o": "boundary", "h": 7, "a": rng.choice([0, -5, 91, 180, "45"]), "l": rng.choice([None, 5])},
            {"o": "boundary", "h": 6.5, "a": 45, "l": rng.choice([-2, "4"])},
            {"o": "boundary", "h": 6, "a": None, "l": None},
            {"o": "bopt", "kw": {"MIN_EXT_H": 44, "MIN_EXT_L": rng.choice([-3, "9"])}, "part": 1},
            {"o": "bopt", "kw": {"MIN_EXT_L": 90, "MIN_EXT_H": rng.choice([-3, "9"])}, "part": 1},
            {"o": "water", "d": rng.choice([-0.5, -3, "1"])},
            {"o": "wopt", "auto": False, "H": rng.choice(["0.5", None])},
            {"o": "aopt", "kw": {"slices": 33, "iterations": "700"}, "part": 1},
            {"o": "aopt", "kw": {"slices": 41, "min_failure_dist": "2"}, "part": 1},
            {"o": "aopt", "kw": {"slices": "12"}},
            {"o": "limits", "kw": {"left_x": rng.choice([-1, c.top()[0] + 1])}},
            {"o": "limits", "kw": {"right_x": rng.choice([-2, c.top()[0] * 0.5])}},
            {"o": "limits", "kw": {"left_x": 0.3, "right_x": "12"}, "part": 1},
            {"o": "limits", "kw": {"left_x": 0.5, "left_x_right": 0.25, "right_x": el}, "part": 1},
            {"o": "limits", "kw": {"left_x": 0.4, "right_x": c.bot()[0], "right_x_left": c.bot()[0] + 1}, "part": 1},
            {"o": "circle", "xyr": [5.0, "9", 4.0]},
            {"o": "ee", "l": rng.choice([-1, el + 5]), "r": c.bot()[0] + 0.5, "n": 3},
            {"o": "ee", "l": c.top()[0] * 0.5, "r": el + 2.5, "n": 3},
            {"o": "mats", "ids": ["bad"]},
            {"o": "make_bad", "kind": "Material", "kw": {"unit_weight": rng.choice([0.5, 60, "x", -20])}},
            {"o": "make_bad", "kind": "Material", "kw": {"friction_angle": rng.choice([-5, "30"])}},
            {"o": "make_bad", "kind": "Material", "kw": {"cohesion": "2"}},
            {"o": "make_bad", "kind": "Material", "kw": {"depth_to_bottom": "2"}},
            {"o": "make_bad", "kind": "Udl", "kw": {"magnitude": "5"}},
            {"o": "make_bad", "kind": "Udl", "kw": {"magnitude": 5, "offset": "1"}},
            {"o": "make_bad", "kind": "Udl", "kw": {"magnitude": 5, "length": "1"}},
            {"o": "make_bad", "kind": "LineLoad", "kw": {"magnitude": "5"}},
            {"o": "make_bad", "kind": "LineLoad", "kw": {"magnitude": 5, "offset": "1"}},
            {"o": "make_bad", "kind": "Slope", "kw": {"height": rng.choice([0, -1, "2"])}},
            {"o": "make_bad", "kind": "Slope", "kw": {"height": 2, "angle": rng.choice([0, 95, -10])}},
        ]
        if dup is not None:
            opts += [{"o": "mats", "ids": [dup]}, {"o": "mats", "ids": [dup]}]
            if fresh:
                opts += [{"o": "mats", "ids": [rng.choice(fresh), dup], "part": 1}] * 2
                opts.append({"o": "mats", "ids": [rng.choice(fresh), "bad"], "part": 1})
        return dict(rng.choice(opts), s=s, bad=1)

    def make(self, rng, i):
        grid = rng.random() < 0.04
        g = self.start(rng, 1, grid)
        for m in g.plan["mats"]:
            if rng.random() < 0.25:
                m["depth"] = r2(m["depth"] * rng.uniform(8, 14))  # deeper than the model
        g2 = g.plan["ops"]
        # contents may have moved: rebuild the generator's mirror
        g.w = World(g.plan)
        keep = []
        for op in g2:
            if g.w.apply(op) in ("ok", "noop"):
                keep.append(op)
        g.plan["ops"] = keep
        for _ in range(1 if grid else rng.randrange(2, 5)):
            g.solid(0)
            if grid:
                g.emit({"o": "rm_planes", "s": 0})
            elif not g.w.c[0].circles:
                g.circles(0, 3)
            if rng.random() < 0.7:
                g.analyse(0)
            for _ in range(rng.randrange(1, 4)):
                op = self.bad(g, 0, rng)
                if rng.random() < 0.35:
                    op["look"] = 1
                g.emit(op)
            g.emit({"o": "peek", "s": 0})
            if rng.random() < 0.6:
                g.analyse(0)
            if rng.random() < 0.4:
                g.edit(0)
        if not grid:
            g.solid(0)
            if not g.w.c[0].circles:
                g.circles(0, 3)
        g.analyse(0)
        return g.plan


class C06(LibSpec):
    prop = "C06"
    rule = "a run counts when a dynamic analysis evaluated at least two offsets, each recomputed by a static analysis, or was cut short by a fault; distinct by event-log hash"
    required_probes = ["bisected", "dynamic_interrupted", "model_grew_during_dynamic", "not_converged", "never_enough"]
    gen_opts = {"dyn": 0.6}
    runs = {"quick": 700, "thorough": 4500}

    class run_cls(Run):
        def dynamic(self, i, op):
            si, rec = op["s"], self.rec
            s, c = self.s[si], self.w.c[si]
            fault = op.get("fault")
            before = cdict(c)
            before_top = c.top()[0]
            if c.opaque_planes:
                return
            if c.circles and not c.ee and not self.crossing(c):
                rec.count("dynamic_skipped_no_plane_meets_ground")
                return
            ref = self.ask(q="dynamic", c=before, crit=op["crit"])
            val, exc = self.attempt(op, s)
            rec.ev(i, "dynamic", type(exc).__name__ if exc else val)
            hit = bool(fault and fault.get("fired") and exc is not None)
            moved = self.sync(si, i, op)
            self.conserved(si, i, before, moved)
            if hit:
                rec.count("fault:" + fault["k"] + ":dynamic")
                rec.mark("dynamic_interrupted")
                self.fresh[si] = None
                self.mfs[si].add(None)
                el = look.length(s)
                if not near(el, c.ext()[1]):
                    # grown for a load further back, as results shown must know
                    if el < c.ext()[1]:
                        raise Violation("load-lost", f"op {i}: the model shrank from {c.ext()[1]} to {el}")
                    self.w._grow(c, min_l=el)
                    rec.mark("grown_when_interrupted")
                self.check_peek(si, i, "after an interrupted dynamic analysis")
                # the extents may legitimately have grown, or be half way to
                # it: the user restates them, larger than either
                big = math.ceil(c.ext()[1] * 2 + 10)
                s.update_boundary_options(MIN_EXT_L=big, MIN_EXT_H=c.min_h)
                self.w._grow(c, min_l=big)
                return
            if exc is not None:
                if ref.get("raised") in ("IndexError", "ZeroDivisionError"):
                    raise Inconclusive("nothing to analyse at some offset")
                raise Violation("valid-operation-failed", f"op {i} analyse_dynamic raised {type(exc).__name__}: {exc}; contents {brief(cload(before))}")
            if "raised" in ref:
                if ref["raised"] in ("IndexError", "ZeroDivisionError"):
                    raise Inconclusive("nothing to analyse at some offset")
                raise Violation("valid-operation-failed", f"analyse_dynamic on a fresh slope: {ref['text']}")
            res = [[a, b] for a, b in s.get_dynamic_results().items()]
            rec.ev(i, json.dumps(res))
            offs = [a for a, _ in res]
            crit = op["crit"]
            if min(offs, default=0) < 0:
                raise Violation("dynamic-record", f"op {i}: loads were moved to offset {min(offs)}, no load can be there; contents {brief(cload(before))}")
            if not res or 0 not in offs:
                raise Violation("dynamic-record", f"op {i}: offset 0 was not recorded: {res}")
            top = max(offs)
            order = [0.0] + ([top] if top > 0 else []) + sorted(o for o in offs if 0 < o < top)
            st = self.ask(q="offsets", c=before, offs=order)
            if "raised" in st:
                raise Violation("valid-operation-failed", f"static analysis with the loads moved: {st['text']}")
            want = dict(zip(order, st["fos"]))
            for a, b in res:
                rec.count("check:offset_fos")
                if want[a] is None or not near(want[a], b, 1e-9):
                    raise Violation("dynamic-record", f"op {i}: offset {a} is recorded with FOS {b}, a static analysis there gives {want[a]}; contents {brief(cload(before))}")
            if len(offs) > 1:
                rec.mark("several_offsets")
            if val == 0 and not (len(offs) == 1 and want[0.0] >= crit):
                raise Violation("dynamic-return", f"op {i}: returned 0 (safe at the crest) but FOS there is {want[0.0]} for a required {crit}, {len(offs)} offsets tried")
            back = [before_top - u["length"] for u in c.udls if u["dyn"] and u["length"]]
            if val != 0 and back and top < min(back) - 0.02:
                raise Violation("dynamic-return", f"op {i}: the loads were moved back by {top} at most, there is room for {min(back)}")
            if back and val == 1:
                rec.mark("never_enough")
            if val == 1 and not want[top] < crit:
                raise Violation("dynamic-return", f"op {i}: returned 1 (never safe) but FOS at the far offset is {want[top]} for a required {crit}")
            if val is None:
                rec.mark("bisected")
                if not (min(want.values()) <= crit <= max(want.values())):
                    raise Violation("dynamic-return", f"op {i}: search reported {want} which does not bracket {crit}")
            if ref["ret"] != val or rows_diff(sorted(ref["res"]), sorted(res)):
                raise Violation("dynamic-differs", f"op {i}: a fresh slope with the same contents gives {ref['ret']} {ref['res']}, this one {val} {res}; contents {brief(cload(before))}")
            # loads rest where they were last evaluated; results belong there
            dyn = [u for u in c.udls + c.lls if u["dyn"]]
            where = {u["offset"] for u in dyn}
            if dyn and (len(where) != 1 or not where <= set(offs)):
                raise Violation("dynamic-final-state", f"op {i}: dynamic loads rest at {where}, evaluated were {offs}")
            if dyn:
                here = where.pop()
                got = peek(s)
                if "min" not in got or not near(got["min"], dict(map(tuple, res))[here]):
                    raise Violation("dynamic-final-state", f"op {i}: loads rest at offset {here} whose FOS is {dict(map(tuple, res))[here]}, but get_min_FOS gives {got.get('min', got.get('refused'))}")
                if val is None:
                    rec.count("check:final_fos_enough")
                    if len(offs) >= 12:
                        rec.mark("not_converged")
                    if got["min"] < crit and round(got["min"], 3) < crit:
                        raise Violation("dynamic-unsafe", f"op {i}: loads rest at offset {here} with FOS {got['min']}, required was {crit}; offsets found to be enough: {[a for a, b in res if b >= crit]}")
                for u in dyn:
                    if "length" in u:
                        need = (top + (u["length"] or 3)) * 2.5
                    else:
                        need = top * 3
                    if c.min_l < need:
                        self.w._grow(c, min_l=need)
                        rec.mark("model_grew_during_dynamic")
            self.fresh[si] = {"mf": None}
            self.mfs[si] = {None}
            self.check_peek(si, i, "after analyse_dynamic")

        def sync(self, si, i, op):
            """read back where the user's dynamic loads now are"""
            moved = []
            for (kind, idx, owner), o in list(self.w.obj.items()):
                if not o["dyn"]:
                    continue
                real = self.user.o.get((kind, idx, owner))
                if real is not None and o["offset"] != real.offset:
                    o["offset"] = real.offset
                    moved.append(real.offset)
            return moved

        def conserved(self, si, i, before, moved):
            """no load lost, gained or altered (dynamic ones may have moved)"""
            s, c = self.s[si], self.w.c[si]
            self.rec.count("check:loads_conserved")
            fig = dig(s.plot_boundary(material_table=False))
            self.rec.count("check:loads_drawn")
            for kind, real, unit in (("udls", look.loads(s, "Udl"), "kPa"), ("lls", look.loads(s, "LineLoad"), "kN/m")):
                sig = lambda u: (u["magnitude"], u.get("length") or None, None if u["dyn"] else u["offset"], u["dyn"])
                rsig = lambda u: (u.magnitude, getattr(u, "length", None), None if u.dynamic_offset else u.offset, u.dynamic_offset)
                want = sorted(map(str, map(sig, before[kind])))
                got = sorted(map(str, map(rsig, real)))
                if want != got:
                    raise Violation("load-lost", f"op {i}: {kind} before {want}, after {got}")
                notes = [a for a in fig["layout"].get("annotations", []) if a.get("text", "").endswith(" " + unit)]
                if len(notes) != len(want):
                    raise Violation("load-lost", f"op {i}: {len(want)} {kind} on the slope, {len(notes)} drawn")

    def nontrivial(self, out):
        return "several_offsets" in out["marks"] or "dynamic_interrupted" in out["marks"]

    def make(self, rng, i):
        grid = rng.random() < 0.04
        g = self.start(rng, 1, grid)
        g.emit({"o": "rm_limits", "s": 0})
        faulty = rng.random() < 0.45
        if faulty:
            g.emit({"o": "rm_planes", "s": 0})
        for k in ("udls", "lls"):
            ids = [j for j, u in enumerate(g.plan[k]) if u["dyn"] and u["magnitude"] > 0]
            if ids and rng.random() < 0.8:
                g.emit({"o": k, "s": 0, "ids": [rng.choice(ids)]})
        for _ in range(1 if grid else rng.randrange(1, 3)):
            if not grid:
                g.circles(0, rng.randrange(4, 9))
            if rng.random() < 0.3:
                g.analyse(0)
            op = {"o": "dynamic", "s": 0, "crit": rng.choice([1.3, 1.0, r2(rng.uniform(0.6, 3)), self.aim(g, rng)])}
            if faulty and rng.random() < 0.7:
                f = some_fault(rng, 0)
                g.emit(dict(op, fault=f))
                if rng.random() < 0.5:
                    g.analyse(0)
            g.emit(op)
            if rng.random() < 0.5:
                g.emit({"o": "peek", "s": 0})
            if rng.random() < 0.35:
                # again, asking for more or less
                g.emit({"o": "dynamic", "s": 0, "crit": rng.choice([0.01, 1.0, 1.3, 9.0, self.aim(g, rng)])})
            if not grid:
                # the model may have grown under the planned circles
                g.emit({"o": "bopt", "s": 0, "kw": {"MIN_EXT_L": math.ceil(g.w.c[0].ext()[1] * 1.7)}})
                g.emit({"o": "rm_planes", "s": 0})
            for _ in range(rng.choice([0, 1, 2])):
                g.edit(0, ["mats", "rm_mat", "udls", "rm_udls", "lls", "rm_lls", "water", "aopt"])
            g.solid(0)
        return g.plan

    def aim(self, g, rng):
        """a required FOS likely to lie between near and far offsets"""
        c = g.w.c[0]
        try:
            near_, far = [], []
            for off, acc in ((0.0, near_), (max(c.run, c.top()[0] * 0.6), far)):
                d = c.clone()
                for u in d.udls + d.lls:
                    if u["dyn"]:
                        u["offset"] = off
                b = Bishop(d)
                for circ in d.circles:
                    sl, _ = b.slices(*circ)
                    if sl is None or b.driving(sl[0]) <= 0:
                        continue
                    x = 1.5
                    for _ in range(60):
                        x = b.step(sl[0], x) or 1.0
                        if x <= 0:
                            break
                    if x > 0:
                        acc.append(x)
            lo, hi = min(near_), min(far)
            if hi > lo:
                return round(lo + (hi - lo) * rng.uniform(0.15, 0.85), 3)
        except (ValueError, ZeroDivisionError, OverflowError):
            pass
        return 1.3


class C07(LibSpec):
    prop = "C07"
    rule = "a run counts when operations of at least two slopes interleaved (a thread was preempted inside library code, or operations alternated); distinct by event-log hash"
    required_probes = ["threads_preempted", "shared_objects"]
    reducers = [drop_chunks("switches"), drop_chunks("ops"), simpler_ops, drop_chunks("switches")]

    def nontrivial(self, out):
        return "interleaved" in out["marks"] or "threads_preempted" in out["marks"]

    def execute(self, plan, rec):
        plan = copy.deepcopy(plan)
        z = libsim.Zygote(libsim.handle)
        try:
            n = len(plan["init"])
            want, total = [], 0
            for s in range(n):
                rec.count("oracle_forks")
                r = z.ask({"q": "solo", "plan": plan, "s": s})
                if "raised" in r:
                    raise Violation("valid-operation-failed", "running alone: " + r["text"])
                want.append(r["obs"])
                total += r["n"]
        finally:
            z.close()
        seed_everything(plan["seed"])
        CLOCK.reset(rec=rec, **plan.get("clock", {}))
        sys.stderr = SimStream(rec)
        user = libsim.Objects(plan)
        if plan.get("share"):
            rec.mark("shared_objects")
            for kind in ("mats", "udls", "lls"):  # made before the threads start
                for k in range(len(plan[kind])):
                    user.get(kind, k, 0)
        got = [[] for _ in range(n)]
        slopes = [None] * n
        mine = [[op for op in plan["ops"] if op["s"] == s] for s in range(n)]

        def make(s):
            i = plan["init"][s]
            slopes[s] = libsim.P.Slope(height=i["h"], angle=i.get("a"), length=i.get("l"))

        if plan["threads"]:
            sched = Sched([], rec)
            for s in range(n):

                def body(s=s):
                    with Tracer(hit=lambda t: sched.point(t.where), at=0):
                        make(s)
                        for op in mine[s]:
                            got[s].append(libsim.observe(user, slopes[s], op))

                sched.spawn(f"T{s}", body)
            sw = sorted([1 + int(f * total), w] for f, w in plan["switches"])
            sched.switches = sw
            sched.next_at = sw[0][0] if sw else float("inf")
            SCHED[0] = sched
            sched.run()
            SCHED[0] = None
            rec.count("line_events", sched.points)
            if rec.stats.get("context_switches"):
                rec.mark("threads_preempted")
        else:
            for s in range(n):
                make(s)
            last = None
            for op in plan["ops"]:
                if last is not None and op["s"] != last:
                    rec.mark("interleaved")
                last = op["s"]
                got[op["s"]].append(libsim.observe(user, slopes[op["s"]], op))
        for s in range(n):
            for op, a, b in zip(mine[s], want[s], got[s]):
                b = json.loads(json.dumps(b))
                rec.ev(s, op["o"], json.dumps(b[-1]))
                rec.count("op:" + op["o"])
                rec.count("check:same_as_alone")
                d = self.differ(a, b)
                if d:
                    raise Violation("slopes-interfere", f"slope {s}, {libsim.opstr(op)}: {d}")
        rec.count("operations_total", len(plan["ops"]))

    @staticmethod
    def differ(a, b):
        if a[0] != b[0] or (a[0] == "raised" and a[1] != b[1]):
            return f"alone: {a[0]} {a[1] if a[0] == 'raised' else ''}, together: {b[0]} {b[1] if b[0] == 'raised' else ''}"
        pa, pb = a[-1], b[-1]
        if ("rows" in pa) != ("rows" in pb):
            return f"alone {list(pa)}, together {list(pb)}"
        if "rows" in pa:
            d = rows_diff(pb["rows"], pa["rows"])
            if d:
                return d + " (expected: the slope on its own)"
        if pa.get("refused") != pb.get("refused") or not near(pa.get("min"), pb.get("min")):
            return f"alone min={pa.get('min', pa.get('refused'))}, together {pb.get('min', pb.get('refused'))}"
        if a[0] == "ok" and len(a) == 3:
            return fig_diff(b[1], a[1], "result")
        return None

    def make(self, rng, i):
        n = rng.choice([2, 2, 3])
        share = rng.random() < 0.5
        if rng.random() < 0.25:
            # slopes alike but for one thing
            g = self.start(rng, 1, False, share=share)
            g.solid(0)
            ops = list(g.plan["ops"])
            for s in range(1, n):
                g.plan["init"].append(dict(g.plan["init"][0]))
                g.w.c.append(World({"init": g.plan["init"][:1]}).c[0])
                for op in ops:
                    g.emit(dict(op, s=s))
                g.nudge(s)
        else:
            g = self.start(rng, n, False, share=share)
        for _ in range(rng.randrange(6, 22)):
            s = rng.randrange(n)
            k = rng.random()
            if k < 0.4:
                g.solid(s)
                if not g.w.c[s].circles:
                    g.circles(s, 3)
                g.analyse(s)
            elif k < 0.5:
                g.plot(s)
            elif k < 0.55 and not share:
                g.emit({"o": "dynamic", "s": s, "crit": 1.3})
            elif k < 0.6:
                g.emit({"o": "query", "s": s, "x": r2(rng.uniform(0, 12)), "y": r2(rng.uniform(0, 9))})
            else:
                g.edit(s)
        for s in range(n):
            g.solid(s)
            if not g.w.c[s].circles:
                g.circles(s, 3)
            g.analyse(s)
        p = g.plan
        p["threads"] = rng.random() < 0.6
        # mix the slopes' operations (each slope keeps its own order)
        lanes = [[op for op in p["ops"] if op["s"] == s] for s in range(n)]
        mixed = []
        while any(lanes):
            s = rng.choice([k for k in range(n) if lanes[k]])
            for _ in range(rng.choice([1, 1, 2, 4])):
                if lanes[s]:
                    mixed.append(lanes[s].pop(0))
        p["ops"] = mixed
        p["clock"] = {"step": 0}
        p["switches"] = [
            [round(rng.random(), 6), rng.randrange(n)]
            for _ in range(rng.choice([1, 2, 5, 20, 80]))
        ] if p["threads"] else []
        return p


class C08(LibSpec):
    prop = "C08"
    rule = "a run counts when a drawing made after a history of edits was compared both with the contents and with the drawing of a fresh slope; distinct by event-log hash"
    required_probes = ["drew_critical", "drew_all", "drawing_interrupted", "drew_after_removal"]

    class run_cls(Run):
        removed = False

        def step(self, i, op):
            if op["o"].startswith("rm_"):
                self.removed = True
            si = op["s"]
            if op["o"] == "plot" and self.removed:
                self.rec.mark("drew_after_removal")
            before = peek(self.s[si]) if op["o"] == "plot" else None
            super().step(i, op)
            if before is not None:
                now = peek(self.s[si])
                self.rec.count("check:drawing_read_only")
                if json.dumps(now) != json.dumps(before):
                    raise Violation("drawing-changed-results", f"op {i} {libsim.opstr(op)}: results before {str(before)[:200]}, after {str(now)[:200]}")

        def check_plot(self, si, i, op, fig):
            rec, c = self.rec, self.w.c[si]
            f = dig(fig)
            full = None
            mf_an = None
            if op["k"] != "boundary":
                full = self.twin(si)
                if full is None:
                    return
                if self.fresh[si] is None:
                    raise Violation("stale-drawing", f"op {i}: {op['k']} drawn although the contents were never analysed")
                mf_an = self.fresh[si]["mf"]
                full = self.cut(full, mf_an)
                rec.mark("drew_" + op["k"])
            d = depict(f, c, op, full)
            rec.count("check:depicts_contents")
            if d:
                raise Violation("drawing-wrong", f"op {i} {libsim.opstr(op)}: {d}; contents {brief(c)}")
            if not c.opaque_planes:
                q = {"q": "draw" if op["k"] == "boundary" else "twin", "c": cdict(c), "plot": {k: v for k, v in op.items() if k != "fault"}, "mf": mf_an}
                t = self.ask(**q)
                if "raised" in t:
                    raise Violation("valid-operation-failed", f"drawing a fresh slope with the same contents: {t['text']}")
                d = fig_diff(f, t["fig"])
                rec.count("check:same_as_fresh_drawing")
                rec.mark("compared")
                if d:
                    raise Violation("drawing-history-dependent", f"op {i} {libsim.opstr(op)}: differs from the drawing of a fresh slope: {d}; contents {brief(c)}")

    def nontrivial(self, out):
        return "compared" in out["marks"]

    runs = {"quick": 600, "thorough": 5000}

    def make(self, rng, i):
        g = self.start(rng, 1, False)
        grid = rng.random() < 0.03
        for _ in range(rng.randrange(1, 4)):
            for _ in range(rng.randrange(0, 6)):
                g.edit(0)
                if rng.random() < 0.15:
                    g.plot(0, "boundary")
            if rng.random() < 0.15:
                # a soil down to the very level of the toe
                depths = [m["depth"] for m in g.w.c[0].materials if m["depth"] > 0.5]
                if depths:
                    g.emit({"o": "boundary", "s": 0, "h": rng.choice(depths), "a": rng.choice([30, 45, 60])})
            if rng.random() < 0.5:
                g.edit(0, ["rm_udls", "rm_lls", "rm_mat", "udls", "boundary", "limits", "water"])
            if rng.random() < 0.2:
                kind = rng.choice(["boundary", "critical", "all"])

                def look():
                    if kind != "boundary":
                        g.solid(0)
                        if not g.w.c[0].circles:
                            g.circles(0, 3)
                        g.analyse(0)
                    g.plot(0, kind)

                g.near_misses(0, look)
            g.solid(0)
            if not g.w.c[0].circles:
                g.circles(0, rng.randrange(2, 5))
            g.analyse(0)
            for _ in range(rng.randrange(1, 3)):
                g.plot(0, rng.choice(["boundary", "critical", "critical", "all", "all"]))
                if rng.random() < 0.3:
                    op = g.plan["ops"][-1]
                    g.plan["ops"].insert(-1, dict(op, fault={"k": rng.choice(["kbd", "mem"]), "frac": round(rng.random(), 4)}))
        if grid:
            g.emit({"o": "rm_planes", "s": 0})
            g.analyse(0)
            g.plot(0, "all")
        return g.plan


def fmt(x, p):
    return f"{x:.{p}f}"


def depict(f, c, op, full):
    """does this figure show these contents?  None, or what is wrong"""
    eh, el = c.ext()
    top, bot = c.top(), c.bot()
    data, lay = f["data"], f["layout"]
    notes = lay.get("annotations", [])

    def xs(t, a):
        v = t.get(a, [])
        if isinstance(v, dict):  # typed array
            import base64
            import numpy as np

            return list(np.frombuffer(base64.b64decode(v["bdata"]), dtype=v["dtype"]))
        return v

    pts = lambda t: list(zip(xs(t, "x"), xs(t, "y")))
    has = lambda ps, q: any(near(a, q[0], 1e-6) and near(b, q[1], 1e-6) for a, b in ps)
    outline = [t for t in data if t.get("fill") is None and all(has(pts(t), q) for q in (top, bot, (0, 0), (el, 0), (0, eh), (el, bot[1])))]
    if not outline:
        return f"no outline through crest {top}, toe {bot} with extents {el} x {eh}"
    layers = [t for t in data if t.get("fill") == "toself"]
    ms = sorted(c.materials, key=lambda m: m["depth"])
    if len(layers) != len(ms):
        return f"{len(layers)} soil layers drawn, {len(ms)} present"
    if not ms:
        return None  # an empty outline, by design
    prev = eh
    for t, m in zip(layers, ms):
        meta = t.get("meta")
        if list(meta) != [m["uw"], m["c"], m["phi"], m["name"]]:
            return f"layer {meta} drawn where {m} belongs"
        y = xs(t, "y")
        low = 0 if m is ms[-1] else eh - m["depth"]
        # (a layer may lie below the drawn part of the model)
        if not near(min(y), min(low, prev), 1e-6) or not near(max(y), max(low, prev), 1e-6):
            return f"layer {m['name']!r} drawn from {min(y)} to {max(y)}, belongs from {low} to {prev}"
        prev = low
        if m["color"] in ("red", "#00ff00") and t.get("fillcolor") != m["color"]:
            return f"layer colour {t.get('fillcolor')}, requested {m['color']}"
    wrong = soil_map([pts(t) for t in layers], ms, c)
    if wrong:
        return wrong
    if op["mt"]:
        wrong = soil_table(lay, notes, ms, [t.get("fillcolor") for t in layers])
        if wrong:
            return wrong
    for loads, unit in ((c.udls, "kPa"), (c.lls, "kN/m")):
        got = sorted((round(float(a["text"].split()[0]), 6), round(a["x"], 5)) for a in notes if a.get("text", "").endswith(" " + unit))
        want = []
        for u in loads:
            if unit == "kPa":
                right = top[0] - u["offset"]
                left = max(0, right - u["length"]) if u["length"] else 0
                want.append((round(u["magnitude"], 6), round((left + right) / 2, 5)))
            else:
                want.append((round(u["magnitude"], 6), round(max(0, top[0] - u["offset"]), 5)))
        want.sort()
        if len(got) != len(want) or any(abs(p[0] - q[0]) > 1e-6 or abs(p[1] - q[1]) > 2e-5 for p, q in zip(got, want)):
            return f"loads in {unit} drawn as (value, x) {got}, present are {want}"
    marks = [a for a in notes if a.get("text") == "▼"]
    wl = None if c.water is None else max(0, top[1] - c.water)
    if wl:
        line = [t for t in data if t.get("line", {}).get("color") == "blue" and pts(t) and near(pts(t)[0][1], wl, 1e-6) and near(pts(t)[0][0], 0)]
        if not line or not marks:
            return f"water at level {wl} is not drawn"
        if not any(near(a["y"], wl, 1e-6) for a in marks):
            return f"water marker at {[a['y'] for a in marks]}, level is {wl}"
    elif marks:
        return "water drawn, the slope has none"
    lim = c.eff_limits()
    bars = sorted(a["x"] for a in notes if a.get("text") == "|")
    want = sorted(lim if lim[1] != lim[2] else [lim[0], lim[3]])
    if len(bars) != len(want) or any(not near(a, b, 1e-6) for a, b in zip(bars, want)):
        return f"analysis limits drawn at {bars}, in force {want}"
    if op["k"] == "boundary":
        return None
    best = full[0]
    texts = [t for t in data if t.get("text")]
    if not any(
        list(t["text"])[0] == f"{best[0]:.3f}" and near(xs(t, "x")[0], best[1], 6e-4) and near(xs(t, "y")[0], best[2], 6e-4)
        for t in texts
    ):
        return f"critical plane labelled {[list(t['text']) for t in texts]}, least FOS is {best[0]:.3f} about ({best[1]:.3f}, {best[2]:.3f})"
    ends = lambda t: (pts(t)[0], pts(t)[-1])
    if op["k"] == "all":
        mf = op["mf"]
        planes = [t for t in data if t.get("meta") and len(t["meta"]) == 1]
        want = sorted(round(r[0], 3) for r in full if mf is None or r[0] < mf)
        got = sorted(t["meta"][0] for t in planes)
        if len(got) != len(want) or any(abs(a - b) > 1.1e-3 for a, b in zip(got, want)):
            return f"planes drawn with FOS {got[:6]}.. ({len(got)}), expected {want[:6]}.. ({len(want)})"
        for r in full:
            if mf is not None and r[0] >= mf:
                continue
            if not any(
                abs(t["meta"][0] - r[0]) < 1.1e-3 and all(near(a, b, 1e-6) for a, b in zip((*ends(t)[0], *ends(t)[1]), r[4:]))
                for t in planes
            ):
                return f"plane {short(r)} is not drawn from end to end"
    return None


def inside(x, y, ps):
    """even-odd rule; None when too close to an edge to say"""
    odd = False
    for (x0, y0), (x1, y1) in zip(ps, ps[1:] + ps[:1]):
        if min(y0, y1) - 1e-6 < y < max(y0, y1) + 1e-6:
            if abs(y1 - y0) < 1e-9:
                if min(x0, x1) - 1e-6 < x < max(x0, x1) + 1e-6:
                    return None
                continue
            at = x0 + (y - y0) / (y1 - y0) * (x1 - x0)
            if abs(at - x) < 1e-3:
                return None
            if (y0 > y) != (y1 > y) and at > x:
                odd = not odd
        elif abs(x1 - x0) < 1e-9 and abs(x - x0) < 1e-9:
            continue
    return odd


def soil_map(shapes, ms, c):
    """every spot of the ground is drawn as the soil found there"""
    eh, el = c.ext()
    top, bot = c.top(), c.bot()
    for a in range(1, 24):
        x = el * (a + 0.371) / 24.5
        if x <= top[0]:
            ground = top[1]
        elif x >= bot[0]:
            ground = bot[1]
        else:
            ground = top[1] + (x - top[0]) / (bot[0] - top[0]) * (bot[1] - top[1])
        for b in range(0, 30):
            y = eh * (b + 0.413) / 28
            if abs(y - ground) < 2e-3 or any(abs(eh - m["depth"] - y) < 2e-3 for m in ms):
                continue
            want = None
            if y < ground:
                want = next((k for k, m in enumerate(ms) if y > eh - m["depth"]), len(ms) - 1)
            for k, ps in enumerate(shapes):
                got = inside(x, y, ps)
                if got is not None and got != (k == want):
                    return f"at ({x:.3f}, {y:.3f}) {'nothing' if want is None else 'soil %d' % want} belongs, layer {k} is {'drawn' if got else 'not drawn'} there"
    return None


def soil_table(lay, notes, ms, colours):
    """the table lists the soils from the top, each in a row of its own"""
    cells = {}
    for a in notes:
        if a.get("yref") == "y domain":
            cells.setdefault(round(a["y"], 5), []).append((a["x"], a.get("text", "")))
    rows = [sorted(cells[y]) for y in sorted(cells, reverse=True)]
    ys = sorted(cells, reverse=True)
    if len(rows) != len(ms) + 1:
        return f"table of {len(rows)} lines for {len(ms)} soils"
    head = rows[0]
    if [t for _, t in head] != ["<b>MATERIAL</b>", "<b>COLOR</b>", "<b>\u03b3 (kN/m3)</b>", "<b>c (kPa)</b>", "<b>\u03d5 (deg)</b>"]:
        return f"table header {head}"
    col = [x for x, _ in head]
    rects = [r for r in lay.get("shapes", []) if r.get("type") == "rect"]
    for y, row, m, colour in zip(ys[1:], rows[1:], ms, colours):
        want = [str(m["name"]), m["uw"], m["c"], m["phi"]]
        got = [t for _, t in row]
        same = len(got) == 4 and str(got[0]) == want[0] and all(near(float(g), w) for g, w in zip(got[1:], want[1:]))
        if not same:
            return f"table row {got}, the soil there is {want}"
        if any(not near(x, w, 1e-6) for (x, _), w in zip(row, [col[0]] + col[2:])):
            return f"table row {row} is not under the header {head}"
        if not any(r.get("fillcolor") == colour and min(r["y0"], r["y1"]) < y < max(r["y0"], r["y1"]) and near(min(r["x0"], r["x1"]), col[1], 1e-6) for r in rects):
            return f"no sample of {colour} in the row of {want}"
    x0, x1 = col[0], max(max(r["x0"], r["x1"]) for r in rects if r.get("xref") == "x domain")
    back = [r for r in rects if r.get("xref") == "x domain" and r.get("fillcolor") and near(r["x0"], x0, 1e-6) and near(r["x1"], x1, 1e-6)]
    for y in ys:
        if not any(min(r["y0"], r["y1"]) - 1e-6 < y < max(r["y0"], r["y1"]) + 1e-6 for r in back):
            return f"the table's background does not reach its row at {y}"
    return None


class C19(LibSpec):
    prop = "C19"
    rule = "a run counts when at least one plane of a search, or of a requested entry and exit, was located; distinct by event-log hash"
    required_probes = ["limits_in_force", "load_outside_limits", "requested_entry_exit", "search_with_loads", "spread_judged", "behind_loads", "requested_miss_the_ground"]
    runs = {"quick": 700, "thorough": 4000}
    TOL = 1e-5

    class run_cls(Run):
        def after(self, i, op, si):
            if op["o"] != "analyse":
                return
            c, rec = self.w.c[si], self.rec
            got = libsim.rows(self.s[si])
            mf = op.get("mf")
            for row in got:
                if mf and row[0] > mf:
                    raise Violation("beyond-requested-limit", f"op {i}: a plane with FOS {row[0]} is reported, at most {mf} was asked for")
            if c.circles or c.ee:
                most = len(c.circles) + sum(n for _, _, n in c.ee)
                if len(got) > most:
                    raise Violation("plane-unasked", f"op {i}: {len(got)} planes are reported, {most} were requested; contents {brief(c)}")
                rec.count("check:at_most_requested")
                if not got:
                    rec.mark("requested_miss_the_ground")
                if not c.opaque_planes:
                    self.requested(i, c, got)
                return
            self.searched(i, c, got, mf)

        def searched(self, i, c, got, mf):
            rec = self.rec
            tol = C19.TOL
            l, lr, rl, r = c.eff_limits()
            el, top, bot = c.ext()[1], c.top()[0], c.bot()[0]
            l, lr, rl, r = max(l, 0), min(lr, top), max(rl, top), min(r, el)
            if c.limits is not None:
                rec.mark("limits_in_force")
                b = Bishop(c)
                if any(not l <= x[0] <= lr for x in b.points) or any(not l <= x[0] <= lr for x in b.loads):
                    rec.mark("load_outside_limits")
            if c.udls or c.lls:
                rec.mark("search_with_loads")
            for row in got:
                rec.count("check:plane_in_limits")
                if not l - tol <= row[4] <= lr + tol:
                    raise Violation("outside-limits", f"op {i}: a plane starts at x={row[4]}, limits there are {l} to {lr}; contents {brief(c)}")
                if not rl - tol <= row[6] <= r + tol:
                    raise Violation("outside-limits", f"op {i}: a plane ends at x={row[6]}, limits there are {rl} to {r}; contents {brief(c)}")
                if math.dist(row[4:6], row[6:8]) < min(c.min_dist, 0.9 * el) - tol:
                    raise Violation("too-short", f"op {i}: a plane from {short(row[4:6])} to {short(row[6:8])} is shorter than {c.min_dist}; contents {brief(c)}")
            # (over a steep face, or with limits far from it, most circles
            # would leave through the air)
            high = c.top()[1] - c.bot()[1]
            if high > 1.75 * (bot - top) or rl + (r - rl) / 10 > bot - 0.01 or top - l < 0.7 * high or c.iterations < 500:
                return
            if mf or not got or c.min_dist or len(c.udls) + len(c.lls) > 3:
                return
            rec.mark("spread_judged")
            rec.count("check:spread")
            self.spread(i, "start", [row[4] for row in got], l, lr, c)
            self.spread(i, "end", [row[6] for row in got], rl, r, c)
            self.touched(i, "start", [row[4] for row in got], [l, lr], c)
            self.touched(i, "end", [row[6] for row in got], [r], c)
            b = Bishop(c)
            near_loads = [x[0] for x in b.points + b.loads if l + 0.01 < x[0] < lr and x[0] < top]
            if near_loads:
                rec.mark("behind_loads")
                self.touched(i, "start", [row[4] for row in got], near_loads, c, 0.01)

        def touched(self, i, what, xs, at, c, tol=1e-4):
            for x in at:
                self.rec.count("check:reaches_" + what)
                if not any(x - tol <= v <= x + 1e-4 for v in xs):
                    raise Violation("range-left-out", f"op {i}: no plane {what}s at {'the limit' if tol == 1e-4 else 'or just behind the load at'} x={x}; contents {brief(c)}")

        def spread(self, i, what, xs, lo, hi, c):
            """no quarter of the range is left out"""
            for k in range(4):
                a, b = lo + (hi - lo) * k / 4, lo + (hi - lo) * (k + 1) / 4
                if not any(a - C19.TOL <= x <= b + C19.TOL for x in xs):
                    raise Violation("range-left-out", f"op {i}: no plane {what}s between x={a} and {b}, the limits are {lo} to {hi}; contents {brief(c)}")

        def requested(self, i, c, got):
            rec = self.rec
            b = Bishop(c)
            ends = [((l, b.ground(l)), (r, b.ground(r)), n) for l, r, n in c.ee]
            used = [0] * len(ends)
            for row in got:
                if any(math.dist(row[1:4], circ) < 1e-9 for circ in c.circles):
                    continue
                cx, cy, rad = row[1:4]
                k = next((k for k, (p, q, n) in enumerate(ends)
                          if abs(math.dist(p, (cx, cy)) - rad) <= 1e-6 * rad and abs(math.dist(q, (cx, cy)) - rad) <= 1e-6 * rad), None)
                rec.count("check:requested_plane")
                if k is None:
                    raise Violation("plane-unasked", f"op {i}: plane {short(row[1:4])} passes through none of the requested points {c.ee}; contents {brief(c)}")
                rec.mark("requested_entry_exit")
                used[k] += 1
            for k, (l, r, n) in enumerate(c.ee):
                m = sum(q[2] for q in ends if q[:2] == ends[k][:2])
                if used[k] > m:
                    raise Violation("plane-unasked", f"op {i}: {used[k]} planes from {l} to {r}, {m} were requested")

    def nontrivial(self, out):
        return out["stats"].get("check:plane_in_limits", 0) + out["stats"].get("check:requested_plane", 0) > 0

    def make(self, rng, i):
        grid = rng.random() < 0.7
        g = self.start(rng, 1, True)
        if not grid:
            g.emit({"o": "rm_planes", "s": 0})
        for _ in range(rng.randrange(1, 4)):
            for _ in range(rng.randrange(0, 5)):
                g.edit(0, ["limits", "limits", "rm_limits", "boundary", "bopt", "udls", "lls", "rm_udls", "aopt", "water"])
            if grid:
                g.emit({"o": "rm_planes", "s": 0})
                if rng.random() < 0.85:
                    g.emit({"o": "aopt", "s": 0, "kw": {"min_failure_dist": 0}})
            else:
                if rng.random() < 0.4:
                    g.emit({"o": "rm_planes", "s": 0})
                for _ in range(rng.randrange(1, 4)):
                    g.edit(0, ["ee"])
                if rng.random() < 0.3:
                    g.circles(0, 2)
                if rng.random() < 0.15:
                    # away from under the planes
                    g.emit({"o": "bopt", "s": 0, "kw": {"MIN_EXT_H": math.ceil(g.w.c[0].ext()[0] * 3 + 20)}})
            g.solid(0)
            g.analyse(0)
        return g.plan


SPECS = {c.prop: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C19)}
