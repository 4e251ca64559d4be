"""The specification side of the library simulator: what each operation does to
the *contents* of a slope, and whether it must be accepted.  Imports nothing
from /repo."""
import math

from ref import Bishop, Contents


def is_num(x):
    return type(x) in (int, float)


class World:
    """Contents of every slope in a run, plus mirrors of the load objects the
    simulated user holds (their offset moves during a dynamic analysis)."""

    def __init__(self, plan):
        self.plan = plan
        self.c = [Contents(i["h"], i.get("a"), i.get("l")) for i in plan["init"]]
        self.obj = {}

    # -- user-held objects
    def owner(self, kind, idx, s):
        return "shared" if self.plan.get("share") else s

    def load(self, kind, idx, s):
        k = (kind, idx, self.owner(kind, idx, s))
        if k not in self.obj:
            self.obj[k] = dict(self.plan[kind][idx])
        return self.obj[k]

    def mat(self, idx):
        return dict(self.plan["mats"][idx])

    # -- spec
    def apply(self, op):
        """-> 'ok' | 'refuse'; contents change only when 'ok'.  Also returns
        whether the contents may have changed (results then go stale)."""
        c = self.c[op["s"]]
        return getattr(self, "_" + op["o"])(c, op)

    def _grow(self, c, **kw):
        before = c.ext()
        for k, v in kw.items():
            setattr(c, k, v)
        c.limits = None
        if c.ext() != before and c.ee:
            c.opaque_planes = True

    def _boundary(self, c, op):
        h, a, l = op["h"], op.get("a"), op.get("l")
        if not is_num(h) or h <= 0:
            return "refuse"
        if a is not None and (not is_num(a) or a <= 0 or a > 90):
            return "refuse"
        if l is not None and (not is_num(l) or l < 0):
            return "refuse"
        if l is None and not a:
            return "refuse"
        c.height, c.angle, c.length = h, a, l
        c.limits = None
        if c.ee:
            c.opaque_planes = True
        return "ok"

    def _bopt(self, c, op):
        kw = {}
        for k, f in (("MIN_EXT_L", "min_l"), ("MIN_EXT_H", "min_h")):
            v = op["kw"].get(k)
            if v:
                if not is_num(v) or v <= 0:
                    return "refuse"
                kw[f] = v
        self._grow(c, **kw)
        return "ok"

    def _mats(self, c, op):
        if any(i == "bad" for i in op["ids"]):
            return "refuse"
        new = [self.mat(i) for i in op["ids"]]
        depths = [m["depth"] for m in new + c.materials]
        if len(depths) != len(set(depths)):
            return "refuse"
        c.materials = sorted(new + c.materials, key=lambda m: m["depth"])
        if depths and max(depths) > c.ext()[0]:
            self._grow(c, min_h=max(depths))
        return "ok"

    def _rm_mat(self, c, op):
        d = op.get("depth")
        if op.get("id") is not None:
            d = self.mat(op["id"])["depth"]
        if d:
            c.materials = [m for m in c.materials if m["depth"] != d]
        if op.get("all"):
            c.materials = []
        return "ok"

    def _udls(self, c, op):
        for i in op["ids"]:
            u = self.load("udls", i, op["s"])
            if u["magnitude"] > 0:
                c.udls.append(u)
                need = (u["offset"] + (u["length"] or 3)) * 2.5
                if c.min_l < need:
                    self._grow(c, min_l=need)
        return "ok"

    def _rm_udls(self, c, op):
        gone = [self.load("udls", i, op["s"]) for i in op.get("ids", [])]
        sig = lambda u: (u["offset"], u["magnitude"], u["length"] or None)
        bad = {sig(u) for u in gone}
        c.udls = [u for u in c.udls if sig(u) not in bad]
        if op.get("all"):
            c.udls = []
        return "ok"

    def _lls(self, c, op):
        for i in op["ids"]:
            p = self.load("lls", i, op["s"])
            if p["magnitude"] > 0:
                c.lls.append(p)
                need = p["offset"] * 3
                if c.min_l < need:
                    self._grow(c, min_l=need)
        return "ok"

    def _rm_lls(self, c, op):
        gone = [self.load("lls", i, op["s"]) for i in op.get("ids", [])]
        sig = lambda u: (u["offset"], u["magnitude"])
        bad = {sig(u) for u in gone}
        c.lls = [u for u in c.lls if sig(u) not in bad]
        if op.get("all"):
            c.lls = []
        return "ok"

    def _water(self, c, op):
        d = op["d"]
        if d is not None and (not is_num(d) or d < 0):
            return "refuse"
        c.water = d
        return "ok"

    def _rm_water(self, c, op):
        c.water = None
        return "ok"

    def _wopt(self, c, op):
        if op["auto"]:
            c.h_auto = True
            return "ok"
        if not is_num(op["H"]):
            return "refuse"
        c.h_auto, c.h_val = False, op["H"]
        return "ok"

    def _aopt(self, c, op):
        kw = op["kw"]
        for k in ("slices", "iterations", "min_failure_dist"):
            v = kw.get(k)
            if v is not None and not is_num(v):
                return "refuse"
        if kw.get("slices"):
            c.slices = max(min(500, kw["slices"]), 10)
        if kw.get("iterations"):
            c.iterations = max(min(kw["iterations"], 100000), 500)
        if kw.get("min_failure_dist") is not None:
            c.min_dist = kw["min_failure_dist"]
        if kw.get("tolerance") is not None:
            c.tolerance = kw["tolerance"]
        if kw.get("max_iterations") is not None:
            c.max_iter = kw["max_iterations"]
        return "ok"

    def _limits(self, c, op):
        kw = op["kw"]
        for k, v in kw.items():
            if v is not None and not is_num(v):
                return "refuse"
        cur = c.eff_limits()
        names = ("left_x", "left_x_right", "right_x_left", "right_x")
        l, lr, rl, r = [
            cur[i] if kw.get(n) is None else kw[n] for i, n in enumerate(names)
        ]
        for n in names:
            if kw.get(n) is not None and kw[n] < 0:
                return "refuse"
        top = c.top()[0]
        l, lr = max(l, 0), min(lr, top)
        r, rl = min(r, c.ext()[1]), max(rl, top)
        if l >= lr or rl >= r:
            return "refuse"
        c.limits = [l, lr, rl, r]
        return "ok"

    def _rm_limits(self, c, op):
        c.limits = None
        return "ok"

    def _circle(self, c, op):
        if not all(is_num(v) for v in op["xyr"]):
            return "refuse"
        pts, safe = Bishop(c).crossings(*op["xyr"])
        if not safe:
            return "unclear"
        if len(pts) < 2:
            return "noop"
        c.circles.append(tuple(op["xyr"]))
        return "ok"

    def _ee(self, c, op):
        el = c.ext()[1]
        for v in (op["l"], op["r"]):
            if not is_num(v) or v < 0 or v > el:
                return "refuse"
        c.ee.append((op["l"], op["r"], op["n"]))
        return "ok"

    def _rm_planes(self, c, op):
        c.circles, c.ee, c.opaque_planes = [], [], False
        return "ok"

    def _noop(self, c, op):
        return "noop"

    _analyse = _dynamic = _peek = _plot = _query = _make_bad = _noop


# --------------------------------------------------------------------------
# plan generation


def r2(x):
    return round(x, 2)


class Gen:
    """Makes plans for the library simulator from one PRNG."""

    def __init__(self, rng, **o):
        self.r = rng
        self.o = o
        self.plan = {
            "mats": [], "udls": [], "lls": [], "init": [], "ops": [],
            "clock": {"step": rng.choice([0, 1e-4, 0.02, 0.3, 2.0])},
            "seed": rng.randrange(1 << 30),
        }
        if rng.random() < 0.3:
            self.plan["clock"]["jumps"] = {
                str(rng.randrange(2, 60)): rng.choice([-86400, 3600, 1e9, -5])
                for _ in range(rng.randrange(1, 3))
            }
        if o.get("share"):
            self.plan["share"] = True

    def height(self):
        r = self.r
        return r.choice([1, 2, 3, 5]) if r.random() < 0.3 else r2(r.uniform(0.8, 9))

    def geom(self):
        r = self.r
        h = self.height()
        if r.random() < 0.5:
            a = 90 if r.random() < 0.05 else r.choice([15, 26.6, 30, 45, 60, 75, r2(r.uniform(14, 80))])
            return {"h": h, "a": a}
        return {"h": h, "a": r.choice([None, 30, 45]), "l": r2(h * r.uniform(0.3, 3.0))}

    def pools(self, slopes):
        r, p = self.r, self.plan
        for _ in range(slopes):
            p["init"].append(self.geom())
        hs = max(g["h"] for g in p["init"])
        nm = r.randrange(2, 5)
        for i in range(nm):
            depth = r2(r.uniform(0.3, 1.6) * hs) if r.random() < 0.85 else r2(hs * r.uniform(3, 5))
            if i and r.random() < 0.12:
                depth = r.choice(p["mats"])["depth"]
            p["mats"].append(
                {
                    "uw": r.choice([16, 18, 20, 22.5, r2(r.uniform(12, 26))]),
                    "phi": r.choice([0, 18, 25, 30, 35, r2(r.uniform(15, 45))]) or r2(r.uniform(1, 9)),
                    "c": r.choice([1, 2, 5, 10, r2(r.uniform(0.5, 40))]),
                    "depth": max(0.2, depth),
                    "name": r.choice(["", "Clay", "Sand & silt", "Gravel"]),
                    "color": r.choice(["", "", "red", "#00ff00", "not-a-color"]),
                }
            )
        for _ in range(r.randrange(2, 5)):
            u = {
                "magnitude": r.choice([5, 10, 20, r2(r.uniform(1, 60))]) if r.random() < 0.93 else 0,
                "offset": r.choice([0, 1, r2(r.uniform(0, 3))]),
                "length": r.choice([None, None, 0, 1, 2.5, r2(r.uniform(0.5, 4))]),
                "color": r.choice(["red", "green", "zzz"]),
                "dyn": r.random() < self.o.get("dyn", 0.15),
            }
            if r.random() < 0.08:
                u["offset"] = r2(r.uniform(5, 12))
            if p["udls"] and r.random() < 0.25:  # equal-valued twin of another
                q = r.choice(p["udls"])
                u = dict(u, magnitude=q["magnitude"], offset=q["offset"], length=q["length"])
            p["udls"].append(u)
        for _ in range(r.randrange(2, 5)):
            u = {
                "magnitude": r.choice([5, 10, 40, r2(r.uniform(1, 80))]) if r.random() < 0.93 else 0,
                "offset": r.choice([0, 1, r2(r.uniform(0, 4))]),
                "color": r.choice(["blue", "zzz"]),
                "dyn": r.random() < self.o.get("dyn", 0.15),
            }
            if p["lls"] and r.random() < 0.25:
                q = r.choice(p["lls"])
                u = dict(u, magnitude=q["magnitude"], offset=q["offset"])
            p["lls"].append(u)
        if self.o.get("share"):
            for k in ("udls", "lls"):
                for u in p[k]:
                    u["dyn"] = False
        self.w = World(p)

    # -- single operations
    def emit(self, op):
        self.plan["ops"].append(op)
        return self.w.apply(op)

    def circle_args(self, s):
        r, c = self.r, self.w.c[s]
        top, bot = c.top(), c.bot()
        el = c.ext()[1]
        x1 = top[0] * (1 - abs(r.gauss(0, 0.25))) if r.random() < 0.8 else r.uniform(0, top[0])
        x1 = min(max(x1, 0.05), top[0] - 0.02)
        if r.random() < 0.75:
            x2 = bot[0] + abs(r.gauss(0, 0.15)) * (el - bot[0])
        else:
            x2 = r.uniform(top[0] + 0.3 * (bot[0] - top[0]), bot[0])
        x2 = min(x2, el - 0.05)
        b = Bishop(c)
        deep = r.random() < self.o.get("deep", 0)
        if deep:
            # wide, so that it may dip below the bottom of the model
            x1 = r.uniform(0.02, 0.6) * top[0]
            x2 = bot[0] + r.uniform(0.4, 0.98) * (el - bot[0])
        y1, y2 = top[1], b.ground(x2)
        half = math.hypot(x2 - x1, y1 - y2) / 2
        if half < 0.05:
            return None
        sag = half * (r.uniform(0.6, 0.98) if deep else r.uniform(0.12, 0.75))
        R = (half * half + sag * sag) / (2 * sag)
        d = R - sag
        mx, my = (x1 + x2) / 2, (y1 + y2) / 2
        beta = math.atan2(y1 - y2, x2 - x1)
        cx, cy = mx + d * math.sin(beta), my + d * math.cos(beta)
        R, cx, cy = round(R, 4), round(cx, 4), round(cy, 4)
        if cx <= 0.01 or cy <= 0.01:
            return None
        return [cx, cy, R]

    def circles(self, s, n):
        for _ in range(n):
            a = self.circle_args(s)
            if a is None:
                continue
            _, safe = Bishop(self.w.c[s]).crossings(*a)
            if safe:
                self.emit({"o": "circle", "s": s, "xyr": a})

    def edge_loads(self, s):
        """line loads where two slices meet"""
        r, c = self.r, self.w.c[s]
        top, n = c.top(), c.slices
        at = []
        if c.circles and r.random() < 0.5:
            for circ in r.sample(c.circles, min(2, len(c.circles))):
                pts, safe = Bishop(c).crossings(*circ)
                if safe and len(pts) > 1:
                    at += [pts[0][0] + (pts[1][0] - pts[0][0]) * k / n for k in range(1, n)]
        else:
            x = round(r.uniform(0.2, 0.97) * top[0], r.choice([0, 1, 2]))
            w = n * round((c.bot()[0] + r.uniform(0.1, 0.8) * (c.ext()[1] - c.bot()[0]) - x) / n, r.choice([1, 2]))
            if x > 0 and w > 0 and x + w < c.ext()[1]:
                self.emit({"o": "ee", "s": s, "l": x, "r": round(x + w, 4), "n": r.randrange(1, 6)})
                at = [round(x + w * k / n, 4) for k in range(1, n)]
        at = [x for x in at if x < top[0] and 3 * (top[0] - x) < c.min_l]
        r.shuffle(at)
        ids = []
        for x in at[: r.choice([1, 2])]:
            off = top[0] - x
            self.plan["lls"].append({
                "magnitude": r.choice([20, 60, 120]), "offset": round(off, 4) if abs(off - round(off, 4)) < 1e-9 else off,
                "color": "blue", "dyn": False,
            })
            ids.append(len(self.plan["lls"]) - 1)
        if ids and len(c.lls) < 6:
            self.emit({"o": "lls", "s": s, "ids": ids})

    def solid(self, s):
        """make sure an analysis has something to report"""
        c = self.w.c[s]
        if not c.materials:
            ids = list(range(len(self.plan["mats"])))
            self.r.shuffle(ids)
            seen, take = set(), []
            for i in ids[: self.r.randrange(1, 4)]:
                d = self.plan["mats"][i]["depth"]
                if d not in seen:
                    seen.add(d)
                    take.append(i)
            if self.r.random() < 0.5:
                self.emit({"o": "mats", "s": s, "ids": take})
            else:
                for i in take:
                    self.emit({"o": "mats", "s": s, "ids": [i]})

    def tight(self, s):
        r = self.r
        kw = {"tolerance": r.choice([1e-9, 1e-9, 1e-6, 0.005]), "max_iterations": r.choice([100, 100, 40])}
        if r.random() < 0.6:
            kw["slices"] = r.choice([10, 13, 25, 40, 7])
        self.emit({"o": "aopt", "s": s, "kw": kw})

    def edit(self, s, kinds=None):
        r, p = self.r, self.plan
        c = self.w.c[s]
        k = r.choice(
            kinds
            or [
                "boundary", "boundary", "bopt", "mats", "mats", "rm_mat", "udls", "udls",
                "rm_udls", "lls", "lls", "rm_lls", "water", "water", "rm_water", "wopt",
                "aopt", "aopt", "limits", "rm_limits", "circle", "ee", "rm_planes",
            ]
        )
        op = {"o": k, "s": s}
        if k == "boundary":
            op.update(self.geom())
        elif k == "bopt":
            op["kw"] = {}
            if r.random() < 0.6:
                op["kw"]["MIN_EXT_L"] = r2(r.uniform(5, 40))
            if r.random() < 0.6:
                op["kw"]["MIN_EXT_H"] = r2(r.uniform(4, 25))
        elif k == "mats":
            have = {m["depth"] for m in c.materials}
            ids = [i for i, m in enumerate(p["mats"]) if m["depth"] not in have]
            if not ids:
                return
            op["ids"] = [r.choice(ids)]
        elif k == "rm_mat":
            if r.random() < 0.25:
                op["all"] = True
            elif r.random() < 0.4 and c.materials:
                op["depth"] = r.choice(c.materials)["depth"]
            else:
                op["id"] = r.randrange(len(p["mats"]))
        elif k in ("udls", "lls"):
            if len(getattr(c, k)) > 5:
                return
            op["ids"] = [r.randrange(len(p[k])) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        elif k in ("rm_udls", "rm_lls"):
            kk = k[3:]
            if r.random() < 0.15:
                op["all"] = True
            else:
                op["ids"] = [r.randrange(len(p[kk])) for _ in range(r.choice([1, 1, 2]))]
        elif k == "water":
            op["d"] = None if r.random() < 0.1 else r.choice([0, r2(r.uniform(0, 1.3) * c.height)])
        elif k == "wopt":
            op["auto"] = r.random() < 0.5
            if not op["auto"]:
                op["H"] = r.choice([0, 0.5, 1, 1.7, -0.3, r2(r.random())])
        elif k == "aopt":
            op["kw"] = r.choice(
                [
                    {"slices": r.choice([5, 10, 30, 60, 700])},
                    {"tolerance": r.choice([1e-9, 0.005, 1e-5])},
                    {"max_iterations": r.choice([15, 60])},
                    {"slices": 20, "min_failure_dist": r2(r.uniform(0, 3))},
                    {"min_failure_dist": r.choice([0, 1.5, 60])},
                    {"iterations": r.choice([500, 600])},
                ]
            )
        elif k == "limits":
            op["kw"] = self.limit_args(c)
        elif k == "circle":
            return self.circles(s, r.randrange(1, 4))
        elif k == "ee":
            top, bot, el = c.top(), c.bot(), c.ext()[1]
            op.update(
                l=r2(r.uniform(0.1, 0.97) * top[0]),
                r=r2(r.uniform(bot[0], bot[0] + 0.6 * (el - bot[0]))),
                n=r.randrange(1, 6),
            )
        self.emit(op)

    def index(self, kind, u, s):
        """pool entry a load or layer of the contents came from"""
        for i, q in enumerate(self.plan[kind]):
            o = self.w.load(kind, i, s) if kind != "mats" else q
            if o is u or (kind == "mats" and q["depth"] == u["depth"] and q == u):
                return i
        return None

    def nudge(self, s, kinds=None):
        """change exactly one thing about the contents, keeping as much else as
        possible the same; returns operations that change it back (or None)"""
        r, p, c = self.r, self.plan, self.w.c[s]
        opts = ["water", "wopt", "aopt", "limits", "boundary", "bopt"]
        opts += ["lls"] * 3 * bool(c.lls) + ["udls"] * 3 * bool(c.udls) + ["mats"] * 3 * bool(c.materials)
        k = r.choice(kinds or opts)
        if k in ("lls", "udls", "mats"):
            u = r.choice({"lls": c.lls, "udls": c.udls, "mats": c.materials}[k])
            i = self.index(k, u, s)
            if i is None:
                return None
            v = dict(p[k][i])
            if k == "mats":
                f = r.choice(["uw", "phi", "c", "name", "color"])
                v[f] = {
                    "uw": r2(v["uw"] * r.uniform(0.8, 1.15)), "phi": r2(v["phi"] * r.uniform(0.7, 1.2)),
                    "c": r2(v["c"] * r.uniform(0.6, 1.5)), "name": v["name"] + "x",
                    "color": "red" if v["color"] != "red" else "#00ff00",
                }[f]
            else:
                f = r.choice(["offset", "offset", "magnitude"] + ["length"] * (k == "udls"))
                if f == "length":
                    v[f] = r2((v[f] or 2) * r.uniform(0.5, 1.3))
                else:
                    v[f] = r2(v[f] * r.uniform(0.4, 1.3) + 0.05)
            p[k].append(v)
            j = len(p[k]) - 1
            rm = {"lls": "rm_lls", "udls": "rm_udls"}
            if k == "mats":
                out, back = {"o": "rm_mat", "s": s, "id": i}, {"o": "rm_mat", "s": s, "id": j}
            else:
                out, back = {"o": rm[k], "s": s, "ids": [i]}, {"o": rm[k], "s": s, "ids": [j]}
            self.emit(out)
            self.emit({"o": k, "s": s, "ids": [j]})
            return [back, {"o": k, "s": s, "ids": [i]}]
        if k == "water":
            old = c.water
            d = r2(r.uniform(0, 1.1) * c.height)
            self.emit({"o": "water", "s": s, "d": d})
            return [{"o": "water", "s": s, "d": old}]
        if k == "wopt":
            old = {"o": "wopt", "s": s, "auto": bool(c.h_auto), "H": c.h_val if not c.h_auto else 1}
            self.emit({"o": "wopt", "s": s, "auto": False, "H": r2(r.random())})
            return [old]
        if k == "aopt":
            f, v = r.choice([("slices", r.choice([11, 17, 23])), ("min_failure_dist", r2(r.uniform(0.5, 3))), ("tolerance", r.choice([1e-9, 0.02])), ("iterations", r.choice([520, 610])), ("max_iterations", r.choice([3, 90]))])
            old = {"slices": c.slices, "min_failure_dist": c.min_dist, "tolerance": c.tolerance, "iterations": c.iterations, "max_iterations": c.max_iter}[f]
            self.emit({"o": "aopt", "s": s, "kw": {f: v}})
            return [{"o": "aopt", "s": s, "kw": {f: old}}]
        if k == "limits":
            old = list(c.eff_limits())
            if self.emit({"o": "limits", "s": s, "kw": self.limit_args(c)}) != "ok":
                self.plan["ops"].pop()
                return None
            return [{"o": "limits", "s": s, "kw": dict(zip(("left_x", "left_x_right", "right_x_left", "right_x"), old))}]
        if k == "boundary":
            old = {"o": "boundary", "s": s, "h": c.height, "a": c.angle, "l": c.length}
            if c.length is None:
                op = {"o": "boundary", "s": s, "h": c.height, "a": r2(min(89, max(12, c.angle * r.uniform(0.8, 1.2))))}
            else:
                op = {"o": "boundary", "s": s, "h": c.height, "a": c.angle, "l": r2(c.length * r.uniform(0.8, 1.3))}
            self.emit(op)
            return [old]
        if k == "bopt":
            eh, el = c.ext()
            op = {"o": "bopt", "s": s, "kw": r.choice([{"MIN_EXT_L": r2(el * r.uniform(1.02, 1.4))}, {"MIN_EXT_H": r2(eh * r.uniform(1.02, 1.4))}])}
            old = {"o": "bopt", "s": s, "kw": {"MIN_EXT_L": c.min_l, "MIN_EXT_H": c.min_h}}
            self.emit(op)
            return [old]

    def near_misses(self, s, look, n=None):
        """look; then change one thing, look; perhaps change it back, look"""
        look()
        for _ in range(n or self.r.randrange(1, 4)):
            back = self.nudge(s)
            look()
            if back and self.r.random() < 0.5:
                for op in back:
                    self.emit(op)
                look()

    def limit_args(self, c):
        r = self.r
        top, el = c.top()[0], c.ext()[1]
        kw = {}
        if r.random() < 0.8:
            kw["left_x"] = r2(r.uniform(0, 0.7) * top)
        if r.random() < 0.8:
            kw["right_x"] = r2(r.uniform(c.bot()[0] + 0.1, el * 1.05))
        if r.random() < 0.35:
            kw["left_x_right"] = r2(r.uniform(0.75, 1.1) * top)
        if r.random() < 0.35:
            kw["right_x_left"] = r2(r.uniform(top * 0.9 + 0.1, c.bot()[0]))
        return kw

    def analyse(self, s, **kw):
        op = {"o": "analyse", "s": s}
        if self.r.random() < 0.2:
            op["mf"] = self.r.choice([5, 2, 1.2, 3.5])
        op.update(kw)
        self.emit(op)

    def plot(self, s, kind=None):
        r = self.r
        op = {"o": "plot", "s": s, "k": kind or r.choice(["boundary", "critical", "all"]), "mt": r.random() < 0.7, "lg": r.random() < 0.3}
        if op["k"] == "all":
            op["mf"] = r.choice([5, 5, 2, 1.3, None])
        self.emit(op)
