"""Reference models used as oracles.  Nothing here imports code from /repo.

* `Contents`: what a slope *is* after a history of edits (a plain record).
* `Bishop`: an independent statement of the simplified Bishop equations for
  one circle on such a record, used to judge a reported factor of safety.
"""
import copy
import itertools
import math


class Contents:
    """The contents of one slope: exactly what the user has put in it."""

    def __init__(self, height, angle, length):
        self.height = height
        self.angle = angle  # only used when length is None
        self.length = length
        self.min_h = 6
        self.min_l = 10
        self.materials = []  # dicts
        self.udls = []
        self.lls = []
        self.water = None
        self.h_auto = True
        self.h_val = 1
        self.limits = None  # four numbers in force, or None
        self.slices = 25
        self.iterations = 1000
        self.min_dist = 0
        self.tolerance = 0.005
        self.max_iter = 15
        self.circles = []  # individually added (cx, cy, r)
        self.opaque_planes = False  # planes added by entry/exit, geometry since changed
        self.ee = []  # individually added entry/exit planes (l, r, n)

    def clone(self):
        return copy.deepcopy(self)

    # ---- derived geometry (documented: crest, toe, ground line) ----
    @property
    def run(self):
        if self.length is None:
            v = self.height / math.tan(math.radians(self.angle))
        else:
            v = self.length
        return max(v, 0.001)

    def ext(self):
        h, l = self.height, self.run
        return max(3 * h, self.min_h, 5 * l / 2), max(5 * l, self.min_l, 4 * h)

    def top(self):
        eh, el = self.ext()
        return ((el - self.run) / 2, eh)

    def bot(self):
        t = self.top()
        return (t[0] + self.run, t[1] - self.height)

    def default_limits(self):
        eh, el = self.ext()
        return [0, self.top()[0], self.top()[0], el]

    def eff_limits(self):
        return list(self.limits) if self.limits is not None else self.default_limits()

    def water_factor(self):
        if self.h_auto:
            return math.cos(math.atan(self.height / self.run)) ** 2
        return min(1, max(0, self.h_val))

    def key(self):
        """hashable digest of the contents, for counting distinct states"""
        return repr(
            (
                self.height, self.run, self.min_h, self.min_l,
                sorted(repr(sorted(m.items(), key=str)) for m in self.materials),
                sorted(repr(u) for u in self.udls),
                sorted(repr(u) for u in self.lls),
                self.water, self.h_auto, self.h_val, self.limits, self.slices,
                self.iterations, self.min_dist, self.tolerance, self.max_iter,
                sorted(map(tuple, self.circles)), self.ee,
            )
        )


class Bishop:
    EDGE = 1e-7

    def __init__(self, c: Contents):
        self.c = c
        self.eh, self.el = c.ext()
        self.tx, self.ty = c.top()
        self.bx, self.by = c.bot()
        self.grad = c.height / c.run
        ms = sorted(c.materials, key=lambda m: m["depth"])
        self.layers = [
            (self.eh - m["depth"], m["uw"], m["c"], math.tan(math.radians(m["phi"])))
            for m in ms
        ]
        self.wl = None
        if c.water is not None:
            wl = max(0, self.ty - c.water)
            self.wl = wl if wl > 0 else None
        self.H = c.water_factor()
        self.loads = []
        for u in c.udls:
            right = self.tx - u["offset"]
            left = max(0, right - u["length"]) if u["length"] else 0
            self.loads.append((left, right, u["magnitude"]))
        self.points = [
            (max(0, self.tx - p["offset"]), p["magnitude"]) for p in c.lls
        ]

    def ground(self, x):
        if x <= self.tx:
            return self.ty
        if x >= self.bx:
            return self.by
        return self.ty - (x - self.tx) * self.grad

    def x_on_ground(self, y):
        if y < self.by:
            return self.el
        return self.tx + (self.ty - y) / self.grad

    def crossings(self, cx, cy, r):
        """ground crossings of the circle, left to right.  Returns (points,
        safe): safe False when a crossing is too close to call."""
        pts = []
        safe = True
        # crest plateau: the left crossing only
        d = r * r - (self.ty - cy) ** 2
        if abs(d) < 1e-6:
            safe = False
        if d >= 0:
            x = cx - math.sqrt(d)
            if min(abs(x), abs(x - self.tx)) < 1e-6:
                safe = False
            if 0 <= x <= self.tx:
                pts.append((x, self.ty))
        # toe plateau: the right crossing only
        d = r * r - (self.by - cy) ** 2
        if abs(d) < 1e-6:
            safe = False
        if d >= 0:
            x = cx + math.sqrt(d)
            if min(abs(x - self.bx), abs(x - self.el)) < 1e-6:
                safe = False
            if self.bx <= x <= self.el:
                pts.append((x, self.by))
        # face
        ux, uy = self.bx - self.tx, self.by - self.ty
        a = ux * ux + uy * uy
        b = 2 * ((self.tx - cx) * ux + (self.ty - cy) * uy)
        cc = (self.tx - cx) ** 2 + (self.ty - cy) ** 2 - r * r
        disc = b * b - 4 * a * cc
        if abs(disc) < 1e-6 * a:
            safe = False
        if disc >= 0:
            for sgn in (-1, 1):
                t = (-b + sgn * math.sqrt(disc)) / (2 * a)
                x = self.tx + t * ux
                if min(abs(x - self.tx), abs(x - self.bx)) < 1e-6:
                    safe = False
                if self.tx <= x <= self.bx:
                    pts.append((x, self.ty + t * uy))
        pts.sort()
        out = []
        prev = -1.0
        for p in pts:
            gap = abs(p[0] - prev)
            if abs(gap - 0.01) < 1e-6:
                safe = False
            if gap > 0.01:
                out.append(p)
            prev = p[0]
        return out, safe

    def slices(self, cx, cy, r, choice=()):
        """per-slice data for the sliding mass cut by the circle.
        Returns ((rows, left, right) or None when there is none, safe).
        What rounding may decide either way (on which side of a slice edge a
        line load lies, which of two soils is at a boundary) is a tie: `choice`
        decides it, `self.ties` has the number of ways of each."""
        self.ties = []

        def either(*ways):
            self.ties.append(len(ways))
            k = len(self.ties) - 1
            return ways[choice[k] if k < len(choice) else 0]

        pts, safe = self.crossings(cx, cy, r)
        if len(pts) < 2:
            return None, safe
        xl, xr = pts[0][0], pts[1][0]
        n = self.c.slices
        b = (xr - xl) / n
        rows = []
        if xr - xl <= 1e-6:
            return None, False
        x_w = self.x_on_ground(self.wl) if self.wl is not None else None
        place = []
        for px, p in self.points:
            k = round((px - xl) / b)
            if 0 <= k <= n and abs(xl + k * b - px) < self.EDGE:
                place.append((either(k, k - 1), p))
            else:
                place.append((math.floor((px - xl) / b), p))
        for i in range(n):
            x = xl + b * (i + 0.5)
            q = r * r - (x - cx) ** 2
            if abs(q) < self.EDGE:
                safe = False
            if q < 0:
                return None, safe
            yb = cy - math.sqrt(q)
            yt = max(self.ground(x), yb)
            W = 0.0
            top = self.eh
            last = len(self.layers) - 1
            for j, (rl, uw, _, _) in enumerate(self.layers):
                low = -math.inf if j == last else rl
                W += uw * max(0.0, min(yt, top) - max(yb, low))
                top = low
            W *= b
            x0, x1 = x - b / 2, x + b / 2
            for l, rr, q_ in self.loads:
                W += max(0.0, min(x1, rr) - max(x0, l)) * q_
            for k, p in place:
                if k == i:
                    W += p
            U = 0.0
            if self.wl is not None:
                head = max(0.0, min(self.wl, yt) - yb)
                h = self.H if x_w < x < self.bx else 1.0
                if head > 0 and min(abs(x - x_w), abs(x - self.bx)) < self.EDGE:
                    h = either(self.H, 1.0)
                U = head * 9.81 * b * h
            mat = self.layers[-1]
            for layer in self.layers:
                if abs(layer[0] - yb) < self.EDGE and layer is not mat:
                    if either(1, 0):
                        mat = layer
                        break
                elif layer[0] < yb:
                    mat = layer
                    break
            al = math.atan2(cx - x, cy - yb) if cy > yb else math.pi / 2
            rows.append((W, U, mat[2], mat[3], math.sin(al), math.cos(al), b))
        return (rows, pts[0], pts[1]), safe

    @staticmethod
    def driving(rows):
        return sum(r[0] * r[4] for r in rows)

    @staticmethod
    def step(rows, fs):
        """one application of Bishop's equation: G(fs)"""
        res = 0.0
        for W, U, c, tp, s, co, b in rows:
            den = co + s * tp / fs
            if den == 0:
                return None
            res += (c * b + (W - U) * tp) / den
        return res / Bishop.driving(rows)

    @staticmethod
    def well_posed(rows, least=0.3):
        """comfortably inside the region where the method applies"""
        drv = Bishop.driving(rows)
        tot = sum(r[0] for r in rows)
        if tot <= 0 or drv < 1e-3 * tot:
            return False
        for W, U, c, tp, s, co, b in rows:
            if c * b + (W - U) * tp < 0:
                return False
            if W * co - U * 1.0 < 0:
                return False
            # for any fs >= least
            if co + min(0.0, s) * tp / least < 0.15 or co < 1e-3:
                return False
        return True

    @staticmethod
    def settles(rows):
        """the method stays inside that region from wherever it may start"""
        x = 1.0
        for _ in range(100):
            x = Bishop.step(rows, x)
            if x is None or x <= 0:
                return False
        least = x
        for k in (0.4, 0.6, 0.8, 1.5, 2.0, 3.0):
            y = k * x
            for _ in range(15):
                least = min(least, y)
                y = Bishop.step(rows, y)
                if y is None or y <= 0:
                    return False
        return Bishop.well_posed(rows, 0.9 * least)

    def judge(self, circle, fos):
        """Compare a reported fos (None: circle rejected) with the equations.
        Returns None when satisfied, 'skip' when too close to call, or text."""
        verdict = self.judge_one(circle, fos)
        ways = list(self.ties)
        if verdict is None or verdict == "skip" or not ways:
            return verdict
        if math.prod(ways) > 64:
            return "skip"
        for choice in itertools.product(*map(range, ways)):
            # (a choice can make a later tie vanish or appear)
            v = self.judge_one(circle, fos, choice)
            if v is None or v == "skip" or len(self.ties) > len(ways):
                return v if v is None else "skip"
        return verdict + f", also not with any of {math.prod(ways)} ways to round {len(ways)} ties"

    def judge_one(self, circle, fos, choice=()):
        sl, safe = self.slices(*circle, choice)
        if not safe:
            return "skip"
        if sl is None:
            if fos is None:
                return None
            return "a factor of safety was reported for a circle with no sliding mass"
        rows = sl[0]
        posed = self.well_posed(rows)
        if fos is None:
            if posed and self.settles(rows):
                return "no factor of safety for an ordinary circle"
            return None
        if not (fos == fos) or fos <= 0 or math.isinf(fos):
            return f"reported {fos}" if posed else "skip"
        if self.driving(rows) <= 0:
            return f"reported {fos} although the driving moment is not positive"
        g = self.step(rows, fos)
        if g is None:
            return "skip"
        if abs(g - fos) <= self.c.tolerance + 1e-7 * max(1.0, fos):
            return None
        # the iteration may have ended on its cap instead: how near must it be?
        x = fos
        for _ in range(200):
            y = self.step(rows, x)
            if y is None or y <= 0:
                return "skip"
            if abs(y - x) < 1e-12:
                break
            x = y
        if not posed and not self.well_posed(rows, max(0.3, 0.4 * min(x, fos))):
            return "skip"
        # (how fast it approaches, wherever it may have come from)
        rate = abs(self.step(rows, x * 1.01) - x) / (0.01 * x)
        for y in (fos, 3 * fos, 0.3, 1.0, 3.0):
            if y > x:
                z = self.step(rows, y)
                rate = max(rate, abs(z - x) / (y - x) if z is not None else 1)
        if rate > 0.85:
            return "skip"
        if abs(g - fos) <= self.c.tolerance + 2 * x * rate**self.c.max_iter:
            return None
        return (
            f"reported {fos!r}, Bishop's equation at that value gives {g!r} "
            f"(tolerance {self.c.tolerance}, solution {x!r})"
        )
