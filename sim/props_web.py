"""Properties C09..C14: the web application."""
import copy
import json

import websim
from core import SimBug, Spec, Violation, drop_chunks, rng_for
from libsim import fig_diff
from seams import CLOCK
from websim import Browser, Req, Sim, Worker, environ, set_cookie

DAY = 86400.0
DEFAULT = "default"
NONE = "none"


def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def same_value(a, b):
    if a == b:
        return True
    x, y = num(a), num(b)
    return x is not None and y is not None and abs(x - y) <= 1e-9 * max(1, abs(x))


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_planes(got, want):
    if not isinstance(got, list) or len(got) != len(want):
        return False
    for g, w in zip(got, want):
        try:
            for k in ("FOS", "c_x", "c_y", "radius"):
                if not close(g[k], w[k]):
                    return False
            for k in ("l_c", "r_c"):
                if not (close(g[k][0], w[k][0]) and close(g[k][1], w[k][1])):
                    return False
        except (KeyError, TypeError, IndexError):
            return False
    return True


def strip_layout(fig):
    f = dict(fig)
    lay = dict(f.get("layout", {}))
    for k in ("width", "height", "autosize", "template"):
        lay.pop(k, None)
    f["layout"] = lay
    return {k: f[k] for k in ("data", "layout")}


def fig_text(fig):
    return json.dumps(fig, ensure_ascii=False)


class History:
    """what happened to one session key: a register of whole analyses"""

    def __init__(self, key):
        self.key = key
        self.ops = []

    def write(self, val, inv, ret, definite):
        self.ops.append(("w", val, inv, ret if ret is not None else 10**9, definite))

    def read(self, vals, inv, ret, what):
        self.ops.append(("r", vals, inv, ret, what))

    def check(self):
        """None if some order of the operations explains every read (Wing and
        Gong); otherwise the reads that could not be explained"""
        ops = self.ops
        n = len(ops)
        full = 0
        for i, o in enumerate(ops):
            if o[0] == "r" or o[4]:
                full |= 1 << i
        seen = set()
        best = [0]
        stack = [(0, NONE)]
        while stack:
            done, val = stack.pop()
            if done & full == full:
                return None
            if (done, val) in seen:
                continue
            seen.add((done, val))
            if len(seen) > 200000:
                return None  # too many overlaps to decide
            if bin(done & full).count("1") > bin(best[0] & full).count("1"):
                best[0] = done
            # an operation may come next unless another one, not yet placed
            # and certain to have happened, ended before it began
            horizon = min(
                (ops[i][3] for i in range(n) if not done >> i & 1 and full >> i & 1),
                default=10**9,
            )
            for i in range(n):
                if done >> i & 1 or ops[i][2] > horizon:
                    continue
                o = ops[i]
                if o[0] == "w":
                    stack.append((done | 1 << i, o[1]))
                elif val in o[1]:
                    stack.append((done | 1 << i, val))
        left = [ops[i] for i in range(n) if full >> i & 1 and not best[0] >> i & 1]
        return [o for o in left if o[0] == "r"] or left


class WebRun(Sim):
    def __init__(self, plan, rec, raises):
        super().__init__(plan, rec)
        self.raises = raises
        self.flags = []
        self.browsers = [Browser(i) for i in range(plan["browsers"])]
        self.hist = {}
        for b in plan.get("opened", ()):
            if b < len(self.browsers):
                self.browsers[b].jar["csrftoken"] = ("abcdefghijklmnopqrstuvwxyzABCDE" + str(b), None)
        self.owner = {e: b for b, es in enumerate(plan["own"]) for e in es}
        self.final = False
        self.expired_at = None
        self.submitted = {}  # session key -> entries submitted under it
        forms = [self.forms[i] for es in plan["own"] for i in es]
        res = websim.ask([None] + forms)
        self.want = {DEFAULT: res[0]}
        for e, r in zip([i for es in plan["own"] for i in es], res[1:]):
            self.want[e] = r
        for e, r in self.want.items():
            if "search" not in r:
                raise SimBug(f"form {e} has no expected result: {r}")

    # -- flags ------------------------------------------------------------
    def flag(self, cls, msg):
        self.rec.ev("!", cls, msg)
        self.rec.count("flag:" + cls)
        self.flags.append((cls, msg))
        if self.final and cls != "server-error":
            self.flags.append(("final-wrong", msg))

    def history(self, key):
        if key not in self.hist:
            self.hist[key] = History(key)
        return self.hist[key]

    # -- the script ---------------------------------------------------------
    def script(self, _):
        for st in self.plan["steps"]:
            self.step(st)
            self.raise_flags()
        self.drain()
        self.raise_flags()
        self.verify()
        self.rec.ev("faults over")
        self.final = True
        for w in self.workers:
            if not w.alive:
                w.boot()
        CLOCK.advance(5)
        for b, w in [(b, b) for b in range(len(self.browsers))] * (2 if self.plan.get("twice") else 1):
            mine = self.plan["own"][b]
            for op in self.plan["final"]:
                k, arg = op, None
                if op == "post":
                    if not mine:
                        continue
                    arg = mine[-1]
                elif op.startswith("pdf"):
                    k, arg = "pdf", op[4:]
                self.request(self.browsers[b], k, arg, w)
                self.drain()
                w += 1
                self.raise_flags()
        self.verify()
        self.raise_flags()
        self.rec.count("registers", len(self.hist))

    def raise_flags(self):
        for cls, msg in self.flags:
            if cls in self.raises:
                raise Violation(cls, msg)
        self.flags = []

    def verify(self):
        for key, h in sorted(self.hist.items(), key=lambda kv: kv[1].ops[0][2] if kv[1].ops else 0):
            self.rec.count("check:session_histories")
            bad = h.check()
            if bad is None:
                continue
            for o in bad[:1]:
                if o[0] == "r":
                    self.flag("lost", f"session {self.name(key)}: {o[4]}; operations " + self.tell(h))
        self.raise_flags()

    def tell(self, h):
        return "; ".join(
            f"[{o[2]}-{o[3]}] " + (f"{'write' if o[4] else 'maybe-write'} {o[1]}" if o[0] == "w" else f"read {sorted(map(str, o[1]))}")
            for o in sorted(h.ops, key=lambda o: o[2])[-14:]
        )

    def name(self, key):
        return f"s{sorted(self.hist, key=lambda k: str(k)).index(key)}" if key in self.hist else "?"

    def step(self, st):
        k = st[0]
        if k == "req":
            _, b, kind, arg, w, anchors, flags = st[:7]
            CLOCK.advance(st[7] if len(st) > 7 else 2)
            self.request(self.browsers[b], kind, arg, w, anchors, flags)
        elif k == "go":
            if self.inflight:
                self.resume(self.inflight[st[1] % len(self.inflight)])
        elif k == "crash":
            w = self.workers[st[1] % len(self.workers)]
            if w.alive and len([x for x in self.workers if x.alive]) > 0:
                self.rec.ev("worker", w.index, "dies")
                self.rec.count("fault:worker_crash")
                dead = [x for x in self.inflight if x.worker is w]
                t = self.tick()
                w.die()
                for x in dead:
                    x.ret = t
                    x.crashed = True
                    self.inflight.remove(x)
                    self.finished(x)
        elif k == "restart":
            w = self.workers[st[1] % len(self.workers)]
            if w.alive and w.busy():
                return
            if w.alive:
                w.stop()
            w.boot()
            self.rec.count("worker_restarts")
            self.rec.ev("worker", w.index, "restarted")
        elif k == "clock":
            CLOCK.t += st[1]
            CLOCK.mono += max(0, st[1])
            self.rec.count("fault:clock_jump_" + ("back" if st[1] < 0 else "long" if st[1] > 14 * DAY else "hours"))
            if st[1] > 0:
                self.rec.count("sim_time_ms", int(st[1] * 1000))
            self.rec.ev("clock", st[1])
            if st[1] > 14 * DAY:
                t = self.tick()
                for h in self.hist.values():
                    h.write(NONE, t, None, False)
                for r in self.inflight:
                    r.flags.add("expired")
        elif k == "clear":
            from django.contrib.sessions.backends.db import SessionStore
            from django.db import connection

            if any(t.conn is not None and t.conn.in_atomic_block for w in self.workers for t in w.threads):
                return
            SessionStore.clear_expired()
            connection.close()
            self.rec.count("clearsessions")
            self.rec.ev("clearsessions")
        elif k == "forget":
            b = self.browsers[st[1]]
            b.jar.pop("sessionid", None)
            self.rec.count("fault:cookie_lost")
            self.rec.ev("browser", st[1], "loses its session cookie")
        elif k == "forge":
            b = self.browsers[st[1]]
            b.jar["sessionid"] = (st[2], None)
            self.rec.count("fault:cookie_forged")
            self.rec.ev("browser", st[1], "sends cookie", repr(st[2])[:40])
        else:
            raise SimBug("step " + k)

    def request(self, b, kind, arg, w, anchors=(), flags=(), parent=None):
        if kind in ("post", "bad") and "csrftoken" not in b.cookies():
            # the user opens the page before filling in the form
            self.request(b, "get", None, w)
            if "csrftoken" not in b.cookies():
                self.rec.count("submissions_impossible")
                return
        r = Req(self, b.index, kind, arg, anchors, flags, parent)
        cookies = b.cookies()
        r.key = cookies.get("sessionid")
        if kind == "get":
            r.environ = environ("GET", "/", cookies)
        elif kind == "reset":
            r.environ = environ("GET", "/reset", cookies)
        elif kind == "pdf":
            r.environ = environ("GET", f"/pdf/{arg}", cookies)
        elif kind in ("post", "bad"):
            f = dict(self.forms[arg], csrfmiddlewaretoken=cookies["csrftoken"])
            for x in flags:
                if x.startswith("craft:") and kind == "post":
                    f = websim.craft(f, int(x[6:]))
                    self.rec.count("crafted_submissions")
            r.environ = environ("POST", "/", cookies, f)
            if kind == "post" and r.key:
                self.submitted.setdefault(r.key, set()).add(arg)
        self.begin(r, w)

    def kept(self, db):
        """what the administrator stored is as it was"""
        self.rec.count("check:stored_rows")
        was, now = websim._prep["stored"], websim.stored_rows(db)
        for t in was:
            if now.get(t) != was[t]:
                self.flag("stored-changed", f"table {t} held {was[t]}, after the visits {now.get(t)}")
        self.raise_flags()

    def hung(self, r):
        if not r.tainted:
            self.flag("server-error", f"{r.label()} waits for ever")

    # -- a request came to its end --------------------------------------------
    def finished(self, r):
        b = self.browsers[r.b]
        resp = r.resp
        for k, v in r.n.items():
            self.stats[(r.kind, k)] = max(v, self.stats.get((r.kind, k), 0))
        if r.escaped and not r.tainted:
            self.flag("server-error", f"{r.label()}: {r.escaped} escaped from the application")
        if resp is None:
            self.rec.ev("end", r.label(), "no answer" + (" (crash)" if r.crashed else ""))
            self.record(r, None, None)
            return
        status = resp["status"]
        lost = "lost" in r.flags
        newkey = set_cookie(resp["headers"], "sessionid")
        loc = dict((k.lower(), v) for k, v in resp["headers"]).get("location")
        ctype = dict((k.lower(), v) for k, v in resp["headers"]).get("content-type", "")
        page = None
        if lost:
            self.rec.count("fault:response_lost")
        else:
            b.take(resp["headers"])
        if status >= 500:
            if not r.tainted:
                self.flag("server-error", f"{r.label()} answered {status} ({r.exc})")
            self.rec.count("answers_5xx")
        elif status >= 400 and not r.tainted:
            if status == 403 and r.kind in ("post", "bad"):
                self.flag("server-error", f"{r.label()} refused with 403")
            else:
                self.flag("server-error", f"{r.label()} answered {status}")
        if r.kind == "post" and not r.tainted and 300 <= status < 400:
            self.flag("wrong-result", f"{r.label()}: a valid submission was refused (led to {loc})")
        if r.kind == "get" and not r.tainted and 300 <= status < 400:
            self.flag("lost", f"{r.label()}: a page load led to {loc} instead of showing what is saved")
        if newkey:
            if r.kind == "post":
                self.submitted.setdefault(newkey, set()).add(r.arg)
        key = newkey or r.key
        r.newkey = newkey
        shown = None
        if status == 200 and ctype.startswith("text/html"):
            shown = self.judge_page(r, key, resp["body"])
        elif status == 200:
            shown = self.judge_pdf(r, key, resp["body"], ctype)
        self.rec.ev(
            "end", r.label(), status, "" if shown is None else f"shows {self.names(shown)}", "LOST" if lost else "",
            "faulty" if r.tainted else "",
        )
        self.record(r, key, shown, status, loc)
        if status in (301, 302) and loc and not lost:
            path = loc.split("?")[0]
            nxt = {"/": "get", "/reset": "reset"}.get(path)
            if nxt is None:
                self.flag("server-error", f"{r.label()} leads to {loc}")
            elif (r.depth if hasattr(r, "depth") else 0) > 4:
                self.flag("server-error", f"{r.label()} leads from page to page")
            else:
                self.follow(r, nxt)

    def follow(self, r, kind):
        b = self.browsers[r.b]
        cookies = b.cookies()
        q = Req(self, r.b, kind, None, (), (), r)
        q.depth = getattr(r, "depth", 0) + 1
        q.key = cookies.get("sessionid")
        q.environ = environ("GET", {"get": "/", "reset": "/reset"}[kind], cookies)
        self.begin(q, r.want_worker)
        r.worker.activate() if r.worker.alive else None

    def record(self, r, key, shown, status=None, loc=None):
        """enter the request into the session's history"""
        inv, ret = r.inv, r.ret
        sure = status is not None and not r.tainted and "lost" not in r.flags
        crashed = r.resp is None
        keys = [k for k in {r.key, key} if k]
        moved = key is not None and r.key is not None and key != r.key
        # reads are of the session the request's cookie named
        rkey = r.key if r.key else key
        if shown is not None and r.kind in ("get", "pdf") and rkey is not None:
            vals = set(shown)
            if DEFAULT in shown and r.kind == "get":
                vals.add(NONE)
            self.history(rkey).read(vals, inv, ret, f"{r.label()} showed {self.names(shown)}")
        if r.kind == "pdf" and status in (301, 302) and rkey is not None:
            self.history(rkey).read({NONE}, inv, ret, f"{r.label()} led to the main page")
        val = None
        if r.kind == "post" and status != 403:
            val = r.arg
        elif r.kind == "get" and (shown is None or DEFAULT in shown):
            val = DEFAULT
        elif r.kind == "reset":
            val = NONE
        elif r.kind == "bad":
            val, sure = NONE, False
        if val is not None:
            for k in keys:
                # a request that moved to a new session wrote there
                here = sure and (k == key)
                self.history(k).write(val, inv, ret, here)

    # -- what a page shows ------------------------------------------------------
    def judge_page(self, r, key, body):
        self.rec.count("check:pages")
        if websim.STORED.encode() in body:
            self.flag("stored-shown", f"{r.label()}: the page shows what the administrator stored")
        try:
            p = websim.parse_page(body)
        except ValueError as e:
            self.flag(self.unknown(r), f"{r.label()}: page cannot be read: {e}")
            return None
        for k, v in p["fields"].items():
            if websim.STORED_DIGITS in v:
                self.flag("stored-shown", f"{r.label()}: the page shows {v} for {k}, which the administrator stored")
        F = self.by_fields(p["fields"])
        S = [e for e, w in self.want.items() if same_planes(p["search"], w["search"])]
        P = self.by_plot(p["plot"])
        if r.kind == "bad":
            # refused: no result of this submission; whatever is drawn is checked
            F = set(self.want)
        both = [e for e in self.want if e in F and e in S and e in P]
        desc = f"inputs of {self.names(F)}, planes of {self.names(S)}, drawing of {self.names(P)}"
        if not both:
            parts = [x for x in (F, S, P) if x]
            legal = self.allowed(r, key)
            strangers = [x for x in parts if not set(x) & legal]
            if r.kind == "post":
                self.flag("wrong-result", f"{r.label()}: page shows {desc}")
            if strangers:
                self.flag("foreign", f"{r.label()}: page shows {desc}")
            if len(parts) < 3:
                what = [n for n, x in (("inputs", F), ("planes", S), ("drawing", P)) if not x]
                self.flag(
                    self.unknown(r), f"{r.label()}: {', '.join(what)} shown match no submission ({desc})"
                    + (self.why_plot(p, S, F) if not P else "") + (self.why_fields(p, S, P) if not F else "")
                )
            else:
                self.flag("mixture", f"{r.label()}: page shows {desc}")
            return None
        self.check_lines(r, p["search"])
        if r.kind == "post" and r.arg not in both:
            self.flag("wrong-result", f"{r.label()}: page shows {desc}")
        if not set(both) & self.allowed(r, key):
            self.flag("foreign", f"{r.label()}: page shows {desc}")
        if r.kind == "bad":
            return None
        return both

    def unknown(self, r):
        return "wrong-result" if r.kind == "post" else "unknown"

    def allowed(self, r, key):
        out = {DEFAULT} | self.submitted.get(key, set())
        if r.kind == "post":
            out.add(r.arg)
        return out

    def names(self, xs):
        return "/".join(str(x) for x in sorted(xs, key=str)) or "nothing known"

    def by_fields(self, got):
        out = []
        for e in self.want:
            f = self.fields_of(e)
            for k, v in f.items():
                if k.endswith("-id"):
                    continue
                if k not in got or not same_value(got[k].strip(), v.strip()):
                    break
            else:
                # no tick and no row the user did not send
                for k in got:
                    if k in f or not (k.endswith("dynamic_offset") or "-consider_" in k or k.endswith("TOTAL_FORMS")):
                        continue
                    break
                else:
                    out.append(e)
        return out

    def fields_of(self, e):
        if e == DEFAULT:
            f = {k: v for k, v in websim.fresh_form().items() if k.startswith(("slope", "watertable", "limits"))}
            for k in ("material", "udl", "lineload"):
                f[f"{k}-TOTAL_FORMS"] = "1"
            f["material-0-name"] = ""
            f["material-0-unit_weight"] = "20"
            f["udl-0-magnitude"] = "0"
            return f
        return {
            k: v for k, v in self.forms[e].items()
            if k != "Analyse" and not k.endswith("_FORMS") or k.endswith("TOTAL_FORMS")
        }

    def by_plot(self, fig):
        out = []
        if not isinstance(fig, dict):
            return out
        text = fig_text(fig)
        for e, w in self.want.items():
            tag = self.tag(e)
            if tag and tag not in text:
                continue
            if fig_diff(strip_layout(fig), strip_layout(w["plot"])) is None:
                out.append(e)
        return out

    def tag(self, e):
        if e == DEFAULT:
            return None
        for k, v in self.forms[e].items():
            if v.startswith("Qz") and k.endswith("-name"):
                return v.split("x")[0] + "x"

    def why_plot(self, p, S, F):
        for e in list(S) + list(F):
            if isinstance(p["plot"], dict):
                return f"; against the drawing of {e}: {fig_diff(strip_layout(p['plot']), strip_layout(self.want[e]['plot']))}"
        return ""

    def why_fields(self, p, S, P):
        for e in list(S) + list(P):
            for k, v in self.fields_of(e).items():
                g = p["fields"].get(k)
                if g is None or not same_value(g.strip(), v.strip()):
                    return f"; field {k}: {g!r}, {v!r} expected for {e}"
        return ""

    def check_lines(self, r, search):
        """the coordinates sent for drawing a plane follow its circle"""
        for s in search[:3] + search[-1:]:
            if "x" not in s or "y" not in s:
                continue
            self.rec.count("check:plane_lines")
            msg = arc_problem(s, s["x"], s["y"])
            if msg:
                self.flag("wrong-result" if r.kind == "post" else "unknown", f"{r.label()}: plane with FOS {s['FOS']}: {msg}")
                return

    # -- what a PDF shows -------------------------------------------------------
    def judge_pdf(self, r, key, body, ctype):
        self.rec.count("check:pdfs")
        if r.kind != "pdf":
            self.flag("wrong-result", f"{r.label()} answered with {ctype}")
            return None
        exp = self.exported.get(body)
        if exp is None:
            self.flag("wrong-pdf", f"{r.label()}: body is not what the exporter produced")
            return None
        if "pdf" not in ctype or exp["fmt"] != "pdf":
            self.flag("wrong-pdf", f"{r.label()}: {ctype} from format {exp['fmt']}")
        fig = exp["fig"]
        mx = float(r.arg)
        best, fit = None, []
        for e, w in self.want.items():
            tag = self.tag(e)
            if tag and tag not in fig_text(fig):
                continue
            msg = self.pdf_problem(fig, w, mx)
            if msg is None:
                fit.append(e)
            elif tag or best is None:
                best = (e, msg)
        if fit:
            if not set(fit) & self.allowed(r, key):
                self.flag("foreign", f"{r.label()}: the PDF is that of {self.names(fit)}")
            return fit
        e, msg = best or ("?", "drawing of no submission")
        if e != "?" and e not in self.allowed(r, key):
            self.flag("foreign", f"{r.label()}: the PDF holds data of {e}")
        self.flag("wrong-pdf", f"{r.label()}: nearest is {e}: {msg}")
        return None

    def pdf_problem(self, fig, want, mx):
        base = strip_layout(want["plot"])
        n = len(base["data"])
        got = strip_layout(fig)
        d = fig_diff({"data": got["data"][:n], "layout": got["layout"]}, base)
        if d:
            return d
        planes = [p for p in want["search"] if p["FOS"] < mx]
        lines = list(got["data"][n:])
        if len(lines) != len(planes):
            return f"{len(lines)} planes drawn, {len(planes)} have a factor below {mx}"
        for p, t in zip(planes, reversed(lines)):
            meta = t.get("meta")
            if not meta or not close(float(meta[0] if isinstance(meta, (list, tuple)) else meta), round(p["FOS"], 3), 1e-9):
                return f"plane labelled {meta}, expected {round(p['FOS'], 3)}"
            m = arc_problem(p, t["x"], t["y"])
            if m:
                return f"plane {p['FOS']}: {m}"
        for a, b in zip(lines, lines[1:]):
            pass
        return None


def arc_problem(p, x, y):
    if len(x) != len(y) or len(x) < 2:
        return f"{len(x)} x and {len(y)} y"
    if not (close(x[0], p["l_c"][0]) and close(y[0], p["l_c"][1])):
        return f"starts at {x[0]},{y[0]} and not at {p['l_c']}"
    if not (close(x[-1], p["r_c"][0]) and close(y[-1], p["r_c"][1])):
        return f"ends at {x[-1]},{y[-1]} and not at {p['r_c']}"
    cx, cy, rad = p["c_x"], p["c_y"], p["radius"]
    for a, b in zip(x[1:-1], y[1:-1]):
        if abs((a - cx) ** 2 + (b - cy) ** 2 - rad * rad) > 0.004 * rad + 1e-5 or b > cy + 0.01:
            return f"point {a},{b} is not on the circle"
        if a < x[0] - 0.01 or a > x[-1] + 0.01:
            return f"point {a},{b} lies outside the plane"
    for (a, b), (c, d) in zip(zip(x, y), zip(x[1:], y[1:])):
        if c < a - 1e-9:
            return "points out of order"
        if (c - a) ** 2 + (d - b) ** 2 > (0.15 * rad + 0.02) ** 2:
            return f"gap between {a},{b} and {c},{d}"
    return None


# --------------------------------------------------------------------------
# plans

FINAL = ["get"]
FINAL_FULL = ["get", "post", "get", "pdf", "reset", "get"]
MAXES = ["0.1", "0.9", "1", "1", "1.2", "1.2", "1.3", "1.5", "1.5", "2", "2.0", "5"]


def strip_anchors(plan):
    for i, s in enumerate(plan["steps"]):
        if s[0] == "req" and (s[5] or s[6]):
            for k in range(len(s[5])):
                q = dict(plan, steps=list(plan["steps"]))
                q["steps"][i] = s[:5] + [s[5][:k] + s[5][k + 1 :]] + s[6:]
                yield q
            for k in range(len(s[6])):
                q = dict(plan, steps=list(plan["steps"]))
                q["steps"][i] = s[:6] + [s[6][:k] + s[6][k + 1 :]] + s[7:]
                yield q


def simpler(plan):
    if plan["workers"] > 1:
        yield dict(plan, workers=plan["workers"] - 1)
    if plan["mode"] != "sync":
        yield dict(plan, mode="sync")
    if len(plan["final"]) > 1:
        for k in range(len(plan["final"])):
            yield dict(plan, final=plan["final"][:k] + plan["final"][k + 1 :])


class WebSpec(Spec):
    reducers = [drop_chunks("steps"), strip_anchors, simpler, drop_chunks("steps")]
    runs = {"quick": 190, "thorough": 3000}
    timeout = 90
    entries = {"quick": 48, "thorough": 160}
    real = [
        "slope.views", "slope.forms", "slope.models", "slope.urls", "templates", "engineering.settings",
        "pyslope", "Django request handling, middleware, sessions, CSRF, forms, ORM", "sqlite", "plotly figure objects",
    ]
    stubs = [
        "HTTP server and network (requests handed to the WSGI application)", "browsers (cookies, redirects, forms)",
        "server processes (own copy of the application's modules each; a crash abandons threads and uncommitted work)",
        "server threads (real threads, one runs at a time)", "PDF exporter (records the figure)", "clock", "os.urandom",
    ]
    assumptions = [
        "a crash loses all memory of the worker and uncommitted database work; sqlite keeps committed transactions",
        "models and settings are shared by the simulated workers (Django registers them once per process)",
        "line pre-emption at the first and at planned later visits of a line of application code, not inside an open transaction",
    ]
    weights = {}
    raises = set()

    def prepare(self, tier):
        websim.prepare()
        self.tier = tier

    def plans(self, tier, seed):
        valid, refused = websim.catalogue(seed, self.entries[tier])
        for i in range(self.runs[tier]):
            rng = rng_for(self.prop, seed, i)
            plan = self.make(rng, i, valid, refused)
            plan["run"] = i
            yield plan

    def execute(self, plan, rec):
        plan = copy.deepcopy(plan)
        plan["forms"] = {int(k): v for k, v in plan["forms"].items()}
        run = WebRun(plan, rec, self.raises)
        run.go(run.script)
        rec.count("steps_total", len(plan["steps"]))

    def size(self, plan):
        return {
            "steps": len(plan["steps"]),
            "anchors": sum(len(s[5]) for s in plan["steps"] if s[0] == "req"),
            "final": len(plan["final"]),
        }

    def sample(self, plan):
        return {k: plan[k] for k in ("run", "workers", "mode", "browsers", "steps", "final")}

    # -- building blocks
    opt = dict(browsers=[2, 3], overlap=0.5, crash=0.0, fault=0.0, lost=0.0, clock=0.0, cookies=0.0, restart=0.05, scene=0.25, same=0.3, duel=0.3,
               length=[4, 9], kinds=[("post", 5), ("get", 5), ("pdf", 3), ("reset", 1), ("bad", 1)])

    def anchors(self, rng, kind, yields, crash, fault):
        out = []

        def where():
            big = {"get": (860, rng.choice([39, 62])), "post": (1200, 122), "bad": (40, 34), "pdf": (50, 44), "reset": (5, 5)}[kind]
            x = rng.random() * (0.8 if yields > 3 else 1)
            if x < 0.45:
                a = ["vline", rng.randrange(1, big[1])]
            elif x < 0.7:
                a = ["line", rng.randrange(1, big[0])]
            elif x < 0.85:
                a = ["stmt", rng.randrange(1, 7)]
            elif x < 0.92:
                a = ["end", 1]
            else:
                a = ["commit", 1]
            if kind == "pdf" and rng.random() < 0.3:
                a = ["export", 1]
            return a

        for _ in range(yields):
            a = where()
            out.append(a + ["yield"] + ([rng.choice([1, 2, 3, 10, 40])] if a[0].endswith("line") and rng.random() < 0.35 else []))
        if rng.random() < crash:
            a = where() if rng.random() < 0.6 else [rng.choice(["commit", "committed", "end"]), 1]
            out.append(a + ["crash"])
        if rng.random() < fault:
            x = rng.random()
            if kind == "pdf" and x < 0.4:
                out.append(["export", 1, rng.choice(["export_error", "export_disk", "mem"])])
            elif x < 0.5:
                out.append(["stmt", rng.randrange(1, 7), rng.choice(["db_locked", "db_io", "db_full"])])
            elif x < 0.65:
                out.append(["commit", 1, "commit_fail"])
            elif x < 0.75:
                out.append(["committed", 1, "commit_lost"])
            else:
                a = where()
                if a[0] in ("commit", "end"):
                    a = ["vline", rng.randrange(1, 60)]
                out.append(a + ["mem"])
        return out

    def make(self, rng, i, valid, refused):
        o = self.opt
        nb = rng.choice(o["browsers"])
        nw = rng.choice([1, 2, 2, 3])
        per = rng.choice([2, 3, 4])
        pick = rng.sample(range(len(valid)), min(len(valid), nb * per))
        while valid and len(pick) < nb * per:
            pick.append(rng.randrange(len(valid)))
        forms, own = {}, []
        for b in range(nb):
            own.append([])
            for e in pick[b * per : (b + 1) * per]:
                f, g = valid[e]
                forms[e] = f
                own[b].append(e)
                if g is not None and rng.random() < 0.5:
                    forms[500 + e] = g
                    own[b].append(500 + e)
        for b in range(nb):
            # someone else's submission can be almost the same, too
            mine = [e for e in own[b] if e >= 500]
            if mine and nb > 1 and rng.random() < 0.3:
                e = rng.choice(mine)
                own[b].remove(e)
                own[(b + 1) % nb].append(e)
        bad = {}
        for k in rng.sample(range(len(refused)), min(3, len(refused))):
            bad[1000 + k] = refused[k]
        forms.update(bad)
        plan = {
            "workers": nw, "mode": rng.choice(["sync", "gthread", "perreq"]),
            "conn_age": rng.choice([0, 600]), "browsers": nb, "own": own, "forms": forms,
            "entropy": rng.randrange(10**6), "final": ["pdf:" + rng.choice(MAXES) if x == "pdf" else x for x in o.get("final", FINAL)],
            # users whose page was opened before this history began
            "opened": [b for b in range(nb) if rng.random() < 0.6],
        }
        steps = []
        kinds = [k for k, n in o["kinds"] for _ in range(n)]
        n = rng.randrange(*o["length"])
        open_ = 0
        duel = rng.random() < o["duel"]
        if duel:
            n = rng.choice([1, 2, 2])
        budget = 12 * DAY
        for j in range(n):
            x = rng.random()
            if open_ and x < 0.3 and not duel:
                steps.append(["go", rng.randrange(4)])
                continue
            if x < 0.3 + o["restart"] and x >= 0.3:
                steps.append(["restart", rng.randrange(3)])
                continue
            if rng.random() < o["crash"] * 0.3:
                steps.append(["crash", rng.randrange(3)])
            if rng.random() < o["clock"]:
                y = rng.random()
                if y < 0.25:
                    steps.append(["clock", 15 * DAY + rng.randrange(100000)])
                    if rng.random() < 0.6:
                        steps.append(["clear"])
                elif y < 0.4:
                    steps.append(["clock", -rng.choice([5, 3600, 40000])])
                else:
                    d = rng.choice([600, 3600, 5 * 3600, 30 * 3600, 4 * DAY])
                    if budget > d:
                        budget -= d
                        steps.append(["clock", d])
                if rng.random() < 0.2:
                    steps.append(["clear"])
            if rng.random() < o["cookies"]:
                b = rng.randrange(nb)
                if rng.random() < 0.35:
                    steps.append(["forget", b])
                else:
                    steps.append(["forge", b, rng.choice(["a" * 32, "zz0zz0zz0zz0zz0zz0zz0zz0zz0zz0zz", "0", "None", "x" * 300, "..-/%00", "''"])])
            b = rng.randrange(nb)
            if duel or rng.random() < o["scene"]:
                steps += self.scene(rng, b, nb, own, bad)
                continue
            kind = rng.choice(kinds)
            steps.append(self.req(rng, b, kind, own, bad))
            if steps[-1][5]:
                open_ = 1
            if steps[-1][2] in ("post", "reset") and rng.random() < 0.3:
                # the same user looks again
                steps.append(self.req(rng, b, rng.choice(["get", "get", "pdf"]), own, bad, calm=True))
        plan["steps"] = steps
        self.adjust(rng, plan)
        return plan

    def scene(self, rng, b, nb, own, bad):
        """two requests, the second overtaking the first, then a look"""
        c = b if nb == 1 or rng.random() < self.opt["same"] else (b + 1) % nb
        w = rng.randrange(6)

        def kind():
            return rng.choice(["post", "post", "post", "post", "get", "get", "pdf", "pdf", "reset"])

        out = []
        if rng.random() < self.opt.get("after", 0):
            # a fault strikes a request, then the same worker is asked again, twice
            k = rng.choice(["post", "get", "pdf", "pdf"])
            out.append(self.req(rng, b, "post", own, bad, calm=True))
            for j in range(3):
                out.append(self.req(rng, b if j < 2 or nb == 1 else c, k, own, bad, calm=True))
            out[1][5] = [a for a in self.anchors(rng, k, 0, 0, 1.0)]
            for q in out:
                q[4] = w
            return out
        twins = [e for e in own[b] if e >= 500 and e - 500 in own[b]]
        if rng.random() < 0.6:
            out.append(self.req(rng, b, "post", own, bad, calm=True))
            if twins and rng.random() < 0.7:
                e = rng.choice(twins)
                out[-1][3] = rng.choice([e, e - 500])
                out.append(self.req(rng, b, "post", own, bad, calm=True))
                out[-1][3] = 2 * e - 500 - out[-2][3]
                if rng.random() < 0.5:
                    return out + [self.req(rng, b, rng.choice(["get", "pdf"]), own, bad, calm=True)]
        first = self.req(rng, b, kind(), own, bad, force=True)
        first[4] = w
        out.append(first)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            out.append(["go", 0])
        for _ in range(rng.choice([1, 1, 2])):
            out.append(self.req(rng, c, kind(), own, bad, calm=rng.random() < 0.6))
            out[-1][4] = w if rng.random() < 0.75 else rng.randrange(6)
            for _ in range(rng.choice([0, 1, 2, 4])):
                out.append(["go", rng.randrange(2)])
        out += [["go", 0]] * rng.choice([1, 3, 6])
        for x in {b, c}:
            if rng.random() < 0.8:
                out.append(self.req(rng, x, rng.choice(["get", "get", "pdf"]), own, bad, calm=True))
        return out

    def adjust(self, rng, plan):
        pass

    def req(self, rng, b, kind, own, bad, calm=False, force=False):
        o = self.opt
        arg = None
        if kind == "post":
            arg = rng.choice(own[b])
        elif kind == "bad":
            if not bad:
                kind = "get"
            else:
                arg = rng.choice(sorted(bad))
        elif kind == "pdf":
            arg = rng.choice(MAXES)
        y = 0 if calm or not force and rng.random() >= o["overlap"] else rng.choice([4, 5, 6] if force else [1, 1, 2, 3])
        anchors = self.anchors(rng, kind, y, 0 if calm else o["crash"], 0 if calm else o["fault"])
        flags = ["lost"] if rng.random() < o["lost"] else []
        if kind == "post" and o.get("craft") and rng.random() < o["craft"]:
            flags.append(f"craft:{rng.randrange(24)}")
        return ["req", b, kind, arg, rng.randrange(6), anchors, flags, rng.choice([1, 2, 20])]


class C09(WebSpec):
    prop = "C09"
    raises = {"foreign"}
    opt = dict(WebSpec.opt, same=0, duel=0.6, browsers=[2, 2, 3, 3, 4], overlap=0.6, cookies=0.12, lost=0.04, crash=0.03, fault=0.04)
    rule = "a run counts when at least two browsers' requests overlapped in time or one followed another's on the same worker after a submission; distinct by event-log hash"
    required_probes = []

    def nontrivial(self, out):
        return out["stats"].get("op:post", 0) > 0 and out["stats"].get("yields", 0) > 0


class C10(WebSpec):
    prop = "C10"
    raises = {"lost", "unknown", "mixture"}
    opt = dict(WebSpec.opt, same=0.9, duel=0.4, browsers=[1, 2, 2], overlap=0.35, crash=0.15, fault=0.12, lost=0.08, clock=0.12, restart=0.12,
               length=[4, 10], kinds=[("post", 5), ("get", 5), ("pdf", 3), ("reset", 1), ("bad", 1)])
    rule = "a run counts when a submission was answered and a crash, restart, fault or clock jump came before a later look at it; distinct by event-log hash"

    def nontrivial(self, out):
        s = out["stats"]
        return s.get("op:post", 0) > 0 and (s.get("worker_restarts", 0) > 0 or any(k.startswith("fault:") for k in s))


class C11(WebSpec):
    prop = "C11"
    raises = {"mixture", "unknown"}
    opt = dict(WebSpec.opt, same=0.9, duel=0.6, browsers=[1, 1, 2], overlap=0.7, crash=0.12, fault=0.15, lost=0.03,
               length=[4, 10], kinds=[("post", 6), ("get", 5), ("pdf", 2), ("reset", 2), ("bad", 1)])
    rule = "a run counts when requests of one session overlapped, or a fault or crash struck inside one; distinct by event-log hash"

    def nontrivial(self, out):
        s = out["stats"]
        return s.get("yields", 0) > 0 or any(k.startswith("fault:") for k in s)


class C12(WebSpec):
    prop = "C12"
    runs = {"quick": 150, "thorough": 2500}
    raises = {"wrong-result", "server-error"}
    opt = dict(WebSpec.opt, same=0.2, craft=0.1, browsers=[1, 2], overlap=0.3, length=[6, 11], fault=0.03,
               kinds=[("post", 10), ("get", 2), ("pdf", 1), ("reset", 1), ("bad", 4)])
    rule = "a run counts when at least two submissions were answered; distinct by event-log hash"

    def nontrivial(self, out):
        return out["stats"].get("op:post", 0) + out["stats"].get("op:bad", 0) > 1


class C13(WebSpec):
    prop = "C13"
    raises = {"wrong-pdf", "foreign", "server-error"}
    opt = dict(WebSpec.opt, browsers=[1, 2, 2], overlap=0.4, after=0.2, fault=0.2, crash=0.05, lost=0.03, cookies=0.08, clock=0.04,
               length=[4, 10], kinds=[("post", 4), ("get", 2), ("pdf", 9), ("reset", 1), ("bad", 1)])
    rule = "a run counts when a PDF was asked for and answered; distinct by event-log hash"

    def nontrivial(self, out):
        return out["stats"].get("check:pdfs", 0) > 0


class C14(WebSpec):
    prop = "C14"
    runs = {"quick": 150, "thorough": 2500}
    raises = {"server-error", "final-wrong"}
    opt = dict(WebSpec.opt, browsers=[1, 2, 2], overlap=0.4, after=0.4, crash=0.15, fault=0.3, lost=0.1, cookies=0.08, clock=0.1,
               restart=0.08, length=[4, 9], final=FINAL_FULL)
    rule = "a run counts when a fault fired before the fault-free phase; distinct by event-log hash"

    def nontrivial(self, out):
        return any(k.startswith("fault:") for k in out["stats"])


class C20(WebSpec):
    prop = "C20"
    runs = {"quick": 120, "thorough": 2000}
    raises = {"stored-changed", "stored-shown"}
    opt = dict(WebSpec.opt, craft=0.6, browsers=[1, 2, 2], overlap=0.25, fault=0.08, crash=0.05, length=[5, 10],
               kinds=[("post", 9), ("get", 3), ("pdf", 1), ("reset", 1), ("bad", 3)])
    rule = "a run counts when a submission referring to stored rows was answered and the tables were compared afterwards; distinct by event-log hash"
    required_probes = []

    def nontrivial(self, out):
        return out["stats"].get("crafted_submissions", 0) > 0 and out["stats"].get("check:stored_rows", 0) > 0


SPECS = {c.prop: c for c in (C09, C10, C11, C12, C13, C14, C20)}
