"""Properties C17 and C18: the page in the user's browser.

The application answers through the web simulator (one worker); the page it
sends is parsed and its own scripts run, in node, in a simulated document with
simulated timers, driven by a planned history of user events.
"""
import copy
import json
import os
import re
import select
import shutil
import subprocess
import time

import websim
from core import REPO, Inconclusive, SimBug, Spec, Violation, drop_chunks, real_perf, rng_for
from props_web import close, num, same_value
from seams import CLOCK
from websim import Browser, Req, Sim, environ, set_cookie

HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = {
    "Materials": ("material", ["unit_weight", "friction_angle", "cohesion", "depth_to_bottom", "name", "color"]),
    "Udls": ("udl", ["magnitude", "offset", "length", "color", "dynamic_offset"]),
    "LineLoads": ("lineload", ["magnitude", "offset", "color", "dynamic_offset"]),
}
SLIDER = "options-max_display_FOS"
TOKEN = "csrfmiddlewaretoken"


class Node:
    """the browser's document, in a node process that only computes"""

    def __init__(self):
        exe = shutil.which("node") or "/usr/bin/node"
        self.p = subprocess.Popen(
            [exe, os.path.join(HERE, "page.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0,
            env={"PATH": "/usr/bin:/bin"}, cwd="/",
        )
        self.buf = b""

    def __call__(self, **cmd):
        self.p.stdin.write(json.dumps(cmd).encode() + b"\n")
        end = real_perf() + 60
        while b"\n" not in self.buf:
            left = end - real_perf()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                raise Violation("page-hangs", f"the page's scripts do not come to an end after {cmd['do']}")
            chunk = os.read(self.p.stdout.fileno(), 1 << 20)
            if not chunk:
                raise SimBug("the document process died")
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        out = json.loads(line)
        if "bug" in out:
            raise SimBug("page.js: " + out["bug"])
        return out

    def close(self):
        self.p.kill()
        self.p.wait()


def decode(pairs, seen):
    """rows as Django reads them from the submitted data; problems found"""
    d, msg = {}, None
    for k, v in pairs:
        if k in d and k != TOKEN:
            msg = msg or f"{k} is sent twice"
        d[k] = v
    out = {}
    for kind, (prefix, cols) in KINDS.items():
        try:
            n = int(d.get(prefix + "-TOTAL_FORMS", ""))
        except ValueError:
            return d, out, f"{prefix}-TOTAL_FORMS is {d.get(prefix + '-TOTAL_FORMS')!r}"
        out[kind] = [[d.get(f"{prefix}-{i}-{c}", "") for c in cols] for i in range(n)]
        for k in d:
            m = re.fullmatch(re.escape(prefix) + r"-(.*?)-(\w+)", k)
            if m and not (m[1].isdigit() and int(m[1]) < n) and m[2] in cols:
                msg = msg or f"{k} lies outside the {n} rows announced"
    return d, out, msg


class PageRun(Sim):
    def __init__(self, plan, rec, raises):
        super().__init__(dict(plan, forms={}, mode="sync", workers=1), rec)
        self.raises = raises
        self.browser = Browser(0)
        self.flags = []
        self.last = None
        self.page = None  # what the server sent
        self.edited = False

    def flag(self, cls, msg):
        self.rec.ev("!", cls, msg)
        self.rec.count("flag:" + cls)
        errs = (self.st or {}).get("errors") or []
        if errs:
            msg += f" (script error: {errs[-1][:200]})"
        self.flags.append((cls, msg))

    def raise_flags(self):
        if self.st and self.st["unsim"]:
            raise Inconclusive("not simulated: " + self.st["unsim"][0])
        for cls, msg in self.flags:
            if cls in self.raises:
                raise Violation(cls, msg)
        self.flags = []

    # -- the network ----------------------------------------------------------
    def finished(self, r):
        self.last = r

    def hung(self, r):
        pass

    def fetch(self, method, path, data=None, anchors=(), flags=()):
        """one navigation, redirects included: (status, type, body) or None"""
        redirected = False
        for _ in range(6):
            u = path or "/"
            kind = "post" if method == "POST" else "pdf" if "/pdf/" in "/" + u.lstrip("/") else "reset" if u.endswith("reset") else "get"
            r = Req(self, 0, kind, None, anchors, flags)
            r.key = self.browser.cookies().get("sessionid")
            r.environ = environ(method, "/" + u.lstrip("/"), self.browser.cookies(), data)
            self.begin(r, 0)
            self.drain()
            resp = r.resp
            CLOCK.advance(1)
            if resp is None or "lost" in r.flags:
                self.rec.count("fault:response_lost")
                self.rec.ev("lost", kind)
                return None
            self.browser.take(resp["headers"])
            h = {k.lower(): v for k, v in resp["headers"]}
            self.rec.ev("answer", kind, resp["status"])
            if resp["status"] in (301, 302):
                method, data, path, anchors, flags = "GET", None, h.get("location", "/"), (), ()
                redirected = True
                continue
            return resp["status"], h.get("content-type", ""), resp["body"], redirected
        raise SimBug("redirects for ever")

    # -- the page --------------------------------------------------------------
    def open(self, answer, sent=None):
        for _ in range(3):
            if answer and answer[0] == 200 and answer[1].startswith("text/html"):
                break
            # an error page or none at all: the user opens the page again
            answer, sent = self.fetch("GET", "/"), None
        else:
            raise Violation("no-page", "the main page cannot be opened")
        html = answer[2].decode()
        self.page = websim.parse_page(answer[2])
        self.colours = {float(k): v for k, v in websim.json_script(html, "COLOUR_FOS_DICT").items()}
        self.edited = False
        self.rec.count("pages")
        out = self.node(
            do="load", html=html, width=self.width, staticUrl="/static/", staticDir=os.path.join(REPO, "static"),
            plotly=self.plan["plotly"], drawn=True,
        )
        self.st = out["state"]
        self.rec.ev("page", len(self.page["search"]), "planes", {k: len(v) for k, v in self.st["rows"].items()}, len(self.st["errors"]), "errors")
        for e in self.st["errors"][:2]:
            self.rec.ev("  script error", e[:160])
        if out["actions"]:
            self.flag("form", f"the page acts by itself: {self.acts(out)}")
        self.look()
        d, rows, _ = decode(self.st["data"], None)
        if sent is not None and not answer[3]:
            self.rec.count("check:submissions_shown")
            for kind in KINDS:
                self.same_rows(rows.get(kind), sent[1][kind], f"{kind} shown after the analysis", "submit")
            for k, v in sent[0].items():
                if k in (TOKEN, "Analyse") or k.split("-")[0] in ("material", "udl", "lineload"):
                    continue
                if not same_value(d.get(k, ""), v):
                    self.flag("submit", f"the page shows {d.get(k)!r} for {k} after {v!r} was submitted")
            self.rec.mark("submission_answered")
        elif sent is not None:
            self.rec.mark("submission_refused")
        self.raise_flags()

    @staticmethod
    def acts(out):
        return [{k: (len(v) if k == "data" else v) for k, v in a.items()} for a in out["actions"]]

    def same_rows(self, got, want, what, cls="form"):
        if got is None or len(got) != len(want):
            self.flag(cls, f"{what}: {None if got is None else len(got)} rows, {len(want)} expected")
            return
        for i, (g, w) in enumerate(zip(got, want)):
            if len(g) != len(w) or any(not same_value(a, b) for a, b in zip(g, w)):
                self.flag(cls, f"{what}: row {i + 1} is {g}, expected {w}")
                return

    def look(self, chart=True):
        """whatever has happened, these hold"""
        st = self.st
        d, rows, msg = decode(st["data"], None)
        self.rec.count("check:form_data")
        if msg:
            self.flag("form", msg)
        for kind in KINDS:
            if kind in rows:
                self.same_rows(rows[kind], st["rows"][kind], f"{kind} that would be submitted, against those on the page")
        self.visible(d)
        self.rec.count("check:slider_texts")
        for name, (v, texts) in st["texts"].items():
            if not any(same_value(t, v) for t in texts):
                msg = f"the text beside slider {name} is {texts}, its value {v}"
                self.flag("form", msg)
                if "max_display" in name:
                    self.flag("chart", msg)
        self.rec.count("check:buttons")
        href = (st["pdf"] or {}).get("href")
        if self.edited:
            if not st["analyse"]:
                self.flag("form", "inputs were changed and Analyse stays disabled")
            if "pdf/" in (href or ""):
                self.flag("stale-pdf", f"inputs were changed and the PDF link still leads to {href}")
        else:
            m = re.fullmatch(r"(?:http://127\.0\.0\.1)?/?pdf/([-\d.e]+)/?", href or "")
            if not m or not same_value(m[1], st["slider"]) or st["pdf"]["off"]:
                self.flag("pdf-link", f"the slider is at {st['slider']}, the PDF link {st['pdf']}")
        if chart and self.plan["plotly"]:
            self.chart()

    def visible(self, d):
        self.rec.count("check:visibility")
        v = self.st["visible"]
        length = d.get("options-slope_choice") == "length"
        want = {"slope-height": True, "slope-length": length, "slope-angle": not length,
                "watertable-water_depth": "watertable-consider_water" in d}
        lim = "limits-consider_limits" in d
        for k in ("left_x", "right_x", "consider_internal_limits"):
            want["limits-" + k] = lim
        for k in ("left_x_right", "right_x_left"):
            want["limits-" + k] = lim and "limits-consider_internal_limits" in d
        for k, w in want.items():
            if v.get(k) != w:
                self.flag("form", f"{k} is {'shown' if v.get(k) else 'hidden'} while it is {'used' if w else 'not used'}")
                return

    # -- the chart -------------------------------------------------------------
    def chart(self):
        st = self.st
        self.rec.count("check:charts")
        drawn = st.get("drawn")
        if drawn is None:
            self.flag("chart", f"nothing is drawn in a window {self.width} wide")
            return
        base = self.page["plot"]["data"]
        mx = float(st["slider"])
        planes = [p for p in self.page["search"] if p["FOS"] < mx]
        if drawn[: len(base)] != base:
            self.flag("chart", "the slope is not drawn as the server sent it")
            return
        lines = drawn[len(base) :]
        if len(lines) != len(planes):
            self.flag("chart", f"slider at {st['slider']}: {len(lines)} planes drawn, {len(planes)} of {len(self.page['search'])} have a lower factor")
            return
        where = {}
        for p in planes:
            where.setdefault((tuple(p["x"]), tuple(p["y"])), []).append(p["FOS"])
        last = None
        for t in lines:
            fos = where.get((tuple(t.get("x") or ()), tuple(t.get("y") or ())))
            if not fos:
                self.flag("chart", "a line is drawn that is no plane below the slider, or twice")
                return
            fos = fos.pop()
            if last is not None and fos > last + 1e-9:
                self.flag("chart", f"plane {last} is covered by plane {fos}")
                return
            last = fos
            label = next((num(x) for x in self.labels(t) if num(x) is not None), None)
            if label is None or abs(label - fos) > 0.0005 + 1e-9:
                self.flag("chart", f"plane with factor {fos} is labelled {label}")
                return
            col = (t.get("line") or {}).get("color") or (t.get("marker") or {}).get("color")
            x = min(fos, max(self.colours))
            near = {v for k, v in self.colours.items() if abs(k - x) <= 0.05 + 1e-9}
            if col not in near:
                self.flag("chart", f"plane with factor {fos} has colour {col}, the legend has {sorted(near)}")
                return
        if planes:
            self.rec.mark("planes_drawn")
        if self.width < 900:
            self.rec.mark("small_window")
            self.soils()

    @staticmethod
    def labels(t):
        for k in ("hovertemplate", "meta", "text", "hovertext", "name"):
            v = t.get(k)
            yield from v if isinstance(v, list) else [v]

    def soils(self):
        """the small window lists the soils beside the chart"""
        self.rec.count("check:soil_tables")
        want = [
            [t["meta"][3] or "", t["fillcolor"]] + [float(x) for x in (t["meta"][0], t["meta"][1], t["meta"][2])]
            for t in self.page["plot"]["data"] if t.get("fill") == "toself" and isinstance(t.get("meta"), list) and len(t["meta"]) == 4
        ]
        got = []
        for tds in self.st["soil"]:
            if len(tds) != 5:
                return self.flag("legend", f"soil table row {tds}")
            (name, _), (_, col), (w, _), (c, _), (f, _) = tds
            got.append([name, col] + [num(x) for x in (w, c, f)])
        key = lambda r: json.dumps(r)  # noqa: E731
        if sorted(got, key=key) != sorted(want, key=key):
            self.flag("legend", f"the small window lists soils {got}, analysed were {want}")
        if not self.st["mobile"]:
            self.flag("legend", "the small window hides its legend")

    # -- the user ----------------------------------------------------------------
    def script(self, _):
        self.node = Node()
        self.width = self.plan["width"]
        self.st = None
        try:
            self.open(self.fetch("GET", "/"))
            for s in self.plan["steps"]:
                self.step(s)
                self.raise_flags()
        finally:
            self.node.close()
        self.rec.count("steps_total", len(self.plan["steps"]))

    def do(self, chart=False, **cmd):
        out = self.node(drawn=chart, **cmd)
        if "none" in out:
            self.rec.ev("nothing to", cmd)
            return None
        self.before, self.st = self.st, out["state"]
        self.out = out
        return out

    def quiet(self, what):
        if self.out["actions"]:
            self.flag("form", f"{what} makes the browser leave the page: {self.acts(self.out)}")

    def fields(self, st):
        return {k: v for k, v in st["data"] if k != TOKEN and k.split("-")[0] not in ("material", "udl", "lineload")}

    def unchanged(self, what, names=(), kinds=()):
        a, b = self.fields(self.before), self.fields(self.st)
        for k in sorted(set(a) | set(b)):
            if k not in names and a.get(k) != b.get(k):
                self.flag("form", f"{what} changes {k} from {a.get(k)!r} to {b.get(k)!r}")
        for kind in KINDS:
            if kind not in kinds:
                self.same_rows(self.st["rows"][kind], self.before["rows"][kind], f"{kind} after {what}")

    def step(self, s):
        k = s[0]
        self.rec.ev("user", *s)
        self.rec.count("op:user_" + k)
        if k == "set" or k == "tick":
            name = s[1]
            have = dict(self.fields(self.st))
            v = s[2] if k == "set" else name not in have
            if k == "set" and have.get(name) == v or not self.st["visible"].get(name, True):
                return
            if not self.do(do="set", name=name, value=v):
                return
            self.edited = True
            now = self.fields(self.st)
            if (now.get(name) != v) if k == "set" else ((name in now) != v):
                self.flag("form", f"{name} set to {v!r} would be submitted as {now.get(name)!r}")
            self.quiet("editing " + name)
            self.unchanged("editing " + name, names=(name,))
            self.look(False)
        elif k == "row":
            kind, r, col, v = s[1:]
            rows = self.st["rows"][kind]
            if not rows:
                return
            r %= len(rows)
            c = KINDS[kind][1].index(col)
            if col == "dynamic_offset":
                v = rows[r][c] == ""
            elif rows[r][c] == v:
                return
            if not self.do(do="cell", kind=kind, row=r, col=c, value=v):
                return
            self.edited = True
            want = copy.deepcopy(rows)
            want[r][c] = v if col != "dynamic_offset" else "on" if v else ""
            self.quiet("editing a row")
            self.same_rows(self.st["rows"][kind], want, f"{kind} after editing {col} of row {r + 1}")
            self.unchanged("editing a row", kinds=(kind,))
            if r >= len(self.page_rows(kind)):
                self.rec.mark("edited_added_row")
            self.look(False)
        elif k == "add":
            kind = s[1]
            rows = self.st["rows"][kind]
            if not self.do(do="add", kind=kind):
                return
            self.edited = True
            self.quiet("adding a row")
            got = self.st["rows"][kind]
            if len(got) != len(rows) + 1:
                self.flag("form", f"{kind}: {len(rows)} rows before, {len(got)} after a row was added")
            else:
                self.same_rows(got[:-1], rows, f"{kind} after adding a row")
            self.unchanged("adding a row", kinds=(kind,))
            if len(got) > 10:
                self.rec.mark("more_than_ten_rows")
            self.look(False)
        elif k == "del":
            kind, r = s[1:]
            rows = self.st["rows"][kind]
            if not rows:
                return
            r %= len(rows)
            if not self.do(do="delete", kind=kind, row=r):
                return
            self.quiet("deleting a row")
            if len(rows) > 1:
                self.edited = True
                want = rows[:r] + rows[r + 1 :]
            else:
                want = rows  # the last row stays
                self.edited = self.edited or None
            self.same_rows(self.st["rows"][kind], want, f"{kind} after deleting row {r + 1} of {len(rows)}")
            self.unchanged("deleting a row", kinds=(kind,))
            if self.edited is None:
                self.edited = self.st["analyse"]
            self.look(False)
        elif k == "drag":
            name, values = s[1:]
            old = dict(self.fields(self.st)).get(name)
            if not self.do(name == SLIDER, do="drag", name=name, values=values):
                return
            self.quiet("moving a slider")
            self.unchanged("moving a slider", names=(name,))
            now = self.fields(self.st).get(name)
            if not same_value(now or "", values[-1]):
                self.flag("form", f"slider {name} moved to {values[-1]} would be submitted as {now}")
            if name != SLIDER:
                if old != now:
                    self.edited = True
                elif not self.edited:
                    self.edited = self.st["analyse"]
            self.look(name == SLIDER)
        elif k == "resize":
            self.width = s[1]
            self.do(True, do="resize", width=s[1])
            self.quiet("resizing the window")
            self.unchanged("resizing the window")
            self.look()
        elif k == "wait":
            self.do(True, do="wait", ms=s[1])
            self.quiet("waiting")
            self.unchanged("waiting")
            self.look()
        elif k == "reload":
            self.open(self.fetch("GET", "/"))
        elif k == "clear":
            out = self.do(do="click", id="reset_button")
            self.follow(out, "/reset", "Clear")
        elif k == "pdf":
            self.pdf()
        elif k in ("analyse", "enter"):
            self.analyse(s)
        else:
            raise SimBug("step " + k)

    def page_rows(self, kind):
        prefix = KINDS[kind][0]
        return range(int(self.page["fields"].get(prefix + "-TOTAL_FORMS", 0)))

    def follow(self, out, to, what):
        acts = out["actions"] if out else []
        if len(acts) != 1 or acts[0]["do"] != "follow" or acts[0]["to"] != to:
            self.flag("form", f"{what}: the browser does {self.acts(out) if out else 'nothing'}")
            return
        self.open(self.fetch("GET", to))

    def pdf(self):
        chart = self.plan["plotly"]
        off = self.st["pdf"]["off"] or not self.st["pdf"]["href"]
        if off:
            return  # the browser does not let the user click it
        out = self.do(True, do="click", id="pdf_button")
        acts = out["actions"] if out else []
        if len(acts) != 1 or acts[0]["do"] != "follow":
            self.flag("pdf-link", f"PDF: the browser does {self.acts(out) if out else 'nothing'}")
            return
        ans = self.fetch("GET", acts[0]["to"])
        if ans is None or ans[0] != 200 or "pdf" not in ans[1]:
            self.flag("pdf-link", f"PDF at {acts[0]['to']} answered {ans and ans[:2]}")
            return
        exp = self.exported.get(ans[2])
        if exp is None or not chart:
            return
        self.rec.count("check:pdf_is_chart")
        n = len(self.page["plot"]["data"])
        got = []
        for t in exp["fig"]["data"][n:]:
            got.append(next((round(num(x), 3) for x in self.labels(t) if num(x) is not None), None))
        want = [next((round(num(x), 3) for x in self.labels(t) if num(x) is not None), None) for t in (self.st["drawn"] or [])[n:]]
        if sorted(map(str, got)) != sorted(map(str, want)):
            # labels are rounded on either side
            if len(got) != len(want) or None in got or None in want or any(abs(a - b) > 0.00101 for a, b in zip(sorted(got), sorted(want))):
                self.flag("pdf-link", f"the PDF shows {len(got)} planes, the chart {len(want)}, slider at {self.st['slider']}")

    def analyse(self, s):
        anchors, flags = s[-2], s[-1]
        if not self.st["analyse"]:
            if not self.edited:
                return
        d, _, _ = decode(self.st["data"], None)
        seen = self.st["rows"]
        if s[0] == "enter":
            out = self.do(do="enter", name=s[1])
        else:
            out = self.do(do="click", id="analysis_button")
        acts = out["actions"] if out else []
        if len(acts) == 1 and acts[0]["do"] == "refused":
            self.rec.count("refused_by_browser")
            return
        if len(acts) != 1 or acts[0]["do"] != "submit" or acts[0]["method"] != "post":
            self.flag("form", f"Analyse: the browser does {self.acts(out) if out else 'nothing'}")
            return
        sd, rows, msg = decode(acts[0]["data"], None)
        if msg:
            self.flag("form", msg)
        for kind in KINDS:
            self.same_rows(rows.get(kind), seen[kind], f"{kind} submitted, against those on the page", "submit")
        for k in set(sd) | set(d):
            if k != "Analyse" and sd.get(k) != d.get(k):
                self.flag("submit", f"{k} is submitted as {sd.get(k)!r}, the page had {d.get(k)!r}")
        self.raise_flags()
        ans = self.fetch("POST", acts[0]["to"], [tuple(x) for x in acts[0]["data"]], anchors, flags)
        if ans is not None and ans[0] == 403:
            self.flag("submit", "the submission was refused with 403")
        self.open(ans, (sd, {k: seen[k] for k in KINDS}))


# --------------------------------------------------------------------------


def value(rng, col):
    return {
        "unit_weight": lambda: rng.choice(["16", "18", "19.5", "20", "21", "22"]),
        "friction_angle": lambda: rng.choice(["15", "20", "25", "30", "35", "40"]),
        "cohesion": lambda: rng.choice(["0", "1", "2.5", "5", "8", "12"]),
        "depth_to_bottom": lambda: f"{rng.randrange(4, 90) / 8:g}",
        "name": lambda: rng.choice(["clay", "sand", "Fill 2", "a-b", "x & y", "<b>peat</b>", "udl-0-length", "material-3-", '"q"', "é", ""]),
        "color": lambda: rng.choice(["red", "blue", "", "#aabbcc", "grey", "green"]),
        "magnitude": lambda: rng.choice(["5", "10", "12.5", "20", "40"]),
        "offset": lambda: rng.choice(["0", "0.2", "0.5", "1", "1.7"]),
        "length": lambda: rng.choice(["0.5", "1", "2", "3"]),
        "dynamic_offset": lambda: True,
    }[col]()


def edit(rng, kind=None):
    kind = kind or rng.choice(["Materials", "Materials", "Udls", "LineLoads"])
    col = rng.choice(KINDS[kind][1])
    return ["row", kind, rng.choice([-1, -1, rng.randrange(12), rng.randrange(4)]), col, value(rng, col)]


def scalar(rng):
    x = rng.random()
    if x < 0.35:
        return ["tick", rng.choice(["watertable-consider_water", "limits-consider_limits", "limits-consider_internal_limits"])]
    if x < 0.55:
        return rng.choice([["set", "options-slope_choice", rng.choice(["angle", "length"])],
                           ["set", "options-analysis_choice", rng.choice(["normal", "normal", "dynamic"])]])
    if x < 0.9:
        return ["set"] + rng.choice([
            ["slope-height", rng.choice(["1.5", "2", "2.5", "3.2", "4"])], ["slope-angle", rng.choice(["30", "40", "55", "65"])],
            ["slope-length", rng.choice(["1", "1.5", "2.5", "4"])], ["watertable-water_depth", rng.choice(["0", "0.4", "1.2", "2"])],
            ["limits-left_x", rng.choice(["0", "0.5", "1"])], ["limits-right_x", rng.choice(["6", "9", "12"])],
            ["limits-left_x_right", rng.choice(["3", "4", "5"])], ["limits-right_x_left", rng.choice(["4", "6"])],
        ] + ([["slope-height", ""]] if rng.random() < 0.1 else []))
    name, vals = rng.choice([
        ("options-slices", ["10", "15", "20"]), ("options-iterations", ["500", "750"]),
        ("options-critical_FOS", ["0.8", "1.0", "1.2", "1.5"]),
    ])
    return ["drag", name, [rng.choice(vals) for _ in range(rng.choice([1, 2, 3]))]]


def slide(rng):
    if rng.random() < 0.3:
        vals = [f"{rng.randrange(1, 51) / 10:g}" for _ in range(rng.choice([1, 3]))]
    else:
        vals = [f"{rng.choice([0.1, 0.5, 0.8, 1, 1.1, 1.2, 1.3, 1.5, 1.8, 2, 2.5, 3, 3.5, 5]):g}" for _ in range(rng.choice([1, 2]))]
    return ["drag", SLIDER, vals]


class PageSpec(Spec):
    reducers = [drop_chunks("steps"), drop_chunks("steps")]
    runs = {"quick": 180, "thorough": 6000}
    timeout = 90
    real = [
        "static/slope/*.js", "templates", "slope.views", "slope.forms", "engineering.settings", "pyslope",
        "Django request handling, sessions, CSRF, forms", "sqlite",
    ]
    stubs = [
        "the browser (HTML parser, document, events, form submission, timers and clock in sim/page.js)",
        "Plotly.js (records the traces and layout it is given)", "Bootstrap (not run)", "HTTP server and network", "user", "PDF exporter",
    ]
    assumptions = [
        "the document of sim/page.js behaves as a browser's for what the page's scripts use",
        "a link of class 'disabled' cannot be clicked (Bootstrap)",
        "Plotly.newPlot replaces what was drawn, addTraces appends, update and restyle of an element without a plot fail",
    ]

    def prepare(self, tier):
        websim.prepare()

    def plans(self, tier, seed):
        for i in range(self.runs[tier]):
            rng = rng_for(self.prop, seed, i)
            yield dict(self.make(rng), run=i)

    def base(self, rng):
        return {
            "entropy": rng.randrange(10**6), "conn_age": 0, "width": rng.choice([1400, 1000, 900, 899, 500]) if rng.random() < 0.6 else 1400,
            "plotly": True,
        }

    def net(self, rng):
        x = rng.random()
        if x < 0.06:
            return [[], ["lost"]]
        if x < 0.12:
            return [[["vline", rng.randrange(1, 120), "mem"]], []]
        if x < 0.15:
            return [[["stmt", rng.randrange(1, 7), "db_locked"]], []]
        return [[], []]

    def execute(self, plan, rec):
        run = PageRun(copy.deepcopy(plan), rec, self.raises)
        run.go(run.script)

    def size(self, plan):
        return {"steps": len(plan["steps"])}


class C17(PageSpec):
    prop = "C17"
    raises = {"form", "submit", "page-hangs", "no-page"}
    rule = "a run counts when rows were added or deleted or edited and a submission was answered; distinct by event-log hash"
    required_probes = ["more_than_ten_rows", "edited_added_row", "submission_answered", "submission_refused"]

    def nontrivial(self, out):
        s = out["stats"]
        return s.get("op:user_analyse", 0) + s.get("op:user_enter", 0) > 0 and s.get("op:user_add", 0) + s.get("op:user_del", 0) + s.get("op:user_row", 0) > 0

    def make(self, rng):
        p = self.base(rng)
        x = rng.random()
        if x < 0.08:
            p["plotly"] = False
        steps = []
        fav = rng.choice(["Materials", "Udls", "LineLoads"])
        if rng.random() < 0.4:
            # many rows at once
            for _ in range(rng.choice([3, 9, 10, 11, 13])):
                steps.append(["add", fav])
                if rng.random() < 0.8:
                    c = rng.choice(KINDS[fav][1][:3]) if fav != "Materials" else "depth_to_bottom"
                    steps.append(["row", fav, -1, c, value(rng, c)])
        for _ in range(rng.randrange(6, 22)):
            x = rng.random()
            kind = fav if rng.random() < 0.7 else rng.choice(list(KINDS))
            if x < 0.2:
                steps.append(["add", kind])
                if rng.random() < 0.5:
                    steps.append(edit(rng, kind))
            elif x < 0.36:
                steps.append(["del", kind, rng.choice([0, 0, -1, rng.randrange(14)])])
            elif x < 0.55:
                steps.append(edit(rng, kind))
            elif x < 0.75:
                steps.append(scalar(rng))
            elif x < 0.8:
                steps.append(slide(rng))
            elif x < 0.84:
                steps.append(["resize", rng.choice([1400, 900, 899, 600])])
            elif x < 0.88:
                steps.append(["wait", rng.choice([1, 199, 201, 5000, 10001])])
            elif x < 0.96:
                steps.append((["analyse"] if rng.random() < 0.8 else ["enter", rng.choice(["slope-height", "material-0-cohesion"])]) + self.net(rng))
            elif x < 0.98:
                steps.append(["clear"])
            else:
                steps.append(["reload"])
        steps.append(["analyse", [], []])
        p["steps"] = steps
        return p


class C18(PageSpec):
    prop = "C18"
    raises = {"chart", "stale-pdf", "pdf-link", "legend", "page-hangs"}
    rule = "a run counts when the chart was compared after a slider movement or a resize; distinct by event-log hash"
    required_probes = ["planes_drawn", "small_window", "submission_answered"]

    def nontrivial(self, out):
        s = out["stats"]
        return s.get("check:charts", 0) > 1

    def make(self, rng):
        p = self.base(rng)
        steps = []
        for _ in range(rng.randrange(1, 4)):
            # an analysis, then a look at it
            if rng.random() < 0.75:
                for _ in range(rng.randrange(1, 5)):
                    x = rng.random()
                    if x < 0.25:
                        steps += [["add", rng.choice(["Materials", "Materials", "Udls"])]]
                        steps.append(edit(rng, steps[-1][1]))
                        if steps[-2][1] == "Materials":
                            steps.append(["row", "Materials", -1, "depth_to_bottom", value(rng, "depth_to_bottom")])
                    elif x < 0.5:
                        steps.append(edit(rng))
                    elif x < 0.75:
                        steps.append(["set", "slope-height", rng.choice(["1.5", "2", "2.5", "3.2", "4", "6"])])
                    else:
                        steps.append(scalar(rng))
                    if rng.random() < 0.3:
                        steps.append(rng.choice([slide(rng), ["pdf"], ["resize", rng.choice([1400, 700])]]))
                steps.append(["analyse"] + self.net(rng))
            for _ in range(rng.randrange(2, 8)):
                x = rng.random()
                if x < 0.55:
                    steps.append(slide(rng))
                elif x < 0.7:
                    steps.append(["pdf"])
                elif x < 0.82:
                    steps.append(["resize", rng.choice([1400, 900, 899, 600])])
                elif x < 0.9:
                    steps.append(["wait", rng.choice([1, 201, 10001])])
                elif x < 0.94:
                    steps.append(["del", "Materials", 0])
                else:
                    steps.append(["reload"])
        p["steps"] = steps
        return p


SPECS = {c.prop: c for c in (C17, C18)}
