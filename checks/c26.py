import builtins, contextlib, io, os, re, sys
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.collections import PolyCollection
from vlib import call, fx
from fakes import IPeak, IBase
from diffpy.srmise.applications import plot as tool
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators import AIC
from diffpy.srmise.multimodelselection import MultimodelSelection
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peakstability import PeakStability

U, PU = 1000, 10 ** 5
PEAK, BASE, NOBASE = IPeak(2), IBase(2), IBase(0)


# ------------------------------------------------------------------ projection
def seq(v, scale=U):
    return [fx(t, scale) for t in np.ravel(np.ma.filled(np.ma.asarray(v, dtype=float), np.nan))]


def line(x, y, scale=U):
    return {"x": seq(x), "y": seq(y, scale)}


def pairs(args):
    return [line(args[i], args[i + 1]) for i in range(0, len(args), 2)]


def drawn(ax, scale=U):
    return [line(l.get_xdata(), l.get_ydata(), scale) for l in ax.lines]


def coef(p):
    return [int(v) for v in p.pars] + [0] * (2 - len(p.pars))


def model(mc):
    return {"x": seq(mc.r_cluster), "y": seq(mc.y_cluster), "peaks": [coef(p) for p in mc.model],
            "bl": [0, 0] if mc.baseline is None else coef(mc.baseline)}


def part(x, y, peaks, bl):
    return {"x": seq(x), "y": seq(y), "peaks": [coef(p) for p in peaks], "bl": [0, 0] if bl is None else coef(bl)}


def results(s):
    return [{"e": fx(e, U), "pos": [fx(p["position"], U) for p in r]} for e, r, b, d in s.results]


def snap(o):
    one = lambda ps, b: ([(id(p.owner()), list(p.pars), list(p.free)) for p in ps], None if b is None else (list(b.pars), list(b.free)))
    if isinstance(o, ModelCluster):
        return [one(o.model, o.baseline), list(o.r_cluster), list(o.y_cluster), list(o.error_cluster)]
    if isinstance(o, PeakExtraction):
        return [list(o.x), list(o.y)] + (snap(o.extracted) if o.extracted is not None else [])
    return [(e, one(r, b), d) for e, r, b, d in o.results]


@contextlib.contextmanager
def figures():
    plt.close("all")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        plt.close("all")


@contextlib.contextmanager
def watching(look, frames):
    """Look at the figure whenever it is shown."""
    old, inp = plt.draw, builtins.input

    def draw(*a, **k):
        frames.append(look(plt.gcf()))
        return old(*a, **k)

    plt.draw, builtins.input = draw, lambda *a: ""
    try:
        yield
    finally:
        plt.draw, builtins.input = old, inp


def shown(e, o, f, *a, **k):
    s = snap(o)
    kk, v = call(f, *a, timeout=60, **k)
    e["r"], e["kept"] = ("ok" if kk == "ok" else "%s" % v[0]), s == snap(o)
    return v if kk == "ok" else None


# ------------------------------------------------------------------ histories
def peaks(rng, n):
    p = Peaks([PEAK.actualize([a, rng.randint(-3, 3)], "internal", free=[rng.random() < 0.6, True]) for a in rng.sample(range(-2, 12), n)])
    p.sort(key="position")
    return p


def base(rng, none=0.2):
    if rng.random() < none:
        return None
    return rng.choice([BASE.actualize([rng.randint(-3, 3), rng.randint(-2, 2)], "internal"), NOBASE.actualize([], "internal")])


def grid(rng):
    n = rng.randint(4, 9)
    x0 = rng.choice([0, 1, 1, 3])
    return np.arange(x0, x0 + n, dtype=float), np.array([float(rng.randint(-9, 9)) for _ in range(n)])


def cluster(rng, x, y, none=0.2):
    sl = None
    if rng.random() < 0.6:
        a = rng.randint(0, len(x) - 3)
        sl = slice(a, rng.randint(a + 3, len(x)))
    return ModelCluster(peaks(rng, rng.randint(0, 3)), base(rng, none), x, y, np.ones(len(x)) * rng.choice([1.0, 0.5]), sl, AIC, [PEAK])


def one_cluster(rng):
    x, y = grid(rng)
    mc = cluster(rng, x, y)
    j = rng.random() < 0.4
    e = {"op": "cluster", "m": model(mc), "joined": j}
    v = shown(e, mc, mc.plottable, *([j] if j or rng.random() < 0.5 else []))
    if v is not None:
        e["lines"] = pairs(v)
        k, r = call(mc.plottable_residual)
        e["r"] = "ok" if k == "ok" else r[0]
        e["res"] = line(*r) if k == "ok" else []
    return [e]


def extraction(rng, kind, x, y, none=0.2):
    o = kind()
    o.setdata(x, y)
    kw = {"pf": [PEAK], "error_method": AIC, "effective_dy": rng.choice([0.5, 1.0, 2.0]), "initial_peaks": peaks(rng, rng.randint(0, 3)), "cres": 1.0}
    b = base(rng, none)
    kw["baseline"] = NOBASE.actualize([], "internal") if b is None else b
    if kind is PDFPeakExtraction:
        kw.update(qmax=0.0, nyquist=False, supersample=1.0, scale=False)
    kw["effective_dy"] = kw["effective_dy"] * np.ones(len(x))
    lo = rng.randint(0, len(x) - 3)
    hi = rng.randint(lo + 2, len(x) - 1)
    if rng.random() < 0.5:
        kw["rng"] = [x[lo], x[hi]]
    else:
        lo, hi = 0, len(x) - 1
    o.setvars(quiet=True, **kw)
    return o, (lo, hi + 1)


def present(o, cut):
    """What is there to show: the result, or else the initial peaks over the range."""
    if o.extracted is not None:
        return model(o.extracted)
    return part(o.x[slice(*cut)], o.y[slice(*cut)], o.initial_peaks, o.baseline)


def one_extraction(rng):
    x, y = grid(rng)
    o, cut = extraction(rng, rng.choice([PeakExtraction, PDFPeakExtraction]), x, y)
    ev = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.6:
            o.extracted = cluster(rng, o.x, o.y) if rng.random() < 0.8 else None
        j = rng.random() < 0.4
        e = {"op": "extraction", "m": present(o, cut), "joined": j}
        with figures():
            if rng.random() < 0.3:
                plt.plot([1, 2], [3, 4])
            shown(e, o, o.plot, **({"joined": True} if j else {}))
            if e["r"] == "ok":
                e["lines"] = drawn(plt.gca())
        ev.append(e)
    return ev


def series(rng, kind, none=0.2):
    x, y = grid(rng)
    o, cut = extraction(rng, PDFPeakExtraction, x, y)
    s = kind()
    s.setppe(o)
    pool = [(peaks(rng, rng.randint(0, 3)), base(rng, none)) for _ in range(2)]
    es = sorted(rng.sample([0.5, 1.0, 1.5, 2.0, 3.0, 4.0], rng.randint(1, 4)))
    for e in es:
        p, b = rng.choice(pool) if rng.random() < 0.5 else (peaks(rng, rng.randint(0, 3)), base(rng, none))
        s.results.append([e, p.copy(), None if b is None else b.copy(), 1.0])
    return s, o, cut


def selected(s):
    old = s.current
    out = []
    for i in range(len(s.results)):
        s.setcurrent(i)
        out.append(model(s.ppe.extracted))
    s.setcurrent(old)
    return out


def numbers(t):
    return [fx(v, U) for v in re.findall(r"(?<![\w.])-?\d+(?:\.\d+)?", t)]


def one_series(rng):
    s, o, cut = series(rng, rng.choice([PeakStability, MultimodelSelection]))
    ms = selected(s)
    n = len(ms)
    ev = []
    for _ in range(rng.randint(2, 4)):
        a = rng.random()
        with figures():
            if a < 0.3:
                e = {"op": "series", "results": results(s)}
                shown(e, s, s.plotseries, *rng.choice([[], ["x"]]))
                if e["r"] == "ok":
                    e["dots"] = [[p, q] for l in drawn(plt.gca()) for p, q in zip(l["x"], l["y"])]
            elif a < 0.6:
                i = rng.randrange(n)
                s.setcurrent(i)
                if rng.random() < 0.4 and len(s.ppe.extracted.model):  # later work on the current model
                    s.ppe.extracted.model[0].pars[1] += 1
                    s.ppe.extracted.quality()
                q = s.ppe.extracted.quality()
                e = {"op": "result", "m": model(s.ppe.extracted), "joined": False,
                     "want": [fx(v, U) for v in (i + 1, n, s.results[i][0], len(s.results[i][1]), q.stat, q.chisq)]}
                shown(e, s, s.plot)
                if e["r"] == "ok":
                    e["lines"] = drawn(plt.gca())
                    t = [t.get_text() for t in plt.gcf().texts]
                    e["title"] = numbers(re.sub(r"\[(\d+)/(\d+)\]", r" \1 \2 ", re.sub(r"\.\s", " ", " ".join(t))))
            else:
                s.setcurrent(rng.choice([None] + list(range(n))))
                q = rng.choice([None, [rng.randrange(n) for _ in range(rng.randint(0, 3))]])
                fr = []
                e = {"op": "animate", "before": -1 if s.current is None else s.current, "asked": [i + 1 for i in (range(n) if q is None else q)], "models": ms}
                with watching(lambda fig: drawn(fig.gca()), fr):
                    shown(e, s, s.animate, *([] if q is None and rng.random() < 0.5 else [q]), **({"step": True} if rng.random() < 0.3 else {}))
                e.update(frames=fr, after=-1 if s.current is None else s.current)
                if (s.ppe.extracted is None) != (s.current is None) or s.current is not None and model(s.ppe.extracted) != ms[s.current]:
                    e["after"] = -2
        ev.append(e)
    return ev


def lower(fig):
    return min(fig.axes, key=lambda a: a.get_position().y0)


def inner(fig):
    """The upper axes' curve, its mark and its dot, and what is below."""
    ax = max(fig.axes, key=lambda a: (a.get_position().y0, len(a.lines)))
    data = [l for l in ax.lines if l.get_transform() == ax.transData]
    dot = [l for l in data if l.get_marker() == "o"]
    rest = [l for l in data if l.get_marker() != "o"]
    ruled = [l for l in ax.lines if l.get_transform() != ax.transData]
    if len(dot) != 1 or len(rest) != 1 or len(ruled) != 1:
        raise ValueError("unknown figure")
    d = line(dot[0].get_xdata(), dot[0].get_ydata(), PU)
    marks = [t.xy[1] for a in fig.axes for t in a.texts if hasattr(t, "xy")]
    return {"curve": line(rest[0].get_xdata(), rest[0].get_ydata(), PU), "dot": [d["x"][0], d["y"][0]],
            "mark": fx(marks[0] if marks else ruled[0].get_xdata()[0], U), "lower": drawn(lower(fig))}


def one_multi(rng):
    s, o, cut = series(rng, MultimodelSelection, none=0.0)
    dgs = sorted(rng.sample([1.0, 2.0, 4.0, 8.0, 16.0, 30.0], rng.randint(1, 4)))
    s.makeaics(dgs, 1.0)
    s.classify(np.array(o.x), rng.choice([0.0, 0.05, 0.5]))
    ms = selected(s)
    z = list(s.dgs)
    cls = [[i + 1 for i in c] for c in s.classes]
    ev = []
    common = {"models": ms, "dgs": [fx(d, U) for d in z], "classes": cls, "es": [fx(r[0], U) for r in s.results]}
    for _ in range(rng.randint(2, 3)):
        a = rng.random()
        kw = {"step": True} if rng.random() < 0.3 else {"duration": 1e-4} if rng.random() < 0.3 else {}
        fr = []
        with figures():
            if a < 0.3:
                e = dict(op="probs", probs=[seq(s.aicprobs[d], PU) for d in z], **common)
                with watching(inner, fr):
                    shown(e, s, s.animate_probs, **kw)
                e["frames"] = fr
            elif a < 0.6:
                e = dict(op="classprobs", probs=[seq(s.classprobs[d], PU) for d in z], **common)
                with watching(inner, fr):
                    shown(e, s, s.animate_classprobs, **kw)
                e["frames"] = fr
            else:
                e = surface(rng, s, z, common)
                if e is None:
                    continue
        ev.append(e)
    return ev


def surface(rng, s, z, common):
    kw = {}
    use, asked, lo, hi, sc, hl = list(range(len(z))), list(range(len(s.classes))), 0.0, 1.0, 1.0, []
    if rng.random() < 0.5:
        use = sorted(rng.sample(use, rng.randint(1, len(use))))
        kw["dGs"] = [z[i] for i in use]
    if rng.random() < 0.4:
        asked = rng.sample(asked, rng.randint(1, len(asked)))
        kw["classes"] = asked
    if rng.random() < 0.5:
        lo, hi = rng.choice([(0.0, 0.5), (0.1, 1.0), (0.5, 1.0), (0.0, 0.999)])
        kw["probfilter"] = [lo, hi]
    if rng.random() < 0.5:
        sc = rng.choice([0.5, 2.0, 1.0])
        kw["scale"] = sc
    if rng.random() < 0.5:
        hl = rng.sample(range(len(z)), rng.randint(0, len(z)))
        kw["highlight"] = [z[i] for i in hl]
    for k, v in (("class_size", ["number", "fraction"]), ("norm", ["auto", "full"]), ("title", [True, False, "mine"]), ("p_alpha", [0.5]), ("cmap", ["viridis"]),
                 ("cbpos", [[0.8, 0.1, 0.05, 0.5]])):
        if rng.random() < 0.4:
            kw[k] = rng.choice(v)
    probs = [seq(s.classprobs[d], PU) for d in z]
    top = [max(float(s.classprobs[z[d]][c]) for d in use) for c in asked]
    if not any(lo <= t <= hi for t in top) or any(abs(t - b) < 1e-4 and t != b for t in top for b in (lo, hi)):
        return None
    e = dict(op="surface", probs=probs, use=[d + 1 for d in use], asked=[c + 1 for c in asked], lo=fx(lo, PU), hi=fx(hi, PU), scale=fx(sc, U), highlight=[d + 1 for d in hl], **common)
    v = shown(e, s, s.plot3dclassprobs, **kw)
    if v is None:
        return e
    ax = v["axis"]
    poly = ax.collections
    if len(poly) != 1:
        raise ValueError("unknown figure")
    faces = [np.asarray(f, dtype=float) for f in poly[0]._faces]
    e["faces"] = [[[fx(q[0], U), fx(q[1], U), fx(q[2], PU)] for q in f] for f in faces]
    e["labels"] = [int(t.get_text()) + 1 for t in ax.get_yticklabels()]
    cols = [tuple(round(float(t), 6) for t in c) for c in np.atleast_2d(poly[0]._facecolor3d)]
    e["colours"] = [cols.index(c) + 1 for c in cols]
    e["xlim"] = seq(ax.get_xlim3d())
    if len(use) == 1:
        e["xlim"] = [fx(z[use[0]] * sc, U)] * 2  # an empty range is widened
    e["hl"] = []
    for l in ax.lines:
        a, b, c = l.get_data_3d()
        e["hl"].append([fx(a[1], U), fx(b[1], U), fx(c[1], PU)] if a[0] == a[1] and b[0] == b[1] and c[0] == 0 else [-1, -1, -1])
    t = " ".join(t.get_text() for t in plt.gcf().texts)
    m = re.search(r"(\d+)/(\d+) classes with (\d+)/(\d+) models", t)
    e["title"] = [int(g) for g in m.groups()] if m else [] if "title" in kw and kw["title"] is not True else [-1]
    return e


def polygons(ax):
    out = []
    for c in ax.collections:
        if isinstance(c, PolyCollection):
            d = {}
            for p in c.get_paths():
                for a, b in p.vertices:
                    d.setdefault(round(float(a), 9), []).append(float(b))
            out.append([[fx(a, U), fx(min(v), U), fx(max(v), U)] for a, v in sorted(d.items()) if abs(a * U - round(a * U)) < 1e-5])
    return out


def fine(l):
    """Points of a line which are exact in thousandths."""
    x, y = np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)
    ok = np.abs(x * U - np.round(x * U)) < 1e-5
    return dict(line(x[ok], y[ok]), n=len(x))


def positions(ax):
    up, down = [], []
    for l in ax.lines:
        if l.get_transform() != ax.transData:
            continue
        x, y = np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)
        for i in range(len(x) - 1):
            if x[i] == x[i + 1] and y[i] != y[i + 1]:
                (up if y[i + 1] > y[i] else down).append(fx(x[i], U))
    return up, down


def looked(e, figs, fig):
    ax = figs["data"]
    e["lines"] = [fine(l) for l in ax.lines]
    lev = [l for l in ax.lines if l.get_linestyle() == ":" and len(set(np.ravel(l.get_ydata()))) == 1]
    e["level"] = [fx(l.get_ydata()[0], U) for l in lev]
    e["fills"] = polygons(ax)
    e["xlim"], e["ylim"] = seq(ax.get_xlim()), seq(ax.get_ylim())
    e["found"], e["given"] = positions(figs["cmp"]) if "cmp" in figs else ([], [])
    e["dots"] = [[p, q] for l in drawn(figs["dg"]) for p, q in zip(l["x"], l["y"])] if "dg" in figs else []
    t = [t.get_text() for a in list(fig.axes) for t in a.texts]
    t += [t.get_text() for a in figs.values() if hasattr(a, "texts") for t in a.texts]
    e["note"] = sorted({fx(v, U) for s in t for v in re.findall(r"g=(-?[\d.]+)", s)})


def wanted(rng, e, m, stab):
    """Options, and what is to be seen with them."""
    kw, opt = {}, {}
    for k, name in (("observed", "show_observed"), ("fit", "show_fit"), ("fill", "fill_individual"), ("residual", "show_residual"), ("note", "show_annotation")):
        opt[k] = True
        if rng.random() < 0.2:
            opt[k] = rng.random() < 0.5
            kw[name] = opt[k]
    if not opt["observed"] and not opt["fit"]:
        kw.pop("show_observed")
        opt["observed"] = True
    if rng.random() < 0.2:
        kw["show_individual"] = rng.random() < 0.5
    opt["cmp"] = True
    if rng.random() < 0.2:
        kw["cmp_height"] = rng.choice([0.0, 10.0])
        opt["cmp"] = kw["cmp_height"] > 0
    opt["series"] = stab
    if stab and rng.random() < 0.2:
        kw["dg_height"] = rng.choice([0.0, 20.0])
        opt["series"] = kw["dg_height"] > 0
    sc = 1.0
    if rng.random() < 0.5:
        sc = kw["scale"] = rng.choice([0.5, 2.0, 3.0])
    e["xwant"] = [m["x"][0], m["x"][-1]]
    if rng.random() < 0.2:
        e["xwant"][0] -= 1000
        kw["xlo"] = e["xwant"][0] / U
    if rng.random() < 0.2:
        e["xwant"][1] += 1000
        kw["xhi"] = e["xwant"][1] / U
    e["auto"] = True
    if rng.random() < 0.15:
        kw[rng.choice(["ylo", "resbase"])] = -50.0
        e["auto"] = False
    opt["note"] = opt["note"] and opt["cmp"]
    e["opt"], e["scale"] = opt, fx(sc, U)
    return kw


def one_tool(rng):
    stab = rng.random() < 0.5
    if stab:
        s, o, cut = series(rng, PeakStability)
        target = s
        if rng.random() < 0.8:
            s.setcurrent(rng.randrange(len(s.results)))
    else:
        x, y = grid(rng)
        o, cut = extraction(rng, PDFPeakExtraction, x, y)
        target = o
        if rng.random() < 0.7:
            o.extracted = cluster(rng, o.x, o.y)
    m = present(o, cut)
    e = {"op": "tool", "m": m, "results": results(s) if stab else []}
    err = o.extracted.error_cluster if o.extracted is not None else o.effective_dy[slice(*cut)]
    e["mean"] = fx(np.mean(err), U)
    kw = wanted(rng, e, m, stab)
    ip = rng.choice([None, [rng.randint(0, 9) + 0.5 for _ in range(rng.randint(1, 3))]])
    e["ip"] = [] if ip is None else [fx(v, U) for v in ip]
    with figures():
        figs = shown(e, target, tool.makeplot, target, *([ip] if ip is not None else []), **kw)
        if figs is not None:
            if rng.random() < 0.1:
                figs["fig"].canvas.draw()
            looked(e, figs, figs["fig"])
    return [e]


# ------------------------------------------------------- the tool as a command
def numbered(rng):
    out, text = [], []
    for _ in range(rng.choice([0, 0, 1, 2])):
        out.append("# " + rng.choice(["distances", "1.5", ""]))
    for _ in range(rng.randint(0, 6)):
        out.append(rng.choice(["%d" % rng.randint(1, 9), "%.1f" % rng.uniform(1, 9), " 2.5 ", "1e0", "3.0"] * 4 + ["# later", "x", "", "1.0 2.0", "1,5"]))
    for l in out:
        t = l.strip()
        try:
            text.append({"kind": "number", "v": fx(float(t), U)})
        except ValueError:
            text.append({"kind": "comment" if l.startswith("#") else "blank" if t == "" else "other", "v": 0})
    return "\n".join(out) + rng.choice(["", "\n"]), text


def one_file(rng, ck):
    t, text = numbered(rng)
    p = os.path.join(ck.tmp, "distances")
    with open(p, "w") as f:
        f.write(t)
    with contextlib.redirect_stdout(io.StringIO()):
        k, v = call(tool.readcompare, p)
    return [{"op": "distances", "r": "ok" if k == "ok" else v[0], "got": [fx(d, U) for d in (v or [])] if k == "ok" else [], "text": text}]


def one_command(rng, ck):
    """A saved extraction or series shown by the command."""
    src, dst = os.path.join(ck.tmp, "saved"), os.path.join(ck.tmp, "shown.png")
    for p in (src, dst):
        if os.path.exists(p):
            os.remove(p)
    args = [src]
    stab = rng.random() < 0.5
    if stab:
        s, o, cut = series(rng, PeakStability)
        own = o.baseline.owner()
        for r in s.results:  # a saved series has one baseline function
            r[2] = own.actualize([rng.randint(-2, 2) for _ in range(own.npars)], "internal")
        s.save(src)
        i = 0  # a loaded series shows its first result
        if rng.random() < 0.7:
            i = rng.randrange(len(s.results))
            args += ["--model", str(i)]
        s.setcurrent(i)
    else:
        x, y = grid(rng)
        o, cut = extraction(rng, PDFPeakExtraction, x, y)
        if rng.random() < 0.7:
            o.extracted = ModelCluster(peaks(rng, 2), base(rng), o.x, o.y, np.ones(len(x)), None, AIC, [PEAK])
            o.extraction_type = "extract"
        o.write(src)
        if rng.random() < 0.3:
            args += ["--model", "0"]
    m = present(o, cut)
    err = o.extracted.error_cluster if o.extracted is not None else o.effective_dy[slice(*cut)]
    e = {"op": "tool", "m": m, "results": results(s) if stab else [], "mean": fx(np.mean(err), U), "auto": True, "scale": U,
         "xwant": [m["x"][0], m["x"][-1]], "ip": [], "opt": {"observed": True, "fit": True, "fill": True, "residual": True, "note": True, "cmp": True, "series": stab}}
    if rng.random() < 0.5:
        ip = [rng.randint(0, 9) + 0.5 for _ in range(rng.randint(1, 3))]
        with open(os.path.join(ck.tmp, "ip"), "w") as f:
            f.write("# given\n" + "\n".join(map(str, ip)) + "\n")
        args += ["--compare", os.path.join(ck.tmp, "ip")]
        e["ip"] = [fx(v, U) for v in ip]
    out = rng.random() < 0.3
    if out:
        args += ["-o", dst, "--format", "png"]
    made = []
    real = tool.makeplot

    def keep(*a, **k):
        made.append(real(*a, **k))
        return made[-1]

    argv, tool.makeplot = sys.argv, keep
    try:
        with figures(), plt.rc_context():
            sys.argv = ["srmise-plot"] + args
            saved = plt.savefig
            plt.savefig = lambda f, **k: saved(f, **dict(k, dpi=20))
            try:
                k, v = call(tool.main, timeout=60)
            finally:
                plt.savefig = saved
            e["r"], e["kept"] = ("ok" if k == "ok" else v[0]), True
            if k == "ok":
                if len(made) != 1 or out != os.path.exists(dst):
                    e["r"] = "no figure" if len(made) != 1 else "no file"
                else:
                    looked(e, made[0], made[0]["fig"])
    finally:
        sys.argv, tool.makeplot = argv, real
    return [e]


def run(ck):
    ck.model_check("Plots", "CONSTANTS NumResults = %d\nSPECIFICATION Spec\nINVARIANT TypeOK Shown\nPROPERTY Recorded\nCHECK_DEADLOCK FALSE\n" % ck.budget(3, 5),
                   "selecting, working on and animating the results of a series")
    rng = ck.rng
    tr = []
    with contextlib.redirect_stdout(io.StringIO()):
        for f, q, t in ((one_cluster, 150, 1500), (one_extraction, 60, 500), (one_series, 60, 350), (one_multi, 70, 350), (one_tool, 90, 450)):
            tr += [{"ev": f(rng), "note": f.__name__} for _ in range(ck.budget(q, t))]
        tr += [{"ev": one_command(rng, ck), "note": "command"} for _ in range(ck.budget(25, 150))]
        tr += [{"ev": one_file(rng, ck), "note": "file"} for _ in range(ck.budget(100, 500))]
    tr = [t for t in tr if t["ev"]]
    ck.validate("PlotsTrace", tr, what="figures of models, series, probabilities and the plotting tool")
