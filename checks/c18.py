import os
from vlib import call, Intern
from diffpy.srmise.pdfdataset import PDFDataSet

ONE = [1000]  # units in one
NAN, INF = 2000000000, 1999999999
NUM = {"qdamp": "qdamp", "qbroad": "qbroad", "dscale": "dscale", "qmax": "qmax"}


class Enc:
    """Numbers as thousandths or millionths; anything that is not a whole number of them gets a code of its own."""

    def __init__(self, one):
        self.odd, self.one = Intern(), one

    def __call__(self, v):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return -1500000000 - self.odd(repr(v))
        v = float(v)
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else -INF
        r = int(round(v * self.one))
        if abs(v * self.one - r) > 1e-6 * max(1, abs(r)) * 1e-6 + 1e-7 or abs(r) > 1900000000:
            return -1000000000 - self.odd(v.hex())
        return r


def snap(objs, enc):
    out = []
    for d in objs:
        opt = lambda v: [] if v is None else [enc(v)]
        out.append({"rob": [enc(v) for v in d.robs], "gob": [enc(v) for v in d.Gobs], "dr": [enc(v) for v in d.drobs], "dg": [enc(v) for v in d.dGobs],
                    "stype": str(d.stype), "qmax": enc(d.qmax), "qdamp": enc(d.qdamp), "qbroad": enc(d.qbroad), "spd": opt(d.spdiameter),
                    "dscale": enc(d.dscale), "rmin": opt(d.rmin), "rmax": opt(d.rmax), "file": d.filename or "",
                    "meta": [[k, enc(v)] for k, v in d.metadata.items()]})
    return out


def units(rng):
    a = rng.choice([rng.randint(0, 30), rng.randint(0, 30000), rng.randint(0, 999999)])
    return a * rng.choice([1, 1, 1, -1])


def lit(rng, v):
    """A decimal literal of v units."""
    x = v / ONE[0]
    return rng.choice(["%.6f" % x, repr(x), "%g" % x, "%.3e" % x if abs(v) < 9999 else repr(x)])


def plain(rng, v):
    """A literal that the header patterns understand."""
    v = abs(v)
    x = v / ONE[0]
    return rng.choice(["%.6f" % x, repr(x), "%d" % x if v % ONE[0] == 0 else "%g" % x])


NOPE = ["abc", "1.2.3", "--", "1,5", "0x10"]


def rows(rng):
    n = rng.choice([1, 2, 3, 6, 15])
    nc = rng.choice([2, 3, 4, 4, 4, 5])
    out, txt = [], []
    bad = rng.random() < 0.5
    for i in range(n):
        row, t = [], []
        c = nc
        if bad and rng.random() < 0.15:
            c = rng.randint(1, 4)
        for j in range(c):
            v = units(rng)
            if j >= 2:
                v = abs(v) + 1
            cell = ("num", v, lit(rng, v))
            if bad and rng.random() < 0.12:
                if j >= 2:
                    cell = rng.choice([("num", 0, "0"), ("num", -5, "%g" % (-5 / ONE[0])), ("nan", NAN, rng.choice(["nan", "NaN"])), ("inf", INF, rng.choice(["inf", "Inf", "+inf"])),
                                       ("word", 0, rng.choice(NOPE))])
                else:
                    cell = rng.choice([("word", 0, rng.choice(NOPE)), ("nan", NAN, "nan"), ("num", v, lit(rng, v))])
            row.append({"k": cell[0], "v": cell[1]})
            t.append(cell[2])
        out.append(row[:4])
        txt.append(rng.choice([" ", "  ", "\t"]).join(t))
    return out, txt


def text(rng):
    rs, body = rows(rng)
    if rng.random() < 0.04:
        rs, body = [], []
    h = {"stype": "", "qmax": [], "qdamp": [], "qbroad": [], "spd": [], "dscale": [], "temp": [], "dop": [], "meta": []}
    lines = []
    pre = rng.choice(["", "# ", "## "])
    sp = lambda: rng.choice(["=", " = ", "  =", "= "])
    if rng.random() < 0.6:
        h["stype"], w = rng.choice([("X", "stype=X  x-ray scattering"), ("N", "stype=N  neutron scattering"), ("X", "data from PDFgetX2"), ("N", "written by PDFgetN"),
                                    ("X", "mode = xray"), ("X", "version = pdfgetx3-1.0"), ("N", "Neutron data")])
        lines.append(pre + w)
    for k, names in (("qmax", ["qmax", "Qmax", "QMAX"]), ("qdamp", ["qdamp", "Qdamp", "qsig"]), ("qbroad", ["qbroad", "qalp", "Qalp"]), ("spd", ["spdiameter"]),
                     ("dscale", ["dscale", "Dscale"]), ("temp", ["temp", "temperature", "T"]), ("dop", ["x", "doping"])):
        if rng.random() < 0.5:
            v = abs(units(rng))
            h[k] = [v]
            lines.append(pre + rng.choice(names) + sp() + plain(rng, v) + rng.choice(["", "   correction applied", " # note"]))
    rng.shuffle(lines)
    lines[:0] = rng.sample(["History written: Thu Nov 19 2026", "produced by somebody", "##### PDFgui", "[DEFAULT]", "composition = NiO", "# Comment: qmaximum unknown", "t = 12.5", "xmax = 3.5", "X = 2"], rng.randint(0, 4))
    marker = rng.random() < 0.75
    if rng.random() < 0.5:
        lines.append(rng.choice(["# metadata", "## metadata"]))
        for _ in range(rng.randint(0, 4)):
            k, v = rng.choice(["pressure", "temperature", "Tc", "field_1", "x2"]), abs(units(rng))
            h["meta"].append([k, v])
            lines.append(k + rng.choice(["=", " = "]) + plain(rng, v))
    if marker:
        lines.append(rng.choice(["##### start data", "# start data"]))
        lines += rng.choice([[], ["#L r(A) G(r) d_r d_Gr"], ["#S 1", "#L r($\\AA$)  G($\\AA^{-2}$)"]])
    elif body and not body[0].lstrip()[:1].isdigit():
        return text(rng)  # without a marker the data starts at the first number
    t = "\n".join(lines + body) + rng.choice(["\n", "", "\n\n"])
    return h, rs, t


def refused(o, want, name=""):
    """Refused in the right way."""
    k, v = o
    return "refused" if k == "err" and want in v else "ok" if k == "ok" else "error " + v[0]


def reading(fn, want, name):
    try:
        k, v = call(fn)
    except Exception as e:  # pragma: no cover
        return "error " + type(e).__name__
    if k == "ok":
        return "ok"
    if want not in v:
        return "error " + v[0]
    if name:
        try:
            fn()
        except Exception as e:
            return "refused" if os.path.basename(name) in str(e) else "refused without naming the file"
    return "refused"


def one(ck, enc, n):
    rng = ck.rng
    objs, files, ev = [], [], []

    def emit(e):
        e["post"] = snap(objs, enc)
        ev.append(e)

    def new():
        objs.append(PDFDataSet("d%d" % len(objs)))
        emit({"op": "new"})

    new()
    for _ in range(n):
        o = rng.randrange(len(objs))
        d = objs[o]
        a = rng.choice(["read"] * 6 + ["write"] * 3 + ["load"] * 4 + ["copy"] * 3 + ["set"] * 3 + ["get"] * 2 + ["put"] * 2 + ["assign"] * 2 + ["clear", "new"])
        if a == "new":
            if len(objs) < 4:
                new()
        elif a == "clear":
            d.clear()
            emit({"op": "clear", "o": o + 1})
        elif a == "read":
            h, rs, t = text(rng)
            e = {"op": "read", "o": o + 1, "h": h, "rows": rs, "file": ""}
            if rng.random() < 0.5:
                e["r"] = reading(lambda: d.readStr(t), "PDFDataFormatError", "")
            else:
                path = os.path.join(ck.tmp, "data%d.gr" % rng.randint(0, 3))
                raw = t.encode()
                if rng.random() < 0.05:
                    raw, e["rows"] = b"\xff\xfe\x00\x81 \xc5\n" + raw, []
                with open(path, "wb") as f:
                    f.write(raw)
                e["file"] = path
                e["r"] = reading(lambda: d.read(path), "SrMiseFileError", path)
            e["_note"] = t[:1500]
            emit(e)
            if e["r"] != "ok":  # what a refused text leaves behind is unspecified
                d.clear()
                emit({"op": "clear", "o": o + 1})
        elif a == "write":
            path = os.path.join(ck.tmp, "out%d.gr" % len(files))
            if rng.random() < 0.5:
                k, v = call(d.write, path)
            else:
                k, v = call(d.writeStr)
                if k == "ok":
                    with open(path, "w") as f:
                        f.write(v)
            emit({"op": "write", "o": o + 1, "r": "ok" if k == "ok" else v[0]})
            if k != "ok":
                return ev
            files.append(path)
        elif a == "load" and files:
            i = rng.randrange(len(files))
            path = files[i]
            byfile = rng.random() < 0.5
            r = reading((lambda: d.read(path)) if byfile else (lambda: d.readStr(open(path).read())), "SrMiseFileError" if byfile else "PDFDataFormatError", path if byfile else "")
            emit({"op": "load", "o": o + 1, "k": i + 1, "r": r, "file": path if byfile else ""})
            if r != "ok":
                d.clear()
                emit({"op": "clear", "o": o + 1})
        elif a == "copy":
            if rng.random() < 0.5 and len(objs) < 4:
                k, c = call(d.copy)
                fresh = k == "ok" and not any(c is z for z in objs) and isinstance(c, PDFDataSet)
                if k == "ok":
                    objs.append(c)
                emit({"op": "copy", "o": o + 1, "to": 0, "fresh": fresh})
            else:
                t = rng.randrange(len(objs))
                if t != o:
                    call(d.copy, objs[t])
                    emit({"op": "copy", "o": o + 1, "to": t + 1, "fresh": True})
        elif a == "set":
            var = rng.choice(["qdamp", "qbroad", "dscale", "qmax", "stype", "nope", "robs"])
            v = rng.choice([rng.randint(0, 99), rng.randint(0, 99999)])
            num = rng.random() < 0.85
            arg = rng.choice([v / ONE[0], str(v / ONE[0])]) if num else rng.choice(["abc", None, ""])
            k, x = call(d.setvar, rng.choice(["", " "]) + var + rng.choice(["", " "]), arg)
            r = "ok" if k == "ok" else "refused" if var in ("qdamp", "qbroad", "dscale") or not num or "SrMisePDFKeyError" in x else "error " + x[0]
            emit({"op": "set", "o": o + 1, "var": var, "v": v, "numeric": num, "r": r})
        elif a == "get":
            var = rng.choice(["qdamp", "qbroad", "dscale", "qmax", "stype", "nope"])
            k, x = call(d.getvar, var + rng.choice(["", " "]))
            emit({"op": "get", "o": o + 1, "var": var, "v": enc(x) if k == "ok" else 0, "r": "ok" if k == "ok" else "refused" if "SrMisePDFKeyError" in x else "error " + x[0]})
        elif a == "put":
            k, v = rng.choice(["pressure", "temperature", "Tc"]), rng.randint(0, 99999)
            d.metadata[k] = v / ONE[0]
            emit({"op": "put", "o": o + 1, "k": k, "v": v})
        elif a == "assign":
            m = rng.choice([1, 2, 5, 9])
            big = lambda: rng.choice([units(rng), rng.randint(1000000, 1500000000)])
            d.robs, d.Gobs = [big() / ONE[0] for _ in range(m)], [big() / ONE[0] for _ in range(m)]
            d.drobs, d.dGobs = [rng.choice([lambda: [(abs(big()) + 1) / ONE[0] for _ in range(m)], lambda: [0.0] * m])() for _ in range(2)]
            d.rmin, d.rmax = d.robs[0], d.robs[-1]
            d.stype = rng.choice("XN")
            d.qmax = rng.choice([0.0, 0, rng.randint(0, 99999) / ONE[0], 25.0])
            emit({"op": "assign", "o": o + 1, "d": snap([d], enc)[0]})
    return ev


def run(ck):
    ck.model_check("DataSet", "CONSTANTS One = 1000 Nums = %s NObj = 2 Depth = %d\nSPECIFICATION Spec\nINVARIANT Consistent Exact OneValue\nCHECK_DEADLOCK FALSE\n"
                   % (("{0, 5}", 2) if ck.quick else ("{0, 5}", 3)), "data sets read, written, copied and changed")
    for ONE[0], many in ((1000, ck.budget(1700, 8000)), (10 ** 6, ck.budget(800, 4000))):
        enc = Enc(ONE[0])
        ck.validate("DataSetTrace", [{"ev": one(ck, enc, ck.rng.randint(3, 14))} for _ in range(many)], "CONSTANT One = %d\n" % ONE[0],
                    what="recorded histories of data sets, in units of 1/%d" % ONE[0])
