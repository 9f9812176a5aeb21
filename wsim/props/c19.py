"""Figure axes always contain everything that was plotted."""
import copy
import itertools
import json
import math
import os

import numpy as np

from . import common as P
from .. import calls as K
from .. import crystals as C
from .. import trace
from ..canon import digest

TIMEOUT = 120
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
PLOTS = ["points", "points", "line", "vector", "vector", "cell", "kpath", "kpoints", "lattice", "atoms", "wigner", "brillouin"]


def warm():
    K.warm_plotly()
    import scipy.spatial  # noqa: F401


def point(rng, mag):
    return [rng.choice([0.0, round(rng.uniform(-3, 3), 3), round(rng.uniform(2, 9), 2), -round(rng.uniform(2, 9), 2), 5.0]) * mag for _ in range(3)]


def content(rng, kind, mag):
    if kind == "points":
        n = rng.choice([1, 2, 5])
        p = [point(rng, mag) for _ in range(n)]
        if rng.random() < 0.4:
            k = rng.randrange(3)
            for q in p:
                q[k] = p[0][k]
        return {"points": p, "colors": rng.choice(["#000000", "red", ["#112233"] * n])}
    if kind in ("line", "vector"):
        a = point(rng, mag)
        b = point(rng, mag) if rng.random() < 0.8 else list(a)
        o = {"start": a, "end": b}
        if kind == "vector":
            o["vector_label"] = rng.choice([None, "v", "a<sub>1</sub>", ""])
        return o
    cell = [[round((rng.uniform(1, 4) if i == j else rng.uniform(-1, 1)), 3) * mag * rng.choice([1, 1, -1]) for j in range(3)] for i in range(3)]
    o = {"cell": cell, "shift": rng.choice([None, None, [0, 0, 0], point(rng, mag), point(rng, mag)])}
    if kind in ("cell", "wigner", "brillouin"):
        o["plot_vectors"] = rng.random() < 0.5
    if kind in ("kpath", "kpoints"):
        n = rng.choice([2, 3, 4])
        o["coords"] = [[rng.choice([0, 0.5, 1, -0.5, 0.25, 2]) for _ in range(3)] for _ in range(n)]
        names = [f"K{i + 1}" for i in range(n)]
        o["path"] = [[rng.choice(names) for _ in range(rng.choice([2, 3]))] for _ in range(rng.choice([1, 2, 3]))]
        o["only"] = rng.random() < 0.4
    if kind == "lattice":
        o["range"] = [rng.randrange(3), rng.choice([0, 1]), rng.choice([0, 1, 2])]
    if kind == "atoms":
        n = rng.choice([1, 2, 4])
        o["atoms"] = {"names": [rng.choice(["Fe", "O", "Cr1", "Br"]) for _ in range(n)], "positions": [[round(rng.uniform(-1, 2), 3) for _ in range(3)] for _ in range(n)]}
        o["pform"] = rng.choice(C.POS_FORMS)
        if rng.random() < 0.3:
            o["atoms"]["species"] = ["Fe"] * n
        if rng.random() < 0.3:
            o["atoms"]["moment"] = [[0, 0, 1.0]] * n
        o["hover"] = rng.random() < 0.7
    return o


BAD = ["row", "col", "colour", "group", "label", "empty", "shape", "string", "dangling", "vector-label", "atoms-colours", "species", "short", "none"]


def gen(rng, tier, index):
    engines = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        engines.append({"rows": rng.choice([1, 1, 2]), "cols": rng.choice([1, 1, 2, 3]), "own": rng.random() < 0.2, "sphinx": rng.random() < 0.4})
    mag = rng.choice([1, 1, 1, 1e-3, 50.0, 1e-9, 1e5])
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        e = rng.randrange(len(engines))
        at = {"e": e, "row": rng.randrange(engines[e]["rows"]) + 1, "col": rng.randrange(engines[e]["cols"]) + 1}
        kind = rng.choice(PLOTS)
        if kind in ("wigner", "brillouin") and rng.random() < 0.85:
            kind = rng.choice(PLOTS[:10])
        r = rng.random()
        if r < 0.62:
            m = mag if rng.random() < 0.8 else 1
            if kind in ("wigner", "brillouin"):
                m = 1  # the construction of the cell itself has absolute tolerances
            if rng.random() < 0.02:  # so many calls with automatic groups that short names repeat
                k = rng.choice(PLOTS[:9])
                ops.append({"op": "many", "kind": k, "c": content(rng, k, 1), "count": 120 if k in ("kpath", "kpoints", "cell") else 250, **at})
                continue
            o = {"op": "plot", "kind": kind, "c": content(rng, kind, m), "label": rng.choice([None, "entry", "other"]), "group": rng.choice([None, None, "g1", "g2"]), **at}
        elif r < 0.82:
            k = rng.choice(PLOTS[:10])
            o = {"op": "bad", "kind": k, "c": content(rng, k, mag), "what": rng.choice(BAD), **at}
        else:
            o = {"op": rng.choice(["show", "save"]), "e": e, "axes": rng.random() < 0.8, "legend": rng.choice(["top", "LEFT", "bottom", "right"]), "bad": rng.choice([None, None, None, "legend", "layout", "path"]),
                 "strike": {"u": rng.random(), "v": rng.random(), "exc": rng.choice(sorted(EXC))} if rng.random() < 0.3 else None}
        ops.append(o)
    for e in range(len(engines)):
        ops.append({"op": rng.choice(["show", "save"]), "e": e, "axes": True, "legend": "top", "bad": None, "strike": None})
    return {"engines": engines, "ops": ops}


def expected(kind, c):
    """Points that belong to the picture, from the arguments of the call."""
    if kind == "points":
        return np.array(c["points"], dtype=float)
    if kind in ("line", "vector"):
        return np.array([c["start"], c["end"]], dtype=float)
    cell = np.array(c["cell"], dtype=float)
    s = np.array(c["shift"] or [0, 0, 0], dtype=float)
    if kind == "cell":
        return np.array([s + np.array(m) @ cell for m in itertools.product([0, 1], repeat=3)])
    if kind == "lattice":
        r = c["range"]
        return np.array([s + np.array(m) @ cell for m in itertools.product(*[range(-x, x + 1) for x in r])])
    if kind == "atoms":
        return np.array(c["atoms"]["positions"], dtype=float) @ cell + s
    if kind in ("kpath", "kpoints"):
        x = np.array(c["coords"], dtype=float) @ cell + s
        if kind == "kpath" or c["only"]:
            x = x[[int(n[1:]) - 1 for p in c["path"] for n in p]]
        return x
    return np.array([s])  # the centre of a Wigner-Seitz cell


def plot(pe, kind, c, **kw):
    import wulfric

    sh = {} if c.get("shift") is None else {"shift": c["shift"]}
    if kind == "points":
        return pe.plot_points(c["points"], **{"colors": c["colors"], **kw})
    if kind == "line":
        return pe.plot_line(c["start"], c["end"], **kw)
    if kind == "vector":
        return pe.plot_vector(c["start"], c["end"], vector_label=c["vector_label"], **kw)
    if kind == "cell":
        return pe.plot_cell(c["cell"], plot_vectors=c["plot_vectors"], **sh, **kw)
    if kind == "wigner":
        return pe.plot_wigner_seitz_cell(c["cell"], plot_vectors=c["plot_vectors"], **sh, **kw)
    if kind == "brillouin":
        return pe.plot_brillouin_zone(c["cell"], plot_vectors=c["plot_vectors"], **sh, **kw)
    if kind == "lattice":
        return pe.plot_lattice(c["cell"], range=tuple(c["range"]), **sh, **kw)
    if kind == "atoms":
        return pe.plot_atoms(c["cell"], C.build_atoms(c["atoms"], c["pform"]), add_hoverinfo=c["hover"], **sh, **kw)
    kp = wulfric.Kpoints(c["cell"], coordinates=c["coords"], path="|".join("-".join(p) for p in c["path"]), n=0)
    if c.get("dangling"):
        kp.remove_hs_point(kp.path[-1][-1])
    if kind == "kpath":
        return pe.plot_kpath(kp, **sh, **kw)
    return pe.plot_kpoints(kp, only_from_kpath=c["only"], **sh, **kw)


def spoil(o):
    """A call that has to fail: (content, keywords)."""
    c = copy.deepcopy(o["c"])
    kw = {"row": o["row"], "col": o["col"], "legend_group": "bad"}
    w, kind = o["what"], o["kind"]
    colour = "colors" if kind in ("points", "atoms") else "color"
    if w == "row":
        kw["row"] = 7
    elif w == "col":
        kw["col"] = 9
    elif w == "colour":
        kw[colour] = "no-such-colour" if kind != "atoms" else ["no-such-colour"] * len(c["atoms"]["positions"])
    elif w == "group":
        kw["legend_group"] = {}
    elif w == "label":
        kw["legend_label"] = {}
    elif w == "vector-label" and kind == "vector":
        c["vector_label"] = {}
    elif w == "dangling" and kind == "kpath":
        c["dangling"] = True
    elif w == "species" and kind == "atoms":
        c["atoms"]["species"] = ["Fe"] * (len(c["atoms"]["positions"]) - 1) + ["Qq"]
    elif w == "atoms-colours" and kind == "atoms":
        kw["colors"] = ["#12"] * len(c["atoms"]["positions"])
    elif kind == "points":
        c["points"] = {"empty": [], "shape": [[1, 2], [3, 4]], "string": [[[1]], 2], "short": [[1, 2, 3], [1, 2]], "none": None}.get(w, [])
    elif kind in ("line", "vector"):
        c["end"] = {"shape": [1, 2], "string": [[1]], "none": None}.get(w, [])
    elif "shift" in c and w in ("shape", "short"):
        c["shift"] = [100.0, 200.0]
    else:
        c["cell"] = [[1, 2], [3, 4]] if w == "shape" else []
    return c, kw


def limits(scene):
    out = []
    for a in "xyz":
        r = (scene.get(a + "axis") or {}).get("range")
        out.append(None if r is None else [float(v) for v in r])
    return out, scene.get("aspectratio")


def plain(v):
    if isinstance(v, dict) and "bdata" in v:
        import base64

        return np.frombuffer(base64.b64decode(v["bdata"]), dtype=np.dtype(v["dtype"])).astype(float).tolist()
    return np.array(v, dtype=float).ravel().tolist()


def view(js):
    """Scenes and drawn coordinates of a figure in its JSON form."""
    lay = js["layout"]
    scenes = {k: limits(v) for k, v in lay.items() if k.startswith("scene")}
    traces = [{"scene": t.get("scene", "scene"), "group": t.get("legendgroup"), "shown": t.get("showlegend"), "xyz": [plain(t[a]) for a in "xyz"], "type": t["type"]} for t in js["data"]]
    return scenes, traces


def from_html(text):
    i = text.index("Plotly.newPlot(")
    dec = json.JSONDecoder()
    out = []
    p = text.index("[", i)
    data, p = dec.raw_decode(text, p)
    p = text.index("{", p)
    lay, p = dec.raw_decode(text, p)
    return {"data": data, "layout": lay}


def history(plan, tmp):
    import plotly.graph_objects as go
    import wulfric
    from plotly.subplots import make_subplots

    shown = []

    def show(self, *a, **k):
        shown.append(self.to_plotly_json())

    go.Figure.show = show  # the browser
    engines = []
    for e in plan["engines"]:
        kw = {"_sphinx_gallery_fix": e["sphinx"]}
        if e["own"]:
            kw["fig"] = make_subplots(rows=e["rows"], cols=e["cols"], specs=[[{"type": "scene"} for _ in range(e["cols"])] for _ in range(e["rows"])])
        else:
            kw.update(rows=e["rows"], cols=e["cols"])
        engines.append(wulfric.PlotlyEngine(**kw))
    model = [{} for _ in engines]  # (row, col) -> points that must be inside
    out = []
    for n, o in enumerate(plan["ops"]):
        pe = engines[o["e"]]
        rec = {"how": "ok", "bad": None, "where": None}
        had = len(pe.fig.data)
        if o["op"] == "many":
            kw = {"row": o["row"], "col": o["col"]}
            rec["groups"] = []
            for _ in range(o["count"]):
                k = len(pe.fig.data)
                r = P.outcome(lambda: plot(pe, o["kind"], o["c"], **kw))
                if r[0] != "ok":
                    rec["how"] = r[1]
                    rec["bad"] = ["failed", f"plot_{o['kind']} raised {r[1]}: {r[2][:200]}"]
                    break
                rec["groups"].append(sorted({str(t.legendgroup) for t in pe.fig.data[k:]}))
            model[o["e"]].setdefault(pe.fig.get_subplot(o["row"], o["col"]).plotly_name, []).append(expected(o["kind"], o["c"]).tolist())
        elif o["op"] in ("plot", "bad"):
            if o["op"] == "plot":
                kw = {"row": o["row"], "col": o["col"], "legend_label": o["label"], "legend_group": o["group"]}
                r = P.outcome(lambda: plot(pe, o["kind"], o["c"], **kw))
            else:
                c, kw = spoil(o)
                r = P.outcome(lambda: plot(pe, o["kind"], c, **kw))
            new = pe.fig.data[had:]
            groups = [t.legendgroup for t in new]
            rec["groups"] = groups
            rec["scene"] = sorted({t.scene or "scene" for t in new})
            rec["entries"] = sum(1 for t in new if t.showlegend)
            if r[0] != "ok":
                rec["how"] = r[1]
                if o["op"] == "plot":
                    rec["bad"] = ["failed", f"plot_{o['kind']} raised {r[1]}: {r[2][:200]}"]
            elif o["op"] == "plot":
                ref = expected(o["kind"], o["c"])
                scene = pe.fig.get_subplot(o["row"], o["col"]).plotly_name
                model[o["e"]].setdefault(scene, []).append(ref.tolist())
        else:
            kw = {"axes_visible": o["axes"], "legend_position": o["legend"]}
            path = os.path.join(tmp, f"f{n}.html")
            if o["bad"] == "legend":
                kw["legend_position"] = "middle"
            elif o["bad"] == "layout":
                kw["no_such_setting"] = 1
            elif o["bad"] == "path" and o["op"] == "save":
                path = os.path.join(tmp, "nowhere", "f.html")

            def go_():
                if o["op"] == "show":
                    k = len(shown)
                    fig = pe.show(**kw)
                    return shown[k] if fig is None else fig.to_plotly_json()
                pe.save(path, kwargs_write_html={"include_plotlyjs": False, "full_html": False}, **kw)
                with open(path, encoding="utf-8") as f:
                    return from_html(f.read())

            if o["strike"]:
                twin = copy.deepcopy(pe)
                _, ev = trace.profile(lambda: twin.show(**kw) if o["op"] == "show" else twin.save(path + ".twin", kwargs_write_html={"include_plotlyjs": False}, **kw))
                at = trace.pick(ev, o["strike"]["u"], o["strike"]["v"])
                if at is not None:
                    _, st = trace.inject(go_, at, EXC[o["strike"]["exc"]]("injected"))
                    rec["where"] = st.where and [st.where[1], st.where[2]]
            r = P.outcome(go_)
            if r[0] != "ok":
                rec["how"] = r[1]
                if not o["bad"] or o["bad"] == "path" and o["op"] == "show":
                    rec["bad"] = ["failed", f"{o['op']}() raised {r[1]}: {r[2][:200]}"]
            elif o["bad"] and not (o["bad"] == "path" and o["op"] == "show"):
                rec["bad"] = ["accepted", f"{o['op']}() accepted a wrong {o['bad']}"]
            else:
                rec["view"] = view(r[1])
                rec["model"] = copy.deepcopy(model[o["e"]])
        out.append(rec)
        if rec["bad"]:
            break
    return out


def check_view(v, model):
    scenes, traces = v
    used = {}
    for t in traces:
        used.setdefault(t["scene"], []).append(np.array(t["xyz"], dtype=float).T.reshape(-1, 3))
    for s in set(used) | set(model):
        if s not in scenes:
            return "limits", f"subplot {s} has no axis limits"
        lim, aspect = scenes[s]
        if any(r is None or len(r) != 2 or not all(map(math.isfinite, r)) or not r[0] < r[1] for r in lim):
            return "limits", f"subplot {s} has axis limits {lim}"
        if aspect is not None and not all(math.isfinite(x) and x > 0 for x in aspect.values()):
            return "aspect", f"subplot {s} has the aspect ratio {aspect}"
        lim = np.array(lim)
        for what, pts in (("drawn", used.get(s, [])), ("plotted", [np.array(p) for p in model.get(s, [])])):
            for p in pts:
                tol = 1e-9 * (1e-300 + np.abs(p).max())
                out = (p < lim[:, 0] - tol) | (p > lim[:, 1] + tol)
                if out.any():
                    return what, f"{what} point {p[out.any(axis=1)][0].tolist()} is outside of the axis limits {lim.tolist()} of subplot {s}"
    return None


def execute(plan, ctx):
    return ctx.fork(history, plan, ctx.scratch, timeout=100)


def show(o):
    return {k: v for k, v in o.items() if k not in ("strike",)}


def judge(plan, hist, ctx):
    if hist[0] != "ok":
        raise RuntimeError(str(hist[1]))
    viol, faults, stats = [], {}, {}
    auto = {}
    for n, (o, s) in enumerate(zip(plan["ops"], hist[1])):
        name = o["op"] + (":" + o["kind"] if "kind" in o else "")
        stats[name] = stats.get(name, 0) + 1
        if s["where"]:
            faults["interrupt in " + o["op"]] = faults.get("interrupt in " + o["op"], 0) + 1
        if s["how"] != "ok":
            k = "refused " + (o["what"] if o["op"] == "bad" else o["op"])
            faults[k] = faults.get(k, 0) + 1
        bad = s["bad"]
        if not bad and o["op"] in ("plot", "bad"):
            if len(set(s["groups"])) > 1:
                bad = ["group", f"the traces of one call are in the legend groups {sorted(map(str, set(s['groups'])))}"]
            if o["op"] == "plot" and not bad:
                want = o["group"]
                g = s["groups"][0] if s["groups"] else None
                if want is not None and g != want:
                    bad = ["group", f"legend group is {g!r} instead of {want!r}"]
                elif want is None:
                    if g in auto.setdefault(o["e"], set()) or not g or g in ("g1", "g2"):
                        bad = ["group", f"the legend group {g!r} is shared with another call"]
                    auto[o["e"]].add(g)
                if not bad and s["entries"] != (o["label"] is not None):
                    bad = ["legend", f"{s['entries']} legend entries with legend_label={o['label']!r}"]
        if not bad and o["op"] == "many":
            names = auto.setdefault(o["e"], set())
            for g in s["groups"]:
                if len(g) != 1 or g[0] in names:
                    bad = ["group", f"the legend groups {g} of a call are shared with another call of {len(names)}"]
                    break
                names.add(g[0])
        if not bad and "view" in s:
            bad = check_view(s["view"], s["model"])
        if bad:
            viol.append({"class": bad[0], "msg": f"step {n} {show(o)} after {[x['op'] + ':' + x.get('kind', '') + ':' + x.get('what', '') for x in plan['ops'][:n]]}: {bad[1]}"[:1500]})
    key = digest([plan["engines"], [[o["op"], o.get("kind"), o.get("what"), o["e"], o.get("row"), o.get("col"), s["how"], s["where"]] for o, s in zip(plan["ops"], hist[1])]])
    return {"violations": viol, "keys": [key], "nontrivial": [key] if len(plan["ops"]) > 2 else [], "faults": faults, "stats": stats,
            "sample": [[o["op"], o.get("kind"), o.get("what"), s["how"]] for o, s in zip(plan["ops"], hist[1])], "log": digest([[s["how"], s["where"]] for s in hist[1]])}


def shrink(plan):
    for ops in P.drop_each(plan["ops"]):
        if ops:
            yield dict(plan, ops=ops)
    for i, o in enumerate(plan["ops"]):
        if o.get("strike"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(o, strike=None)] + plan["ops"][i + 1:])
    for i, e in enumerate(plan["engines"]):
        if e["own"]:
            yield dict(plan, engines=plan["engines"][:i] + [dict(e, own=False)] + plan["engines"][i + 1:])
