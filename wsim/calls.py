"""The calls of the public interface that the workloads are made of.

A call is JSON: {"f": name, "s": structure, "sd": tolerances or None, "a": literal arguments}.  A World owns the live objects that
the calls of one run share.
"""
import io
import json
import re
import threading
import warnings

import numpy as np

from . import crystals as C
from .canon import canon, diff, digest
from .props.common import outcome

CONV = ["HPKOT", "SC", "spglib"]
BLS = ["cP1", "cP2", "cF1", "cI1", "tP1", "tI1", "tI2", "oP1", "oF1", "oF3", "oI1", "oI3", "oC1", "oC2", "oA1", "hP1", "hP2", "hR1", "hR2", "mP1",
       "mC1", "mC2", "mC3", "aP2", "aP3", "cF", "aP"]
SC_VAR = ["CUB", "FCC", "BCC", "TET", "BCT1", "BCT2", "ORC", "ORCF1", "ORCF2", "ORCF3", "ORCI", "ORCC", "HEX", "RHL1", "RHL2", "MCL", "MCLC1", "MCLC5",
          "TRI1a", "TRI2b", "orcf", "tri"]
NAMES = ["Cr1", "@#", "fe3", "CrSBr", "123a", "S", "X", "Sp", "_Br_", "uranium", "o1", "Q"]
SYMBOLS = ["H", "He", "li1", "B", "c2", "N", "O", "F", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "As",
           "Se", "Br", "Y", "Zr", "Nb", "Mo", "Ag", "In", "Sn", "Sb", "Te", "I", "Xe", "Ba", "La", "Gd", "W", "Pt", "Au", "Hg", "Pb", "Bi", "U", "Og"]
PATHS = ["GAMMA-X-Y|S-GAMMA", "K1-K2", "A-B-C|D-E", "G|A", "", "A-B||C-D"]
POSCAR = ["c\n1.0\n1 0 0\n0 1 0\n0 0 2\nFe O\n1 1\nDirect\n0 0 0.5\n0.5 0.5 0\n",
          "c2\n2.5\n1 0 0.1\n0 1 0\n0 0 2\nFe\n2\nCartesian\n0 0 0.5\n0.5 0.5 0\n", "broken\n1.0\n1 0\n"]


def _vec(rng):
    return [round(rng.uniform(-3, 3), 2) for _ in range(3)]


# name -> (weight, tags, generator of arguments(rng, struct), function(world, call))
T = {}


def call(name, weight, tags, gen):
    def deco(fn):
        T[name] = (weight, frozenset(tags.split()), gen, fn)
        return fn

    return deco


def none(rng, s):
    return {}


def conv(rng, s):
    c = rng.choice(CONV)
    return {"convention": rng.choice([c, c, c, c.lower(), c.upper(), "spglib", "none"] if rng.random() < 0.3 else [c])}


def atom_pair(rng, s):
    n = len(s["atoms"]["positions"])
    return {"atom1": rng.randrange(n), "atom2": rng.randrange(n), "R": [rng.randrange(-1, 2) for _ in range(3)]}


def W():
    import wulfric

    return wulfric


@call("conventional", 5, "sym sd", conv)
def _(w, c):
    return W().crystal.get_conventional(w.cell(c), w.atoms(c), spglib_data=w.sd(c), **c["a"])


@call("primitive", 5, "sym sd", conv)
def _(w, c):
    return W().crystal.get_primitive(w.cell(c), w.atoms(c), spglib_data=w.sd(c), **c["a"])


@call("points", 5, "sym sd", lambda rng, s: {**conv(rng, s), "with_time_reversal": rng.random() < 0.6, "relative": rng.random() < 0.7})
def _(w, c):
    return W().kpoints.get_path_and_points(w.cell(c), w.atoms(c), spglib_data=w.sd(c), **c["a"])


@call("kpoints", 4, "sym sd", lambda rng, s: {**conv(rng, s), "with_time_reversal": rng.random() < 0.6, "n": rng.choice([0, 1, 3])})
def _(w, c):
    return W().Kpoints.from_crystal(w.cell(c), w.atoms(c), spglib_data=w.sd(c), **c["a"])


@call("kvalues", 3, "sym sd", lambda rng, s: {"convention": rng.choice(CONV), "n": rng.choice([0, 1, 4]), "relative": rng.random() < 0.5})
def _(w, c):
    a = c["a"]
    kp = W().Kpoints.from_crystal(w.cell(c), w.atoms(c), convention=a["convention"], n=a["n"], spglib_data=w.sd(c))
    return {"path": kp.path_string, "labels": kp.labels, "ticks": kp.ticks(relative=a["relative"]), "points": kp.points(relative=a["relative"]),
            "flat": kp.flat_points(relative=a["relative"])}


@call("table", 2, "sym sd", lambda rng, s: {"decimals": rng.choice([0, 3, 8]), "convention": rng.choice(CONV)})
def _(w, c):
    kp = W().Kpoints.from_crystal(w.cell(c), w.atoms(c), convention=c["a"]["convention"], n=1, spglib_data=w.sd(c))
    return re.sub(r"-(0\.?0*)(?![0-9])", r" \1", kp.hs_table(decimals=c["a"]["decimals"]))


def _script(rng, s):
    out = []
    for _ in range(rng.choice([1, 2, 4])):
        n = rng.choice(["K1", "K2", "A", "B"])
        out.append(rng.choice([["add", n, [rng.choice([0, 0.5, 0.25]) for _ in range(3)], rng.choice([None, "$L$"]), rng.random() < 0.5], ["remove", n],
                               ["path", rng.choice(["K1-K2", "K1-A|K2-K3", "K3-K2-K1", [["K1", "K3"]], [["K2", "K1"], ["K3", "K1", "A"]]])], ["n", rng.choice([0, 2, 5, -1])], ["copy"],
                               ["read", rng.choice(["hs_table", "labels", "ticks", "points", "flat_points"])], ["remove", "all"]]))
    return {"script": out, "n": rng.choice([0, 1, 7])}


@call("edited", 2, "", _script)
def _(w, c):
    kp = W().Kpoints(W().cell.get_reciprocal(w.cell(c)), coordinates=[[0, 0, 0], [0.5, 0, 0], [0.25, 0.5, 0]], n=c["a"]["n"])
    said = []
    for o in c["a"]["script"]:
        try:
            if o[0] == "add":
                kp.add_hs_point(o[1], o[2], label=o[3], relative=o[4])
            elif o[0] == "remove":
                for n in ("K1", "K2", "K3", "A", "B") if o[1] == "all" else [o[1]]:
                    kp.remove_hs_point(n)
            elif o[0] == "read":
                said.append(getattr(kp, o[1])() if o[1] != "labels" else kp.labels)
                continue
            elif o[0] == "copy":
                kp = kp.copy()
            else:
                setattr(kp, o[0], o[1])
            said.append("ok")
        except (ValueError, KeyError, TypeError, IndexError) as e:
            said.append(type(e).__name__)
    return {"said": said, "kp": kp, "path": kp.path_string}


@call("variation", 2, "sym sd", none)
def _(w, c):
    return W().crystal.sc_get_variation(w.cell(c), w.atoms(c), spglib_data=w.sd(c))


@call("symbol", 2, "sym sd", none)
def _(w, c):
    return W().crystal.hpkot_get_extended_bl_symbol(w.cell(c), w.atoms(c), spglib_data=w.sd(c))


@call("spglib_data", 3, "sym", lambda rng, s: {"spglib_symprec": rng.choice([1e-5, 1e-5, 1e-3, 1e-2]), "spglib_angle_tolerance": rng.choice([-1, -1, 2.0])})
def _(w, c):
    return W().get_spglib_data(w.cell(c), w.atoms(c), **c["a"])


@call("validate_data", 1, "sd!", none)
def _(w, c):
    return W().validate_spglib_data(w.cell(c), w.atoms(c), w.sd(c) or w.data(c["s"], [1e-5, -1]))


@call("foreign", 0.7, "sym", lambda rng, s: {"what": rng.choice(["cell", "positions", "types", "more"]), "user": rng.choice(["conventional", "primitive", "points", "kpoints", "variation", "symbol", "validate"])})
def _(w, c):
    """Data of another structure, which is refused."""
    cell, atoms = np.array(w.cell(c), dtype=float), dict(w.atoms(c))
    pos = [[float(x) for x in p] for p in atoms["positions"]]
    other = dict(positions=pos, spglib_types=list(W().get_spglib_types(atoms)))
    what = c["a"]["what"]
    if what == "positions":
        pos[-1] = [x + 0.03 for x in pos[-1]]
    elif what == "types":
        other["spglib_types"][-1] += 1
    elif what == "more":
        pos.append([x + 0.41 for x in pos[-1]])
        other["spglib_types"].append(1)
    data = W().get_spglib_data(cell * 1.01 if what == "cell" else cell, other)
    cell, atoms, u = w.cell(c), w.atoms(c), c["a"]["user"]
    if u == "validate":
        return W().validate_spglib_data(cell, atoms, data)
    if u in ("conventional", "primitive"):
        return getattr(W().crystal, "get_" + u)(cell, atoms, spglib_data=data)
    f = {"points": W().kpoints.get_path_and_points, "kpoints": W().Kpoints.from_crystal, "variation": W().crystal.sc_get_variation, "symbol": W().crystal.hpkot_get_extended_bl_symbol}[u]
    return f(cell, atoms, spglib_data=data)


@call("types", 2, "alias", none)
def _(w, c):
    return W().get_spglib_types(w.atoms(c))


@call("validate_atoms", 1, "", lambda rng, s: {"required_keys": rng.choice([None, ["names"], ["positions"], ["charge"]]), "raise_errors": rng.random() < 0.7})
def _(w, c):
    return W().crystal.validate_atoms(w.atoms(c), **c["a"])


@call("unique", 2, "inplace alias", lambda rng, s: {"strategy": rng.choice(["all", "repeated-only", "ALL", "other"])})
def _(w, c):
    return W().crystal.get_unique_names(w.atoms(c), **c["a"])


@call("species1", 1, "", lambda rng, s: {"name": rng.choice(NAMES), "raise_on_fail": rng.random() < 0.4})
def _(w, c):
    return W().crystal.get_atom_species(**c["a"])


@call("species_many", 1, "", lambda rng, s: {"names": rng.sample(SYMBOLS, 12)})
def _(w, c):
    return [W().crystal.get_atom_species(n) for n in c["a"]["names"]]


@call("species", 1, "", lambda rng, s: {"raise_on_fail": rng.random() < 0.4})
def _(w, c):
    return W().crystal.get_atoms_species(w.atoms(c), **c["a"])


@call("vector", 1, "", lambda rng, s: {**atom_pair(rng, s), "return_relative": rng.random() < 0.5})
def _(w, c):
    return W().crystal.get_vector(w.cell(c), w.atoms(c), **c["a"])


@call("distance", 1, "", atom_pair)
def _(w, c):
    return W().crystal.get_distance(w.cell(c), w.atoms(c), **c["a"])


@call("niggli", 3, "", lambda rng, s: {"implementation": rng.choice(["spglib", "wulfric", "Spglib", "other"] if rng.random() < 0.3 else ["wulfric", "spglib"]),
                                       "max_iterations": rng.choice([100000, 100000, 2])})
def _(w, c):
    return W().cell.get_niggli(w.cell(c), **c["a"])


@call("reciprocal", 1, "", none)
def _(w, c):
    return W().cell.get_reciprocal(w.cell(c))


@call("params", 1, "", none)
def _(w, c):
    return W().cell.get_params(w.cell(c))


@call("from_params", 1, "", lambda rng, s: dict(zip(["a", "b", "c", "alpha", "beta", "gamma"], rng.choice([[1, 2, 3, 90, 90, 90], [3, 3, 5, 90, 90, 120], [2, 3, 4, 70, 80, 85], [1, 1, 1, 170, 10, 30]]))))
def _(w, c):
    return W().cell.from_params(**c["a"])


@call("scalars", 1, "", none)
def _(w, c):
    return W().cell.get_scalar_products(w.cell(c))


@call("transformation", 1, "", none)
def _(w, c):
    cell = w.cell(c)
    return W().cell.get_transformation_matrix(cell, np.array([[0, 1, 0], [1, 0, 1], [0, 0, 1]]) @ np.array(cell))


@call("lattice_points", 1, "", lambda rng, s: {"range": [rng.randrange(2), 1, rng.randrange(3)], "relative": rng.random() < 0.5, "flat": rng.random() < 0.5})
def _(w, c):
    return W().cell.get_lattice_points(w.cell(c), **c["a"])


@call("wigner", 0.3, "scipy slow", none)
def _(w, c):
    return W().cell.get_wigner_seitz_cell(w.cell(c))


@call("brillouin", 0.3, "scipy slow", none)
def _(w, c):
    return W().cell.get_brillouin_zone(w.cell(c))


@call("lepage", 0.8, "slow", lambda rng, s: {"no_niggli": rng.random() < 0.3, "give_all_results": rng.random() < 0.3, "skew": rng.choice([0, 0, 3])})
def _(w, c):
    a = dict(c["a"])
    k = a.pop("skew")
    cell = w.cell(c)
    return W().lepage(np.array([[1, 0, 0], [k, 1, 0], [0, -k, 1]]) @ np.array(cell, dtype=float) if k else cell, **a)


@call("volume", 1, "", none)
def _(w, c):
    return W().geometry.get_volume(w.cell(c))


@call("angle", 1, "", lambda rng, s: {"v1": _vec(rng), "v2": rng.choice([_vec(rng), [0, 0, 0]]), "radians": rng.random() < 0.3})
def _(w, c):
    return W().geometry.get_angle(**c["a"])


@call("spherical", 1, "", lambda rng, s: {"vector": _vec(rng), "in_degrees": rng.random() < 0.5})
def _(w, c):
    return W().geometry.get_spherical(**c["a"])


@call("parallelepiped", 1, "", lambda rng, s: {**dict(zip(["a", "b", "c", "alpha", "beta", "gamma"], rng.choice([[1, 2, 3, 90, 90, 90], [1, 1, 1, 170, 10, 30], [0, 1, 1, 90, 90, 90]]))), "raise_error": rng.random() < 0.5})
def _(w, c):
    return W().geometry.parallelepiped_check(**c["a"])


@call("compare", 1, "", lambda rng, s: {"x": rng.choice([1.0, 1.0 + 1e-9, 2.0]), "condition": rng.choice(["<", ">", "==", "<=", ">=", "!=", "~"]), "y": 1.0})
def _(w, c):
    return W().compare_with_tolerance(**c["a"])


@call("path_list", 1, "", lambda rng, s: {"path_as_string": rng.choice(PATHS)})
def _(w, c):
    return W().kpoints.get_path_as_list(**c["a"])


@call("path_string", 1, "", lambda rng, s: {"path_as_list": rng.choice([[["G", "X"], ["A", "B"]], [["G", "X", "M"]], []])})
def _(w, c):
    return W().kpoints.get_path_as_string(**c["a"])


@call("sc_example", 2, "", lambda rng, s: {"lattice_variation": rng.choice(SC_VAR + ["nothing"])})
def _(w, c):
    return W().cell.sc_get_example(**c["a"])


@call("sc_cell", 1, "", lambda rng, s: rng.choice([{"f": "SC_CUB", "p": [2.0]}, {"f": "SC_TET", "p": [1.0, 2.0]}, {"f": "SC_RHL", "p": [2.0, 70.0]}, {"f": "SC_MCLC", "p": [1.0, 2.0, 3.0, 70.0]}, {"f": "SC_TRI", "p": [1.0, 2.0, 3.0, 70.0, 80.0, 85.0]}, {"f": "SC_MCL", "p": [3.0, 2.0, 1.0, 110.0]}]))
def _(w, c):
    return getattr(W().cell, c["a"]["f"])(*c["a"]["p"])


@call("hpkot_example", 2, "io", lambda rng, s: {"extended_bl_symbol": rng.choice(BLS + ["zz"]), "with_inversion": rng.random() < 0.4})
def _(w, c):
    return W().crystal.hpkot_get_example(**c["a"])


@call("shift", 2, "inplace", lambda rng, s: {"gravity_point": _vec(rng), "gp_is_relative": rng.random() < 0.6})
def _(w, c):
    W().crystal.shift_atoms(w.atoms(c), cell=w.cell(c), **c["a"])
    return w.atoms(c)


@call("cure", 2, "inplace", none)
def _(w, c):
    W().crystal.cure_negative(w.atoms(c))
    return w.atoms(c)


@call("ensure", 2, "inplace", none)
def _(w, c):
    W().crystal.ensure_000(w.atoms(c))
    return w.atoms(c)


@call("sugar", 1, "alias", none)
def _(w, c):
    return W().add_sugar(w.atoms(c))


@call("unsugar", 1, "alias", none)
def _(w, c):
    return W().remove_sugar(w.atoms(c))


@call("load", 1, "io", lambda rng, s: {"text": rng.choice(POSCAR)})
def _(w, c):
    return W().io.load_poscar(io.StringIO(c["a"]["text"]))


@call("dump", 1, "io", lambda rng, s: {"mode": rng.choice(["Direct", "Cartesian", "direct"]), "decimals": rng.choice([3, 8]), "comment": "fixed"})
def _(w, c):
    f = io.StringIO()
    W().io.dump_poscar(w.cell(c), w.atoms(c), f, **c["a"])
    return f.getvalue()


@call("logo", 0.5, "", lambda rng, s: {"flat": rng.random() < 0.5, "comment": rng.choice([None, True, "%"]), "line_length": rng.choice([None, 80])})
def _(w, c):
    return W().logo(**c["a"])


@call("figure", 1, "plotly slow", lambda rng, s: {"plots": rng.sample(["cell", "atoms", "lattice", "kpath", "kpoints", "vector"], rng.choice([1, 2])), "row": 1})
def _(w, c):
    pe = W().PlotlyEngine()
    cell, atoms = w.cell(c), w.atoms(c)
    for p in c["a"]["plots"]:
        if p == "cell":
            pe.plot_cell(cell, legend_group="a", legend_label="cell")
        elif p == "atoms":
            pe.plot_atoms(cell, atoms, legend_group="b")
        elif p == "lattice":
            pe.plot_lattice(cell, legend_group="c")
        elif p == "vector":
            pe.plot_vector([0, 0, 0], [1, 2, 3], vector_label="v", legend_group="d")
        else:
            kp = W().Kpoints.from_crystal(cell, atoms, n=1)
            (pe.plot_kpath if p == "kpath" else pe.plot_kpoints)(kp, legend_group="e")
    return pe.fig.to_plotly_json()


def warm_plotly():
    """Loads the figure classes of plotly, without any call of the library."""
    from plotly.subplots import make_subplots

    f = make_subplots(rows=1, cols=1, specs=[[{"type": "scene"}]])
    f.update_layout(template="none")
    f.add_traces(data=dict(type="scatter3d", x=[0], y=[0], z=[0]), rows=1, cols=1)
    f.to_plotly_json()


def tags(name):
    return T[name][1]


def pick(rng, structs, only=None, without=("slow",), slow=0.0, i=None, even=False):
    """A random call on one of the structures; with even, every function is as likely as any other."""
    names = [n for n in T if (only is None or n in only)]
    if rng.random() >= slow:
        names = [n for n in names if not (T[n][1] & set(without))] or names
    elif slow < 1:
        names = [n for n in names if T[n][1] & set(without)] or names
    f = rng.choices(names, [float(T[n][0] > 0) if even else T[n][0] for n in names])[0]
    if i is None:
        i = rng.randrange(len(structs))
    c = {"f": f, "s": i, "sd": None, "a": T[f][2](rng, structs[i])}
    if "sd!" in T[f][1] or ("sd" in T[f][1] and rng.random() < 0.35):
        c["sd"] = rng.choice([[1e-5, -1], [1e-5, -1], [1e-3, -1], [1e-2, 5.0]])
    return c


SPECIES = ["Fe", "Cr", "Ni", "Co", "Br", "Cl", "Na", "Mn", "Ti", "Se", "Te", "Mg", "Al", "Zn", "La", "Gd"]


def structure(rng, max_atoms=10, plain=None):
    s = C.make(rng, max_atoms=max_atoms, plain=rng.random() < 0.3 if plain is None else plain)
    out = {"cell": s["cell"], "atoms": s["atoms"], "cform": rng.choice(C.CELL_FORMS), "pform": rng.choice(C.POS_FORMS), "sugar": rng.random() < 0.15}
    r = rng.random()
    if r < 0.06:
        out["atoms"] = {k: v for k, v in out["atoms"].items() if k != "names"}
    elif r < 0.12:
        style = rng.choice([["??0", "??1"], ["q", "Q", "z", "Z"], ["J", "j", "?", "M"], ["Fe", "", "X"], ["A\u00c5", "\u00e5a", "aa"]])
        out["atoms"]["names"] = [style[i % len(style)] for i in range(len(out["atoms"]["names"]))]
        out["atoms"].pop("species", None)
    elif r < 0.2:  # many species
        names = rng.sample(SPECIES, rng.choice([4, 8, 16]))
        n = len(out["atoms"]["positions"])
        out["atoms"] = {"positions": out["atoms"]["positions"], "names": [f"{names[i % len(names)]}{rng.choice(['', i, '_a'])}" for i in range(n)]}
        if rng.random() < 0.4:
            out["atoms"]["species"] = [names[i % len(names)] for i in range(n)]
    return out


def sib(rng, s, kind=None):
    t = C.sibling(rng, kind=kind, s={"cell": s["cell"], "atoms": {**s["atoms"], "names": s["atoms"].get("names") or ["Fe"] * len(s["atoms"]["positions"])}})
    return {**s, "cell": t["cell"], "atoms": t["atoms"]}


class World:
    """Live objects of one run."""

    def __init__(self, structs):
        self.cells = []
        self.atom = []
        self.stored = {}
        for s in structs:
            c, a = self.make(s)
            self.cells.append(c)
            self.atom.append(a)

    @staticmethod
    def make(s):
        c = C.build_cell(s["cell"], s.get("cform", "list"))
        a = C.build_atoms(s["atoms"], s.get("pform", "list"))
        if s.get("sugar"):
            a = W().add_sugar(a)
        return c, a

    def cell(self, c):
        return self.cells[c["s"]]

    def atoms(self, c):
        return self.atom[c["s"]]

    def sd(self, c):
        return None if c.get("sd") is None else self.data(c["s"], c["sd"])

    def data(self, i, tol):
        k = (i, tuple(tol))
        if k not in self.stored:
            self.stored[k] = W().get_spglib_data(self.cells[i], self.atom[i], spglib_symprec=tol[0], spglib_angle_tolerance=tol[1])
        return self.stored[k]

    def prepare(self, calls):
        """Makes the stored spglib data that the calls use; a structure that spglib refuses is used without."""
        for c in calls:
            if c.get("sd") is not None:
                try:
                    self.data(c["s"], c["sd"])
                except Exception:  # noqa: BLE001
                    c["sd"] = None

    def values(self):
        return [[canon(c), canon(a)] for c, a in zip(self.cells, self.atom)] + [canon(v) for v in self.stored.values()]


class Warned:
    """Every warning, with the thread that caused it."""

    def __init__(self):
        self.seen = []

    def __enter__(self):
        self.keep = (warnings.filters[:], warnings.showwarning)
        warnings.simplefilter("always")
        warnings.showwarning = lambda m, cat, *a, **k: self.seen.append((threading.get_ident(), cat.__name__, str(m)))
        return self

    def __exit__(self, *a):
        warnings.filters[:] = self.keep[0]
        warnings.showwarning = self.keep[1]
        warnings._filters_mutated() if hasattr(warnings, "_filters_mutated") else None

    def take(self):
        me = threading.get_ident()
        out = [[c, m] for t, c, m in self.seen if t == me]
        self.seen = [x for x in self.seen if x[0] != me]
        return out


def invoke(w, c):
    return T[c["f"]][3](w, c)


def record(w, c, warned=None, keep=None):
    """The outcome of a call in canonical form: value or kind of error, and the warnings."""
    r = outcome(lambda: invoke(w, c))
    if keep is not None:
        keep.append(r[1] if r[0] == "ok" else None)
    out = ["ok", canon(r[1])] if r[0] == "ok" else ["exc", r[1], r[2]]
    out.append(warned.take() if warned else [])
    return out


def same(a, b, tol=1e-9, messages=True):
    """None if two recorded outcomes agree, else a short text."""
    if a[0] != b[0]:
        return f"{brief(a)} instead of {brief(b)}"
    if a[0] == "exc":
        return None if a[1] == b[1] else f"{brief(a)} instead of {brief(b)}"
    d = diff(a[1], b[1], tol)
    if d:
        return d
    return None  # warnings are recorded and not compared: Python itself shows each of them once per place


def brief(r):
    return (f"{r[1]}: {r[2][:160]}" if r[0] == "exc" else "value " + json.dumps(r[1], default=repr)[:160])


def constants():
    """Canonical image of every constant of the package."""
    import sys

    import wulfric

    out = []
    for m in sorted(n for n in sys.modules if n.startswith("wulfric.constants.")):
        for k, v in sorted(vars(sys.modules[m]).items()):
            if not k.startswith("__") and isinstance(v, (dict, list, tuple, set, frozenset, np.ndarray, int, float, str)):
                out.append([m, k, canon(v)])
    return out


def show(c, structs=None):
    s = "" if structs is None else f" on {structs[c['s']].get('cform')}/{structs[c['s']].get('pform')}"
    sd = f" with stored data {c['sd']}" if c.get("sd") is not None else ""
    return f"{c['f']}({', '.join(f'{k}={v}' for k, v in c['a'].items())}) of structure {c['s']}{s}{sd}"
