"""Structures for the workloads.  Everything here is independent of the code under test; values in plans are literals."""
import json
import math
import os

import numpy as np

POOL = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "pool.json")))
SPECIES = ["Fe", "Cr", "Br", "S", "O", "Si", "C", "N", "Na", "Cl", "I", "Te", "Ni", "H", "P", "K", "V", "W", "U", "B"]


def base(rng, max_atoms=16, lattice=None):
    while True:
        p = rng.choice(POOL)
        if len(p["names"]) <= max_atoms and (lattice is None or p["name"][:2] == lattice):
            return {"cell": [list(r) for r in p["cell"]],
                    "atoms": {"names": list(p["names"]), "positions": [list(r) for r in p["positions"]]},
                    "origin": p["name"]}


def rotation(rng):
    while True:
        q = np.array([rng.gauss(0, 1) for _ in range(4)])
        n = np.linalg.norm(q)
        if n > 1e-3:
            break
    w, x, y, z = q / n
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


UNIMOD = [[[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 1], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [-1, 0, 1]],
          [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[0, 1, 0], [-1, 0, 0], [0, 0, 1]]]
SUPER = [[[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 3]],
         [[1, 0, 0], [0, 2, 0], [0, 1, 1]]]


def rotate(s, r):
    s["cell"] = (np.array(s["cell"]) @ np.array(r).T).tolist()


def rebase(s, m):
    """Same crystal in the basis m @ cell (integer matrix; |det| > 1 gives a supercell)."""
    m = np.array(m)
    n = int(round(abs(np.linalg.det(m))))
    inv = np.linalg.inv(m)
    pos = np.array(s["atoms"]["positions"])
    keys = [k for k in s["atoms"] if k != "positions"]
    out = {k: [] for k in s["atoms"]}
    if n == 1:
        out["positions"] = (pos @ inv).tolist()
        for k in keys:
            out[k] = list(s["atoms"][k])
    else:
        seen_cells = []
        rng = range(-4, 5)
        for i in rng:
            for j in rng:
                for k in rng:
                    f = (np.array([i, j, k]) @ inv)
                    f = f - np.floor(f + 1e-9)
                    if not any(np.allclose((f - g + 0.5) % 1, 0.5, atol=1e-6) for g in seen_cells):
                        seen_cells.append(f)
        for a in range(len(pos)):
            for f in seen_cells:
                out["positions"].append((pos[a] @ inv + f).tolist())
                for k in keys:
                    out[k].append(s["atoms"][k][a])
    s["cell"] = (m @ np.array(s["cell"])).tolist()
    s["atoms"] = out


def translate(s, t):
    s["atoms"]["positions"] = [[float(p[i]) + t[i] for i in range(3)] for p in s["atoms"]["positions"]]


def species_of(name):
    return "".join(c for c in name if c.isalpha())


def make(rng, max_atoms=16, lattice=None, plain=False, extras=True):
    """A structure with literal values."""
    s = base(rng, max_atoms=max_atoms if not plain else min(max_atoms, 8), lattice=lattice)
    if not plain:
        if rng.random() < 0.4:
            rotate(s, rotation(rng))
        if rng.random() < 0.35:
            rebase(s, rng.choice(UNIMOD))
        if rng.random() < 0.15 and len(s["atoms"]["names"]) <= 6:
            rebase(s, rng.choice(SUPER))
        if rng.random() < 0.3:
            translate(s, [round(rng.uniform(-1.5, 1.5), 3) for _ in range(3)])
        if rng.random() < 0.15:
            k = rng.choice([0.37, 1.9, 3.0])
            s["cell"] = [[x * k for x in r] for r in s["cell"]]
        if rng.random() < 0.1:
            s["cell"][rng.randrange(3)][rng.randrange(3)] += rng.choice([0.05, 0.3])
        if rng.random() < 0.1:
            i = rng.randrange(len(s["atoms"]["positions"]))
            s["atoms"]["positions"][i][rng.randrange(3)] += rng.choice([0.01, 0.07])
        if rng.random() < 0.25:
            permute(s, rng)
    names = s["atoms"]["names"]
    style = rng.randrange(4)
    if style == 1:
        s["atoms"]["names"] = [f"{n}{i + 1}" for i, n in enumerate(names)]
    elif style == 2:
        cnt = {}
        out = []
        for n in names:
            cnt[n] = cnt.get(n, 0) + 1
            out.append(f"{n}{cnt[n]}")
        s["atoms"]["names"] = out
    elif style == 3 and extras:
        s["atoms"]["species"] = list(names)
    if extras:
        if rng.random() < 0.2:
            order = sorted(set(names))
            rng.shuffle(order)
            s["atoms"]["spglib_types"] = [order.index(n) + 1 for n in names]
        if rng.random() < 0.2:
            s["atoms"]["charge"] = [float(SPECIES.index(n) + 1) if n in SPECIES else 0.5 for n in names]
        if rng.random() < 0.15:
            s["atoms"]["moment"] = [[0.0, 0.5, float(len(n))] for n in names]
    return s


def permute(s, rng):
    n = len(s["atoms"]["positions"])
    idx = list(range(n))
    rng.shuffle(idx)
    s["atoms"] = {k: [v[i] for i in idx] for k, v in s["atoms"].items()}


def clone(s):
    return json.loads(json.dumps(s))


def sibling(rng, s, kind=None):
    """A structure that is close to s in one respect: the kind of neighbour a wrong cache key confuses with it."""
    t = clone(s)
    a = t["atoms"]
    n = len(a["positions"])
    kind = kind or rng.choice(["nudge", "swap", "rename", "rotate", "scale", "permute", "cellrow", "types", "shift", "same", "drop", "strain", "tiny", "handed", "pile", "one", "colsort"])
    if kind == "nudge":
        a["positions"][rng.randrange(n)][rng.randrange(3)] += rng.choice([0.03, 0.11, -0.05])
    elif kind == "tiny":
        if rng.random() < 0.5:
            a["positions"][rng.randrange(n)][rng.randrange(3)] += rng.choice([4e-4, -2e-3])
        else:
            t["cell"] = [[x * 1.0004 for x in r] for r in t["cell"]]
    elif kind == "handed":
        t["cell"] = [[-x for x in r] for r in t["cell"]]
    elif kind == "swap" and n > 1:
        i, j = rng.sample(range(n), 2)
        for k in a:
            if k != "positions":
                a[k][i], a[k][j] = a[k][j], a[k][i]
    elif kind == "rename":
        old = sorted(set(species_of(x) for x in a["names"]))
        new = rng.sample(SPECIES, len(old))
        m = dict(zip(old, new))
        a["names"] = [x.replace(species_of(x), m[species_of(x)]) if species_of(x) else x for x in a["names"]]
        if "species" in a:
            a["species"] = [m.get(x, x) for x in a["species"]]
    elif kind == "rotate":
        rotate(t, rotation(rng))
    elif kind == "scale":
        k = rng.choice([0.5, 1.01, 2.0])
        t["cell"] = [[x * k for x in r] for r in t["cell"]]
    elif kind == "permute":
        permute(t, rng)
    elif kind == "cellrow":
        t["cell"] = [t["cell"][1], t["cell"][2], t["cell"][0]]
    elif kind == "types":
        names = a["names"]
        a["spglib_types"] = [1 + (i % 2) for i in range(n)] if rng.random() < 0.5 else [1] * n
    elif kind == "shift":
        translate(t, [0.25, 0.0, 0.125])
    elif kind == "pile":  # more atoms of other kinds at the place of one: shapes that broadcast against each other
        m = rng.choice([2, 3])
        t["atoms"] = a = {k: clone([v[0]] * m) for k, v in a.items()}
        for k, names in (("names", rng.sample(SPECIES, 3)), ("species", None), ("spglib_types", [1, 2, 3])):
            if k in a and names:
                a[k] = [a[k][0]] + names[1:len(a[k])]
        if "species" in a:
            a["species"] = [a["species"][0]] + [species_of(x) for x in a["names"][1:]]
    elif kind == "one":
        t["atoms"] = {k: v[:1] for k, v in a.items()}
    elif kind == "colsort":  # the same coordinates along every axis, combined to other positions
        c = rng.randrange(3)
        col = [p[c] for p in a["positions"]]
        rng.shuffle(col)
        for p, x in zip(a["positions"], col):
            p[c] = x
    elif kind == "drop" and n > 1:
        i = rng.randrange(n)
        t["atoms"] = {k: v[:i] + v[i + 1:] for k, v in a.items()}
    elif kind == "strain":
        t["cell"] = [[x * (1.02 if c == 2 else 1.0) for c, x in enumerate(r)] for r in t["cell"]]
    t["sibling"] = kind
    return t


CELL_FORMS = ["list", "nd", "ndF", "tuple"]
POS_FORMS = ["list", "nd", "rows"]


def build_cell(cell, form):
    if form == "nd":
        return np.array(cell, dtype=float)
    if form == "ndF":
        return np.asfortranarray(np.array(cell, dtype=float))
    if form == "tuple":
        return tuple(tuple(r) for r in cell)
    return [list(r) for r in cell]


def build_atoms(atoms, form, sugar=None):
    out = {}
    for k, v in atoms.items():
        if k == "positions":
            if form == "nd":
                out[k] = np.array(v, dtype=float).reshape(-1, 3)
            elif form == "rows":
                out[k] = [np.array(r, dtype=float) for r in v]
            else:
                out[k] = [list(r) for r in v]
        else:
            out[k] = json.loads(json.dumps(v))
    return sugar(out) if sugar else out


def reform(x, form):
    """The same numbers of an (N, 3) table in another of the forms that array-like covers."""
    a = np.array(x, dtype=float)
    if form == "nd":
        return a
    if form == "ndF":
        return np.asfortranarray(a)
    if form == "strided":
        wide = np.full((2 * len(a), 6), 7.25)
        wide[::2, ::2] = a
        return wide[::2, ::2]
    if form == "backward":
        return np.array(a[::-1])[::-1]
    if form == "readonly":
        a.setflags(write=False)
        return a
    if form == "tuple":
        return tuple(tuple(float(v) for v in r) for r in a)
    if form == "rows":
        return [np.array(r) for r in a]
    if form == "scalars":
        return [list(r) for r in a]
    if form == "ints" and np.array_equal(a, np.round(a)):
        return [[int(v) for v in r] for r in a]
    if form == "intarray" and np.array_equal(a, np.round(a)):
        return a.astype(int)
    if form == "longdouble":
        return a.astype(np.longdouble)
    return a.tolist()


FORMS = ["nd", "ndF", "strided", "backward", "readonly", "tuple", "rows", "scalars", "ints", "intarray", "list"]


# ------------------------------------------------------------------------- equivalence of crystals
def _mod(f):
    return f - np.round(f)


def _sites(cell, pos, labels, points, plabels, tol):
    """Every point (Cartesian) with its label is a site of the crystal (cell, pos, labels)."""
    inv = np.linalg.inv(cell)
    rel = points @ inv
    for k in range(len(points)):
        cand = [i for i in range(len(pos)) if labels[i] == plabels[k]]
        if not cand:
            return k
        d = _mod(rel[k][None, :] - pos[cand])
        dist = np.linalg.norm(d @ cell, axis=1)
        if dist.min() > tol:
            return k
    return None


def same_crystal(cell1, pos1, lab1, cell2, pos2, lab2, tol=5e-3, translation=True):
    """None if the two descriptions are the same infinite crystal up to a translation, else a reason."""
    cell1, pos1 = np.array(cell1, float), np.array(pos1, float).reshape(-1, 3)
    cell2, pos2 = np.array(cell2, float), np.array(pos2, float).reshape(-1, 3)
    if cell1.shape != (3, 3) or cell2.shape != (3, 3):
        return f"cell shape {cell1.shape} {cell2.shape}"
    if not (np.isfinite(cell1).all() and np.isfinite(cell2).all() and np.isfinite(pos1).all() and np.isfinite(pos2).all()):
        return "non-finite numbers"
    if len(pos1) != len(lab1) or len(pos2) != len(lab2):
        return "number of labels differs from number of positions"
    v1, v2 = abs(np.linalg.det(cell1)), abs(np.linalg.det(cell2))
    if v1 < 1e-9 or v2 < 1e-9:
        return f"degenerate cell, volumes {v1:g} {v2:g}"
    if sorted(set(lab1)) != sorted(set(lab2)):
        return f"species {sorted(set(map(str, lab1)))} became {sorted(set(map(str, lab2)))}"
    for s in sorted(set(lab1)):
        d1, d2 = lab1.count(s) / v1, lab2.count(s) / v2
        if abs(d1 - d2) > 2e-3 * max(d1, d2):
            return f"density of {s}: {d1:.6g} became {d2:.6g}"
    # every lattice vector of either description is a translation of the other
    for (ca, pa, la, cb) in ((cell1, pos1, lab1, cell2), (cell2, pos2, lab2, cell1)):
        for v in cb:
            if _sites(ca, pa, la, pa @ ca + v, la, tol) is not None:
                return f"{np.round(v, 4).tolist()} is a lattice vector of one description and not a translation of the other"
    rare = min(sorted(set(lab1)), key=lambda s: lab1.count(s))
    i2 = lab2.index(rare)
    starts = [i for i in range(len(lab1)) if lab1[i] == rare]
    x1, x2 = pos1 @ cell1, pos2 @ cell2
    shifts = [x1[i] - x2[i2] for i in starts] if translation else [np.zeros(3)]
    for t in shifts:
        if _sites(cell1, pos1, lab1, x2 + t, lab2, tol) is None and _sites(cell2, pos2, lab2, x1 - t, lab1, tol) is None:
            return None
    return "no translation maps the atoms of one description onto the other"


def min_distance(cell, pos):
    cell, pos = np.array(cell, float), np.array(pos, float).reshape(-1, 3)
    best = math.inf
    for i in range(len(pos)):
        d = _mod(pos - pos[i]) @ cell
        r = np.linalg.norm(d, axis=1)
        r[i] = math.inf
        best = min(best, r.min() if len(r) else math.inf)
    return best
