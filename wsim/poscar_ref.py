"""Independent model of the POSCAR format: a printer of every dialect and a reader with three verdicts."""
import re

import numpy as np

_NUM = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
_INT = re.compile(r"^[+-]?\d+$")


def split_lines(text):
    """Lines as a text-mode reader with universal newlines sees them."""
    return text.replace("\r\n", "\n").replace("\r", "\n").split("\n")


def num(tok):
    return float(tok) if _NUM.match(tok) else None


class Odd(Exception):
    """The text is outside the format: refusing it is right, and so is nothing else."""


class Vague(Exception):
    """The text is at the edge of the format: any reading or refusal is accepted."""


def row(line, exact):
    tok = line.split()
    if len(tok) < 3:
        raise Odd(f"row with {len(tok)} numbers: {line!r}")
    v = [num(t) for t in tok[:3]]
    if any(x is None for x in v):
        for t in tok[:3]:
            try:
                float(t)
            except ValueError:
                raise Odd(f"not a number: {t!r}")
        raise Vague("number in an unusual notation")
    if max(abs(x) for x in v) > 1e7:
        raise Vague("extreme number")
    if exact and len(tok) > 3:
        raise Vague("extra words")
    return v


def read(text):
    """("ok", cell, names, positions, comment) | ("bad", why) | ("vague", why)."""
    try:
        return _read(text)
    except Odd as e:
        return ("bad", str(e))
    except Vague as e:
        return ("vague", str(e))


def _line(lines, i):
    if i >= len(lines):
        raise Odd(f"line {i + 1} is missing")
    return lines[i]


def _read(text):
    if any(ord(c) in (0x0B, 0x0C, 0x1C, 0x1D, 0x1E, 0x85, 0x2028, 0x2029, 0xA0, 0x00, 0x1F) for c in text):
        raise Vague("unusual separators")
    lines = split_lines(text)
    if lines and lines[-1] == "":
        lines.pop()
    comment = _line(lines, 0).strip()
    stok = _line(lines, 1).split()
    scale = []
    for t in stok:
        v = num(t)
        if v is None:
            try:
                float(t)
            except ValueError:
                raise Odd("scale factor is not a number") if len(scale) not in (1, 3) else Vague("comment after the scale factor")
            raise Vague("unusual scale factor")
        scale.append(v)
    cell = np.array([row(_line(lines, i), True) for i in (2, 3, 4)])
    if len(scale) == 1:
        if scale[0] == 0:
            raise Vague("zero scale")
        f = np.array([scale[0]] * 3)
        if scale[0] < 0:
            vol = abs(np.linalg.det(cell))
            if vol == 0:
                raise Vague("flat cell")
            f = np.array([(abs(scale[0]) / vol) ** (1 / 3)] * 3)
    elif len(scale) == 3:
        if min(scale) <= 0:
            raise Odd("three scale factors that are not all positive")
        f = np.array(scale)
    else:
        raise Odd(f"{len(scale)} scale factors")
    if f.max() > 1e8 or f.min() < 1e-8:
        raise Vague("extreme scale")
    cell = cell * f[None, :]
    if abs(np.linalg.det(cell)) < 1e-6 * np.prod(np.linalg.norm(cell, axis=1) + 1e-30):
        raise Vague("flat cell")
    l5 = _line(lines, 5).split()
    if not l5:
        raise Vague("empty species line")
    if all(_INT.match(t) for t in l5):
        names, counts, i = None, l5, 6
    else:
        # a line that mixes words and numbers is neither
        if any(_INT.match(t) for t in l5) or any(num(t) is not None for t in l5):
            raise Vague("numbers among the species names")
        names, counts, i = l5, _line(lines, 6).split(), 7
        if not all(_INT.match(t) for t in counts):
            bad = [t for t in counts if not _INT.match(t)]
            if all(_INT.match(t) for t in counts[: len(names)]) and len(counts) > len(names):
                raise Vague("text after the counts")
            for t in bad:
                try:
                    int(t)
                except ValueError:
                    raise Odd(f"count {t!r}")
            raise Vague("unusual count")
        if len(names) != len(counts):
            raise Odd(f"{len(names)} species names and {len(counts)} counts")
    counts = [int(c) for c in counts]
    if any(c < 0 for c in counts):
        raise Vague("negative count")
    if sum(counts) == 0:
        raise Vague("no atoms")
    mode = _line(lines, i)
    if mode[:1] in ("S", "s"):
        i += 1
        mode = _line(lines, i)
    if mode[:1] in ("C", "c", "K", "k"):
        cart = True
    elif mode[:1] in ("D", "d"):
        cart = False
    else:
        raise Vague("unknown mode line")
    i += 1
    pos, labels = [], []
    for k, c in enumerate(counts):
        for _ in range(c):
            pos.append(row(_line(lines, i), False))
            labels.append(names[k] if names else f"X{k + 1}")
            i += 1
    pos = np.array(pos)
    if cart and np.linalg.cond(cell) > 1e8:
        raise Vague("nearly flat cell")
    if cart:
        pos = (pos * f[None, :]) @ np.linalg.inv(cell)
    return ("ok", cell, labels, pos, comment)


def print_poscar(rng, cell, species, positions, comment="structure", **opt):
    """A POSCAR text in a randomly chosen dialect.  `species` is grouped here, sometimes with several groups of one species.  Returns the text."""
    groups = []
    if rng.random() < 0.3:
        for i, s in enumerate(species):
            if groups and groups[-1][0] == s and rng.random() < 0.8:
                groups[-1][1].append(i)
            else:
                groups.append([s, [i]])
    else:
        for s in dict.fromkeys(species):
            groups.append([s, [i for i, t in enumerate(species) if t == s]])
    scale = opt.get("scale", rng.choice([["1.0"], ["1"], ["2.5"], ["-V"], ["0.5", "0.5", "2.0"], ["1.0", "2.0", "1.5"]]))
    cart = opt.get("cart", rng.random() < 0.4)
    sel = opt.get("sel", rng.random() < 0.3)
    named = opt.get("named", rng.random() < 0.8)
    dec = rng.choice([3, 6, 10, 16])
    cell = np.array(cell, float)
    out = [comment, " ".join(scale)]
    if scale == ["-V"]:
        out[1] = f"-{rng.uniform(20, 400):.4f}"
    for r in cell:
        out.append(rng.choice(["", "  ", "\t"]) + "  ".join(f"{x:.{dec}f}" for x in r))
    if named:
        out.append("  ".join(s for s, _ in groups))
    out.append(" ".join(str(len(g)) for _, g in groups))
    if sel:
        out.append(rng.choice(["Selective dynamics", "selective", "S"]))
    out.append(rng.choice(["Cartesian", "cart", "K", "c"]) if cart else rng.choice(["Direct", "direct", "D"]))
    for t, group in groups:
        for i in group:
            p = np.array(positions[i], float)
            if cart:
                p = p @ cell
            line = " " + "  ".join(f"{x:.{dec}f}" for x in p)
            if sel:
                line += "  " + " ".join(rng.choice("TF") for _ in range(3))
            elif rng.random() < 0.1:
                line += f"  {t}"
            out.append(line)
    tail = rng.random()
    if opt.get("tail", tail < 0.25):
        out.append("")
        for _ in species:
            out.append("  0.00100000  -0.00200000   0.00000000")
    text = "\n".join(out)
    return text + ("\n" if rng.random() < 0.9 else "")
