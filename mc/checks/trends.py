"""Trends of the predictions: attenuation with distance (C13), and scaling with
magnitude (C14)."""

import itertools
import json

import numpy as np

from .. import core
from ..catalog import CATALOG
from .contract import lattice, limits, pairwise

DISTANCES = ("dist_rup", "dist_jb", "dist_hyp", "dist_epi")
# The published site response of softer sites can decrease with the level of shaking
STIFF = 360.0


def medians(entry, obs):
    if entry.kind == "duration":
        keys = [
            k
            for k in obs
            if not k.startswith(("std", "interp", "energy", "minus", "plus"))
        ]
    else:
        keys = [k for k in ("spec_accels", "eas", "pga", "pgv", "pgd") if k in obs]
    return {k: obs[k].ravel() for k in keys}


def line(args):
    """Pairs of consecutive points, for which the order is not as expected."""
    entry, base, points, sign, skip = args
    prev, out, n = None, [], 0
    for changes in points:
        s = dict(base, **changes)
        obs = entry.run(s)
        n += 1
        if isinstance(obs, core.Raised):
            out.append((changes, repr(obs)))
            break
        row = medians(entry, obs)
        if prev is not None and not skip(entry, s, changes):
            for k in row:
                diff = sign * (row[k] - prev[k])
                if (~(diff >= -1e-9 * np.abs(prev[k]))).any():
                    i = int(np.argmin(diff / np.abs(prev[k])))
                    out.append((changes, f"{k}[{i}] from {prev[k][i]} to {row[k][i]}"))
                    break
        prev = row
    return n, out


def no_hanging_wall(s):
    return {k: v for k, v in s.items() if k != "on_hanging_wall"}


# -- C13 --------------------------------------------------------------------
def c13_skip(entry, s, changes):
    """Published exceptions."""
    if entry.abbrev in ("TP05", "Pea11", "C03"):
        # Waves that are reflected at the Moho
        return 69 < s["dist_rup"] < 150
    if entry.abbrev == "BSSA14":
        # Correction of the attenuation in China and Turkey exceeds the attenuation:
        # c_1 + c_2 (M - 4.5) + (c_3 + dc_3) R > 0 for R=300 km and M=7.24
        return s["mag"] >= 7.2 and s.get("region") in ("china", "turkey")
    return False


def c13_points(entry, name, s, n):
    lo, hi = limits(entry, name)
    out = []
    for r in core.geo(max(lo, 3.1), hi * (1.0 if entry.abbrev in ("BSSA14", "DBC14") else 1.5), n):
        d = {name: r}
        if name == "dist_rup" and "dist_jb" in s:
            # On the footwall of a rupture at a depth of 3 km
            d["dist_jb"] = float(np.sqrt(r**2 - 9))
            d["dist_x"] = -d["dist_jb"]
        out.append(d)
    return out


def lines(thorough, build):
    seen = set()
    for e in CATALOG:
        if e.kind == "ratio":
            continue
        k = 2 if thorough else 1
        states = itertools.chain(lattice(e, k, 4), pairwise(e, 6 if thorough else 4))
        if e.abbrev == "AB06":
            # Hard rock, and the boundary of the classes
            states = list(states)
            states += [dict(s, v_s30=0.0) for s in states]
        for s in states:
            s = no_hanging_wall(s)
            if 0 < s.get("v_s30", STIFF) < STIFF:
                continue
            for spec in build(e, s):
                key = (e.abbrev, repr(sorted(spec[0].items())), repr(spec[1][0]))
                if key not in seen:
                    seen.add(key)
                    yield (e,) + spec


def c13_build(thorough):
    n = 80 if thorough else 40

    def build(e, s):
        for name in DISTANCES:
            if name in s and not (name == "dist_jb" and "dist_rup" in s):
                points = c13_points(e, name, s, n)
                base = {k: v for k, v in s.items() if k not in points[0]}
                sign = 1 if e.kind == "duration" else -1
                yield base, points, sign, c13_skip

    return build


def c13(rep):
    explore(rep, "C13", list(lines(core.thorough(), c13_build(core.thorough()))))


# -- C14 --------------------------------------------------------------------
def c14_skip(entry, s, changes):
    if entry.abbrev == "CY14" and s.get("region") in ("italy", "japan"):
        return 5.9 < s["mag"] < 7.0  # faster attenuation for 6 < M < 6.9
    if entry.abbrev == "DBC14":
        return s["mag"] < 4.5  # neural network at the limit of its data
    return False


def c14_build(thorough):
    def build(e, s):
        if e.kind == "conditional":
            return
        if any(k in s and s[k] < 50 for k in DISTANCES):
            return
        lo, hi = limits(e, "mag")
        if e.abbrev not in ("AB06", "DBC14"):
            hi += 0.9  # predictions beyond the limits warn, and are used
        base = {k: v for k, v in s.items() if k != "mag"}
        if "dist_x" in s:
            # On the footwall of a rupture at a depth of 3 km
            base["dist_jb"] = float(np.sqrt(s["dist_rup"] ** 2 - 9))
            base["dist_x"] = -base["dist_jb"]
        yield base, [dict(mag=m) for m in core.lin(lo, hi, 99 if thorough else 51)], 1, c14_skip

    return build


def c14(rep):
    explore(rep, "C14", list(lines(True, c14_build(core.thorough()))))


def explore(rep, pid, work):
    count = {}
    for (e, base, points, _, _), (n, bad) in zip(work, core.pmap(line, work)):
        rep.states += n
        rep.transitions += max(n - 1, 0)
        rep.traces += n
        count[e.abbrev] = count.get(e.abbrev, 0) + 1
        if count[e.abbrev] == 1:
            rep.sample(dict(model=e.abbrev, scenario=base, first=points[0], last=points[-1]))
        for changes, what in bad[:3]:
            rep.violation(
                f"{pid} {e.abbrev} "
                + json.dumps(core.jsonable(dict(base, **changes)), sort_keys=True),
                what=what,
            )
        if len(rep.violations) > 60:
            rep.exhaustive = False
            break
    rep.extra["lines"] = count
