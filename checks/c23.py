from common import *

META = {"rule": "value-flow summary of table look-ups of one to three dimensions, for several numbers of breakpoints, "
                "with symbolic sorted breakpoints and symbolic data: equality with piecewise (multi-)linear interpolation, "
                "extrapolation along the outermost segments, a single breakpoint is constant, an empty table is not a number"}


def sizes(thorough):
    one = [(n,) for n in range(0, 11 if thorough else 7)]
    k = 4 if thorough else 3
    two = [(i, j) for i in range(k + 1) for j in range(k + 1)]
    three = [(i, j, l) for i in range(3) for j in range(3) for l in range(3)] + [(3, 2, 2), (2, 3, 2), (2, 2, 3)]
    return one + two + three + ([(3, 3, 3)] if thorough else [])


def wide(c, usual):
    """lengths at which a look-up that counts may behave differently"""
    longest = max(z[0] for z in usual)
    near = c.sizes_near(r"Vec<f64>|\[f64\]", 2, 80)
    return [(n,) for n in sorted({n + k for n in near for k in (0, 2)}) if n > longest][:8]


def run(c):
    for z in sizes(c.thorough) + wide(c, sizes(c.thorough)):
        lab = "x".join(map(str, z)) + " table"

        def go():
            L = Lookup(c, z)
            if L.value is None:
                c.bad(f"{lab}: has a value", L.where, "no path of the look-up returns")
                return
            c.eq(f"{lab}: interpolated value", L.value, L.spec(), L.where, L.DOM)
        c.guard(go, lab)
