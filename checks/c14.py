from common import *
import mpmath as mp

META = {"rule": "partial evaluation: the altitudes at which the extracted closed form of each quantity switches its formula are collected "
                "from its guards; on both sides of each the formula of that side is specialised and evaluated at the boundary; the formula of "
                "a layer is linear (temperature) or a positive constant times a positive function (pressure, density), so the values at "
                "the ends of a layer decide its sign"}
TOLERANCE = {"temperature": 2e-6, "pressure": 5e-6, "density": 5e-6, "speed_of_sound": 2e-6}


def at(e, leaf, t):
    ev = nf.Eval(1, None)
    ev.leafs[leaf.id] = mp.mpf(t.numerator) / t.denominator
    return ev.ev(e)


def one(c, label, e, x, where, tol):
    th = sorted(thresholds(e).get(x, ()))
    if len(th) < 2:
        # the layers are not chosen by comparing the altitude with constants
        raise Missing("layer boundaries")
    other = [y for y in leaves(e) if y is not x]
    if other:
        raise Missing("depends on " + show(other[0]))
    edges = [(None, th[0])] + [(th[i], th[i + 1]) for i in range(len(th) - 1)] + [(th[-1], None)]
    forms = [on_region(x, lo, hi)(e) for lo, hi in edges]
    for i, t in enumerate(th):
        mid = on_region(x, t, t)(e)
        lo, at_, hi = at(forms[i], x, t), at(mid, x, t), at(forms[i + 1], x, t)
        alt = f"{float(t):.1f} m"
        if any(not mp.isfinite(v) for v in (lo, at_, hi)):
            c.bad(f"{label}: continuous at {alt}", where, f"not finite: {mp.nstr(lo, 10)}, {mp.nstr(at_, 10)}, {mp.nstr(hi, 10)}")
            continue
        big = max(abs(lo), abs(at_), abs(hi))
        jump = max(abs(lo - at_), abs(at_ - hi))
        c.holds(f"{label}: continuous at {alt}", jump <= tol * big, where,
                f"jumps from {mp.nstr(lo, 10)} below to {mp.nstr(hi, 10)} above ({mp.nstr(at_, 10)} at the boundary), "
                f"{mp.nstr(100 * jump / big, 4)} %")
    for i, (lo, hi) in enumerate(edges):
        ts = [t for t in (lo, hi) if t is not None and t >= 0]
        if lo is None and hi > 0:
            ts = [Fraction(0), hi]
        vs = [at(forms[i], x, t) for t in ts]
        if ts:
            c.holds(f"{label}: positive between {float(ts[0]):.0f} m and {'the top' if hi is None else f'{float(hi):.0f} m'}",
                    all(mp.isfinite(v) and v > 0 for v in vs), where, "is " + ", ".join(mp.nstr(v, 10) for v in vs))


def leaves(e):
    out, seen, st = [], set(), [e]
    while st:
        y = st.pop()
        if isinstance(y, B):
            if y is TRUE or y is FALSE or ("b", y.id) in seen:
                continue
            seen.add(("b", y.id))
            st += [z for z in ATOMS[y.var][1:] if isinstance(z, (E, B))] + [y.hi, y.lo]
        elif isinstance(y, E) and y.id not in seen:
            seen.add(y.id)
            if y.op in ("sym", "fld", "idx", "unknown"):
                out.append(y)
                continue
            st += [z for z in y.args if isinstance(z, (E, B))]
    return out


def run(c):
    for n, tol in TOLERANCE.items():
        def go():
            b = c.fn("standard_atmosphere_1962::" + n, opt=True)
            if b is None:
                raise Missing("function " + n)
            r = c.run(b, ["alt"])
            one(c, n.replace("_", " "), r.ret, S("alt"), r.where, tol)
        c.guard(go, n)
