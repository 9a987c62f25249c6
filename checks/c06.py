from common import *

META = {"rule": "value-flow summary of the generated readers of configuration objects: keys extracted from the comparisons in the code "
                "and followed to the field they fill (provenance), for the object with all keys in both orders, each key alone, "
                "and each key missing; required keys, optional keys and rejection of unknown ones against the manual"}

# object -> (required keys, optional keys) of the manual
SCHEMA = [
    ("PhaseConfig", False, [], ["init", "vehicle", "steering", "planet_model", "atmosphere", "max_acceleration", "stepsize",
                                "end_criterion"]),
    ("AtmosphereConfig", False, [], ["enabled", "wind"]),
    ("InitConfig", False, ["latitude", "longitude", "azimuth", "altitude"], []),
    ("VehicleConfig", False, [], ["structure_mass", "propellant_mass", "reference_area", "drag_coeff", "lift_coeff",
                                  "side_force_coeff", "engines"]),
    ("SteeringConfig", False, [], ["roll", "yaw", "pitch"]),
    ("Engine", False, ["incidence", "thrust_vac", "isp_vac", "exit_area"], []),
    ("PlanetConfig", True, ["equatorial_radius", "polar_radius", "gravitational_parameters", "rotation_rate"], []),
    ("Table1DUnchecked", False, ["x", "data"], ["interpolator"]),
    ("Table2DUnchecked", False, ["x", "y", "data"], ["interpolator"]),
    ("Table3DUnchecked", False, ["x", "y", "z", "data"], ["interpolator"]),
]


def base(r, v):
    """the input a value is, as a whole"""
    v = r.D(v)
    if isinstance(v, Ref):
        b = r.I.symheap.get(v.root)
        return path_of(b[0]) if b is not None and not v.path else None
    if isinstance(v, (SymV, Opq, SymSeq)):
        return path_of(v.base)
    if isinstance(v, B):
        v = mk("cond", v)
    if isinstance(v, E):
        if v.op == "cond" and isinstance(v.args[0], B):
            a = ATOMS[v.args[0].var]
            if v.args[0].hi is TRUE and v.args[0].lo is FALSE and a[0] == "b":
                return path_of(a[1])
        return path_of(v) if v.op in ("sym", "fld", "idx") else None
    if isinstance(v, Agg) and v.kind in ("tuple", "array", "mat") and v.fs:
        bs = [base(r, x) for x in v.fs]
        heads = {re.sub(r"(\.\d+|\[\d+\])$", "", b) if b else None for b in bs}
        if len(heads) == 1 and None not in heads:
            h = heads.pop()
            if all(b in (f"{h}.{i}", f"{h}[{i}]") for i, b in enumerate(bs)):
                return h
    return None


def run(c):
    for typ, nested, req, opt in SCHEMA:
        c.guard(lambda: one(c, typ, nested, req, opt), typ)


def one(c, typ, nested, req, opt):
    D = Deser(c, typ, nested)
    known, other, where = D.texts()
    obj = "custom planet" if nested else typ
    c.holds(f"{obj}: an unknown key is an error", other == "error", where, "an unknown key is ignored")
    docs = req + opt
    key = {}
    for s in docs:
        if known.get(s, "error") == "error":
            c.bad(f"{obj}: key \"{s}\"", where, "the documented key is rejected")
        else:
            key[s] = known[s]
    for s, k in known.items():
        if s in docs or k == "error":
            continue
        same = [d for d in docs if joined(d) == joined(s)]
        c.holds(f"{obj}: key \"{s}\"", bool(same) and key.get(same[0]) == k, where, "not a documented key, but accepted")
    if len(key) != len(docs):
        return
    ks = [key[s] for s in docs]
    c.holds(f"{obj}: every key has its own entry", len(set(ks)) == len(ks), where,
            f"two keys fill the same entry: {dict(zip(docs, ks))}")
    if len(set(ks)) != len(ks):
        return

    def result(entries):
        r, v = D.entries(entries)
        alts = flat(v)
        if len(alts) != 1 or not isinstance(alts[0][1], Agg):
            raise Missing(f"{obj}: result of reading is not decided")
        v = alts[0][1]
        if v.variant == 1:
            return r, None, r.where
        x = r.D(v.fs[0])
        return r, x, r.where

    def fields(x):
        t = c.p.types[x.ty]
        return [f[0] for f in t["vs"][x.variant or 0]["fields"]]

    def check(r, x, w, present, label):
        names = fields(x)
        for s in docs:
            if s not in names:
                c.und(f"{obj}: {label}: \"{s}\"", w, "no field of that name")
                continue
            v = r.D(x.fs[names.index(s)])
            if s in present:
                b = base(r, v)
                if b is None:
                    c.und(f"{obj}: {label}: \"{s}\"", w, f"value is {str(v)[:80]}")
                else:
                    c.holds(f"{obj}: {label}: \"{s}\"", b == f"entry{key[s]}", w,
                            f"the field {s} takes the value of entry {b}, not of \"{s}\"")
            elif isinstance(v, Agg) and v.ty is not None and c.p.types[v.ty].get("def") == "std::option::Option":
                c.holds(f"{obj}: {label}: \"{s}\" counts as not given", v.variant == 0, w, f"is {str(v)[:80]}")
            elif isinstance(v, Agg) and c.p.types[v.ty].get("enum"):
                n = c.p.types[v.ty]["vs"][v.variant]["name"]
                c.holds(f"{obj}: {label}: \"{s}\" has its default", n == "Linear", w, f"is {n}")
            else:
                c.und(f"{obj}: {label}: \"{s}\"", w, f"value without entry is {str(v)[:80]}")

    for label, order in (("all keys", docs), ("all keys in reverse order", docs[::-1])):
        r, x, w = result([key[s] for s in order])
        if x is None:
            c.bad(f"{obj}: {label}", w, "an object with all documented keys is rejected")
            return
        check(r, x, w, docs, label)
    for s in docs:
        rest = [d for d in docs if d != s]
        r, x, w = result([key[d] for d in rest])
        label = f"without \"{s}\""
        if s in req:
            c.holds(f"{obj}: {label}: an error", x is None, w, f"an object without the required key \"{s}\" is accepted")
            r, x, w = result([key[s]])
            c.holds(f"{obj}: only \"{s}\"", x is None or len(req) == 1, w, "required keys are missing, yet the object is accepted")
        else:
            if x is None:
                c.bad(f"{obj}: {label}", w, f"the optional key \"{s}\" is required")
                continue
            check(r, x, w, rest, label)
            r, x, w = result([key[d] for d in req + [s]])
            if x is None:
                c.bad(f"{obj}: only \"{s}\"", w, "optional keys are required")
                continue
            check(r, x, w, req + [s], f"only \"{s}\"")
        r, x, w = result([key[s], key[s]] + [key[d] for d in rest])
        c.holds(f"{obj}: \"{s}\" given twice: an error", x is None, w, "a repeated key is accepted")
