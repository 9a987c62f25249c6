from common import *

META = {"rule": "value-flow summary of the state-variable accessor: for every selectable variable the value read is the "
                "state quantity, component or norm its name denotes, and every user (tables, steering, end criterion) "
                "reads through it with its own variable and the state it was given"}
DOM = Domain((r".*", "any", -50, 50))


def run(c):
    def acc():
        b = c.fn("StateVariable::get_value", r"f64", [r"&state::StateVariable", r"&state::State"])
        r = c.run(b, ["var", "s"])
        t, vs = variants(c.p, "state::StateVariable")
        d = mk("discr", S("var"))
        DISCR.setdefault(d.id, [v["discr"] for v in t["vs"]])
        names = {f[0] for f in [x for x in c.p.types if x["k"] == "adt" and x["def"].endswith("state::State")][0]["vs"][0]["fields"]}
        for k, v in enumerate(vs):
            f, comp = accessor(v)
            if f not in names:
                c.und(f"variable {v}", r.where, f"no state quantity {f}")
                continue
            x = F(S("s"), f)
            want = norm(vec(x)) if comp == "norm" else x if comp is None else F(x, comp)
            g = Fraction(t["vs"][k]["discr"])
            c.eq(f"variable {v}", on_region(d, g, g)(r.ret), want, r.where, DOM)
        return b
    get = c.guard(acc, "accessor")

    def users():
        """tables read their own axes from the state they are given"""
        get = c.fn("StateVariable::get_value", r"f64", [r"&state::StateVariable", r"&state::State"])
        for b in c.p.local_fns():
            ret, args = c.p.sig(b)
            m = re.fullmatch(r"&.*Table(\d)D", args[0]) if len(args) == 2 else None
            if not m or not re.search(r"state::State$", args[1]) or ret != "f64":
                continue
            n = int(m.group(1))
            reads = []

            def h(I, args, st, dty):
                rr = Run.__new__(Run)
                rr.I, rr.st = I, st
                reads.append((base_of(rr, args[0]), base_of(rr, args[1])))
                return mk("sym", f"axis({reads[-1][0]})"), st
            r = c.run(b, ["t", "s"], opaque={get["id"]: h}, veclen=lens(**{r"\.1$": 2, r"data": 2}))
            want = {(f"t.{a}.0", "s") for a in "xyz"[:n]}
            c.holds(f"{n}D table reads its own axes from the given state", set(reads) == want, r.where,
                    f"reads {sorted(set(reads))}, required {sorted(want)}", about=[F(S("t"), a, "0") for a in "xyz"[:n]])
    c.guard(users, "table look-ups")
    for z in ((3,), (2, 3), (3, 2), (2, 2, 2)):
        def value():
            L = Lookup(c, z)
            c.eq(f"{len(z)}D table {z}: looked up at the values of its axis variables", L.value, L.spec(), L.where, L.DOM)
        c.guard(value, "table look-ups")
    s = c.guard(lambda: PhaseStep(c), "step")
    if s is not None:
        c.holds("end criterion reads its own variable from the new state",
                all(("ph.end_criterion.0", x) in s.reads for x in s.last), s.where, str(set(s.reads)), about=[F(S("ph"), "end_criterion", "0")])
    s = c.guard(lambda: Step(c, 0), "equations of motion")
    if s is not None:
        c.guard(s.euler_angles, "Euler angles", s.where)
