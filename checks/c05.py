from common import *

META = {"rule": "value-flow summary of the generated readers of names: the set of texts they compare with is extracted from the code "
                "and each is followed to the entity it selects; every documented name must select the entity of that name, "
                "every other text must be an error"}


def run(c):
    def names(kind, typ, docs):
        """docs: documented name -> words the selected variant has to have (None: the entry with fields)"""
        D = Deser(c, typ)
        known, other, where = D.texts()
        c.holds(f"{kind}: an unknown name is an error", other == "error", where, f"an unlisted text selects entry {other}")
        alln = {}
        for s, k in known.items():
            if k != "error":
                alln[s] = D.variant_of(k) if isinstance(k, int) else (str(k), where)
        have = [words(v) for v, _ in alln.values() if v != "struct"]
        spell = {joined(s): s for s in docs}
        for s, want in sorted(docs.items()):
            label = f"{kind} \"{s}\""
            if s not in alln:
                c.bad(label, where, "the documented name is rejected")
                continue
            v, w = alln[s]
            if (v == "struct") != (want is None):
                c.bad(label, w, f"selects {v}")
            elif want is None or joined("".join(words(v))) == joined("".join(want)):
                c.ok(label, w, v)
            elif any(joined("".join(h)) == joined("".join(want)) for h in have) or v in [x for y, x in docs.items() if y != s]:
                c.bad(label, w, f"selects {v}")
            else:
                c.und(label, w, f"selects {v}, whose name does not tell what it is")
        for s, (v, w) in sorted(alln.items()):
            if s in docs:
                continue
            if joined(s) in spell and alln.get(spell[joined(s)], (None,))[0] == v:
                c.ok(f"{kind} \"{s}\"", w, "another spelling of a documented name, for the same entity")
                continue
            if v != "struct" and joined(s) == joined("".join(words(v))):
                c.ok(f"{kind} \"{s}\"", w, "names what it selects")
                continue
            c.bad(f"{kind} \"{s}\"", w, f"accepted, although nothing has that name; it selects {v}")
    c.guard(lambda: names("state variable", "StateVariable", {n: spelled(n) for n in documented(c.repo)}), "state variables")
    c.guard(lambda: names("planet model", "PlanetConfig",
                          {"spherical": ["spherical"], "fisher_1960": ["fisher", "1960"], "smithsonian": ["smithsonian"],
                           "custom": None}), "planet models")
    c.guard(lambda: names("interpolation", "Interpolator", {"linear": ["linear"]}), "interpolations")
