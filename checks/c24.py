from common import *
import c23

META = {"rule": "value-flow summary of table look-ups for several numbers of breakpoints: the guards of every overflow, "
                "bounds or explicit failure are unsatisfiable for sorted breakpoints, whatever the looked-up value, "
                "not-a-number and the infinities included"}


def run(c):
    for z in c23.sizes(True) + c23.wide(c, c23.sizes(True)):
        lab = "x".join(map(str, z)) + " table"

        def go():
            L = Lookup(c, z)
            c.eq(f"{lab}: no failing index or arithmetic", L.bad, ZERO, L.where, L.DOM)
        c.guard(go, lab)
        for what, v in (("not a number", NAN), ("infinity", INF), ("minus infinity", neg(INF))):
            for i in range(len(z)):
                def special():
                    L = Lookup(c, z, special={i: v})
                    c.eq(f"{lab}: no failure when value {i + 1} is {what}", L.bad, ZERO, L.where, L.DOM)
                c.guard(special, lab)
