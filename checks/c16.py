from common import *

META = {"rule": "value-flow normal forms of the frame rotations: product with the transpose is the identity, "
                "determinant one, and entry-wise equality with the documented axis convention"}


def ortho(c, label, m, where):
    p = m @ m.T()
    for i in range(3):
        for j in range(i, 3):
            c.eq(f"{label}: row {i}·row {j}", p.r[i][j], ONE if i == j else ZERO, where, GEO)
    a = m.r
    det = dot(V(*a[0]), cross(V(*a[1]), V(*a[2])))
    c.eq(f"{label}: determinant", det, ONE, where, GEO)


def run(c):
    L, E_ = S("launch"), S("euler")
    lat, long, az = [F(L, i) for i in range(3)]
    roll, yaw, pitch = [F(E_, i) for i in range(3)]

    def body():
        b = c.fn("transformations::inertial_to_body", r"nalgebra::Rotation<f64, 3>", [r"\[f64; 3\]", r"\[f64; 3\]"])
        r = c.run(b, ["launch", "euler"])
        c.mat("inertial to body", r.ret, (body_matrix(roll, yaw, pitch) @ launch_matrix(lat, long, az)).cols(),
              r.where, GEO)

    def launch():
        b = c.fn("transformations::inertial_to_launch", opt=True)
        if b is None:
            return
        r = c.run(b, [lat, long, az])
        ortho(c, "inertial to launch", m3(r.ret), r.where)
        c.mat("inertial to launch", r.ret, launch_matrix(lat, long, az).cols(), r.where, GEO)

    def l2b():
        b = c.fn("transformations::launch_to_body", opt=True)
        if b is None:
            return
        r = c.run(b, [roll, yaw, pitch])
        ortho(c, "launch to body", m3(r.ret), r.where)
        c.mat("launch to body", r.ret, body_matrix(roll, yaw, pitch).cols(), r.where, GEO)

    def planet():
        b = c.fn("transformations::inertial_to_planet", r"nalgebra::Rotation<f64, 3>", [r"f64", r"f64"])
        r = c.run(b, ["time", "rotation_rate"])
        ortho(c, "inertial to planet", m3(r.ret), r.where)
        c.mat("inertial to planet", r.ret, planet_matrix(S("time"), S("rotation_rate")).cols(), r.where, GEO)
    def state():
        """as the equations of motion use them"""
        s = c.guard(lambda: Step(c, 1), "equations of motion")
        if s is not None:
            for m in ("position_planet", "acceleration", "alpha"):
                c.guard(getattr(s, m), m, s.where)
    backed(c, [state], [lambda f=f: c.guard(f, f.__name__) for f in (body, launch, l2b, planet)])
