"""Runs missions through the public interface of the simulator, in a scratch directory."""
import json
import os
import re
import subprocess
import sys
import tempfile

REPO = os.getcwd()
TMP = tempfile.TemporaryDirectory(prefix="demo")
W = TMP.name
MAIN = r'''
fn main() {
    let path = std::env::args().nth(1).unwrap();
    match sim::Simulation::from_file(path) {
        Err(e) => { println!("ERROR {e}"); std::process::exit(3) }
        Ok(s) => { let st = s.run(); println!("FINAL {:?}", st) }
    }
}
'''
ENV = dict(os.environ, CARGO_TARGET_DIR=os.path.join(W, "target"), CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
           CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")


def cargo(d):
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=ENV, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-3000:])
        print("the runner does not build")
        sys.exit(9)


def build():
    d = os.path.join(W, "runner")
    os.makedirs(d + "/src")
    open(d + "/src/main.rs", "w").write(MAIN)
    open(d + "/Cargo.toml", "w").write(
        '[package]\nname = "runner"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nsim = { path = "%s/sim" }\n'
        "[workspace]\n" % REPO)
    lock = os.path.join(REPO, "Cargo.lock")
    cargo(d)


def run(phases, raw=None):
    """(exit status, text, final state)"""
    if not os.path.exists(os.path.join(W, "runner")):
        build()
    f = os.path.join(W, "mission.json")
    open(f, "w").write(raw if raw is not None else json.dumps(phases))
    r = subprocess.run([os.path.join(W, "target/debug/runner"), f], capture_output=True, text=True, env=ENV, cwd=W,
                       timeout=120)
    m = re.search(r"FINAL State \{(.*)\}", r.stdout)
    st = None
    if m:
        st = {}
        for k, v in re.findall(r"(\w+): (\[+[^\]]*\]+|[-+\w.]+)", m.group(1)):
            xs = [float(x) for x in re.findall(r"[-+]?(?:inf|NaN|[\d.]+(?:e[-+]?\d+)?)", v)]
            st[k] = xs if v.startswith("[") else xs[0]
    return r.returncode, r.stdout, st


def state(phases):
    rc, out, st = run(phases)
    if rc or st is None:
        print(out[-500:])
        fail("the mission does not run")
    return st


def program(args):
    """the command line program: (exit status, stdout, stderr)"""
    ENV["CARGO_TARGET_DIR"] = os.path.join(W, "cli")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                        "-p", "post", "--bin", "post"], cwd=REPO, env=ENV, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-3000:])
        sys.exit(9)
    r = subprocess.run([os.path.join(W, "cli/debug/post"), *args], capture_output=True, text=True, cwd=W, timeout=120)
    return r.returncode, r.stdout, r.stderr


def fail(text):
    print("DEMO FAILS:", text)
    sys.exit(1)


def near(a, b, what, rel=1e-7, eps=1e-9):
    xs, ys = (a, b) if isinstance(a, list) else ([a], [b])
    for i, (x, y) in enumerate(zip(xs, ys)):
        if not abs(x - y) <= rel * max(abs(x), abs(y)) + eps:
            fail(f"{what}[{i}]: {x!r}, expected {y!r}")


PLANET = {"custom": {"equatorial_radius": 6.4e6, "polar_radius": 6.3e6,
                     "gravitational_parameters": [4e14, 1.1e-3, -2.5e-6, -1.6e-6], "rotation_rate": 7e-5}}
ENGINE = {"incidence": [0, 0], "thrust_vac": 2e6, "isp_vac": 300, "exit_area": 2}


def mission(**kw):
    """one phase of one step"""
    p = {"planet_model": PLANET, "atmosphere": {"enabled": True, "wind": [0, 0, 0]},
         "init": {"latitude": 20, "longitude": 30, "azimuth": 60, "altitude": 0},
         "vehicle": {"structure_mass": 4e4, "propellant_mass": 6e4, "reference_area": 20, "engines": [ENGINE]},
         "stepsize": 2, "end_criterion": ["time", 2]}
    for k, v in kw.items():
        if k in ("vehicle", "init", "atmosphere") and isinstance(v, dict):
            p[k] = {**p[k], **v}
        else:
            p[k] = v
    return p


def table(var, xs, ys):
    return {"x": [var, xs], "data": ys}
