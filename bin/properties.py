"""One table: writes /verif/properties.jsonl and /verif/MANIFEST.json.   python3 bin/properties.py"""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PH, ST, VE, AT, PL, SG, TR = ("sim/src/phase.rs", "sim/src/state.rs", "sim/src/vehicle.rs", "sim/src/atmosphere/mod.rs",
                              "sim/src/planet.rs", "sim/src/steering.rs", "sim/src/transformations.rs")
RK, IN, CF, LB, MA = ("sim/src/integration/runge_kutta.rs", "sim/src/integration/mod.rs", "sim/src/config.rs",
                      "sim/src/lib.rs", "src/main.rs")
TB, TI, TD = ("sim/src/utils/tables/mod.rs", "sim/src/utils/tables/linear_interpolation.rs",
              "sim/src/utils/tables/deserialization.rs")
SA = "sim/src/atmosphere/standard_atmosphere_1962.rs"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism [(name, where)], technique, note
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


ALLSTATES = "every planet, vehicle, atmosphere, steering law and primary state (time, position, velocity, mass)"
REF = "The suite compares three points of one reference trajectory to 0.1 %"

prop("C01", "The vehicle accelerates by the forces acting on it plus gravity",
     "In every computed state the sensed acceleration (body axes) is the sum of the aerodynamic and the thrust force divided "
     "by the current mass, and the inertial acceleration is the sensed acceleration turned from body into inertial axes plus "
     "the gravity acceleration. Position changes by the velocity, velocity by that acceleration and mass by the (negative) mass flow.",
     ["inputs", "configurations"], ALLSTATES,
     REF + "; a wrong axis, sign or an omitted term that is small or zero on that trajectory (no wind, no roll, no side force) passes.",
     [PH, ST], [("equations of motion", PH + " Phase::system"), ("vector of derivatives", ST + " State::to_differentials_vector")],
     "gated value-flow summary over MIR with algebraic normal forms")
prop("C02", "The quantities of one state belong to the same instant",
     "Every quantity reported in a state is the defining function of the primary quantities (time, position, velocity, mass) "
     "and of the other quantities of that same state, never of a previous state. A coefficient table that depends on any "
     "documented state variable is evaluated with the value this variable has in that same state.",
     ["inputs", "histories"], ALLSTATES + ", and every earlier history of the run",
     "Stale values are off by one evaluation and vanish within the 0.1 % tolerance of the reference trajectory; the tests use tables of one variable only.",
     [PH, ST], [("order of evaluation in the equations of motion", PH + " Phase::system")],
     "gated value-flow summary over MIR; provenance of every quantity of the state")
prop("C03", "One time step is the classical fourth-order Runge-Kutta step",
     "A step of size h evaluates the equations of motion at the start, twice in the middle and at the end of the interval with the "
     "classical weights, on time, time since the event, position, velocity and mass alike, and advances both clocks by exactly h. "
     "The resulting state is completed by an evaluation of the equations of motion at the new primary values, and all evaluations use the settings of the running phase.",
     ["inputs"], "every right-hand side, state and step size",
     "The integrator tests use two one-variable problems; a wrong stage time or weight only changes the order of convergence, which the loose trajectory comparison does not see.",
     [RK, IN, PH, ST], [("Runge-Kutta step", RK), ("step of the phase", PH + " Phase::step")],
     "gated value-flow summary over MIR with the right-hand side uninterpreted; polynomial normal forms")
prop("C04", "A state variable denotes the quantity its name says",
     "Each state variable that a user can select yields exactly the quantity, vector component or magnitude its name denotes, taken from the state it is evaluated on. "
     "Coefficient tables, steering polynomials and end criteria each read the variables chosen for them (each table axis its own).",
     ["inputs", "configurations"], "all selectable variables and all states",
     "The example mission uses three of the more than forty variables; two exchanged components of an unused variable fail no test.",
     [ST, TI, SG, PH], [("accessor of state variables", ST + " StateVariable::get_value")],
     "value-flow summary over MIR, exhaustive over the variants of the enumeration")
prop("C05", "Names in the configuration file mean what the manual says",
     "Every state variable, planet model and interpolation name listed in the user manual is accepted in the configuration file and selects the entity of that name. "
     "A name of which no such entity exists is rejected with an error; none is taken for another one.",
     ["inputs", "configurations"], "every string in the place of a name",
     "The tests use the handful of names of the example mission.",
     [CF, ST, PL, TD], [("derived deserialisers", CF + ", " + ST)],
     "value-flow summary over MIR of the generated deserialisers; exhaustive over the accepted strings, against the names in the manual")
prop("C06", "Every configuration entry reaches the setting of its name",
     "Each documented key of the configuration file sets the setting of that name and no other. "
     "Unknown keys are rejected, absent optional entries count as not given, and absent required entries (all of the launch site, of an engine, of a custom planet and of a table) are errors.",
     ["inputs", "configurations"], "every configuration object, any subset and order of its keys",
     "The tests parse one well-formed example file; misspelt, missing or exchanged keys do not occur in it.",
     [CF, VE, AT, PL, SG, TD], [("derived deserialisers", CF)],
     "value-flow summary over MIR of the generated deserialisers, against the documented keys")
prop("C07", "A phase inherits what its configuration does not mention",
     "A new phase takes every setting its configuration gives (vehicle, engines, coefficient tables, steering, atmosphere model, wind, planet, acceleration limit, step size, end criterion) "
     "exactly from there, and every setting it does not give unchanged from the preceding phase (defaults for the first phase). An acceleration limit of -1 removes the limit.",
     ["configurations", "histories"], "every combination of given and omitted entries, every preceding phase",
     "There are far more combinations of optional entries than the one example file exercises.",
     [PH, VE, AT, SG], [("construction of a phase", PH + " Phase::new"), ("updates", VE + ", " + AT + ", " + SG + " update_with_config")],
     "value-flow summary over MIR: provenance of every leaf of the new phase under the presence guards")
prop("C08", "An event resets the event bookkeeping and nothing else",
     "At the start of a phase the time since the event is zero, the step size is the configured one, no retries are counted, the phase is not ended and the constant terms of "
     "the steering polynomials equal the current Euler angles in degrees. Time, position, velocity, the launch frame and all other settings and steering coefficients carry over unchanged.",
     ["histories", "inputs"], "every phase at every event",
     "On the example mission most of these values happen to be zero or equal to the defaults at the events.",
     [PH, SG], [("event transition", PH + " Phase::reset, Phase::new"), ("constant steering terms", SG + " Steering::init")],
     "value-flow summary over MIR: provenance of every leaf of the phase")
prop("C09", "Total mass is structure mass plus propellant mass",
     "In every state the mass equals structure mass plus remaining propellant, across integration steps and across phase changes: a new structure mass keeps the "
     "propellant, a new propellant mass keeps the structure, both given add up, and none given leaves the mass unchanged. During a step only the mass flow of the engines changes the mass.",
     ["histories", "configurations"], "every sequence of phases and every combination of configured masses",
     "The reference data checks the mass at three points of one mission.",
     [PH, VE, ST], [("mass bookkeeping", PH + " Phase::new, Phase::system")],
     "value-flow summary over MIR with algebraic normal forms")
prop("C10", "The launch state follows from the launch site",
     "The first state lies at the configured height above the ellipsoid, at the point whose geodetic latitude and longitude are those configured (along the geocentric direction), and moves with the rotating planet. "
     "The launch frame is built from the geocentric latitude, the longitude and the azimuth, all entered in degrees; clocks start at zero.",
     ["inputs", "configurations"], "every launch site, azimuth, altitude and planet",
     "One launch site at zero altitude and 0.1 % tolerance is tested.",
     [PH, PL], [("initialisation", PH + " Phase::init")],
     "value-flow summary over MIR with trigonometric normal forms")
prop("C11", "Gravity is the gradient of the zonal harmonic potential",
     "The gravity acceleration is the gradient of the gravitational potential with the zonal harmonics J2, J3 and J4 of the selected planet, at every position outside its centre.",
     ["inputs", "configurations"], "every position and every set of planet constants",
     "Single positions near the equator do not separate the higher harmonics from the tolerance; a wrong coefficient of J3 or J4 is invisible at 0.1 %.",
     [PL], [("gravity", PL + " Planet::gravity")],
     "value-flow normal form over MIR against the symbolic gradient of the potential")
prop("C12", "Altitude and planet-relative motion follow the ellipsoid and its rotation",
     "Altitude is the distance to the ellipsoid along the radius, geopotential altitude is h R/(R+h) with the mean radius R, the planet-fixed position is the inertial one turned by rate times time, "
     "and the planet-relative velocity subtracts the rotation of the planet. The named planet models carry their published constants.",
     ["inputs", "configurations"], "every position, velocity, time and planet",
     "The tests check one position on one planet.",
     [PL, TR, PH], [("planet model", PL), ("rotation", TR)],
     "value-flow normal forms over MIR; compile-time folded constants against the published ones")
prop("C13", "The standard atmosphere is that of 1962 in every layer",
     "Temperature, pressure, density and speed of sound are those of the 1962 U.S. Standard Atmosphere as functions of geopotential altitude in each of its layers: linear temperature, "
     "hydrostatic pressure (exponential where isothermal, power law elsewhere), the ideal gas law and the sound speed of air.",
     ["inputs"], "every geopotential altitude",
     "Tests sample a few altitudes; each of the 22 layers has its own four constants.",
     [SA, AT], [("layer table and formulas", SA)],
     "value-flow normal forms over MIR, exhaustive over the layers")
prop("C14", "The standard atmosphere has no jumps between its layers",
     "Temperature, pressure and density are continuous (to the printed digits of the published tables) where two layers of the standard atmosphere meet, "
     "and both temperature and pressure are positive from sea level to the last layer.",
     ["inputs"], "all 21 layer boundaries",
     "No test evaluates the model on both sides of a boundary.",
     [SA], [("layer table", SA)],
     "partial evaluation of the extracted closed forms at the layer boundaries")
prop("C15", "Air data are consistent, and vanish when the atmosphere is disabled",
     "The wind-relative velocity is the planet-relative velocity minus the wind, dynamic pressure is half the density times its square, Mach number is its magnitude over the speed of sound. "
     "Without an atmosphere temperature, pressure, density and dynamic pressure are zero; enabling it and setting the wind changes exactly these.",
     ["inputs", "configurations"], "every state, wind and atmosphere setting",
     "The tests have no wind in the planet frame and check single values with the atmosphere on.",
     [AT, PH], [("air data", AT)],
     "value-flow summary over MIR with algebraic normal forms")
prop("C16", "Frame conversions are proper rotations in the documented axes",
     "The conversions between the inertial, planet, launch and body frames are proper rotations (orthonormal, determinant one). The launch frame points up, along the azimuth-rotated "
     "east and north, the body frame follows from it by roll, then yaw, then pitch, and the planet frame by rate times time about the polar axis.",
     ["inputs"], "all angles, times and rates",
     "Tests check only trajectories in which roll and yaw are zero.",
     [TR], [("rotation matrices", TR)],
     "value-flow normal forms over MIR; matrix identities by trigonometric normal form")
prop("C17", "Euler angles are cubic polynomials of the chosen variables",
     "Roll, yaw and pitch are each a cubic polynomial, in degrees, of the state variable selected for that axis, converted to radians: constant term from the steering's initial angle, "
     "the three configured coefficients for the first, second and third power.",
     ["inputs", "configurations"], "all coefficients, variables and states",
     "The example only steers pitch linearly in time.",
     [SG], [("steering polynomial", SG + " Steering::euler_angles")],
     "value-flow normal forms over MIR")
prop("C18", "Aerodynamic force from angle of attack and coefficients",
     "The aerodynamic force is dynamic pressure times reference area times the drag, lift and side-force coefficients, drag and lift turned from the wind into the body axes by the angle of attack in the body's symmetry plane. "
     "A coefficient without a table counts as zero and leaves the other coefficients in effect. With the atmosphere disabled there is no aerodynamic force, whatever the tables give "
     "at the infinite Mach number.",
     ["inputs", "configurations"], "every body velocity direction, dynamic pressure, coefficient and subset of given tables",
     "The example has an angle of attack near zero and no side force or lift table.",
     [VE, PH], [("angle of attack and force", VE + " Vehicle::alpha, Vehicle::aero_force")],
     "value-flow normal forms over MIR; propagation of not-a-number")
prop("C19", "Thrust and propellant flow of every engine set",
     "Total thrust is the throttle times the sum over all engines of the vacuum thrust less exit area times ambient pressure, along each engine's incidence; propellant flow is the throttle "
     "times the sum of vacuum thrust over specific impulse and standard gravity, and is never positive for positive engine data.",
     ["inputs", "configurations"], "vehicles with 0 to 3 engines of arbitrary data, every pressure and throttle",
     "The tests use one or two engines without incidence.",
     [VE], [("engines", VE + " Vehicle::thrust_force, Vehicle::massflow, Engine")],
     "value-flow normal forms over MIR")
prop("C20", "The throttle keeps the acceleration limit and stays between 0 and 1",
     "The throttle always lies between zero and one; without thrust it is one. Otherwise it is the setting at which aerodynamic force and thrust together produce exactly the limiting acceleration, "
     "limited to 0..1, and one if no setting can reach it; the same throttle drives thrust and propellant flow.",
     ["inputs", "configurations"], "every limit, mass, pressure, aerodynamic force and engine set",
     "The reference mission reaches its limit only with aligned, nearly vanishing aerodynamic force.",
     [VE, PH], [("automatic throttle", VE + " Vehicle::auto_throttle")],
     "value-flow summary over MIR: case distinction and algebraic normal form of the force triangle")
prop("C21", "An exceeded acceleration limit stops the run",
     "If the sensed acceleration exceeds the configured limit by more than 0.1 % despite throttling, or no throttle can be determined, the simulation stops with an error instead of continuing; within the limit it never stops for that reason. "
     "Without a limit it never stops for that reason.",
     ["inputs", "configurations"], "every state and limit",
     "No test violates the limit.",
     [PH], [("limit check", PH + " Phase::system")],
     "value-flow summary over MIR: the guard of the stop, compared as a Boolean function")
prop("C22", "Only well-formed tables enter a simulation",
     "A table from a configuration is accepted exactly if the breakpoints of every axis are strictly increasing and the data has one entry per breakpoint (in every row and plane), otherwise it is an error (an axis without any data row below it may be anything). "
     "Accepted tables keep axes, variables and data as given; a table that is not given is empty.",
     ["inputs", "configurations"], "every table of one, two or three dimensions",
     "The tests try one malformed table per kind of mistake.",
     [TB, TD], [("validating constructors", TB), ("deserialisation", TD)],
     "value-flow summary over MIR for concrete lengths and symbolic contents; who-may-construct rule over the call graph")
prop("C23", "Table look-up is piecewise linear interpolation",
     "A look-up returns the piecewise linear (in several dimensions: iterated linear) interpolation of the data at the values of the axis variables, continued along the outermost segments beyond the ends. "
     "A single breakpoint gives a constant, an empty table gives no value (not a number).",
     ["inputs", "configurations"], "tables of one to three dimensions with few breakpoints, arbitrary sorted breakpoints, data and look-up values",
     "A handful of points on a handful of tables are tested; the end segments and exact breakpoints hardly.",
     [TI], [("interpolation", TI)],
     "value-flow summary over MIR for concrete lengths and symbolic contents; piecewise normal forms")
prop("C24", "Table look-ups never fail",
     "Looking up a value in an accepted table never aborts the program, whatever the state: below, on, between and beyond the breakpoints, with any number of breakpoints including none.",
     ["inputs"], "every accepted table (up to the analysed number of breakpoints) and every state",
     "Index errors appear only at exact breakpoints, at the ends and with one-entry tables of several dimensions.",
     [TI], [("interpolation", TI)],
     "value-flow summary over MIR: unsatisfiable guards of every bounds, overflow or explicit failure")
prop("C25", "A phase ends exactly on its target",
     "A phase ends exactly when, after a step, the monitored variable is within 0.001 of its target, and that state is kept. A step that passed the target is discarded without any effect on the state, "
     "every other step is kept, and a phase that has ended cannot be stepped on.",
     ["histories", "inputs"], "every sequence of steps, every variable and target, rising and falling",
     "The example ends its phases by time and propellant only; a falling variable with overshoot occurs rarely.",
     [PH], [("end criterion", PH + " Phase::step, Phase::event_is_active")],
     "value-flow summary over MIR of one step: guards of accept, reject and end")
prop("C26", "A discarded step is retried with the secant step size, a bounded number of times",
     "After a step that passed the target, the next step starts from the same state with the step size that linear interpolation of the monitored variable over the discarded step predicts for the target. "
     "Steps that are kept do not change the step size; after 21 discarded steps in one phase the program stops with an error instead of trying for ever.",
     ["histories", "inputs"], "every step, value and target",
     "Tests only see that the example mission ends near the target.",
     [PH], [("secant step", PH + " Phase::time_to_go, Phase::step")],
     "value-flow summary over MIR of one step with rational normal forms")
prop("C27", "Phases run in order, each from where the previous one ended",
     "The simulation runs the configured phases in their order; each is built from the final state of the one before and its own configuration, reset, evaluated at its start and stepped until it has ended. "
     "The result is the final state of the last phase.",
     ["histories", "configurations"], "every list of phases",
     "One mission with a fixed list of phases is tested, by its final state.",
     [LB, PH], [("simulation loop", LB + " Simulation::run"), ("phase loop", PH + " Phase::run")],
     "value-flow summary over MIR with building, resetting and running a phase uninterpreted")
prop("C28", "A faulty configuration is reported and nothing is simulated",
     "If the configuration file cannot be opened or is not a valid configuration, the program ends with that error and simulates nothing. "
     "Otherwise it simulates exactly the phases read from the file given on the command line.",
     ["inputs", "configurations"], "every file path and content",
     "No test runs the program or reads a file.",
     [LB, MA], [("loading", LB + " Simulation::from_file"), ("program", MA + " main")],
     "value-flow and must-follow analysis over MIR of the program's entry and the loader")
prop("C29", "The printed time history can be read by the plotting tool",
     "Every phase announces itself with its number starting at one, and every step prints the time, planet-fixed position, inertial velocity, altitude and propellant mass of the current state under these labels, one record per step. "
     "The record has the form the plotting script of the repository parses.",
     ["histories", "inputs"], "every step of every run",
     "No test looks at the output.",
     [PH, LB, "utils/plot.py"], [("output", PH + " Phase::run, " + LB + " Simulation::run")],
     "decoding of the compiled format templates in MIR and of the value flow into their arguments, against the patterns of the script")
prop("C30", "A run depends on nothing but its configuration",
     "Two runs of the same configuration produce the same result: the simulation reads no clock, environment, random source, thread or shared mutable state, opens no file but the given configuration, and keeps nothing between runs.",
     ["histories", "schedules"], "all runs of the same configuration",
     "A test sees one run at a time.",
     [LB, PH, MA], [("call graph of the simulation", LB)],
     "effect analysis: call graph over MIR and the types and mutability of reachable statics")
prop("C31", "Nothing but the documented conditions stops a run",
     "A run is stopped before its end only because the sensed acceleration cannot be kept within its limit, because the target of a phase is still not met after its repeated steps are used up, or because the first phase has no initial position. "
     "Nothing else that a configuration or a flight can contain (altitudes below or above the model atmosphere, no engines, an exhausted tank, tables of any length, any number of phases or steps) stops the program: no assertion, index, unwrapping, arithmetic check or exit of the simulator does.",
     ["inputs", "configurations", "histories"], "every configuration and every state of a flight",
     "The tests run one flight inside the usual ranges; only one of the stops is exercised.",
     [PH, LB, VE, TI, SA], [("equations of motion", PH + " Phase::system"), ("look-ups", TI), ("simulation loop", LB + " Simulation::run")],
     "enumeration over MIR of every operation that can stop the program, with its guard from value-flow summaries")

NA = [
    ("C40", "The integrated trajectory converges with order four",
     "The error of the simulated trajectory against the exact solution of the equations of motion shrinks with the fourth power of the step size.",
     ["inputs"], "every smooth mission",
     "Two step sizes on two small problems are tested.", [RK, PH],
     "a statement about the size of numerical errors of whole trajectories; no static argument bounds it. The structural part, that each step is the classical Runge-Kutta scheme, is claimed as C03."),
    ("C41", "Every valid mission terminates",
     "For every configuration whose end criteria are physically reached the run ends after finitely many steps.",
     ["histories", "configurations"], "every configuration",
     "One mission is tested.", [PH],
     "termination depends on whether the trajectory reaches the target value, a run-time quantity; the structural part, the bounded number of retries, is claimed as C26."),
    ("C42", "Without drag, thrust and rotation the orbital energy is conserved",
     "In unpowered flight outside the atmosphere the specific orbital energy and the polar angular momentum stay constant up to the integration error.",
     ["inputs", "histories"], "every coasting arc",
     "No coasting arc is compared over time.", [PH, RK, PL],
     "a statement about accumulated numerical error over a run; only its ingredients (C01, C03, C11) are decidable from the source."),
    ("C43", "Results are accurate to the rounding of double precision",
     "Floating-point rounding changes altitude, velocity and mass at the end of a mission by less than the printed precision.",
     ["inputs"], "every mission",
     "Only one mission is compared with published results.", [PH, VE, PL],
     "needs bounds on values along the trajectory; the static analysis here reasons over the reals."),
    ("C44", "The phase ends at the true crossing of its target",
     "The state at which a phase ends differs from the first true crossing of the target by less than the effect of one retry step, also if the monitored variable is not monotonic within a step.",
     ["inputs", "histories"], "every end criterion",
     "Monotonic criteria only are exercised.", [PH],
     "depends on the shape of the monitored quantity between the steps, which only running the equations of motion reveals; the decision rule of a step is claimed as C25 and C26."),
]

NOTE = ("Decided on the type-checked, monomorphised MIR of the current tree over exact real arithmetic (constants as written, rounding of "
        "floating-point operations ignored). A report needs differing normal forms and a concrete valuation of the extracted closed forms "
        "that tells them apart; what leaves the analysed subset is recorded as undecided in the evidence and not alarmed. ")


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "checks")) if re.fullmatch(r"c\d+\.py", f)}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "hook_needed": None}
            if q["state"]:
                a["state"] = [{"name": n, "meaning": m} for n, m in q["state"]]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                                "anchors": a}, ensure_ascii=False) + "\n")
        for id, title, st, over, text, why, files, reason in NA:
            f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                                "why_tests_cant": why, "anchors": {"files": files, "mechanism": []}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for q in P:
        if q["id"] in have:
            checks.append({"property": q["id"], "quick_cmd": f"./check.sh {q['id']} quick",
                           "thorough_cmd": f"./check.sh {q['id']} thorough", "evidence_file": f"evidence/{q['id']}.json",
                           "technique": "static analysis: " + q["technique"], "level": "other",
                           "level_note": NOTE + q["note"]})
        else:
            na.append({"property": q["id"], "reason": "static analysis applies; the check is not built yet"})
    na += [{"property": x[0], "reason": x[7]} for x in NA]
    doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Repairs of genuine defects are listed in known-findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
