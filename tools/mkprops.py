#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
SYM = "symbolic execution of the real source + SMT (z3/cvc5), counterexamples replayed on the real code"


def P(id, title, statement, over, text, why, files, mech, level_note, na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      note=level_note, na=na, state=state))


TR = " Trusted: the interpreter shims (numpy/numba/sympy-printer names), z3/cvc5; real arithmetic stands for binary64 except where stated; path models are replayed on the real numba code."

P("C01", "Keplerian elements and Cartesian states convert into each other",
  "Converting Keplerian elements to a Cartesian state gives exactly the two-body position and velocity those elements describe, and converting a Cartesian state to elements gives elements that describe that state, so a round trip in either order is the identity up to multiples of a revolution. This includes equatorial, retrograde and polar orbits and every value of node, periapsis and anomaly. The scalar getters (semimajor axis, eccentricity vector, inclination, node, periapsis, anomaly, period) agree with the same elements.",
  ["inputs"], "all elliptic element sets and all Cartesian states with nonzero angular momentum",
  "tests/test_elements.py converts one or two states; quadrant choices, equatorial special cases and degenerate axes are separate branches that a sample does not reach",
  ["pyqlaw/_elements.py", "pyqlaw/_transformations.py"],
  [("kep2sv", "pyqlaw/_elements.py:kep2sv"), ("sv2kep and the getters", "pyqlaw/_elements.py:sv2kep"), ("rotation matrices", "pyqlaw/_transformations.py")],
  "Every path of the conversions, all elliptic elements / states in the stated range, by identities of trigonometric and algebraic expressions decided by the solver." + TR)
P("C02", "All element representations describe the same orbit and position",
  "Conversions among Keplerian elements, modified equinoctial elements (MEE) and MEE with semimajor axis, in every direction the library offers, describe the same orbit and the same position on it; converting any of them to a Cartesian state gives the same state. This holds for circular, equatorial and retrograde orbits and in every quadrant.",
  ["inputs"], "all elliptic element sets in each representation, including zero eccentricity and zero inclination",
  "the tests convert one element set; singular sets (circular, equatorial) and quadrants are handled by branches and two-argument arctangents",
  ["pyqlaw/_elements.py"],
  [("kep2mee, kep2mee_with_a", "pyqlaw/_elements.py"), ("mee2kep, mee_with_a2kep", "pyqlaw/_elements.py"), ("mee2mee_with_a, mee_with_a2mee", "pyqlaw/_elements.py"), ("mee_with_a2sv", "pyqlaw/_elements.py")],
  "All paths, all elliptic element sets in range, identity of Cartesian states." + TR)
P("C03", "Equations of motion are two-body motion plus the applied acceleration",
  "For Keplerian, MEE and MEE-with-semimajor-axis elements, the element rates computed by the equations of motion are exactly those for which the Cartesian state moves under gravity of the central body plus the given thrust and perturbing accelerations, both expressed in the radial-transverse-normal frame. With no acceleration the orbit is constant and only the anomaly advances, at the two-body rate.",
  ["inputs"], "all elliptic elements, all accelerations, all gravitational parameters in range",
  "tests propagate one orbit and compare final values; a wrong term in an acceleration component that the sample does not exercise is invisible",
  ["pyqlaw/_eom.py", "pyqlaw/_symbolic.py"],
  [("eom_kep_gauss", "pyqlaw/_eom.py"), ("eom_mee_gauss", "pyqlaw/_eom.py"), ("eom_mee_with_a_gauss", "pyqlaw/_eom.py")],
  "Chain rule: the Jacobian of the reference state formula applied to the rates the code returns equals gravity plus RTN acceleration, as an identity over all elements and accelerations." + TR)
P("C04", "Influence matrix is Gauss' variational equations",
  "The matrix relating a radial, transverse and normal acceleration to the rates of change of the five slow elements, as returned by the generated control functions for Keplerian and MEE-with-semimajor-axis elements, is that of Gauss' variational equations at every state, in every quadrant of periapsis and anomaly, whether or not common-subexpression elimination is used.",
  ["inputs", "configurations"], "all elliptic elements, both element types, cse on and off",
  "tests evaluate one point; sign or quadrant errors show only in particular quadrants of longitude of periapsis",
  ["pyqlaw/_symbolic.py"],
  [("symbolic_qlaw_keplerian psi", "pyqlaw/_symbolic.py"), ("symbolic_qlaw_mee_with_a psi", "pyqlaw/_symbolic.py")],
  "The code generated by sympy at check time is executed symbolically and compared entry by entry with the reference columns." + TR)
P("C05", "Q is the documented Lyapunov function and its gradient is exact",
  "The proximity quotient returned by the control functions is Petropoulos' Q, with the configured weights, scaling and periapsis penalty, of the distance to the target (angles measured along the shortest arc): it is never negative and is zero exactly where all weighted elements are at their target. The gradient the control law uses is the exact derivative of that Q with respect to each slow element.",
  ["inputs", "configurations"], "all elliptic elements and targets, weights, mu, thrust levels, rpmin, k, wp, m, b; n and r at their defaults and other small integers",
  "tests only compare transfers end to end; a wrong term in the gradient merely degrades the steering",
  ["pyqlaw/_symbolic.py"],
  [("quotient (Keplerian)", "pyqlaw/_symbolic.py:symbolic_qlaw_keplerian"), ("quotient (MEE with a)", "pyqlaw/_symbolic.py:symbolic_qlaw_mee_with_a")],
  "Generated code executed symbolically; decomposed by weight; compared with an independent formula and its symbolic derivative. Kinks of Q (a equal to target for general n, circular MEE, node-aligned periapsis) excluded." + TR)
P("C06", "Thrust direction is the steepest descent of Q",
  "The thrust angles returned by the control law give the unit direction opposite to the gradient of Q mapped through the influence matrix, in every quadrant and also when that direction is purely out of plane, so thrusting along them decreases Q at the largest rate available. The reported rate is the thrust acceleration times the norm of that mapped gradient (so it has the sign of the acceleration and is negative when propagating backward), and agrees with the separately generated rate function.",
  ["inputs"], "all steering vectors, influence matrices, gradients and thrust accelerations",
  "tests check that a transfer converges, which tolerates a wrong direction in some quadrants",
  ["pyqlaw/_lyapunov.py", "pyqlaw/_symbolic.py"],
  [("_u_to_thrust_angles", "pyqlaw/_lyapunov.py"), ("lyapunov_control_angles", "pyqlaw/_lyapunov.py"), ("fun_eval_dqdt", "pyqlaw/_symbolic.py")],
  "All steering vectors; the control functions as generated." + TR)
P("C07", "Integration steps are the stated Runge-Kutta formulas",
  "One integration step with the fixed-step integrator is the classical fourth-order Runge-Kutta step, and one with the adaptive integrator is the fourth-order solution of the Fehlberg 4(5) pair, with its suggested next step following from the embedded error estimate and tolerance: both satisfy all order conditions up to order four (and five for the estimate), for any right-hand side, step (of either sign), time and dimension. The state and parameters passed in are not modified.",
  ["inputs", "programs"], "any right-hand side (uninterpreted), any time, step, state, parameters, tolerance",
  "tests integrate one smooth problem to a loose tolerance, which tolerates a wrong coefficient",
  ["pyqlaw/_integrate.py"],
  [("rk4", "pyqlaw/_integrate.py"), ("rkf45", "pyqlaw/_integrate.py")],
  "Right-hand side replaced by an uninterpreted function: stage arguments, weights and the next-step formula for all values; dimension 1-3." + TR)
P("C08", "Sundman steps take the time the anomaly change takes",
  "With the Sundman option, each step lasts exactly the time that Kepler's equation gives for advancing the eccentric anomaly by the requested angle from the current state, forward for a positive and backward for a negative step angle, and never zero or of the wrong sign; without it each step lasts the requested time. The anomaly conversions it uses satisfy Kepler's geometry for every anomaly.",
  ["inputs"], "all elliptic states, all step angles of either sign, both element types and integrators",
  "no test uses the option",
  ["pyqlaw/_qlaw.py", "pyqlaw/_elements.py"],
  [("time step choice in solve()", "pyqlaw/_qlaw.py:QLaw.solve"), ("ta2ea, mee2ea", "pyqlaw/_elements.py")],
  "solve() executed symbolically with arbitrary control law and integrator results." + TR)
P("C09", "Convergence means every weighted element is within tolerance",
  "A state is declared converged exactly when every element with nonzero weight differs from its target by no more than its tolerance, where node and periapsis angles are compared along the shortest arc; elements of zero weight never matter, and a state with a NaN in a weighted element is never converged.",
  ["inputs"], "all states, targets, weights and tolerances, including NaN and boundary values",
  "the tests check a few points; boundaries, wraps and NaN are not covered",
  ["pyqlaw/_convergence.py"],
  [("check_convergence_keplerian", "pyqlaw/_convergence.py"), ("check_convergence_mee", "pyqlaw/_convergence.py")],
  "All values, angles within two revolutions." + TR)
P("C10", "Safeguarded elements stay in bounds and caller data is untouched",
  "For Keplerian problems the elements used at each step are the integrated ones limited to the configured bounds, and the recorded state is the one used; an element already within bounds, and the anomaly, are unchanged. Neither solving nor safeguarding modifies the arrays the caller passed in.",
  ["inputs", "histories"], "all states and bounds (binary64 for the unit), all histories up to the step bound",
  "tests never look at the arrays they pass in and never reach a bound",
  ["pyqlaw/_convergence.py", "pyqlaw/_qlaw.py"],
  [("elements_safety", "pyqlaw/_convergence.py"), ("safeguard in solve()", "pyqlaw/_qlaw.py")],
  "Unit: binary64 bit-precise. Solve: step-bounded." + TR)
P("C11", "Mass budget and thrust acceleration",
  "The mass decreases by flow rate times the (signed) step duration on exactly the steps in which the thruster is on and is otherwise unchanged; the acceleration applied is thrust over current mass along the recorded angles when thrusting (reversed for backward propagation) and zero when coasting; propagation stops as soon as mass falls to the minimum.",
  ["inputs", "histories"], "all masses, thrust, flow rates, step sizes and signs, all throttle histories up to the step bound",
  "tests look at final convergence only",
  ["pyqlaw/_qlaw.py"],
  [("mass update", "pyqlaw/_qlaw.py:QLaw.solve"), ("thrust vector", "pyqlaw/_qlaw.py:QLaw.solve"), ("mass_min exit", "pyqlaw/_qlaw.py:QLaw.solve")],
  "Step-bounded symbolic execution of solve() with arbitrary control-law and integrator results." + TR)
P("C12", "Time advances by the steps taken and stops at the allowed time",
  "Recorded time starts at zero and advances by exactly the duration integrated in each step; no step starts at or beyond the allowed transfer time, and the run continues until then unless another exit applies. The integrator is always given the current time and state and the full step.",
  ["inputs", "histories"], "all time limits and step sizes of either sign, up to the step bound",
  "tests check the final state of a few transfers",
  ["pyqlaw/_qlaw.py"],
  [("main loop of solve()", "pyqlaw/_qlaw.py:QLaw.solve")],
  "Step-bounded symbolic execution of solve()." + TR)
P("C13", "Outcome flags describe the run",
  "After solving, the convergence flag and exit code describe that run and nothing else: 1 when the last state is within tolerance, 2 when the relaxed tolerance was met the required number of times, -1 when mass ran out, -3 when undefined thrust angles exceeded the accepted count, and -2 when the allowed time ended; converged is true exactly for 1 and 2. Reusing the object for another problem gives the same outcome as a fresh object.",
  ["inputs", "histories"], "all histories of states up to the step bound, including reuse of an object",
  "tests solve each object once and look at converge only",
  ["pyqlaw/_qlaw.py"],
  [("exit conditions in solve()", "pyqlaw/_qlaw.py:QLaw.solve")],
  "Step-bounded; reuse covered by solving twice." + TR)
P("C14", "Duty cycle is honoured",
  "With a duty cycle the thruster is on from the start until the ON time has elapsed, then off until the OFF time has elapsed, and so on (switching at step boundaries), in forward and in backward propagation, and no thrust is applied or recorded while off.",
  ["inputs", "histories"], "all ON and OFF times, step sizes and signs, up to the step bound",
  "one test uses a duty cycle and only checks convergence",
  ["pyqlaw/_qlaw.py"],
  [("duty cycle logic", "pyqlaw/_qlaw.py:QLaw.solve")],
  "Step-bounded symbolic execution of solve()." + TR)
P("C15", "Battery level is tracked within its capacity and never overdrawn",
  "In forward propagation the battery drains at the discharge rate times the step duration while thrusting is allowed and charges at the charge rate while it is not, always staying within its capacity limits. A step that would drain it below the minimum is cut short to end exactly at the minimum, and the spacecraft then coasts; it thrusts again once the battery has recharged, which means completely when full recharge is required.",
  ["inputs", "histories"], "all rates, limits, initial levels and step sizes, up to the step bound",
  "no test exercises depletion and recharge",
  ["pyqlaw/_qlaw.py"],
  [("battery logic", "pyqlaw/_qlaw.py:QLaw.solve")],
  "Step-bounded symbolic execution of solve()." + TR)
P("C16", "Effectivity thresholds decide coasting",
  "With effectivity thresholds (constants or functions of the current time, state, mass and battery) the spacecraft coasts exactly when the absolute or relative effectivity of its current position, measured against the best and worst rates of decrease of Q over one revolution of the current orbit, is below the threshold; the recorded effectivities and thresholds are those used. Thresholds of any other type are rejected.",
  ["inputs", "histories"], "all rates along the orbit, thresholds and signs of propagation, up to the step bound",
  "tests run transfers with some thresholds and only check convergence",
  ["pyqlaw/_qlaw.py"],
  [("effectivity check", "pyqlaw/_qlaw.py:QLaw.solve"), ("evaluate_osculating_qdot", "pyqlaw/_qlaw.py")],
  "Step-bounded symbolic execution of solve(); rates along the orbit arbitrary." + TR)
P("C17", "Recorded histories describe the propagation performed",
  "All recorded histories (times, states, masses, battery, controls, effectivities, Q and its rate) have consistent lengths and correspond step by step to what was integrated: each recorded state is the integrator's result from the previous one under the recorded control and the perturbation evaluated at that time and state, and each recorded Q and rate is the control law's value there.",
  ["inputs", "histories"], "all control-law and integrator results, perturbations and coasting reasons, up to the step bound",
  "tests do not look at histories",
  ["pyqlaw/_qlaw.py"],
  [("storage in solve()", "pyqlaw/_qlaw.py:QLaw.solve")],
  "Step-bounded symbolic execution of solve()." + TR)
P("C18", "Undefined thrust directions are never applied",
  "When the control law yields an undefined (NaN) thrust direction the spacecraft coasts for that step: no acceleration is applied, no propellant is used, zero throttle and finite angles are recorded, and thrusting resumes as soon as the direction is defined again. The run ends with exit code -3, not converged, exactly when the number of undefined directions exceeds the accepted count.",
  ["inputs", "histories"], "all sequences of defined and undefined directions up to the step bound, thresholds 0 to 3, both directions of time, with duty cycle or effectivity thresholds",
  "tests never produce an undefined direction",
  ["pyqlaw/_qlaw.py"],
  [("NaN angle handling", "pyqlaw/_qlaw.py:QLaw.solve")],
  "Step-bounded symbolic execution of solve() with NaN-valued control law results." + TR)
P("C19", "Perturbing accelerations are physically correct",
  "The third-body acceleration is the difference of the body's attraction on the spacecraft and on the central body; the J2 acceleration is the gradient of the J2 potential in the principal-axes frame; solar radiation pressure points away from the Sun and falls with the square of distance. Their sum over the enabled effects, evaluated at the right epoch and scaled to canonical units, is returned in the radial-transverse-normal frame of the current state, which is orthonormal and right-handed.",
  ["inputs", "configurations"], "all positions, velocities, body positions, rotations and parameters; each flag on or off; zero to two third bodies",
  "the only test needs network kernels; none checks a value",
  ["pyqlaw/_perturbations.py"],
  [("perturbation_third_body_battin", "pyqlaw/_perturbations.py"), ("perturbation_J2", "pyqlaw/_perturbations.py"), ("perturbation_SRP", "pyqlaw/_perturbations.py"), ("pxformECI2RTN", "pyqlaw/_perturbations.py"), ("SpicePerturbations", "pyqlaw/_perturbations.py")],
  "Identities over all vectors; the SPICE library is a recording stub returning arbitrary values." + TR)
P("C20", "Exported results are the solved trajectory",
  "The exported dictionary (and the JSON file, when a path is given) holds the recorded times, the recorded states as modified equinoctial elements with mass appended, and the controls, either as recorded angles or as the radial-transverse-normal unit thrust direction and throttle, one row per recorded time with a zero-throttle final row. Exporting does not change the solver object.",
  ["inputs", "configurations"], "all states, controls and masses, both element types, both control formats",
  "no test exports anything",
  ["pyqlaw/_qlaw.py"],
  [("save_to_dict", "pyqlaw/_qlaw.py:QLaw.save_to_dict"), ("NumpyEncoder", "pyqlaw/_qlaw.py")],
  "Symbolic histories of bounded length." + TR)
P("C21", "Angle and frame utilities",
  "The rotation matrices are proper rotations about their axes by the given angle; wrapping an angle returns the equivalent angle in [-pi, pi); the eccentric anomaly returned for a true anomaly (or for an MEE state) is the one of Kepler's geometry, in the same half revolution.",
  ["inputs"], "all angles and eccentricities",
  "no test covers them directly; quadrants and wraps are where such helpers go wrong",
  ["pyqlaw/_transformations.py", "pyqlaw/_elements.py"],
  [("rotmat1/2/3, wrap", "pyqlaw/_transformations.py"), ("ta2ea, mee2ea", "pyqlaw/_elements.py")],
  "All real values in range." + TR)
P("C22", "Trajectory, orbit and plot data are the recorded solution",
  "The Cartesian history is the conversion of each recorded state in order (or of the interpolated states between the recorded times); orbit coordinates are one full revolution of the given orbit; and the plotting helpers draw the recorded histories, in the requested units, with spheres, ellipsoids and axis limits of the stated geometry.",
  ["inputs", "configurations"], "all recorded histories up to the length bound, both element types, all unit factors and options",
  "tests call a few plots and look at nothing they draw",
  ["pyqlaw/_qlaw.py", "pyqlaw/_plot_methods.py", "pyqlaw/_plot_helper.py", "pyqlaw/_elements.py"],
  [("get_cartesian_history", "pyqlaw/_qlaw.py"), ("get_orbit_coordinates", "pyqlaw/_elements.py"), ("plot methods", "pyqlaw/_plot_methods.py"), ("plot helpers", "pyqlaw/_plot_helper.py")],
  "Recording matplotlib stub; symbolic histories of bounded length." + TR)
P("C23", "Invalid settings are rejected and valid ones take effect",
  "Constructing the solver, assigning one of its settings or setting a problem with an invalid value (non-positive gravitational parameter, unknown element type or integrator, relaxation factor below one, wrong number of elements, weights or tolerances, too small a minimum mass) fails, and solving before a problem is set fails; every valid setting given at construction or with the problem is stored and takes effect, with documented defaults otherwise, and attempting an invalid change leaves the previous value.",
  ["inputs", "configurations"], "all numeric values and lengths in range",
  "tests try a few invalid values",
  ["pyqlaw/_qlaw.py"],
  [("constructor and property setters", "pyqlaw/_qlaw.py"), ("set_problem", "pyqlaw/_qlaw.py")],
  "All values; lengths 3 to 8." + TR)

P("C24", "The problem solved is the problem that was set",
  "Every parameter given when constructing the solver and setting the problem reaches the control law, equations of motion, effectivity evaluation and integrator unchanged and in its own place, on every step whether thrusting or coasting.",
  ["inputs", "configurations"], "all parameter values, both element types and integrators, all steps up to the bound",
  "tests use default hyperparameters, for which several are equal",
  ["pyqlaw/_qlaw.py", "pyqlaw/_lyapunov.py"],
  [("parameter passing", "pyqlaw/_qlaw.py:QLaw.solve"), ("lyapunov_control_angles", "pyqlaw/_lyapunov.py")],
  "Recording stubs with symbolic parameters; step-bounded." + TR)

DONE = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "checks")) if f[0] == "c" and f.endswith(".py"))
WIP = set(sys.argv[1:])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in DONE and p["id"] not in WIP:
        checks.append({"property": p["id"], "quick_cmd": f"./check.py {p['id']}", "thorough_cmd": f"./check.py {p['id']} --thorough",
                       "technique": SYM, "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not finished yet"})
m = {"version": 1, "setup_cmd": "./check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks load pyqlaw's source through an import hook of their own. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks", [n["property"] for n in na])
