"""Writes known_findings.json (edit here)."""
import json, os
FIXED = """C06 9e31954 the PMAX limit of loads (DEV_H PMAX in MW) was used without conversion to per-unit
C03 e5a6c73 reactive bounds of loads were swapped when Q/P is negative or PMIN..PMAX changes sign
C05 cd31a95 an unknown DEV_TYPE raised KeyError/UnboundLocalError instead of the device error
C21 aee755d gen_p_max was bounded by the per-unit PMAX while the state holds MW: the advertised space did not contain visited states
C23 b7c9fd7 the units of branch_i_magn were a string, so its single unit was rejected or iterated by character
C16 7ce110c branch_i_magn had the sign of the real part of the current times the complex magnitude of another direction
C19 f0a07b2 reset stored an initial state of charge outside [SOC_MIN, SOC_MAX]
C28 70ba128 when no initial state is solvable, reset raised no initialization error
C24 1889f67 the observation space of a callable observation was float32 and rejected its own float64 observations
C29 5581596 observations aliased the internal state: a caller could overwrite it, later steps changed returned observations
C27 314bd50 negative auxiliary indices were accepted and read another state element
C31 f065863 the initial state of ANM6Easy gave reactive power and energy in the wrong unit
C15 eb33e3b with other devices on the slack bus, the slack device carried the whole bus injection
C12 462061a load flow used bus identifiers as positions and assumed the slack bus is first
C13 c5841e5 the slack bus was held at 1 p.u. instead of its reference VMAX
C35 b206243 the DC OPF left the slack angle free / fixed the wrong bus
C01 1523af8 set-point constraints of devices with infinite limits became NaN
C08 0cec58c a branch without active flow had apparent power 0 in the state whatever its reactive flow
C16 c5727cc a purely reactive branch current had magnitude 0
C10 bd49330 a missing BUS_ID or invalid BUS_TYPE raised something other than the bus error
C11 9236834 a slack device without BUS_ID raised something other than the device error
C17 7b1dfff a slack bus without VMIN raised TypeError in the penalty and in rendering
C27 93c092b an observation of auxiliary variables whose elements are not a list raised TypeError instead of the configuration error
C29 9f1e24c a step overwrote the auxiliary entries of the previous state vector, which callers may hold
C32 aafaa97 the displayed date advanced by whole minutes only (a time step of 1/7 h lost 34 s per step)
C33 06a0a7e unlimited costs were sent as Infinity (not JSON) in the first rendering message, the documented default range was never used
C35 2b637c3 the MPC agent could not be constructed for a network without loads, non-slack generators or storage units (cvxpy rejects empty parameters)
C35 e9d8106 the MPC agent planned to charge a full storage unit (charging and discharging at once burns the energy), which the simulator cannot do
C36 d7b8462 unlimited generators, storage units or branches put infinite constants (0 * inf = NaN for a safety margin of 0) into the MPC problem and the solver failed
C32 6118c3c resetting the displayed date kept the year count, which its documentation says is reset"""
KNOWN = [
 dict(id="F27", properties=["C21"], what="the slack device and its bus leave their advertised injection bounds when the slack device has finite limits: the load flow makes it supply whatever leaves the bus (get_state_space says the bounds are respected at all times)",
      where="Simulator.get_state_space / solve_pfe_newton_raphson, dev_p, dev_q, bus_p, bus_q of the slack device and bus with a finite PMAX, PMIN, QMAX or QMIN"),
 dict(id="F28", properties=["C24"], what="the zero observation returned in a terminal state is outside of the observation space when the bounds of an entry exclude 0 (a charge with SOC_MIN > 0, a generator with PMIN > 0, auxiliary bounds)",
      where="ANMEnv.step, observations returned with terminated=True"),
 dict(id="F16", properties=["C26"], what="the terminal reward is -costs_clipping[1]/(1-gamma), the documentation defines r_clip as the sum of both clipping values",
      where="ANMEnv.step, reward of the step that reaches a terminal state, when costs_clipping[0] is not 0 or infinite"),
 dict(id="F21", properties=["C26"], what="gamma=1 is accepted but the step that reaches a terminal state raises ZeroDivisionError (division by 1-gamma)",
      where="ANMEnv.step, terminal transition with gamma == 1"),
 dict(id="F30", properties=["C30", "C31"], what="ANM6Easy: between 11:00 and 13:00 and between 16:00 and 18:00 the available power of the PV (7.25 to 36.75 MW, above its PMAX of 30 MW) and of the wind farm (from 14.725 MW) is not the documented linear transition (7.25 to 26.75 MW and from 14.625 MW)",
      where="anm6_easy._get_gen_time_series, devices 2 and 4, quarter-hours 45 to 51 and 65 to 71"),
 dict(id="F31", properties=["C35"], what="in plans of several stages, a storage unit with an efficiency below 1 can be planned to charge beyond its capacity in stages after the first (charging and discharging at once in the earlier or same stage burns energy: the convex relaxation of the DC OPF)",
      where="MPCAgent._single_step_optimization_problem, charge of stages after the first, storage units with EFF < 1, planning_steps > 1"),
 dict(id="F19", properties=["C02"], what="EFF=0 is accepted but discharging a storage unit with EFF=0 raises ZeroDivisionError",
      where="StorageUnit.map_pq / update_soc with EFF == 0"),
]
d = dict(known=KNOWN, fixed=["fixed: property=%s" % l for l in FIXED.split("\n")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
