"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))
D="gym_anm/simulator/components/devices.py"; B="gym_anm/simulator/components/branch.py"; U="gym_anm/simulator/components/bus.py"
S="gym_anm/simulator/simulator.py"; L="gym_anm/simulator/solve_load_flow.py"; N="gym_anm/simulator/check_network.py"
K="gym_anm/simulator/components/constants.py"; E="gym_anm/envs/anm_env.py"; V="gym_anm/envs/utils.py"
A="gym_anm/envs/anm6_env/anm6.py"; Y="gym_anm/envs/anm6_env/anm6_easy.py"; R="gym_anm/envs/anm6_env/rendering/py/rendering.py"; W="gym_anm/envs/anm6_env/rendering/py/servers.py"
M="gym_anm/agents/mpc.py"; MC="gym_anm/agents/mpc_constant.py"; MP="gym_anm/agents/mpc_perfect.py"; X="gym_anm/envs/anm6_env/utils.py"; NW="gym_anm/envs/anm6_env/network.py"

prop("C01","Generator set-points map to the closest feasible point",
 "Whatever active/reactive set-point is requested and whatever power is currently available, the injection a generator applies lies in its documented operating region (P and Q ranges, the slanted reactive limits beyond P+, and the currently available power), and no other point of that region is closer to the request. A request already inside the region is applied unchanged.",
 ["inputs","configurations"],"for every accepted generator specification, every requested (P, Q) and every available power",
 "The tests try a few hand-picked points against one specification; the region has four slanted or moving edges that interact with P+, Q+, Q- and the available power.",
 [D],[("projection onto the capability polygon",D+":Generator.map_pq"),("slopes and offsets of the slanted limits",D+":Generator._check_type_specific_specs"),("p_pot clipping",D+":Generator.p_pot")],
 [("p_pot","power currently available","Generator.p_pot")],["device injections p, q after a set-point is applied"])
prop("C02","Storage set-points map to the closest point the charge allows",
 "Whatever set-point is requested and whatever its state of charge, the injection a storage unit applies lies in its documented operating region and can be sustained over the whole time step without leaving the state-of-charge limits, and no other such point is closer to the request. A request that is already feasible is applied unchanged.",
 ["inputs","configurations","histories"],"for every accepted storage specification, every state of charge within limits, every time step length and every requested (P, Q)",
 "The tests use one unit at a few charge levels; whether charge limits, efficiency and the six slanted edges are combined correctly depends on all of them at once.",
 [D],[("projection onto capability polygon and charge limits",D+":StorageUnit.map_pq"),("slopes and offsets",D+":StorageUnit._check_type_specific_specs")],
 [("soc","state of charge (p.u.h)","StorageUnit.soc")],["device injections p, q after a set-point is applied"])
prop("C03","Loads follow demand within limits at constant power factor",
 "A load injects the demanded active power clipped to its documented limits (in per-unit), never injects power into the grid, and its reactive injection is always the fixed Q/P multiple of the active one. The reactive limits advertised for a load contain every reactive injection it can make.",
 ["inputs","configurations"],"for every accepted load specification, base power and demand",
 "Tests use one specification whose maximum is zero, which hides unit errors on the upper limit.",
 [D],[("clipping and Q/P ratio",D+":Load.map_pq"),("specification parsing",D+":Load._check_type_specific_specs")],(),["device injections p, q and bounds"])
prop("C04","State of charge is an exact energy account within its limits",
 "Over one step the state of charge rises by the charged energy times the efficiency or falls by the discharged energy divided by the efficiency, and always stays within its limits. Over any sequence of requested set-points the account telescopes exactly, so a storage unit never delivers more energy than the charging losses allow.",
 ["histories","inputs","configurations"],"for every storage specification, initial charge, time step length and sequence of requested set-points (the one-step claim is inductive; the sequence claim is bounded)",
 "Tests check a handful of single updates; conservation is a statement over all sequences.",
 [D,S],[("state of charge update",D+":StorageUnit.update_soc"),("power limits from the charge",D+":StorageUnit.map_pq")],[("soc","state of charge (p.u.h)","StorageUnit.soc")],["state of charge after each transition"])
prop("C05","Device specifications are accepted exactly when they are valid",
 "A device specification is accepted if and only if it satisfies the documented rules for its type (sign and ordering of limits, P+/P-/Q+/Q- inside the main limits, state-of-charge limits, efficiency, known bus, known type); an invalid one raises the device error of its type rather than any other exception.",
 ["configurations","inputs"],"for every combination of present/absent fields and all real values of the present fields",
 "The tests flip one field at a time; which of roughly fifteen interacting comparisons is missing or inverted is visible only for particular value combinations.",
 [D,"gym_anm/simulator/components/errors.py"],[("specification checks",D+":_check_type_specific_specs"),("common checks",D+":Device.__init__")],(),["constructor outcome"])
prop("C06","Device limits are per-unit and absent fields take documented defaults",
 "Every power and energy field of an accepted device is its specified value divided by the base power, and every omitted field takes its documented default; the advertised action bounds are exactly the specified limits in MW and MVAr, ordered by device.",
 ["configurations","inputs"],"for every accepted device specification and base power",
 "Tests mostly use a base of one or a single field; a missing division or swapped field shows only for particular fields and bases.",
 [D,S,E],[("per-unit conversion",D),("action bounds",S+":get_action_space"),("action space",E+":_build_action_space")],(),["device attributes","action space bounds"])
prop("C07","Branch currents and flows follow the pi-model with transformer",
 "For every branch and every pair of end voltages, the currents and the active and reactive flows at both ends are those of the documented pi-equivalent circuit with an off-nominal complex tap at the sending end.",
 ["inputs","configurations"],"for every accepted branch (resistance, reactance, charging, tap ratio, phase shift) and all complex end voltages",
 "Tests use unit tap and zero shift for most cases; conjugation or placement errors of the tap vanish there.",
 [B],[("currents",B+":compute_currents"),("flows",B+":compute_power_flows"),("admittances",B+":_compute_admittances")],(),["branch currents and flows"])
prop("C08","Directed apparent power has the right size and direction",
 "The apparent power reported for a branch is the larger of the two end magnitudes, positive when the active power at the sending end is not negative and negative otherwise, so it never hides an overload: its size is zero only if nothing flows at either end.",
 ["inputs","configurations"],"for every branch and all complex end voltages",
 "The tests compare a few operating points with positive sending-end flow.",
 [B],[("directed apparent power",B+":compute_power_flows")],(),["branch apparent power"])
prop("C09","Lines never create energy",
 "For every branch and every pair of end voltages, the active power entering at both ends adds up to the resistive loss of the series element: it is never negative, it is zero for a lossless line, and it is the same whichever end the branch is described from when there is no transformer.",
 ["inputs","configurations"],"for every accepted branch and all complex end voltages",
 "Non-negativity is an inequality over all voltages; tests evaluate a few.",
 [B],[("currents and flows",B+":compute_power_flows")],(),["branch flows"])
prop("C10","Branch and bus specifications are accepted exactly when valid",
 "A branch or bus specification is accepted if and only if it satisfies the documented rules, an invalid one raises the branch or bus error, and an accepted one carries the documented defaults and unit conversions (rate per-unit, phase shift in radians).",
 ["configurations","inputs"],"for every combination of present/absent fields and all real values",
 "The tests flip one field at a time.",
 [B,U],[("branch checks",B+":_check_input_specs"),("bus checks",U+":_check_input_specs")],(),["constructor outcome and attributes"])
prop("C11","Networks are accepted exactly when structurally consistent",
 "A network is accepted if and only if its base power is positive, it has exactly one slack bus and one slack device on that bus, all bus and device identifiers are unique, no two branches join the same pair of buses, no branch joins a bus to itself, and every branch and device refers to an existing bus; anything else raises the matching specification error.",
 ["configurations"],"for every assignment of identifiers, types and endpoints in networks of bounded size",
 "Identifier collisions are combinatorial; tests sample one of each.",
 [N,S],[("network checks",N+":check_network_specs"),("device loading",S+":_load_case")],(),["constructor outcome"])
prop("C12","The description order of a network does not matter",
 "Reordering the bus, device or branch rows of a network, or renaming its buses and devices consistently, changes nothing but the naming: all voltages, flows, injections, rewards and vector positions by identifier are unchanged.",
 ["configurations","inputs"],"for every permutation of rows and consistent renaming in networks of bounded size and all electrical parameters",
 "Tests list buses in order with the slack first, so position and identifier coincide.",
 [S,L],[("ordering by identifier",S+":_load_case"),("admittance matrix indexing",S+":_build_admittance_matrix"),("slack position",L+":solve_pfe_newton_raphson")],(),["simulator state"])
prop("C13","A transition reported as converged satisfies the power balance",
 "Whenever a transition reports a load-flow solution, the reported bus voltages satisfy the network power-balance equations at every non-slack bus within the solver tolerance and the slack bus is at its reference voltage; a run that produced undefined values or did not reach the tolerance is never reported as converged.",
 ["inputs","configurations","fault_sequences"],"for all device injections, branch parameters and iterates (every result of the linear solver, including singular systems) in networks of bounded size",
 "Tests compare converged voltages of fixed networks; whether an unconverged iterate can be reported as solved depends on all iterates.",
 [L,S],[("convergence test",L+":solve_pfe_newton_raphson"),("mismatch",L+":_f"),("iteration",L+":_newton_raphson_sparse")],(),["converged flag, bus voltages"])
prop("C14","Each load-flow iteration is an exact Newton step",
 "Every iteration of the load flow solves the exact linearisation of the power-balance equations at the current voltages (angles and magnitudes of all non-slack buses), starting from the flat voltage profile.",
 ["inputs","configurations"],"for all voltages, injections and branch parameters in networks of bounded size",
 "An inexact derivative still converges on easy cases, so tests pass; it fails on stressed networks by reporting a false collapse.",
 [L],[("Jacobian",L+":_dfdx"),("iteration",L+":_newton_raphson_sparse")],(),["linear systems passed to the sparse solver"])
prop("C15","All reported network quantities are mutually consistent",
 "After every transition, the current injected at each bus equals the sum of its branch currents, the slack device supplies exactly the power leaving its bus, each bus injection equals the sum of its devices' injections, and branch flows correspond to the reported voltages.",
 ["inputs","configurations"],"for all injections, voltages and branch parameters in networks of bounded size",
 "Tests check these on solved examples with one device per bus and trivial transformers.",
 [S,L],[("bus totals",S+":_get_bus_total_injections"),("admittance matrix",S+":_build_admittance_matrix"),("updates after the load flow",L+":solve_pfe_newton_raphson")],(),["simulator state"])
prop("C16","Every quantity is reported consistently in all its units",
 "In every state, the values reported for a quantity in its different units (per-unit, MW/MVAr/MVA/MWh, kV, kA, degrees, radians) describe the same physical value for the same bus, device or branch, and branch current magnitudes are the magnitude of the current at the sending end up to their direction sign.",
 ["inputs","configurations"],"for all voltages, currents, injections, base powers and base voltages",
 "Tests read mostly one unit per quantity.",
 [S,K],[("state collection",S+":_gather_state")],(),["simulator state dictionary"])
prop("C17","The reward is minus energy loss minus weighted constraint violations",
 "For every state, the energy loss is the time step times the total injection of generators and loads plus curtailed renewable power, the penalty is the time step times the penalty factor times the total voltage and branch-rate violation, and the reward is minus their sum; the penalty is never negative and is zero exactly when all limits hold.",
 ["inputs","configurations"],"for all voltages, flows, injections, limits, time step lengths and penalty factors",
 "Tests compute it on states with few violations; sign and direction cases (reverse flow, under-voltage, infinite rate) multiply.",
 [S],[("reward",S+":_compute_reward")],(),["reward, energy loss and penalty of a transition"])
prop("C18","Energy loss equals line losses, curtailment and storage charging",
 "When the load flow is solved, the reported energy loss of a transition equals the resistive losses of all branches plus curtailed renewable energy plus the net energy put into storage, within the solver tolerance.",
 ["inputs","configurations"],"for all injections, voltages and branch parameters in networks of bounded size",
 "It ties devices, load flow and reward together; no test checks the balance.",
 [S,L,B],[("reward",S+":_compute_reward"),("slack update",L+":solve_pfe_newton_raphson")],(),["energy loss, branch flows, device injections"])
prop("C19","Resetting the simulator reproduces the requested initial state",
 "After a reset with a feasible initial state, the simulator reports exactly the requested device injections, available powers and states of charge; a requested state of charge outside a unit's limits never leaves the unit outside its limits.",
 ["inputs","configurations"],"for all initial state vectors in networks with every type of device",
 "Tests use a single state vector; index arithmetic errors show only with several generators and storage units of distinct values.",
 [S],[("reset",S+":reset")],(),["simulator state after reset"])
prop("C20","Transitions depend on nothing but state of charge and inputs",
 "The outcome of a transition is a function of the states of charge and the inputs of that transition only; injections, voltages or available powers left over from earlier transitions or resets have no influence, and resetting twice to the same state gives the same result.",
 ["histories","inputs"],"for any leftover values of all other device, bus and branch variables",
 "A leak shows only after particular histories.",
 [S,D],[("transition",S+":transition"),("bus totals",S+":_get_bus_total_injections")],(),["state, reward and flags of a transition"])
prop("C21","Advertised bounds contain every reachable value",
 "After any transition, every state variable lies within the lower and upper bounds the simulator advertises for it, in every unit (with unlimited quantities advertised as unbounded).",
 ["inputs","configurations","histories"],"for all inputs and specifications",
 "A bound in the wrong unit or field is consistent with tests that never reach it.",
 [S],[("bounds",S+":get_state_space"),("bus bounds",S+":_compute_bus_bounds")],(),["simulator state and bounds"])
prop("C22","Environment steps route every number to its device",
 "The environment interprets the next-variables and action vectors in the documented layout: the entry for a device, in ascending device order, is applied to that device and no other, whatever the types, order and gaps of device identifiers; vectors of the wrong size are rejected.",
 ["inputs","configurations"],"for all action and variable vectors and device mixes of bounded size",
 "Tests use the built-in network or symmetric values, where swapped entries are invisible.",
 [E],[("routing",E+":step")],(),["arguments received by the simulator"])
prop("C23","States and observations contain the requested quantities in order",
 "State vectors list active and reactive injections of all devices, states of charge, available powers and auxiliary variables in the documented units and order; an observation list yields exactly the requested quantities, elements and units, with defaults for omitted units, and auxiliary entries are the ones generated in that step.",
 ["inputs","configurations"],"for all observation specifications over the supported quantities and all state values in networks of bounded size",
 "There are fifteen quantities with two units and arbitrary index subsets; tests use few.",
 [E,K],[("expansion of 'all'",E+":_expand_all_ids"),("extraction",E+":_extract_state_variables"),("defaults",E+":_build_observation_space")],(),["state and observation vectors"])
prop("C24","Observations always lie in the declared observation space",
 "Every observation returned by reset or step, for every way of specifying observations, is a member of the declared observation space, whose bounds are the advertised bounds of the requested quantities (or the given auxiliary bounds); values are only ever changed by clipping to those bounds.",
 ["inputs","configurations"],"for all observation specifications, states and auxiliary bounds",
 "Containment can fail only through dtype, clipping or bound mismatches for particular quantities.",
 [E],[("bounds",E+":observation_bounds"),("clipping",E+":observation")],(),["observation and observation space"])
prop("C25","Rewards are clipped as documented",
 "For a non-terminal step, the reward is minus the sum of the energy loss clipped in magnitude and the penalty clipped from above by the given limits; without limits nothing is changed, and the stored cost components are the clipped ones.",
 ["inputs","configurations"],"for all energy losses, penalties and clipping limits (present or absent)",
 "Clipping has independent limits and signs; tests do not cover negative losses.",
 [E],[("clipping",E+":step")],(),["reward, e_loss, penalty"])
prop("C26","A collapsed network ends the episode for good",
 "When no load-flow solution is found the step returns a zero observation, the terminated flag and the documented terminal reward; from then on every step returns the zero observation, reward zero and the terminated flag and touches neither the simulator nor the random variables, until a reset.",
 ["histories","inputs"],"for all sequences of steps and collapses of bounded length",
 "Depends on the history of steps after termination.",
 [E],[("terminal handling",E+":step"),("terminal state",E+":_terminal_state")],[("terminated","episode over","ANMEnv.terminated")],["step results"])
prop("C27","Environment arguments are accepted exactly when valid",
 "An environment is constructed if and only if its arguments satisfy the documented constraints (counts, time step, discount, penalty factor, observation specification over supported quantities, existing elements and units, auxiliary bounds); otherwise the configuration error class is raised.",
 ["inputs","configurations"],"for all argument values and all observation items over supported and unsupported quantities, elements and units",
 "Combinations of quantity, element and unit are numerous.",
 [V,E,K],[("argument checks",V+":check_env_args"),("observation checks",V+":_check_observation_vars")],(),["constructor outcome"])
prop("C28","Reset retries until it finds a solvable initial state",
 "Reset draws initial states until one has a load-flow solution, at most the documented number of times, then returns that state with counters cleared; if none is found, or a state has the wrong size, it raises the initialisation error and never returns a collapsed state.",
 ["histories","fault_sequences"],"for every pattern of solvable and unsolvable draws up to the limit",
 "Tests never hit an unsolvable draw.",
 [E],[("retry loop",E+":reset")],(),["reset outcome"])
prop("C29","Returned observations are never modified afterwards",
 "An observation or state returned to the caller is never changed by later calls to the environment, and changing it does not alter the environment.",
 ["histories"],"for all ways of specifying observations and all sequences of calls of bounded length",
 "Aliasing shows only when a caller keeps an old observation, as replay buffers do.",
 [E],[("state update",E+":step")],(),["previously returned vectors"])
prop("C30","ANM6Easy follows its fixed daily profile",
 "From any time of day, the next demands, available powers and time index are those of the fixed 24-hour profile at the next quarter-hour, wrapping at midnight, for any number of steps; the profile respects the device limits of the network.",
 ["histories","inputs"],"for all times of day and, by induction, all step counts",
 "The wrap-around happens once in 96 steps.",
 [Y,NW],[("profile",Y+":next_vars"),("series",Y+":_get_load_time_series")],(),["next variables"])
prop("C31","ANM6Easy initial states are consistent and within limits",
 "Every initial state drawn by ANM6Easy is consistent with its random time of day (demands, available powers, constant power factor), lies within the device limits, and is what the environment then reports; the calendar date matches the time index.",
 ["inputs"],"for all random draws",
 "Randomised; tests sample a few seeds and check no values.",
 [Y,A],[("initial state",Y+":init_state"),("reset date",Y+":reset")],(),["initial state"])
prop("C32","The displayed calendar advances with the steps",
 "The date shown advances by exactly one time step length at every step, the year count is the number of full 365-day years since the start date, resets restore a start date within the year (or the one given), and a reset never changes whether rendering is on.",
 ["histories","inputs"],"for all start dates, step lengths and sequences of steps",
 "Year roll-over and option handling need long or unusual histories.",
 [A,X],[("calendar",A+":step"),("reset",A+":reset"),("random date",X+":random_date")],(),["date and year count"])
prop("C33","Rendering updates every n-th call with the current values",
 "The first render call sends the network limits; with k skipped frames and counting the first call, exactly every (k+1)-th render call sends an update. Each update carries the current device powers, flows, charges, potentials, voltages, costs, date and collapse flag of the simulator, in the documented units and order.",
 ["histories","inputs"],"for all skip counts, call sequences of bounded length and state values",
 "Cadence and payload order are not tested at all.",
 [A,R],[("cadence",A+":render"),("payload",A+":_update_render"),("init payload",A+":_init_render")],(),["rendering messages"])
prop("C34","The rendering relay delivers to every viewer",
 "Every viewer that connects after the initial message receives exactly that message, every update is forwarded unmodified to all connected clients, the sender of the initial message is not echoed it, and clients that leave are forgotten without affecting others, for every order of events.",
 ["schedules","histories"],"for all sequences of connect, disconnect, init and update events of bounded length",
 "Orders of events are combinatorial; the module has no tests.",
 [W],[("event handlers",W+":WsServer")],[("clients","connected clients","WsServer.clients"),("init_message","last init message","WsServer.init_message")],["messages sent per client"])
prop("C35","MPC plans satisfy the network and device constraints",
 "For every network the simulator accepts, every plan the MPC agent can return satisfies, at every stage, the DC power balance at every bus, forecast loads, generator and storage limits, available power forecasts and the storage charge limits under the simulator's charging efficiency; every dispatch satisfying them is allowed.",
 ["inputs","configurations"],"for all network parameters, forecasts, states of charge and plans, in networks and horizons of bounded size",
 "The test checks a solved instance on one network; a missing or wrong constraint need not be active there.",
 [M],[("constraints",M+":_single_step_optimization_problem"),("bus expressions",M+":_create_p_bus_expressions")],(),["feasible set of the optimisation problem"])
prop("C36","MPC plans minimise the documented cost",
 "The MPC agent minimises the discounted sum over stages of non-renewable generation plus the penalty factor times branch overloads beyond the safety margin.",
 ["inputs","configurations"],"for all plans, network parameters, margins, discounts and horizons of bounded size",
 "A wrong weight or sign changes the optimum only in congested cases.",
 [M],[("objective",M+":_single_step_optimization_problem"),("discounting",M+":_create_optimization_problem")],(),["objective of the optimisation problem"])
prop("C37","MPC actions apply the first planned stage in the action space",
 "The action returned is the first stage of the plan, scaled to MW, with the entry of each generator and storage unit in the position the environment expects, zero reactive power, and clipped into the action space.",
 ["inputs","configurations"],"for all plans, base powers, device mixes and bounds",
 "Tests use a network where order and position coincide.",
 [M,E],[("extraction",M+":_solve"),("clipping",M+":act")],(),["action vector"])
prop("C38","MPC forecasts match what the environment will produce",
 "The perfect-forecast agent predicts exactly the demands and available powers of the following steps of the daily profile for any time of day and horizon, and the constant-forecast agent repeats the current ones; both in per-unit, in device order.",
 ["inputs","histories"],"for all times of day and horizons of bounded length",
 "Wrap-around over several days is not tested.",
 [MC,MP],[("forecast",MP+":forecast"),("forecast",MC+":forecast")],(),["forecast arrays"])
prop("C39","Behaviour is a function of the seeded generator only",
 "Given the same random draws from the environment's own generator and the same actions, two environments produce identical observations, rewards, dates and flags; no other source of randomness or global state is consulted.",
 ["histories","inputs"],"for all draws and action sequences of bounded length",
 "Seed tests compare one seed.",
 [E,A,Y],[("random draws",Y+":init_state"),("seeding",E+":reset")],(),["observations, rewards, dates"])
prop("C40","Rendering limits describe the network's operating limits",
 "The specifications handed to the visualisation give, for every bus, device, branch and storage unit, the operating limits of the network in the documented units.",
 ["configurations"],"for all accepted networks of bounded size",
 "Not tested.",
 [S,A],[("specs",S+":get_rendering_specs"),("init payload",A+":_init_render")],(),["rendering specifications"])
prop("C41","The load flow finds a solution whenever one is reachable",
 "For every network and set of injections that has a load-flow solution connected to the flat voltage profile, the transition converges and is not reported as a collapse.",
 ["inputs","configurations"],"for all networks and injections",
 "Tests contain a few solvable networks.",
 [L],[("Newton iteration",L+":_newton_raphson_sparse")],(),["converged flag"])
prop("C42","Rounding never affects decisions beyond the stated tolerances",
 "With IEEE arithmetic and the iterative QP/LP solvers, all results stay within the documented tolerances of their exact values and no limit decision flips.",
 ["inputs"],"for all inputs",
 "Rounding errors depend on every value.",
 [D,L,M],[("external solvers",D+":Generator.map_pq")],(),["all numeric results"])
prop("C43","Rendering servers start and stop cleanly over real sockets",
 "Starting rendering binds free ports, serves the page and relays messages in time, and closing terminates both server processes.",
 ["schedules","fault_sequences"],"for all interleavings of processes and socket faults",
 "Not tested.",
 [R,W],[("processes",W+":HttpServer"),("start",R+":start")],(),["sockets, processes"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80, p["id"]
        f.write(json.dumps(p)+"\n")
print(len(P))
