"""Which simulated scenarios decide which property."""
HARNESSES = {
    "nloc": {},
    "mpc": {},
    "csim": {},
    "dms": {"flags": ["-fopenmp"]},
    "cfg": {},
    "loop": {},
    "filt": {},
    "core": {},
    "clone": {"flags": ["-I{REPO}", "-I{REPO}/ct_models/include"]},
    "hist": {},
    "lq": {},
    "cost": {},
}
_SIM_STUBS = ["thread scheduler, mutexes, condition variables, atomics order, clocks, sleeps and the allocator's failure decisions "
              "(detsim, real threads run one at a time)"]
_ASSUME = ["sequentially consistent memory: weak-memory reorderings are only covered through the happens-before race detector",
           "compiled with -O1 and thread-sanitizer instrumentation (used for scheduling points and race detection)",
           "sampling: a clean batch is evidence, not proof"]
_NLOC_REAL = ["NLOptConSolver, NLOCBackendMP/ST, algorithms, GNRiccatiSolver, system interface, integrators, sensitivities, cost functions"]
_NLOC_STUB = _SIM_STUBS + ["user's model: a 2-state pendulum-like plant whose calls contain scheduling points"]
_MPC_REAL = ["MPC, MpcTimeKeeper, MpcTimeHorizon, policy handlers, Timer, forward integrator, NLOptConSolver behind a recording forwarder"]
_MPC_STUB = _SIM_STUBS + ["user's plant and caller of the MPC loop", "duration of the solver's calls (simulated time added to the real computation)"]
_CS_REAL = ["ControlSimulator with both of its threads, Integrator and steppers"]
_CS_STUB = _SIM_STUBS + ["user's plant, controllers and callbacks (their durations are simulated time)"]
_DMS_REAL = ["DmsProblem, ShotContainer, SensitivityIntegratorCT, constraint containers and discretizer, cost evaluators, spliners, steppers"]
_DMS_STUB = _SIM_STUBS + ["OpenMP runtime (teams, loops, critical sections) provided by detsim", "NLP solver: a seeded caller of the Nlp interface",
                          "user's plant, cost weights and constraint"]
_N = "Seeded search over schedules and faults with replayable traces; sampling evidence, not proof. Trusts the simulator in sim/ and the oracle in harness/."


def S(h, s, q, t=None, **k):
    return dict(harness=h, scenario=s, quick=q, thorough=t or q * 20, **k)


PROPS = {
    "C01": dict(scenarios=[S("nloc", "solve", 10000), S("nloc", "life", 4000)],
                real=_NLOC_REAL, stubs=_NLOC_STUB, assumptions=_ASSUME, probes=["improved"], note=_N),
    "C02": dict(scenarios=[S("nloc", "solve", 16000)],
                real=_NLOC_REAL, stubs=_NLOC_STUB, assumptions=_ASSUME, probes=["improved"], note=_N),
    "C03": dict(scenarios=[S("nloc", "race", 12000)],
                real=_NLOC_REAL, stubs=_NLOC_STUB, assumptions=_ASSUME, probes=["improved"], note=_N),
    "C04": dict(scenarios=[S("nloc", "life", 16000)],
                real=_NLOC_REAL, stubs=_NLOC_STUB, assumptions=_ASSUME, probes=["construction_failed", "solved"], note=_N),
    "C05": dict(scenarios=[S("nloc", "fail", 16000)],
                real=_NLOC_REAL, stubs=_NLOC_STUB, assumptions=_ASSUME, probes=["failure_reported", "recovered"], note=_N),
    "C06": dict(scenarios=[S("nloc", "solve", 16000)],
                real=_NLOC_REAL, stubs=_NLOC_STUB, assumptions=_ASSUME, probes=["improved"], note=_N),
    "C07": dict(scenarios=[S("mpc", "loop", 24000)], real=_MPC_REAL, stubs=_MPC_STUB, assumptions=_ASSUME, threads=False,
                probes=["forward_integrated", "unsuccessful", "truncated", "clipped_by_horizon", "settings_changed", "twin"], note=_N),
    "C08": dict(scenarios=[S("mpc", "loop", 24000)], real=_MPC_REAL, stubs=_MPC_STUB, assumptions=_ASSUME, threads=False,
                probes=["horizon_reached", "custom_horizon", "reset", "settings_changed"], note=_N),
    "C09": dict(scenarios=[S("mpc", "loop", 24000)], real=_MPC_REAL, stubs=_MPC_STUB, assumptions=_ASSUME, threads=False,
                probes=["warm_start_shifted", "warm_start_extended", "truncated"], note=_N),
    "C10": dict(scenarios=[S("mpc", "clock", 16000)], real=_MPC_REAL, stubs=_MPC_STUB, assumptions=_ASSUME, threads=False,
                probes=["solved", "forward_integrated"], note=_N),
    "C11": dict(scenarios=[S("csim", "run", 16000)], real=_CS_REAL, stubs=_CS_STUB, assumptions=_ASSUME,
                probes=["on_time", "copied", "control_saw_progress"], note=_N),
    "C12": dict(scenarios=[S("csim", "run", 8000), S("csim", "fail", 12000)], real=_CS_REAL, stubs=_CS_STUB, assumptions=_ASSUME,
                probes=["stopped", "failed", "destroyed_running", "restarted", "create_failed"], note=_N),
    "C13": dict(scenarios=[S("dms", "eval", 16000)], real=_DMS_REAL, stubs=_DMS_STUB, assumptions=_ASSUME,
                probes=["compared", "horizon_changed", "initial_state_changed", "two_users"], note=_N),
    "C14": dict(scenarios=[S("dms", "fail", 20000)], real=_DMS_REAL, stubs=_DMS_STUB, assumptions=_ASSUME,
                probes=["failure_reported", "recovered"], note=_N),
    "C15": dict(scenarios=[S("cfg", "load", 16000)], real=["all loaders named in the property, boost's .info parser, libstdc++'s file streams"],
                stubs=_SIM_STUBS + ["file contents and the results of opening and reading them"], assumptions=_ASSUME,
                probes=["loaded", "load_failed", "cost_loaded", "two_users"], note=_N),
    "C16": dict(scenarios=[S("loop", "run", 2400), S("loop", "fail", 2000)], real=[_CS_REAL[0], "MPC with time keeper and policy handler", _NLOC_REAL[0]],
                stubs=_SIM_STUBS + ["user's plant, its computing times, the hand-over of the policy to the plant (as in the example programs)"], assumptions=_ASSUME,
                probes=["mpc_drove_plant", "compared_loop", "failed", "recovered"], note=_N),
    "C17": dict(scenarios=[S("filt", "est", 12000), S("filt", "fail", 12000)],
                real=["the three filters, CTSystemModel, InputDisturbedSystem, measurement models, SystemLinearizer, SensitivityApproximation, Integrator, DARE"],
                stubs=_SIM_STUBS + ["user's plant and measurement model", "sensor and its lossy link"], assumptions=_ASSUME,
                probes=["compared", "updated", "disturbance", "ukf", "steady_state", "failed_call", "retried_predict"], note=_N),
    "C18": dict(scenarios=[S("core", "integ", 20000), S("core", "disc", 20000)],
                real=["Integrator, IntegratorSymplectic, all steppers, Observer, event handlers, SystemDiscretizer, SensitivityIntegrator, SubstepRecorder"],
                stubs=_SIM_STUBS + ["user's plant and event handlers"], assumptions=_ASSUME,
                probes=["trajectory", "compared", "killed", "asked_while_running", "failed_call", "step_limit", "copied", "type_refused", "type_changed",
                        "tolerances", "propagated", "sensitivity", "system_changed", "discretizer_cloned"], note=_N),
    "C19": dict(scenarios=[S("clone", "run", 40000)],
                real=["the systems, controllers, linearizers, discretizers, cost functions, terms and constraints named in the property"],
                stubs=_SIM_STUBS + ["user's plant, control law, cost term and constraint, whose calls may fail"], assumptions=_ASSUME,
                probes=["compared_clone", "failed_call", "original_destroyed", "clone_of_clone", "several_users"], note=_N),
    "C20": dict(scenarios=[S("hist", "traj", 40000)],
                real=["arrays, trajectories, Interpolation, time-indexed controllers, mode sequences and switched systems named in the property"],
                stubs=_SIM_STUBS + ["user's modes (systems), whose calls may fail"], assumptions=_ASSUME,
                probes=["evaluated_zoh", "evaluated_linear", "evaluated_inconsistent", "looked_up_empty", "policy_control", "policy_refused", "schedule_queried",
                        "switched", "mode_failed", "alloc_failed", "several_users"], note=_N),
    "C21": dict(scenarios=[S("hist", "sig", 40000)],
                real=["controllers, noise blocks, activations and timers named in the property"],
                stubs=_SIM_STUBS + ["entropy source (std::random_device)"], assumptions=_ASSUME,
                probes=["pid", "saturated", "quantised", "noise", "no_entropy", "timed", "periodic", "several_users"], note=_N),
    "C22": dict(scenarios=[S("lq", "solve", 12000)],
                real=["GNRiccatiSolver, LQOCProblem, FHDTLQR, DARE, CARE, LQR, CostFunctionQuadraticSimple"],
                stubs=_SIM_STUBS + ["user's linear models, whose calls may fail"], assumptions=_ASSUME,
                probes=["lqoc_checked", "constrained_refused", "constructed_with_problem", "fh_checked", "lengths_refused", "model_failed", "dare_checked",
                        "dare_warm", "not_stabilisable", "care_checked", "alloc_failed", "several_users"], note=_N),
    "C23": dict(scenarios=[S("cost", "cost", 20000), S("cost", "con", 20000)],
                real=["cost functions, cost terms, activations, constraints and constraint containers named in the property"],
                stubs=_SIM_STUBS + ["user's term and constraint, whose calls may fail"], assumptions=_ASSUME,
                probes=["evaluated", "evaluated_simple", "reference_moved", "term_changed", "cloned", "derivative_test", "derivative_test_failed", "failed_call",
                        "evaluated_intermediate", "evaluated_terminal", "sparse", "violated", "refused", "bounds_changed", "terminal_of_other_mode", "alloc_failed",
                        "several_users"], note=_N),
    "C24": dict(scenarios=[S("nloc", "optimal", 10000), S("nloc", "restart", 8000)], real=_NLOC_REAL, stubs=_NLOC_STUB, assumptions=_ASSUME,
                probes=["optimal", "optimal_gains", "optimal_multiple_shooting", "optimal_after_mpc_iteration", "step_rejected", "step_rejected_twice", "restarted",
                        "restarted_multiple_shooting", "restarted_after_mpc_iteration", "restarted_converged"], note=_N),
}
NOT_APPLICABLE = {
    "M01": "a pure function of its arguments: no schedule, time, I/O, failure or history for a simulation to vary",
    "M02": "a numerical-analysis statement about pure functions; schedules, faults and histories of the same code are covered by C18",
    "M03": "a pure function of the robot state: no schedule, time, I/O, failure or history for a simulation to vary",
    "M04": "IPOPT, SNOPT and HPIPM are not installed here, so the bridges cannot be compiled; the Nlp interface they call is covered by C13 and C14",
}
