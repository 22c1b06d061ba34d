"""Shared parts of the harnesses."""


def registry():
    cases = {}

    def case(name, tier="quick", thorough=None, **opts):
        def deco(fn):
            cases[name] = dict(fn=fn, tier=tier, opts=opts, thorough=thorough or {})
            return fn

        return deco

    return cases, case


DEVICES = "gym_anm.simulator.components.devices"
BRANCH = "gym_anm.simulator.components.branch"
BUS = "gym_anm.simulator.components.bus"
SIM = "gym_anm.simulator.simulator"
CHECK = "gym_anm.simulator.check_network"
LF = "gym_anm.simulator.solve_load_flow"
ENV = "gym_anm.envs.anm_env"
ENVUTILS = "gym_anm.envs.utils"
EASY = "gym_anm.envs.anm6_env.anm6_easy"
ANM6 = "gym_anm.envs.anm6_env.anm6"

# column order of the device array
COLS = ["DEV_ID", "BUS_ID", "DEV_TYPE", "Q/P", "P_MAX", "P_MIN", "Q_MAX", "Q_MIN", "P+", "P-", "Q+", "Q-", "SOC_MAX", "SOC_MIN", "EFF"]
