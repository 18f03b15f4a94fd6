"""Carbon cycle building blocks shared by the harnesses"""
PGC = 2.123  # PgC per ppm
AIRSEA = 1.0 / 9.06  # gas exchange per year over the whole ocean
UMOL = 1.722e17
AREA = 3.62e14


def box(ctx, ny=(2000, 2003), pam=None):
    m = ctx.mod("carbon_cycle.carbon_cycle_mod_box")
    return m.CarbonCycleModel({"nystart": ny[0], "nyend": ny[1], "idtm": 24}, pam)


def default(ctx, ny=(2000, 2003), idtm=2, pam=None):
    m = ctx.mod("carbon_cycle.carbon_cycle_mod")
    return m.CarbonCycleModel({"nystart": ny[0], "nyend": ny[1], "idtm": idtm}, pam)
