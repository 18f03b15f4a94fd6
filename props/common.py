"""Building blocks shared by the harnesses: scenario frames with symbolic cells"""
import functools
import os

import numpy as np
import pandas as pd

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
GASFILES = {
    "v1": "gases_v1RCMIP.txt",
    "ar6": "gases_vupdate_2022_AR6.txt",
    "wmo": "gases_vupdate_2024_WMO_added_new.txt",
}
NOT_EMITTED = ["LANDUSE", "OTHER", "SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS"]


@functools.lru_cache(None)
def _gas(name):
    df = pd.read_csv(os.path.join(DATA, GASFILES[name]), sep=r"\s+", index_col=0)
    return df.rename(columns={"TAU1(YEARS)": "TAU1", "NATURAL_EMISSIONS": "NAT_EM"})


@functools.lru_cache(None)
def _table(fname):
    df = pd.read_csv(os.path.join(DATA, fname), sep=r"\s+", index_col=0, skiprows=[1, 2, 3])
    return df.rename(columns={"CO2": "CO2_FF", "CO2.1": "CO2_AFOLU"}) if "em" in fname else df


def gaspam(name="v1", drop=()):
    df = _gas(name).copy()
    for c in ["BETA", "ALPHA", "TAU1", "TAU2", "TAU3", "NAT_EM", "SARF_TO_ERF"]:
        df[c] = df[c].astype(float)
    return df.drop(index=list(drop))


def emissions(gas, y0, y1):
    src = _table("ssp245_em_RCMIP.txt")
    out = {}
    yrs = np.arange(y0, y1 + 1)
    for i, g in enumerate(gas.index):
        if g in NOT_EMITTED or gas.loc[g, "EM_UNIT"] == "X":
            continue
        if g == "CO2":
            out["CO2_FF"] = src["CO2_FF"].loc[yrs].to_numpy(dtype=float)
            out["CO2_AFOLU"] = src["CO2_AFOLU"].loc[yrs].to_numpy(dtype=float)
        elif g in src.columns:
            out[g] = src[g].loc[yrs].to_numpy(dtype=float)
        else:
            out[g] = 1.0 + 0.1 * i + 0.01 * (yrs - y0)
    return pd.DataFrame(out, index=yrs)


def concentrations(gas, y0, y1):
    src = _table("ssp245_conc_RCMIP.txt")
    yrs = np.arange(y0, y1 + 1)
    out = {}
    for i, g in enumerate(gas.index):
        if gas.loc[g, "CONC_UNIT"] == "-":
            continue
        if g in src.columns:
            out[g] = src[g].loc[yrs].to_numpy(dtype=float)
        else:
            out[g] = 2.0 + 0.3 * i + 0.02 * (yrs - y0)
    return pd.DataFrame(out, index=yrs)


@functools.lru_cache(None)
def _frames(name, drop, y0, y1):
    gas = gaspam(name, drop)
    return gas, emissions(gas, y0, y1), concentrations(gas, y0, y1)


def put(ctx, df, row, col, value):
    """Write a possibly symbolic value in a frame"""
    if ctx.symbolic and df[col].dtype != object:
        df[col] = df[col].astype(object)
    df.loc[row, col] = value
    return value


def sym_cell(ctx, df, row, col, name, lo, hi):
    return put(ctx, df, row, col, ctx.real(name, lo, hi))


def sym_around(ctx, df, row, col, tag, lo=0.3, hi=3.0, floor=0.0, ceil=1.0):
    """symbolic cell ranging over a wide interval around the tabulated value"""
    base = float(_float(df.loc[row, col]))
    a, b = sorted((base * lo, base * hi))
    a, b = min(a, floor) if floor <= 0 else max(a, floor), max(b, ceil)
    return sym_cell(ctx, df, row, col, f"{tag}_{col}_{row}", a, b)


def _float(x):
    return x


class Scenario:
    """Frames of one scenario, the configuration and the handler built from it"""

    def __init__(self, ctx, gas="v1", ny=(1998, 2003), emstart=2000, carbon="box", drop=()):
        self.ctx = ctx
        self.y0, self.y1 = ny
        self.emstart = emstart
        self.carbon = carbon
        self.gas, self.em, self.conc = (df.copy() for df in _frames(gas, tuple(drop), self.y0, self.y1))
        n = self.y1 - self.y0 + 1
        yrs = np.arange(self.y0, self.y1 + 1)
        self.natch4 = pd.DataFrame({"CH4": 240.0 + 3.0 * np.arange(n)}, index=yrs)
        self.natn2o = pd.DataFrame({"N2O": 9.0 + 0.2 * np.arange(n)}, index=yrs)
        self.extra = {}
        self.pam = {}

    @property
    def years(self):
        return range(self.y0, self.y1 + 1)

    def cfg(self):
        c = {
            "nystart": self.y0,
            "nyend": self.y1,
            "emstart": self.emstart,
            "carbon_cycle_model": self.carbon,
            "gaspam_data": self.gas,
            "emissions_data": self.em,
            "concentrations_data": self.conc,
            "nat_ch4_data": self.natch4,
            "nat_n2o_data": self.natn2o,
        }
        c.update(self.extra)
        return c

    def objectify(self):
        """Let every numeric column of the frames hold symbolic values"""
        if not self.ctx.symbolic:
            return
        for df in (self.gas, self.em, self.conc, self.natch4, self.natn2o):
            for c in df.columns:
                if df[c].dtype == float:
                    df[c] = df[c].astype(object)

    def handler(self, pamset_carbon=None):
        self.objectify()
        ih = self.ctx.mod("input_handler")
        ceh = self.ctx.mod("concentrations_emissions_handler")
        pam = {
            "nystart": self.y0,
            "nyend": self.y1,
            "emstart": self.emstart,
            "carbon_cycle_model": self.carbon,
            "ref_yr": self.y1 - 1,
        }
        pam.update(self.pam)
        self.h = ceh.ConcentrationsEmissionsHandler(ih.InputHandler(self.cfg()), pam, pamset_carbon)
        self.h.reset_with_new_pams(pam, pamset_carbon)
        return self.h

    def run(self, h=None, luc=None, sun=None, upto=None, outputs=True, dtemp=None):
        """all years through the handler; results as the user sees them"""
        h = h or self.handler()
        self.rets = {}
        for yr in self.years:
            if upto is not None and yr > upto:
                break
            h.emi2conc(yr, None if dtemp is None else {"dtemp": dtemp[yr]})
            self.rets[yr] = h.conc2forc(
                yr, 0.1 if luc is None else luc[yr], 0.0 if sun is None else sun[yr]
            )
        if outputs:
            self.res = h.add_results_to_dict({"results_as_dict": True})
            return self.res
        return None

    def vanilla(self):
        """gases with a concentration, other than CO2, CH4 and N2O"""
        return [g for g in self.gas.index if self.gas.loc[g, "CONC_UNIT"] != "-" and g not in ("CO2", "CH4", "N2O")]
