"""1D spectra and line fits from a JSON config."""
import copy
import functools
import os

import numpy as np

C_KMS = 299792.458
UNIT = 1e-17            # erg/s/cm2
WAVES = {"Halpha": [6564.60], "NII": [6549.86, 6585.27], "Hbeta": [4862.71], "OIII": [5008.24, 4960.295],
         "SII": [6732.673, 6718.294]}
GROUPS = [["Halpha"], ["Halpha", "NII"], ["Hbeta"], ["OIII"], ["Halpha", "NII", "SII"]]


def gen(rng, **kw):
    u = lambda a, b, nd=3: round(rng.uniform(a, b), nd)
    c = dict(z=u(1.8, 2.4, 4), names=rng.choice(GROUPS[:4] + GROUPS[:2]), disp=u(60, 180, 1), inst_res=u(30, 80, 1),
             dz=u(-.0015, .0015, 5), flux=u(2, 9, 2), snr=u(15, 60, 1), seed=rng.randrange(1 << 30), dlam=u(3.5, 5., 2),
             cont=[u(-.2, .4), u(-2e-5, 2e-5, 7)], num_MC=rng.choice([2, 3, 4, 6]), disp0=u(70, 150, 1),
             flux0=u(2, 8, 2), cont_order=rng.choice([1, 1, 0, 2]), trim=rng.choice(["default", "default", "range", "table"]),
             maskname=rng.choice(["m", "m", None]))
    c.update(kw)
    return c


def arrays(c):
    ha = c.get("grid", c["names"][0]) == "Halpha"
    lo, hi = (6450., 6800.) if ha else (4780., 5080.)
    w = np.arange(lo * (1 + c["z"]), hi * (1 + c["z"]), c["dlam"])
    f = np.zeros(len(w))
    zt = c["z"] + c["dz"]
    for k, n in enumerate(["Halpha", "NII", "SII"] if ha else ["Hbeta", "OIII"]):
        for j, l in enumerate(WAVES[n]):
            s = c["disp"] / C_KMS * l * (1 + zt)
            a = c["flux"] * (1., .4, .2)[k] * (1. if j == 0 else .33)
            f += a / (s * np.sqrt(2 * np.pi)) * np.exp(-.5 * ((w - l * (1 + zt)) / s) ** 2)
    peak = f.max()
    rs = np.random.RandomState(c["seed"] % (1 << 31))
    e = np.ones(len(w)) * peak / c["snr"] * (1. + .3 * rs.random_sample(len(w)))
    f = f + c["cont"][0] * peak + c["cont"][1] * (w - w.mean()) * peak + e * rs.standard_normal(len(w))
    return w, f * UNIT, e * UNIT


def galaxy(misfit, c):
    w, f, e = arrays(c)
    g = misfit.galaxy.Galaxy(z=c["z"], ID=11, field="SIM", maskname=c["maskname"], generate_model=False)
    g.set_spectrum_1D(misfit.galaxy.ObsSpectrum1D(wave=w, flux=f, flux_err=e))
    return g, (w, f, e)


def instrument(misfit, c):
    return misfit.instrument.Spectrograph(instrument_name="SIM", PSF_type="Gaussian", PSF_FWHM=.6,
                                          instrument_resolution=c["inst_res"], pixscale=.18, band="K")


def trim_range(c):
    lines = [l for n in c["names"] for l in WAVES[n]]
    if c["trim"] == "range":
        return min(lines) - 70., max(lines) + 70.
    if c["trim"] == "table":
        w = 50. + c["seed"] % 16
        return min(lines) - w, max(lines) + w
    return {"Halpha": (6480., 6650.), "Hbeta": (4800., 4920.), "OIII": (4930., 5060.)}[c["names"][0]]


def make_fit(misfit, c, gal, inst, **kw):
    a = dict(galaxy=gal, instrument=inst, names_arr=list(c["names"]),
             flux_arr=[c["flux0"] * UNIT * (1., .3, .2)[k] for k in range(len(c["names"]))], vel_disp=c["disp0"],
             num_MC=c["num_MC"], cont_order=c["cont_order"])
    if c["trim"] == "range":
        lines = [l for n in c["names"] for l in WAVES[n]]
        a["trim_restwave_range"] = [min(lines) - 70., max(lines) + 70.]
    elif c["trim"] == "table":          # the user's own table, one directory per spectrum
        d = os.path.join(os.getcwd(), "own-%d" % c["seed"])
        os.makedirs(d, exist_ok=True)
        a["trim_wave_paramfile"] = os.path.join(d, "trim_wavelengths_1D.param")
        with open(a["trim_wave_paramfile"], "w") as f:
            f.write("# linename wave_l wave_u\nHB4863 1. 2.\n%s %.2f %.2f\n" % ((c["names"][0],) + trim_range(c)))
    a.update(kw)
    return misfit.fit.fit1D.FitEmissionLines1D(**a)


KEYS = ("z", "vel_disp", "flux_arr", "cont_coeff", "z_err", "vel_disp_err", "flux_arr_err", "cont_coeff_err",
        "vel_disp_inst_corr", "vel_disp_inst_corr_err")


def result(fit, corr=True):
    out = {}
    for k in KEYS:
        v = getattr(fit, k, None)
        if v is not None:
            out[k] = np.array(v, dtype=float)
    out["model"] = np.array(fit.final_model)
    out["trim_wave"] = np.array(fit.spec1D_trim.obswave)
    out["trim_flux"] = np.array(fit.spec1D_trim.flux)
    return out


def cache_tables(sim, misfit):
    """The packaged line tables are parsed thousands of times in a 1D fit: parse each entry once per
    run (results are copied, so that no caller sees another's changes)."""
    import misfit.general.io as mio
    for name in ("read_line_names", "read_restwave", "read_line_ratio"):
        real = getattr(mio, name, None)
        if real is None:
            continue
        memo = {}

        def cached(*a, _real=real, _memo=memo, **k):
            key = (a, tuple(sorted(k.items())))
            if key not in _memo:
                _memo[key] = _real(*a, **k)
            return copy.deepcopy(_memo[key])
        sim.replace("misfit", real, cached)
