"""Workload generator: small but complete inputs for the package, built from a JSON config.

A config (`cfg`) fixes everything: galaxy, instrument, data (made with the independent reference
model plus seeded noise), model options, parameter settings, sampler options."""
import copy
import os

import numpy as np

from . import refmodel

LINES = {"Halpha": ("HA6565", "K", [6564.60], [1.]),
         "OIII": ("OIII5008", "H", [5008.24, 4960.295], [1., 0.333333]),
         "Hbeta": ("HB4863", "H", [4862.71], [1.])}


def gen_cfg(rng, **kw):
    """Random configuration. Every number is short, so that cases read well."""
    u = lambda a, b, nd=3: round(rng.uniform(a, b), nd)
    ny = rng.choice([8, 9, 9, 10, 11])
    re = u(.45, .95)
    c = dict(
        line=rng.choice(["Halpha", "Halpha", "Hbeta"]),
        z=u(1.9, 2.5, 4), n=rng.choice([1., 1., u(.6, 2.5)]), re=re, q=u(.3, .9), q0=rng.choice([.19, .19, .25]),
        delt_PA=rng.choice([0., u(-60, 60, 1)]), re_mass=rng.choice([re, round(re * u(.7, 1.2), 3)]),
        q_mass=u(.3, .9),
        ny=ny, nw=rng.choice([9, 10, 11, 11, 12, 13]), dlam=u(1.8, 2.6), lamshift=rng.choice([0., u(-1., 1.)]),
        pixscale=.18, slit_width=u(.45, .75), psf_fwhm=u(.35, .65),
        psf_type=rng.choice(["Gaussian", "Gaussian", "Moffat"]), inst_res=rng.choice([39., u(20, 60, 1)]),
        yspace=None,
        nsub=rng.choice([1, 1, 1, 2]), pad=rng.choice([.5, .5, .3, 1.]),
        pos_shift=False, eff_res=False, absval=rng.random() < .25, adaptive=rng.random() < .8,
        floor=rng.random() < .8, intprof=rng.choice(["fiducial", "fiducial", "expscale"]),
        weighting=rng.choice(["up-edges", "up-edges", "none"]),
        true=[u(-250, 250, 1), u(.15, .6), u(25, 90, 1), u(-.3, .3), 0.],
        snr=u(12, 40, 1), data_seed=rng.randrange(1 << 30), bad_frac=rng.choice([0., 0., .04]),
        m0off=rng.choice([0., 0., .5, -.5]),
        cont=False,
        theta0=[u(60, 200, 1), u(.3, .6), u(35, 70, 1), 0., None],
        vary=[True, True, True, False, False], linked=rng.choice(["pair", "pair", "none", "all", "two"]),
        sig_bounds=[0., 200.], va_bound=600., rt_bound=1.2,
        nwalk=8, nburn=rng.choice([0, 1, 2, 3]), nstep=rng.choice([3, 4, 5]), a=rng.choice([2., 2., 3.]),
        minAF=None, maxAF=None, nEff=10, runAll=True,
        ncpu=1, seed=rng.randrange(1 << 30), prior=rng.choice(["auto", "given"]),
    )
    if c["line"] == "Hbeta":
        c["z"] = round(c["z"] + 1., 4)
    r = rng.random()
    if r < .12:
        c["vary"] = rng.choice([[True, True, False, False, False], [True, False, True, False, False],
                                [False, True, True, False, False], [True, False, False, False, False]])
    elif r < .3:
        c["vary"] = rng.choice([[True, True, True, True, False], [True, True, True, False, True],
                                [True, True, True, True, True], [True, False, True, True, False]])
    if rng.random() < .3:      # dispersions near the wavelength sampling: switches upsampling
        c["sig_bounds"] = [rng.choice([0., 0., -40.]) if not c["absval"] else -60., 80.]
    big = rng.random()
    if big < .02:              # sizes nearer to those of real observations and fits
        c.update(ny=rng.choice([14, 17, 20]), nw=rng.choice([18, 25, 31]))
    c.update(kw)
    nf = sum(c["vary"])
    c["nwalk"] = kw.get("nwalk", max(2 * nf, rng.choice([8, 8, 10, 6])))
    if .02 < big < .045 and "nwalk" not in kw:
        c["nwalk"] = rng.choice([24, 34, 50])
    if not (c["vary"][0] and c["vary"][1]):
        c["linked"] = "none" if c["linked"] in ("pair", "two") else c["linked"]
    if nf < 2:
        c["linked"] = "none"
    if c["linked"] == "two" and nf < 3:
        c["linked"] = "pair"
    if "sky" not in kw:        # sky lines, and rows too faint to be fitted
        c["sky"] = sorted(rng.sample(range(c["nw"]), rng.choice([1, 2, 3]))) if rng.random() < .15 else []
    if "faint" not in kw:
        c["faint"] = rng.choice([.2, .35, .5]) if rng.random() < .2 else 0.
    return c


def gen_geo(rng, p=.3):
    """Angles of slit, image and galaxy on the sky (or none): the misalignment is derived or explicit."""
    if rng.random() >= p:
        return None
    u = lambda a, b: round(rng.uniform(a, b), 1)
    return dict(img_PA=u(-180, 180), slit_PA=u(-180, 180), off=rng.choice([0., 0., u(10, 80)]))


def refparams(c):
    return dict(q=c["q"], q0=c["q0"], n=c["n"], re=c["re"], delt_PA=c["delt_PA"], pixscale=c["pixscale"],
                slit_width=c["slit_width"], psf_fwhm=c["psf_fwhm"], psf_type=c["psf_type"], yspace=c["yspace"],
                inst_res=c["inst_res"], nsub=c["nsub"], pad=c["pad"], adaptive=c["adaptive"],
                absval=c["absval"], floor=c["floor"], intprof=c["intprof"])


def wavelengths(c):
    lam0 = LINES[c["line"]][2][0]
    nw = c["nw"] + (44 if c["cont"] else 0)
    return np.linspace(lam0 * (1. + c["z"]) - c["dlam"] * (nw - 1) / 2.,
                       lam0 * (1. + c["z"]) + c["dlam"] * (nw - 1) / 2., nw) + c["lamshift"]


_data_cache = {}


def data(c):
    """Synthetic observation: flux, err, mask (fresh arrays on every call)."""
    key = tuple(str(c[k]) for k in sorted(c) if k in (
        "line z n re q q0 delt_PA ny nw dlam lamshift pixscale slit_width psf_fwhm psf_type inst_res yspace nsub pad"
        " true snr data_seed bad_frac m0off cont intprof adaptive absval floor sky flat".split()))
    if key not in _data_cache:
        _, _, lines, ratios = LINES[c["line"]]
        th = list(c["true"])
        th[4] = c["z"]
        p = refparams(c)
        p.update(absval=True, adaptive=False, floor=True)
        w = wavelengths(c)
        ny = c["ny"] + 1         # preparation drops the last row
        m = refmodel.forward(p, th, w, ny, ny / 2. - .5, lines, ratios)
        rs = np.random.RandomState(c["data_seed"] % (1 << 31))
        m = m / m.max()
        e = np.ones(m.shape) / c["snr"] * (1. + .2 * rs.random_sample(m.shape))
        if c.get("flat"):        # the same error everywhere, as in mocks
            e[:] = 1.1 / c["snr"]
        f = m + e * rs.standard_normal(m.shape)
        if c["cont"]:
            f = f + .3 + 2.e-4 * (w - w.mean())
        mask = np.ones(m.shape)
        mask[rs.random_sample(m.shape) < c["bad_frac"]] = 0.
        for j in [j for j in c.get("sky", ()) if j < m.shape[1]]:
            e[:, j] *= 15.
            f[:, j] += e[:, j] * rs.standard_normal(ny)
        f1 = f.sum(axis=0)
        e1 = np.sqrt((e ** 2).sum(axis=0))
        _data_cache[key] = (f, e, mask, w, f1, e1)
        if len(_data_cache) > 50:
            _data_cache.pop(next(iter(_data_cache)))
    return tuple(np.array(a) for a in _data_cache[key])


class World(object):
    """All input objects of one configuration; `arrays` are the caller's data arrays."""


def instrument(misfit, c):
    inst = misfit.instrument.Spectrograph(
        instrument_name="SIM", PSF_type=c["psf_type"], PSF_FWHM=c["psf_fwhm"], yspace_dither_arc=c["yspace"],
        pixscale=c["pixscale"], slit_width=c["slit_width"], slit_length=(c["ny"] + 1) * c["pixscale"],
        instrument_resolution=c["inst_res"], band=LINES[c["line"]][1])
    return inst


def galaxy(misfit, c, arrays=None, with_1d=None):
    f, e, mask, w, f1, e1 = arrays if arrays is not None else data(c)
    primary, band, lines, ratios = LINES[c["line"]]
    gal = misfit.galaxy.Galaxy(z=c["z"], ID=7, field="SIM", maskname="m", n=c["n"], re_arcsec=c["re"],
                               delt_PA=c["delt_PA"], q=c["q"], re_mass_arcsec=c["re_mass"], q0=c["q0"],
                               q_mass=c["q_mass"], dither=False, generate_model=False)
    kw = {}
    geo = c.get("geo")
    if geo is not None:
        # angles on the sky: the slit misalignment follows from them, or is given besides
        gal.set_pstamp(misfit.galaxy.Pstamp(img_PA=geo["img_PA"]))
        kw["slit_PA"] = geo["slit_PA"]
        gal.sersicPA = round(geo["slit_PA"] - geo["img_PA"] + c["delt_PA"] + geo["off"], 3)
        if geo["off"] == 0.:
            gal.delt_PA = None
    if c["cont"]:
        r = w / (1. + c["z"])
        cen = lines[0]
        half = c["dlam"] * c["nw"] / 2. / (1. + c["z"])
        kw.update(wave_full_range_rest=np.array([r[0] - 1., r[-1] + 1.]),
                  wave_line_range_rest=np.array([cen - half, cen + half]),
                  mask_lines_wave_range_rest=np.array([cen - half, cen + half]))
    else:
        kw.update(wave_full_range_rest=np.array([lines[0] - 60., lines[0] + 60.]),
                  wave_line_range_rest=np.array([lines[0] - 50., lines[0] + 50.]),
                  mask_lines_wave_range_rest=np.array([lines[0] - 20., lines[0] + 20.]))
    spec = misfit.galaxy.ObsSpectrum2D(band=band, wave=w, flux=f, flux_err=e, spec_mask=mask,
                                       linegroup_name=c["line"], no_continuum_subtraction=not c["cont"],
                                       weighting_type=c["weighting"], **kw)
    ny = f.shape[0]
    if c.get("faint"):
        ok = np.isfinite(f) & np.isfinite(e) & (e > 0) & (e < 5. * np.nanmedian(e))
        spec.row_snr_cut = float(np.quantile(np.abs(np.where(ok, f, 0.).sum(axis=1)) / np.sqrt((np.where(ok, e, 0.) ** 2).sum(axis=1)), c["faint"]))
    spec.shape = [ny, len(w)]
    spec.ypos = ny / 2. + c["m0off"]
    spec.m0 = spec.ypos
    gal.set_spectrum_2D(spec)
    if c["cont"] or with_1d:
        s1 = misfit.galaxy.ObsSpectrum1D(wave=w.copy(), flux=f1, flux_err=e1, band=band)
        gal.set_spectrum_1D(s1)
    return gal


def settings(misfit, c):
    th = list(c["theta0"])
    th[4] = c["z"]
    b = np.empty(5, dtype=object)
    b[0] = np.array([-c["va_bound"], c["va_bound"]])
    b[1] = np.array([0., c["rt_bound"]])
    b[2] = np.array(c["sig_bounds"], dtype=float)
    b[3] = np.array([-.8, .8]) if c["vary"][3] else None
    b[4] = np.array([c["z"] - .0012, c["z"] + .0012]) if c["vary"][4] else None
    nf = sum(c["vary"])
    linked = {"none": None, "pair": np.array([[0, 1]]), "two": [[0, 1], [2]], "all": ["all"]}[c["linked"]]
    return misfit.Theta2DSettingsFiducial(theta=np.array(th, dtype=float), theta_vary=np.array(c["vary"]),
                                          theta_bounds=b, theta_linked_posteriors=linked, usetex=False)


def model_options(misfit, c):
    return misfit.KinModel2DOptions(nSubpixels=c["nsub"], pad_factor=c["pad"], do_position_wave_shift=c["pos_shift"],
                                    do_inst_res_conv_effective=c["eff_res"], absvalsigma=c["absval"],
                                    adaptive_upsample_wave=c["adaptive"], sigma_floor=c["floor"])


def intensity(misfit, c, gal):
    if c["intprof"] == "expscale":
        return misfit.IntensityProfileSersicExpScale(galaxy=gal)
    return misfit.IntensityProfileFiducial(galaxy=gal)


OUTPUTS = dict(log="filename_log", sampler="filename_sampler", h5="filename_sampler_h5",
               bestfit="filename_bestfit_model", trace_burnin="filename_plot_trace_burnin",
               trace="filename_plot_trace", corner="filename_plot_param_corner", plot="filename_plot_bestfit")
EXT = dict(log="log", sampler="pickle", h5="h5", bestfit="bestfit", trace_burnin="tb.png", trace="t.png",
           corner="c.png", plot="p.png")
ALL_FILES = ("log", "sampler", "h5", "bestfit")


def mcmc_options(misfit, c, d=None, outputs=ALL_FILES, name="fit"):
    kw = dict(nWalkers=c["nwalk"], nSteps=c["nstep"], nBurn=c["nburn"], scale_param_a=c["a"], minAF=c["minAF"],
              maxAF=c["maxAF"], nEff=c["nEff"], runAllSteps=c["runAll"], nCPUs=c["ncpu"])
    if d is not None:
        for o in outputs:
            kw[OUTPUTS[o]] = os.path.join(d, "%s.%s" % (name, EXT[o]))
    return misfit.MCMC2DOptions(**kw)


def build(misfit, c, d=None, outputs=ALL_FILES, name="fit", gal=None, inst=None, **kw):
    """A ready-to-run 2D fit and its inputs."""
    w = World()
    w.cfg = c
    w.arrays = data(c)
    w.given = tuple(a.copy() for a in w.arrays)
    w.inst = inst if inst is not None else instrument(misfit, c)
    w.gal = gal if gal is not None else galaxy(misfit, c, w.arrays)
    w.settings = kw.pop("settings", None) or settings(misfit, c)
    w.options = kw.pop("kinModelOptions", None) or model_options(misfit, c)
    w.mcmc = kw.pop("mcmcOptions", None) or mcmc_options(misfit, c, d, outputs, name)
    w.kin = kw.pop("kinProfile", None) or misfit.KinProfileFiducial()
    w.intp = kw.pop("intensityProfile", None) or intensity(misfit, c, w.gal)
    if c["prior"] == "given":
        kw.setdefault("thetaPrior", misfit.ThetaPriorFlat(theta=np.array(w.settings.theta),
                                                         theta_vary=np.array(w.settings.theta_vary),
                                                         theta_bounds=copy.deepcopy(w.settings.theta_bounds)))
    w.fit = misfit.fit.FitEmissionLines2D(galaxy=w.gal, instrument=w.inst, linegroup_name=c["line"],
                                          thetaSettings=w.settings, kinModelOptions=w.options, mcmcOptions=w.mcmc,
                                          kinProfile=w.kin, intensityProfile=w.intp, usetex=False, **kw)
    return w


def free_theta(c, theta):
    return np.array([t for t, v in zip(theta, c["vary"]) if v], dtype=float)


def full_theta(c, free, base=None):
    th = list(c["theta0"]) if base is None else list(base)
    if th[4] is None:
        th[4] = c["z"]
    it = iter(free)
    return [float(next(it)) if v else float(t) for t, v in zip(th, c["vary"])]


def random_theta(rng, c, small_sigma=None):
    """A parameter vector inside the bounds (only the free entries differ from the start)."""
    th = full_theta(c, free_theta(c, full_theta(c, [0] * 5) if False else [x if x is not None else c["z"] for x in c["theta0"]]))
    lo, hi = c["sig_bounds"]
    if c["vary"][0]: th[0] = round(rng.uniform(-300, 300), 2)
    if c["vary"][1]: th[1] = round(rng.uniform(.05, 1.), 3)
    if c["vary"][2]:
        if small_sigma or (small_sigma is None and rng.random() < .4):
            th[2] = round(rng.uniform(max(lo, -25.), 25.), 2)
        else:
            th[2] = round(rng.uniform(max(lo, 40.), hi), 2) if hi > 40 else round(rng.uniform(lo, hi), 2)
    if c["vary"][3]: th[3] = round(rng.uniform(-.7, .7), 3)
    if c["vary"][4]: th[4] = round(c["z"] + rng.uniform(-.001, .001), 6)
    return th
