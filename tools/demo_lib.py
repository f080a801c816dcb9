"""Small inputs for the demonstrations. Runs against the package in the current directory (/repo)."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["MPLBACKEND"] = "Agg"
os.environ["HDF5_USE_FILE_LOCKING"] = "FALSE"
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
SCRATCH = tempfile.mkdtemp(prefix="demo-")
os.environ["MPLCONFIGDIR"] = SCRATCH
import warnings
warnings.filterwarnings("ignore")
import numpy as np
np.seterr(all="ignore")
import misfit
import misfit.fit, misfit.mock, misfit.plot, misfit.galaxy, misfit.instrument
import misfit.fit.fit1D as fit1D
import misfit.fit.fit_core as fit_core
warnings.filterwarnings("ignore")

Z, PIX = 2.2, .18


def instrument(**kw):
    a = dict(instrument_name="SIM", PSF_type="Gaussian", PSF_FWHM=.5, yspace_dither_arc=None, pixscale=PIX,
             slit_width=.6, slit_length=10 * PIX, instrument_resolution=39., band="K")
    a.update(kw)
    return misfit.instrument.Spectrograph(**a)


def wave(nw=11, dlam=2.2):
    l0 = 6564.6 * (1 + Z)
    return np.linspace(l0 - dlam * (nw - 1) / 2., l0 + dlam * (nw - 1) / 2., nw)


def data(ny=10, nw=11, seed=1, snr=20., dlam=2.2):
    w = wave(nw, dlam)
    y = np.arange(ny) - (ny / 2. - .5)
    v = 150. * np.arctan(y * PIX / .3) / (np.pi / 2)
    cen = 6564.6 * (1 + Z) * (1 + v / 299792.458)
    s = 60. / 299792.458 * 6564.6 * (1 + Z)
    f = np.exp(-np.abs(y) * PIX / .5)[:, None] * np.exp(-.5 * ((w[None, :] - cen[:, None]) / s) ** 2)
    rs = np.random.RandomState(seed)
    e = np.ones(f.shape) / snr * (1 + .2 * rs.random_sample(f.shape))
    return w, f + e * rs.standard_normal(f.shape), e, np.ones(f.shape)


def galaxy(arrays=None, m0off=0., **kw):
    w, f, e, m = arrays if arrays is not None else data()
    a = dict(z=Z, ID=7, field="SIM", maskname="m", n=1., re_arcsec=.6, delt_PA=10., q=.6, re_mass_arcsec=.55, q0=.19,
             q_mass=.6, dither=False, generate_model=False)
    a.update(kw)
    g = misfit.galaxy.Galaxy(**a)
    s = misfit.galaxy.ObsSpectrum2D(
        band="K", wave=w, flux=f, flux_err=e, spec_mask=m, linegroup_name="Halpha", no_continuum_subtraction=True,
        weighting_type="up-edges", wave_full_range_rest=np.array([6500., 6630.]),
        wave_line_range_rest=np.array([6510., 6620.]), mask_lines_wave_range_rest=np.array([6540., 6590.]))
    s.shape = list(f.shape)
    s.ypos = f.shape[0] / 2. + m0off
    s.m0 = s.ypos
    g.set_spectrum_2D(s)
    return g


def settings(vary=(True, True, True, False, False), linked=((0, 1),), theta=(150., .4, 50., 0., Z), sig=(0., 200.)):
    b = np.empty(5, dtype=object)
    b[0], b[1], b[2] = np.array([-500., 500.]), np.array([0., 1.2]), np.array(sig)
    b[3] = np.array([-.8, .8])
    b[4] = np.array([Z - .001, Z + .001])
    return misfit.Theta2DSettingsFiducial(
        theta=np.array(theta, dtype=float), theta_vary=np.array(vary), theta_bounds=b, usetex=False,
        theta_linked_posteriors=None if linked is None else np.array(linked))


def options(**kw):
    a = dict(nSubpixels=1, pad_factor=.3)
    a.update(kw)
    return misfit.KinModel2DOptions(**a)


def mcmc(d=None, files=("log", "sampler", "bestfit"), **kw):
    a = dict(nWalkers=8, nSteps=4, nBurn=2, scale_param_a=2., nCPUs=1, runAllSteps=True)
    names = dict(log="filename_log", sampler="filename_sampler", bestfit="filename_bestfit_model",
                 h5="filename_sampler_h5", trace="filename_plot_trace", corner="filename_plot_param_corner",
                 plot="filename_plot_bestfit")
    if d:
        for k in files:
            a[names[k]] = os.path.join(d, "fit." + ("png" if k in ("trace", "corner", "plot") else k)
                                       if k not in ("trace", "corner", "plot") else k + ".png")
    a.update(kw)
    return misfit.MCMC2DOptions(**a)


def fit2d(d=None, gal=None, inst=None, sett=None, opts=None, mc=None, arrays=None, **kw):
    gal = gal if gal is not None else galaxy(arrays)
    return misfit.fit.FitEmissionLines2D(
        galaxy=gal, instrument=inst if inst is not None else instrument(), linegroup_name="Halpha",
        thetaSettings=sett if sett is not None else settings(), kinModelOptions=opts if opts is not None else options(),
        mcmcOptions=mc if mc is not None else mcmc(d), usetex=False,
        kinProfile=kw.pop("kinProfile", None) or misfit.KinProfileFiducial(),
        intensityProfile=kw.pop("intensityProfile", None) or misfit.IntensityProfileFiducial(galaxy=gal), **kw)


def run(fit, seed=3):
    """Sample, analyse and save (no plots)."""
    np.random.seed(seed)
    with quiet():
        fit.setup_model()
        fit.run_mcmc()
        fit.analyze_results()
        fit.save_bestfit_model()
    return fit


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def spec1d(seed=5, snr=30., z=Z):
    w = np.arange(6450 * (1 + z), 6800 * (1 + z), 4.)
    l = 6564.6 * (1 + z + .0005)
    s = 100. / 299792.458 * l
    f = 5. / s / np.sqrt(2 * np.pi) * np.exp(-.5 * ((w - l) / s) ** 2)
    rs = np.random.RandomState(seed)
    e = np.ones(len(w)) * f.max() / snr
    return w, (f + e * rs.standard_normal(len(w))) * 1e-17, e * 1e-17


def fit1d(arr=None, num_MC=5, **kw):
    w, f, e = arr if arr is not None else spec1d()
    g = misfit.galaxy.Galaxy(z=Z, ID=11, field="SIM", maskname="m", generate_model=False)
    g.set_spectrum_1D(misfit.galaxy.ObsSpectrum1D(wave=w, flux=f, flux_err=e))
    a = dict(galaxy=g, instrument=instrument(), names_arr=["Halpha"], flux_arr=[4e-17], vel_disp=100., num_MC=num_MC,
             cont_order=1)
    a.update(kw)
    return fit1D.FitEmissionLines1D(**a)


def main(f):
    """Run the demonstration in a scratch directory; exit 1 if it returns a complaint or raises."""
    try:
        bad = f(SCRATCH)
    except BaseException:
        import traceback
        traceback.print_exc()
        bad = "raised"
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    print("FAIL: %s" % bad if bad else "ok")
    sys.stdout.flush()
    os._exit(1 if bad else 0)
