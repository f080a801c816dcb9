"""Small independent reference: forward model of a rotating disc in a slit, and the posterior.

Written from the documented definitions, with plain numpy arrays and none of the package's code
or caches. `spec` is any object with flux, flux_err, spec_mask, fitting_weight_matrix, wh_nosky,
wave, m0 (prepared data); `p` a dict of inputs (see world.py)."""
import numpy as np
from scipy.signal import fftconvolve

C_KMS = 299792.458
FWHM = 2. * np.sqrt(2. * np.log(2.))


def sin_i(q, q0):
    return 1. if q < q0 else np.sqrt((1. - q ** 2) / (1. - q0 ** 2))


def binsum(a, shape):
    """Sum blocks of `a` down to `shape` (the extents are whole multiples)."""
    for ax, n in enumerate(shape):
        f = a.shape[ax] // n
        s = a.shape[:ax] + (n, f) + a.shape[ax + 1:]
        a = a.reshape(s).sum(axis=ax + 1)
    return a


def psf_kernel(x, y, p):
    X, Y = np.meshgrid(x, y)
    def one(dy):
        r2 = X ** 2 + (Y + dy) ** 2
        if p["psf_type"] == "Moffat":
            beta = 2.5
            alpha = p["psf_fwhm"] / (2. * np.sqrt(2. ** (1. / beta) - 1.))
            return (beta - 1.) / (np.pi * alpha ** 2) * (1. + r2 / alpha ** 2) ** (-beta)
        s = p["psf_fwhm"] / FWHM
        return np.exp(-r2 / (2. * s ** 2))
    k = one(0.)
    if p.get("yspace") is not None and p["psf_type"] != "Moffat":
        k = k - 0.5 * (one(p["yspace"]) + one(-p["yspace"]))
    return k


def forward(p, theta, wave, ny, m0, lines, ratios, ifu=False):
    """Unscaled model spectrum, shape (ny, nwave); with ifu the cube (nwave, ny, nx)."""
    Va, rt, sig, m0s, z = [float(v) for v in theta]
    ns = p["nsub"]
    d = p["pixscale"] / ns
    slit = ny * p["pixscale"] if ifu else p["slit_width"]
    npy = ny * ns
    npx = npy if slit == npy * d else int(np.ceil(slit / d))
    dx = slit / npx
    py = int(np.round(p["psf_fwhm"] * p["pad"] / d))
    px = int(np.round(p["psf_fwhm"] * p["pad"] / dx))
    nX, nY, nZ = npx + 2 * px, npy + 2 * py, npy
    x = np.linspace(-(npx / 2. + px - .5) * dx, (npx / 2. + px - .5) * dx, nX)
    zz = np.linspace(-(npy / 2. - .5) * d, (npy / 2. - .5) * d, nZ)
    y = np.linspace(-(py - .5) * d, ((ny - 1) * ns + py - .5) * d, nY) - (m0 + m0s) * ns * d
    Z, Y, X = np.meshgrid(zz, y, x, indexing="ij")
    a = np.radians(p["delt_PA"])
    si = sin_i(p["q"], p["q0"])
    inc = np.arcsin(si)
    xp = X * np.cos(a) + Y * np.sin(a)
    yp = -X * np.sin(a) + Y * np.cos(a)
    xi = np.cos(inc) * xp + np.sin(inc) * Z
    zi = -np.sin(inc) * xp + np.cos(inc) * Z
    r = np.sqrt(xi ** 2 + yp ** 2)
    bn = 2. * p["n"] - 0.324
    z0 = p["q0"] * p["re"] / (1.676 if p["intprof"] == "expscale" else 1.)
    I = np.exp(-bn * ((r / p["re"]) ** (1. / p["n"]) - 1.)) * np.exp(-np.abs(zi) / z0)
    with np.errstate(all="ignore"):
        cphi = yp / r
    cphi[r == 0.] = 0.
    V = 2. / np.pi * Va * np.arctan(r / rt) * cphi * si
    lam0 = lines[0] * (1. + z)
    dw = np.average(np.diff(wave))
    up = p["adaptive"] and abs(sig) < dw / lam0 * C_KMS / 2.35
    fac = 3.
    if p["absval"]:
        sig = abs(sig)
    if p["floor"]:
        fl = dw / lam0 * C_KMS / 2.35
        if p["adaptive"]:
            fl = 0.75 * fl / fac
        if abs(sig) < fl:
            sig = fl
    w = wave
    if up:
        d2 = dw / fac
        w0, w1 = wave.min() - .5 * (dw - d2), wave.max() + .5 * (dw - d2)
        w = np.linspace(w0, w1, int(np.round((w1 - w0) / d2 + 1)))
    cube = np.zeros((len(w), nY, nX))
    for l, f in zip(lines, ratios):
        l0 = l * (1. + z)
        sl = sig / C_KMS * l0
        for k, wk in enumerate(w):
            g = 1. / (sl * np.sqrt(2. * np.pi)) * np.exp(-(l0 * (1. + V / C_KMS) - wk) ** 2 / (2. * sl ** 2))
            cube[k] += f * (I * g).sum(axis=0) * d
    if p["psf_fwhm"] > 0.:
        xc, yc = np.average(x), np.average(y)
        kx, ky = x[np.abs(x - xc) <= p["psf_fwhm"]], y[np.abs(y - yc) <= p["psf_fwhm"]]
        conv = fftconvolve(cube, psf_kernel(kx, ky, p)[None], mode="same")
        conv *= cube.sum() / conv.sum()
        cube = conv
    cube = cube[:, py:npy + py, px:npx + px]
    if ifu:
        return binsum(cube, (len(wave), ny, ny))
    out = binsum(cube.sum(axis=2) * dx, (len(w), ny))
    sw = p["inst_res"] / C_KMS * lam0
    if sw > 0.:
        xx = w[:-1] if len(w) % 2 == 0 else w
        g = np.exp(-(xx - np.average(xx)) ** 2 / (2. * sw ** 2))
        tot = out.sum()
        out = fftconvolve(out, g[:, None], mode="same")
        out *= tot / out.sum()
    if up:
        out = binsum(out, (len(wave), ny))
    return out.T


def scaled(model, spec):
    """Scale every row to the data over the wavelengths free of sky lines."""
    w = np.asarray(spec.wh_nosky)
    f, e, m = spec.flux[:, w], spec.flux_err[:, w], model[:, w]
    num = (f * m / e ** 2).sum(axis=1)
    den = (m ** 2 / e ** 2).sum(axis=1)
    ok = np.isfinite(num) & (np.abs(den) > 0.)
    with np.errstate(all="ignore"):
        ratio = np.where(ok, num / np.where(ok, den, 1.), 0.)
    return model * ratio[:, None]


def loglike(model, spec):
    t = spec.spec_mask * (spec.fitting_weight_matrix * ((spec.flux - model) / spec.flux_err) ** 2
                          + np.log10(2. * np.pi * spec.flux_err ** 2))
    return -0.5 * t.sum()


def logprob(p, theta, bounds, vary, spec):
    for t, b, v in zip(theta, bounds, vary):
        if v and not (b[0] <= t <= b[1]):
            return -np.inf
    with np.errstate(all="ignore"):
        m = forward(p, theta, np.asarray(spec.wave), spec.flux.shape[0], spec.m0,
                    np.asarray(spec.restwave_arr), np.asarray(spec.flux_ratio_arr))
        v = loglike(scaled(m, spec), spec)
    return v if np.isfinite(v) else -np.inf
