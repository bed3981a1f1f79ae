"""C21: conversions between representations form commuting diagrams (specs/Diagram.tla replayed into the conversion routines)."""
import warnings
import numpy as np
from common import *

warnings.filterwarnings("ignore")
GROUPS = {}
ARC = np.pi / 180 / 3600


def group(name, scalar=False):
    def deco(cls):
        cls.scalar = scalar
        GROUPS[name] = cls
        return cls
    return deco


def edge(a, b, tol=None):
    def deco(f):
        f.edge = (a, b, tol)
        return f
    return deco


def catalogue(g):
    cls = GROUPS[g]
    return {n: getattr(cls, n).edge for n in dir(cls) if hasattr(getattr(cls, n), "edge")}


class Group:
    """one object: attributes sampled in __init__(r, n) (n None: numbers, else arrays of length n); S: instances shared by all objects of a history"""
    common = ()         # representations whose entries are parts of one tensor
    nodes = {}          # name -> (features, reference function, tolerance)

    def ref(self, n):
        v = self.nodes[n][1](self)
        return v if isinstance(v, tuple) else (v,)


def u(r, a, b, n):
    return float(r.uniform(a, b)) if n is None else r.uniform(a, b, n)


def lu(r, a, b, n):
    return 10 ** u(r, np.log10(a), np.log10(b), n)


def each(f, *a):
    return f(*a) if np.ndim(a[0]) == 0 else np.array([f(*k) for k in zip(*a)])


# ------------------------------------------------------------------ geometry

@group("ellipse")
class Ellipse(Group):
    nodes = {"phiq": ("pq", lambda s: (s.phi, s.q), 1e-9),
             "e12": ("pq", lambda s: ((1 - s.q) / (1 + s.q) * np.cos(2 * s.phi), (1 - s.q) / (1 + s.q) * np.sin(2 * s.phi)), 1e-9),
             "circ": ("p", lambda s: s.R * np.ones_like(s.q), 1e-9),
             "circ2": ("p", lambda s: s.R * np.sqrt(2 * s.q / (1 + s.q ** 2)) * np.ones_like(s.q), 1e-9)}

    def __init__(s, r, n, S):
        s.q, s.phi, s.R, s.t = u(r, .15, .97, n), u(r, -1.5, 1.5, n), float(r.uniform(.3, 3)), u(r, 0, 6.2, n)
        s.c = r.uniform(-1, 1, 2)
        a, b = s.R / np.sqrt(s.q), s.R * np.sqrt(s.q)          # a point on the ellipse of mean radius R
        X, Y = a * np.cos(s.t), b * np.sin(s.t)
        s.x, s.y = s.c[0] + X * np.cos(s.phi) - Y * np.sin(s.phi), s.c[1] + X * np.sin(s.phi) + Y * np.cos(s.phi)

    @edge("phiq", "e12")
    def phi_q2_ellipticity(s, v):
        from lenstronomy.Util.param_util import phi_q2_ellipticity
        return phi_q2_ellipticity(*v)

    @edge("e12", "phiq")
    def ellipticity2phi_q(s, v):
        from lenstronomy.Util.param_util import ellipticity2phi_q
        return ellipticity2phi_q(*v)

    @edge("e12", "circ")
    def transform_product_average(s, v):
        from lenstronomy.Util.param_util import transform_e1e2_product_average
        return each(lambda x, y, a, b: np.hypot(*transform_e1e2_product_average(x, y, a, b, *s.c)), s.x, s.y, v[0], v[1])

    @edge("e12", "circ2")
    def transform_square_average(s, v):
        from lenstronomy.Util.param_util import transform_e1e2_square_average
        return each(lambda x, y, a, b: np.hypot(*transform_e1e2_square_average(x, y, a, b, *s.c)), s.x, s.y, v[0], v[1])

    @edge("e12", "circ")
    def light_radius(s, v):
        """a round-profile evaluated on the ellipse has the value of the circle"""
        from lenstronomy.LightModel.light_model import LightModel
        l = LightModel(["SERSIC_ELLIPSE"])
        x, y, a, b = [np.atleast_1d(k) for k in (s.x, s.y, v[0], v[1])]
        f = np.array([float(np.ravel(l.surface_brightness(X, Y, [dict(amp=1., R_sersic=1., n_sersic=1., e1=A, e2=B, center_x=s.c[0], center_y=s.c[1])]))[0])
                      for X, Y, A, B in zip(x, y, a, b)])
        g = lambda R: float(np.ravel(LightModel(["SERSIC"]).surface_brightness(R, 0., [dict(amp=1., R_sersic=1., n_sersic=1.)]))[0])
        k = np.log(g(1.)) - np.log(g(2.))           # exponential: log f is linear in R
        R = 1 - (np.log(f) - np.log(g(1.))) / k
        return float(R[0]) if np.ndim(s.x) == 0 else R


@group("shear")
class Shear(Group):
    nodes = {"polar": ("g", lambda s: (s.phi, s.g), 1e-9), "cart": ("g", lambda s: (s.g * np.cos(2 * s.phi), s.g * np.sin(2 * s.phi)), 1e-9)}

    def __init__(s, r, n, S):
        s.phi, s.g = u(r, -1.5, 1.5, n), lu(r, .005, .6, n)

    @edge("polar", "cart")
    def shear_polar2cartesian(s, v):
        from lenstronomy.Util.param_util import shear_polar2cartesian
        return shear_polar2cartesian(*v)

    @edge("cart", "polar")
    def shear_cartesian2polar(s, v):
        from lenstronomy.Util.param_util import shear_cartesian2polar
        return shear_cartesian2polar(*v)

    def lens(s, model, kw):
        from lenstronomy.LensModel.lens_model import LensModel
        return LensModel([model]).gamma(.3, -.2, [kw])

    @edge("cart", "cart")
    def shear_model(s, v):
        return np.array([s.lens("SHEAR", dict(gamma1=a, gamma2=b)) for a, b in zip(*map(np.atleast_1d, v))], float).T.reshape((2,) + np.shape(v[0]))

    @edge("polar", "cart")
    def shear_gamma_psi_model(s, v):
        return np.array([s.lens("SHEAR_GAMMA_PSI", dict(gamma_ext=b, psi_ext=a)) for a, b in zip(*map(np.atleast_1d, v))], float).T.reshape((2,) + np.shape(v[0]))


@group("polar")
class Polar(Group):
    nodes = {"cart": ("x", lambda s: (s.r * np.cos(s.t), s.r * np.sin(s.t)), 1e-8), "polar": ("x", lambda s: (s.r, s.t), 1e-8),
             "ell": ("x", lambda s: (s.r * np.hypot(s.q * np.cos(s.t), np.sin(s.t)), np.arctan2(np.sin(s.t), s.q * np.cos(s.t))), 1e-8),
             "moved": ("x", lambda s: (s.c[0] + s.r * np.cos(s.t), s.c[1] + s.r * np.sin(s.t)), 1e-8),
             "turned": ("x", lambda s: (s.r * np.cos(s.t + s.a), s.r * np.sin(s.t + s.a)), 1e-8)}

    def __init__(s, r, n, S):
        s.r, s.t, s.q, s.c, s.a = u(r, .1, 4, n), u(r, .02, 3.1, n), u(r, .2, .95, n), r.uniform(-2, 2, 2), float(r.uniform(-3, 3))

    @edge("cart", "polar")
    def cart2polar(s, v):
        from lenstronomy.Util.param_util import cart2polar
        return cart2polar(*v)

    @edge("moved", "polar")
    def cart2polar_centre(s, v):
        from lenstronomy.Util.param_util import cart2polar
        return cart2polar(v[0], v[1], center_x=s.c[0], center_y=s.c[1])

    @edge("polar", "cart")
    def polar2cart(s, v):
        from lenstronomy.Util.param_util import polar2cart
        return polar2cart(v[0], v[1], np.zeros(2))

    @edge("moved", "cart")
    def displace(s, v):
        from lenstronomy.Util.util import displaceAbs
        x, y = np.atleast_1d(v[0]), np.atleast_1d(v[1])
        d = displaceAbs(x, y, s.c[0], s.c[1])
        return [k.reshape(np.shape(v[0])) for k in np.array([d * np.cos(np.arctan2(y - s.c[1], x - s.c[0])), d * np.sin(np.arctan2(y - s.c[1], x - s.c[0]))])]

    @edge("cart", "polar")
    def cart_to_pol(s, v):
        from lenstronomy.LensModel.Util.epl_util import cart_to_pol
        return cart_to_pol(*v)

    @edge("polar", "cart")
    def pol_to_cart(s, v):
        from lenstronomy.LensModel.Util.epl_util import pol_to_cart
        return pol_to_cart(*v)

    @edge("polar", "ell")
    def pol_to_ell(s, v):
        from lenstronomy.LensModel.Util.epl_util import pol_to_ell
        return pol_to_ell(v[0], v[1], s.q)

    @edge("ell", "polar")
    def ell_to_pol(s, v):
        from lenstronomy.LensModel.Util.epl_util import ell_to_pol
        return ell_to_pol(v[0], v[1], s.q)

    @edge("turned", "cart")
    def rotate(s, v):
        from lenstronomy.Util.util import rotate
        return rotate(v[0], v[1], s.a)

    @edge("cart", "turned")
    def rotate_back(s, v):
        from lenstronomy.Util.util import rotate
        return rotate(v[0], v[1], -s.a)


@group("reshape", scalar=True)
class Reshape(Group):
    nodes = {"image": ("a", lambda s: s.im, 0), "array": ("a", lambda s: s.im.ravel(), 0), "cube": ("a", lambda s: s.cube, 0), "flat": ("a", lambda s: s.cube.ravel(), 0),
             "index": ("i", lambda s: float(s.i), 0), "poly": ("i", lambda s: s.poly, 0), "fwhm": ("w", lambda s: s.w * np.sqrt(8 * np.log(2)), 1e-9),
             "sigma": ("w", lambda s: s.w, 1e-9)}

    def __init__(s, r, n, S):
        k, m = r.randint(2, 7, 2)
        s.ny, s.nx = (k, m) if r.rand() < .5 else (k, k)
        s.im = r.randn(s.ny, s.nx)
        s.cube = r.randn(r.randint(1, 4), k, k)
        s.i, s.w = int(r.randint(0, 60)), float(r.uniform(.05, 4))
        nn = 0
        while (nn + 1) * (nn + 2) // 2 <= s.i:
            nn += 1
        L = []                                       # order n: m = n mod 2, .., n; real then imaginary part
        for m in range(nn % 2, nn + 1, 2):
            L += [(nn, m, 1)] if m == 0 else [(nn, m, 0), (nn, m, 1)]
        s.poly_raw = L[s.i - nn * (nn + 1) // 2]
        from lenstronomy.LightModel.Profiles.shapelets_polar import ShapeletsPolar
        s.sp = ShapeletsPolar()
        s.poly = tuple(float(a) for a in s.sp.index2poly(s.i))       # the convention of the code; its structure is checked by the edges
        require(s.poly[0] == nn and s.poly[1] <= nn and (nn - s.poly[1]) % 2 == 0 and s.poly[1] >= 0, "polar shapelet of an index has its order", index=s.i, poly=s.poly)

    @edge("image", "array")
    def image2array(s, v):
        from lenstronomy.Util.util import image2array
        return image2array(v[0])

    @edge("array", "image")
    def array2image(s, v):
        from lenstronomy.Util.util import array2image
        return array2image(v[0], nx=s.nx, ny=s.ny) if s.nx != s.ny else array2image(v[0])

    @edge("cube", "flat")
    def cube2array(s, v):
        from lenstronomy.Util.util import cube2array
        return cube2array(v[0])

    @edge("flat", "cube")
    def array2cube(s, v):
        from lenstronomy.Util.util import array2cube
        return array2cube(v[0], s.cube.shape[0], s.cube.shape[1] ** 2)

    @edge("index", "poly")
    def index2poly(s, v):
        return tuple(float(a) for a in s.sp.index2poly(int(v[0])))

    @edge("poly", "index")
    def poly2index(s, v):
        return float(s.sp.poly2index(int(v[0]), int(v[1]), bool(v[2])))

    @edge("fwhm", "sigma")
    def fwhm2sigma(s, v):
        from lenstronomy.Util.util import fwhm2sigma
        return fwhm2sigma(*v)

    @edge("sigma", "fwhm")
    def sigma2fwhm(s, v):
        from lenstronomy.Util.util import sigma2fwhm
        return sigma2fwhm(*v)


# ------------------------------------------------------------------ photometry

@group("photometry")
class Photometry(Group):
    nodes = {"absmag": ("m", lambda s: s.M, 1e-9), "mag": ("m", lambda s: s.M + 5 * np.log10(s.d / 10), 1e-9),
             "eps": ("m", lambda s: 10 ** (-(s.M + 5 * np.log10(s.d / 10) - s.zp) / 2.5), 1e-8),
             "adu": ("m", lambda s: 10 ** (-(s.M + 5 * np.log10(s.d / 10) - s.zp) / 2.5) / s.gain, 1e-8),
             "noise_e": ("m", lambda s: np.sqrt(10 ** (-(s.M + 5 * np.log10(s.d / 10) - s.zp) / 2.5) / (s.t * s.n)), 1e-8),
             "noise_adu": ("m", lambda s: np.sqrt(10 ** (-(s.M + 5 * np.log10(s.d / 10) - s.zp) / 2.5) / (s.t * s.n)) / s.gain, 1e-8),
             "counts": ("m", lambda s: 10 ** (-(s.M + 5 * np.log10(s.d / 10) - s.zp) / 2.5) * s.t * s.n, 1e-8),
             "bkg_e": ("", lambda s: np.sqrt(s.n * s.ron ** 2 + 10 ** (-(s.sky - s.zp) / 2.5) * s.px ** 2 * s.t * s.n) / (s.t * s.n), 1e-8),
             "bkg_adu": ("", lambda s: np.sqrt(s.n * s.ron ** 2 + 10 ** (-(s.sky - s.zp) / 2.5) * s.px ** 2 * s.t * s.n) / (s.t * s.n) / s.gain, 1e-8)}

    def __init__(s, r, n, S):
        s.M, s.d, s.zp, s.gain = u(r, -24, -15, n), float(10 ** r.uniform(1.5, 9)), float(r.uniform(20, 30)), float(r.uniform(.5, 8))
        s.t, s.n, s.ron, s.sky, s.px = float(r.uniform(50, 3000)), int(r.randint(1, 9)), float(r.uniform(1, 12)), float(r.uniform(17, 24)), float(r.uniform(.03, .4))

    def band(s, unit):
        from lenstronomy.SimulationAPI.observation_api import SingleBand
        return SingleBand(pixel_scale=s.px, exposure_time=s.t, magnitude_zero_point=s.zp, read_noise=s.ron, ccd_gain=s.gain, sky_brightness=s.sky, seeing=1., num_exposures=s.n, data_count_unit=unit)

    @edge("absmag", "mag")
    def absolute2apparent_magnitude(s, v):
        from lenstronomy.Util.data_util import absolute2apparent_magnitude
        return absolute2apparent_magnitude(v[0], s.d)

    @edge("mag", "eps")
    def magnitude2cps(s, v):
        from lenstronomy.Util.data_util import magnitude2cps
        return magnitude2cps(v[0], s.zp)

    @edge("eps", "mag")
    def cps2magnitude(s, v):
        from lenstronomy.Util.data_util import cps2magnitude
        return cps2magnitude(v[0], s.zp)

    @edge("eps", "adu")
    def electrons2adu(s, v):
        from lenstronomy.Util.data_util import electrons2adu
        return electrons2adu(v[0], s.gain)

    @edge("adu", "eps")
    def adu2electrons(s, v):
        from lenstronomy.Util.data_util import adu2electrons
        return adu2electrons(v[0], s.gain)

    @edge("mag", "eps")
    def band_e(s, v):
        return s.band("e-").magnitude2cps(v[0])

    @edge("mag", "adu")
    def band_adu(s, v):
        return s.band("ADU").magnitude2cps(v[0])

    @edge("eps", "noise_e")
    def flux_noise_e(s, v):
        return s.band("e-").flux_noise(v[0])

    @edge("adu", "noise_adu")
    def flux_noise_adu(s, v):
        return s.band("ADU").flux_noise(v[0])

    @edge("eps", "counts")
    def iid_e(s, v):
        return s.band("e-").flux_iid(v[0])

    @edge("adu", "counts")
    def iid_adu(s, v):
        return s.band("ADU").flux_iid(v[0])

    @edge("eps", "bkg_e")
    def background_e(s, v):
        b = s.band("e-")
        require(close(b.sky_brightness, 10 ** (-(s.sky - s.zp) / 2.5), 1e-8), "sky brightness in data units")
        return np.sqrt(b.estimate_noise(np.atleast_1d(v[0])) ** 2 - b.flux_noise(np.atleast_1d(v[0])) ** 2)[0] if np.all(np.atleast_1d(v[0]) < 1e3) else b.background_noise

    @edge("adu", "bkg_adu")
    def background_adu(s, v):
        b = s.band("ADU")
        require(close(b.sky_brightness, 10 ** (-(s.sky - s.zp) / 2.5) / s.gain, 1e-8), "sky brightness in data units")
        return b.background_noise

    @edge("eps", "bkg_e")
    def bkg_noise(s, v):
        from lenstronomy.Util.data_util import bkg_noise
        return bkg_noise(s.ron, s.t, 10 ** (-(s.sky - s.zp) / 2.5), s.px, s.n)


@group("simulation", scalar=True)
class Simulation(Group):
    """magnitudes of a simulated scene, its amplitudes and the flux in its image"""
    nodes = {"mags": ("m", lambda s: tuple(s.mag), 1e-7), "flux": ("m", lambda s: tuple(10 ** (-(m - s.zp) / 2.5) / s.g for m in s.mag), 1e-7),
             "pixels": ("m", lambda s: tuple(10 ** (-(m - s.zp) / 2.5) / s.g for m in s.mag), 3e-3)}

    def __init__(s, r, n, S):
        s.zp, s.gain, s.unit, s.mag = float(r.uniform(22, 28)), float(r.uniform(1.5, 6)), ["e-", "ADU"][r.randint(2)], r.uniform(17, 23, 3)
        s.g = s.gain if s.unit == "ADU" else 1.
        s.px = float(r.uniform(.08, .14))
        e = r.uniform(-.15, .15, 2)
        c = r.uniform(-.3, .3, 2)
        s.light = [("SERSIC", dict(R_sersic=.4, n_sersic=1., center_x=c[0], center_y=c[1])), ("SERSIC_ELLIPSE", dict(R_sersic=.45, n_sersic=1.2, e1=e[0], e2=e[1], center_x=c[0], center_y=c[1])),
                   ("GAUSSIAN", dict(sigma=.35, center_x=c[0], center_y=c[1])), ("GAUSSIAN_ELLIPSE", dict(sigma=.4, e1=e[0], e2=e[1], center_x=c[0], center_y=c[1]))][r.randint(4)]
        s.other = [("GAUSSIAN", dict(sigma=.5, center_x=0., center_y=.1)), ("SERSIC", dict(R_sersic=.35, n_sersic=.9, center_x=.1, center_y=0.))][r.randint(2)]
        s.pos = r.uniform(-.7, .7, 2)

    def api(s, S):
        from lenstronomy.SimulationAPI.sim_api import SimAPI
        kb = dict(pixel_scale=s.px, exposure_time=100., magnitude_zero_point=s.zp, read_noise=3., ccd_gain=s.gain, sky_brightness=21., seeing=.3, num_exposures=1, data_count_unit=s.unit, psf_type="GAUSSIAN")
        return SimAPI(91, kb, dict(lens_light_model_list=[s.light[0], s.other[0]], point_source_model_list=["UNLENSED"]))

    def conv(s, a, v):
        ll, _, ps = a.magnitude2amplitude([dict(s.light[1], magnitude=v[0]), dict(s.other[1], magnitude=v[1])], None, [dict(ra_image=[s.pos[0]], dec_image=[s.pos[1]], magnitude=[v[2]])])
        return ll, ps

    @edge("mags", "flux")
    def amplitudes(s, v):
        a = s.api(s.S)
        ll, ps = s.conv(a, v)
        f = a.lens_light_model_class.total_flux(ll)
        return float(f[0]), float(f[1]), float(ps[0]["point_amp"][0])

    @edge("mags", "flux")
    def mag_amp_conversion(s, v):
        from lenstronomy.SimulationAPI.mag_amp_conversion import MagAmpConversion
        a = MagAmpConversion(dict(lens_light_model_list=[s.light[0], s.other[0]], source_light_model_list=[s.other[0]], point_source_model_list=["UNLENSED"]), s.zp)
        ll, so, ps = a.magnitude2amplitude([dict(s.light[1], magnitude=v[0]), dict(s.other[1], magnitude=v[1])], [dict(s.other[1], magnitude=v[1])], [dict(ra_image=[s.pos[0]], dec_image=[s.pos[1]], magnitude=[v[2]])])
        f = a.lens_light_model_class.total_flux(ll)
        require(close(float(a.source_model_class.total_flux(so)[0]), float(f[1]), 1e-8), "source and lens light of equal magnitude have equal flux")
        return float(f[0]) / s.g, float(f[1]) / s.g, float(ps[0]["point_amp"][0]) / s.g

    @edge("flux", "mags")
    def band_magnitudes(s, v):
        from lenstronomy.Util.data_util import cps2magnitude
        return tuple(float(cps2magnitude(k * s.g, s.zp)) for k in v)

    @edge("mags", "pixels")
    def image(s, v):
        a = s.api(s.S)
        ll, ps = s.conv(a, v)
        im = a.image_model_class(dict(supersampling_factor=3, supersampling_convolution=False))
        out = [float(np.sum(im.image(None, None, [ll[0], dict(ll[1], amp=0.)], ps, source_add=False, point_source_add=False))),
               float(np.sum(im.image(None, None, [dict(ll[0], amp=0.), ll[1]], ps, source_add=False, point_source_add=False))),
               float(np.sum(im.image(None, None, ll, ps, source_add=False, lens_light_add=False)))]
        return tuple(out)


# ------------------------------------------------------------------ cosmology

def cosmology(r):
    from astropy.cosmology import FlatLambdaCDM, LambdaCDM, FlatwCDM
    k = r.randint(3)
    h, om = r.uniform(55, 85), r.uniform(.2, .45)
    if k == 0:
        return FlatLambdaCDM(H0=h, Om0=om, name="a")
    if k == 1:
        return LambdaCDM(H0=h, Om0=om, Ode0=r.uniform(.4, .9), name="b")
    return FlatwCDM(H0=h, Om0=om, w0=r.uniform(-1.3, -.7), name="c")


class Cosmic(Group):
    """a lens and a source in a cosmology; one LensCosmo per object, kept for the whole history"""

    def setup(s, r):
        s.cosmo = cosmology(r)
        s.zl = float(r.uniform(.15, .9))
        s.zs = float(s.zl + r.uniform(.3, 2))
        s.lc_ = None

    @property
    def lc(s):
        from lenstronomy.Cosmo.lens_cosmo import LensCosmo
        if s.lc_ is None:
            s.lc_ = LensCosmo(s.zl, s.zs, cosmo=s.cosmo)
        return s.lc_

    def D(s, a=0., b=None):
        return float(s.cosmo.angular_diameter_distance_z1z2(a, s.zs if b is None else b).value)

    @property
    def dd(s):
        return s.D(0, s.zl)

    @property
    def ds(s):
        return s.D(0, s.zs)

    @property
    def dds(s):
        return s.D(s.zl, s.zs)

    @property
    def sc(s):
        from astropy import constants as k, units as un
        return float((k.c ** 2 / 4 / np.pi / k.G * s.ds / s.dd / s.dds / un.Mpc).to(un.Msun / un.Mpc ** 2).value)

    @property
    def ddt(s):
        return (1 + s.zl) * s.dd * s.ds / s.dds


G = 5e-4        # tolerance where the gravitational constant and the solar mass enter


@group("lengths")
class Lengths(Cosmic):
    nodes = {"arcsec": ("x", lambda s: s.th, 1e-7), "mpc": ("x", lambda s: s.th * ARC * s.dd, 1e-7), "mpc_s": ("x", lambda s: s.th * ARC * s.ds, 1e-7),
             "mass_E": ("x", lambda s: np.pi * (s.th * ARC * s.dd) ** 2 * s.sc, G), "kappa": ("k", lambda s: s.k, 1e-9), "sigma": ("k", lambda s: s.k * s.sc, G),
             "sigma_as": ("k", lambda s: s.k * s.sc * (ARC * s.dd) ** 2, G), "sigma_v": ("x", lambda s: np.sqrt(s.th * ARC / 4 / np.pi * s.ds / s.dds) * 299792.458, 1e-6),
             "dist": ("", lambda s: (s.dd, s.ds, s.dds, s.ddt, s.dd * (1 + s.zl), s.D(s.zl, s.zs) * (1 + s.zs)), 1e-7),
             "dpie": ("x", lambda s: s.th / 2 * (s.Rs - s.Ra) / (s.Rs * s.Ra), 1e-6)}

    def __init__(s, r, n, S):
        s.setup(r)
        s.th, s.k = lu(r, .1, 30, n), lu(r, .01, 3, n)
        s.Ra = float(r.uniform(.05, .5))
        s.Rs = s.Ra * float(r.uniform(2, 50))

    @edge("arcsec", "mpc")
    def arcsec2phys_lens(s, v):
        return s.lc.arcsec2phys_lens(v[0])

    @edge("mpc", "arcsec")
    def phys2arcsec_lens(s, v):
        return s.lc.phys2arcsec_lens(v[0])

    @edge("arcsec", "mpc_s")
    def arcsec2phys_source(s, v):
        return s.lc.arcsec2phys_source(v[0])

    @edge("arcsec", "mass_E")
    def mass_in_theta_E(s, v):
        return s.lc.mass_in_theta_E(v[0])

    @edge("kappa", "sigma")
    def kappa2proj_mass(s, v):
        return s.lc.kappa2proj_mass(v[0])

    @edge("kappa", "sigma_as")
    def kappa2angle_mass(s, v):
        return v[0] * s.lc.sigma_crit_angle

    @edge("sigma_as", "sigma")
    def angle2proj(s, v):
        return v[0] / s.lc.sigma_crit_angle * s.lc.sigma_crit

    @edge("arcsec", "sigma_v")
    def sis_theta_E2sigma_v(s, v):
        return s.lc.sis_theta_E2sigma_v(v[0])

    @edge("sigma_v", "arcsec")
    def sis_sigma_v2theta_E(s, v):
        return s.lc.sis_sigma_v2theta_E(v[0])

    @edge("sigma_v", "dpie")
    def vel_disp_dPIED_sigma0(s, v):
        return s.lc.vel_disp_dPIED_sigma0(v[0], s.Ra, s.Rs)

    @edge("sigma_v", "arcsec")
    def physical2lensing(s, v):
        from lenstronomy.SimulationAPI.model_api import ModelAPI
        m = ModelAPI(lens_model_list=["SIS"], z_lens=s.zl, z_source=s.zs, cosmo=s.cosmo)
        return m.physical2lensing_conversion([dict(sigma_v=v[0], center_x=0, center_y=0)])[0]["theta_E"]

    @edge("kappa", "dist")
    def distances(s, v):
        b = s.lc.background
        return s.lc.dd, s.lc.ds, s.lc.dds, s.lc.ddt, b.T_xy(0, s.zl), b.T_xy(s.zl, s.zs)

    @edge("kappa", "dist")
    def background(s, v):
        from lenstronomy.Cosmo.background import Background
        b = Background(s.cosmo)
        return b.d_xy(0, s.zl), b.d_xy(0, s.zs), b.d_xy(s.zl, s.zs), b.ddt(s.zl, s.zs), b.T_xy(0, s.zl), b.T_xy(s.zl, s.zs)

    @edge("kappa", "dist", 2e-3)
    def interpolated(s, v):
        from lenstronomy.Cosmo.background import Background
        if s.lc_ is None or not hasattr(s, "bi"):
            s.bi = Background(s.cosmo, interp=True, z_stop=4., num_interp=200)
        b = s.bi
        return tuple(float(k) for k in (b.d_xy(0, s.zl), b.d_xy(0, s.zs), b.d_xy(s.zl, s.zs), b.ddt(s.zl, s.zs), b.T_xy(0, s.zl), b.T_xy(s.zl, s.zs)))

    @edge("kappa", "dist", 2e-3)
    def tabulated(s, v):
        """distances tabulated by the user"""
        from lenstronomy.Cosmo.cosmo_interp import CosmoInterp
        from lenstronomy.Cosmo.background import Background
        if not hasattr(s, "ci"):
            z = np.linspace(0, 4, 300)
            k = -s.cosmo.Ok0 / s.cosmo.hubble_distance.value ** 2
            s.ci = CosmoInterp(ang_dist_list=np.append(0, s.cosmo.angular_diameter_distance(z[1:]).value), z_list=z, Ok0=s.cosmo.Ok0, K=k)
        b = Background(s.ci)
        return tuple(float(k) for k in (b.d_xy(0, s.zl), b.d_xy(0, s.zs), b.d_xy(s.zl, s.zs), b.ddt(s.zl, s.zs), b.T_xy(0, s.zl), b.T_xy(s.zl, s.zs)))


@group("delays")
class Delays(Cosmic):
    nodes = {"fermat": ("f", lambda s: s.f, 1e-7), "days": ("f", lambda s: s.days, 1e-6), "days_k": ("f", lambda s: s.days * (1 - s.k), 1e-6),
             "ddt": ("d", lambda s: s.ddt, 1e-6), "h0": ("d", lambda s: s.cosmo.H0.value, 1e-6), "beta": ("", lambda s: (s.beta, s.ratio), 1e-7),
             "theta_E": ("t", lambda s: s.tE, 1e-7), "theta_E2": ("t", lambda s: s.tE2, 1e-7)}

    def __init__(s, r, n, S):
        s.setup(r)
        s.f, s.k = u(r, .05, 3, n), float(r.uniform(-.2, .2))
        s.z2 = s.zs + float(r.uniform(.1, 1.))
        Mpc = 3.0856775814913673e22
        s.days = s.ddt * Mpc / 299792458. * s.f * ARC ** 2 / 86400
        s.beta = s.dds / s.ds / (s.D(s.zl, s.z2) / s.D(0, s.z2))
        s.ratio = (s.D(0, s.z2) / s.D(s.zl, s.z2)) / (s.ds / s.dds)
        s.g, s.tE, s.ke = float(r.uniform(1.6, 2.4)), lu(r, .5, 3, n), float(r.uniform(-.1, .1))
        # convention: source 2; mean convergence inside theta_E (deflector and sheet) is one
        s.tE2 = (s.tE ** (s.g - 1) * s.beta / (1 - s.ke * s.beta)) ** (1 / (s.g - 1))

    @edge("fermat", "days")
    def time_delay_units(s, v):
        return s.lc.time_delay_units(v[0])

    @edge("fermat", "days_k")
    def time_delay_units_kappa(s, v):
        return s.lc.time_delay_units(v[0], kappa_ext=s.k)

    @edge("days", "fermat")
    def time_delay2fermat_pot(s, v):
        return s.lc.time_delay2fermat_pot(v[0])

    @edge("fermat", "days")
    def delay_arcsec2days(s, v):
        from lenstronomy.Util.constants import delay_arcsec2days
        return delay_arcsec2days(v[0], s.ddt)

    @edge("ddt", "h0")
    def ddt2h0(s, v):
        from lenstronomy.Cosmo.cosmo_solver import ddt2h0
        other = s.cosmo.clone(H0=s.cosmo.H0.value * 1.3)
        return ddt2h0(v[0], s.zl, s.zs, other)

    @edge("h0", "ddt", 1e-6)
    def lcdm(s, v):
        from lenstronomy.Cosmo.lcdm import LCDM
        from astropy.cosmology import FlatLambdaCDM, LambdaCDM
        if type(s.cosmo) in (FlatLambdaCDM, LambdaCDM):
            c, kw = s.cosmo, {}
            L = LCDM(s.zl, s.zs, flat=type(c) is FlatLambdaCDM)
            a = (v[0], c.Om0) + (() if type(c) is FlatLambdaCDM else (c.Ode0,))
            require(close((L.D_d(*a), L.D_s(*a), L.D_ds(*a)), (s.dd, s.ds, s.dds), 1e-6), "LCDM distances")
            return L.D_dt(*a)
        return s.lc.ddt

    @edge("fermat", "beta")
    def double_source_plane(s, v):
        b = s.lc.background
        return s.lc.beta_double_source_plane(s.zl, s.zs, s.z2), b.ddt_scaling(s.zl, s.zs, s.z2)

    @edge("theta_E", "theta_E2")
    def theta_E_power_law_scaling(s, v):
        return s.lc.theta_E_power_law_scaling(v[0], s.ke, s.g, s.zl, s.z2, s.zs)


@group("cosmography", scalar=True)
class Cosmography(Cosmic):
    """distances from delays and dispersions, cosmology from distances"""
    nodes = {"obs": ("dk", lambda s: (s.dt, s.sig), 1e-6), "dist": ("dk", lambda s: (s.ddt, s.dd), 2e-6), "ratio": ("k", lambda s: s.ds / s.dds, 1e-6),
             "flat": ("h", lambda s: (s.fh, s.fo), 1e-3), "flat_d": ("h", lambda s: s.fd, 1e-6)}

    def __init__(s, r, n, S):
        s.setup(r)
        s.ks, s.kds, s.kd = r.uniform(-.1, .1, 3)
        s.df, s.J = float(r.uniform(.1, 2)), float(r.uniform(.5, 2)) * 1e-6
        Mpc = 3.0856775814913673e22
        s.dt = s.ddt * (1 - s.ks) * (1 - s.kd) / (1 - s.kds) * Mpc / 299792458. * s.df * ARC ** 2 / 86400
        s.sig = np.sqrt(s.J * s.ds / s.dds * (1 - s.ks) / (1 - s.kds)) * 299792.458
        from astropy.cosmology import FlatLambdaCDM
        s.fh, s.fo = float(r.uniform(60, 80)), float(r.uniform(.2, .45))
        c = FlatLambdaCDM(H0=s.fh, Om0=s.fo, Ob0=0)
        d = c.angular_diameter_distance(s.zl).value
        s.fd = (d, c.angular_diameter_distance(s.zs).value / c.angular_diameter_distance_z1z2(s.zl, s.zs).value)

    @property
    def td(s):
        from lenstronomy.Analysis.td_cosmography import TDCosmography
        return TDCosmography(s.zl, s.zs, dict(lens_model_list=["SIS"], lens_light_model_list=["SERSIC"], point_source_model_list=["LENSED_POSITION"]), cosmo_fiducial=s.cosmo)

    @edge("obs", "dist")
    def ddt_dd(s, v):
        return s.td.ddt_dd_from_time_delay_and_kinematics(s.df, v[0], v[1], s.J, kappa_s=s.ks, kappa_ds=s.kds, kappa_d=s.kd)

    @edge("obs", "ratio")
    def ds_dds(s, v):
        return s.td.ds_dds_from_kinematics(v[1], s.J, kappa_s=s.ks, kappa_ds=s.kds)

    @edge("dist", "ratio")
    def ratio(s, v):
        return v[0] / v[1] / (1 + s.zl)

    @edge("flat", "flat_d")
    def cosmo2dist(s, v):
        from lenstronomy.Cosmo.cosmo_solver import cosmo2angular_diameter_distances
        return cosmo2angular_diameter_distances(v[0], v[1], s.zl, s.zs)

    @edge("flat_d", "flat", 2e-2)
    def solve(s, v):
        from lenstronomy.Cosmo.cosmo_solver import SolverFlatLCDM
        return tuple(SolverFlatLCDM(s.zl, s.zs).solve(np.array([s.fh * 1.02, s.fo * .95]), v[0], v[1]))


@group("halo", scalar=True)
class Halo(Cosmic):
    """NFW and gNFW haloes: mass and concentration, density and radius, lensing angles; one set of tables for all redshifts"""
    nodes = {"Mc": ("h", lambda s: (s.M, s.c), 3e-3), "phys": ("h", lambda s: s.phys(1.)[:3], 1.5e-3), "ang": ("h", lambda s: s.ang(1.), 1.5e-3),
             "full": ("h", lambda s: (s.phys(1.)[0], s.phys(1.)[1], s.c, s.phys(1.)[2], s.M), 3e-3),
             "gphys": ("h", lambda s: s.phys(s.g)[:3], 1.5e-3), "gang": ("h", lambda s: s.ang(s.g), 1e-2),
             "gfull": ("h", lambda s: (s.phys(s.g)[0], s.phys(s.g)[1], s.c, s.phys(s.g)[2], s.M), 2e-2),
             "r200": ("h", lambda s: s.phys(1.)[2], 1e-3), "r200_as": ("h", lambda s: s.phys(1.)[2] / s.dd / ARC, 1e-3), "rho_c": ("h", lambda s: (s.phys(1.)[0], s.c), 3e-3),
             "grho_c": ("h", lambda s: (s.phys(s.g)[0], s.c), 5e-3)}

    def __init__(s, r, n, S):
        s.setup(r)
        s.M, s.c, s.g = float(10 ** r.uniform(10.5, 14.8)), float(r.uniform(3, 22)), float(r.uniform(.6, 1.6))
        if "halo" not in S:
            from lenstronomy.Cosmo.nfw_param import NFWParam
            from lenstronomy.Cosmo.gnfw_param import GNFWParam
            S["halo"] = (s.cosmo, NFWParam(s.cosmo), GNFWParam(s.cosmo))
        s.cosmo, s.nfw, s.gnfw = S["halo"]           # same cosmology and tables for all objects of the history
        if S["same plane"]:    # several haloes of one lens: one LensCosmo for all of them
            if "plane" not in S:
                S["plane"] = {k: getattr(s, k) for k in list(vars(s)) if k not in ("S", "M", "c", "g")} | dict(lc_=s.lc)
            vars(s).update(S["plane"])

    def phys(s, g):
        from scipy.integrate import quad
        from astropy import units as un
        rc = s.cosmo.critical_density(s.zl).to(un.Msun / un.Mpc ** 3).value
        r200 = (3 * s.M / (4 * np.pi * 200 * rc)) ** (1 / 3.)
        Rs = r200 / s.c
        I = quad(lambda x: x ** (2 - g) * (1 + x) ** (g - 3), 0, s.c, epsabs=1e-12)[0]
        return s.M / (4 * np.pi * Rs ** 3 * I), Rs, r200

    def ang(s, g):
        from scipy.integrate import quad
        rho, Rs, _ = s.phys(g)
        if abs(g - 1) < 1e-9:
            m = 4 * np.pi * rho * Rs ** 3 * (1 + np.log(.5))
        else:       # mass in the cylinder of radius Rs: sphere minus the part outside the cylinder
            m = 4 * np.pi * rho * Rs ** 3 * (quad(lambda x: x ** (2 - g) * (1 + x) ** (g - 3), 0, 1)[0] + quad(lambda x: x ** (2 - g) * (1 + x) ** (g - 3) * (1 - np.sqrt(1 - 1 / x ** 2)), 1, np.inf)[0])
        return Rs / s.dd / ARC, m / np.pi / Rs / s.sc / s.dd / ARC

    @edge("Mc", "phys")
    def nfwParam_physical(s, v):
        return s.lc.nfwParam_physical(*v)

    @edge("Mc", "ang")
    def nfw_physical2angle(s, v):
        return s.lc.nfw_physical2angle(*v)

    @edge("ang", "full")
    def nfw_angle2physical(s, v):
        return s.lc.nfw_angle2physical(*v)

    @edge("full", "Mc")
    def pick(s, v):
        return v[4], v[2]

    @edge("Mc", "gphys")
    def gnfwParam_physical(s, v):
        return s.lc.gnfwParam_physical(v[0], v[1], s.g)

    @edge("Mc", "gang")
    def gnfw_physical2angle(s, v):
        return s.lc.gnfw_physical2angle(v[0], v[1], s.g)

    @edge("gang", "gfull")
    def gnfw_angle2physical(s, v):
        return s.lc.gnfw_angle2physical(v[0], v[1], s.g)

    @edge("Mc", "r200_as")
    def nfw_M_theta_r200(s, v):
        return s.lc.nfw_M_theta_r200(v[0])

    @edge("Mc", "r200_as")
    def gnfw_M_theta_r200(s, v):
        return s.lc.gnfw_M_theta_r200(v[0])

    @edge("Mc", "r200")
    def r200_M(s, v):
        h = s.lc.h
        return s.nfw.r200_M(v[0] * h, s.zl) / h

    @edge("r200", "r200_as")
    def r200_angle(s, v):
        return s.lc.phys2arcsec_lens(v[0])

    @edge("full", "r200")
    def r200_back(s, v):
        h = s.lc.h
        require(close(s.nfw.M_r200(v[3] * h, s.zl) / h, v[4], 5e-3), "mass of the virial radius")
        return v[3]

    @edge("Mc", "rho_c")
    def rho0_c(s, v):
        return s.nfw.rho0_c(v[1], s.zl) * s.lc.h ** 2, v[1]

    @edge("phys", "rho_c")
    def c_rho0(s, v):
        return v[0], float(s.nfw.c_rho0(v[0] / s.lc.h ** 2, s.zl))

    @edge("gphys", "grho_c")
    def gc_rho0(s, v):
        return v[0], float(s.gnfw.c_rho0(v[0] / s.lc.h ** 2, s.zl, s.g))

    @edge("phys", "Mc")
    def M200(s, v):
        c = v[2] / v[1]
        return s.nfw.M200(v[1], v[0], c), c

    @edge("gphys", "Mc")
    def gM200(s, v):
        c = v[2] / v[1]
        return s.gnfw.M200(v[1], v[0], c, s.g), c

    @edge("Mc", "ang")
    def nfw_mc_profile(s, v):
        """deflection of the lens model parameterised by mass and concentration"""
        from lenstronomy.LensModel.lens_model import LensModel
        l = LensModel(["NFW_MC"], lens_redshift_list=[s.zl], z_source=s.zs, cosmo=s.cosmo, profile_kwargs_list=[dict(cosmo=s.cosmo)])
        Rs = s.ang(1.)[0]
        return Rs, float(l.alpha(Rs * 1.0001, 0., [dict(logM=np.log10(v[0]), concentration=v[1], center_x=0, center_y=0)])[0])

    @edge("Mc", "ang")
    def physical2lensing(s, v):
        from lenstronomy.SimulationAPI.model_api import ModelAPI
        m = ModelAPI(lens_model_list=["NFW"], z_lens=s.zl, z_source=s.zs, cosmo=s.cosmo)
        k = m.physical2lensing_conversion([dict(M200=v[0], concentration=v[1], center_x=0, center_y=0)])[0]
        return k["Rs"], k["alpha_Rs"]

    @edge("gang", "gang")
    def gnfw_profile(s, v):
        from lenstronomy.LensModel.lens_model import LensModel
        return v[0], float(LensModel(["GNFW"]).alpha(v[0], 0., [dict(Rs=v[0], alpha_Rs=v[1], gamma_in=s.g, center_x=0, center_y=0)])[0])


@group("stars", scalar=True)
class Stars(Cosmic):
    nodes = {"hern_m": ("h", lambda s: (s.M, s.rs), G), "hern_a": ("h", lambda s: (s.M / 2 / np.pi / s.rs ** 2 / s.sc, s.rs / s.dd / ARC), G), "hern_al": ("h", lambda s: s.al, 2 * G),
             "ser_m": ("s", lambda s: s.M, G), "ser_k": ("s", lambda s: s.M / s.sc / (ARC * s.dd) ** 2 / s.norm, G), "ser_tot": ("s", lambda s: s.M, 5e-3),
             "uldm": ("u", lambda s: (s.m22, s.ms), 5e-5), "uldm_a": ("u", lambda s: s.ul, 2 * G)}

    def __init__(s, r, n, S):
        s.setup(r)
        from scipy.integrate import quad
        from scipy.special import gamma
        s.M, s.rs = float(10 ** r.uniform(9, 12)), float(10 ** r.uniform(-3.3, -2))
        # projected mass of a Hernquist sphere inside its scale radius: M/3
        s.al = s.M / 3 / np.pi / (s.rs / s.dd / ARC) / s.sc / (ARC * s.dd) ** 2
        s.n, s.R = float(r.uniform(.8, 5)), float(r.uniform(.3, 3))
        b = 1.9992 * s.n - .3271
        s.norm = 2 * np.pi * s.n * s.R ** 2 * np.exp(b) * b ** (-2 * s.n) * gamma(2 * s.n)
        s.m22, s.ms = float(r.uniform(-22.8, -21.2)), float(r.uniform(7.5, 9.5))
        m, M9 = 10 ** (s.m22 + 22), 10 ** (s.ms - 9)
        rc = 160 * 1.4 / m ** 2 / M9                       # pc
        rho = 190 * m ** -2 * (rc / 100) ** -4               # Msun/pc^3; column density through the centre of (1 + .091 x^2)^-8
        col = 2 * rho * rc * quad(lambda x: (1 + .091 * x * x) ** -8., 0, np.inf)[0]
        s.ul = (col * 1e12 / s.sc, rc / (s.dd * 1e6) / ARC)

    @edge("hern_m", "hern_a")
    def hernquist_phys2angular(s, v):
        return s.lc.hernquist_phys2angular(*v)

    @edge("hern_a", "hern_m")
    def hernquist_angular2phys(s, v):
        return s.lc.hernquist_angular2phys(*v)

    @edge("hern_a", "hern_al")
    def hernquist_deflection(s, v):
        from lenstronomy.LensModel.lens_model import LensModel
        return float(LensModel(["HERNQUIST"]).alpha(v[1] * 1.0001, 0., [dict(sigma0=v[0], Rs=v[1], center_x=0, center_y=0)])[0])

    @edge("ser_m", "ser_k")
    def sersic_m_star2k_eff(s, v):
        return s.lc.sersic_m_star2k_eff(v[0], s.R, s.n)

    @edge("ser_k", "ser_m")
    def sersic_k_eff2m_star(s, v):
        return s.lc.sersic_k_eff2m_star(v[0], s.R, s.n)

    @edge("ser_k", "ser_tot")
    def sersic_profile(s, v):
        """mass of the convergence profile"""
        from lenstronomy.LightModel.light_model import LightModel
        x, w = np.polynomial.legendre.leggauss(400)
        lo, hi = np.log(1e-7 * s.R), np.log(3e3 * s.R)
        R = np.exp((x + 1) / 2 * (hi - lo) + lo)
        k = LightModel(["SERSIC"]).surface_brightness(R, 0 * R, [dict(amp=v[0], R_sersic=s.R, n_sersic=s.n, center_x=0, center_y=0)])
        return float(np.sum(w * (hi - lo) / 2 * 2 * np.pi * R ** 2 * k)) * s.lc.sigma_crit_angle

    @edge("uldm", "uldm_a")
    def uldm_mphys2angular(s, v):
        return s.lc.uldm_mphys2angular(*v)

    @edge("uldm_a", "uldm")
    def uldm_angular2phys(s, v):
        return s.lc.uldm_angular2phys(*v)


@group("microlens")
class Microlens(Group):
    nodes = {"event": ("e", lambda s: (s.M, s.dl, s.ds), 1e-9), "theta_E": ("e", lambda s: s.tE, G), "size": ("e", lambda s: s.diam * 2 * 6.957e8 / (s.ds * 3.0856775814913673e16) / ARC, 1e-3)}

    def __init__(s, r, n, S):
        from astropy import constants as k, units as un
        s.M, s.dl, s.diam = lu(r, .01, 50, n), u(r, 500, 6000, n), float(r.uniform(.1, 30))
        s.ds = s.dl + u(r, 500, 4000, n)
        s.tE = np.sqrt(4 * (k.G * k.M_sun / k.c ** 2 / un.pc).to(1).value * s.M * (s.ds - s.dl) / s.ds / s.dl) / ARC

    @edge("event", "theta_E")
    def einstein_radius(s, v):
        from lenstronomy.Cosmo.micro_lensing import einstein_radius
        return einstein_radius(*v)

    @edge("event", "size")
    def source_size(s, v):
        from lenstronomy.Cosmo.micro_lensing import source_size
        return source_size(s.diam, v[2])


# ------------------------------------------------------------------ lens profiles

NORM = {  # deflection at the scale radius and density normalisation: class, other parameters, names of the converters
    "NFW": ("nfw", "NFW", (), "alpha2rho0", "rho02alpha"), "CNFW": ("cnfw", "CNFW", ("r_core",), "_alpha2rho0", "_rho2alpha"),
    "coreBURKERT": ("coreBurkert", "CoreBurkert", ("r_core",), "_alpha2rho0", "_rho2alpha"),
    "TNFWC": ("nfw_core_truncated", "TNFWC", ("r_core", "r_trunc"), "alpha2rho0", "rho02alpha"),
    "PSEUDO_DPL": ("pseudo_double_powerlaw", "PseudoDoublePowerlaw", ("gamma_inner", "gamma_outer"), "alpha2rho0", "rho02alpha"),
    "GNFW": ("gnfw", "GNFW", ("gamma_in",), "alpha2rho0", "rho02alpha")}


@group("normalisation", scalar=True)
class Normalisation(Group):
    nodes = {"lens": ("a", lambda s: s.al, 2e-3), "rho": ("a", lambda s: s.rho, 2e-3), "defl": ("a", lambda s: s.al, 4e-3)}

    def __init__(s, r, n, S):
        import importlib
        s.name = sorted(NORM)[r.randint(len(NORM))]
        f, c, names, s.a2r, s.r2a = NORM[s.name]
        s.Rs = float(r.uniform(.5, 5))
        s.kw = dict(r_core=float(r.uniform(.1, .6)) * s.Rs, r_trunc=float(r.uniform(2, 8)) * s.Rs, gamma_inner=float(r.uniform(.5, 2.2)), gamma_outer=float(r.uniform(2.6, 3.8)), gamma_in=float(r.uniform(.6, 1.6)))
        s.kw = {k: s.kw[k] for k in names}
        if ("norm", s.name) not in S:
            S["norm", s.name] = getattr(importlib.import_module("lenstronomy.LensModel.Profiles." + f), c)()
        s.p = S["norm", s.name]
        s.rho = float(10 ** r.uniform(-2, 1))
        from scipy.integrate import quad
        d = lambda x: float(s.p.density(x, Rs=s.Rs, rho0=s.rho, **s.kw))
        R = s.Rs                                  # mass of the density in the cylinder of radius Rs
        a = quad(lambda x: 4 * np.pi * x * x * d(x), 0, R, limit=200)[0]
        b = quad(lambda t: 4 * np.pi * d(R / t) * (1 - np.sqrt(1 - t * t)) * R ** 3 / t ** 4, 0, 1, limit=200)[0]
        s.al = (a + b) / np.pi / R

    @edge("lens", "rho")
    def alpha2rho(s, v):
        return float(getattr(s.p, s.a2r)(alpha_Rs=v[0], Rs=s.Rs, **s.kw))

    @edge("rho", "lens")
    def rho2alpha(s, v):
        return float(getattr(s.p, s.r2a)(rho0=v[0], Rs=s.Rs, **s.kw))

    @edge("lens", "defl")
    def deflection(s, v):
        from lenstronomy.LensModel.lens_model import LensModel
        t = np.random.RandomState(int(s.rho * 1e6)).uniform(0, 6)
        if ("lm", s.name) not in s.S:
            s.S["lm", s.name] = LensModel([s.name])
        x = s.S["lm", s.name].alpha(.3 + 1.0003 * s.Rs * np.cos(t), -.2 + 1.0003 * s.Rs * np.sin(t), [dict(alpha_Rs=v[0], Rs=s.Rs, center_x=.3, center_y=-.2, **s.kw)])
        require(close(float(x[0] * np.sin(t) - x[1] * np.cos(t)), 0., atol=1e-4 * abs(v[0])), "deflection is radial", model=s.name)
        return float(x[0] * np.cos(t) + x[1] * np.sin(t))


@group("powerlaw")
class PowerLaw(Group):
    nodes = {"sis": ("t", lambda s: s.t, 1e-8), "sis_rho": ("t", lambda s: s.t / 2 / np.pi, 1e-8), "spp_rho": ("t", lambda s: s.rho, 1e-6), "spp": ("t", lambda s: s.t, 1e-6),
             "sigma0": ("s", lambda s: s.t, 1e-8), "hrho": ("s", lambda s: s.t / s.a, 1e-8), "jrho": ("s", lambda s: s.t * (s.a + s.b) / (np.pi * s.a * s.b), 1e-8),
             "g2": ("g", lambda s: s.t, 1e-8), "g3": ("g", lambda s: s.t / np.sqrt(2 * np.pi * s.a * s.b), 1e-8)}

    def __init__(s, r, n, S):
        from scipy.special import gamma
        s.t, s.g, s.a = lu(r, .1, 5, n), float(r.uniform(1.4, 2.7)), float(r.uniform(.1, 1))
        s.b = s.a * float(r.uniform(1.5, 20))
        # kappa = (3-g)/2 (theta_E/R)^(g-1) = rho0 sqrt(pi) Gamma((g-1)/2)/Gamma(g/2) R^(1-g)
        s.rho = (3 - s.g) / 2 * s.t ** (s.g - 1) * gamma(s.g / 2) / gamma((s.g - 1) / 2) / np.sqrt(np.pi)

    def prof(s, f, c):
        import importlib
        return getattr(importlib.import_module("lenstronomy.LensModel.Profiles." + f), c)()

    @edge("sis", "sis_rho")
    def sis_theta2rho(s, v):
        return s.prof("sis", "SIS").theta2rho(v[0])

    @edge("sis_rho", "sis")
    def sis_rho2theta(s, v):
        return s.prof("sis", "SIS").rho2theta(v[0])

    @edge("sis", "sis_rho")
    def sie_theta2rho(s, v):
        return s.prof("sie", "SIE").theta2rho(v[0])

    @edge("spp", "spp_rho")
    def spp_theta2rho(s, v):
        return s.prof("spp", "SPP").theta2rho(v[0], s.g)

    @edge("spp_rho", "spp")
    def spp_rho2theta(s, v):
        return s.prof("spp", "SPP").rho2theta(v[0], s.g)

    @edge("sigma0", "hrho")
    def hernquist_sigma2rho(s, v):
        return s.prof("hernquist", "Hernquist").sigma2rho(v[0], s.a)

    @edge("hrho", "sigma0")
    def hernquist_rho2sigma(s, v):
        return s.prof("hernquist", "Hernquist").rho2sigma(v[0], s.a)

    @edge("sigma0", "jrho")
    def jaffe_sigma2rho(s, v):
        return s.prof("pseudo_jaffe", "PseudoJaffe").sigma2rho(v[0], s.a, s.b)

    @edge("jrho", "sigma0")
    def jaffe_rho2sigma(s, v):
        return s.prof("pseudo_jaffe", "PseudoJaffe").rho2sigma(v[0], s.a, s.b)

    @edge("g2", "g3")
    def gauss_2to3(s, v):
        return s.prof("gaussian", "Gaussian")._amp2d_to_3d(v[0], s.a, s.b)

    @edge("g3", "g2")
    def gauss_3to2(s, v):
        return s.prof("gaussian", "Gaussian")._amp3d_to_2d(v[0], s.a, s.b)


ARCS = {"CURVED_ARC_SPP": {}, "CURVED_ARC_SIS_MST": {}, "CURVED_ARC_TAN_DIFF": {"dtan_dtan": 0.}, "CURVED_ARC_SPT": {"gamma1": 0., "gamma2": 0.}}


@group("arc", scalar=True)
class Arc(Group):
    nodes = {"stretch": ("s", lambda s: (s.tan, s.rad, s.cur, s.dir), 1e-6), "spp": ("s", lambda s: s.spp, 1e-6), "sis": ("s", lambda s: s.sis, 1e-6),
             "hess": ("s", lambda s: s.hess, 5e-4)}
    common = ("hess",)

    def __init__(s, r, n, S):
        s.tan, s.rad, s.cur, s.dir = float(r.uniform(2, 9)), float(r.uniform(.7, 1.3)), float(r.uniform(.3, 1.5)), float(r.uniform(-3, 3))
        s.c = r.uniform(-.5, .5, 2)
        R = 1 / s.cur
        cx, cy = s.c[0] - R * np.cos(s.dir), s.c[1] - R * np.sin(s.dir)
        # tangential eigenvalue 1 - alpha/R, radial 1 - dalpha/dR at the arc
        g = 2 - (1 - 1 / s.rad) / (1 - 1 / s.tan)
        s.spp = (R * (1 - 1 / s.tan) ** (1 / (g - 1)), g, cx, cy)
        s.sis = (R * (1 - s.rad / s.tan), 1 - 1 / s.rad, cx, cy)
        a, b = 1 - 1 / s.rad, 1 - 1 / s.tan
        k, d = (a + b) / 2, (a - b) / 2
        s.hess = (k + d * np.cos(2 * s.dir), d * np.sin(2 * s.dir), k - d * np.cos(2 * s.dir))
        s.model = sorted(ARCS)[r.randint(len(ARCS))]

    @edge("stretch", "spp")
    def stretch2spp(s, v):
        from lenstronomy.LensModel.Profiles.curved_arc_spp import CurvedArcSPP
        return CurvedArcSPP.stretch2spp(*v, *s.c)

    @edge("spp", "stretch")
    def spp2stretch(s, v):
        from lenstronomy.LensModel.Profiles.curved_arc_spp import CurvedArcSPP
        return CurvedArcSPP.spp2stretch(*v, *s.c)

    @edge("stretch", "sis")
    def stretch2sis_mst(s, v):
        from lenstronomy.LensModel.Profiles.curved_arc_sis_mst import CurvedArcSISMST
        return CurvedArcSISMST.stretch2sis_mst(*v, *s.c)

    @edge("sis", "stretch")
    def sis_mst2stretch(s, v):
        from lenstronomy.LensModel.Profiles.curved_arc_sis_mst import CurvedArcSISMST
        return CurvedArcSISMST.sis_mst2stretch(*v, *s.c)

    @edge("stretch", "hess")
    def hessian(s, v):
        """every arc model has the stretches and the direction as the distortion at its centre"""
        from lenstronomy.LensModel.lens_model import LensModel
        kw = dict(tangential_stretch=v[0], radial_stretch=v[1], curvature=v[2], direction=v[3], center_x=s.c[0], center_y=s.c[1], **ARCS[s.model])
        h = LensModel([s.model]).hessian(s.c[0] + 1e-7, s.c[1], [kw])
        a = LensModel([s.model]).alpha(s.c[0], s.c[1], [kw])
        require(close(np.ravel(a), [0, 0], atol=1e-6), "no deflection at the centre of an arc", model=s.model)
        return float(h[0]), float(h[1]), float(h[3])

    @edge("spp", "hess")
    def spp_hessian(s, v):
        from lenstronomy.LensModel.lens_model import LensModel
        h = LensModel(["SPP"]).hessian(s.c[0], s.c[1], [dict(theta_E=v[0], gamma=v[1], center_x=v[2], center_y=v[3])])
        return float(h[0]), float(h[1]), float(h[3])

    @edge("sis", "hess")
    def sis_hessian(s, v):
        from lenstronomy.LensModel.lens_model import LensModel
        h = LensModel(["SIS", "CONVERGENCE"]).hessian(s.c[0], s.c[1], [dict(theta_E=v[0] * (1 - v[1]), center_x=v[2], center_y=v[3]), dict(kappa=v[1])])
        return float(h[0]), float(h[1]), float(h[3])


# ------------------------------------------------------------------ replay

def walk_case(c):
    g = c["g"]
    cls = GROUPS[g]
    S, objs, val = {"same plane": bool(c.get("same"))}, {}, None
    for i, h in enumerate(c["hist"]):
        node = h["n"].split(".")[1]
        if h["k"] == "take":
            o = h["o"]
            if o not in objs:
                r = np.random.RandomState((c["seed"] * 7 + o * 101) % 2 ** 31)
                n = None if cls.scalar or not c["vec"] else 3
                objs[o] = cls.__new__(cls)
                objs[o].S = S
                objs[o].__init__(r, n, S)
            s = objs[o]
            val = s.ref(node)
            prev, start = node, i
            continue
        e = h["e"].split(".")[1]
        f = getattr(cls, e)
        keep = [np.array(v, copy=True) for v in val]
        new = f(s, val)
        require(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, val)), "conversion leaves its input alone", conversion=g + "." + e)
        ref = s.ref(node)
        if not (isinstance(new, (tuple, list)) or isinstance(new, np.ndarray) and len(ref) > 1):
            new = (new,)
        tol = f.edge[2] if f.edge[2] is not None else cls.nodes[node][2]
        tol = tol + sum(getattr(cls, k["e"].split(".")[1]).edge[2] or 0 for k in c["hist"][start + 1:i] if k["k"] == "conv")
        for j, a in enumerate(ref):
            b = np.asarray(new[j], float)
            a = np.asarray(a, float)
            sc = np.max(np.abs(a)) if tol else 0.
            if tol and node in cls.common:            # entries of one tensor: one scale
                sc = 50 * max(float(np.max(np.abs(k))) for k in ref)
            require(a.shape == b.shape and np.all(np.abs(a - b) <= tol * np.maximum(np.abs(a), .02 * sc) + (1e-9 if tol else 0) * max(sc, 1e-30)), "conversion gives the representation of the object",
                    conversion=g + "." + e, entry=j, expected=np.ravel(a)[:4].tolist(), got=np.ravel(b)[:4].tolist(),
                    walk=[k.get("e", k.get("o")) for k in c["hist"][:i + 1]], kind=getattr(s, "name", getattr(s, "model", "")))
        val = tuple(new[j] if isinstance(new[j], (float, int)) or cls.scalar is False or np.ndim(new[j]) else float(new[j]) for j in range(len(ref)))


CASES = {"walks": walk_case}
SLOW = {"simulation", "cosmography", "normalisation", "halo", "stars", "arc"}


def main(pid):
    import lenstronomy.Analysis.td_cosmography, lenstronomy.SimulationAPI.sim_api, lenstronomy.LensModel.lens_model, lenstronomy.LightModel.light_model, lenstronomy.Cosmo.cosmo_solver  # noqa
    from astropy import constants  # noqa
    ck = Check(pid)
    jobs, names = [], []
    for g in GROUPS:
        nodes = fn_tla({g + "." + n: set(v[0]) for n, v in GROUPS[g].nodes.items()})
        edges = {(g + "." + e, g + "." + a, g + "." + b) for e, (a, b, _) in catalogue(g).items()}
        L = (4 if THOROUGH else 3) + (g in ("shear", "ellipse", "microlens", "normalisation"))
        jobs.append(("Diagram", dict(Nodes=nodes, Edges=edges, Objects=3, L=L), dict(spec="Spec", invariants=["Commutes", "Emit"]), dict(workers=1, heap="2g")))
        names.append(g)
    cases, total = [], {}
    for g, run in zip(names, ck.mc_all(jobs, 4)):
        recs = run.records
        total[g] = len(recs)
        cap = (150 if g in SLOW else 400) * (8 if THOROUGH else 1)
        if len(recs) > cap:       # always every pair of a conversion and its predecessor, then a random sample
            ck.rng.shuffle(recs)
            seen, first, rest = set(), [], []
            for r in recs:
                w = [x.get("e", "take") for x in r["hist"]]
                k = {(w[i], w[i + 1]) for i in range(len(w) - 1)} | {tuple(w[i:i + 3]) for i in range(len(w) - 2) if w[i + 1] == "take"}
                (first if k - seen else rest).append(r)
                seen |= k
            recs = first + rest[:max(0, cap - len(first))]
        for r in recs:
            turns = sum(x["k"] == "take" for x in r["hist"]) > 1
            for m in range(1 + (g == "halo" and turns) if g in SLOW else 2):
                cases.append(dict(g=g, same=bool(m), hist=r["hist"], vec=bool(m) and not GROUPS[g].scalar, seed=ck.rng.randrange(10 ** 6)))
    ck.extra["walks"] = total
    ck.assumptions.append("walks of up to 5 conversions over 3 objects sharing instances; reference values from astropy and quadrature, tolerance 1e-7 for algebra, 5e-4 where G and the solar mass enter")
    ck.run_cases(walk_case, cases, "walks", chunk=20)
    return ck.finish()
