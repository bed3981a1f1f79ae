"""Parameters of every lens and light profile of the catalogue: two different, valid sets each."""
import numpy as np

_BY_NAME = {  # parameter -> (first, second)
    "center_x": (0.07, -0.12), "center_y": (-0.05, 0.09), "e1": (0.11, -0.08), "e2": (-0.06, 0.13), "theta_E": (1.1, 0.8),
    "gamma": (1.95, 2.1), "Rs": (1.7, 2.4), "alpha_Rs": (0.6, 0.9), "r_core": (0.4, 0.6), "sigma0": (0.5, 0.8),
    "ra_0": (0.02, -0.04), "dec_0": (0.03, -0.01), "amp": (1.3, 2.1), "a4_a": (0.02, -0.03), "a3_a": (0.01, -0.02),
    "a1_a": (0.01, -0.015), "sigma": (0.9, 1.3), "r_trunc": (3.1, 4.2), "tangential_stretch": (4.0, 6.0), "curvature": (0.4, 0.6),
    "direction": (0.3, -0.8), "radial_stretch": (1.1, 0.9), "lambda_approx": (0.9, 1.1), "delta_phi_m1": (0.3, -0.4),
    "delta_phi_m3": (0.2, -0.3), "delta_phi_m4": (0.1, 0.4), "scale_factor": (1.2, 0.7), "k_eff": (0.4, 0.6),
    "R_sersic": (0.9, 1.4), "n_sersic": (2.1, 3.3), "gamma1": (0.04, -0.06), "gamma2": (-0.03, 0.05), "q": (0.8, 0.65),
    "phi": (0.4, -0.7), "f_xx": (0.1, 0.2), "f_yy": (0.15, 0.05), "f_xy": (0.03, -0.02), "f_yx": (0.03, -0.02),
    "kappa": (0.1, 0.2), "kappa_0": (0.2, 0.3), "theta_c": (1.2, 2.0), "beta": (0.9, 1.2), "s": (0.3, 0.5), "b": (1.1, 0.9),
    "alpha_1": (1.1, 0.8), "w_c": (0.3, 0.5), "w_t": (0.9, 1.4), "w_c1": (0.3, 0.5), "w_t1": (0.9, 1.4), "w_c2": (0.2, 0.4),
    "w_t2": (1.1, 1.6), "w_c3": (0.25, 0.35), "w_t3": (1.3, 1.8), "e11": (0.1, -0.05), "e21": (0.05, 0.1), "e12": (-0.1, 0.05),
    "e22": (0.02, -0.1), "e13": (0.07, 0.03), "e23": (-0.04, 0.06), "ratio": (0.6, 1.5), "ratio12": (0.7, 1.3), "ratio13": (0.5, 1.1),
    "gamma_in": (0.9, 1.2), "gamma_inner": (0.9, 1.2), "gamma_outer": (2.8, 3.2), "m": (4, 3), "a_m": (0.03, -0.02), "r_E": (1.1, 0.9),
    "phi_m": (0.2, -0.5), "varphi_m": (0.2, -0.5), "phi_ref": (0.3, -0.1), "Ra": (0.4, 0.6), "mu_r": (1.1, 0.9), "mu_t": (3.0, 2.5),
    "parity": (1, -1), "phi_G": (0.3, -0.2), "a": (0.9, 1.1), "dtan_dtan": (0.05, -0.03), "com_x": (0.1, -0.1), "com_y": (0.2, 0.1),
    "phi_dipole": (0.4, 0.9), "coupling": (0.1, 0.2), "psi": (0.3, 0.6), "sigma_0": (0.4, 0.6), "g1": (0.01, -0.02),
    "g2": (0.02, 0.01), "g3": (-0.01, 0.015), "g4": (0.005, -0.01), "F1": (0.01, -0.02), "F2": (0.02, 0.01), "G1": (0.01, 0.02),
    "G2": (-0.01, 0.015), "sigma_x": (0.9, 1.2), "sigma_y": (1.1, 0.8), "s_scale": (0.1, 0.2), "log10_theta_E": (0.05, -0.1),
    "gamma_ext": (0.06, 0.09), "psi_ext": (0.5, -0.8), "alpha_x": (0.1, -0.2), "alpha_y": (0.05, 0.15), "slope": (5.0, 6.0),
    "a_c": (1.2, 1.6), "r_c": (0.7, 1.1), "r_s": (1.5, 2.2), "rho_s": (0.5, 0.8), "coeff": (0.1, 0.2), "d_r": (0.8, 1.1),
    "d_phi": (0.5, 0.9), "logM": (12.5, 12.9), "concentration": (8.0, 6.0), "f_b": (0.7, 0.5), "c_s": (8.0, 10.0), "rho0ang": (0.4, 0.6),
    # light
    "Re": (0.8, 1.2), "R_break": (0.4, 0.6), "alpha_c": (1.5, 2.0), "r_eff": (0.7, 1.0),
    "slope_x": (1.0, 2.0), "slope_y": (-1.0, 0.5), "length": (1.5, 2.0), "width": (0.4, 0.6), "angle": (0.5, -0.7),
    "start_x": (-0.5, 0.2), "start_y": (0.3, -0.4), "offset": (0.1, 0.2), "k": (0.3, 0.5), "scale": (0.9, 1.2), "phi_c": (0.1, 0.3),
}


def _shapelet(n, s):
    return np.round(np.sin(np.arange(1, n + 1) * (1.3 + s)), 3)


def lens_params(name, param_names, which):
    """which: 0 or 1"""
    s = which
    if name in ("INTERPOL", "INTERPOL_SCALED"):
        g = np.linspace(-4, 4, 25)
        xx, yy = np.meshgrid(g + 0.05 * s, g - 0.03 * s)
        a, c = 1.1 + 0.3 * s, 0.6 + 0.2 * s
        r = np.sqrt(xx ** 2 + yy ** 2 + c ** 2)
        kw = dict(grid_interp_x=xx[0], grid_interp_y=yy[:, 0], f_=a * r, f_x=a * xx / r, f_y=a * yy / r,
                  f_xx=a * (1 / r - xx ** 2 / r ** 3), f_yy=a * (1 / r - yy ** 2 / r ** 3), f_xy=-a * xx * yy / r ** 3)
        if name == "INTERPOL_SCALED":
            kw["scale_factor"] = 1.2 - 0.5 * s
        return kw
    if name == "RADIAL_INTERPOL":
        r = np.linspace(0.05, 8, 60)
        return dict(r_bin=r, kappa_r=(0.5 + 0.2 * s) / r, center_x=0.1 * s, center_y=-0.1)
    out = {}
    for p in param_names:
        if p == "coeffs":
            n = 10
            out[p] = tuple(0.05 * _shapelet(n, s))
        elif p == "amp" and name.startswith("MULTI_GAUSSIAN"):
            out[p] = np.array([1.0, 0.6 + 0.2 * s])
        elif p == "sigma" and name.startswith("MULTI_GAUSSIAN"):
            out[p] = np.array([0.6, 1.4 + 0.2 * s])
        elif p.startswith(("kappa_", "gamma1_", "gamma2_", "omega_", "F1_", "F2_", "G1_", "G2_")) and p not in _BY_NAME:
            out[p] = 0.01 * (len(p) + 2 * s) * (1 if sum(map(ord, p)) % 2 else -1) * (0.1 if p[0] in "FG" else 1)
        else:
            out[p] = _BY_NAME[p][s]
    if name == "BPL":
        out.update(a=[2.1, 1.9][s], a_c=[1.2, 1.0][s], b=[1.1, 0.9][s], r_c=[0.7, 1.0][s])
    if name == "CSE":
        out.update(a=[1.0, 0.7][s], s=[0.3, 0.5][s])
    if name == "CTNFW_GAUSS_DEC":
        out.update(a=[2.0, 2.5][s], r_trunc=[6.0, 8.0][s], rho_s=[5.0, 8.0][s])
    if name == "ElliSLICE":
        out.update(a=[2.0, 2.3][s], b=[1.5, 1.8][s])
    if name == "GreenBoschNFW":
        out.update(Rs=[2.0, 2.6][s])
    return out


def lens_init(name):
    """keyword arguments of the profile class"""
    if name in ("NFW_MC", "NFW_MC_ELLIPSE_POTENTIAL"):
        return dict(z_lens=0.5, z_source=2.0)
    return {}


def light_init(name):
    return dict(n_comp=5) if name.startswith("MGE_SET") else {}


def light_params(name, param_names, which):
    s = which
    out = {}
    for p in param_names:
        if name == "INTERPOL" and p == "image":
            g = np.arange(15)
            xx, yy = np.meshgrid(g, g)
            out[p] = np.exp(-((xx - 7 - s) ** 2 + (yy - 6) ** 2) / 12.0)
        elif name.startswith("SLIT_STARLETS"):
            n = 20
            base = dict(amp=np.round(np.sin(np.arange(3 * n * n) * (0.37 + 0.1 * s)), 3), n_scales=3, n_pixels=n * n, scale=0.2,
                        center_x=0.1 * s, center_y=-0.1)
            out[p] = base[p]
        elif p == "n_max":
            out[p] = 3
        elif p == "amp" and name in ("SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_ELLIPSE"):
            out[p] = _shapelet(10, s)
        elif p == "amp" and name == "SHAPELETS_POLAR_EXP":
            out[p] = _shapelet(16, s)
        elif name == "SERSIC_ELLIPSE_FLEXION" and p in ("a", "b1", "b2", "c1", "c2", "d1", "d2"):
            out[p] = 0.01 * (1 + s + len(p)) * (1 if p[-1] in "a1" else -1)
        elif name == "CORE_SERSIC" and p in ("Rb", "R_break"):
            out[p] = (0.3, 0.5)[s]
        elif name == "ELLIPSOID" and p == "radius":
            out[p] = (0.9, 1.2)[s]
        elif p == "amp" and name in ("MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE"):
            out[p] = np.array([1.0, 0.6 + 0.2 * s])
        elif p == "sigma" and name in ("MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE"):
            out[p] = np.array([0.6, 1.4 + 0.2 * s])
        elif name.startswith("MGE_SET") and p == "amp":
            out[p] = np.round(1 + 0.1 * np.arange(5) + 0.2 * s, 3)
        elif name.startswith("MGE_SET") and p == "sigma_min":
            out[p] = 0.1
        elif name.startswith("MGE_SET") and p == "sigma_width":
            out[p] = 1.5
        else:
            out[p] = _BY_NAME[p][s]
    if name == "LINE_PROFILE":
        pass
    return out
