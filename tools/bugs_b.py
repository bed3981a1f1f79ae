from mkbug import bug

bug("c05-additional-cache", "C05", "cache switched on, additional images asked for, lens model changed, additional images asked for again",
    "clearing the cache leaves the saved additional images: the positions of the previous lens model are returned",
    [("lenstronomy/PointSource/point_source_cached.py", '''        if hasattr(self, "_x_image_add"):
            del self._x_image_add
        if hasattr(self, "_y_image_add"):
            del self._y_image_add
''', "")],
    """
    import numpy as np
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.PointSource.point_source import PointSource
    lm = LensModel(["SIE"])
    ps = PointSource(["LENSED_POSITION"], lens_model=lm, save_cache=True)
    kps = [{"ra_image": np.array([1.05]), "dec_image": np.array([0.1]), "point_amp": np.array([1.0])}]
    k1 = [{"theta_E": 1.0, "e1": 0.1, "e2": 0.0, "center_x": 0, "center_y": 0}]
    k2 = [{"theta_E": 1.2, "e1": 0.1, "e2": 0.0, "center_x": 0, "center_y": 0}]
    ps.image_position(kps, k1, additional_images=True)
    ps.delete_lens_model_cache()
    x, y = ps.image_position(kps, k2, additional_images=True)
    bx, by = lm.ray_shooting(np.array(x[0]), np.array(y[0]), k2)
    sx, sy = lm.ray_shooting(1.05, 0.1, k2)
    assert np.allclose(bx, sx, atol=1e-4) and np.allclose(by, sy, atol=1e-4), (bx, sx, by, sy)
    """)

bug("c06-epl-static", "C06", "static mode set twice with different parameters without returning to dynamic mode in between",
    "the second set_static keeps the parameters of the first",
    [("lenstronomy/LensModel/Profiles/epl.py", '''        self._static = True
        (
            self._b_static,
            self._t_static,
            self._q_static,
            self._phi_G_static,
        ) = self._param_conv(theta_E, gamma, e1, e2)
''', '''        (
            self._b_static,
            self._t_static,
            self._q_static,
            self._phi_G_static,
        ) = self.param_conv(theta_E, gamma, e1, e2)
        self._static = True
''')],
    """
    from lenstronomy.LensModel.lens_model import LensModel
    k1 = [{"theta_E": 1.0, "gamma": 2.0, "e1": 0.1, "e2": 0.0, "center_x": 0, "center_y": 0}]
    k2 = [{"theta_E": 1.5, "gamma": 1.9, "e1": 0.0, "e2": 0.1, "center_x": 0, "center_y": 0}]
    a = LensModel(["EPL"])
    a.set_static(k1)
    k = a.set_static(k2)
    got = a.alpha(1.0, 0.5, k)
    ref = LensModel(["EPL"]).alpha(1.0, 0.5, k2)
    assert abs(got[0] - ref[0]) < 1e-9, (got, ref)
    """)

bug("c08-close-planes", "C08", "two lens planes whose redshifts differ by less than 0.01",
    "the planes are treated as one plane: no drift between them",
    [("lenstronomy/LensModel/MultiPlane/multi_plane_base.py", '''            if z_before == z_lens:
                delta_T = 0''', '''            if abs(z_lens - z_before) < 1e-2:
                delta_T = 0''')],
    """
    import numpy as np
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.Cosmo.background import Background
    zs, zl = 1.5, [0.5, 0.508]
    kw = [{"theta_E": 1.0, "center_x": 0.0, "center_y": 0.0}] * 2
    lm = LensModel(["SIS", "SIS"], multi_plane=True, z_source=zs, lens_redshift_list=zl)
    b = Background()
    T = b.T_xy
    x, a = 0.0, 2.0
    z0 = 0.0
    for z in zl:
        x = x + a * T(z0, z)
        f = b.d_xy(0, zs) / b.d_xy(z, zs)
        a = a - f * 1.0
        z0 = z
    x = x + a * T(z0, zs)
    bx, by = lm.ray_shooting(2.0, 0.0, kw)
    assert abs(bx - x / T(0, zs)) < 1e-6, (bx, x / T(0, zs))
    """)

bug("c10-observed-index", "C10", "multi-plane lens in the observed convention, in a band that leaves out an earlier lens which is not in that convention",
    "the observed convention is applied to the wrong lens of the band",
    [("lenstronomy/Util/class_creator.py", '''                if k in observed_convention_index:
                    observed_convention_index_i.append(counter)
                counter += 1
''', '''                if k in observed_convention_index:
                    observed_convention_index_i.append(counter)
                    counter += 1
''')],
    """
    from lenstronomy.Util.class_creator import create_class_instances
    from lenstronomy.LensModel.lens_model import LensModel
    kw = dict(lens_model_list=["SIS", "SIS", "SIS"], lens_redshift_list=[0.3, 0.5, 0.7], multi_plane=True, z_source=1.5, z_source_convention=1.5,
              observed_convention_index=[2], index_lens_model_list=[[0, 1, 2]])
    lm = create_class_instances(band_index=0, **kw)[0]
    k = [{"theta_E": 1.0, "center_x": 0.0, "center_y": 0}, {"theta_E": .5, "center_x": .3, "center_y": 0}, {"theta_E": 0.7, "center_x": 0.5, "center_y": 0.2}]
    ref = LensModel(["SIS"] * 3, lens_redshift_list=[0.3, 0.5, 0.7], multi_plane=True, z_source=1.5, z_source_convention=1.5, observed_convention_index=[2])
    a, b = lm.ray_shooting(1.5, 0.3, k), ref.ray_shooting(1.5, 0.3, k)
    assert abs(a[0] - b[0]) < 1e-9, (a, b)
    """)

bug("c12-rotated-adaptive", "C12", "adaptive supersampling on a frame that is rotated or mirrored relative to the sky",
    "sub-pixels are laid out along right ascension and declination instead of along the pixel axes",
    [("lenstronomy/ImSim/Numerics/grid.py", "                delta_ra, delta_dec = self.map_pix2coord(x_ij, y_ij)\n                delta_ra0, delta_dec_0 = self.map_pix2coord(0, 0)\n",
      "                delta_ra, delta_dec = x_ij * self.pixel_width, y_ij * self.pixel_width\n                delta_ra0, delta_dec_0 = 0, 0\n")],
    """
    import numpy as np
    from lenstronomy.ImSim.Numerics.grid import AdaptiveGrid
    c, s = 0.06, 0.08
    m = np.array([[c, -s], [s, c]])
    g = AdaptiveGrid(nx=3, ny=3, transform_pix2angle=m, ra_at_xy_0=0.0, dec_at_xy_0=0.0, supersampling_indexes=np.eye(3, dtype=bool), supersampling_factor=2)
    x, y = g.coordinates_evaluate
    pts = {(round(float(a), 9), round(float(b), 9)) for a, b in zip(x, y)}
    want = m @ np.array([-0.25, -0.25])
    assert any(abs(a - want[0]) < 1e-8 and abs(b - want[1]) < 1e-8 for a, b in pts), (want, sorted(pts))
    """)

bug("c13-even-kernel", "C13", "an asymmetric kernel degraded by an even factor",
    "flux at the corner of four pixels is given to two of them twice: the corner weights are not those of the four neighbours",
    [("lenstronomy/Util/kernel_util.py", '''    kernel_low_res[:-1, 1:] += kernel_edge / 4
    kernel_low_res[1:, :-1] += kernel_edge / 4
''', '''    kernel_low_res[1:, 1:] += kernel_edge / 4
    kernel_low_res[:-1, :-1] += kernel_edge / 4
''')],
    """
    import numpy as np
    from lenstronomy.Util import kernel_util
    k = np.zeros((5, 5))
    k[1, 1] = 1.0
    out = kernel_util.degrade_kernel(k, 2)
    n = len(out)
    c = n // 2
    assert np.allclose(out[c - 1:c + 1, c - 1:c + 1], 0.25), out
    """)

bug("c14-additional-images-first", "C14", "force_no_add_image with several point sources, where only a later one has additional images",
    "only the first point source is checked for additional images",
    [("lenstronomy/Sampling/Likelihoods/position_likelihood.py", '''                if len(ra_image_list[i]) > len(kwargs_ps[i]["ra_image"]):
                    return True
''', '''                return len(ra_image_list[i]) > len(kwargs_ps[i]["ra_image"])
''')],
    """
    import numpy as np
    from lenstronomy.LensModel.lens_model import LensModel
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    from lenstronomy.PointSource.point_source import PointSource
    from lenstronomy.Sampling.Likelihoods.position_likelihood import PositionLikelihood
    lm = LensModel(["SIE"])
    k = [{"theta_E": 1.0, "e1": 0.1, "e2": 0.0, "center_x": 0, "center_y": 0}]
    np.random.seed(1)
    x, y = LensEquationSolver(lm).image_position_from_source(0.03, 0.02, k)
    assert len(x) == 4
    kps = [{"ra_image": x, "dec_image": y}, {"ra_image": x[:2], "dec_image": y[:2]}]
    ps = PointSource(["LENSED_POSITION"] * 2, lens_model=lm)
    p = PositionLikelihood(ps, force_no_add_image=True)
    assert p.check_additional_images(kps, k) == True
    """)

bug("c18-backend-start", "C18", "emcee carried on from a backend file",
    "the walkers of a continued chain jump to newly drawn positions instead of carrying on from where the file ends",
    [("lenstronomy/Sampling/sampler.py", """            if start_from_backend:
                initpos = None
                n_run_eff = n_run
            else:
                n_run_eff = n_burn + n_run
                backend.reset(n_walkers, num_param)
""", """            if start_from_backend:
                n_run_eff = n_run
            else:
                n_run_eff = n_burn + n_run
                backend.reset(n_walkers, num_param)
""")],
    """
    import os, tempfile, numpy as np, types, shutil
    from lenstronomy.Sampling.sampler import Sampler
    class Chain:
        param = types.SimpleNamespace(num_param=lambda: (2, ["a", "b"]))
        param_limits = (np.array([-5.0, -5.0]), np.array([5.0, 5.0]))
        def logL(self, a): return -50 * float(np.sum(np.asarray(a) ** 2))
        def __call__(self, a): return self.logL(a)
        likelihood = logL
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "b.h5")
        s = Sampler(Chain())
        np.random.seed(3)
        s.mcmc_emcee(30, 4, 0, np.zeros(2), np.ones(2), backend_filename=f)
        smp, dist = s.mcmc_emcee(30, 3, 0, np.zeros(2), np.ones(2), backend_filename=f, start_from_backend=True)
        c = smp.reshape(7, 30, 2)
        assert np.any(np.all(c[4] == c[3], axis=1)), "no walker carried on"
    finally:
        shutil.rmtree(d)
    """)

bug("c21-gnfw-factor", "C21", "one LensCosmo instance converting halos of different inner slopes",
    "the normalisation of the first inner slope is used for all later halos",
    [("lenstronomy/Cosmo/lens_cosmo.py", '''            self._gnfw = GNFW()
        rho0, Rs, r200 = self.gnfwParam_physical(M, c, gamma_in)
        Rs_angle = Rs / self.dd / const.arcsec  # Rs in arcsec
        factor = self._gnfw.get_alpha_Rs_for_kappa_s_1(1, gamma_in) / 4.0
''', '''            self._gnfw = GNFW()
        rho0, Rs, r200 = self.gnfwParam_physical(M, c, gamma_in)
        Rs_angle = Rs / self.dd / const.arcsec  # Rs in arcsec
        if not hasattr(self, "_gnfw_factor"):
            self._gnfw_factor = self._gnfw.get_alpha_Rs_for_kappa_s_1(1, gamma_in) / 4.0
        factor = self._gnfw_factor
''')],
    """
    from lenstronomy.Cosmo.lens_cosmo import LensCosmo
    a = LensCosmo(0.5, 1.5)
    f = a.gnfw_physical2angle
    f(1e13, 5.0, 1.4)
    got = f(1e13, 5.0, 0.8)
    ref = LensCosmo(0.5, 1.5).gnfw_physical2angle(1e13, 5.0, 0.8)
    assert abs(got[1] / ref[1] - 1) < 1e-9, (got, ref)
    """)

