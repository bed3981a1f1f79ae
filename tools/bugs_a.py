from mkbug import bug
PARAM = "lenstronomy/Sampling/parameters.py"

bug("c01-log-fixed", "C01", "a lens parameter that is declared log-sampled and is held fixed",
    "the model built from a vector gives the fixed parameter 10**value instead of its fixed value",
    [("lenstronomy/LensModel/lens_param.py", "if name in kwargs_logsampling and name not in kwargs_fixed:",
      "if name in kwargs_logsampling:")],
    """
    from lenstronomy.Sampling.parameters import Param
    p = Param({"lens_model_list": ["SIE"]}, kwargs_fixed_lens=[{"theta_E": 1.3}], kwargs_fixed_extinction=[],
              log_sampling_lens=[[0, ["theta_E"]]])
    m = p.args2kwargs([0.1, 0.1, 0.0, 0.0])
    assert abs(m["kwargs_lens"][0]["theta_E"] - 1.3) < 1e-9, m["kwargs_lens"]
    """)

bug("c02-extinction-order", "C02", "an extinction parameter joint with a lens light component that is itself joint with another lens light component",
    "the extinction adopts the value the lens light had before its own joint constraint was applied",
    [(PARAM, '''        # update lens_light joint parameters
        kwargs_lens_light = self._update_lens_light_joint_with_point_source(''',
      '''        # update extinction model with lens light model
        kwargs_extinction = self._update_joint_param(
            kwargs_lens_light, kwargs_extinction, self._joint_extinction_with_lens_light
        )
        # update lens_light joint parameters
        kwargs_lens_light = self._update_lens_light_joint_with_point_source('''),
     (PARAM, '''            kwargs_source, kwargs_lens, self._joint_lens_with_source_light
        )
        # update extinction model with lens light model
        kwargs_extinction = self._update_joint_param(
            kwargs_lens_light, kwargs_extinction, self._joint_extinction_with_lens_light
        )
''', '''            kwargs_source, kwargs_lens, self._joint_lens_with_source_light
        )
''')],
    """
    from lenstronomy.Sampling.parameters import Param
    p = Param({"lens_light_model_list": ["GAUSSIAN", "GAUSSIAN"], "optical_depth_model_list": ["GAUSSIAN"]},
              kwargs_fixed_extinction=[{"amp": 1.0, "center_x": 0, "center_y": 0}],
              joint_lens_light_with_lens_light=[[0, 1, ["sigma"]]],
              joint_extinction_with_lens_light=[[1, 0, ["sigma"]]])
    n, names = p.num_param()
    vec = [0.1 * (i + 1) for i in range(n)]
    m = p.args2kwargs(vec)
    s = [m["kwargs_lens_light"][0]["sigma"], m["kwargs_lens_light"][1]["sigma"], m["kwargs_extinction"][0]["sigma"]]
    assert s[0] == s[1] == s[2], s
    """)

bug("c02-general-scaling-group", "C02", "general scaling with at least two independent groups, in the physical model",
    "components of the second group are scaled with the power of the first group",
    [(PARAM, "* kwargs[param_name] ** _pows[scale_idx - 1]", "* kwargs[param_name] ** _pows[0]")],
    """
    from lenstronomy.Sampling.parameters import Param
    p = Param({"lens_model_list": ["SIE", "SIE"]}, kwargs_fixed_extinction=[],
              kwargs_fixed_lens=[{"e1": 0, "e2": 0, "center_x": 0, "center_y": 0}] * 2,
              general_scaling={"theta_E": [1, 2]})
    m = p.args2kwargs([2.0, 3.0, 1.5, 0.5, 1.0, 2.0])
    assert abs(m["kwargs_lens"][0]["theta_E"] - 1.5 * 2.0 ** 1.0) < 1e-9
    assert abs(m["kwargs_lens"][1]["theta_E"] - 0.5 * 3.0 ** 2.0) < 1e-9, m["kwargs_lens"]
    """)

bug("c03-fix-not-computed-order", "C03", "two bands that share a lens model, only one of which is computed",
    "a lens model shared with a band that is not computed is left free",
    [("lenstronomy/Workflow/multi_band_manager.py", '''        self.undo_frame_fixed(undo_frame_list)
        self.keep_frame_fixed(fix_frame_list)
''', '''        self.keep_frame_fixed(fix_frame_list)
        self.undo_frame_fixed(undo_frame_list)
''')],
    """
    from lenstronomy.Workflow.multi_band_manager import MultiBandUpdateManager
    k = [{"theta_E": 1.0, "center_x": 0.0, "center_y": 0.0}, {"theta_E": 0.5, "center_x": 0.0, "center_y": 0.0}]
    um = MultiBandUpdateManager({"lens_model_list": ["SIS", "SIS"], "index_lens_model_list": [[0, 1], [0]]}, {}, {},
                                {"lens_model": [k, k, [{}, {}], k, k]}, num_bands=2)
    um.fix_not_computed([False, True])
    f = um.fixed_kwargs[0]
    assert f[0].get("theta_E") == 1.0, f
    """)
