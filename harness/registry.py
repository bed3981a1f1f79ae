"""Property id -> module that decides it."""
CHECKS = {
    "C01": "param_vector",
    "C02": "joint_params",
    "C03": "um",
    "C07": "superpos",
    "C08": "multiplane",
    "C05": "point_source",
    "C06": "lens_sessions",
    "C11": "data_sessions",
    "C20": "purity",
    "C14": "likelihood",
    "C04": "fitting",
    "C15": "lens_equation",
    "C16": "constraint",
    "C12": "super_grid",
    "C13": "convolution",
    "C09": "linear",
    "C10": "linear",
    "C17": "samplers",
    "C18": "samplers",
    "C19": "apertures",
    "C21": "conversions",
    "C22": "masses",
    "C23": "kinematics",
}
