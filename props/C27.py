"""All backends compute the same results: harnesses of other properties under models of the other array libraries."""
import copy
import importlib

ABOUT = "Harnesses of the other properties executed with the source branches each array library takes; their oracles do not depend on the backend."

SHARED = {
    "C01": ["dual_2d", "dual_1d", "grids"],
    "C03": ["dictionaries", "complex_dictionaries", "one_dim"],
    "C04": ["vectors", "incident_field"],
    "C05": ["two_dim", "one_dim"],
    "C06": ["film_p_0_p"],
    "C08": ["split_patterned_e", "copies_patterned"],
    "C10": ["harmonics"],
    "C11": ["harmonics", "patterned_e"],
    "C13": ["toeplitz_4x3", "toeplitz_1d", "transform_4x3", "transform_2x6", "transform_6x1", "transform_axes", "built_2", "tensor", "constant"],
    "C14": ["rules_tangent", "rules_pol_345", "rules_jones_x", "profile", "one_d_y_tangent", "exchange_pol"],
    "C15": ["scalar_original", "axes_pol_x", "displacement"],
    "C16": ["littrow_s", "littrow_p"],
    "C17": ["uniform_orders"],
    "C18": ["history_eff", "star_grating"],
    "C19": ["patterned", "inputs_kept", "harmonics"],
    "C20": ["circle", "ellipse", "rectangle_rotated", "square", "polygon", "any_2x3", "geometry"],
    "C21": ["series", "grid_film", "grid_pattern", "grid_1d", "selections_first", "depths_1", "epsilon", "epsilon_zz", "epsilon_uniform"],
    "C22": ["simp_complex", "materials_3_2", "project_any", "project_array", "levels_3"],
    "C24": ["three"],
    "C28": ["count", "orders", "layer_names", "nyquist_1d"],
    "C30": ["harmonics", "patterned"],
    "C31": ["jones_length", "jones_parallel", "jones_rotation", "opt_3x2_3_unit", "opt_2x4_asym_scaled", "fft_2x2_x_scaled", "given"],
    "C35": ["average_3x2", "average_4x3", "weights_3x4", "weights_6x1", "lengths_4x3", "zero_3x2"],
}
BACKENDS = ["torch", "jax", "autograd", "scipy"]
SLOW = {"torch_C20_polygon", "torch_C20_rectangle_rotated", "torch_C20_square", "torch_C08_copies_patterned", "torch_C31_opt_3x2_3_unit"}
# array libraries that are numpy but for their transforms and derivatives
NUMPY_LIKE = ["C13", "C14", "C21", "C03", "C19", "C22", "C35"]
HARNESSES = []


def shared(fn, b):
    def f(ctx, nn):
        if not ctx.symbolic and b == "torch":
            nn.backend.set_default_dtype(nn.backend.float64)
        ctx.nn = nn
        return fn(ctx, nn)

    return f


for prop, names in SHARED.items():
    mod = importlib.import_module("props." + prop)
    by = {h.name: h for h in mod.HARNESSES}
    for n in names:
        if n not in by:
            continue
        for b in BACKENDS:
            if b == "jax" and n.startswith("opt_"):
                # arrays of autograd.numpy in the same function are mutable
                continue
            h = copy.copy(by[n])
            h.name = f"{b}_{prop}_{n}"
            h.backend = b
            h.fn = shared(h.fn, b)
            if h.name in SLOW or b in ("autograd", "scipy") and prop not in NUMPY_LIKE:
                h.tier = "thorough"
            h.bounds = f"{b}: {h.bounds}"
            HARNESSES.append(h)
