ASSUMPTIONS = [
    "library functions (numpy, scipy, copy, ...) behave as their summaries in sa/models*.py state",
    "floating-point rounding is ignored: values are compared as real/complex functions of their inputs",
]
VF = ("every path of the named public functions is interpreted abstractly over symbolic arguments (gated value flow, "
      "strong updates on an explicit heap); an obligation is violated when the value/heap effect the source computes is a "
      "different function of its inputs than the specification")
PROPS = {
    "C13": dict(specs=["c13", "c01:profiles", "c01:slices", "c01:other_wavelengths"], rule=VF, explanation="value-flow comparison of every profile-producing method against a reference profile built from fully symbolic layers"),
}
for _p in ("C14", "C15", "C08", "C10", "C11", "C26", "C16", "C12", "C23", "C05", "C03", "C02", "C01", "C04", "C25", "C24", "C09", "C27", "C21", "C17", "C19", "C20", "C22", "C31", "C32", "C33", "C07", "C18"):
    PROPS[_p] = dict(specs=[_p.lower()], rule=VF, explanation="")

PROPS["C06"] = dict(specs=["c06", "c12:fresnel", "c12:forward_angle", "c12:bare_substrate", "c12:one_layer", "c12:two_layers", "c12:normal_incidence", "c12:4x4_one_layer",
                           "c16:layer_order", "c14:euler", "c14:v_theta", "c14:v", "c13:twisted", "c26:vector_relation", "c26:matrix_relation", "c26:pseudo_dielectric",
                           "c26:mueller_isotropic", "c10:defining_relation", "c08:pseudo"], rule=VF, explanation="")

PROPS["C26"]["specs"] += ["c26p"]

PROPS["C07"]["specs"] += ["c08", "c17:scale_to_nm", "c17:wvase", "c17:complete_ease", "c17:spectraray", "c17:nexus", "c17:accurion", "c22:formula", "c22:tables", "c22:layout", "c32:functions", "c32:spectraray_table"]

PROPS["C18"]["ambient"] = ["c17", "c32", "c22", "c31", "c15", "c21", "c24", "c16", "c01:materials"]

from .explain import EXPLAIN  # noqa: E402

for _p, (_what, _oracle, _bounds) in EXPLAIN.items():
    PROPS[_p]["explanation"] = "%s Oracle: %s. Bounds: %s." % (_what, _oracle, _bounds)
