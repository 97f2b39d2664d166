import json
D = {}
def d(i, analysed, oracle, bounds, cost): D[i] = dict(analysed=analysed, oracle=oracle, bounds=bounds, cost=cost)
FE = "all families × with and without earlier use of other set-ups; symbolic order N, symbolic number of points, symbolic indices (i, j, q)"
NONE = "none on sizes (symbolic); real arithmetic"
d("C01", "value/gradx/grady/gradxx/gradxy/gradyy of every family, " + FE, "symbolic partial derivative of the object's own value() term; Jacobi/Legendre/Chebyshev recurrences as term identities", NONE, "12 s")
d("C02", "value and derivative tables, " + FE, "product of the family's own 1-D functions; table shapes (N², n_points)", NONE, "11 s")
d("C03", "value() with one coordinate fixed at ±1, legendre and jacobi families, symbolic degrees", "zero", NONE, "9 s")
d("C04", "quadrature constructor for both types, symbolic order, after other rules were built", "numpy's Gauss-Legendre rule as an uninterpreted table; Lobatto nodes as roots of P'_{n-1} and weights 2/(n(n-1)P²)", NONE, "5 s")
d("C05", "set_cell, get_original_from_ref, get_jacobian of both maps, symbolic vertices and points, object reused for a second cell", "corner images; |det| of the symbolic derivative of the map itself", "affine map: parallelograms", "5 s")
d("C06", "get_orig_from_ref_derivative / second_derivative", "(D map)ᵀ g = reference gradient, (D map)ᵀ H (D map) = reference Hessian, D the symbolic derivative of the map", "second derivatives claimed for affine cells only (documented as unimplemented for bilinear)", "4 s")
d("C07", "Fespace2D over one symbolic cell of a symbolic mesh, every accessor, histories (another space, same mesh twice)", "basis value × weight × |J| of the cell's own map, evaluated through the component classes", NONE, "22 s")
d("C08", "forcing assembly with an uninterpreted forcing; scalar and vector variants", "Σ_q f(x_q) · table[k,q] over the symbolic number of points", NONE, "19 s")
d("C09", "every per-cell accessor: exits as path conditions; points-to of the result", "index outside [0,n) ⇒ only exit ValueError; result reaches no internal array", "none", "2 s")
d("C10", "DataHandler2D assembly, both dtypes", "tensor entry at (e,k,q) = accessor entry; dtype part of the value", NONE, "4 s")
d("C11", "six loss functions with symbolic tensor sizes and coefficients", "mean over test functions of the squared weak form written from the stated equation", NONE, "0.2 s")
d("C12", "train_step of the four models with an uninterpreted loss; then each shipped loss inlined", "every keyword names the tensor it gets; residual of the pairing", "depth 2..6 (2..9 thorough)", "1 s")
d("C13", "train_step objective handed to the gradient call; reported entries", "Σ residual + β·mean(...)² (+ 10·mean(...)² sensors)", "depth 2..6 (2..9 thorough)", "0.5 s")
d("C14", "event trace of train_step: tapes, gradients, watch lists, apply_gradients", "one update, pairs (∂total/∂v, v) for all trainables", "depth 2..6 (2..9 thorough)", "0.2 s")
d("C15", "call() of the four models for every activation/attention/dtype", "composition of dense layers of the given widths; layer identity; dtype on every tensor", "depth 2..6 (2..9 thorough)", "0.3 s")
d("C16", "constructor arguments of schedule and optimiser", "caller's dictionary entries by value number", "none", "0.1 s")
d("C17", "get_config of each model, keys from the constructor signature", "object/value identity with the received argument", "none", "0.1 s")
d("C18", "generate_quad_mesh_internal, symbolic nx, ny and limits", "grid terms at (i, j); stored mesh: connectivity 4e..4e+3, same vertices", NONE, "1 s")
d("C19", "internal boundary generation, n = 4k + r symbolic", "edge equation; affine image of one independent uniform number covering [lo, hi]", NONE, "0.2 s")
d("C20", "read_mesh over a symbolic mesh file, both samplings, symbolic refinement level", "vertex order as sort by angle; group contents as comprehension over the line elements", NONE, "0.3 s")
d("C21", "Dirichlet assembly and conversion, symbolic tags and counts, uninterpreted boundary functions", "row r ↔ (point, function of its tag at it)", NONE, "2 s")
d("C22", "sensor generation, CSV reading and conversion", "record k of points ↔ record k of values; bounding box", "CSV has ≥ 3 columns", "3 s")
d("C23", "eight metric functions on arrays of any shape", "definitions over a symbolic number of entries", "rank 1..3", "1 s")
d("C24", "each option-taking entry point with literals ∪ opaque other", "only exit for 'other' is the documented exception; documented values return", "none", "7 s")
d("C25", "file effects of all public operations", "path term starts with the folder argument; distinct artefacts distinct paths; nothing deleted", "none", "7 s")
d("C26", "resource automata over the effect traces of all operations, with path conditions and zero-length inputs", "figures before = after; gmsh open→use→close; files closed", "exceptions inside library calls are not modelled as extra exits", "10 s")
d("C27", "rng events of all operations; resolved-name query over every module", "only global generators; no seeding, clocks, ids, entropy, hash order", "none", "7 s")
d("C28", "heap content of every caller-owned object before/after every operation, histories included", "unchanged; module globals not rebound", "none", "10 s")
d("C29", "objective and tuner end to end with a symbolic trial and a model of optuna's interface (optuna is not installed)", "suggestion → parameter value numbers; number of updates; relative L2 at test points", "hidden layers 1 and 3 (1..5 thorough); 0, 1, 2, 4 GPUs", "6 s")
d("C30", "write_vtk effect trace, internal and external", "template part, then SCALARS/LOOKUP_TABLE/values per column in order", "none", "0.1 s")
d("C31", "get_test_points / generate_vtk_for_test", "grid terms; provenance of the mesh read", "none", "0.1 s")
d("C32", "examples/**/*.py and their configuration file against the resolved library", "signatures, members, returned tuples and keys, accepted options", "the shipped examples; variables with one evident class", "4 s")
d("C33", "arguments of all drawing calls in plot_utils, fespace2d, geometry", "caller's data at a symbolic index", "none", "2 s")
d("C34", "attributes, printed lines and table cells of Fespace2D; print_table", "sizes of the data they name", "tables of 1 and 3 rows (1, 2, 3, 7 thorough)", "3 s")
d("C35", "coefficient/parameter dictionaries and test-point tensor", "same keys, same values, handler dtype", "1 and 3 keys (1, 2, 4 thorough)", "18 s")
json.dump(D, open(__file__.replace(".py", ".json"), "w"), indent=0)
