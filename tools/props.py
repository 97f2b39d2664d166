#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "fastvpinns/"
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                      anchors={"files": [F + f for f in files], "mechanism": [{"name": a, "where": b} for a, b in mech],
                               "state": [{"name": a, "meaning": b, "where": w} for a, b, w in state],
                               "observe_at": observe, "hook_needed": None},
                      technique=technique, note=note))


VG = "abstract interpretation to value-graph terms"
P("C01", "Basis derivative tables are the derivatives of the basis value tables",
  "For every basis family, every polynomial order the library accepts and every reference point, the x-, y-, xx-, xy- and yy-derivative tables of a basis are the corresponding partial derivatives of the functions tabulated by that basis's value table, test function by test function and point by point. All of it is computed in double precision.",
  ["inputs", "configurations"], "all basis families (legendre, jacobi, legendre_special), all orders N >= 1, all test-function indices, all points of the reference square",
  "tests compare output shapes, never the derivative against the function, and only for a few orders and points",
  ["FE/basis_2d_QN_Legendre.py", "FE/basis_2d_QN_Jacobi.py", "FE/basis_2d_QN_Legendre_Special.py", "FE/basis_2d_QN_Chebyshev_2.py"],
  [("gradx/grady/gradxx/gradxy/gradyy", "FE/basis_2d_QN_*.py")], ["the arrays returned by value/gradx/grady/gradxx/gradxy/gradyy"],
  VG + "; symbolic differentiation oracle", "derivative tables compared, as closed terms in (degree, point), with the symbolic derivative of the object's own value() term; orthogonal-polynomial identities are normalised, the rest decided by random interpretation of the terms")
P("C02", "Two-dimensional tables are tensor products in one documented order",
  "For a basis with N functions per direction, row i*N+j of every value table is the product of the i-th one-dimensional function in x and the j-th one-dimensional function of the same family in y, and every table has N^2 rows and one column per evaluation point. All of it is computed in double precision.",
  ["inputs", "configurations"], "all basis families, all orders, all evaluation points",
  "tests check the table shape only; a permuted or mixed-up row order has the same shape",
  ["FE/basis_2d_QN_Legendre.py", "FE/basis_2d_QN_Jacobi.py", "FE/basis_2d_QN_Legendre_Special.py", "FE/fe2d_setup_main.py"],
  [("row i*N+j loop", "value() of every basis"), ("family selection", "FE/fe2d_setup_main.py:assign_basis_function")], ["the array returned by value()"],
  VG, "row/column value numbers compared with the product of the 1-D functions for a symbolic order and symbolic indices")
P("C03", "Test functions vanish on the boundary of the reference element",
  "Every test function of the legendre and jacobi families, for every order the library accepts, is zero on all four edges of the reference square. All of it is computed in double precision.",
  ["inputs", "configurations"], "legendre and jacobi families, all orders, all boundary points of the reference square",
  "no test evaluates a basis on the element boundary",
  ["FE/basis_2d_QN_Legendre.py", "FE/basis_2d_QN_Jacobi.py", "FE/basis_2d_QN_Chebyshev_2.py"], [("P_{n+1}-P_{n-1} combination", "test_fcn of each basis")], ["the array returned by value()"],
  VG, "value() term with xi or eta replaced by +-1 normalises to zero for a symbolic degree pair")
P("C04", "Quadrature rules are complete tensor products of one 1-D Gauss rule",
  "For every supported quadrature type and order Q, the 2-D rule on the reference square has exactly the Q^2 points that pair every two nodes of the one-dimensional Gauss-Legendre or Gauss-Lobatto rule of order Q on [-1,1], each once, and each carries the product of the two one-dimensional weights belonging to its own two coordinates. All of it is computed in double precision.",
  ["inputs", "configurations"], "all quadrature types, all orders Q",
  "tests check point counts and the sum of the weights, which do not see a weight attached to the wrong point or a repeated point",
  ["FE/quadratureformulas_quad2d.py"], [("tensor-product construction", "FE/quadratureformulas_quad2d.py")], ["get_quad_values()"],
  VG, "entries of the returned arrays compared with one symbolic 1-D rule at a symbolic index; Lobatto endpoints and 2/(n(n-1)P_{n-1}^2) weights as closed terms")
P("C05", "Cell maps hit the cell's vertices and report their own area element",
  "For every quadrilateral with counter-clockwise vertices v0..v3 (a parallelogram for the affine map), the reference-to-physical map sends the reference corners (-1,-1), (1,-1), (1,1), (-1,1) to v0, v1, v2, v3, and the reported Jacobian is the absolute value of the determinant of that same map's derivative at every reference point - whatever points the object was asked about before, and again for the new vertices once set_cell() is called after they changed. All of it is computed in double precision.",
  ["inputs", "configurations"], "affine and bilinear maps, all vertex coordinates, all reference points (scalars and arrays)",
  "tests use one or two sample squares, where wrong coefficients often coincide",
  ["FE/quad_affine.py", "FE/quad_bilinear.py"], [("set_cell / get_original_from_ref / get_jacobian", "FE/quad_affine.py, FE/quad_bilinear.py")], ["get_original_from_ref", "get_jacobian"],
  VG + "; symbolic differentiation oracle", "map at the corners and Jacobian as rational terms in symbolic vertices and reference point")
P("C06", "Physical derivatives obey the chain rule of the cell map",
  "For every cell and reference point, the physical first derivatives returned for given reference derivatives are the ones that, multiplied by the transposed derivative of the cell's own map, give back the reference derivatives; for affine cells the returned second derivatives satisfy the same relation with the reference Hessian. This holds for every request an object receives, whatever it was asked before (and for the new vertices after set_cell() and get_jacobian()), and tables returned earlier keep their values. All of it is computed in double precision.",
  ["inputs", "configurations"], "affine and bilinear maps, all vertex coordinates with non-zero Jacobian, all reference derivative arrays",
  "tests use axis-aligned sample cells, where transposed or swapped off-diagonal terms vanish",
  ["FE/quad_affine.py", "FE/quad_bilinear.py", "FE/fe_transformation_2d.py"], [("get_orig_from_ref_derivative / get_orig_from_ref_second_derivative", "FE/quad_affine.py, FE/quad_bilinear.py")], ["the returned derivative arrays"],
  VG + "; symbolic differentiation oracle", "(D map)^T g = reference gradient and (D map)^T H (D map) = reference Hessian as rational identities", )
P("C07", "Every cell's assembled tables carry weight times area element exactly once",
  "For every mesh, cell, test function and quadrature point, the test-function values and physical derivatives a function space hands out for that cell equal that cell's own basis value or derivative at that point times the quadrature weight times the absolute Jacobian of that cell's own map at that point, once; reference-gradient tables stay unscaled, second-derivative tables carry the weight and Jacobian once as well, and the handed-out quadrature coordinates are that cell's map applied to the reference quadrature nodes in order. All of it is computed in double precision.",
  ["inputs", "configurations"], "all meshes (any number of cells, any coordinates), all families/orders/quadratures/maps, all cells and indices",
  "tests read shapes from one small mesh; a stale vertex, missing weight or swapped cell has the same shape",
  ["FE/FE2D_Cell.py", "FE/fespace2d.py"], [("basis/weight/Jacobian assignment", "FE/FE2D_Cell.py"), ("cell loop and get_* accessors", "FE/fespace2d.py")], ["get_shape_function_val/_grad_x/_grad_y", "get_shape_function_grad_x_ref", "get_quadrature_actual_coordinates", "get_quadrature_weights"],
  VG + " with one symbolic cell of a symbolic mesh", "cell loop summarised once for a symbolic cell index; every accessor entry compared with its component value number")
P("C08", "Load vectors are the quadrature of forcing times test function",
  "For every forcing function, mesh and cell, entry k of a cell's load vector is the sum over that cell's quadrature points of the forcing evaluated at the mapped physical point times the weighted k-th test function of that cell; the vector-valued variant uses only the requested component of the forcing. All of it is computed in double precision.",
  ["inputs", "configurations"], "all forcing functions, meshes, cells, test functions and components",
  "tests only check the array's shape or a constant forcing",
  ["FE/FE2D_Cell.py", "FE/fespace2d.py"], [("assign_forcing_term / get_forcing_function_values", "FE/FE2D_Cell.py, FE/fespace2d.py")], ["get_forcing_function_values", "get_forcing_function_values_vector"],
  VG + " with an uninterpreted forcing function", "sums over a symbolic number of points compared by normal form")
P("C09", "Accessors reject bad cell indices and never expose internal arrays",
  "Every per-cell accessor of a function space raises ValueError for any cell index below zero or at or beyond the number of cells and does not raise for a valid index; the array it returns is a fresh copy, so changing it never changes what any later accessor call returns.",
  ["inputs", "histories"], "all accessors, all integer cell indices, all sequences of accessor calls and caller writes",
  "tests sample one bad index per accessor and never write to a returned array",
  ["FE/fespace2d.py"], [("index guard and .copy()", "every get_* method of FE/fespace2d.py")], ["raised exceptions", "aliasing of the returned array"],
  "path-condition analysis of raises; escape/alias analysis of returned arrays", "exit condition of each accessor and points-to identity of its result")
P("C10", "Network-ready tensors keep every cell's data in its own slot",
  "For every mesh and dtype, the assembled tensors hold cell e's quadrature point q in row e*Q^2+q of the point list, cell e's test-function tables in slice e and cell e's load vector in column e, with values equal to what the function space returns for that cell, and every tensor has the requested TensorFlow dtype. Values keep the requested precision: nothing is narrowed to a smaller floating type on the way.",
  ["inputs", "configurations"], "all meshes, orders, dtypes; all cells and points",
  "tests check shapes and dtypes; a permutation of cells or points is invisible to shapes",
  ["data/datahandler2d.py", "data/datahandler.py"], [("assembly loop over cells", "data/datahandler2d.py:__init__")], ["x_pde_list, shape_val_mat_list, grad_x_mat_list, grad_y_mat_list, forcing_function_list"],
  VG, "tensor entries at a symbolic (cell, function, point) compared with the accessor's value number; dtype tracked as part of the abstract value")
P("C11", "Shipped losses are the mean squared weak-form residual of their equation",
  "For any tables, predictions and coefficients, the cell residual returned by each shipped physics loss is, per cell, the mean over test functions of the squared weak-form residual of its stated equation (diffusion, convection, reaction, Helmholtz or inverse-coefficient terms, minus the load), with every term using its own derivative, its own coefficient and its own sign.",
  ["inputs"], "all numbers of cells, test functions and quadrature points; all table, prediction and coefficient values",
  "tests compare against one random sample at most or check only the output shape",
  ["physics/poisson2d.py", "physics/poisson2d_inverse.py", "physics/cd2d.py", "physics/cd2d_inverse.py", "physics/cd2d_inverse_domain.py", "physics/helmholtz2d.py"], [("pde_loss_*", "physics/*.py")], ["the returned residual tensor"],
  VG + " with symbolic tensor sizes", "tensor program reduced to index sums and compared with the weak form")
P("C12", "Every model and every shipped loss fit together argument by argument",
  "Each model calls its loss with tables and predictions in which every argument is what its name says - own cell, own point, own axis, own coefficient - and every shipped loss can be used with the model it is written for without an argument mismatch, the training loss then being the sum over cells of that loss's residual.",
  ["configurations", "inputs"], "all model kinds, all shipped losses paired with the model they document, all tensor sizes",
  "each test exercises one pairing with random tensors; swapping two tensors of equal shape passes",
  ["model/model.py", "model/model_hard.py", "model/model_inverse.py", "model/model_inverse_domain.py", "physics/poisson2d.py", "physics/cd2d_inverse.py", "physics/cd2d_inverse_domain.py"], [("loss call in train_step", "model/*.py"), ("keyword signatures", "physics/*.py")], ["arguments of the loss call", "the training-step residual"],
  VG + "; call-binding check", "the loss is an uninterpreted function whose arguments are compared by value number; then each shipped loss is bound and inlined")
P("C13", "The training objective is residual plus weighted boundary and sensor misfit",
  "In every training step the quantity minimised is the sum of all cell residuals plus beta times the mean squared difference between the network at the Dirichlet points and the given Dirichlet values (no boundary term for the hard-constraint model), and for inverse models plus ten times the mean squared difference between the network at the sensor points and the sensor values; the losses the step reports are those same parts.",
  ["inputs", "configurations"], "all model kinds, network depths, tensor values and sizes, all beta",
  "tests run a step and check that numbers come back; the objective's composition is never checked",
  ["model/model.py", "model/model_hard.py", "model/model_inverse.py", "model/model_inverse_domain.py"], [("train_step", "model/*.py")], ["the differentiated loss", "the returned loss dictionary"],
  VG, "objective passed to the gradient call and each reported entry compared as terms")
P("C14", "One step updates every trainable parameter with its own full gradient",
  "Each training step applies the compiled optimiser exactly once, to every trainable parameter of the model - all layer weights and biases and, for inverse problems, every unknown coefficient - pairing each parameter with the gradient of the complete training loss with respect to that same parameter. The gradient is applied as it is, neither rescaled nor clipped.",
  ["inputs", "histories"], "all model kinds, depths, and any sequence of steps",
  "a frozen or mis-paired parameter still trains and returns losses of the right type",
  ["model/model.py", "model/model_hard.py", "model/model_inverse.py", "model/model_inverse_domain.py"], [("GradientTape / apply_gradients", "train_step of model/*.py")], ["apply_gradients arguments", "tape recording"],
  "effect-trace analysis of tape, gradient and optimiser calls", "tape extents, gradient targets and (gradient, variable) pairs on the abstract event trace")
P("C15", "The network is the requested one, in the requested precision",
  "For any list of layer widths, activation, attention option and dtype, a model's prediction is the composition of dense layers of exactly those widths in order, hidden layers with the requested activation and the last one linear, applied to the inputs (after attention when requested), computed in the requested dtype; for the hard-constraint model the prediction is the constraint function applied to the network inputs and that output. Every layer has weights of its own.",
  ["configurations", "inputs"], "all model kinds, depths 2..6, widths, activations, attention options and dtypes",
  "tests use one architecture; output shape alone cannot see a skipped layer, lost activation or precision",
  ["model/model.py", "model/model_hard.py", "model/model_inverse.py", "model/model_inverse_domain.py"], [("layer construction and call", "model/*.py")], ["model(x)", "layer list and dtype"],
  VG + " unrolled per depth", "prediction term unfolded and compared; dtype carried on every tensor; depth is the bound (2..6 quick)")
P("C16", "The optimiser follows the configured learning-rate schedule",
  "For any learning-rate configuration the compiled optimiser is Adam with the configured initial rate when scheduling is off and, when it is on, an exponential decay from that initial rate with the configured decay steps, decay rate and staircase choice.",
  ["configurations"], "all model kinds and all learning-rate dictionaries",
  "tests use one configuration and never read the optimiser back",
  ["model/model.py", "model/model_hard.py", "model/model_inverse.py", "model/model_inverse_domain.py"], [("learning-rate scheduler selection", "__init__ of model/*.py")], ["optimizer and schedule constructor arguments"],
  "effect-trace analysis of constructor arguments", "schedule/optimiser constructor arguments traced to the caller's dictionary entries")
P("C17", "A model's configuration lists every constructor argument it was given",
  "For every model kind, the configuration a model reports contains one entry for each of its constructor parameters, bound to the value the constructor received (for unknown coefficients, the trainable values started from it), so the model can be rebuilt from it.",
  ["configurations"], "all model kinds and constructor argument values",
  "tests compare a handful of keys",
  ["model/model.py", "model/model_hard.py", "model/model_inverse.py", "model/model_inverse_domain.py"], [("get_config", "model/*.py")], ["get_config()"],
  "value-flow from constructor parameters to configuration entries", "keys from the constructor's signature, values by object identity")
P("C18", "Internally generated meshes tile the rectangle with oriented cells",
  "For all limits and cell counts nx, ny, an internally generated mesh has exactly nx*ny cells; cell i*ny+j has as vertices, counter-clockwise from the lower-left, the corners of the rectangle between consecutive lines i,i+1 in x and j,j+1 in y of the uniform grid over the domain, so the cells tile the domain without gap or overlap. The mesh object stored for output describes the same cells with integer connectivity, cell e using points 4e to 4e+3. Coordinates keep double precision.",
  ["inputs", "configurations"], "all domain limits and all cell counts",
  "tests check the number of cells and one area",
  ["Geometry/geometry_2d.py"], [("generate_quad_mesh_internal", "Geometry/geometry_2d.py")], ["returned cell array", "the object's mesh"],
  VG + " with symbolic grid sizes", "cell array entries at a symbolic (i,j) compared with the grid terms")
P("C19", "Internal boundary points lie on the edge of their own tag",
  "For all limits and requested counts n, internal boundary generation returns for each of the tags 1000 (bottom), 1001 (right), 1002 (top) and 1003 (left) exactly floor(n/4) points, each lying on that edge of the domain, with its position along the edge drawn so that the whole edge from corner to corner is covered. Coordinates keep double precision.",
  ["inputs", "configurations"], "all domain limits, all n, all random draws",
  "tests check counts and keys; a point off its edge or a half-covered edge passes",
  ["Geometry/geometry_2d.py"], [("boundary point sampling", "Geometry/geometry_2d.py:generate_quad_mesh_internal")], ["the boundary point dictionary"],
  VG, "coordinates as affine images of one uniform random atom per point")
P("C20", "External meshes give oriented cells and boundary points tagged by their edge",
  "For every mesh file of quadrilaterals, cell e is the e-th quadrilateral with its four vertices reordered counter-clockwise about its centroid; every boundary line element contributes 2^level+1 points of its own segment to the boundary group of that element's own tag, uniformly spaced with both end points for uniform sampling, and no element's points are lost or filed under another tag. Coordinates keep double precision.",
  ["inputs", "configurations"], "all meshes, tags, element orders, refinement levels and sampling methods",
  "tests use one small mesh with consistent ordering",
  ["Geometry/geometry_2d.py"], [("read_mesh / boundary sampling", "Geometry/geometry_2d.py")], ["cell array", "boundary point dictionary"],
  VG + " over a symbolic mesh file; grouped-accumulation summary", "vertex order as a sort by symbolic angle; group contents as comprehension terms over a symbolic line element")
P("C21", "Dirichlet data pairs each boundary point with its own edge's function",
  "For every set of boundary points and boundary functions, the Dirichlet data contains every boundary point once, each next to the value at exactly that point of the function registered for that point's boundary tag, and conversion to tensors keeps the pairing and the requested dtype; the same holds for the component-wise variant. Values keep double precision until that conversion.",
  ["inputs", "configurations"], "all boundary groups, sizes, functions and dtypes",
  "tests use the same function on all edges or check shapes only",
  ["FE/fespace2d.py", "data/datahandler2d.py"], [("generate_dirichlet_boundary_data", "FE/fespace2d.py"), ("get_dirichlet_input", "data/datahandler2d.py")], ["returned coordinates and values"],
  VG + " with uninterpreted boundary functions", "row r of points and values compared at a symbolic (tag, point)")
P("C22", "Sensor data pairs each sensor point with its own observation",
  "For every request, sensor values are the exact solution at exactly the returned sensor points, which lie within the mesh's bounding box, or, when read from a file, the value column of the same records the points are read from; conversion to tensors keeps the pairing and the requested dtype. Values keep double precision until the requested conversion.",
  ["inputs", "configurations"], "all meshes, exact solutions, files, point counts and random draws",
  "tests check shapes and use files or functions for which misaligned rows go unseen",
  ["FE/fespace2d.py", "data/datahandler2d.py"], [("get_sensor_data / get_sensor_data_external", "FE/fespace2d.py"), ("get_sensor_data", "data/datahandler2d.py")], ["returned points and values"],
  VG + " with uninterpreted exact solution and file records", "record k of points and values compared at a symbolic k")
P("C23", "Error metrics are their textbook definitions on arrays of any shape",
  "For every pair of exact and approximate arrays, the reported L1, L2 and L-infinity errors are the mean absolute, root-mean-square and maximum absolute difference over all entries, the relative errors are those divided by the same norm of the exact array, and the combined report is L2, L-infinity, relative L2, relative L-infinity, L1, relative L1 in that order. All of it is computed in double precision.",
  ["inputs"], "all array lengths and shapes (vector, column, table) and all values",
  "tests use hand-picked vectors on which norms and their normalisations often coincide",
  ["utils/compute_utils.py"], [("compute_*_error and compute_errors_combined", "utils/compute_utils.py")], ["the returned numbers"],
  VG + " with symbolic array sizes", "each metric's term over a symbolic number of entries compared with its definition, signs included")
P("C24", "Unsupported options are rejected, documented ones accepted",
  "A mesh generation method, mesh type, mesh file extension, boundary sampling method, basis family, quadrature type, cell map, cell type, polynomial or quadrature order or sensor source outside the documented set is rejected with ValueError by the geometry, function space, quadrature rule or data handler it is given to, and a data type that is no TensorFlow dtype with TypeError; every documented choice is accepted.",
  ["configurations"], "all option strings (the documented ones plus one symbolic 'anything else') and all orders outside the ranges",
  "tests sample a few bad strings; acceptance of an unlisted value silently falls through to some default",
  ["Geometry/geometry_2d.py", "FE/fe2d_setup_main.py", "FE/quadratureformulas_quad2d.py", "FE/fespace2d.py", "data/datahandler2d.py", "data/datahandler.py", "model/model.py"],
  [("option checks", "Geometry_2D.__init__/read_mesh, Fe2DSetupMain, Quadratureformulas_Quad2D, DataHandler, models")], ["raised exceptions"],
  "path-condition analysis of raises over an option partition", "strings are partitioned into the literals of the code plus an opaque 'other'; the only exit for 'other' must be the documented exception")
P("C25", "All files go to the caller's output folder, one per artefact",
  "Whatever public operation is run - mesh generation and reading, VTK and solution output, all plots, hyper-parameter tuning - every file or directory it creates or writes lies inside the output folder it was given (the tuner's own folder for tuning), nothing is deleted, the working directory and process environment stay as they were, and two different artefacts of a call never overwrite each other. Different names given by the caller give different files.",
  ["inputs", "configurations", "histories"], "all public operations, output folders, file names and epochs",
  "tests run in a scratch directory and look for the expected file, not for others",
  ["Geometry/geometry_2d.py", "FE/fespace2d.py", "utils/plot_utils.py", "hyperparameter_tuning/objective.py"], [("path construction", "write_vtk, plot_*, generate_vtk_for_test, generate_plot, utils/plot_utils.py")], ["paths opened, saved, created or deleted"],
  "effect analysis with symbolic path strings", "every file-system effect of every public operation; path terms must be prefixed by the folder parameter")
P("C26", "Figures, gmsh sessions and files are opened, used and closed in order",
  "After any public operation the set of open matplotlib figures is what it was before it, every figure it saves is one it opened itself and had finished drawing on, every gmsh session it opens is closed again on every path that opened it and gmsh is used only in between, and every file it opens is closed after its last use. This holds for any number of plotted series, including none.",
  ["histories", "inputs"], "all public operations and paths through them",
  "a leaked figure, gmsh session or file handle passes every output test and fails only in long runs",
  ["Geometry/geometry_2d.py", "FE/fespace2d.py", "utils/plot_utils.py"], [("plt.figure/close, gmsh.initialize/finalize, open", "plot_*, generate_vtk_for_test, write_vtk, generate_plot")], ["open figures, gmsh session, file handles"],
  "typestate analysis on the abstract effect trace", "resource protocol automata for figures, gmsh and files checked on each operation's effect trace with path conditions")
P("C27", "All randomness comes from the two global generators the user can seed",
  "Every random draw in the library reads NumPy's global generator, or a private one seeded by a draw from it (TensorFlow's global one for initial weights); the library never seeds or replaces a generator and takes no value from clocks, process or object identities, OS entropy or hash order, so a run is repeatable from the user's seeds.",
  ["histories", "configurations"], "all public operations and every module of the package",
  "a test that seeds and compares would have to do so for every operation and across processes",
  ["Geometry/geometry_2d.py", "FE/fespace2d.py", "model/model.py", "model/model_hard.py", "model/model_inverse.py", "model/model_inverse_domain.py"], [("random sampling calls", "Geometry/geometry_2d.py, FE/fespace2d.py")], ["generator calls"],
  "effect analysis plus whole-package reference query", "rng events of every operation and a resolved-name query over all modules for nondeterminism sources")
P("C28", "Library calls leave the caller's data as they found it",
  "No public operation changes the content of a list, dictionary or array that the caller passed in or that a caller's own function returned, and no module-level global is rebound by library code.",
  ["inputs", "histories"], "all public operations, all mutable arguments (cell arrays, boundary dictionaries, function dictionaries, parameter dictionaries, solutions, loss lists)",
  "tests build fresh arguments for each call, so a clobbered argument shows only when it is used twice",
  ["FE/fespace2d.py", "data/datahandler2d.py", "Geometry/geometry_2d.py", "utils/plot_utils.py", "model/model.py"], [("argument handling", "every public entry point")], ["content of the caller's objects after the call"],
  "mutation-effect and alias analysis", "heap content of each caller-owned object before and after, through views and aliases, with the mutating statement as witness")
P("C29", "The tuner optimises the model and settings it suggested",
  "In every trial each hyper-parameter is suggested once under its own name from a non-empty range, reaches the mesh, space, network or optimiser setting it is named after and is never one the library rejects; the model is trained one step per epoch for the requested epochs, and the trial's value is the relative L2 error of the trained model at the domain's test points. The study minimises that value over the requested number of trials, the best trial's parameters are what is returned, and it works for any number of GPUs including none.",
  ["configurations", "inputs"], "all suggested values, numbers of layers, epochs, trials, workers and GPUs",
  "optuna is not even installed in the test environment; no test runs a trial",
  ["hyperparameter_tuning/objective.py", "hyperparameter_tuning/optuna_tuner.py"], [("suggest_* calls and model construction", "hyperparameter_tuning/objective.py"), ("study set-up and device choice", "hyperparameter_tuning/optuna_tuner.py")],
  ["suggest calls, constructor arguments, returned value, device strings"],
  VG + "; value-flow from suggestions to library arguments", "the whole objective abstractly interpreted through mesh, space, handler and model with a symbolic trial; hidden layers 1 and 3 (1..5 thorough); 0,1,2,4 GPUs")
P("C30", "Solution files contain the solution they were given, in order",
  "For every solution array, template and list of names, the written solution file is the template's mesh part followed, for each column in order, by a scalar block headed with that column's name and containing that column's values in point order, and a mismatch between the number of names and columns is rejected before the file is written. Values are written with at least nine significant digits.",
  ["inputs", "configurations"], "all solutions, name lists and templates, internal and external meshes",
  "tests check that a file appears or that an error is raised",
  ["Geometry/geometry_2d.py"], [("write_vtk", "Geometry/geometry_2d.py")], ["lines written to the output file"],
  "file-effect trace analysis with symbolic content", "sequence of write effects compared with the required layout")
P("C31", "Test points match the visualisation mesh point for point",
  "For internally generated domains the test points are, in order, the full grid of nx equally spaced x and ny equally spaced y coordinates including both ends of each range (y varying slowest); for external meshes they are the first two coordinates, in order, of the points of the visualisation mesh written for that same geometry. Coordinates keep double precision.",
  ["inputs", "configurations"], "all domain limits, test-point counts and external meshes",
  "tests check the number of points",
  ["Geometry/geometry_2d.py"], [("get_test_points / generate_vtk_for_test", "Geometry/geometry_2d.py")], ["get_test_points()"],
  VG, "rows at a symbolic (a,b) compared with the grid terms; external: mesh-read provenance")

P("C32", "Every shipped example fits the library it ships with",
  "Every program under examples can be run against the library as it is: each name it imports exists, each call of a library class, function or method binds to its parameters, each method and attribute it uses exists, results are unpacked into as many names as are returned and read under keys they have, and every option its configuration file sets (mesh method and type, sampling, basis family, quadrature type, cell map, orders) is accepted.",
  ["programs", "configurations"], "all calls, attribute uses and configuration entries of all shipped example programs",
  "the test suite never runs or imports the examples, so an interface change the tests follow leaves users' scripts broken",
  ["FE/fespace2d.py", "Geometry/geometry_2d.py", "data/datahandler2d.py", "model/model.py", "utils/plot_utils.py"], [("public classes and functions", "FE/fespace2d.py"), ("train_step result", "model/model.py"), ("plot and error functions", "utils/plot_utils.py")], ["interface used by examples/**/*.py"],
  "interface-conformance analysis of the programs' syntax trees against the resolved library, with abstract interpretation of the configured options", "call binding, member existence, unpack arity and result keys at every use; configured options interpreted with their concrete orders")
P("C33", "Plots show the data they are named after",
  "Each plot draws exactly the data it was given: loss curves entry for entry against iteration, solution and contour plots each value at its own point, mesh plots every cell's outline and every boundary tag's own points, adaptive plots each cell coloured by its own residual; each is saved on every path, and drawing fails for no number of tags, cells or entries.",
  ["inputs", "configurations"], "all data values and sizes, all numbers of boundary tags and cells",
  "tests check that an image file exists",
  ["utils/plot_utils.py", "FE/fespace2d.py", "Geometry/geometry_2d.py"], [("plot_* functions", "utils/plot_utils.py"), ("generate_plot", "FE/fespace2d.py"), ("plot_adaptive_mesh", "Geometry/geometry_2d.py")], ["arguments of the drawing calls"],
  VG + " of drawing-call arguments", "data handed to every drawing call compared, at a symbolic index, with the caller's data")
P("C34", "Reported counts and tables match the data they name",
  "The counts a function space reports as attributes, printed lines and table cells - cells, quadrature points, Dirichlet points, boundary points, matrix shapes - equal the sizes of the data they name and stay right after further calls; the table printer shows every row, pairing the k-th label with the k-th value.",
  ["inputs", "configurations", "histories"], "all meshes, orders, boundary groups, plot options; all tables",
  "tests do not read the report, and small meshes make several of the counts coincide",
  ["FE/fespace2d.py", "utils/print_utils.py"], [("count accumulation and report", "FE/fespace2d.py"), ("print_table", "utils/print_utils.py")], ["total_dofs, total_dirichlet_dofs, total_boundary_dofs, n_cells; printed rows"],
  VG, "counts accumulated over symbolic loops compared with the sizes of the data; printed cells read from the abstract effect trace")
P("C35", "Coefficient tensors hold the caller's values under the caller's keys",
  "For every dictionary of equation coefficients or unknown-parameter guesses, the data handler returns one tensor per caller key, under that key, holding that key's value rounded only to the handler's dtype, and the handler's test-point tensor holds the domain's test points in order in that dtype.",
  ["inputs", "configurations"], "all key sets (1..4 keys), values and dtypes, all domains",
  "tests use one key and check the dtype",
  ["data/datahandler2d.py"], [("get_bilinear_params_dict_as_tensors / get_inverse_params / get_test_points", "data/datahandler2d.py")], ["the returned dictionary and tensor"],
  VG, "dictionary entries and tensor entries compared by value number; dtype tracked as part of the abstract value")

NA = []


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            d = {k: v for k, v in p.items() if k not in ("technique", "note")}
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(d) + "\n")
    checks = []
    na = dict(NA)
    for p in PROPS:
        if p["id"] in na:
            continue
        checks.append({"property": p["id"], "quick_cmd": f"python3 run_check.py {p['id']} --tier quick",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other",
                       "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 9)\"", "checks": checks,
         "not_applicable": [{"property": a, "reason": b} for a, b in NA],
         "notes": "Static analysis only: run_check.py abstractly interprets /repo's current source (stdlib ast) and never imports or runs it. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    write()
