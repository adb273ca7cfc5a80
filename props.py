# What each property's check is made of.  tus: harness sources; repo: /repo/src sources linked in.
MAT = ["MaterialModel.cpp", "IsotropicStiffness.cpp", "Rank4Voigt.cpp"]
ELAS = ["LinearElasticMaterial.cpp", "IsotropicLinearElasticMaterial.cpp", "CubicLinearElasticMaterial.cpp", "OrthotropicLinearElasticMaterial.cpp", "CustomLinearElasticMaterial.cpp", "CustomMaterial.cpp", "ExpressionEvaluator.cpp", "LinearElectroelasticMaterial.cpp", "LinearThermoelasticMaterial.cpp"] + MAT
MESH = {"init": "pbt_mpi.cpp", "san": "", "shim": True, "quick_units": 1500.0, "thorough_units": 60000.0}
CRIT = ["elliptic/FluxPNorm.cpp", "elliptic/StressPNorm.cpp", "elliptic/EMStressPNorm.cpp", "elliptic/EffectiveEnergy.cpp", "elliptic/InternalThermalEnergy.cpp", "elliptic/InternalThermoelasticEnergy.cpp", "elliptic/InternalElectroelasticEnergy.cpp", "elliptic/InternalElasticEnergy.cpp", "IntermediateDensityPenalty.cpp", "TensileEnergyDensityLocalMeasure.cpp", "TensileEnergyDensity.cpp", "Plato_AugLagStressCriterionQuadratic.cpp", "Plato_AugLagStressCriterionGeneral.cpp", "Plato_AugLagStressCriterion.cpp", "Plato_StructuralMass.cpp", "VonMisesLocalMeasure.cpp", "ThermalVonMisesLocalMeasure.cpp"]
RES = ["elliptic/ElastostaticResidual.cpp", "elliptic/ThermostaticResidual.cpp", "alg/Cubature.cpp", "alg/Basis.cpp", "alg/ParallelComm.cpp"]
SFUN = ["elliptic/%s.cpp" % x for x in "ScalarFunctionBaseFactory WeightedSumFunction DivisionFunction LeastSquaresFunction SolutionFunction MassPropertiesFunction MassMoment PhysicsScalarFunction".split()]
STAB = ["StabilizedElastostaticEnergy.cpp"]
GEOM = ["geometric/%s.cpp" % x for x in "ScalarFunctionBaseFactory WeightedSumFunction DivisionFunction LeastSquaresFunction MassPropertiesFunction MassMoment GeometryScalarFunction".split()]
PARA = ["parabolic/%s.cpp" % x for x in "HeatEquationResidual InternalThermalEnergy InternalThermoelasticEnergy PhysicsScalarFunction ScalarFunctionBaseFactory TemperatureAverage TransientThermomechResidual".split()]
HYPE = ["hyperbolic/HyperbolicPhysicsScalarFunction.cpp", "hyperbolic/HyperbolicScalarFunctionFactory.cpp"]
PLAST = ["%s.cpp" % x for x in "GlobalVectorFunctionInc InfinitesimalStrainPlasticityResidual InfinitesimalStrainThermoPlasticityResidual J2PlasticityLocalResidual PlasticWorkCriterion ElasticWorkCriterion BasicLocalScalarFunction WeightedLocalScalarFunction PathDependentScalarFunctionFactory ComputePrincipalStresses".split()]
PROPS = {
 "P01": {"tus": ["p01_blas.cpp"], "rule": "Operands of random length, shape, sign pattern and scale are generated for every vector, multivector and batched-matrix kernel and compared with plain loops."},
 "P02": {"tus": ["p02_sparse.cpp"], "rule": "Random block-CRS matrices (block sizes 1-4, rectangular, empty rows, unsorted columns) are pushed through every sparse operation and compared with dense algebra."},
 "P03": {"tus": ["p03_constraints.cpp"], "rule": "Random structurally symmetric, diagonally dominant systems and random subsets of constrained dofs, values and scales; the constrained system and its dense solution are compared with exact elimination."},
 "P04": {"tus": ["p04_expressions.cpp"], "repo": ["ExpressionEvaluator.cpp"], "rule": "Random expression trees over every operator, function and literal form are printed with random spacing and minimal or redundant parentheses, and the parsed value is compared with the tree's value."},
 "P05": {"tus": ["p05_malformed.cpp"], "repo": ["ExpressionEvaluator.cpp"], "rule": "Random token strings classified by an independent reader, definite damage to well-formed expressions, and raw bytes, in exact-size buffers under AddressSanitizer; an evaluator is reused after every outcome."},
 "P06": {"tus": ["p06_custom.cpp"], "repo": ["ExpressionEvaluator.cpp", "CustomMaterial.cpp"], "rule": "Random equation files (preamble, header, any number of equations) with random indices, default indices and named equations; the value must be that of the selected equation."},
 "P07": {"tus": ["p07_penalty.cpp"], "rule": "Random parameters through every constructor and setter, random continuation histories and densities for each penalty and projection model; values, derivatives, bounds and per-cell application compared with closed forms."},
 "P08": {"tus": ["p08_material.cpp"], "repo": MAT, "rule": "Random subsets of tensor entries, moduli and polynomial coefficients, right and faulty input lists, and random histories of material-model operations compared with a reference of the documented defaults and laws."},
 "P09": {"tus": ["p09_kinematics.cpp"], "rule": "Random simplices in 1, 2 and 3 dimensions with affine, rigid and arbitrary nodal fields for every dof layout; strains and gradients compared with the exact ones, and divergences with the virtual work they must do."},
 "P10": {"tus": ["p10_inertia.cpp"], "repo": MAT, "rule": "Random simplices, nodal fields, barycentric weights, scales, densities and constant or temperature-dependent thermal materials; interpolation, projection, inertia, damping and heat compared with direct sums, totals and closed-form derivatives."},
 "P11": {"tus": ["p11_frequency.cpp"], "rule": "Random complex displacement, stress and force fields on random simplices, carried as real and imaginary halves and compared with arithmetic on complex numbers."},
 "P12": {"tus": ["p12_plasticity.cpp"], "rule": "Random strains, moduli, local states and loading histories in 2 and 3 dimensions (and 1 for the elastic law); stresses, elastic strains, flow, residuals and accessors compared with full 3x3 tensor algebra, and histories with the laws of rate-independent plasticity."},
 "P13": {"tus": ["p13_measures.cpp"], "repo": ["TensileEnergyDensity.cpp"], "rule": "Random, diagonal, uniaxial, hydrostatic and pure-shear tensors in 1, 2 and 3 dimensions; equivalent stress, principal values, tensile energy and p-norms compared with tensor invariants, rotations, scaling and exact derivatives."},
 "P14": {"tus": ["p14_quadrature.cpp"], "repo": ["alg/Cubature.cpp", "alg/Basis.cpp"], "rule": "Random dimensions, degrees, polynomials and affine functions, points and nodal fields; integrals compared with closed forms over the simplex, basis values and gradients with the laws of linear interpolation, unsupported requests must be refused."},
 "P15": {"tus": ["p15_time.cpp"], "rule": "Random states, scheme parameters and step sizes; residuals compared with the textbook update formulas, every derivative coefficient with the effect of a unit change, and histories of an oscillator with energy conservation."},
 "P17": {"tus": ["p17_rocket.cpp"], "rule": "Random propellants, throats, geometries, time steps and histories of set and burn operations; pressure, thrust, radius and areas compared with the closed-form balance, and restarts with the first burn."},
 "P16": {"init": "pbt_mpi.cpp", "tus": ["p16_states.cpp"], "repo": ["alg/ParallelComm.cpp"], "inc": ["-I/usr/include/hdf5/openmpi"], "libs": ["-L/usr/lib/x86_64-linux-gnu", "-lhdf5_openmpi"], "rule": "Random histories of setting, overwriting, saving and clearing stored states, of solver iterations and of restart-file writes and reopenings, compared with plain copies; missing, out-of-range and non-finite requests must be refused."},
 "P18": {"tus": ["p18_types.cpp"], "rule": "Every physics layout in every dimension with every evaluation, and random cells, states, densities and material constants pushed through residual pipelines; number and place of derivatives compared with the layout, their values with difference quotients of the plain residual."},
 "P19": dict(MESH, tus=["p19_mech.cpp", "p19_therm.cpp", "p19_tmech.cpp", "p19_emech.cpp"], repo=ELAS + CRIT + RES, rule="Random meshes (shape, numbering, blocks, sides), materials, penalties, loads, states and densities for every steady physics in 2 and 3 dimensions; every assembled derivative compared with difference quotients of the assembled residual."),
 "P20": dict(MESH, tus=["p20_mech.cpp", "p20_therm.cpp", "p20_tmech.cpp", "p20_emech.cpp"], repo=ELAS + CRIT + RES + SFUN + STAB, rule="Random criteria and nested weighted sums, quotients and least-squares combinations of them over random models, states and histories of multiplier updates; values compared with their parts and every derivative with difference quotients."),
 "P21": dict(MESH, tus=["p21_geom.cpp"], repo=ELAS + CRIT + RES + SFUN + STAB + GEOM, rule="Random designs of one or several materials, random subsets of the ten mass properties with weights and targets, penalized volumes and nested combinations; values compared with sums over cells, derivatives with difference quotients, faulty lists must be refused."),
 "P22": dict(MESH, tus=["p22_mech.cpp", "p22_therm.cpp", "p22_tmech.cpp", "p22_emech.cpp", "mesh_solver.cpp"], repo=ELAS + CRIT + RES + SFUN + STAB + GEOM, rule="Random steady problems (mesh, blocks, materials, loads, prescribed values, criteria) solved with dense elimination; prescribed values and balance of the solution, and total derivatives of criteria compared with solving the changed problem again."),
 "P23": dict(MESH, tus=["p23_therm.cpp", "p23_tmech.cpp", "mesh_solver.cpp"], repo=ELAS + CRIT + RES + SFUN + STAB + GEOM + PARA, rule="Random transient heat and thermoelastic problems (mesh, blocks, materials, loads, initial state, prescribed values, steps, scheme); the residual at rest compared with the steady one, derivatives with difference quotients, every step with an independent solution, and total derivatives of criteria with solving the changed problem again."),
 "P24": dict(MESH, tus=["p24_2.cpp", "p24_3.cpp", "mesh_solver.cpp"], repo=ELAS + CRIT + RES + SFUN + STAB + GEOM + HYPE, rule="Random dynamic elasticity problems (mesh, blocks, materials, damping, loads and prescribed values in time, initial states, Newmark parameters); the residual at rest compared with the static one, derivatives with difference quotients, every step with an independent solution, and total derivatives of criteria with solving the changed problem again."),
 "P26": dict(MESH, tus=["p26_mech.cpp", "p26_therm.cpp", "p26_tmech.cpp", "p26_emech.cpp"], repo=ELAS + CRIT + RES + SFUN + STAB, rule="Random meshes, blocks, materials, densities, states and load lists of every steady physics; what a load adds compared with its integral, rigid motions and uniform states with balance, and renumbered, regrouped, moved and turned models with the original; faulty load lists must be refused."),
 "P27": dict(MESH, quick_units=500.0, tus=["p27_plast.cpp", "p27_tplast.cpp"], repo=ELAS + CRIT + RES + SFUN + STAB + PLAST, rule="Random plastic and thermoplastic models (mesh, blocks, materials, hardening, penalties, scalings, loads), states and displacement histories; mixed and local residuals, work criteria and returned states compared with independent references, and every derivative with difference quotients."),
 "P28": dict(MESH, quick_units=120.0, tus=["p28_plast2.cpp", "p28_plast3.cpp", "p28_tplast2.cpp", "p28_tplast3.cpp", "mesh_solver.cpp"], repo=ELAS + CRIT + RES + SFUN + STAB + PLAST, rule="Random plastic and thermoplastic problems (mesh, blocks, materials, hardening, loads, prescribed values in time, projection weights, pseudo time steps, solver limits); every step compared with balance, prescribed values and radial return, criteria with their sum over the steps, total derivatives with solving the changed problem again, written output with the solution; a solve that does not converge must be refused."),
 "P29": dict(MESH, quick_units=400.0, tus=["p29_mech.cpp", "p29_tmech.cpp"], repo=ELAS + CRIT + RES + SFUN + STAB, rule="Random mixed displacement-pressure(-temperature) models (mesh, blocks, materials, penalties, pressure and temperature scalings, loads), states and projected pressure gradients; residuals compared with independent references, and every derivative with difference quotients."),
 "P25": dict(MESH, tus=["p25_mech.cpp", "p25_therm.cpp", "p25_tmech.cpp", "p25_emech.cpp", "mesh_solver.cpp"], repo=ELAS + CRIT + RES + SFUN + STAB + GEOM + PARA + HYPE, rule="Random meshes, blocks, materials, penalties and requested output fields of steady, transient and dynamic problems; strains and gradients compared with those of the state, stresses and fluxes with the residual they must produce, and stored histories with the solution of every step."),
}
QUICK = {"P01": 240, "P02": 240, "P03": 400, "P04": 150, "P05": 80, "P06": 200, "P07": 300, "P08": 150, "P09": 500, "P10": 300, "P11": 500, "P12": 500, "P13": 500, "P14": 600, "P15": 400, "P16": 140, "P17": 800, "P18": 600}
for k, v in QUICK.items():
    PROPS[k].setdefault("quick_units", float(v))
