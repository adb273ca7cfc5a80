#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the list below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/"
def P(id, title, statement, over, text, why, files, mech, note, tech):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files.split()],
                mech=[{"name": n, "where": S + w} for n, w in mech], note=note, tech=tech)
L = [
P("P01", "Dense vector and batched-matrix kernels compute their documented algebra",
  "Every dense kernel - norms, sums, minima and maxima, dot products, scaled updates, fills at ordinals, extraction and scattering of dofs, row scaling, batched matrix-vector and matrix-matrix products, batched inverses, cell-wise contractions and conditional values - returns what the textbook formula gives on its operands, for every length, number of cells, offset, stride and scale. It changes only the entries it is documented to write. Operands whose shapes do not match are refused with an error.",
  ["inputs"], "all vectors, worksets and batched matrices, all dof offsets and strides, all scale factors including zero and negative ones, all shape mismatches",
  "The existing tests run each kernel on one or two small constant vectors, so a wrong index, sign, stride or skipped last entry on other lengths passes.",
  "BLAS1.hpp BLAS2.hpp BLAS3.hpp PlatoMathHelpers.hpp DotProduct.hpp DoubleDotProduct2ndOrderTensor.hpp",
  [("vector kernels", "BLAS1.hpp"), ("workset kernels", "BLAS2.hpp"), ("batched matrices", "BLAS3.hpp"), ("conditional value", "PlatoMathHelpers.hpp")],
  "Agreement with plain loops on random operands of up to a few dozen entries per dimension; comparisons within 1e-9 of the magnitude of the terms.",
  "property-based testing against a plain-loop reference"),
P("P02", "Sparse matrix operations agree with dense algebra",
  "Matrix-vector products, products, differences with a diagonal, row sums, inverse weights, lumped solves, row condensation, column sorting and conversions between block and scalar storage give the same matrix or vector as the corresponding dense operation. This holds for every sparsity pattern, including empty rows and unsorted columns, every block size and rectangular shapes, and conversion to scalar storage and back returns the original matrix.",
  ["inputs"], "all sparse block matrices, vectors, block sizes and sparsity patterns",
  "The existing tests use a handful of fixed matrices, mostly square with full rows.",
  "PlatoMathHelpers.hpp PlatoMathFunctors.hpp Plato_Solve.hpp alg/CrsMatrix.hpp",
  [("products and conversions", "PlatoMathHelpers.hpp"), ("row functors", "PlatoMathFunctors.hpp"), ("lumped solve", "Plato_Solve.hpp")],
  "Agreement with dense algebra on random block matrices with up to a dozen block rows.", "property-based testing against dense algebra"),
P("P03", "Essential boundary values are imposed exactly",
  "After boundary values are applied to a linear system, solving it gives each constrained dof its prescribed value times the scale and gives the free dofs the solution of the free equations with those values moved to the right-hand side, for block and scalar storage and for symmetric and nonsymmetric matrices. Equations and matrix entries that touch no constrained dof are unchanged, and constraining the same dof twice with the same value changes nothing.",
  ["inputs", "configurations"], "all structurally symmetric nonsingular systems, all subsets of constrained dofs, all values and scales",
  "The existing tests check a few entries of one symmetric system, so a value used from the wrong side or dof passes.",
  "ApplyConstraints.hpp", [("block systems", "ApplyConstraints.hpp: applyBlockConstraints"), ("scalar systems", "ApplyConstraints.hpp: applyConstraints")],
  "Agreement with exact elimination on random diagonally dominant systems; matrices are structurally symmetric, as assembled finite-element matrices are.", "property-based testing against exact elimination"),
P("P04", "Expressions evaluate to their mathematical value",
  "Every well-formed material or load expression - numbers, named parameters, the operators + - * / ^ !, unary signs, absolute-value bars, parentheses with or without a product sign between them, the functions sin cos tan exp log sqrt abs and pow, and PI - evaluates to the value given by ordinary precedence and associativity, whatever the spacing and redundant parentheses. Changing parameter values and parsing other expressions with the same evaluator gives the value of the expression and parameters then in force.",
  ["inputs", "histories"], "all well-formed expressions, all parameter values, all histories of parse, set and evaluate on one evaluator",
  "The existing tests evaluate a fixed list of expressions; precedence interactions, nesting and reuse form an unbounded space.",
  "ExpressionEvaluator.cpp ExpressionEvaluator.hpp PlatoMathExpr.hpp",
  [("parse and tree insertion", "ExpressionEvaluator.cpp"), ("evaluation", "ExpressionEvaluator.cpp: evaluate_node"), ("time expressions", "PlatoMathExpr.hpp")],
  "Agreement with the value of the generating tree, with error bounds carried through the tree; trees of up to about 30 nodes.", "grammar-based generation against the tree's value"),
P("P05", "Malformed expressions are refused and leave the evaluator usable",
  "Text that is not a well-formed expression - unbalanced parentheses or bars, missing or doubled operands, empty parentheses, stray commas, malformed or over-long numbers and names, unknown characters, undefined parameters - is refused with an error rather than given a value. No text, however damaged, makes parsing read or write outside its buffers, crash or hang, and after any refusal the same evaluator parses and evaluates the next expression correctly.",
  ["inputs", "histories"], "all byte strings, and all sequences of good and bad expressions given to one evaluator",
  "The existing tests try a short list of invalid strings.",
  "ExpressionEvaluator.cpp ExpressionEvaluator.hpp", [("tokenizer and checks", "ExpressionEvaluator.cpp: parse_expression"), ("validation", "ExpressionEvaluator.cpp: validate_expression")],
  "Outcomes compared with an independent reader of the grammar; exact-size heap buffers under AddressSanitizer. Constructs outside the documented grammar that the code reads in its own way (pow without its parenthesis, a product sign left out before pow) are not judged.", "token-level and byte-level fuzzing with an independent reader"),
P("P06", "Custom materials use the equation that was asked for",
  "A material property given by a list of equations evaluates the equation selected by the given index, by default the first, with the parameters and values passed to it; an equation file is read completely and in order whatever precedes its header. A selection that does not exist, an unreadable file or a missing equation is refused with an error.",
  ["inputs", "configurations"], "all equation files and inline equations, all indices, all parameter sets",
  "The existing tests use one equation file and a couple of indices.",
  "CustomMaterial.cpp CustomMaterial.hpp", [("equation lookup", "CustomMaterial.cpp")],
  "Agreement with the value of the generating tree of the selected equation.", "generated files against the selected equation's value"),
P("P07", "Penalty and projection models follow their laws and continuation schedules",
  "Each density penalty model (power law, rational, smoothed step, none) and projection returns the value and derivative of its formula for its current parameters, stays between its minimum value and one on densities in [0,1], and applied to a cell multiplies every entry by the penalty of the cell's mean density. Parameters come from the input list where present and from the documented defaults otherwise, and each continuation update changes exactly the continued parameter by its increment or factor and never beyond its bound.",
  ["inputs", "histories", "configurations"], "all densities, all parameter lists with any subset of entries, all histories of updates",
  "The existing tests evaluate a few densities with one parameter set and no continuation history.",
  "Simp.hpp Ramp.hpp Heaviside.hpp NoPenalty.hpp ApplyPenalty.hpp ApplyProjection.hpp ApplyWeighting.hpp HeavisideProjection.hpp HyperbolicTangentProjection.hpp Plato_TopOptFunctors.hpp",
  [("penalty models", "Simp.hpp"), ("cell-wise application", "ApplyWeighting.hpp"), ("projections", "HyperbolicTangentProjection.hpp")],
  "Agreement with closed forms and their derivatives on random parameters and histories of up to a dozen updates.", "stateful property-based testing against closed forms"),
P("P08", "Material models hold exactly the constants that were given",
  "Tensors, moduli and polynomial temperature laws read from an input list have the listed entries where given, the documented symmetric or zero defaults where not, isotropic moduli expand to the isotropic stiffness of the dimension and shape of the problem, and temperature-dependent quantities follow c0 + c1 T + c2 T^2 of their own coefficients. Required entries that are missing, of the wrong type or inconsistent are refused with an error. A material model returns for each name what was last stored under it, and zero for a name nothing was stored under.",
  ["inputs", "configurations", "histories"], "all subsets of listed entries, all values, all temperatures, all dimensions, all histories of store and retrieve",
  "The existing tests read a few complete lists.",
  "MaterialModel.hpp MaterialModel.cpp IsotropicStiffness.cpp Rank4Voigt.cpp IsotropicMaterialUtilities.hpp ThermalConductivityMaterial.hpp ThermalMassMaterial.hpp ThermoelasticMaterial.hpp ParseTools.hpp",
  [("tensor constants and functors", "MaterialModel.hpp"), ("isotropic stiffness", "IsotropicStiffness.cpp"), ("anisotropic stiffness", "Rank4Voigt.cpp"), ("list access", "ParseTools.hpp")],
  "Agreement with a reference of the documented defaults and laws on random lists.", "property-based testing against reference laws"),
P("P09", "Strains and gradients are exact for affine fields and dual to divergences",
  "On every simplex, strains and gradients computed from nodal values are the exact ones of the linear interpolant in every dimension and dof layout: affine fields give their constant gradient and rigid motions give no strain. The nodal forces a divergence returns do the same virtual work on any nodal field as the stress, flux or pressure does on that field's strain or gradient, scale linearly with the given factor, and are added to what the output held.",
  ["inputs"], "all nondegenerate simplices in 1, 2 and 3 dimensions, all nodal fields, all stresses and fluxes, all dof layouts",
  "The existing tests compare a few entries on one mesh with recorded numbers.",
  "Kinematics.hpp EMKinematics.hpp TMKinematics.hpp StressDivergence.hpp FluxDivergence.hpp PressureDivergence.hpp PressureGradient.hpp StrainDivergence.hpp VoigtMap.hpp",
  [("kinematics", "TMKinematics.hpp"), ("divergences", "StressDivergence.hpp"), ("Voigt order", "VoigtMap.hpp")],
  "Exact for linear simplices up to rounding; up to three cells per case.", "metamorphic and differential property-based testing"),
P("P10", "Interpolation, inertia, damping and heat terms conserve and follow their laws",
  "Values interpolated to integration points are the weighted sums of the right nodal dofs; projecting to nodes distributes exactly the weighted total; inertial and mass-proportional damping forces are density (and damping coefficient) times volume times field, added node by node; heat content is capacity times density times temperature and heat flux is minus conductivity times gradient, with the temperature dependence the material was given. This holds for every layout, offset, scale and dimension, and derivatives propagate through them exactly.",
  ["inputs", "configurations"], "all simplices, nodal fields, weights, scales, constant and temperature-dependent materials",
  "The existing tests check single cells with recorded numbers.",
  "InterpolateFromNodal.hpp ProjectToNode.hpp StateValues.hpp InertialForces.hpp RayleighDamping.hpp ThermalContent.hpp ThermalFlux.hpp LinearTetCubRuleDegreeOne.hpp",
  [("interpolation", "InterpolateFromNodal.hpp"), ("projection", "ProjectToNode.hpp"), ("heat", "ThermalFlux.hpp"), ("damping", "RayleighDamping.hpp")],
  "Agreement with direct sums and closed-form derivatives.", "property-based testing against direct sums"),
P("P11", "Frequency-domain terms are complex arithmetic on real and imaginary halves",
  "Strain, stress divergence, elastic and inertial energies, damping and its adjoint, residual and response misfit of a time-harmonic field agree with the same formulas evaluated on complex numbers, for every frequency, damping coefficient, scale and dimension. Real and imaginary halves never mix other than through the damping terms, and every node of a cell receives its share.",
  ["inputs", "configurations"], "all complex fields on all simplices, all frequencies and damping coefficients",
  "The existing tests check single cells with recorded numbers, often with equal real and imaginary parts.",
  "ComplexStrain.hpp ComplexStressDivergence.hpp ComplexElasticEnergy.hpp ComplexInertialEnergy.hpp ComplexRayleighDamping.hpp AdjointComplexRayleighDamping.hpp ComputeFrequencyResponseMisfit.hpp StructuralDynamicsCellResidual.hpp",
  [("damping", "ComplexRayleighDamping.hpp"), ("strain", "ComplexStrain.hpp"), ("residual", "StructuralDynamicsCellResidual.hpp")],
  "Agreement with complex arithmetic on random fields.", "differential property-based testing against complex arithmetic"),
P("P12", "Plasticity building blocks obey tensor algebra and rate-independent plasticity",
  "Elastic strains subtract plastic (and thermal) strains, stresses and deviators follow isotropic elasticity of the full tensor, the yield normal is the unit deviator with deviatoric flow, and the local residual vanishes exactly on states that satisfy the elastic or plastic evolution equations. Each local-state accessor reads and writes its own component only, and loading histories integrated with these blocks satisfy yield consistency, non-negative plastic work and isochoric plastic flow.",
  ["inputs", "histories"], "all strains, moduli, local states and loading histories in two and three dimensions",
  "The existing tests compare one or two cells with recorded numbers.",
  "J2PlasticityUtilities.hpp ThermoPlasticityUtilities.hpp ComputeCauchyStress.hpp ComputeDeviatoricStress.hpp ComputeDeviatoricStrain.hpp ComputeElasticWork.hpp",
  [("local state access and residuals", "J2PlasticityUtilities.hpp"), ("thermal strain", "ThermoPlasticityUtilities.hpp"), ("elastic law", "ComputeCauchyStress.hpp")],
  "Agreement with 3x3 tensor algebra; two recorded defects of the Cauchy stress (pinned by existing tests) are listed as known findings.", "stateful property-based testing against tensor algebra"),
P("P13", "Stress and strain measures are the invariants of the tensor",
  "Equivalent stress, principal values, tensile energy density and vector and tensor p-norms equal the corresponding functions of the tensor's invariants, are unchanged by rotation of the axes, scale with their degree of homogeneity, and are finite and correct for repeated principal values, pure shear of either sign, uniaxial and zero states. Their propagated derivatives are the derivatives of the measure.",
  ["inputs"], "all symmetric tensors in 1, 2 and 3 dimensions including degenerate ones, all exponents and weights",
  "The existing tests evaluate one or two tensors with distinct positive entries.",
  "VonMisesYieldFunction.hpp Eigenvalues.hpp TensileEnergyDensity.hpp TensileEnergyDensity.cpp VectorPNorm.hpp TensorPNorm.hpp",
  [("equivalent stress", "VonMisesYieldFunction.hpp"), ("principal values", "Eigenvalues.hpp"), ("norms", "TensorPNorm.hpp")],
  "Agreement with invariants computed independently; tolerance of principal values follows the conditioning of the iteration.", "metamorphic property-based testing (rotation, scaling, derivatives)"),
P("P14", "Quadrature and shape functions are exact for their degree",
  "Each integration rule has points inside the simplex, weights that sum to its measure, and integrates every polynomial of its degree exactly; a rule that does not exist is refused. Shape functions sum to one, are one at their own node and zero at the others, reproduce linear fields, and their gradients are those of these functions.",
  ["inputs", "configurations"], "all polynomials up to the degree of each rule, all points, all dimensions and degrees",
  "The existing tests compare points and weights of some rules with recorded values.",
  "alg/Cubature.cpp alg/Basis.cpp LinearTetCubRuleDegreeOne.hpp InterpolateGradientFromScalarNodal.hpp",
  [("rules", "alg/Cubature.cpp"), ("shape functions", "alg/Basis.cpp"), ("one-point rule", "LinearTetCubRuleDegreeOne.hpp")],
  "Closed-form integrals over the simplex of random polynomials.", "property-based testing against closed-form integrals"),
P("P15", "Time integrators follow their update formulas with consistent derivatives",
  "For every scheme parameter, step size and pair of states, the residuals of the Newmark and trapezoidal integrators vanish exactly when the states satisfy the scheme's update formulas and equal their defect otherwise. Every derivative coefficient is the rate of change of the matching residual, and an undamped oscillator integrated with the average-acceleration parameters keeps its energy.",
  ["inputs", "histories"], "all states, rates, accelerations, step sizes and scheme parameters, and histories of steps",
  "The existing tests run one parameter choice with recorded numbers.",
  "hyperbolic/Newmark.hpp parabolic/TrapezoidIntegrator.hpp", [("Newmark", "hyperbolic/Newmark.hpp"), ("trapezoid", "parabolic/TrapezoidIntegrator.hpp")],
  "Agreement with the textbook formulas; oscillator histories of up to a few hundred steps.", "stateful property-based testing against update formulas"),
P("P16", "Stored states, solver records and restart files give back what was stored",
  "A saved state keeps the values it had when it was saved whatever is computed afterwards, asking for a state that does not exist is refused, and with no saved state the current one is returned. Convergence records measure the change from the previous residual norm, refuse non-finite norms and unknown criteria, and log only when asked to. Every vector, scalar and string written to a restart file is read back identical after closing and reopening, including empty vectors, missing vectors are refused, and a closed file is not held open and leaves no storage handles behind.",
  ["histories", "inputs"], "all histories of set, overwrite, save, clear, iterate, write, close and reopen, and all values stored",
  "The existing tests do single writes and reads and never change data after a state was saved.",
  "PlatoStaticsTypes.hpp NewtonRaphsonUtilities.hpp HDF5IO.hpp alg/ParallelComm.cpp",
  [("stored states", "PlatoStaticsTypes.hpp: DataMap"), ("convergence records", "NewtonRaphsonUtilities.hpp"), ("restart files", "HDF5IO.hpp")],
  "Agreement with plain copies over random histories of up to 14 operations; empty strings and duplicate names in a file are outside the file format's abilities and not generated.", "stateful property-based testing against plain copies"),
P("P17", "The rocket model balances mass at every time and repeats when restarted",
  "At every sampled time the chamber pressure balances propellant mass production with nozzle outflow, thrust follows from that pressure, the bore radius grows by burn rate times time step, and the profiles have one sample per time step. Geometry updates set radius and length exactly, areas, mass rates and derivatives follow from them, and initializing again repeats the first burn.",
  ["inputs", "histories"], "all propellants, throats, geometries, step sizes and histories of set, burn and restart for which the pressure iteration starts near its root",
  "The existing tests run one motor with recorded numbers.",
  "Plato_AlgebraicRocketModel.hpp Plato_Cylinder.hpp Plato_GeometryModel.hpp Plato_RocketMocks.hpp",
  [("pressure balance", "Plato_AlgebraicRocketModel.hpp"), ("geometry", "Plato_Cylinder.hpp")],
  "Agreement with the closed-form pressure; pressures that start within a factor two of the root, where the iteration converges.", "stateful property-based testing against the closed-form balance"),
P("P18", "Every evaluation carries all and only the derivatives of its argument",
  "For every physics and dimension, the scalar types of each evaluation differentiate exactly the argument the evaluation is named after, carry one derivative per component of that argument in a cell, and mixing differentiated and plain quantities keeps the derivatives. Dof counts and offsets of each physics layout are those of its fields, and residuals evaluated with these types have the values of the plain residual and its partial derivatives.",
  ["configurations", "inputs"], "all physics, dimensions and evaluations, and all states, densities and node positions of a cell",
  "The existing tests instantiate a few of these types and compare few entries.",
  "SimplexFadTypes.hpp elliptic/EllipticSimplexFadTypes.hpp parabolic/ParabolicSimplexFadTypes.hpp hyperbolic/HyperbolicSimplexFadTypes.hpp geometric/GeometricSimplexFadTypes.hpp SimplexMechanics.hpp SimplexThermal.hpp SimplexElectromechanics.hpp SimplexThermomechanics.hpp SimplexStabilizedMechanics.hpp SimplexPlasticity.hpp SimplexThermoPlasticity.hpp SimplexStructuralDynamics.hpp SimplexProjection.hpp",
  [("derivative types", "SimplexFadTypes.hpp"), ("physics layouts", "SimplexPlasticity.hpp")],
  "All type tables enumerated over physics, dimension and evaluation; derivatives compared with difference quotients to 1e-6.", "enumerated configurations and derivative checks on random cells"),
P("P19", "Assembled derivatives are the derivatives of the assembled residual",
  "For every steady physics (elastic, thermal, thermoelastic, electroelastic) in two and three dimensions and for every mesh, the assembled residual's Jacobian by the state, by the density and by the node coordinates is the rate of change of that residual, in the transposed layout the solver and the optimizer expect. This holds with every supported material law, penalty, body load and boundary load, on meshes of one or several blocks.",
  ["inputs", "configurations"], "all meshes, numberings, blocks, materials, penalties, loads, states and densities of the steady physics",
  "The existing tests of these classes need a mesh library and compare one box mesh with recorded numbers.",
  "elliptic/VectorFunction.hpp elliptic/ElastostaticResidual.hpp elliptic/ThermostaticResidual.hpp elliptic/ThermoelastostaticResidual.hpp elliptic/ElectroelastostaticResidual.hpp WorksetBase.hpp NaturalBCs.hpp BodyLoads.hpp SurfaceLoadIntegral.hpp SurfacePressureIntegral.hpp",
  [("assembly", "elliptic/VectorFunction.hpp"), ("gather and scatter", "WorksetBase.hpp"), ("loads", "SurfacePressureIntegral.hpp")],
  "Meshes of up to a few dozen cells on a stand-in for the mesh library (shim/); derivatives compared with difference quotients within their own error estimate. One recorded defect (the body load ignores the change of cell volume when differentiated by coordinates) is a known finding.", "property-based testing of assembled derivatives against difference quotients on random meshes"),
P("P20", "Design criteria have the value of their definition and its exact derivatives",
  "A weighted sum, quotient or least-squares combination of criteria has exactly the value its definition gives from the values of its parts, at any nesting depth. Every criterion's derivatives by state, density and node coordinates are the rates of change of its value at the requested step, also after its multipliers were updated, and asking for a criterion that does not exist is refused.",
  ["inputs", "histories", "configurations"], "all criteria and nested combinations, meshes, materials, penalties, states, densities and histories of multiplier updates of the steady physics",
  "The existing tests of these classes need a mesh library and compare single criteria with recorded numbers.",
  "elliptic/PhysicsScalarFunction.hpp elliptic/WeightedSumFunction.hpp elliptic/DivisionFunction.hpp elliptic/LeastSquaresFunction.hpp elliptic/ScalarFunctionBaseFactory.hpp elliptic/InternalElasticEnergy.hpp elliptic/StressPNorm.hpp elliptic/FluxPNorm.hpp Plato_AugLagStressCriterion.hpp elliptic/MassPropertiesFunction.hpp",
  [("combinations", "elliptic/WeightedSumFunction.hpp"), ("one criterion over the blocks", "elliptic/PhysicsScalarFunction.hpp"), ("stress constraint", "Plato_AugLagStressCriterion.hpp")],
  "Meshes of up to a few dozen cells on a stand-in for the mesh library (shim/); derivatives compared with difference quotients within their own error estimate.", "stateful property-based testing against definitions and difference quotients on random meshes"),
P("P21", "Volume, mass, center of gravity and inertia are those of the design",
  "The volume of a design is the integral of its penalized density over all blocks; its mass, center of gravity and inertia components are those integrals of the material density, and the weighted mass-property criterion is the weighted sum of squared, normalized differences from the requested values. Weighted sums and quotients of such criteria follow their definition, and all derivatives by density and node coordinates are the rates of change of the value.",
  ["inputs", "configurations"], "all meshes, block splits, material densities, penalties, densities, requested properties and their combinations",
  "The existing tests of these classes need a mesh library and use one unit box.",
  "geometric/Volume.hpp geometric/MassMoment.hpp geometric/MassPropertiesFunction.hpp geometric/GeometryScalarFunction.hpp geometric/WeightedSumFunction.hpp geometric/DivisionFunction.hpp geometric/LeastSquaresFunction.hpp elliptic/MassPropertiesFunction.hpp elliptic/MassMoment.hpp elliptic/Volume.hpp",
  [("volume", "geometric/Volume.hpp"), ("moments", "geometric/MassMoment.hpp"), ("weighted properties", "geometric/MassPropertiesFunction.hpp")],
  "Meshes of up to a few dozen cells on a stand-in for the mesh library (shim/); integrals by exact quadrature.", "property-based testing against exact integrals and difference quotients on random meshes"),
P("P22", "A steady solve meets its constraints and balance; total derivatives are exact",
  "Solving a steady mechanical, thermal, thermomechanical or electromechanical problem gives a state that has every prescribed value and balances every free equation, also for temperature dependent materials. The total derivative of any criterion by density or node coordinates is the rate of change of the criterion when the changed problem is solved again, whatever values are prescribed; results do not depend on what was solved before, and a criterion that does not exist is refused.",
  ["inputs", "histories", "configurations"], "all steady problems: meshes, blocks, materials, penalties, loads, prescribed values, criteria, designs and histories of solves",
  "The existing tests of this class need a mesh library and compare a few problems with recorded numbers; none checks a total derivative.",
  "elliptic/Problem.hpp elliptic/VectorFunction.hpp EssentialBCs.hpp ApplyConstraints.hpp BLAS2.hpp elliptic/PhysicsScalarFunction.hpp elliptic/ScalarFunctionBaseFactory.hpp",
  [("solve and adjoint", "elliptic/Problem.hpp"), ("prescribed values", "EssentialBCs.hpp"), ("elimination of prescribed values", "ApplyConstraints.hpp")],
  "Meshes of up to a few dozen cells on a stand-in for the mesh library (shim/); the linear solver is dense elimination; body loads are left out of coordinate derivatives (finding bodyload-shape).", "stateful property-based testing against an independent solve and difference quotients of re-solved problems"),
P("P23", "Transient heat and thermoelastic problems step and differentiate exactly",
  "Every step of a transient thermal or thermomechanical problem satisfies the prescribed values, the trapezoid rule it was given and the balance of every free equation, starting from the requested initial state. At rest the residual is that of the steady problem, and with a rate it takes up density times heat capacity times rate. All derivatives of the residual are its rates of change, and the total derivative of a criterion by density or node coordinates is its rate of change when the changed problem is solved again, whatever was solved before.",
  ["inputs", "histories", "configurations"], "all transient problems: meshes, blocks, constant or temperature dependent materials, penalties, loads, initial states, prescribed values, step sizes and counts, scheme parameters, designs and histories of solves",
  "The existing tests of these classes need a mesh library and compare a few problems with recorded numbers; none checks a total derivative.",
  "parabolic/Problem.hpp parabolic/VectorFunction.hpp parabolic/HeatEquationResidual.hpp parabolic/TransientThermomechResidual.hpp parabolic/PhysicsScalarFunction.hpp parabolic/InternalThermalEnergy.hpp parabolic/InternalThermoelasticEnergy.hpp parabolic/TemperatureAverage.hpp parabolic/TrapezoidIntegrator.hpp ComputedField.hpp",
  [("stepping and adjoint", "parabolic/Problem.hpp"), ("assembly", "parabolic/VectorFunction.hpp"), ("criteria over steps", "parabolic/PhysicsScalarFunction.hpp")],
  "Meshes of up to a few dozen cells on a stand-in for the mesh library (shim/), up to 4 steps; the linear solver is dense elimination.", "stateful property-based testing against an independent solve of every step and difference quotients of re-solved problems"),
P("P24", "Structural dynamics steps by Newmark's rule and differentiates exactly",
  "Every step of a dynamic elasticity problem has the values prescribed for its time, obeys Newmark's relations with the given parameters and balances every free equation under the loads of its time, starting from the requested displacement and velocity. At rest the residual is that of the static problem; a body moving as a whole feels its mass density times volume times acceleration (and mass damping); damping is the requested mixture of mass and stiffness. All derivatives of the residual are its rates of change, and total derivatives of criteria by density or node coordinates are their rates of change when the changed problem is solved again.",
  ["inputs", "histories", "configurations"], "all dynamic problems: meshes, blocks, materials, damping, penalties, loads and prescribed values in time, initial states, step sizes and counts, Newmark parameters, designs and histories of solves",
  "The existing tests of these classes need a mesh library and compare a few problems with recorded numbers; none checks a total derivative.",
  "hyperbolic/HyperbolicProblem.hpp hyperbolic/HyperbolicVectorFunction.hpp hyperbolic/ElastomechanicsResidual.hpp hyperbolic/HyperbolicPhysicsScalarFunction.hpp hyperbolic/HyperbolicInternalElasticEnergy.hpp hyperbolic/HyperbolicStressPNorm.hpp hyperbolic/Newmark.hpp hyperbolic/InertialContent.hpp EssentialBCs.hpp NaturalBC.hpp",
  [("stepping and adjoint", "hyperbolic/HyperbolicProblem.hpp"), ("assembly", "hyperbolic/HyperbolicVectorFunction.hpp"), ("inertia and damping", "hyperbolic/ElastomechanicsResidual.hpp")],
  "Meshes of up to a few dozen cells on a stand-in for the mesh library (shim/), up to 4 steps; the linear solver is dense elimination; body loads are left out of coordinate derivatives (finding bodyload-shape).", "stateful property-based testing against an independent solve of every step and difference quotients of re-solved problems"),
P("P25", "Output fields are those of the state, element by element and step by step",
  "A requested output field has one row per element of the whole mesh, in mesh order, whatever the blocks. Strains, temperature gradients, electric fields and velocity gradients are those of the state; stresses, heat fluxes and electric displacements are the ones that produce the residual; the von Mises field is that of the stress. Fields that were not requested are not stored, and the stored history holds, for every step, the fields of that step's solution, also after earlier solves.",
  ["inputs", "histories", "configurations"], "all meshes, block splits, materials, penalties, states, requested field sets and histories of solves of the steady, transient and dynamic problems",
  "No existing test reads the values of an output field of a problem with several blocks or several steps.",
  "ToMap.hpp PlatoStaticsTypes.hpp elliptic/ElastostaticResidual.hpp elliptic/ThermostaticResidual.hpp elliptic/ThermoelastostaticResidual.hpp elliptic/ElectroelastostaticResidual.hpp parabolic/TransientThermomechResidual.hpp hyperbolic/ElastomechanicsResidual.hpp elliptic/Problem.hpp hyperbolic/HyperbolicProblem.hpp parabolic/Problem.hpp",
  [("fields of a block into the mesh's", "ToMap.hpp"), ("histories", "PlatoStaticsTypes.hpp"), ("which fields", "elliptic/ElastostaticResidual.hpp")],
  "Meshes of up to a few dozen cells on a stand-in for the mesh library (shim/), up to 4 steps.", "property-based testing against fields computed from the state and forces that must reproduce the residual"),
P("P26", "Applied loads are the prescribed ones and assembly is frame-independent",
  "The residual of a loaded problem differs from that of the unloaded one by exactly the consistent nodal forces of the prescribed tractions, pressures, fluxes and body loads: each load acts on its own sides and components, loads add up, resultants equal traction times area, and constants and expressions of time mean the same. A load whose description cannot be honoured is refused. Renumbering nodes and elements or splitting the mesh into blocks of the same material permutes the residual, its Jacobians and the criteria and changes nothing else; rigid motions carry no forces, and translating or rotating the mesh carries the forces along.",
  ["inputs", "configurations"], "all meshes, block splits, numberings, loads of every type on any side set, materials, densities and states of the mechanical, thermal, thermomechanical and electromechanical problems",
  "Existing tests check single loads on one mesh with one numbering and one block.",
  "NaturalBC.hpp NaturalBCs.hpp BodyLoads.hpp SurfaceLoadIntegral.hpp SurfacePressureIntegral.hpp elliptic/VectorFunction.hpp WorksetBase.hpp Assembly.hpp",
  [("load types", "NaturalBCs.hpp"), ("surface integrals", "SurfaceLoadIntegral.hpp"), ("assembly over blocks", "elliptic/VectorFunction.hpp")],
  "Meshes of up to a few dozen cells on a stand-in for the mesh library (shim/).", "property-based testing against independently integrated loads and metamorphic renumbering and rigid-motion relations"),
P("P27", "Plasticity residuals, derivatives, returned states and work are the model's",
  "The mixed residual of (thermo)plasticity is the stabilised balance of the penalised elastic stress, pressure and loads; the local residual vanishes exactly at the state that the radial return gives, which stays on or inside the yield surface and never loses accumulated plastic strain, also cell by cell when blocks have different materials. Every derivative of the residuals and of the elastic and plastic work criteria, by states, previous states, controls and node coordinates, is that of their value, and weighted sums, multipliers and continuation act as given.",
  ["inputs", "histories", "configurations"], "all meshes, block splits, plastic and thermoplastic materials, hardening moduli, penalties, scalings, loads, densities, states and histories of prescribed displacements in two and three dimensions",
  "Existing tests fix a handful of states on one mesh with one block, and compare with stored numbers.",
  "InfinitesimalStrainPlasticityResidual.hpp InfinitesimalStrainThermoPlasticityResidual.hpp J2PlasticityLocalResidual.hpp GlobalVectorFunctionInc.hpp LocalVectorFunctionInc.hpp BasicLocalScalarFunction.hpp WeightedLocalScalarFunction.hpp ElasticWorkCriterion.hpp PlasticWorkCriterion.hpp",
  [("balance", "InfinitesimalStrainPlasticityResidual.hpp"), ("return mapping", "J2PlasticityLocalResidual.hpp"), ("assembly and derivatives", "GlobalVectorFunctionInc.hpp")],
  "Meshes of up to a few dozen cells on a stand-in for the mesh library (shim/), up to 4 steps; cells within rounding of the yield surface are left out of the return comparison.", "property-based testing against full-tensor references of balance and radial return, and difference quotients"),
P("P28", "Plasticity problems equilibrate every step and differentiate the whole history",
  "At every pseudo time step of a (thermo)plasticity problem the stored state satisfies the stabilised balance with the loads of that step, takes the prescribed values of that step and is the radial return of the previous one, cell by cell; reactions are those of that step, also after earlier solves with the same problem. A problem that cannot be converged within its limits is refused. Criteria are the sums over the steps, their total derivatives by controls and node coordinates are those of solving the changed problem again, repeated solves and evaluations give the same answers, and what is written is the solution, step by step.",
  ["inputs", "histories", "configurations"], "all meshes, block splits, plastic and thermoplastic materials, loads and prescribed values in time, projection weights, numbers of pseudo time steps, solver limits, controls and sequences of solves",
  "Existing tests solve a few fixed problems and compare with stored numbers or with difference quotients along one direction.",
  "PlasticityProblem.hpp NewtonRaphsonSolver.hpp PathDependentAdjointSolver.hpp VectorFunctionVMS.hpp EssentialBCs.hpp",
  [("stepping", "PlasticityProblem.hpp"), ("equilibrium and return", "NewtonRaphsonSolver.hpp"), ("total derivatives", "PathDependentAdjointSolver.hpp")],
  "Meshes of up to a few cells on a stand-in for the mesh library (shim/), up to 4 steps; the derivatives by node coordinates, and by control with a weighted projection, are compared on single cells only (known finding).", "property-based testing against full-tensor balance, radial return and difference quotients of the re-solved problem"),
P("P29", "Stabilized mixed equations balance displacement, pressure and temperature",
  "For every mesh, material, design, state and projected pressure gradient, the residual of the mixed displacement-pressure equations (and of their thermal variant) is the weighted balance of the deviatoric stress plus the pressure, of the volume change against the pressure, and of the stabilizing difference between the pressure gradient and its projection, minus the loads; in two and in three dimensions a state whose pressure is the mean stress carries the full stress of the material. The projection residual vanishes exactly for the weighted projection of the pressure gradient, the elastic energy is the weighted product of the total stress and the strain including shear, and every assembled derivative (by state, node state, control and coordinates, plain and transposed) is the derivative of the assembled value.",
  ["inputs", "configurations"], "all meshes and partitions into blocks, materials, scalings, penalties, loads, states and designs of stabilized mechanics and thermomechanics in two and three dimensions",
  "Existing tests pin stored numbers of one 3D box with one material; they need the mesh library and do not run in the plain build.",
  "StabilizedElastostaticResidual.hpp StabilizedThermoelastostaticResidual.hpp Kinetics.hpp TMKinetics.hpp PressureGradientProjectionResidual.hpp VectorFunctionVMS.hpp StabilizedElastostaticEnergy.hpp",
  [("mixed residual", "StabilizedElastostaticResidual.hpp"), ("thermal variant", "StabilizedThermoelastostaticResidual.hpp"), ("projection", "PressureGradientProjectionResidual.hpp"), ("assembly and derivatives", "VectorFunctionVMS.hpp"), ("energy", "StabilizedElastostaticEnergy.hpp")],
  "Meshes of up to a few dozen cells on a stand-in for the mesh library (shim/); isotropic elasticity, one thermal expansion per material; the shape derivative with body loads is left to P19.", "property-based testing against independent element formulas and difference quotients"),
]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
        for x in p["files"]: assert os.path.exists("/repo/" + x), x
m = {"version": 1, "setup_cmd": "./run.py --build-all",
     "checks": [{"property": p["id"], "quick_cmd": "./run.py %s --tier quick" % p["id"], "thorough_cmd": "./run.py %s --tier thorough" % p["id"], "technique": p["tech"], "level": "exploration",
                 "level_note": p["note"] + " No violation among the generated cases; not a proof. Trusts the compiler, Kokkos, Sacado and Teuchos.", "evidence_file": "evidence/%s.json" % p["id"]} for p in L],
     "not_applicable": [], "notes": "Every check is choice-sequence property-based testing with integrated shrinking (harness/pbt.hpp); see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(L), "properties")
