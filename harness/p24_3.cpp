#include "p24.hpp"
template class Plato::HyperbolicProblem<Plato::Hyperbolic::Mechanics<3>>;
PBT("dynamic_residual_3d", 2, "more than one element") { hm::dynamicResidual<3>(s); }
PBT("dynamic_problem_3d", 2, "more than one element, more than one step, solution not zero") { hm::dynamicProblem<3>(s); }
