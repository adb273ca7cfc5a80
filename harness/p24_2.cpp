#include "p24.hpp"
template class Plato::HyperbolicProblem<Plato::Hyperbolic::Mechanics<2>>;
PBT("dynamic_residual_2d", 2, "more than one element") { hm::dynamicResidual<2>(s); }
PBT("dynamic_problem_2d", 3, "more than one element, more than one step, solution not zero") { hm::dynamicProblem<2>(s); }
