#include "p23.hpp"
#include "Thermal.hpp"
template class Plato::Parabolic::Problem<Plato::Thermal<2>>;
template class Plato::Parabolic::Problem<Plato::Thermal<3>>;
PBT("therm_residual_2d", 1, "more than one element") { hm::transientResidual<Plato::Thermal<2>>(s, hm::THERM); }
PBT("therm_residual_3d", 1, "more than one element") { hm::transientResidual<Plato::Thermal<3>>(s, hm::THERM); }
PBT("therm_problem_2d", 3, "more than one element, more than one step, solution not zero") { hm::transientProblem<Plato::Thermal<2>>(s, hm::THERM); }
PBT("therm_problem_3d", 1, "more than one element, more than one step, solution not zero") { hm::transientProblem<Plato::Thermal<3>>(s, hm::THERM); }
