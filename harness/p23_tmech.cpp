#include "p23.hpp"
#include "Thermomechanics.hpp"
template class Plato::Parabolic::Problem<Plato::Thermomechanics<2>>;
template class Plato::Parabolic::Problem<Plato::Thermomechanics<3>>;
PBT("tmech_residual_2d", 1, "more than one element") { hm::transientResidual<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_residual_3d", 1, "more than one element") { hm::transientResidual<Plato::Thermomechanics<3>>(s, hm::TMECH); }
PBT("tmech_problem_2d", 3, "more than one element, more than one step, solution not zero") { hm::transientProblem<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_problem_3d", 1, "more than one element, more than one step, solution not zero") { hm::transientProblem<Plato::Thermomechanics<3>>(s, hm::TMECH); }
