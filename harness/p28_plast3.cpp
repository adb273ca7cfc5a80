#include "p28.hpp"
template class Plato::PlasticityProblem<Plato::InfinitesimalStrainPlasticity<3>>;
template class Plato::NewtonRaphsonSolver<Plato::InfinitesimalStrainPlasticity<3>>;
template class Plato::PathDependentAdjointSolver<Plato::InfinitesimalStrainPlasticity<3>>;
PBT("plast_steps_3d", 3, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainPlasticity<3>>(s, 0); }
PBT("plast_control_3d", 3, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainPlasticity<3>>(s, 1); }
PBT("plast_coordinates_3d", 2, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainPlasticity<3>>(s, 2); }
