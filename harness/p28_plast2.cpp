#include "p28.hpp"
template class Plato::PlasticityProblem<Plato::InfinitesimalStrainPlasticity<2>>;
template class Plato::NewtonRaphsonSolver<Plato::InfinitesimalStrainPlasticity<2>>;
template class Plato::PathDependentAdjointSolver<Plato::InfinitesimalStrainPlasticity<2>>;
PBT("plast_steps_2d", 3, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainPlasticity<2>>(s, 0); }
PBT("plast_control_2d", 3, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainPlasticity<2>>(s, 1); }
PBT("plast_coordinates_2d", 2, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainPlasticity<2>>(s, 2); }
