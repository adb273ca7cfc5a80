#include "p28.hpp"
template class Plato::PlasticityProblem<Plato::InfinitesimalStrainThermoPlasticity<2>>;
template class Plato::NewtonRaphsonSolver<Plato::InfinitesimalStrainThermoPlasticity<2>>;
template class Plato::PathDependentAdjointSolver<Plato::InfinitesimalStrainThermoPlasticity<2>>;
PBT("tplast_steps_2d", 3, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainThermoPlasticity<2>>(s, 0); }
PBT("tplast_control_2d", 3, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainThermoPlasticity<2>>(s, 1); }
PBT("tplast_coordinates_2d", 2, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainThermoPlasticity<2>>(s, 2); }
