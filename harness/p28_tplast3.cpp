#include "p28.hpp"
template class Plato::PlasticityProblem<Plato::InfinitesimalStrainThermoPlasticity<3>>;
template class Plato::NewtonRaphsonSolver<Plato::InfinitesimalStrainThermoPlasticity<3>>;
template class Plato::PathDependentAdjointSolver<Plato::InfinitesimalStrainThermoPlasticity<3>>;
PBT("tplast_steps_3d", 3, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainThermoPlasticity<3>>(s, 0); }
PBT("tplast_control_3d", 3, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainThermoPlasticity<3>>(s, 1); }
PBT("tplast_coordinates_3d", 2, "some cell yields") { hm::plasticProblem<Plato::InfinitesimalStrainThermoPlasticity<3>>(s, 2); }
