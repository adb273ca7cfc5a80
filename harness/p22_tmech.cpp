#include "p22.hpp"
#include "Thermomechanics.hpp"
template class Plato::Elliptic::Problem<Plato::Thermomechanics<2>>;
template class Plato::Elliptic::Problem<Plato::Thermomechanics<3>>;
PBT("tmech_2d", 2, "more than one element, solution not zero") { hm::problem<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_3d", 1, "more than one element, solution not zero") { hm::problem<Plato::Thermomechanics<3>>(s, hm::TMECH); }
