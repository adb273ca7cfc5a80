#include "p22.hpp"
#include "Thermal.hpp"
template class Plato::Elliptic::Problem<Plato::Thermal<2>>;
template class Plato::Elliptic::Problem<Plato::Thermal<3>>;
PBT("therm_2d", 2, "more than one element, solution not zero") { hm::problem<Plato::Thermal<2>>(s, hm::THERM); }
PBT("therm_3d", 1, "more than one element, solution not zero") { hm::problem<Plato::Thermal<3>>(s, hm::THERM); }
