#include "p25.hpp"
#include "Thermal.hpp"
template class Plato::Elliptic::Problem<Plato::Thermal<2>>;
PBT("therm_2d", 2, "more than one element") { hm::steadyOutputs<Plato::Thermal<2>>(s, hm::THERM); }
PBT("therm_3d", 2, "more than one element") { hm::steadyOutputs<Plato::Thermal<3>>(s, hm::THERM); }
PBT("therm_history_2d", 1, "more than one element, solution not zero") { hm::steadyHistory<Plato::Thermal<2>>(s, hm::THERM); }
