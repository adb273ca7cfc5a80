#include "p19.hpp"
#include "Thermal.hpp"
PBT("therm_2d", 2, "more than one element") { hm::jacobians<Plato::Thermal<2>>(s, hm::THERM); }
PBT("therm_3d", 1, "more than one element") { hm::jacobians<Plato::Thermal<3>>(s, hm::THERM); }
