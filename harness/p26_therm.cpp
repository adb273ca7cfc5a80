#include "p26.hpp"
#include "Thermal.hpp"
PBT("therm_loads_2d", 3, "more than one element and a load that is not nothing") { hm::loadsValue<Plato::Thermal<2>>(s, hm::THERM); }
PBT("therm_faulty_2d", 1, "always") { hm::loadsFaulty<Plato::Thermal<2>>(s, hm::THERM); }
PBT("therm_numbering_2d", 2, "more than one element") { hm::numbering<Plato::Thermal<2>>(s, hm::THERM); }
PBT("therm_balance_2d", 2, "more than one element") { hm::balance<Plato::Thermal<2>>(s, hm::THERM); }
PBT("therm_frame_2d", 2, "more than one element") { hm::frame<Plato::Thermal<2>>(s, hm::THERM); }
PBT("therm_loads_3d", 3, "more than one element and a load that is not nothing") { hm::loadsValue<Plato::Thermal<3>>(s, hm::THERM); }
PBT("therm_faulty_3d", 1, "always") { hm::loadsFaulty<Plato::Thermal<3>>(s, hm::THERM); }
PBT("therm_numbering_3d", 2, "more than one element") { hm::numbering<Plato::Thermal<3>>(s, hm::THERM); }
PBT("therm_balance_3d", 2, "more than one element") { hm::balance<Plato::Thermal<3>>(s, hm::THERM); }
PBT("therm_frame_3d", 2, "more than one element") { hm::frame<Plato::Thermal<3>>(s, hm::THERM); }
