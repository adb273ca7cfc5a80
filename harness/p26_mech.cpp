#include "p26.hpp"
#include "Mechanics.hpp"
PBT("mech_loads_2d", 3, "more than one element and a load that is not nothing") { hm::loadsValue<Plato::Mechanics<2>>(s, hm::MECH); }
PBT("mech_faulty_2d", 1, "always") { hm::loadsFaulty<Plato::Mechanics<2>>(s, hm::MECH); }
PBT("mech_numbering_2d", 2, "more than one element") { hm::numbering<Plato::Mechanics<2>>(s, hm::MECH); }
PBT("mech_balance_2d", 2, "more than one element") { hm::balance<Plato::Mechanics<2>>(s, hm::MECH); }
PBT("mech_frame_2d", 2, "more than one element") { hm::frame<Plato::Mechanics<2>>(s, hm::MECH); }
PBT("mech_loads_3d", 3, "more than one element and a load that is not nothing") { hm::loadsValue<Plato::Mechanics<3>>(s, hm::MECH); }
PBT("mech_faulty_3d", 1, "always") { hm::loadsFaulty<Plato::Mechanics<3>>(s, hm::MECH); }
PBT("mech_numbering_3d", 2, "more than one element") { hm::numbering<Plato::Mechanics<3>>(s, hm::MECH); }
PBT("mech_balance_3d", 2, "more than one element") { hm::balance<Plato::Mechanics<3>>(s, hm::MECH); }
PBT("mech_frame_3d", 2, "more than one element") { hm::frame<Plato::Mechanics<3>>(s, hm::MECH); }
