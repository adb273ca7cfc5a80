#include "p26.hpp"
#include "Thermomechanics.hpp"
PBT("tmech_loads_2d", 3, "more than one element and a load that is not nothing") { hm::loadsValue<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_faulty_2d", 1, "always") { hm::loadsFaulty<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_numbering_2d", 2, "more than one element") { hm::numbering<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_balance_2d", 2, "more than one element") { hm::balance<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_frame_2d", 2, "more than one element") { hm::frame<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_loads_3d", 3, "more than one element and a load that is not nothing") { hm::loadsValue<Plato::Thermomechanics<3>>(s, hm::TMECH); }
PBT("tmech_faulty_3d", 1, "always") { hm::loadsFaulty<Plato::Thermomechanics<3>>(s, hm::TMECH); }
PBT("tmech_numbering_3d", 2, "more than one element") { hm::numbering<Plato::Thermomechanics<3>>(s, hm::TMECH); }
PBT("tmech_balance_3d", 2, "more than one element") { hm::balance<Plato::Thermomechanics<3>>(s, hm::TMECH); }
PBT("tmech_frame_3d", 2, "more than one element") { hm::frame<Plato::Thermomechanics<3>>(s, hm::TMECH); }
