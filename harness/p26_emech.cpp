#include "p26.hpp"
#include "Electromechanics.hpp"
PBT("emech_loads_2d", 3, "more than one element and a load that is not nothing") { hm::loadsValue<Plato::Electromechanics<2>>(s, hm::EMECH); }
PBT("emech_faulty_2d", 1, "always") { hm::loadsFaulty<Plato::Electromechanics<2>>(s, hm::EMECH); }
PBT("emech_numbering_2d", 2, "more than one element") { hm::numbering<Plato::Electromechanics<2>>(s, hm::EMECH); }
PBT("emech_balance_2d", 2, "more than one element") { hm::balance<Plato::Electromechanics<2>>(s, hm::EMECH); }
PBT("emech_frame_2d", 2, "more than one element") { hm::frame<Plato::Electromechanics<2>>(s, hm::EMECH); }
PBT("emech_loads_3d", 3, "more than one element and a load that is not nothing") { hm::loadsValue<Plato::Electromechanics<3>>(s, hm::EMECH); }
PBT("emech_faulty_3d", 1, "always") { hm::loadsFaulty<Plato::Electromechanics<3>>(s, hm::EMECH); }
PBT("emech_numbering_3d", 2, "more than one element") { hm::numbering<Plato::Electromechanics<3>>(s, hm::EMECH); }
PBT("emech_balance_3d", 2, "more than one element") { hm::balance<Plato::Electromechanics<3>>(s, hm::EMECH); }
PBT("emech_frame_3d", 2, "more than one element") { hm::frame<Plato::Electromechanics<3>>(s, hm::EMECH); }
