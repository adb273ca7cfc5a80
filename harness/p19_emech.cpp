#include "p19.hpp"
#include "Electromechanics.hpp"
PBT("emech_2d", 2, "more than one element") { hm::jacobians<Plato::Electromechanics<2>>(s, hm::EMECH); }
PBT("emech_3d", 1, "more than one element") { hm::jacobians<Plato::Electromechanics<3>>(s, hm::EMECH); }
