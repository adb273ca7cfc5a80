#include "p20.hpp"
#include "Electromechanics.hpp"
PBT("emech_2d", 2, "more than one element, criterion not zero") { hm::criteria<Plato::Electromechanics<2>>(s, hm::EMECH); }
PBT("emech_3d", 1, "more than one element, criterion not zero") { hm::criteria<Plato::Electromechanics<3>>(s, hm::EMECH); }
