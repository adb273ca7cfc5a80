#include "p20.hpp"
#include "Mechanics.hpp"
PBT("mech_2d", 2, "more than one element, criterion not zero") { hm::criteria<Plato::Mechanics<2>>(s, hm::MECH); }
PBT("mech_3d", 1, "more than one element, criterion not zero") { hm::criteria<Plato::Mechanics<3>>(s, hm::MECH); }
