#include "p20.hpp"
#include "Thermomechanics.hpp"
PBT("tmech_2d", 2, "more than one element, criterion not zero") { hm::criteria<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_3d", 1, "more than one element, criterion not zero") { hm::criteria<Plato::Thermomechanics<3>>(s, hm::TMECH); }
