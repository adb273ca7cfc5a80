#include "p19.hpp"
#include "Thermomechanics.hpp"
PBT("tmech_2d", 2, "more than one element") { hm::jacobians<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_3d", 1, "more than one element") { hm::jacobians<Plato::Thermomechanics<3>>(s, hm::TMECH); }
