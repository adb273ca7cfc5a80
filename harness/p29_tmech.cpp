#include "p29.hpp"
PBT("mixed_tmech_2d", 2, "more than one element") { hm::vresidual<Plato::StabilizedThermomechanics<2>>(s); }
PBT("mixed_tmech_3d", 2, "more than one element") { hm::vresidual<Plato::StabilizedThermomechanics<3>>(s); }
