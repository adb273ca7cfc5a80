#include "p29.hpp"
PBT("mixed_mech_2d", 3, "more than one element") { hm::vresidual<Plato::StabilizedMechanics<2>>(s); }
PBT("mixed_mech_3d", 2, "more than one element") { hm::vresidual<Plato::StabilizedMechanics<3>>(s); }
PBT("projected_gradient_2d", 2, "more than one element") { hm::vprojection<Plato::StabilizedMechanics<2>>(s); }
PBT("projected_gradient_3d", 1, "more than one element") { hm::vprojection<Plato::StabilizedMechanics<3>>(s); }
PBT("mixed_energy_2d", 2, "more than one element, energy not zero") { hm::venergy<Plato::StabilizedMechanics<2>>(s); }
PBT("mixed_energy_3d", 1, "more than one element, energy not zero") { hm::venergy<Plato::StabilizedMechanics<3>>(s); }
