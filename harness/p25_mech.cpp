#include "p25.hpp"
template class Plato::Elliptic::Problem<Plato::Mechanics<2>>;
template class Plato::Elliptic::Problem<Plato::Mechanics<3>>;
PBT("mech_2d", 2, "more than one element") { hm::steadyOutputs<Plato::Mechanics<2>>(s, hm::MECH); }
PBT("mech_3d", 2, "more than one element") { hm::steadyOutputs<Plato::Mechanics<3>>(s, hm::MECH); }
PBT("mech_history_2d", 1, "more than one element, solution not zero") { hm::steadyHistory<Plato::Mechanics<2>>(s, hm::MECH); }
PBT("mech_history_3d", 1, "more than one element, solution not zero") { hm::steadyHistory<Plato::Mechanics<3>>(s, hm::MECH); }
PBT("dynamic_2d", 2, "more than one element") { hm::dynamicOutputs<2>(s); }
PBT("dynamic_3d", 2, "more than one element") { hm::dynamicOutputs<3>(s); }
PBT("dynamic_history_2d", 1, "more than one element and step") { hm::dynamicHistory<2>(s); }
PBT("dynamic_history_3d", 1, "more than one element and step") { hm::dynamicHistory<3>(s); }
