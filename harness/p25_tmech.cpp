#include "p25.hpp"
#include "Thermomechanics.hpp"
template class Plato::Elliptic::Problem<Plato::Thermomechanics<2>>;
template class Plato::Parabolic::Problem<Plato::Thermomechanics<2>>;
PBT("tmech_2d", 2, "more than one element") { hm::steadyOutputs<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("tmech_3d", 2, "more than one element") { hm::steadyOutputs<Plato::Thermomechanics<3>>(s, hm::TMECH); }
PBT("tmech_history_2d", 1, "more than one element, solution not zero") { hm::steadyHistory<Plato::Thermomechanics<2>>(s, hm::TMECH); }
PBT("transient_2d", 2, "more than one element") { hm::transientOutputs<Plato::Thermomechanics<2>>(s); }
PBT("transient_3d", 2, "more than one element") { hm::transientOutputs<Plato::Thermomechanics<3>>(s); }
PBT("transient_history_2d", 2, "more than one element and step") { hm::transientHistory<Plato::Thermomechanics<2>>(s); }
