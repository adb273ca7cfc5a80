#include "p25.hpp"
#include "Electromechanics.hpp"
template class Plato::Elliptic::Problem<Plato::Electromechanics<2>>;
PBT("emech_2d", 2, "more than one element") { hm::steadyOutputs<Plato::Electromechanics<2>>(s, hm::EMECH); }
PBT("emech_3d", 2, "more than one element") { hm::steadyOutputs<Plato::Electromechanics<3>>(s, hm::EMECH); }
PBT("emech_history_2d", 1, "more than one element, solution not zero") { hm::steadyHistory<Plato::Electromechanics<2>>(s, hm::EMECH); }
