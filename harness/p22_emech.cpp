#include "p22.hpp"
#include "Electromechanics.hpp"
template class Plato::Elliptic::Problem<Plato::Electromechanics<2>>;
template class Plato::Elliptic::Problem<Plato::Electromechanics<3>>;
PBT("emech_2d", 2, "more than one element, solution not zero") { hm::problem<Plato::Electromechanics<2>>(s, hm::EMECH); }
PBT("emech_3d", 1, "more than one element, solution not zero") { hm::problem<Plato::Electromechanics<3>>(s, hm::EMECH); }
