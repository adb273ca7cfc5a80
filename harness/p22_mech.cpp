#include "p22.hpp"
#include "Mechanics.hpp"
template class Plato::Elliptic::Problem<Plato::Mechanics<2>>;
template class Plato::Elliptic::Problem<Plato::Mechanics<3>>;
PBT("mech_2d", 2, "more than one element, solution not zero") { hm::problem<Plato::Mechanics<2>>(s, hm::MECH); }
PBT("mech_3d", 1, "more than one element, solution not zero") { hm::problem<Plato::Mechanics<3>>(s, hm::MECH); }
