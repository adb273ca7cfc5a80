#include "p27.hpp"
PBT("plast_balance_2d", 2, "more than one element") { hm::plasticBalance<Plato::InfinitesimalStrainPlasticity<2>>(s); }
PBT("plast_global_2d", 2, "more than one element") { hm::plasticDerivatives<Plato::InfinitesimalStrainPlasticity<2>>(s, false); }
PBT("plast_local_2d", 2, "more than one element") { hm::plasticDerivatives<Plato::InfinitesimalStrainPlasticity<2>>(s, true); }
PBT("plast_return_2d", 3, "some cell yields") { hm::returnMapping<Plato::InfinitesimalStrainPlasticity<2>>(s); }
PBT("plast_work_2d", 2, "more than one element") { hm::workCriteria<Plato::InfinitesimalStrainPlasticity<2>>(s); }
PBT("plast_balance_3d", 2, "more than one element") { hm::plasticBalance<Plato::InfinitesimalStrainPlasticity<3>>(s); }
PBT("plast_global_3d", 2, "more than one element") { hm::plasticDerivatives<Plato::InfinitesimalStrainPlasticity<3>>(s, false); }
PBT("plast_local_3d", 2, "more than one element") { hm::plasticDerivatives<Plato::InfinitesimalStrainPlasticity<3>>(s, true); }
PBT("plast_return_3d", 3, "some cell yields") { hm::returnMapping<Plato::InfinitesimalStrainPlasticity<3>>(s); }
PBT("plast_work_3d", 2, "more than one element") { hm::workCriteria<Plato::InfinitesimalStrainPlasticity<3>>(s); }
