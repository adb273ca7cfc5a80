#include "p27.hpp"
PBT("tplast_balance_2d", 2, "more than one element") { hm::plasticBalance<Plato::InfinitesimalStrainThermoPlasticity<2>>(s); }
PBT("tplast_global_2d", 2, "more than one element") { hm::plasticDerivatives<Plato::InfinitesimalStrainThermoPlasticity<2>>(s, false); }
PBT("tplast_local_2d", 2, "more than one element") { hm::plasticDerivatives<Plato::InfinitesimalStrainThermoPlasticity<2>>(s, true); }
PBT("tplast_return_2d", 3, "some cell yields") { hm::returnMapping<Plato::InfinitesimalStrainThermoPlasticity<2>>(s); }
PBT("tplast_work_2d", 2, "more than one element") { hm::workCriteria<Plato::InfinitesimalStrainThermoPlasticity<2>>(s); }
PBT("tplast_balance_3d", 2, "more than one element") { hm::plasticBalance<Plato::InfinitesimalStrainThermoPlasticity<3>>(s); }
PBT("tplast_global_3d", 2, "more than one element") { hm::plasticDerivatives<Plato::InfinitesimalStrainThermoPlasticity<3>>(s, false); }
PBT("tplast_local_3d", 2, "more than one element") { hm::plasticDerivatives<Plato::InfinitesimalStrainThermoPlasticity<3>>(s, true); }
PBT("tplast_return_3d", 3, "some cell yields") { hm::returnMapping<Plato::InfinitesimalStrainThermoPlasticity<3>>(s); }
PBT("tplast_work_3d", 2, "more than one element") { hm::workCriteria<Plato::InfinitesimalStrainThermoPlasticity<3>>(s); }
