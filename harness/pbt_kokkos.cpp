#include <Kokkos_Core.hpp>
void pbt_init(int&, char**&) { Kokkos::initialize(); }
void pbt_fini() { Kokkos::finalize(); }
