#include <mpi.h>
#include <Kokkos_Core.hpp>
void pbt_init(int& c, char**& v) { MPI_Init(&c, &v); Kokkos::initialize(); }
void pbt_fini() { Kokkos::finalize(); MPI_Finalize(); }
