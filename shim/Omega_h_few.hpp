#include "Omega_h_shim.hpp"
