// stands in for the header CMake generates from macis_config.hpp.in in the MPI-enabled build
#pragma once
#define MACIS_ENABLE_MPI
