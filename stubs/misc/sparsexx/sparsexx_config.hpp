// stands in for the header CMake generates from sparsexx_config.hpp.in in the MPI-enabled build
#pragma once
#define SPARSEXX_ENABLE_MPI
