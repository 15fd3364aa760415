// nothing: without -fopenmp the sources define their own single-threaded stand-ins of the few functions they call
#pragma once
