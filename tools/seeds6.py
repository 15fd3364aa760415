# planted bugs for the legacy Green's functions (see mkseed.py)
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds2 import P
G = 'attic/inc/dbwy/gf.h++'
PRE = P + '''#include <algorithm>
#include <cmath>
#include <complex>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <mpi.h>
#include "cmz_ed/ed.h++"
#include "cmz_ed/bandlan.h++"
#include "dbwy/gf.h++"
using namespace cmz::ed; typedef std::bitset<64> BS;
static BS bs(unsigned a, unsigned b) { return BS(a) | BS(b) << 32; }
'''
def gf(**k): return dict(dict(prop='P49', std='c++20', flags='-I"$r/attic/inc" -I/usr/include/eigen3', libs='-llapackpp -lblaspp -lopenblas -llapack -lgomp', mdspan=True, nospdlog=True, src=['attic/src/cmz_ed/utils.c++', 'attic/src/cmz_ed/eigsolver.c++', 'attic/src/cmz_ed/bandlan.c++', 'attic/src/dbwy/gf.c++']), **k)
SEEDS = [
gf(id='p49_third_vanishing', needs='three orbitals whose start vectors vanish', what='only the first removed start vector is accounted for when later ones are removed',
 edits=[(G, 'wfns.begin() + todelete[i] - i);', 'wfns.begin() + todelete[i] - std::min(i, 1));')],
 demo=PRE + '''int main() { VectorXd w(1); w(0) = 1; VecInt del; std::vector<BS> D{bs(7, 0)}, F{bs(15, 0), bs(7, 1), bs(7, 2)}; auto V = BuildWfn4Lanczos<64>(w, {0, 1, 2, 3, 0, 1}, {true, true, true, true, false, false}, D, F, true, del); if (V.size() != 3 || del.size() != 3) return 1; for (auto& v : V) { double s = 0; for (double x : v) s += x * x; if (s < 0.5) return 1; } return 0; }
'''),
gf(id='p49_negative_seed', needs='an important determinant with a negative coefficient', what='determinants with negative amplitudes are never expanded into single excitations',
 edits=[(G, 'if(abs(b(iii)) < GFseedThreshold) continue;', 'if(b(iii) < GFseedThreshold) continue;')],
 demo=PRE + '''int main() { std::vector<BS> D{bs(1, 1)}, a, b; Input_t in; addParam(in, "norbs", "3"); addParam(in, "trunc_size", "100"); addParam(in, "tot_SD", "1"); addParam(in, "GFseedThresh", "0.5"); addParam(in, "asThresh", "0.1"); VectorXd w(1); w(0) = 1; VecD occ(3, 0.5); get_GF_basis_AS_1El<64>(1, true, true, w, D, a, occ, in); w(0) = -1; get_GF_basis_AS_1El<64>(1, true, true, w, D, b, occ, in); return a.size() != b.size() || a.size() < 4; }
'''),
gf(id='p49_lowest_down', needs='a spin-down operator on the first orbital and an odd number of spin-up electrons', what='the operator of the lowest spin-down orbital forgets the spin-up electrons in front of it',
 edits=[(G, 'std::bitset<nbits> mask = dbwy::full_mask<nbits>( orb + nbits/2 );', 'std::bitset<nbits> mask = dbwy::full_mask<nbits>( orb ? orb + nbits/2 : 0 );')],
 demo=PRE + '''int main() { return GetInsertionDoSign<64>(bs(1, 2), 0) != -1. || GetInsertionDoSign<64>(bs(1, 3), 2) != -1.; }
'''),
]
