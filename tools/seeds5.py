# planted bugs for growth in natural orbitals and CAS-CI (see mkseed.py)
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds2 import P, HAM, IM
LB = '-llapackpp -lblaspp -lopenblas -llapack -lgomp'
STAND = '''#include <macis/solvers/selected_ci_diag.hpp>
#include <functional>
static std::function<double(std::vector<std::bitset<64>>, macis::HamiltonianGenerator<64>&, std::vector<double>&, MPI_Comm)> DIAG;
namespace macis { template <> double selected_ci_diag<64, int32_t>(wavefunction_iterator_t<64> b, wavefunction_iterator_t<64> e, HamiltonianGenerator<64>& H, double, size_t, double, std::vector<double>& X, MPI_Comm comm, const bool) { return DIAG({b, e}, H, X, comm); } }
#include <macis/asci/grow.hpp>'''
G = HAM.replace('#include <macis/asci/grow.hpp>', STAND)
ROT = '''static std::vector<double> part(size_t n, MPI_Comm c, int k) { int r, p; MPI_Comm_rank(c, &r); MPI_Comm_size(c, &p); size_t lc = n / p, lo = r * lc, hi = r + 1 == p ? n : lo + lc; std::vector<double> x; for (size_t i = lo; i < hi; ++i) x.push_back(1. / (1 + (3 * i + k) % 7)); return x; }
'''
SEEDS = [
dict(id='p48_intermediates_on_root', prop='P48', needs='natural-orbital growth on two or more ranks', what='only the root rank regenerates the integral intermediates after the rotation',
 edits=[(IM + 'asci/grow.hpp', '      ham_gen.generate_integral_intermediates(ham_gen.V_pqrs_);', '      if(!world_rank) ham_gen.generate_integral_intermediates(ham_gen.V_pqrs_);')], np=2, src=['src/macis/transform.cxx'], libs=LB,
 demo=G + ROT + '''static int bad = 0, calls = 0;
int main(int c, char** v) { MPI_Init(&c, &v); DIAG = [](auto w, auto& H, auto& X, MPI_Comm cm) { double s = 0, lo, hi; for (auto& x : w) for (auto& y : w) s += std::abs(H.matrix_element(x, y)); MPI_Allreduce(&s, &lo, 1, MPI_DOUBLE, MPI_MIN, cm); MPI_Allreduce(&s, &hi, 1, MPI_DOUBLE, MPI_MAX, cm); if (hi - lo > 1e-8) bad = 1; X = part(w.size(), cm, calls); return -50. - calls++; };
 Sys S(4); ASCISettings st; st.h_el_tol = 0; st.ntdets_min = 4; st.ntdets_max = 8; st.grow_factor = 2; st.grow_with_rot = true; st.rot_size_start = 1; MCSCFSettings ms; std::vector<B> w{det(0b0011, 0b0001)}; asci_grow<64>(st, ms, -50., w, std::vector<double>{1.}, *S.g, 4, MPI_COMM_WORLD); MPI_Finalize(); return bad || calls != 4; }
'''),
dict(id='p48_rotation_threshold', prop='P48', needs='natural-orbital growth whose last step reaches exactly the requested start size', what='the rotation is skipped when the wavefunction has exactly the size from which rotations were requested',
 edits=[(IM + 'asci/grow.hpp', 'wfn.size() >= asci_settings.rot_size_start', 'wfn.size() > asci_settings.rot_size_start')], src=['src/macis/transform.cxx'], libs=LB,
 demo=G + ROT + '''static int calls = 0;
int main(int c, char** v) { MPI_Init(&c, &v); DIAG = [](auto w, auto& H, auto& X, MPI_Comm cm) { X = part(w.size(), cm, calls); return -50. - calls++; };
 Sys S(4); ASCISettings st; st.h_el_tol = 0; st.ntdets_min = 4; st.ntdets_max = 8; st.grow_factor = 2; st.grow_with_rot = true; st.rot_size_start = 8; MCSCFSettings ms; std::vector<B> w{det(0b0011, 0b0001)}; asci_grow<64>(st, ms, -50., w, std::vector<double>{1.}, *S.g, 4, MPI_COMM_WORLD); MPI_Finalize(); return calls != 3; }
'''),
dict(id='p45_sector_swapped', prop='P45', needs='different numbers of alpha and beta electrons', what='the complete active space is built for the spin-flipped sector',
 edits=[(IM + 'util/cas.hpp', 'auto dets = generate_hilbert_space<nbits>(norb.get(), nalpha, nbeta);', 'auto dets = generate_hilbert_space<nbits>(norb.get(), nbeta, nalpha);')], libs=LB,
 demo=G + '''#include <macis/util/cas.hpp>
int main(int c, char** v) { MPI_Init(&c, &v); int bad = 0; DIAG = [&](auto w, auto& H, auto& X, MPI_Comm) { for (auto& d : w) if (__builtin_popcountll(d.to_ullong() & 0xffffffff) != 2 || __builtin_popcountll(d.to_ullong() >> 32) != 1) bad = 1; X.assign(w.size(), 0.); X[0] = 1; return -1.; };
 Sys S(3); std::vector<double> A(9), D(81), C; compute_casci_rdms<DoubleLoopHamiltonianGenerator<64>>(MCSCFSettings(), NumOrbital(3), 2, 1, S.T.data(), S.V.data(), A.data(), D.data(), C, MPI_COMM_WORLD); MPI_Finalize(); return bad; }
'''),
]
