"""What each check runs: translation units (harness + real sources) and, per property, the harness entries with their bounds."""
REPO_INC = ['include', '_build/include', 'src/sparsexx/include', '_build/src/sparsexx/include', 'src/lobpcgxx/include']
UNITS, PROPS, NA = {}, {}, {}
ASSUMPTIONS = [
 'double arithmetic is real-number arithmetic: rounding, overflow to infinity and NaN are outside the encoding',
 'paths on which the code divides by an exactly zero real are excluded and counted',
 'heap allocation succeeds and follows the C++ memory model; out-of-bounds, use-after-free and invalid frees are reported as violations',
 'the code is compiled by clang 18 -O2 -DNDEBUG with vectorisation, unrolling and FP contraction off; this IR is what is executed symbolically',
]
IO = 'iostreams and files are an in-memory model: numbers written with at least 17 significant digits read back exactly, fewer digits read back with a symbolic relative rounding; counterexamples are replayed with the real iostreams'
MPI = 'MPI is a model with in-order point-to-point matching, blocking or buffered sends chosen nondeterministically, and collectives that must be entered by all ranks with matching arguments; ranks interleave at communication points'
LA = 'BLAS/LAPACK calls are replaced by reference loops with the documented semantics'
SPAN = 'std::mdspan is replaced by a column-major span with exact index checks'
SPD = 'spdlog is replaced by a no-op logger'
LEVEL = 'model_checking'
TECH = 'symbolic execution of LLVM IR compiled from the current sources, SMT (Z3) decides each assertion for all inputs within the stated bounds; counterexamples replayed natively'

def unit(name, *src, **kw):
    UNITS[name] = dict(src=list(src), **kw)
def E(unit, fns, bounds='', **kw):
    return [dict(unit=unit, fn=f, bounds=bounds, **kw) for f in fns.split()]
def prop(pid, title, statement, text, why, files, mech, entries, over=('inputs',), assumptions=(), note='', par=3):
    PROPS[pid] = dict(title=title, statement=statement, over=list(over), qtext=text, why=why, files=files.split(), mech=mech, entries=entries, assumptions=list(assumptions), note=note, par=par)
def na(pid, title, statement, text, why, files, mech, reason, over=('inputs',)):
    NA[pid] = dict(title=title, statement=statement, over=list(over), qtext=text, why=why, files=files.split(), mech=mech, reason=reason)

from properties import *  # noqa
