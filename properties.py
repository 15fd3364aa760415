from registry import unit, E, prop, na, IO, MPI, LA, SPAN, SPD

unit('bits', 'harness/bits.cpp')
prop('P01', 'Determinant bitset primitives agree with their mathematical definition',
 'For every bitset of the widths used for determinants, the first/last-set-bit, index-list, word-split, widening/narrowing, mask and ordering primitives return exactly what their documentation defines. Ordering is the numeric order of the bitset read as an unsigned integer.',
 'all bit patterns of widths 20..256 (last-set-bit and first-set-bit for nonzero patterns)',
 'No test in the repository exercises the bitset primitives; any sampling covers a vanishing fraction of 2^64..2^256 patterns and width-specific word-boundary branches.',
 'include/macis/bitset_operations.hpp', [dict(name='width-specialised scans and word reinterpretation', where='include/macis/bitset_operations.hpp: ffs, fls, bits_to_indices, truncate_bitset, expand_bitset, bitset_less')],
 E('bits', 'bits_fls_int bits_ffs20 bits_ffs32 bits_ffs48 bits_ffs64 bits_ffs128 bits_conv32 bits_conv64 bits_conv128 bits_rs_32_64 bits_rs_64_128 bits_rs_32_128 bits_rs_64_256 bits_rs_16_64 bits_less32 bits_less64 bits_less128 bits_mask32 bits_mask64 bits_mask128 bits_mask256', 'all bit patterns of the width')
 + E('bits', 'bits_ffs256 bits_less256', 'all patterns of 256 bits, case-split on the deciding position')
 + E('bits', 'bits_rs_128_256', 'three adjacent symbolic bits at every aligned position of 128/256 bits, all other bits zero or all one')
 + E('bits', 'bits_idx32 bits_idx64 bits_idx128', 'all patterns with at most 5/4/2 set bits') + E('bits', 'bits_idx256', 'one set bit anywhere'), assumptions=[SPAN])

unit('sd', 'harness/sd.cpp')
SDF = 'include/macis/sd_operations.hpp'
prop('P02', 'Excitation generators produce exactly the excited determinants',
 'From any determinant the single/double excitation generators (spin-orbital, spin-resolved and active-list variants) produce every allowed excited determinant exactly once and nothing else: electron number (and each spin count) is conserved, exactly one or two electrons move, and only orbitals of the stated space or active list change. The occupied/virtual lists they are built from partition the orbital space in ascending order.',
 'all occupation patterns of up to 4-7 orbitals (each spin), all active lists, determinant widths 32/64/128',
 'The generators are marked "TODO: Test this function" and have no test; a missing, duplicated or spin-breaking excitation only shows for particular occupations.',
 SDF, [dict(name='occupied/virtual lists and nested excitation loops', where=SDF + ': bitset_to_occ_vir, append_singles, append_doubles, generate_singles_doubles_spin, *_as')],
 E('sd', 'sd_occ32 sd_occ64 sd_occ128', 'all occupations of 7/7/6 orbitals') + E('sd', 'sd_sd32 sd_sd64 sd_sd128', 'all occupations of 5/5/4 orbitals') + E('sd', 'sd_as64', '4 orbitals, every active list') + E('sd', 'sd_spin64 sd_spin128', 'all alpha and beta occupations of 4/3 orbitals') + E('sd', 'sd_spin_as64', '3 orbitals per spin, every active list'), assumptions=[SPAN], par=4)
prop('P03', 'Excitation signs are the fermionic permutation signs',
 'For any determinant pair related by a single or double excitation, the reported sign equals the sign obtained by applying the creation and annihilation operators in the fixed orbital order, and the reported occupied and virtual indices identify the excitation. The sign is the same when bra and ket are exchanged.',
 'all occupations of the ket and all excitation positions (pairs of positions for singles; quadruples around word boundaries for doubles)',
 'Signs depend on the parity of the occupation between the flipped orbitals, which no test exercises; a wrong mask boundary shows only for particular occupations.',
 SDF, [dict(name='masked popcount parity', where=SDF + ': single_excitation_sign, single_excitation_sign_indices, doubles_sign_indices, doubles_sign')],
 E('sd', 'sd_sgn1_32 sd_sgn1_64', 'all 32/64-bit kets, all positions') + E('sd', 'sd_sgn1_128a sd_sgn1_128b', 'all 128-bit kets, positions 60-67 and 124-127') + E('sd', 'sd_sgn2_32', 'all 32-bit kets, positions from {0,1,7,15,16,17,30,31}') + E('sd', 'sd_sgn2_64 sd_sgn2_128', 'occupation symbolic at and beside 8 positions spanning the width, positions drawn from those'), assumptions=[SPAN], par=2)
prop('P04', 'Determinant spaces contain exactly the determinants they name',
 'The reference determinant fills the lowest (or lowest-energy) orbitals; the CIS, CISD and full-CI spaces and the two-electron residues contain each determinant they are defined to contain exactly once and no other, with the reference first where documented.',
 'all reference occupations of up to 4 orbitals per spin, all electron counts, all orbital energies',
 'No test enumerates these spaces; completeness and absence of duplicates are statements about every determinant of a sector.',
 SDF, [dict(name='space generators', where=SDF + ': canonical_hf_determinant, generate_combs, generate_hilbert_space, generate_cis_hilbert_space, generate_cisd_hilbert_space, generate_residues')],
 E('sd', 'sd_hf32 sd_hf64 sd_hf128', 'all electron counts') + E('sd', 'sd_hf_ens sd_hf_ens128', '3 orbitals, all real orbital energies') + E('sd', 'sd_combs', 'n<=6') + E('sd', 'sd_combs_w64 sd_combs_w128 sd_fci_w128', 'one occupied or one empty orbital of 30-34 and 62-66, full CI of one electron in 32-34 orbitals') + E('sd', 'sd_fci64 sd_fci128', 'up to 3 orbitals, all sectors, all query determinants') + E('sd', 'sd_cisd64 sd_cisd128', 'all references of 4/3 orbitals, all query determinants') + E('sd', 'sd_res64 sd_res128', 'all states of 4/3 orbitals'), assumptions=[SPAN], par=4)
prop('P05', 'Determinant strings and wavefunction files round-trip',
 'Converting a determinant to its canonical occupation string and back is the identity and the string names each orbital\'s occupation. Writing a wavefunction file and reading it back returns the same determinants in the same order with exactly the same coefficients, and the file header states the true numbers of states, orbitals and electrons.',
 'all occupations of a two-orbital window at every position over empty/full backgrounds; all real coefficients for up to two states',
 'No test reads or writes wavefunctions; loss of precision or a misplaced orbital is input dependent.',
 SDF + ' include/macis/wavefunction_io.hpp', [dict(name='string conversion', where=SDF + ': to_canonical_string, from_canonical_string'), dict(name='file format', where='include/macis/wavefunction_io.hpp: read_wavefunction, write_wavefunction')],
 E('sd', 'sd_str64 sd_str128', 'two symbolic orbitals at strided positions over four backgrounds') + E('sd', 'sd_wfn64 sd_wfn128', '1-2 states over 2 orbitals (low or highest), symbolic coefficients'), assumptions=[IO, SPAN], par=4)

unit('ham', 'harness/ham.cpp')
HG = 'include/macis/hamiltonian_generator'
prop('P06', 'Hamiltonian matrix elements are the second-quantised values',
 'For real one- and two-electron integrals with the usual permutational symmetry, the matrix element between any two determinants equals the value obtained by applying the second-quantised Hamiltonian to the ket and projecting on the bra, including every sign and the zero for determinants more than two excitations apart. The Hamiltonian is symmetric, and the cached integral intermediates always agree with the integrals they were built from.',
 'all pairs of determinants of 3 orbitals and selected sectors of 4-5 orbitals; all real integral values',
 'Regression tests compare a few numbers of one molecule (and are not built here); sign and index errors in particular excitation classes cancel or are not sampled.',
 HG + '.hpp ' + HG + '/impl.hpp ' + HG + '/matrix_elements.hpp ' + HG + '/rdms.hpp', [dict(name='Slater-Condon evaluation', where=HG + '/matrix_elements.hpp'), dict(name='integral intermediates and natural-orbital rotation', where=HG + '/impl.hpp generate_integral_intermediates, ' + HG + '/rdms.hpp rotate_hamiltonian_ordm')],
 E('ham', 'ham_elem3', '3 orbitals, every sector, every pair') + E('ham', 'ham_elem4 ham_elem4b ham_elem5', 'sectors (2,1), (1,2) of 4 and (3,0) of 5 orbitals; thorough: (2,*)') + E('ham', 'ham_elem128', '3 orbitals, 128-bit determinants') + E('ham', 'ham_sector', '3 orbitals, every pair more than two excitations apart') + E('ham', 'ham_interm', '3 orbitals, all integrals') + E('ham', 'ham_rotate', '2 orbitals, arbitrary integrals and orbital matrix'), assumptions=[SPAN, LA + '; singular vectors are an arbitrary symbolic matrix'], par=4)
prop('P07', 'Fast diagonal updates equal the excited determinant\'s energy',
 'The diagonal Hamiltonian element of a singly or doubly excited determinant, computed by updating the parent determinant\'s energy, equals the diagonal element computed from scratch, for either spin and for both the orbital-list and the precomputed-energy forms. Orbital energies agree between the single and the batched form.',
 'all determinants of 3-4 orbitals, all excitations, all real integrals',
 'No test calls the update formulas; an error in one exchange term needs a specific excitation class to show.',
 HG + '/fast_diagonals.hpp ' + HG + '/matrix_elements.hpp', [dict(name='update formulas', where=HG + '/fast_diagonals.hpp: fast_diag_single, fast_diag_ss_double, fast_diag_os_double, single_orbital_ens')],
 E('ham', 'ham_fast1 ham_fast3 ham_fast3_128', '3 orbitals, all determinants and excitations') + E('ham', 'ham_fast2 ham_fast2_128', '4 orbitals, all determinants and same-spin doubles'), assumptions=[SPAN], par=4)
prop('P08', 'Sparse Hamiltonian blocks hold exactly the couplings above the threshold',
 'A sparse Hamiltonian (or rectangular block) over lists of determinants stores, row by row in column order, exactly the matrix elements whose magnitude exceeds the threshold, with consistent shape and counts; cleared placeholder determinants couple to nothing and empty lists give empty blocks.',
 'determinant lists of up to 4 determinants of 3 orbitals, all thresholds and two symbolic integrals, 32- and 64-bit indices',
 'Threshold decisions depend on the values of all elements; the tests that would compare a matrix are not built here.',
 HG + '/double_loop.hpp include/macis/csr_hamiltonian.hpp', [dict(name='double loop over determinants', where=HG + '/double_loop.hpp: make_csr_hamiltonian_block_'), dict(name='block wrappers', where='include/macis/csr_hamiltonian.hpp')],
 E('ham', 'ham_csr ham_csr64', 'square, up to 4 determinants') + E('ham', 'ham_csr_rect ham_csr128', 'rectangular with an optional cleared ket') + E('ham', 'ham_csr_empty', 'empty bra/ket lists'), assumptions=[SPAN], par=4)
prop('P09', 'Distributed Hamiltonian tiles reassemble the full Hamiltonian',
 'On any number of ranks the row blocks of the distributed Hamiltonian are contiguous and cover all determinants, and the two tiles of each rank together contain exactly the couplings above the threshold of its rows: local columns in the diagonal tile with local numbering, all others in the off-diagonal tile with global numbering.',
 '1-3 ranks, 1-5 determinants, all thresholds, one symbolic integral',
 'Row partitions with remainders and fewer rows than ranks are not exercised; the MPI tests only run two ranks and do not build this code.',
 'include/macis/csr_hamiltonian.hpp src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp', [dict(name='tile construction', where='include/macis/csr_hamiltonian.hpp: make_dist_csr_hamiltonian')],
 E('ham', 'ham_dist1 ham_dist2 ham_dist3', '1/2/3 ranks, up to 5 determinants'), over=('inputs', 'configurations'), assumptions=[SPAN, MPI], par=3)
prop('P10', 'Reduced density matrices reproduce traces and energies',
 'The one- and two-body density matrices accumulated from any determinant pair or wavefunction satisfy: the one-body density is the exact expectation of the excitation operators, its trace counts electrons, the two-body trace counts electron pairs, and contracting both with symmetric integrals gives exactly the Hamiltonian expectation value. Asking for only the one-body density gives the same one-body density.',
 'all determinant pairs of 3 orbitals and sectors of 4 orbitals, all coefficients with non-negligible products, all symmetric integrals',
 'Existing RDM regressions use one system and are not built here; errors in one excitation class or in the one-body-only mode are not sampled.',
 'include/macis/util/rdms.hpp ' + HG + '/double_loop.hpp', [dict(name='contribution formulas', where='include/macis/util/rdms.hpp'), dict(name='accumulation over determinant pairs', where=HG + '/double_loop.hpp: form_rdms')],
 E('ham', 'ham_rdm3', '3 orbitals, every pair') + E('ham', 'ham_rdm4 ham_rdm4b', '4 orbitals, sectors (2,1),(1,2)') + E('ham', 'ham_rdm128', '128-bit determinants') + E('ham', 'ham_rdm_one', '4 orbitals, one-body only') + E('ham', 'ham_form ham_form128', 'two-determinant wavefunctions') + E('ham', 'ham_form_small', '2 orbitals, two determinants with coefficient products from 9e-16'), assumptions=[SPAN, 'coefficient products above the code\'s 1e-16 cutoff'], par=4)

unit('asci', 'harness/asci.cpp', '$REPO/src/macis/transform.cxx')
unit('mpiu', 'harness/mpiu.cpp')
AS = 'include/macis/asci/'
prop('P11', 'Search contributions are coefficient times coupling over energy gap',
 'Expanding a search determinant yields, for every other determinant one or two electrons away whose coupling is not below the threshold, exactly one contribution equal to coefficient times matrix element divided by (reference energy minus the energy of that determinant), and nothing else. Singles-only searches omit doubles; contributions of several search determinants add up; pruning an overlong list removes only contributions below the pruning tolerance. In the distributed search no determinant is listed twice, on one rank or across ranks, whatever the list limit.',
 'all search determinants of 3-4 orbitals (64- and 128-bit), all integrals, coefficients and reference energies; all thresholds on one generic integral set; two search determinants with one symbolic integral, on one rank or distributed over 1-2 ranks',
 'A missing excitation class, a wrong sign or a wrong denominator changes the ranking only for particular determinants; no test builds this code.',
 AS + 'determinant_contributions.hpp ' + AS + 'determinant_search.hpp', [dict(name='contribution loops', where=AS + 'determinant_contributions.hpp: append_*_asci_contributions'), dict(name='driver and pruning', where=AS + 'determinant_search.hpp: asci_contributions_standard')],
 E('asci', 'asci_one3 asci_one128', '3 orbitals, sectors (1-2,1-2), all integrals') + E('asci', 'asci_one4', '4 orbitals, sector (2,1), all integrals') + E('asci', 'asci_one_tol', '4 orbitals, generic integrals, symbolic threshold') + E('asci', 'asci_two asci_prune', 'two search determinants of 3 orbitals') + E('asci', 'asci_prune_con1 asci_prune_con2 asci_prune_con1b', 'distributed search, 1-2 ranks, two search determinants of sector (3,1) of 4 orbitals, small and large list limits'), assumptions=[SPAN, SPD, MPI], par=3)
prop('P12', 'Alpha-string constraints select exactly the matching excitations',
 'For a constraint (a set of alpha orbitals and everything below the lowest of them) and an alpha string, the constrained singles and doubles are exactly the excitations whose highest electrons occupy the constraint, each once; the counting functions and the work histogram report exactly these numbers; and the constrained contributions of a determinant equal those of the unconstrained list restricted to the constraint.',
 'all constraints of 1-5 orbitals and all alpha strings of 6 orbitals; all determinants of sector (3,1) of 4-5 orbitals with all integrals',
 'The mask case distinctions (how many constraint electrons are missing, how many electrons sit above) are only hit by particular combinations; nothing tests them.',
 AS + 'mask_constraints.hpp', [dict(name='mask logic', where=AS + 'mask_constraints.hpp: generate_constraint_*, count_constraint_*, constraint_histogram, satisfies_constraint')],
 E('asci', 'asci_con64 asci_con128', 'all constraints and strings of 6 orbitals') + E('asci', 'asci_make', 'orbitals below 32') + E('asci', 'asci_cc asci_cc5 asci_cc128', 'sector (3,1) of 4/5 orbitals, all integrals') + E('asci', 'asci_cc_tol', 'symbolic threshold'), assumptions=[SPAN, SPD], par=3)
prop('P13', 'Distributed search constraints cover every alpha string exactly once',
 'For any number of ranks, refinement level, electron count and list of alpha strings, the constraints handed to all ranks together contain every alpha string reachable by up to two excitations in exactly one constraint, so no determinant is lost or scored twice by the distributed search.',
 '1-4 ranks, 5-6 orbitals, 0-5 alpha electrons, 1-2 alpha strings, refinement levels 0-2',
 'Whether a constraint is broken apart depends on the work distribution over ranks; loss of determinants needs few electrons or many ranks, which tests never use.',
 AS + 'mask_constraints.hpp', [dict(name='constraint splitting and assignment', where=AS + 'mask_constraints.hpp: dist_constraint_general')],
 E('asci', 'asci_dist1 asci_dist2', '6 orbitals, 3-5 electrons, pairs of strings') + E('asci', 'asci_dist3', '5 orbitals, 0-5 electrons') + E('asci', 'asci_dist4', '6 orbitals, 2-5 electrons'), over=('inputs', 'configurations'), assumptions=[SPAN, SPD, MPI], par=2)
prop('P14', 'Score lists are merged, deduplicated and ordered exactly',
 'Merging a list of scored determinants leaves each determinant once, ordered, with the sum of its scores; keeping the largest copy leaves each determinant once with its maximum score; reordering a wavefunction by coefficient is a permutation that keeps every coefficient with its determinant and sorts by magnitude.',
 'all lists of up to 4 entries over up to 5 determinants (64/128 bits), a 40-entry list, all scores; 4 coefficients',
 'Duplicates, ties and word boundaries in the comparison depend on the data; there is no test.',
 AS + 'determinant_sort.hpp', [dict(name='sorting and merging', where=AS + 'determinant_sort.hpp')],
 E('asci', 'asci_acc asci_acc128 asci_acc_sub asci_keep asci_keep128', 'up to 3-4 entries') + E('asci', 'asci_acc_long', '40 entries in three orders') + E('asci', 'asci_reorder', '4 coefficients'), assumptions=[SPAN, SPD], par=3)
prop('P15', 'Determinant search returns the best-ranked wavefunction on any rank count',
 'The determinant search keeps every search determinant exactly once and adds, without duplicates, as many connected determinants as requested or available, such that no omitted determinant has a larger score than an added one. All ranks return the same list.',
 '1-3 ranks, sectors of 3 orbitals (thorough: 4), one or two search determinants, every requested size including none and more than available, one symbolic integral',
 'Ties, exhausted spaces and a request for no new determinants only occur for particular sizes; the MPI path has no test that is built here.',
 AS + 'determinant_search.hpp ' + AS + 'determinant_sort.hpp include/macis/util/dist_quickselect.hpp', [dict(name='ranking and truncation', where=AS + 'determinant_search.hpp: asci_search')],
 E('asci', 'asci_search1 asci_search1b', 'one rank') + E('asci', 'asci_search2 asci_search_ties', 'two ranks') + E('asci', 'asci_search_ties3', 'three ranks, closed-shell ties'), over=('inputs', 'configurations'), assumptions=[SPAN, SPD, MPI], par=2)
prop('P16', 'Distributed quickselect returns the k-th ranked element',
 'For any distribution of values over any number of ranks (some may be empty), any 1 <= k <= total and either ordering, every rank obtains the k-th ranked element of the union, and local data is only reordered. The three-way partition it uses separates smaller, equal and larger elements.',
 '1-4 ranks, up to 5 real values in every distribution and every ordering with ties, up to 9 integers from small ranges',
 'The existing test uses one random vector per rank with no ties and no empty ranks.',
 'include/macis/util/dist_quickselect.hpp', [dict(name='pivoting and final gather', where='include/macis/util/dist_quickselect.hpp')],
 E('mpiu', 'mu_qs1 mu_qs2 mu_qs3', 'up to 4 values, any distribution') + E('mpiu', 'mu_qs2b', '5 values (k=3 descending; thorough: all)') + E('mpiu', 'mu_iqs2 mu_iqs3 mu_iqs3b mu_iqs4', '6-9 integers with many ties') + E('mpiu', 'mu_leg', '4 values and pivot of 8 bits'), over=('inputs', 'configurations'), assumptions=[MPI], par=2)
prop('P17', 'MPI wrappers deliver the collective result on every rank',
 'The reduction, broadcast, gather-and-scan and determinant datatype wrappers give every rank the sum/maximum/minimum over ranks, the root\'s data, the rank-ordered values with their exclusive prefix sums, and bit-identical determinants; they write only the given elements, leave inputs untouched and refuse oversized messages.',
 '1-3 ranks, all values, all determinant bit patterns of 64/128/256 bits',
 'The wrappers are compiled but untested; wrong datatypes or counts depend on the type instantiated.',
 'include/macis/util/mpi.hpp include/macis/util/dist_quickselect.hpp include/macis/util/memory.hpp', [dict(name='type map and wrappers', where='include/macis/util/mpi.hpp'), dict(name='gather and scan', where='include/macis/util/dist_quickselect.hpp: total_gather_and_exclusive_scan')],
 E('mpiu', 'mu_gs1 mu_gs3 mu_ar1 mu_ar3 mu_ari mu_bs64 mu_bs128 mu_bs256 mu_big', '1-3 ranks'), over=('inputs', 'configurations'), assumptions=[MPI], par=2)
prop('P43', 'Wavefunction growth and refinement loops follow their settings',
 'Growing a wavefunction multiplies its size by the growth factor within the stated minimum and maximum until exactly the maximum is reached, and fails only if the space is exhausted; refinement keeps the size, stops as soon as the energy change is below the tolerance and fails otherwise. Each step keeps the largest-coefficient determinants, and the returned energy, determinants and coefficients are those of the last diagonalisation, with the coefficients of all ranks gathered in order.',
 '1-3 ranks, sector (2,1) of 3 orbitals, all settings within small ranges, all energies within a window (eigensolver replaced by a stand-in returning arbitrary energies and coefficients)',
 'Only a full calculation would exercise these loops, and it is not part of the built tests.',
 AS + 'grow.hpp ' + AS + 'refine.hpp ' + AS + 'iteration.hpp', [dict(name='loops and coefficient gathering', where=AS + 'grow.hpp, refine.hpp, iteration.hpp')],
 E('asci', 'asci_grow1 asci_grow2 asci_grow3', '1/2/3 ranks') + E('asci', 'asci_refine1 asci_refine2 asci_refine3', '1/2/3 ranks'), over=('inputs', 'configurations'), assumptions=[SPAN, SPD, MPI, 'the eigensolver is replaced by a stand-in (its own behaviour is outside this property)'], par=2)
prop('P48', 'Growth in natural orbitals keeps orbitals, coefficients and energy consistent',
 'With natural-orbital rotation requested, every enlargement to at least the stated size is followed by one rotation: the one-body density of the enlarged wavefunction is diagonalised, the orbitals are ordered by decreasing occupation, and every rank continues with the one- and two-electron integrals (and everything derived from them) in exactly these orbitals. The same determinants are diagonalised again; the next search, and the returned energy, coefficients and integrals, all belong to the new orbitals.',
 '1-3 ranks; 2-3 orbitals, 1-3 electrons; all orbital rotations for one enlargement, fixed rotations for two; all integrals, energies and maximum sizes within small ranges; CI eigensolver and LAPACK eigensolver replaced by stand-ins',
 'A stale energy, a rank left with old integrals or a lost intermediate shows only as slightly wrong selection or energies in a parallel run; no built test grows a wavefunction.',
 AS + 'grow.hpp src/macis/transform.cxx', [dict(name='rotation to natural orbitals', where=AS + 'grow.hpp: asci_grow'), dict(name='integral rotation', where='src/macis/transform.cxx: two_index_transform, four_index_transform')],
 E('asci', 'asci_rot1 asci_rot2 asci_rot3', 'one enlargement, 1/2/3 ranks') + E('asci', 'asci_rot1n', 'one enlargement, three orbitals') + E('asci', 'asci_rot1s asci_rot2s', 'two enlargements, 1/2 ranks'), over=('inputs', 'configurations', 'histories'), assumptions=[SPAN, SPD, MPI, LA, 'the eigensolvers are replaced by stand-ins'], par=3)

OSRC = ['$REPO/src/macis/' + x + '.cxx' for x in 'transform fock_matrices orbital_gradient orbital_hessian orbital_steps orbital_energies orbital_rotation_utilities moller_plesset'.split()]
unit('orb', 'harness/orb.cpp', *OSRC)
unit('opt', 'harness/opt.cpp', '$REPO/src/macis/transform.cxx', '$REPO/src/macis/fock_matrices.cxx', inc=['include', '_build/include', 'src/sparsexx/include', '_build/src/sparsexx/include', 'src/lobpcgxx/include', 'src/macis'])
UT, SM = 'include/macis/util/', 'src/macis/'
prop('P20', 'Two-index transformation is the congruence of the matrix',
 'Transforming a one-body operator to a new orbital basis yields exactly C^T X C for any matrix, any (also rectangular) coefficient matrix and any leading dimensions; in-place use works, inputs and padding are untouched.',
 'all real matrices, 1-4 old and 1-3 new orbitals, leading dimensions equal to or one above the row count',
 'The test transforms random square matrices without padding.',
 UT + 'transform.hpp ' + SM + 'transform.cxx', [dict(name='two-index transform', where=SM + 'transform.cxx: two_index_transform')],
 E('orb', 'orb_two22 orb_two33', 'square') + E('orb', 'orb_two42 orb_two23 orb_two1', 'rectangular 4x2, 2x3, 1xn') + E('orb', 'orb_two_in', 'in place, 1-3 orbitals'), assumptions=[LA], par=4)
prop('P21', 'Four-index transformation contracts every index exactly once',
 'Transforming two-electron integrals yields Y(p,q,r,s) = sum of C(i,p)C(j,q)C(k,r)C(l,s)X(i,j,k,l) for any tensor (no symmetry assumed), any rectangular coefficient matrix and any leading dimensions, without touching inputs or padding.',
 'all real tensors, 1-3 old and 1-3 new orbitals, leading dimensions equal to or one above the row count',
 'The test uses one random tensor of equal dimensions and no padding, which hides swapped extents, leading dimensions and index order on symmetric data.',
 UT + 'transform.hpp ' + SM + 'transform.cxx', [dict(name='four-index transform', where=SM + 'transform.cxx: four_index_transform')],
 E('orb', 'orb_four22 orb_four22_ld orb_four33', 'square, 2-3 orbitals') + E('orb', 'orb_four21 orb_four32 orb_four23 orb_four1', 'rectangular') + E('orb', 'orb_four_in', 'in place'), assumptions=[LA], par=4)
prop('P22', 'Active-space Hamiltonian reproduces the full Hamiltonian',
 'With doubly occupied inactive orbitals, the active-space one- and two-body integrals plus the inactive energy give, for every pair of active determinants, exactly the matrix element of the full Hamiltonian between the embedded determinants; the inactive Fock matrix is the one-body operator plus core Coulomb minus exchange.',
 'all integrals with eight-fold symmetry, spaces (inactive,active,virtual) up to (1,3,0), (2,1,0), (1,2,1), all determinant pairs of the listed sectors, padded leading dimensions',
 'Tests that use these functions are not built here and check one molecule; a wrong core contribution to one block is only visible for particular determinants.',
 UT + 'fock_matrices.hpp ' + SM + 'fock_matrices.cxx', [dict(name='active Hamiltonian', where=SM + 'fock_matrices.cxx: active_hamiltonian, inactive_fock_matrix, inactive_energy')],
 E('orb', 'orb_embed120 orb_embed121 orb_embed210 orb_embed130', 'spaces as named'), assumptions=[LA], par=4)
prop('P23', 'Generalised Fock matrix reproduces the energy of the densities',
 'For any integrals and any symmetric one- and two-body densities, the generalised Fock matrix built from its inactive, active and Q parts equals its definition block by block, gives exactly the energy of these densities, does not depend on whether intermediates are passed or recomputed, and orbital-rotated energies equal the energy in the rotated basis.',
 'all integrals with eight-fold symmetry and all symmetric densities, spaces up to (1,2,1), (2,0,1), (0,2,2), padded leading dimensions; F is zero-initialised by the caller',
 'One molecule in tests that are not built here; errors in blocks that vanish by symmetry or in padded storage stay hidden.',
 UT + 'fock_matrices.hpp ' + SM + 'fock_matrices.cxx ' + SM + 'orbital_gradient.cxx', [dict(name='Fock construction', where=SM + 'fock_matrices.cxx'), dict(name='rotated energies', where=SM + 'orbital_gradient.cxx: orbital_rotated_energy, orbital_rotated_generalized_fock')],
 E('orb', 'orb_energy111 orb_energy120 orb_energy021 orb_energy201 orb_energy022', 'spaces as named') + E('orb', 'orb_pieces111 orb_pieces121 orb_pieces021 orb_pieces210', 'each intermediate') + E('orb', 'orb_rot101 orb_rot110 orb_rot020 orb_rot111', 'energies in a rotated basis'), assumptions=[LA], par=4)
prop('P24', 'Orbital gradient is the derivative of the energy',
 'The packed and the full orbital gradient equal the first derivative of the energy under each inactive-active, inactive-virtual and active-virtual rotation, packing and unpacking rotations are inverse and antisymmetric and leave redundant rotations alone, the rotation matrix is the exponential of the antisymmetric generator with the documented sign, and the numerical gradient is the finite difference of the rotated energy.',
 'all integrals and symmetric densities, spaces up to (1,2,1), (0,2,2), (2,0,2), (2,2,0); packing up to (2,3,2); exponentials of nilpotent 2x2 and 3x3 generators',
 'Gradient signs and block order only show in convergence; the numerical check in the tests is not built here.',
 UT + 'orbital_gradient.hpp ' + UT + 'orbital_rotation_utilities.hpp ' + SM + 'orbital_gradient.cxx ' + SM + 'orbital_rotation_utilities.cxx', [dict(name='gradient', where=SM + 'orbital_gradient.cxx: fock_to_gradient; orbital_rotation_utilities.cxx: fock_to_linear_orb_grad'), dict(name='packing', where=SM + 'orbital_rotation_utilities.cxx'), dict(name='rotation matrix', where=SM + 'orbital_gradient.cxx: compute_orbital_rotation')],
 E('orb', 'orb_grad111 orb_grad121 orb_grad022 orb_grad202 orb_grad220', 'spaces as named') + E('orb', 'orb_pack', 'up to (2,3,2)') + E('orb', 'orb_exp2 orb_exp3 orb_exp3b', 'nilpotent generators, symbolic entries') + E('orb', 'orb_ngrad101 orb_ngrad110 orb_ngrad111', 'numerical gradient'), assumptions=[LA], par=4)
prop('P25', 'Orbital Hessian products are second derivatives of the energy',
 'The Hessian-vector product equals the second derivative of the energy contracted with the given rotation, the one-index transformed Hamiltonian is the derivative of the integrals, the approximate diagonal Hessian and the preconditioned step follow their formulas for every block, and the numerical Hessian is the finite difference of the rotated energy.',
 'all integrals and symmetric densities with a stationary active-active block, spaces up to (1,2,1), (2,1,1)/(2,0,2); padded leading dimensions',
 'Second derivatives have no test at all; errors only slow convergence.',
 UT + 'orbital_hessian.hpp ' + UT + 'orbital_steps.hpp ' + SM + 'orbital_hessian.cxx ' + SM + 'orbital_steps.cxx ' + SM + 'orbital_gradient.cxx', [dict(name='Hessian contraction', where=SM + 'orbital_hessian.cxx: orb_orb_hessian_contract, one_index_transformed_hamiltonian'), dict(name='preconditioner', where=SM + 'orbital_hessian.cxx: approx_diag_hessian; orbital_steps.cxx')],
 E('orb', 'orb_hess111 orb_hess101 orb_hess202 orb_hess212 orb_hess021 orb_hess121', 'spaces as named') + E('orb', 'orb_diagh111 orb_diagh221 orb_diagh122 orb_diagh2 orb_diagh2b', 'approximate diagonal and step') + E('orb', 'orb_nhess101 orb_nhess110 orb_nhess111', 'numerical Hessian'), assumptions=[LA], par=4)
prop('P26', 'MP2 amplitudes, density and natural orbitals follow their formulas',
 'Canonical orbital energies, MP2 amplitudes and energies equal their closed-shell expressions, the MP2 density has the amplitude-derived occupied and virtual blocks, vanishing mixed blocks and preserves the electron count, and natural orbitals are the eigenvectors of the density ordered by decreasing occupation.',
 'all integrals with eight-fold symmetry, all orbital energies with a gap, 1-2 occupied and 1-2 virtual orbitals, padded leading dimensions (eigensolver replaced by a stand-in)',
 'One molecule in tests that are not built here.',
 UT + 'moller_plesset.hpp ' + SM + 'moller_plesset.cxx ' + UT + 'orbital_energies.hpp ' + SM + 'orbital_energies.cxx', [dict(name='MP2', where=SM + 'moller_plesset.cxx'), dict(name='orbital energies', where=SM + 'orbital_energies.cxx')],
 E('orb', 'orb_mp2_11 orb_mp2_12 orb_mp2_21 orb_mp2_22', 'occupied x virtual as named') + E('orb', 'orb_nat11 orb_nat21', 'natural orbitals'), assumptions=[LA], par=3)
prop('P27', 'DIIS and quasi-Newton steps satisfy their defining equations',
 'Extrapolation solves the constrained least-squares system of exactly the most recent kept error vectors and returns the weighted sum of their iterates; the limited-memory recursion applies exactly the BFGS inverse Hessian (secant equation included) for every initial Hessian; the backtracking and bracketing line searches reject ascent directions and only accept points on the direction with sufficient decrease (the latter also with flattened slope), the discrete one returns the lowest grid point; the optimiser hands the correct step and gradient differences to the model, never accepts a worse point and returns only at convergence.',
 'DIIS: 1-3 kept of 4-5 vectors of 1-3 elements; BFGS: 0-3 updates of dimension 2-3 with fixed curvature; line search and driver: dimension 1-2, arbitrary objective values and gradients at every point, up to 3 iterations and 3 halvings in the driver, all halvings in the backtracking search; bracketing search: up to 4 points, the last with arbitrary value and slope, earlier ones from 5x5 values and slopes; discrete search: all parabolas',
 'DIIS windows and BFGS histories depend on the iteration history; the tests cover neither.',
 UT + 'diis.hpp ' + SM + 'bfgs/bfgs.hpp ' + SM + 'bfgs/bfgs_hessian.hpp ' + SM + 'bfgs/line_search.hpp', [dict(name='extrapolation', where=UT + 'diis.hpp'), dict(name='two-loop recursion', where=SM + 'bfgs/bfgs_hessian.hpp'), dict(name='backtracking', where=SM + 'bfgs/line_search.hpp')],
 E('opt', 'opt_diis opt_diis1', 'window 1-3') + E('opt', 'opt_bfgs0 opt_bfgs1 opt_bfgs2 opt_bfgs3 opt_bfgs4 opt_bfgs5', '0-3 updates, five initial Hessians') + E('opt', 'opt_back1 opt_back2', 'all halvings') + E('opt', 'opt_nw3 opt_nw4 opt_disc', '3-4 points; 100-point grid') + E('opt', 'opt_drive11 opt_drive12 opt_drive21 opt_drive22 opt_drive13', '1-3 iterations'), over=('inputs', 'histories'), assumptions=[LA, 'the small linear system of DIIS is solved by a stand-in returning arbitrary weights'], par=3)
unit('fcid', 'harness/fcid.cpp', '$REPO/src/macis/fcidump.cxx', spdlog_real=True, native_libs=['-lspdlog', '-lfmt'])
FCF = 'src/macis/fcidump.cxx'
prop('P18', 'FCIDUMP files carry the Hamiltonian exactly, and reading expands the symmetry',
 'A Hamiltonian written to an FCIDUMP file is complete on disk when the call returns, replaces any older content, and reads back with the same orbital count (the largest index), core energy, one-body and two-body integrals bit for bit; several files can be written in one process. Reading puts a one-body entry at its two and a two-body entry at its eight equivalent positions and touches nothing else, accepts the value as first or last field, skips lines that are not integral entries (other field counts, orbital energies), takes an absent core energy as zero, and rejects negative indices, malformed lines and arrays of the wrong extent.',
 '0-3 orbitals (4 in the thorough tier), all integral values with the stated symmetry, padded leading dimensions, all index quadruples over 2 orbitals, both field orders',
 'The file reader and writer are not built by the repository tests here, and a sample file exercises neither every index permutation nor the flushing, rewriting or padding paths.',
 FCF + ' include/macis/util/fcidump.hpp', [dict(name='line parsing', where=FCF + ': split, fcidump_line, line_classification'), dict(name='symmetry expansion', where=FCF + ': read_fcidump_1body, read_fcidump_2body'), dict(name='writing', where=FCF + ': write_fcidump')],
 E('fcid', 'fc_round0 fc_round1 fc_round2 fc_round2_ld fc_round3', '0-3 orbitals, leading dimension up to n+1') + E('fcid', 'fc_again', '1-2 orbitals per file, same or other name') + E('fcid', 'fc_two fc_three', 'all index combinations over 2 orbitals, all one-body pairs over 3') + E('fcid', 'fc_junk fc_norb fc_core fc_bad', 'five kinds of other lines at every position; largest index 1-12 in every field; malformed lines'), assumptions=[IO, SPAN, 'std::regex and the spdlog file logger are replaced by small models (a logger keeps text until it is flushed or released; names are unique) in the symbolic run; replays use the real libraries'], par=3)
prop('P19', 'Binary RDM files return the density matrices that were written',
 'Writing the one- and two-body density matrices and reading them back gives the same values for any leading dimensions, leaves padding and inputs untouched and replaces older file content; the file is the orbital count followed by both tensors, packed column-major. A missing file, a file for another number of orbitals and a file that ends early are rejected.',
 '0-2 orbitals, all values, leading dimensions up to n+1, every stored orbital count 0-2 against every requested 0-3, files cut at twenty lengths',
 'Tests here never write these files; padding and truncation need inputs that sample runs do not produce.',
 FCF + ' include/macis/util/binary_rdms.hpp include/macis/util/detail/rdm_files.hpp', [dict(name='binary RDM files', where=FCF + ': read_rdms_binary, write_rdms_binary')],
 E('fcid', 'rb_round', '0-2 orbitals, leading dimension up to n+1') + E('fcid', 'rb_bad rb_cut', 'all count mismatches 0-3, cuts at twenty lengths'), assumptions=[IO], par=3)
unit('dav', 'harness/dav.cpp')
DV, LO = 'include/macis/solvers/davidson.hpp', 'src/lobpcgxx/include/lobpcgxx/'
prop('P28', 'CI solvers return a converged eigenpair or throw, on any number of ranks',
 'The Davidson solvers start from the normalised guess, expand the basis by the orthogonalised preconditioned residual, solve the projected problem X^T A X, and return exactly the lowest Ritz pair whose residual is below the tolerance, with the iteration count, or throw; the distributed solver does the same on every rank in step for any row distribution, including ranks without rows. The CI drivers pass the solver the operator H, its diagonal, the limits, and as guess the caller\'s coefficients when one exceeds 1/n, otherwise the unit vector of the lowest diagonal element, identically on all ranks, and return its energy and vector.',
 'all symmetric matrices and prescribed Ritz pairs (arbitrary real numbers) for 1-4 rows and subspaces up to 3, all tolerances; 1-3 ranks and all contiguous row distributions of 2-4 rows; operator shapes up to 3x3 with every sparsity pattern; guesses of all 3x3 patterns; end-to-end operator for up to 5 determinants',
 'No solver test is built here; the ordinary guess never is an eigenvector and ranks are never empty, which is when the defects repaired here appeared.',
 DV + ' include/macis/solvers/selected_ci_diag.hpp ' + LO + 'rayleigh_ritz.hpp', [dict(name='Davidson', where=DV + ': gram_schmidt, davidson, p_gram_schmidt, p_rayleigh_ritz, p_davidson, SparseMatrixOperator'), dict(name='guesses', where=DV + ': diagonal_guess, p_diagonal_guess'), dict(name='CI drivers', where='include/macis/solvers/selected_ci_diag.hpp: serial_selected_ci_diag, parallel_selected_ci_diag, selected_ci_diag')],
 E('dav', 'dav_gs1 dav_gs2', '1-2 old vectors in R^3, R^4') + E('dav', 'dav_pgs1 dav_pgs2 dav_pgs3', '1-3 ranks') + E('dav', 'dav_rr21 dav_rr32 dav_rr33 dav_prr2 dav_prr3', 'Rayleigh-Ritz up to 3x3, 1-3 ranks') + E('dav', 'dav_guess3 dav_guess4 dav_pguess1 dav_pguess2 dav_pguess3 dav_pguess3d', 'guesses, 3-5 rows, 1-3 ranks') + E('dav', 'dav_op dav_op33', 'operator', timeout=90) + E('dav', 'dav_1 dav_2 dav_2x dav_3 dav_32 dav_42 dav_nul', 'serial solver, 1-4 rows') + E('dav', 'dav_p1 dav_p2 dav_p23 dav_p3', 'distributed solver, 1-3 ranks', timeout=120) + E('dav', 'dav_cis dav_cip2 dav_cip3', 'CI drivers', timeout=120) + E('dav', 'dav_sci1 dav_sci2 dav_sci3', 'determinants to operator, 1-3 ranks', timeout=90),
 over='precondition: the guess is normalised (the CI drivers pass on what they are given). The dense projected eigenproblem is prescribed arbitrarily, so nothing is claimed about whether the iteration converges (that needs LAPACK and an argument over all matrices), only about what is returned when it does. Branches on residual norms are explored without their definitions (more paths than exist); undecided ones are decided with them.', assumptions=[MPI, LA], par=4)
prop('P38', 'LOBPCG reports only what its basis and operator produced',
 'The block solver rotates basis and operator images with the same Ritz coefficients, projects and orthonormalises the preconditioned residuals against the current basis, solves S^T A S, judges convergence on absolute and relative residuals of exactly the requested pairs, and on acceptance returns those eigenvalues, vectors and relative residuals (else throws after the last update with the data copied back); the history records every check; it stays inside the advertised workspace and rejects null operators, short workspaces and negative limits.',
 'all symmetric matrices, preconditioned residuals and Ritz coefficients of the last update as real symbols; 2-6 rows, blocks of 1-2, up to 3 iterations, every acceptance iteration, padded leading dimensions',
 'LOBPCG has no test in the repository.',
 ' '.join(LO + f for f in 'driver.hpp simplified_interface.hpp cholqr.hpp residuals.hpp rotate_basis.hpp rayleigh_ritz.hpp convergence.hpp operator.hpp'.split()), [dict(name='driver', where=LO + 'driver.hpp: lobpcg, lobpcg_lwork'), dict(name='building blocks', where=LO + 'cholqr.hpp, residuals.hpp, rotate_basis.hpp, convergence.hpp, operator.hpp')],
 E('dav', 'lob_chol1 lob_chol2 lob_chol3 lob_cholf', 'Cholesky QR, 3-4 rows, 1-3 columns') + E('dav', 'lob_res lob_rot lob_conv lob_oper', 'residuals, rotation, convergence tests, operator') + E('dav', 'lob_bad lob_s0 lob_s1 lob_s2 lob_s3', 'settings and the short interfaces') + E('dav', 'lob_31 lob_31b lob_41c lob_42', 'driver, 3-4 rows') + E('dav', 'lob_62', 'driver, 6 rows, block 2, 2 iterations', timeout=120),
 over='Cholesky and LQ factors and the projected eigenproblem are prescribed; earlier Ritz rotations are concrete signed permutations, the last one is symbolic. Requesting more pairs than the block holds is a precondition. Recomputation of A S every 20 iterations is outside.', assumptions=[LA], par=4)
prop('P44', 'MCSCF macro-iterations keep orbitals, densities and energy consistent',
 'Each macro-iteration rotates the orbitals by the accumulated product of the step rotations, solves the CI problem with the active Hamiltonian of exactly these orbitals, and takes the capped preconditioned (optionally extrapolated) step from the gradient of these orbitals and densities; the loop stops at a stationary point or at the iteration limit, and the returned energy and densities belong to the same orbitals. Densities with the right electron count are used as the initial guess, input integrals are never modified.',
 'spaces (1,1,0), (0,1,1), (1,1,1), (1,2,0), 0-4 macro-iterations with and without extrapolation, all integrals with eight-fold symmetry, all CI energies, densities, gradients, steps and weights; fixed rotation matrices',
 'Stale intermediates, a wrong rotation order or an energy from the previous iteration only show as slow convergence or wrong energies before convergence.',
 UT + 'mcscf_impl.hpp src/macis/casscf.cxx ' + UT + 'mcscf.hpp', [dict(name='macro-iterations', where=UT + 'mcscf_impl.hpp: mcscf_impl, src/macis/casscf.cxx')],
 E('opt', 'opt_mccas', 'the CASSCF entry point, 0-1 iterations') + E('opt', 'opt_mc110_0 opt_mc110_1 opt_mc110_2 opt_mc011_1 opt_mc011_2 opt_mc111_1 opt_mc120_1', '0-2 iterations') + E('opt', 'opt_mc110_d', '3 iterations with extrapolation') + E('opt', 'opt_mc011_d', '3 (thorough: 4) iterations with extrapolation'), over=('inputs', 'histories'), assumptions=[LA, SPAN, SPD, MPI, 'CI solver, gradient, preconditioner and matrix exponential are stand-ins with arbitrary results (P24, P25, P45 cover the real ones)'], par=3)
prop('P45', 'CAS-CI energies and densities belong to the given integrals and sector',
 'On any number of MPI ranks, the complete-active-space calculation diagonalises the Hamiltonian of the given integrals in exactly the determinants of the requested electron numbers, passes the solver settings through, returns the solver energy and this rank\'s part of the vector, and on every rank its densities reproduce the expectation value of the whole vector and the electron count.',
 'all integrals with eight-fold symmetry, 2-4 orbitals, 1-3 ranks (several ranks with 2-3 orbitals), sectors as listed, one fixed CI vector per sector (eigensolver replaced by a stand-in)',
 'The regression tests need a molecule and are not built here.',
 UT + 'cas.hpp include/macis/hamiltonian_generator/double_loop.hpp', [dict(name='CAS-CI functor', where=UT + 'cas.hpp: compute_casci_rdms')],
 E('opt', 'opt_casci2 opt_casci3 opt_casci3b opt_casci4', 'sectors of 2-4 orbitals') + E('opt', 'opt_casci_p2 opt_casci_p2b opt_casci_p3', '2-3 orbitals, 2-3 ranks, every contiguous distribution of the CI vector'), assumptions=[SPAN, SPD, MPI, 'the eigensolver is replaced by a stand-in'], par=3)

unit('spx', 'harness/spx.cpp')
unit('spd', 'harness/spd.cpp')
SX = 'src/sparsexx/include/sparsexx/'
prop('P29', 'Sparse format conversions preserve the matrix',
 'Converting between coordinate, compressed-row, compressed-column and dense form preserves shape, index base, every stored entry and its value, for any sparsity pattern including empty rows and columns and non-square shapes; the row/column pointers are consistent with the index arrays; unsorted triplets, mismatched triplet arrays and too small leading dimensions are rejected, and nothing outside the target is written.',
 'all sparsity patterns of shapes up to 3x3, 4x2 and 2x4, both index bases, 32- and 64-bit indices, all values',
 'The tests convert one fixed file without empty rows; empty rows/columns, non-square shapes and index bases are pattern dependent.',
 SX + 'matrix_types/conversions.hpp ' + SX + 'matrix_types/coo_conversions.hpp ' + SX + 'matrix_types/dense_conversions.hpp ' + SX + 'matrix_types/csr_matrix.hpp ' + SX + 'matrix_types/coo_matrix.hpp',
 [dict(name='conversion constructors', where=SX + 'matrix_types/conversions.hpp, coo_conversions.hpp'), dict(name='dense copies', where=SX + 'matrix_types/dense_conversions.hpp')],
 E('spx', 'sp_coo_csr sp_coo_csc sp_csc_csr sp_csr_coo', 'all patterns of 1-3 x 1-3') + E('spx', 'sp_coo_csr32 sp_coo_csc32 sp_csc_csr32', 'all patterns 4x2/2x4, 32-bit') + E('spx', 'sp_dense_csr sp_dense_coo', 'all patterns of 1-3 x 2, padded leading dimension') + E('spx', 'sp_unsorted sp_coo_sizes', 'three entries anywhere; all array lengths 0-2'))
prop('P30', 'Sparse matrix bookkeeping: ordering, expansion, index base, equality',
 'Sorting triplets by row or column yields the lexicographic order with each value kept with its coordinates; expanding a stored triangle yields the symmetric matrix with consistent entry counts and leaves diagonal and non-triangular matrices alone; changing or detecting the index base never changes the matrix; equality of compressed-row matrices is equality of shape, base, pattern and values.',
 'any 3-4 distinct coordinates in 3x3/2x3, all triangles up to 3x3, all patterns 2x2/2x3, both index bases',
 'Order- and pattern-dependent behaviour (triangles without a full diagonal, ties in one coordinate) is not covered by the fixed test files.',
 SX + 'matrix_types/coo_matrix_ops.hpp ' + SX + 'matrix_types/coo_matrix.hpp ' + SX + 'matrix_types/csr_matrix.hpp',
 [dict(name='sorting and triangle expansion', where=SX + 'matrix_types/coo_matrix_ops.hpp'), dict(name='index base and equality', where=SX + 'matrix_types/csr_matrix.hpp: set_indexing, operator==')],
 E('spx', 'sp_sort_row sp_sort_col sp_sort_row4 sp_sort_col4', '3-4 entries at symbolic distinct coordinates') + E('spx', 'sp_expand', 'all triangles of order 1-3') + E('spx', 'sp_expand_full', 'all non-triangular 3x3 patterns') + E('spx', 'sp_detidx sp_setidx sp_ctor', '2x3 patterns') + E('spx', 'sp_eq sp_shape_eq', 'all pairs of 2x2 matrices'))
prop('P31', 'Sparse times dense block equals the matrix product',
 'The sparse matrix product computes AV = alpha*A*V + beta*AV for any pattern, values, scalars, number of columns and leading dimensions, for both index bases and for compressed-row and coordinate storage, without touching padding.',
 'all patterns of 1-3 x 1-2 and 3x3, 0-2 columns, padded leading dimensions, all real values',
 'The test multiplies one fixed matrix with alpha=1, beta=0.',
 SX + 'spblas/spmbv.hpp', [dict(name='generic products', where=SX + 'spblas/spmbv.hpp: gespmbv')],
 E('spx', 'sp_mv_csr sp_mv_coo', 'all patterns 1-3 x 1-2, K<=2') + E('spx', 'sp_mv_csr33', 'all 3x3 patterns, K=1'))
prop('P32', 'Distributed sparse product equals the serial product',
 'For any sparsity pattern and any contiguous row partition (blocks may be empty) over any number of ranks, the distributed product leaves on each rank exactly its rows of alpha*A*x + beta*y, can be repeated with the same communication plan, never deadlocks under blocking or buffered sends, and exchanges each remote element at most once per rank needing it.',
 '1-3 ranks, orders 3-4, 2-4 symbolic pattern positions over a fixed background and any two couplings anywhere, all row partitions, all values, all message schedules of the model',
 'No test runs the distributed product; the communication plan depends on the pattern, the partition and the schedule.',
 SX + 'spblas/pspmbv.hpp ' + SX + 'matrix_types/dist_sparse_matrix.hpp ' + SX + 'util/mpi.hpp', [dict(name='communication plan', where=SX + 'spblas/pspmbv.hpp: generate_spmv_comm_info, spmv_info'), dict(name='overlapped product', where=SX + 'spblas/pspmbv.hpp: pgespmv')],
 E('spd', 'spd_mv1 spd_mv2 spd_mv3', 'default partition') + E('spd', 'spd_mv2c spd_mv3c', 'all contiguous partitions') + E('spd', 'spd_mv2one spd_mv3one', 'two couplings anywhere'), over=('inputs', 'configurations', 'schedules'), assumptions=[MPI])
prop('P33', 'Distributed matrices partition the global matrix exactly',
 'A distributed matrix assigns each row to exactly one rank following the default or the given partition, splits every local row into a zero-based square tile of local columns and a tile of remote columns that together hold each entry once, rejects invalid partitions, and copies/moves as an independent equal object.',
 '1-4 ranks, orders 3-5, all partitions, 2-4 symbolic pattern positions, both index bases, 32- and 64-bit indices',
 'The repository tests never construct a distributed matrix; remainders, empty blocks, custom partitions and copies are not exercised.',
 SX + 'matrix_types/dist_sparse_matrix.hpp ' + SX + 'util/submatrix.hpp', [dict(name='row partition and tiles', where=SX + 'matrix_types/dist_sparse_matrix.hpp: constructors')],
 E('spd', 'spd_part1 spd_part2 spd_part3 spd_part4', 'default partition') + E('spd', 'spd_part2c spd_part3c', 'all partitions') + E('spd', 'spd_bad1 spd_bad2 spd_bad3', 'up to three symbolic row intervals') + E('spd', 'spd_i64', 'all 3x3 patterns, 64-bit indices'), over=('inputs', 'configurations'), assumptions=[MPI])
prop('P34', 'Sub-blocks, triangles, diagonals and traces are exact',
 'Extracting a sub-block, the rows without a column range, the upper triangle, the diagonal or the trace of a compressed-row matrix returns exactly the selected entries (shifted to the block origin) with consistent row pointers, for any pattern, any bounds including empty ones, and both index bases.',
 'all patterns up to 2x3, 1x4, 4x1 with all sub-ranges; all patterns up to 3x3 and 4x2 for triangle, diagonal and trace',
 'The tests use one matrix and one range; empty ranges, boundary columns and missing diagonals are not sampled.',
 SX + 'util/submatrix.hpp', [dict(name='extraction', where=SX + 'util/submatrix.hpp')],
 E('spx', 'sp_sub sp_subx sp_sub14 sp_subx14 sp_sub31 sp_subx31 sp_sub23 sp_subx23', 'all patterns, all ranges') + E('spx', 'sp_tri sp_tri32', 'all patterns'))
prop('P35', 'Permutations, partitions and adjacency follow their definitions',
 'Row/column/two-sided permutations place entry (p(i),q(j)) at (i,j) with columns sorted, vector permutations and inverses undo each other, a partition vector becomes a permutation grouping each part contiguously in original order, and the adjacency structure is the off-diagonal pattern in the requested index base.',
 'all permutations of 2-4 elements on all patterns up to 3x2/2x3/1x4, all partitions of 4 into 1-3 parts, all patterns up to 3x3 for adjacency',
 'The adjacency test uses a single matrix; permutations have no test.',
 SX + 'util/permute.hpp ' + SX + 'util/graph.hpp', [dict(name='permutations', where=SX + 'util/permute.hpp'), dict(name='adjacency', where=SX + 'util/graph.hpp: extract_adjacency')],
 E('spx', 'sp_perm_vec', 'all permutations of 3-4') + E('spx', 'sp_perm_rows sp_perm_cols sp_perm_cols4 sp_perm_both sp_perm_both32', 'all patterns and permutations') + E('spx', 'sp_adj', 'all patterns of order 1-3') + E('spx', 'sp_part', 'all part vectors'))
prop('P36', 'Sparse matrix files round-trip',
 'A matrix written as Matrix Market text (by one rank or by all ranks of a distributed matrix) or as binary triplets reads back as the same matrix in any format, symmetric and pattern files expand to the full matrix, Rutherford-Boeing files of unsymmetric real matrices read as the matrix they describe, and malformed headers are rejected.',
 'all patterns up to 2x3/3x2/3x3, both index bases, forced or kept, all real values, 1-3 ranks',
 'The I/O tests read two fixed files and never write; index base, empty rows and precision depend on the matrix.',
 SX + 'io/read_mm.hpp ' + SX + 'io/write_mm.hpp ' + SX + 'io/write_dist_mm.hpp ' + SX + 'io/read_rb.hpp ' + SX + 'io/read_binary_triplets.hpp ' + SX + 'io/write_binary_triplets.hpp',
 [dict(name='text formats', where=SX + 'io/read_mm.hpp, write_mm.hpp, write_dist_mm.hpp, read_rb.hpp'), dict(name='binary triplets', where=SX + 'io/read_binary_triplets.hpp, write_binary_triplets.hpp')],
 E('spd', 'sp_mm_csr sp_mm_csc sp_mm_coo sp_mm_dflt sp_mm_sym sp_mm_symm sp_mm_bad', 'all patterns up to 2x3/3x2') + E('spd', 'sp_bin_csr sp_bin_csr33 sp_bin_coo', 'all patterns up to 3x3') + E('spd', 'sp_rb_csc sp_rb_csr', 'all patterns 1-3 x 2, 2 x 1-3') + E('spd', 'spd_file1 spd_file2 spd_file3', '1-3 ranks'), over=('inputs', 'configurations'), assumptions=[IO, MPI])
prop('P37', 'Text helpers split and trim exactly',
 'Trimming removes exactly the surrounding whitespace, tokenising returns the non-empty fields between delimiter characters in order, and equal index pairs hash equally.',
 'all strings of up to 5 characters over blank, tab, delimiters and letters; all pairs of 32-bit integers',
 'The readers depend on these helpers for any layout of blanks; the tests see two files.',
 SX + 'util/string.hpp ' + SX + 'util/hash.hpp', [dict(name='trim and tokenize', where=SX + 'util/string.hpp'), dict(name='pair hash', where=SX + 'util/hash.hpp')],
 E('spx', 'sp_trim sp_token sp_token2 sp_token3', 'all strings up to 4/5/4 characters, two-letter alphabets up to 13') + E('spx', 'sp_hash', 'all pairs'))

ATI=['attic/inc','_build/src/sparsexx/include','src/sparsexx/include','src/lobpcgxx/include']
AT=['$REPO/attic/src/cmz_ed/%s.c++'%x for x in ('combins','slaterdet','hamil','rdms','utils')]
for u,h in (('attic','attic'),('attint','attint'),('atutil','atutil')):
 unit(u,'harness/%s.cpp'%h,*AT,std='c++20',include=['memory','optional'],inc=ATI)
AI='attic/inc/cmz_ed/'; ASR='attic/src/cmz_ed/'
prop('P39', 'Legacy library: determinants, excitations, signs and spaces',
 'In the cmz_ed library a determinant stores exactly the alpha and beta occupations it was built from for any orbital count it supports; counts, differences and occupied/virtual lists are those occupations; excitation signs are the fermionic permutation signs; the singles-and-doubles list (plain or screened by integrals) holds every allowed excitation once, dropping only those whose coupling is below the threshold; combination and determinant-space generators list every member of the sector exactly once, in the sorted order lookups rely on; and the hashed connected-pair lists name exactly the pairs one or two excitations apart.',
 'orbital counts 1-4 with every sector, selected counts up to 63 with symbolic orbital positions, all integral values and thresholds',
 'The repository test checks a handful of eight-orbital determinants; orbital counts beyond 31 and screened excitation lists are never tested.',
 ASR+'slaterdet.c++ '+ASR+'combins.c++ '+AI+'slaterdet.h++ '+AI+'combins.h++',
 [dict(name='determinant type and excitations', where=ASR+'slaterdet.c++: slater_det'), dict(name='space generation', where=ASR+'combins.c++: BuildCombs, BuildFullHilbertSpace')],
 E('attic','att_sgn_up att_sgn_do','all bit patterns of 5 and 32 orbitals')+E('attic','att_cnt att_flip att_lists','3-32 orbitals, all patterns (lists: symbolic window)')+E('attic','att_sd3 att_sd4','3/4 orbitals, every sector')+E('attic','att_sd_wide','17 orbitals, one electron')+E('attic','att_sdi2 att_sdi3 att_sdi3d att_sdi3s att_sdi4d','screened lists, 2-4 orbitals, symbolic threshold and integrals')+E('attic','att_comb att_comb_wide','up to 6 orbitals all k; 33-63 orbitals with one electron or hole (33 choose 2)')+E('attic','att_hilb att_hilb_shift','1-4 orbitals, every sector')+E('attic','att_pairs2 att_pairs3 att_pairs4','determinant lists of 2-3 states'), assumptions=[SPAN], par=3)
prop('P40', 'Legacy library: Hamiltonian elements and sparse Hamiltonian are exact',
 'The cmz_ed matrix element between any two determinants equals the second-quantised value for the stored integrals, including sign, symmetry and zero beyond double excitations, and the sparse Hamiltonian built over a determinant list (all-pairs loop, row loop or hashed pairs) is the full symmetric matrix of these elements, independent of the list order and construction method.',
 'all determinant pairs of 3 orbitals, sectors of 4 orbitals, wide determinants with two symbolic orbital positions; all integral values; lists of 2-3 determinants',
 'The repository tests compare a few numbers of one Hubbard-like model whose integrals are mostly zero.',
 ASR+'hamil.c++ '+AI+'hamil.h++ '+AI+'integrals.h++ '+AI+'ed.h++', [dict(name='Slater-Condon evaluation', where=ASR+'hamil.c++: FermionHamil::GetHmatel'), dict(name='matrix construction', where=ASR+'hamil.c++: GetHmat, GetHmat_FullDiag variants')],
 E('attic','att_elem3','3 orbitals, every sector and pair')+E('attic','att_elem4 att_elem4b att_elem4c','sectors (2,1),(1,2),(2,0) of 4 orbitals; thorough (2,2)')+E('attic','att_elem_wide att_elem_wide2','wide determinants')+E('attic','att_hp att_hp_loop','3 orbitals, 2-3 determinants')+E('attic','att_hmat2 att_hmat3 att_hmat_pairs att_hmat_k3','2-3 determinants of 2-3 orbitals'), assumptions=[SPAN], par=3)
prop('P41', 'Legacy library: density matrices, their embedding, rotation and file',
 'cmz_ed density matrices of any wavefunction give exactly the expectation values of the excitation operators: trace counts electrons, contraction with the integrals gives the energy of the same determinants and coefficients. Element access honours the stored layout, rotating orbitals is the tensor rotation, embedding an active-space density into the full space adds the closed-shell inactive part, sizes that do not match are rejected, and the binary file round-trips.',
 'all sectors of 2-3 orbitals and selected sectors of 4, wavefunctions of 1-3 determinants with symbolic coefficients; 1-3 orbitals for transformations',
 'No test computes a density matrix of the legacy library; signs and factors cancel in symmetric examples.',
 ASR+'rdms.c++ '+AI+'rdms.h++', [dict(name='accumulation and transformations', where=ASR+'rdms.c++')],
 E('attic','att_rdm2 att_rdm3','2-3 orbitals, every sector')+E('attic','att_rdm3p att_rdm3t','pairs/triples of determinants of 3 orbitals')+E('attic','att_rdm4 att_rdm4m att_rdm4b','sectors (2,0),(2,2),(0,2) of 4 orbitals')+E('attic','att_rdm_access att_rdm_size att_rdm_rot att_rdm_as att_rdm_read','1-3 orbitals'), over=('inputs',), assumptions=[SPAN,IO], par=3)
prop('P42', 'Legacy library: integral storage, files and active-space rotation',
 'cmz_ed integral keys identify exactly the index tuples equal by symmetry; the dense accessors and the symmetric map store return, for every index, the value last stored for it or an equivalent index; reading an integral file stores every line at its place with the symmetry of the format, rejects out-of-range lines, and writing then reading returns the same integrals; orbital rotations are the tensor rotations restricted to the active space.',
 '1-3 orbitals, all index tuples, all values; all orders and duplicates of symbolic file lines',
 'No test reads or rotates integrals beyond one Hubbard file.',
 AI+'integrals.h++', [dict(name='integrals, integral_symm_map', where=AI+'integrals.h++')],
 E('attint','atn_two atn_four','all index tuples')+E('attint','atn_index atn_access atn_size atn_space atn_rot atn_rot_as atn_store atn_store_miss','1-3 orbitals')+E('attint','atn_read atn_read_bad atn_read_bad2 atn_write','symbolic lines'), over=('inputs',), assumptions=[SPAN,IO], par=3)
prop('P46', 'Legacy library: input files and vector helpers',
 'cmz_ed reads input files key by key (comments, blank lines and keys without value included), rejects duplicates and missing files, returns typed parameters exactly, reads matrices and vectors as stored, and its inner products, linear combinations and matrix elements are the mathematical ones with the left argument conjugated.',
 'matrices and vectors up to order 4 with every pattern, all values, all combinations of optional lines',
 'The tests only read one well-formed input file and never use the complex helpers.',
 ASR+'utils.c++ '+AI+'utils.h++', [dict(name='file readers', where=ASR+'utils.c++: ReadInput, ReadMat, ReadVec'), dict(name='inner products', where=ASR+'utils.c++: MyInnProd, MyAdd, GetMatrixEl')],
 E('atutil','atu_mat atu_vec atu_input atu_param atu_inner atu_matel','orders 0-4'), over=('inputs',), assumptions=[IO], par=3)
unit('atlan','harness/atlan.cpp',*AT,'$REPO/attic/src/cmz_ed/eigsolver.c++','$REPO/attic/src/cmz_ed/bandlan.c++','$REPO/attic/src/cmz_ed/ed.c++',std='c++20',include=['memory','optional'],inc=ATI,defs=['-D_GLIBCXX_CHRONO_IO_H=1','-D_GLIBCXX_FORMAT=1'])
prop('P47', 'Legacy library: Lanczos ground states and resolvents',
 'The cmz_ed Lanczos and band-Lanczos recursions produce, for every symmetric Hamiltonian, an orthonormal Krylov basis with the projected matrix as recurrence coefficients, hand exactly that matrix to the eigensolver and return its lowest eigenvalue; the ground-state vector is the combination of the Krylov vectors given by the eigenvector; the resolvent elements are the matrix elements of the inverse of the shifted projected matrix; operators act as their matrices; the complete diagonalisation returns energy, core shift and density matrices of the ground state.',
 'orders 1-4, 1-3 Lanczos steps, bands of 1-2 vectors, all real matrices (tridiagonal or generated so that norms are rational), eigen-decompositions arbitrary; two-site model with symbolic parameters for the complete run',
 'The tests diagonalise one Hubbard chain; restarts, early breakdown, band widths and complex frequencies are not sampled.',
 AI+'lanczos.h++ '+AI+'bandlan.h++ '+ASR+'bandlan.c++ '+ASR+'eigsolver.c++ '+ASR+'ed.c++ '+AI+'eigsolver.h++',
 [dict(name='recursions', where=AI+'lanczos.h++, '+AI+'bandlan.h++'), dict(name='resolvent and LAPACK wrappers', where=ASR+'bandlan.c++, '+ASR+'eigsolver.c++'), dict(name='driver', where=ASR+'ed.c++: RunED')],
 E('atlan','atl_lan1 atl_lan2 atl_lan3 atl_back1 atl_back2','1-3 steps')+E('atlan','atl_gs2 atl_gs3 atl_gs4 atl_gsv2 atl_gsv3 atl_gsv4 atl_eigvec atl_eigvecv atl_full','orders 2-4')+E('atlan','atl_hste atl_hsyev atl_qr atl_qr_tr atl_eigsys atl_eigband','orders 1-3')+E('atlan','atl_ops atl_dist','orders 1-3')+E('atlan','atl_band1 atl_band2','orders 3-4, 1-2 start vectors, 1-4 steps')+E('atlan','atl_res1 atl_res2 atl_res22 atl_res23','orders 2-3, 1-2 bands')+E('atlan','atl_ed','two sites'), assumptions=[IO,LA,MPI], par=3)
unit('atgf','harness/atgf.cpp',*AT,'$REPO/attic/src/cmz_ed/eigsolver.c++','$REPO/attic/src/cmz_ed/bandlan.c++','$REPO/attic/src/dbwy/gf.c++',std='c++20',include=['memory','optional'],inc=ATI,defs=['-D_GLIBCXX_CHRONO_IO_H=1','-D_GLIBCXX_FORMAT=1'],native_libs=['-llapack','-lblas'])
prop('P49', "Legacy library: Green's functions of determinant wavefunctions",
 "The legacy Green's function layer builds, for every determinant wavefunction, orbital, spin and particle or hole sector, the basis of all determinants reached by the operator and by the requested rounds of active single excitations from the important ones, each once and cut only beyond the requested size; its start vectors are the fermionic operator applied to the wavefunction (vanishing ones reported and left out); diagonal elements are the resolvent of the Lanczos-projected Hamiltonian; results are written value for value.",
 '2-3 orbitals in determinants of 8 and 64 bits, wavefunctions of 1-2 determinants with arbitrary coefficients, 1-2 rounds of excitations, every active set and sector; signs for every 8- and 64-bit determinant; resolvents of 1-2 Krylov vectors at arbitrary real frequencies (complex frequencies: P47); the Hamiltonian assembly of RunGFCalc and three or more Krylov vectors are outside',
 'No test runs this code: signs across spin blocks, seeds of the basis and orbitals with vanishing start vectors are never sampled.',
 'attic/inc/dbwy/gf.h++ attic/src/dbwy/gf.c++ attic/inc/dbwy/sd_operations.hpp attic/inc/dbwy/bitset_operations.hpp', [dict(name='basis and start vectors', where='attic/inc/dbwy/gf.h++: get_GF_basis_AS_1El, BuildWfn4Lanczos, GetInsertionUpSign, GetInsertionDoSign'), dict(name='resolvent', where='attic/inc/dbwy/gf.h++: GF_Diag'), dict(name='output', where='attic/src/dbwy/gf.c++: write_GF'), dict(name='active single excitations', where='attic/inc/dbwy/sd_operations.hpp: generate_singles_spin_as')],
 E('atgf','gf_sign8 gf_sign64','all determinants of 8 and 64 bits')+E('atgf','gf_basis2 gf_basis3b','2-3 orbitals, every active set')+E('atgf','gf_basis3','3 orbitals, 2 determinants',timeout=200)+E('atgf','gf_trunc','limited basis')+E('atgf','gf_wfn2 gf_wfn3 gf_wfn4','start vectors of up to 4 orbitals')+E('atgf','gf_diag1 gf_diag2','1-2 Krylov vectors')+E('atgf','gf_write','output files'), assumptions=[IO,SPAN] if False else [IO], par=3)
unit('dbwy','harness/dbwy.cpp',*AT,std='gnu++20',include=['memory','optional'],inc=ATI,defs=['-D_GLIBCXX_CHRONO_IO_H=1','-D_GLIBCXX_FORMAT=1'],native_libs=['-llapack','-lblas'])
prop('P50', 'Legacy library: determinant Hamiltonians, densities and ASCI search',
 "The legacy determinant layer works for every determinant: its bit operations and excitation signs, its lists of single and double excitations and Hilbert spaces (also restricted to active orbitals), its matrix elements and excited-determinant energies equal their second-quantised definition; both generators build sparse blocks, also distributed, that hold every coupling above the threshold exactly once at its determinant's column, and density matrices that give back energies; orbital rotations transform all integrals; the ASCI search collects every contribution once, merges equal determinants, keeps wavefunction determinants by coefficient and the best scores, and growing and refining stop where they should with coefficients belonging to their determinants.",
 'determinants of 8 to 256 bits with 2-4 orbitals (signs also at the middle and the top of the orbital range; bit operations for all bits up to 64, six bits of 128- and 256-bit strings), arbitrary integrals for matrix elements, energies and densities of 2-3 determinants, blocks of up to 4 determinants with two arbitrary integrals and an arbitrary threshold, 1-3 ranks, scores with fixed denominators, whole searches and up to 3 refinement rounds on fixed integrals with the eigensolver replaced; the checkpoint and input driver (asci_body.hpp) and the unfinished residue-array generator are outside',
 'No test runs this code: excitations across the word boundary, blocks whose rows and columns differ, and searches with few or no contributions are never sampled.',
 'attic/inc/dbwy/bitset_operations.hpp attic/inc/dbwy/sd_operations.hpp attic/inc/dbwy/hamiltonian_generator.hpp attic/inc/dbwy/double_loop.hpp attic/inc/dbwy/sd_build.hpp attic/inc/dbwy/csr_hamiltonian.hpp attic/inc/dbwy/asci_util.hpp', [dict(name='bits, signs and excitations', where='attic/inc/dbwy/bitset_operations.hpp, attic/inc/dbwy/sd_operations.hpp'), dict(name='matrix elements, energies, rotation', where='attic/inc/dbwy/hamiltonian_generator.hpp'), dict(name='sparse blocks and density matrices', where='attic/inc/dbwy/double_loop.hpp, attic/inc/dbwy/sd_build.hpp, attic/inc/dbwy/csr_hamiltonian.hpp'), dict(name='search, growth, refinement', where='attic/inc/dbwy/asci_util.hpp: asci_search, asci_iter, asci_grow, asci_refine')],
 E('dbwy','db_bits8 db_bits64 db_bits128 db_bits256','8-256 bits')+E('dbwy','db_high64 db_high128 db_high256','signs at low, middle and high orbitals')+E('dbwy','db_elem3 db_elem4 db_elem4b db_elem256','3-4 orbitals, arbitrary integrals')+E('dbwy','db_fast1 db_fast2 db_fast3','3-4 orbitals, arbitrary integrals')+E('dbwy','db_csr db_csr_rect db_csr_sd db_csr_sd_rect','blocks of up to 4 determinants')+E('dbwy','db_dist2 db_dist2s db_dist3','2-3 ranks')+E('dbwy','db_form db_form_sd db_form3 db_rotate','2-3 orbitals')+E('dbwy','db_excit db_canon','3 orbitals')+E('dbwy','db_excit4','4 orbitals',timeout=200)+E('dbwy','db_contrib db_contrib4 db_contrib_den db_contrib_den4','3-4 orbitals')+E('dbwy','db_merge db_reorder','3-4 entries')+E('dbwy','db_search db_search1 db_search_full db_search_none','2-3 orbitals, 1-2 determinants',timeout=150)+E('dbwy','db_iter db_grow db_refine','3 orbitals, up to 3 rounds'), assumptions=[MPI,LA], par=3)

unit('atdav','harness/atdav.cpp',*AT,std='gnu++20',include=['memory','optional'],inc=ATI,defs=['-D_GLIBCXX_CHRONO_IO_H=1','-D_GLIBCXX_FORMAT=1'],native_libs=['-llapack','-lblas'])
prop('P51', 'Legacy library: the Davidson eigensolver follows the subspace iteration',
 "The legacy Davidson solvers start from a vector of unit norm over all ranks (serially the unit vector of the lowest diagonal element), expand an orthonormal basis by the preconditioned residual of the lowest Ritz pair, never beyond the dimension of the matrix, and stop exactly when the residual falls below the tolerance or the subspace is full, also when the start vector is already an eigenvector; the value and vector returned are the lowest Ritz pair, the same on every rank for every distribution of the rows, including ranks without rows.",
 'orthogonalisation against 1-2 old vectors in R^3 and R^4 over 1-3 ranks; serial runs on 1-3 rows and distributed runs on 1-4 rows over 1-3 ranks with subspaces of up to 2 (3 when clipped), arbitrary symmetric matrices (4 rows: two arbitrary entries), arbitrary tolerance, arbitrary results of the dense eigensolver; scripted start vectors along an axis and with equal components (for mixed components only the norm is decided, numerically)',
 'No test calls this solver: the start vector, the split over ranks and the ending at an eigenvector are never sampled, and a wrong norm shows only on several ranks.',
 'attic/inc/dbwy/davidson.hpp', [dict(name='serial solver', where='attic/inc/dbwy/davidson.hpp: davidson, gram_schmidt'), dict(name='distributed solver', where='attic/inc/dbwy/davidson.hpp: p_davidson, p_gram_schmidt, p_rayleigh_ritz')],
 E('atdav','ad_gs1 ad_gs2 ad_pgs1 ad_pgs2 ad_pgs3','1-2 old vectors in R^3, R^4, 1-3 ranks')+E('atdav','ad_prr2 ad_prr3','projected problems, 2-3 ranks')+E('atdav','ad_1 ad_2 ad_32','serial, 1-3 rows')+E('atdav','ad_p1 ad_p2 ad_p3 ad_p32 ad_start ad_p24 ad_p23','1-4 rows, 1-3 ranks',timeout=45), assumptions=[MPI,LA], par=3)
