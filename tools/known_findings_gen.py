import subprocess
m={'attic Davidson normalizes':('P51','each rank normalised its part of the start vector by the local norm, so on several ranks the basis was not orthonormal and the energy wrong; a rank without rows divided by zero'),
'attic Davidson returns a guess':('P51','a start vector that is an eigenvector (a single determinant, say) gave 0/0, and with a subspace limit above the dimension the vanished residual was normalised'),
'attic ffs counts':('P50','for 128-bit strings the first set bit was counted from zero, so excitations of 256-bit determinants used the wrong orbitals'),
'attic SDBuild blocks place':('P50','blocks whose rows and columns differ (off-diagonal tiles of the distributed Hamiltonian) got a diagonal element at column i'),
'attic ASCI duplicate removal':('P50','duplicates were sorted with >=, which is no strict order'),
'attic ASCI search accepts':('P50','a search without contributions read past an empty list; asking for more determinants than reached passed an iterator past the end'),
'double excitations must not touch':('P10','adding the contribution of a determinant pair two excitations apart with no 2-RDM requested changed the 1-RDM (label "one-body density contribution when no two-body density is requested")'),
'write_fcidump releases its logger':('P18','the file was not flushed on return and a second call threw "logger with name \'fcidump\' already exists"'),
'write_fcidump replaces the contents':('P18','writing to an existing file appended to it'),
'read_fcidump_1body skips orbital':('P18','orbital-energy lines were written out of the range of the one-body matrix'),
'read_rdms_binary rejects truncated':('P19','a truncated file left the arrays partly unset without an error'),
'attic 2-RDM includes double':('P41','double excitations of spin-down electrons were never counted'),
'attic BuildCombs supports':('P39','bit strings longer than 31 bits were built with a 32-bit shift'),
'attic excitation signs use 64-bit':('P39','sign masks beyond bit 31 were wrong'),
'attic GetFlippedOccIndx scans':('P39','only the low 32 bits were searched'),
'attic read_RDMs initializes':('P41','an unreadable header left the orbital count uninitialised'),
'attic UpdateFromAS adds':('P41','the inactive diagonal of the embedded 2-RDM was -2 instead of 4-2'),
'attic ReadInput skips blank':('P46','a blank line repeated the previous key (rejected as a duplicate) and a key without a value took the previous value'),
'attic excitation screening uses':('P39','doubles were screened with (v1 v2|o1 o2) instead of (v1 o1|v2 o2)'),
'attic excitation screening includes':('P39','singles coupled only through the occupied orbitals were dropped'),
'attic 2-RDM keeps the bra':('P41','second orbital pair of a double excitation was taken from a modified bra'),
'COO to CSR/CSC':('P29','row/column pointers of matrices with empty rows or columns; non-square COO to CSC threw out_of_range'),
'triangle expansion':('P30','expand_from_triangle of a triangle without a full diagonal left a wrong entry count or threw length_error'),
'COO matrix-vector':('P31','COO product of one-based matrices read and wrote one element past the vectors'),
'COO to dense':('P29','dense copy of one-based COO matrices wrote one row and column too far'),
'matrix-type constraints':('P36','write_binary_triplet did not compile for any matrix type'),
'copying a distributed':('P33','copies of distributed matrices with a custom row partition reported the default partition'),
'write_mm writes':('P36','a one-based matrix written without a forced base had zero-based rows and one-based columns'),
'distribute search constraints':('P13','constraints fixing all alpha electrons were dropped when broken apart, and nothing was generated for fewer than three alpha electrons'),
'keep accumulated constraints in front':('P11','pruning in the distributed search moved pairs between constraints: determinants were listed twice and the range to accumulate could start past the end'),
'honour just_singles':('P15','the distributed search ignored just_singles'),
'distributed determinant search keeps':('P15','null dereference / out-of-range selection when all or none of the candidates are kept, and larger scores dropped in favour of ties'),
'honour the leading dimensions of X':('P21','tensors with a leading dimension above the orbital count were read and written with the wrong strides'),
'one_index_transformed':('P25','the one-body integrals were read with the leading dimension of the rotation'),
'orb_orb_hessian_contract':('P25','the Hessian product was not the symmetric second derivative of the energy'),
'mp2_1rdm writes':('P26','the occupied-virtual blocks of the MP2 density kept whatever the caller passed in'),
'numerical_orbital_gradient stores':('P24','the numerical gradient was stored without its leading dimension'),
'numerical_orbital_hessian pairs':('P25','rotations (b,j) with b > j were paired wrongly'),
'p_diagonal_guess sets':('P28','the distributed diagonal guess was set on the wrong rank (or out of range) unless the row was in the first block'),
'guess that already is an eigenvector':('P28','an exact eigenvector (every one-dimensional problem, decoupled determinants) as guess ended in a division by zero and "did not converge"'),
'agree on the initial guess':('P28','ranks decided separately whether to use the passed vector: deadlock or a mixed guess'),
'diagonal_guess returns a unit vector':('P28','diagonal_guess left the remaining entries as the caller passed them'),
'valid leading dimensions on ranks':('P28','ranks without rows passed zero leading dimensions: rejected calls left stale inner products with the reference BLAS'),
'form CAS-CI densities':('P45','with several ranks the densities were formed from the local rows of the CI vector, reading past its end'),
'asci_grow returns the energy':('P48','after the rotation to natural orbitals the energy of the unrotated wavefunction was reported, used for the next search and returned'),
'defines generate_singles_spin once':('P49','the Green\'s function header did not compile (duplicate definition)'),
'64-bit indices':('P33','dist_sparse_matrix of 64-bit indexed matrices did not compile')}
out=[]
for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],stdout=subprocess.PIPE,text=True).stdout.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    k=[x for x in m if x in s]
    assert k,s
    out.append(f"fixed: property={m[k[0]][0]} {h} {m[k[0]][1]}")
head='# Genuine defects found by the checks. A fixed: entry suppresses nothing. A line \'finding: property=<id> entry=<harness entry> label="<assertion label>" <what fails>\' is reported as KNOWN-FINDING.\n'
extra=open('/verif/known_findings.txt').read().splitlines() if __import__('os').path.exists('/verif/known_findings.txt') else []
extra=[x for x in extra if x.startswith('finding:')]
open('/verif/known_findings.txt','w').write(head+'\n'.join(out+extra)+'\n')
