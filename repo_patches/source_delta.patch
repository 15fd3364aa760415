From 272e4e4c07867733c35a5237bc35804da4d37ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 01/47] fix: double excitations must not touch the 1-RDM when
 no 2-RDM is requested

---
 include/macis/util/rdms.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/macis/util/rdms.hpp b/include/macis/util/rdms.hpp
index 72b55bb..2af526a 100644
--- a/include/macis/util/rdms.hpp
+++ b/include/macis/util/rdms.hpp
@@ -108,14 +108,17 @@ inline void rdm_contributions(wfn_t<N> bra_alpha, wfn_t<N> ket_alpha,
 
   if((ex_alpha_count + ex_beta_count) > 4) return;
 
+  // Double excitations only contribute to the 2-RDM
   const auto trdm_ptr = trdm.data_handle();
-  if(ex_alpha_count == 4 and trdm_ptr)
+  if(ex_alpha_count + ex_beta_count == 4 and not trdm_ptr) return;
+
+  if(ex_alpha_count == 4)
     rdm_contributions_4(bra_alpha, ket_alpha, ex_alpha, val, trdm);
 
-  else if(ex_beta_count == 4 and trdm_ptr)
+  else if(ex_beta_count == 4)
     rdm_contributions_4(bra_beta, ket_beta, ex_beta, val, trdm);
 
-  else if(ex_alpha_count == 2 and ex_beta_count == 2 and trdm_ptr)
+  else if(ex_alpha_count == 2 and ex_beta_count == 2)
     rdm_contributions_22(bra_alpha, ket_alpha, ex_alpha, bra_beta, ket_beta,
                          ex_beta, val, trdm);
 
-- 
2.43.0


From b222fcf5400a39704bdff03457a80e786f1d9070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 02/47] fix: COO to CSR/CSC conversion with empty rows/columns
 and non-square shapes

---
 .../include/sparsexx/matrix_types/conversions.hpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
index 563cdea..2c7ba7d 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
@@ -78,11 +78,11 @@ csr_matrix<T, index_t, Alloc>::csr_matrix(
   rowptr_.at(0) = other.indexing();
   auto cur_row = 0;
   for(size_type i = 0; i < nnz_; ++i)
-    if(rowind_coo[i] != (cur_row + indexing_)) {
+    while(rowind_coo[i] != (cur_row + indexing_)) {
       cur_row++;
       rowptr_.at(cur_row) = i + indexing_;
     }
-  rowptr_.at(m_) = nnz_ + indexing_;
+  while(cur_row < m_) rowptr_.at(++cur_row) = nnz_ + indexing_;
 
   std::copy(colind_coo.begin(), colind_coo.end(), colind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
@@ -105,11 +105,11 @@ csc_matrix<T, index_t, Alloc>::csc_matrix(
   colptr_.at(0) = other.indexing();
   auto cur_col = 0;
   for(size_t i = 0; i < nnz_; ++i)
-    if(colind_coo[i] != (cur_col + indexing_)) {
+    while(colind_coo[i] != (cur_col + indexing_)) {
       cur_col++;
       colptr_.at(cur_col) = i + indexing_;
     }
-  colptr_.at(m_) = nnz_ + indexing_;
+  while(cur_col < n_) colptr_.at(++cur_col) = nnz_ + indexing_;
 
   std::copy(rowind_coo.begin(), rowind_coo.end(), rowind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
-- 
2.43.0


From 35e471f61cd4af3719f3670557e731bf352651a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 03/47] fix: triangle expansion of COO matrices without a full
 diagonal

---
 src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
index c6a2c7f..ca091fa 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
@@ -111,7 +111,9 @@ void coo_matrix<T, index_t, Alloc>::expand_from_triangle() {
   if(diagonal or full_matrix) return;
 
   std::cout << "Performing Expansion..." << std::endl;
-  size_t new_nnz = 2 * nnz_ - n_;
+  size_t n_diag = 0;
+  for(size_t i = 0; i < nnz_; ++i) n_diag += rowind_[i] == colind_[i];
+  size_t new_nnz = 2 * nnz_ - n_diag;
   rowind_.reserve(new_nnz);
   colind_.reserve(new_nnz);
   nzval_.reserve(new_nnz);
-- 
2.43.0


From 89fa52364391f7d40d5d1077f4a34fde8d7475b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 04/47] fix: COO matrix-vector product honours the index base

---
 src/sparsexx/include/sparsexx/spblas/spmbv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
index 419c42c..a77eb99 100644
--- a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
@@ -121,8 +121,8 @@ gespmbv(int64_t K, ALPHAT ALPHA, const SpMatType& A,
 
   for(index_type k = 0; k < K; ++k)
     for(index_type inz = 0; inz < nnz; ++inz) {
-      const auto i = Ari[inz];
-      const auto j = Aci[inz];
+      const auto i = Ari[inz] - indexing;
+      const auto j = Aci[inz] - indexing;
       AV[i + k * LDAV] += alpha * Anz[inz] * V[j + k * LDV];
     }
 }
-- 
2.43.0


From 8663b6caada2515cb3903246b4040e13de97d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 05/47] fix: COO to dense conversion honours the index base

---
 .../include/sparsexx/matrix_types/dense_conversions.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
index 376bfa3..eb633cf 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
@@ -59,7 +59,7 @@ void convert_to_dense(const coo_matrix<Args...>& A,
 
 #pragma omp parallel for
   for(int64_t i = 0; i < nnz; ++i) {
-    A_dense[Ari[i] + Aci[i] * LDAD] = Anz[i];
+    A_dense[(Ari[i] - indexing) + (Aci[i] - indexing) * LDAD] = Anz[i];
   }
 }
 
-- 
2.43.0


From 4dc25db4765f98debf5026404e804d3661362b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 06/47] fix: matrix-type constraints are usable for overload
 selection (binary triplet writers)

---
 .../include/sparsexx/matrix_types/type_traits.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
index 14549d0..20ba626 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
@@ -53,17 +53,14 @@ template <typename SpMatType>
 inline constexpr bool is_coo_matrix_v = is_coo_matrix<SpMatType>::value;
 
 template <typename SpMatType, typename U = void>
-struct enable_if_csr_matrix {
-  using type = std::enable_if_t<is_csr_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csr_matrix
+    : public std::enable_if<is_csr_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_csc_matrix {
-  using type = std::enable_if_t<is_csc_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csc_matrix
+    : public std::enable_if<is_csc_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_coo_matrix {
-  using type = std::enable_if_t<is_coo_matrix_v<SpMatType>, U>;
-};
+struct enable_if_coo_matrix
+    : public std::enable_if<is_coo_matrix_v<SpMatType>, U> {};
 
 template <typename SpMatType, typename U = void>
 using enable_if_csr_matrix_t =
-- 
2.43.0


From c02741f1e7f8f07fe26ec91b614a80a39da9bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 07/47] fix: copying a distributed matrix keeps its row
 partition

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index a2f8893..33d671c 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -84,7 +84,8 @@ class dist_sparse_matrix {
   }
 
   dist_sparse_matrix(const dist_sparse_matrix& other)
-      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_) {
+      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_,
+                           other.dist_row_extents_) {
     if(other.diagonal_tile_) set_diagonal_tile(other.diagonal_tile());
     if(other.off_diagonal_tile_)
       set_off_diagonal_tile(other.off_diagonal_tile());
-- 
2.43.0


From 95aa212c78cfa58e726588d8c1b3cb5c3c451eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 08/47] fix: write_mm writes rows and columns with the same
 index base

---
 src/sparsexx/include/sparsexx/io/write_mm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/io/write_mm.hpp b/src/sparsexx/include/sparsexx/io/write_mm.hpp
index c29e7a2..30bf831 100644
--- a/src/sparsexx/include/sparsexx/io/write_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_mm.hpp
@@ -72,7 +72,7 @@ void write_mm(std::string fname, const csr_matrix<Args...>& A, bool symm,
   write_mm_header(file, m, n, nnz, symm);
 
   int col_offset = 0;
-  int row_offset = 0;
+  int row_offset = A.indexing();
   if(forced_index >= 0) {
     col_offset = forced_index - A.indexing();
     row_offset = forced_index;
-- 
2.43.0


From 6875f97f7274b559281ccf47195e10b98c0fdd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 09/47] fix: distributed matrices with 64-bit indices compile

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index 33d671c..5bc7e28 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -95,9 +95,9 @@ class dist_sparse_matrix {
       : dist_sparse_matrix(c, A.m(), A.n()) {
     auto [local_row_st, local_row_en] = dist_row_extents_[comm_rank_];
     auto local_lo =
-        std::make_pair<int64_t, int64_t>(local_row_st, local_row_st);
+        std::pair<int64_t, int64_t>(local_row_st, local_row_st);
     auto local_up =
-        std::make_pair<int64_t, int64_t>(local_row_en, local_row_en);
+        std::pair<int64_t, int64_t>(local_row_en, local_row_en);
     diagonal_tile_ =
         std::make_shared<tile_type>(extract_submatrix(A, local_lo, local_up));
     off_diagonal_tile_ = std::make_shared<tile_type>(
@@ -111,9 +111,9 @@ class dist_sparse_matrix {
       : dist_sparse_matrix(c, A.m(), A.n(), row_tiles) {
     auto [local_row_st, local_row_en] = dist_row_extents_[comm_rank_];
     auto local_lo =
-        std::make_pair<int64_t, int64_t>(local_row_st, local_row_st);
+        std::pair<int64_t, int64_t>(local_row_st, local_row_st);
     auto local_up =
-        std::make_pair<int64_t, int64_t>(local_row_en, local_row_en);
+        std::pair<int64_t, int64_t>(local_row_en, local_row_en);
     diagonal_tile_ =
         std::make_shared<tile_type>(extract_submatrix(A, local_lo, local_up));
     off_diagonal_tile_ = std::make_shared<tile_type>(
-- 
2.43.0


From 07060eaedc24da78485493f655d6bccd49edfd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 10/47] fix: distribute search constraints for every alpha
 electron count and never drop a constraint that cannot be broken apart

---
 include/macis/asci/mask_constraints.hpp | 47 ++++++++++++++++---------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index c9907e0..1534354 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -83,8 +83,6 @@ auto generate_constraint_double_excitations(wfn_t<N> det, wfn_t<N> C,
   // Occ/Vir pairs to generate excitations
   std::vector<wfn_t<N>> O, V;
 
-  if((det & C) == 0) return std::make_tuple(O, V);
-
   auto o = det ^ C;
   auto v = (~det) & O_mask & B;
 
@@ -178,8 +176,6 @@ void generate_constraint_doubles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
 template <size_t N>
 unsigned count_constraint_doubles(wfn_t<N> det, wfn_t<N> C, wfn_t<N> O,
                                   wfn_t<N> B) {
-  if((det & C) == 0) return 0;
-
   auto o = det ^ C;
   auto v = (~det) & O & B;
 
@@ -500,19 +496,31 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
   std::vector<std::pair<wfn_constraint<N>, size_t>> constraint_sizes;
   constraint_sizes.reserve(norb * norb * norb);
   size_t total_work = 0;
-  for(int t_i = 0; t_i < norb; ++t_i)
-    for(int t_j = 0; t_j < t_i; ++t_j)
-      for(int t_k = 0; t_k < t_j; ++t_k) {
-        auto constraint = make_triplet<N>(t_i, t_j, t_k);
-        const auto& [T, B, _] = constraint;
+  auto add_constraint = [&](const wfn_constraint<N>& constraint) {
+    const auto& [T, B, _] = constraint;
 
-        size_t nw = 0;
-        for(const auto& alpha : unique_alpha) {
-          nw += constraint_histogram(alpha, ns_othr, nd_othr, T, O, B);
-        }
-        if(nw) constraint_sizes.emplace_back(constraint, nw);
-        total_work += nw;
-      }
+    size_t nw = 0;
+    for(const auto& alpha : unique_alpha) {
+      nw += constraint_histogram(alpha, ns_othr, nd_othr, T, O, B);
+    }
+    if(nw) constraint_sizes.emplace_back(constraint, nw);
+    total_work += nw;
+  };
+
+  // All alpha strings have the same number of electrons
+  const size_t n_alpha = unique_alpha.size() ? unique_alpha[0].count() : 0;
+  if(n_alpha >= 3) {
+    for(int t_i = 0; t_i < norb; ++t_i)
+      for(int t_j = 0; t_j < t_i; ++t_j)
+        for(int t_k = 0; t_k < t_j; ++t_k)
+          add_constraint(make_triplet<N>(t_i, t_j, t_k));
+  } else {
+    // Too few electrons for triplets, constrain the entire alpha string
+    for(const auto& C : generate_combs<N>(norb, n_alpha)) {
+      const unsigned C_min = n_alpha ? ffs(C) - 1 : 0;
+      add_constraint(wfn_constraint<N>{C, full_mask<N>(C_min), C_min});
+    }
+  }
 
   size_t local_average = (0.6 * total_work) / world_size;
 
@@ -536,6 +544,13 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
     for(auto [c, nw_trip] : tps_to_next) {
       const auto C_min = c.C_min;
 
+      // Constraints which fix all alpha electrons cannot be broken apart
+      if(c.C.count() >= n_alpha) {
+        constraint_sizes.emplace_back(c, nw_trip);
+        total_work += nw_trip;
+        continue;
+      }
+
       // Loop over possible constraints with one more element
       for(auto q_l = 0; q_l < C_min; ++q_l) {
         // Generate masks / counts
-- 
2.43.0


From 273b780f8e8ba3b14903235f04a5339570a04bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 11/47] fix: honour just_singles in the distributed determinant
 search

---
 include/macis/asci/determinant_search.hpp | 61 ++++++++++++-----------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 7d66813..23930c1 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -295,32 +295,34 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
             h_el_tol, h_diag, E_ASCI, ham_gen, asci_pairs);
       }
 
-      // AAAA excitations
-      for(const auto& bcd : uad[i_alpha].bcd) {
-        const auto& beta = bcd.beta_string;
-        const auto& coeff = bcd.coeff;
-        const auto& h_diag = bcd.h_diag;
-        const auto& occ_beta = bcd.occ_beta;
-        const auto& orb_ens_alpha = bcd.orb_ens_alpha;
-        generate_constraint_doubles_contributions_ss(
-            coeff, det, C, O, B, beta, occ_alpha, occ_beta,
-            orb_ens_alpha.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI,
-            ham_gen, asci_pairs);
-      }
+      if(not asci_settings.just_singles) {
+        // AAAA excitations
+        for(const auto& bcd : uad[i_alpha].bcd) {
+          const auto& beta = bcd.beta_string;
+          const auto& coeff = bcd.coeff;
+          const auto& h_diag = bcd.h_diag;
+          const auto& occ_beta = bcd.occ_beta;
+          const auto& orb_ens_alpha = bcd.orb_ens_alpha;
+          generate_constraint_doubles_contributions_ss(
+              coeff, det, C, O, B, beta, occ_alpha, occ_beta,
+              orb_ens_alpha.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI,
+              ham_gen, asci_pairs);
+        }
 
-      // AABB excitations
-      for(const auto& bcd : uad[i_alpha].bcd) {
-        const auto& beta = bcd.beta_string;
-        const auto& coeff = bcd.coeff;
-        const auto& h_diag = bcd.h_diag;
-        const auto& occ_beta = bcd.occ_beta;
-        const auto& vir_beta = bcd.vir_beta;
-        const auto& orb_ens_alpha = bcd.orb_ens_alpha;
-        const auto& orb_ens_beta = bcd.orb_ens_beta;
-        generate_constraint_doubles_contributions_os(
-            coeff, det, C, O, B, beta, occ_alpha, occ_beta, vir_beta,
-            orb_ens_alpha.data(), orb_ens_beta.data(), V_pqrs, norb, h_el_tol,
-            h_diag, E_ASCI, ham_gen, asci_pairs);
+        // AABB excitations
+        for(const auto& bcd : uad[i_alpha].bcd) {
+          const auto& beta = bcd.beta_string;
+          const auto& coeff = bcd.coeff;
+          const auto& h_diag = bcd.h_diag;
+          const auto& occ_beta = bcd.occ_beta;
+          const auto& vir_beta = bcd.vir_beta;
+          const auto& orb_ens_alpha = bcd.orb_ens_alpha;
+          const auto& orb_ens_beta = bcd.orb_ens_beta;
+          generate_constraint_doubles_contributions_os(
+              coeff, det, C, O, B, beta, occ_alpha, occ_beta, vir_beta,
+              orb_ens_alpha.data(), orb_ens_beta.data(), V_pqrs, norb, h_el_tol,
+              h_diag, E_ASCI, ham_gen, asci_pairs);
+        }
       }
 
       // If the alpha determinant satisfies the constraint,
@@ -343,10 +345,11 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
               h_diag, E_ASCI, ham_gen, asci_pairs);
 
           // BBBB Excitations
-          append_ss_doubles_asci_contributions<N / 2, N / 2>(
-              coeff, state, state_beta, occ_beta, vir_beta, occ_alpha,
-              eps_beta.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI, ham_gen,
-              asci_pairs);
+          if(not asci_settings.just_singles)
+            append_ss_doubles_asci_contributions<N / 2, N / 2>(
+                coeff, state, state_beta, occ_beta, vir_beta, occ_alpha,
+                eps_beta.data(), G_pqrs, norb, h_el_tol, h_diag, E_ASCI,
+                ham_gen, asci_pairs);
 
         }  // Beta Loop
       }    // Triplet Check
-- 
2.43.0


From 98dea96fedb6838c1f71ba90f46d92209864cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 12/47] fix: distributed determinant search keeps every
 determinant when fewer than requested exist and drops only ties

---
 include/macis/asci/determinant_search.hpp | 30 ++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 23930c1..1ea3282 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -574,10 +574,15 @@ std::vector<wfn_t<N>> asci_search(
       std::transform(asci_pairs.begin(), asci_pairs.end(), scores.begin(),
                      [](const auto& p) { return std::abs(p.rv); });
 
-      // Determine kth-ranked scores
-      auto kth_score =
-          dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
-                           std::greater<double>{}, std::equal_to<double>{});
+      // Determine kth-ranked scores (nothing to rank if all or none are kept)
+      const size_t npairs_global = allreduce(scores.size(), MPI_SUM, comm);
+      double kth_score = 0.0;
+      if(!top_k_elements)
+        kth_score = std::numeric_limits<double>::infinity();
+      else if(npairs_global > top_k_elements)
+        kth_score =
+            dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
+                             std::greater<double>{}, std::equal_to<double>{});
 
       // Partition local pairs into less / eq batches
       auto [g_begin, e_begin, l_begin, _end] = leg_partition(
@@ -589,11 +594,20 @@ std::vector<wfn_t<N>> asci_search(
       size_t n_greater = std::distance(g_begin, e_begin);
       size_t n_equal = std::distance(e_begin, l_begin);
       size_t n_less = std::distance(l_begin, _end);
+
+      // Edge case where NGEQ > TOPK - only drop equal elements
+      std::vector<size_t> equal_sizes, equal_displ;
+      total_gather_and_exclusive_scan(n_equal, equal_sizes, equal_displ, comm);
+      const size_t n_equal_keep =
+          top_k_elements - allreduce(n_greater, MPI_SUM, comm);
+      n_equal = std::min(
+          n_equal, n_equal_keep - std::min(n_equal_keep,
+                                           equal_displ[world_rank]));
       const int n_geq_local = n_greater + n_equal;
 
       // Strip bitsrings
       std::vector<wfn_t<N>> keep_strings_local(n_geq_local);
-      std::transform(g_begin, l_begin, keep_strings_local.begin(),
+      std::transform(g_begin, g_begin + n_geq_local, keep_strings_local.begin(),
                      [](const auto& p) { return p.state; });
 
       // Gather global strings
@@ -607,12 +621,6 @@ std::vector<wfn_t<N>> asci_search(
                      keep_strings_global.data(), local_sizes.data(),
                      displ.data(), string_dtype, comm);
 
-      // Edge case where NGEQ > TOPK - erase equivalent elements
-      if(n_geq_global > top_k_elements) {
-        n_geq_global = top_k_elements;
-        keep_strings_global.resize(n_geq_global);
-      }
-
       // Make fake strings
       topk.resize(n_geq_global);
       std::transform(keep_strings_global.begin(), keep_strings_global.end(),
-- 
2.43.0


From 8c07974da298a56472e7047749065238c0d65736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 13/47] fix: honour the leading dimensions of X and Y in
 four_index_transform

---
 src/macis/transform.cxx | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/macis/transform.cxx b/src/macis/transform.cxx
index 0403307..4be26f0 100644
--- a/src/macis/transform.cxx
+++ b/src/macis/transform.cxx
@@ -63,9 +63,21 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
   // 1st Quarter
   // TMP1(p,j,k,l) = C(i,p) * X(i,j,k,l)
   // TMP1(p, jkl)  = C(i,p) * X(i,jkl)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
-             norb_new, norb_old3, norb_old, 1.0, C, LDC, X, LDX, 0.0,
-             tmp1.data(), norb_new);
+  if(LDX == norb_old) {
+    blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
+               norb_new, norb_old3, norb_old, 1.0, C, LDC, X, LDX, 0.0,
+               tmp1.data(), norb_new);
+  } else {
+    // X(i,j,k,l) is strided by LDX in each of its indices
+    for(size_t l = 0; l < norb_old; ++l)
+      for(size_t k = 0; k < norb_old; ++k) {
+        auto X_kl = X + (k + l * LDX) * LDX * LDX;
+        auto TMP1_kl = tmp1.data() + (k + l * norb_old) * norb_old * norb_new;
+        blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
+                   norb_new, norb_old, norb_old, 1.0, C, LDC, X_kl, LDX, 0.0,
+                   TMP1_kl, norb_new);
+      }
+  }
 
   // 2nd Quarter
   // TMP2(p,q,k,l) = C(j,q) * TMP1(p,j,k,l)
@@ -92,9 +104,21 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
   // 4th Quarter
   // Y(p,q,r,s) = C(l,s) * TMP1(p,q,r,l)
   // Y(pqr,s) = V(pqr,l) * C(l,s)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-             norb_new3, norb_new, norb_old, 1.0, tmp1.data(), norb_new3, C, LDC,
-             0.0, Y, norb_new3);
+  if(LDY == norb_new) {
+    blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+               norb_new3, norb_new, norb_old, 1.0, tmp1.data(), norb_new3, C,
+               LDC, 0.0, Y, norb_new3);
+  } else {
+    // Y(p,q,r,s) is strided by LDY in each of its indices
+    for(size_t r = 0; r < norb_new; ++r)
+      for(size_t q = 0; q < norb_new; ++q) {
+        auto TMP1_qr = tmp1.data() + (q + r * norb_new) * norb_new;
+        auto Y_qr = Y + (q + r * LDY) * LDY;
+        blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans,
+                   blas::Op::NoTrans, norb_new, norb_new, norb_old, 1.0,
+                   TMP1_qr, norb_new3, C, LDC, 0.0, Y_qr, LDY * LDY * LDY);
+      }
+  }
 
 #else
 
-- 
2.43.0


From 0adcda2846f68399b758e669c69ca97cb96cfd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 14/47] fix: one_index_transformed_hamiltonian indexes T with
 its own leading dimension

---
 src/macis/orbital_hessian.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index fcddd40..de2d6be 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -77,7 +77,7 @@ void one_index_transformed_hamiltonian(NumOrbital norb, const double* T,
       double tmp = 0.0;
       for(size_t o = 0; o < no; ++o) {
         tmp +=
-            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDX];
+            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDT];
       }
       Tx[p + q * LDTx] = tmp;
     }
-- 
2.43.0


From 14faf4e9b123ddcfb04312be28526934e398c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 15/47] fix: orb_orb_hessian_contract applies the symmetric
 second derivative of E(EXP[-K])

---
 src/macis/orbital_hessian.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index de2d6be..2adb796 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -150,8 +150,9 @@ void orb_orb_hessian_contract(NumOrbital norb, NumInactive ninact,
   std::vector<double> tmp_hk(orb_rot_sz);
   matrix_to_linear_orb_rot(ninact, nact, nvirt, Tk.data(), no, tmp_hk.data());
 
-  // Add to final result
-  for(size_t i = 0; i < orb_rot_sz; ++i) HK_lin[i] += tmp_hk[i];
+  // Add to final result. The factor of 1/2 symmetrizes the second derivative of
+  // E(EXP[-K]) away from a stationary point
+  for(size_t i = 0; i < orb_rot_sz; ++i) HK_lin[i] += 0.5 * tmp_hk[i];
 }
 
 }  // namespace macis
-- 
2.43.0


From 683470bf45b00849cd216104e051d7b4226cb76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 16/47] fix: mp2_1rdm writes the vanishing occupied-virtual
 blocks of its output

---
 src/macis/moller_plesset.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index 5e00d85..e2eb287 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -77,6 +77,10 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
 
   std::cout << "EMP2 = " << EMP2 << std::endl;
 
+  // The OV and VO blocks of the unrelaxed density vanish
+  for(size_t p = 0; p < norb; ++p)
+    for(size_t q = 0; q < norb; ++q) ORDM[p + q * LDD] = 0.0;
+
   // P(MP2) OO-block
   // D(i,j) -= T2(i,k,a,b) * (2*T2(j,k,a,b) - T2(j,k,b,a))
   for(auto i = 0ul; i < nocc; ++i)
-- 
2.43.0


From 81b100935bd4115d53bf98f9fe20bde30bc16aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 17/47] fix: numerical_orbital_gradient stores its result with
 the leading dimension of OG

---
 src/macis/orbital_gradient.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_gradient.cxx b/src/macis/orbital_gradient.cxx
index 918bfba..2ba9a54 100644
--- a/src/macis/orbital_gradient.cxx
+++ b/src/macis/orbital_gradient.cxx
@@ -156,7 +156,7 @@ void numerical_orbital_gradient(NumOrbital _norb, NumInactive ninact,
       compute_orbital_rotation(_norb, -2.0, K.data(), norb, U.data(), norb);
       auto E_m2 = energy();
 
-      OG[a + i * norb] = (E_m2 - E_p2 + 8 * (E_p1 - E_m1)) / (12 * dk);
+      OG[a + i * LDOG] = (E_m2 - E_p2 + 8 * (E_p1 - E_m1)) / (12 * dk);
     }
 }
 
-- 
2.43.0


From 87a33f5af838abc85bfb7abf3eb9b469c3b2d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 18/47] fix: numerical_orbital_hessian pairs every rotation
 (b,j) with b > j

---
 src/macis/orbital_gradient.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_gradient.cxx b/src/macis/orbital_gradient.cxx
index 2ba9a54..0fee681 100644
--- a/src/macis/orbital_gradient.cxx
+++ b/src/macis/orbital_gradient.cxx
@@ -182,7 +182,7 @@ void numerical_orbital_hessian(NumOrbital _norb, NumInactive ninact,
   for(size_t i = 0; i < norb; ++i)
     for(size_t a = i + 1; a < norb; ++a)
       for(size_t j = 0; j < norb; ++j)
-        for(size_t b = i + 1; b < norb; ++b) {
+        for(size_t b = j + 1; b < norb; ++b) {
           std::fill(Kx.begin(), Kx.end(), 0);
           std::fill(Ky.begin(), Ky.end(), 0);
           Kx[a + i * norb] = dk;
-- 
2.43.0


From c228cccd5872da6d1c8e0432777f4590ff9672c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 19/47] fix: p_diagonal_guess sets the guess on the rank that
 owns the row

---
 include/macis/solvers/davidson.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 6375677..aca05cd 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -100,10 +100,10 @@ void p_diagonal_guess(size_t N_local, const SpMatType& A, double* X) {
   // Zero out guess
   for(size_t i = 0; i < N_local; ++i) X[i] = 0.;
 
-  // Get owner rank
-  int owner_rank = min_idx / remote_counts[0];
-  if(world_rank == owner_rank) {
-    X[min_idx - A.local_row_start()] = 1.;
+  // Set guess on the rank which owns the row
+  if(min_idx >= row_starts[world_rank] and
+     min_idx < row_starts[world_rank + 1]) {
+    X[min_idx - row_starts[world_rank]] = 1.;
   }
 }
 #endif
-- 
2.43.0


From d5754c7829ddad9bcb0f570d14072d0a5b9a1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 20/47] fix: the Davidson solvers return a guess that already
 is an eigenvector instead of failing

---
 include/macis/solvers/davidson.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index aca05cd..52b5573 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -152,6 +152,16 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
   // Compute Initial A*V
   op.operator_action(1, 1., V.data(), N, 0., AV.data(), N);
 
+  // Rayleigh quotient and residual of the guess. A guess which is already an
+  // eigenvector spans an invariant subspace which cannot be expanded
+  LAM[0] = blas::dot(N, V.data(), 1, AV.data(), 1);
+  std::copy_n(AV.data(), N, V.data() + N);
+  blas::axpy(N, -LAM[0], V.data(), 1, V.data() + N, 1);
+  if(blas::nrm2(N, V.data() + N, 1) < tol) {
+    logger->info("Davidson Converged!");
+    return std::make_pair(size_t(0), LAM[0]);
+  }
+
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV.data(), N, V.data() + N);
   gram_schmidt(N, 1, V.data(), N, V.data() + N);
@@ -315,6 +325,21 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
   op.operator_action(1, 1., V_local.data(), N_local, 0., AV_local.data(),
                      N_local);
 
+  // Rayleigh quotient and residual of the guess. A guess which is already an
+  // eigenvector spans an invariant subspace which cannot be expanded
+  LAM[0] = allreduce(blas::dot(N_local, V_local.data(), 1, AV_local.data(), 1),
+                     MPI_SUM, comm);
+  std::copy_n(AV_local.data(), N_local, V_local.data() + N_local);
+  blas::axpy(N_local, -LAM[0], V_local.data(), 1, V_local.data() + N_local, 1);
+  const auto guess_res_dot =
+      allreduce(blas::dot(N_local, V_local.data() + N_local, 1,
+                          V_local.data() + N_local, 1),
+                MPI_SUM, comm);
+  if(std::sqrt(guess_res_dot) < tol) {
+    logger->info("Davidson Converged!");
+    return std::make_pair(int64_t(0), LAM[0]);
+  }
+
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV_local.data(), N_local, V_local.data() + N_local);
   p_gram_schmidt(N_local, 1, V_local.data(), N_local, V_local.data() + N_local,
-- 
2.43.0


From c7c1ab9a88f4cf0d8a44165f0b4943af0c351ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 21/47] fix: all ranks of parallel_selected_ci_diag agree on
 the initial guess

---
 include/macis/solvers/selected_ci_diag.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/macis/solvers/selected_ci_diag.hpp b/include/macis/solvers/selected_ci_diag.hpp
index 0a1e293..fe04ce7 100644
--- a/include/macis/solvers/selected_ci_diag.hpp
+++ b/include/macis/solvers/selected_ci_diag.hpp
@@ -37,13 +37,12 @@ double parallel_selected_ci_diag(const SpMatType& H, size_t davidson_max_m,
   // Extract Diagonal
   auto D_local = extract_diagonal_elements(H.diagonal_tile());
 
-  // Setup guess
-  auto max_c = *std::max_element(
-      C_local.begin(), C_local.end(),
-      [](auto a, auto b) { return std::abs(a) < std::abs(b); });
-  max_c = std::abs(max_c);
+  // Setup guess: all ranks must take the same decision
+  double max_c = 0.;
+  for(auto c : C_local) max_c = std::max(max_c, std::abs(c));
+  max_c = allreduce(max_c, MPI_MAX, comm);
 
-  if(max_c > (1. / C_local.size())) {
+  if(max_c > (1. / H.m())) {
     logger->info("  * Will use passed vector as guess");
   } else {
     logger->info("  * Will generate identity guess");
-- 
2.43.0


From 0d5d9c6c305c7dda7cf5657468e33aaec8781b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:34 +0000
Subject: [PATCH 22/47] fix: diagonal_guess returns a unit vector whatever the
 caller passed in

---
 include/macis/solvers/davidson.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 52b5573..dfe727e 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -64,6 +64,9 @@ void diagonal_guess(size_t N, const SpMatType& A, double* X) {
   auto D = extract_diagonal_elements(A);
   auto D_min = std::min_element(D.begin(), D.end());
   auto min_idx = std::distance(D.begin(), D_min);
+
+  // Zero out guess
+  for(size_t i = 0; i < N; ++i) X[i] = 0.;
   X[min_idx] = 1.;
 }
 
-- 
2.43.0


From cfb9cb16ddfbface298d6c6db760d2be3019ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 23/47] fix: the distributed Davidson passes valid leading
 dimensions on ranks without rows

---
 include/macis/solvers/davidson.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index dfe727e..c828386 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -241,9 +241,11 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
 inline void p_gram_schmidt(int64_t N_local, int64_t K, const double* V_old,
                            int64_t LDV, double* V_new, MPI_Comm comm) {
   std::vector<double> inner(K);
+  // BLAS rejects vanishing leading dimensions: ranks may own no rows
+  const int64_t LDN = std::max(int64_t(1), N_local);
   // Compute local V_old**H * V_new
   blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K);
+             1, N_local, 1., V_old, LDV, V_new, LDN, 0., inner.data(), K);
 
   // Reduce inner product
   allreduce(inner.data(), K, MPI_SUM, comm);
@@ -251,15 +253,15 @@ inline void p_gram_schmidt(int64_t N_local, int64_t K, const double* V_old,
   // Project locally
   blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
              N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new,
-             N_local);
+             LDN);
 
   // Repeat
   blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
-             1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K);
+             1, N_local, 1., V_old, LDV, V_new, LDN, 0., inner.data(), K);
   allreduce(inner.data(), K, MPI_SUM, comm);
   blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
              N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new,
-             N_local);
+             LDN);
 
   // Normalize
   double dot = blas::dot(N_local, V_new, 1, V_new, 1);
@@ -316,6 +318,9 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
   logger->info("  {} = {:6}, {} = {:4}, {} = {:10.5e}", "N_LOCAL", N_local,
                "MAX_M", max_m, "RES_TOL", tol);
 
+  // BLAS rejects vanishing leading dimensions: ranks may own no rows
+  const int64_t LDV = std::max(int64_t(1), N_local);
+
   // Allocations
   std::vector<double> V_local(N_local * (max_m + 1)),
       AV_local(N_local * (max_m + 1)), C((max_m + 1) * (max_m + 1)),
@@ -345,7 +350,7 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
 
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV_local.data(), N_local, V_local.data() + N_local);
-  p_gram_schmidt(N_local, 1, V_local.data(), N_local, V_local.data() + N_local,
+  p_gram_schmidt(N_local, 1, V_local.data(), LDV, V_local.data() + N_local,
                  comm);
 
   bool converged = false;
@@ -362,8 +367,8 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
 
     // Rayleigh Ritz
     auto rr_st = hrt_t::now();
-    p_rayleigh_ritz(N_local, k, V_local.data(), N_local, AV_local.data(),
-                    N_local, LAM.data(), C.data(), k, comm);
+    p_rayleigh_ritz(N_local, k, V_local.data(), LDV, AV_local.data(), LDV,
+                    LAM.data(), C.data(), k, comm);
     auto rr_en = hrt_t::now();
     dur_t rr_dur = rr_en - rr_st;
 
@@ -373,16 +378,16 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
 
     // X = V*C
     blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-               N_local, 1, k, 1., V_local.data(), N_local, C.data(), k, 0.,
-               X_local, N_local);
+               N_local, 1, k, 1., V_local.data(), LDV, C.data(), k, 0., X_local,
+               LDV);
 
     // R = X
     std::copy_n(X_local, N_local, R_local);
 
     // R = (AV - LAM[0]*V)*C = AV*C - LAM[0]*X = AV*C - LAM[0]*R
     blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-               N_local, 1, k, 1., AV_local.data(), N_local, C.data(), k,
-               -LAM[0], R_local, N_local);
+               N_local, 1, k, 1., AV_local.data(), LDV, C.data(), k, -LAM[0],
+               R_local, LDV);
 
     // Compute residual norm
     auto res_dot = blas::dot(N_local, R_local, 1, R_local, 1);
@@ -411,7 +416,7 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
     }
 
     // Project new vector out form old vectors
-    p_gram_schmidt(N_local, k, V_local.data(), N_local, R_local, comm);
+    p_gram_schmidt(N_local, k, V_local.data(), LDV, R_local, comm);
 
   }  // Davidson iterations
 
-- 
2.43.0


From 6b3f0a1ee77fa1b8eb3f92bbd7c6449c408a7473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:47 +0000
Subject: [PATCH 24/47] fix: write_fcidump releases its logger so the file is
 complete on return

---
 src/macis/fcidump.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index bf1d776..ae8be26 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -204,6 +204,9 @@ void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
 
   // Write core
   logger->info(fmt_string, 0, 0, 0, 0, E_core);
+
+  // Release the logger such that the file is flushed / closed upon return
+  spdlog::drop("fcidump");
 }
 
 void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
-- 
2.43.0


From ee36bc431fee3d2a6f146ac8b39da21839e4ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:47 +0000
Subject: [PATCH 25/47] fix: write_fcidump replaces the contents of an existing
 file

---
 src/macis/fcidump.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index ae8be26..943fa89 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -183,7 +183,7 @@ void read_fcidump_2body(std::string fname, double* V, size_t LDV) {
 
 void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
                    const double* V, size_t LDV, double E_core) {
-  auto logger = spdlog::basic_logger_mt("fcidump", fname);
+  auto logger = spdlog::basic_logger_mt("fcidump", fname, true);
   logger->set_pattern("%v");
   const std::string fmt_string = "{:8} {:8} {:8} {:8} {:25.16e}";
 
-- 
2.43.0


From 476f528506a16d0a52a06b27c610a36ed32df977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:47 +0000
Subject: [PATCH 26/47] fix: read_fcidump_1body skips orbital energy lines

---
 src/macis/fcidump.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 943fa89..b2ead85 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -62,15 +62,17 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
   return std::make_tuple(p, q, r, s, integral);
 }
 
-enum LineClassification { Core, OneBody, TwoBody };
+enum LineClassification { Core, OneBody, TwoBody, Other };
 
 LineClassification line_classification(int p, int q, int r, int s) {
   if(!(p or q or r or s))
     return LineClassification::Core;
   else if(p and q and r and s)
     return LineClassification::TwoBody;
-  else
+  else if(p and q and !(r or s))
     return LineClassification::OneBody;
+  else
+    return LineClassification::Other;  // e.g. orbital energies
 }
 
 namespace macis {
-- 
2.43.0


From 4723770ff49f2f96eed0711816e9274645cef381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 27/47] fix: read_rdms_binary rejects truncated files

---
 src/macis/fcidump.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index b2ead85..32ac229 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -231,6 +231,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
 
   int _norb_read;
   in_file.read((char*)&_norb_read, sizeof(int));
+  if(!in_file) throw std::runtime_error(fname + " is truncated");
   if(_norb_read != (int)norb)
     throw std::runtime_error("NORB in RDM file doesn't match " +
                              std::to_string(norb) + " " +
@@ -247,6 +248,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
 
   // Read 2RDM
   in_file.read((char*)raw.data(), norb * norb * norb * norb * sizeof(double));
+  if(!in_file) throw std::runtime_error(fname + " is truncated");
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j)
       for(size_t k = 0; k < norb; ++k)
-- 
2.43.0


From 53bb44b44f9d2ae99c9715acdc01b8abc1e7000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 28/47] fix: attic 2-RDM includes double excitations of
 spin-down electrons

---
 attic/src/cmz_ed/rdms.c++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/src/cmz_ed/rdms.c++ b/attic/src/cmz_ed/rdms.c++
index e4e3149..c4c1bec 100644
--- a/attic/src/cmz_ed/rdms.c++
+++ b/attic/src/cmz_ed/rdms.c++
@@ -46,7 +46,7 @@ namespace cmz
             rdm2[ indexer(v2,v1,o1,o2) ] -= sign * contrib * 0.5;
           }
           // Double Do-Do
-          else if( exc_do == 4 && exc_do == 0 )
+          else if( exc_up == 0 && exc_do == 4 )
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-- 
2.43.0


From 96c82f4763c3d3db52417744d36df8b048e3a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 29/47] fix: attic BuildCombs supports bit strings longer than
 31

---
 attic/src/cmz_ed/combins.c++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/src/cmz_ed/combins.c++ b/attic/src/cmz_ed/combins.c++
index 06e0dbf..adb7fa3 100644
--- a/attic/src/cmz_ed/combins.c++
+++ b/attic/src/cmz_ed/combins.c++
@@ -18,7 +18,7 @@ namespace cmz
        uint64_t temp = 0;
        for (int i = 0; i < Nbits; ++i) {
          if (v[i]) {
-             temp = temp + (1 << i);
+             temp = temp + (uint64_t(1) << i);
          }
        }
      //End: From vvector bool to uint
-- 
2.43.0


From cb8b775bdea9e84d92032e4ea9d1ab2b777a1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 30/47] fix: attic excitation signs use 64-bit masks

---
 attic/src/cmz_ed/slaterdet.c++ | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index 7b35d4f..57403c5 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -10,7 +10,7 @@ namespace cmz
       uint64_t omax = std::max(i,a);
       uint64_t omin = std::min(i,a);
       // Bitmask to check for Fermionic sign change.
-      uint64_t mask = ((1<<omax) - 1) ^ ((1<<omin+1) - 1);
+      uint64_t mask = ((uint64_t(1)<<omax) - 1) ^ ((uint64_t(1)<<(omin+1)) - 1);
       mask = state & mask;
       Flip(i); Flip(a);
       return (std::popcount(mask) % 2) == 1 ? -1. : 1.; 
@@ -21,7 +21,7 @@ namespace cmz
       uint64_t omax = std::max(i,a) + Norbs;
       uint64_t omin = std::min(i,a) + Norbs;
       // Bitmask to check for Fermionic sign change.
-      uint64_t mask = ((1<<omax) - 1) ^ ((1<<omin+1) - 1);
+      uint64_t mask = ((uint64_t(1)<<omax) - 1) ^ ((uint64_t(1)<<(omin+1)) - 1);
       mask = state & mask;
       Flip(i+Norbs); Flip(a+Norbs);
       return (std::popcount(mask) % 2) == 1 ? -1. : 1.; 
-- 
2.43.0


From 606a106066d880907f5167528906d131610c89d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 31/47] fix: attic GetFlippedOccIndx scans all 64 bits of the
 determinant

---
 attic/inc/cmz_ed/slaterdet.h++ | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/attic/inc/cmz_ed/slaterdet.h++ b/attic/inc/cmz_ed/slaterdet.h++
index d496ff9..4116282 100644
--- a/attic/inc/cmz_ed/slaterdet.h++
+++ b/attic/inc/cmz_ed/slaterdet.h++
@@ -220,7 +220,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndx( const slater_det &st ) const 
         {
-          return (ffs( state & (state ^ st.GetState() ) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Give position of first different bit/orbital between *this 
@@ -237,7 +237,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndxUp( const slater_det &st ) const 
         { 
-          return (ffs( state & (state ^ st.GetState() ) & ((1LL << Norbs) - 1LL) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) & ((1LL << Norbs) - 1LL) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Give position of first different bit/orbital between *this 
@@ -254,7 +254,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndxDo( const slater_det &st ) const 
         { 
-          return (ffs( state & (state ^ st.GetState() ) & (~((1LL << Norbs) - 1LL)) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) & (~((1LL << Norbs) - 1LL)) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Defines order among Slater determinants, for use in std::set. 
-- 
2.43.0


From dbc73e6afe538b879064020d53eea8a9f3b50f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 32/47] fix: attic read_RDMs initializes the orbital count it
 reads

---
 attic/inc/cmz_ed/rdms.h++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/cmz_ed/rdms.h++ b/attic/inc/cmz_ed/rdms.h++
index b0a7549..6a5d9b5 100644
--- a/attic/inc/cmz_ed/rdms.h++
+++ b/attic/inc/cmz_ed/rdms.h++
@@ -487,7 +487,7 @@ namespace cmz
             if(!ifile)
               throw ("Could not open " + file);
     
-            int64_t norbs;
+            int norbs = 0;
        
             ifile.read((char*) &norbs, sizeof(int));
     
-- 
2.43.0


From 55ea8b142b020d0bb5a3d595b0f516b755f7e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 33/47] fix: attic UpdateFromAS adds the exchange part to the
 inactive diagonal

---
 attic/inc/cmz_ed/rdms.h++ | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attic/inc/cmz_ed/rdms.h++ b/attic/inc/cmz_ed/rdms.h++
index 6a5d9b5..a51adc0 100644
--- a/attic/inc/cmz_ed/rdms.h++
+++ b/attic/inc/cmz_ed/rdms.h++
@@ -603,8 +603,8 @@ namespace cmz
             {
               for( auto const &j: ints.iorbs )
               {
-                rdm2[ indexer(i,j,i,j) ] =  4.;
-                rdm2[ indexer(i,j,j,i) ] = -2.;
+                rdm2[ indexer(i,j,i,j) ] += 4.;
+                rdm2[ indexer(i,j,j,i) ] -= 2.;
               }
               for( int64_t ac1 = 0; ac1 < as_size; ac1++ )
               {
-- 
2.43.0


From a510274730dcd0a11ff7b6b005a2b95d505da4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 34/47] fix: attic ReadInput skips blank lines and keeps keys
 without a value empty

---
 attic/src/cmz_ed/utils.c++ | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/attic/src/cmz_ed/utils.c++ b/attic/src/cmz_ed/utils.c++
index 20c9c7e..6faabdc 100644
--- a/attic/src/cmz_ed/utils.c++
+++ b/attic/src/cmz_ed/utils.c++
@@ -114,11 +114,12 @@ namespace cmz
       ifstream ifile(in_file.c_str(), ios::in);
       if(!ifile)
         throw ("Error reading input: Cannot open " + in_file);
-      string line, key, val;
+      string line;
       while(getline(ifile, line)){
         if(line[0] == '#' || line[0] == '!' || line[0] == '%') continue;
+        string key, val;
         istringstream iss(line);
-        iss >> key;
+        if(!(iss >> key)) continue; // Blank line
         iss >> std::ws;
         std::getline(iss, val);
         if(input.find(key) == input.end()){
-- 
2.43.0


From de985fb390a93f7f8988bde1dcd30b78b7e013e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 35/47] fix: attic excitation screening uses the integrals that
 couple the determinants

---
 attic/src/cmz_ed/slaterdet.c++ | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index 57403c5..a37a4d6 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -234,8 +234,8 @@ namespace cmz
           slater_det tmp = GetSingExUpSt( virts_up[iv1], occs_up[io1], sign );
           for( size_t io2 = io1+1; io2 < occs_up.size(); io2++ )
             for( size_t iv2 = iv1+1; iv2 < virts_up.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_up[iv1], virts_up[iv2], occs_up[io1], occs_up[io2])) >= thres 
-               || std::abs(pint->getChem(virts_up[iv1], virts_up[iv2], occs_up[io2], occs_up[io1])) >= thres )
+              if( std::abs(pint->getPhys(virts_up[iv1], virts_up[iv2], occs_up[io1], occs_up[io2])) >= thres 
+               || std::abs(pint->getPhys(virts_up[iv1], virts_up[iv2], occs_up[io2], occs_up[io1])) >= thres )
                 excs.push_back( tmp.GetSingExUpSt( virts_up[iv2], occs_up[io2], sign ) );
          }
       // Double - Do/Do
@@ -245,8 +245,8 @@ namespace cmz
           slater_det tmp = GetSingExDoSt( virts_do[iv1], occs_do[io1], sign );
           for( size_t io2 = io1+1; io2 < occs_do.size(); io2++ )
             for( size_t iv2 = iv1+1; iv2 < virts_do.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_do[iv1], virts_do[iv2], occs_do[io1], occs_do[io2])) >= thres 
-               || std::abs(pint->getChem(virts_do[iv1], virts_do[iv2], occs_do[io2], occs_do[io1])) >= thres )
+              if( std::abs(pint->getPhys(virts_do[iv1], virts_do[iv2], occs_do[io1], occs_do[io2])) >= thres 
+               || std::abs(pint->getPhys(virts_do[iv1], virts_do[iv2], occs_do[io2], occs_do[io1])) >= thres )
                 excs.push_back( tmp.GetSingExDoSt( virts_do[iv2], occs_do[io2], sign ) );
          }
       // Double - Up/Do
@@ -256,7 +256,7 @@ namespace cmz
           slater_det tmp = GetSingExUpSt( virts_up[iv1], occs_up[io1], sign );
           for( size_t io2 = 0; io2 < occs_do.size(); io2++ )
             for( size_t iv2 = 0; iv2 < virts_do.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_up[iv1], virts_do[iv2], occs_up[io1], occs_do[io2])) >= thres )
+              if( std::abs(pint->getPhys(virts_up[iv1], virts_do[iv2], occs_up[io1], occs_do[io2])) >= thres )
                 excs.push_back( tmp.GetSingExDoSt( virts_do[iv2], occs_do[io2], sign ) );
          }
 
-- 
2.43.0


From 0bd857163a4175b83d9b1b98734d188b58884b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 36/47] fix: attic excitation screening includes the mean field
 of single excitations

---
 attic/src/cmz_ed/slaterdet.c++ | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index a37a4d6..f24711a 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -214,16 +214,29 @@ namespace cmz
       double thres = 1.E-9; //Threshold to keep excitation.
 
       double sign = 1.; // For function calling purposes
+      // Coupling through a single excitation, including the mean field
+      // of the occupied orbitals.
+      auto coupling = [&]( uint64_t v, uint64_t o,
+                           const std::vector<uint64_t> &same,
+                           const std::vector<uint64_t> &other )
+      {
+        double res = pint->get(v, o);
+        for( auto b : same )
+          res += pint->getChem(v, o, b, b) - pint->getChem(v, b, b, o);
+        for( auto b : other )
+          res += pint->getChem(v, o, b, b);
+        return res;
+      };
       // Build single excitation.
       // Single - Up
       for( auto ou : occs_up )
         for( auto vu : virts_up )
-          if( std::abs(pint->get(vu, ou)) >= thres )
+          if( std::abs(coupling(vu, ou, occs_up, occs_do)) >= thres )
             excs.push_back( GetSingExUpSt( vu, ou, sign ) );
       // Single - Down
       for( auto od : occs_do )
         for( auto vd : virts_do )
-          if( std::abs(pint->get(vd , od)) >= thres )
+          if( std::abs(coupling(vd, od, occs_do, occs_up)) >= thres )
             excs.push_back( GetSingExDoSt( vd, od, sign ) );
  
       // Build double excitations.
-- 
2.43.0


From aafdc3005f6dd717d5b074b115e6aa74ed128f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 37/47] fix: attic 2-RDM keeps the bra intact while identifying
 double excitations

---
 attic/src/cmz_ed/rdms.c++ | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/attic/src/cmz_ed/rdms.c++ b/attic/src/cmz_ed/rdms.c++
index c4c1bec..2cdaba0 100644
--- a/attic/src/cmz_ed/rdms.c++
+++ b/attic/src/cmz_ed/rdms.c++
@@ -35,8 +35,7 @@ namespace cmz
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcUp( o1, v1 );
-            sign = ket.SingleExcUp( v1, o1 );
+            double sign = ket.SingleExcUp( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcUp( v2, o2 );
@@ -50,8 +49,7 @@ namespace cmz
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcDo( o1, v1 );
-            sign = ket.SingleExcDo( v1, o1 );
+            double sign = ket.SingleExcDo( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcDo( v2, o2 );
@@ -65,8 +63,7 @@ namespace cmz
           {
             uint64_t oup = ket.GetFlippedOccIndxUp( bra );
             uint64_t vup = bra.GetFlippedOccIndxUp( ket );
-            double sign = bra.SingleExcUp( oup, vup );
-            sign = ket.SingleExcUp( vup, oup );
+            double sign = ket.SingleExcUp( vup, oup );
             uint64_t odo = ket.GetFlippedOccIndxDo( bra );
             uint64_t vdo = bra.GetFlippedOccIndxDo( ket );
             sign *= ket.SingleExcDo( vdo, odo );
-- 
2.43.0


From 38f05dc3904429cbd118077efe221275798ed208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:00 +0000
Subject: [PATCH 38/47] fix: keep accumulated constraints in front when pruning
 ASCI pairs

---
 include/macis/asci/determinant_search.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 1ea3282..2986900 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -356,11 +356,17 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // Prune Down Contributions
       if(asci_pairs.size() > asci_settings.pair_size_max) {
-        // Remove small contributions
-        auto it = std::partition(
-            asci_pairs.begin(), asci_pairs.end(), [=](const auto& x) {
-              return std::abs(x.rv) > asci_settings.rv_prune_tol;
-            });
+        // Remove small contributions, keeping those of the previous constraints
+        // (already accumulated) in front of those of the current one
+        auto is_large = [=](const auto& x) {
+          return std::abs(x.rv) > asci_settings.rv_prune_tol;
+        };
+        auto con_begin = asci_pairs.begin() + size_before;
+        auto prev_end =
+            std::partition(asci_pairs.begin(), con_begin, is_large);
+        con_begin = asci_pairs.erase(prev_end, con_begin);
+        size_before = std::distance(asci_pairs.begin(), con_begin);
+        auto it = std::partition(con_begin, asci_pairs.end(), is_large);
         asci_pairs.erase(it, asci_pairs.end());
 
         auto c_indices = bits_to_indices(C);
-- 
2.43.0


From 0de3d927eecbf95a776f92ba7198b05a537473a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:55 +0000
Subject: [PATCH 39/47] fix: form CAS-CI densities from the whole CI vector on
 several ranks

---
 include/macis/util/cas.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/macis/util/cas.hpp b/include/macis/util/cas.hpp
index 63c8f4a..04e1ee1 100644
--- a/include/macis/util/cas.hpp
+++ b/include/macis/util/cas.hpp
@@ -10,6 +10,8 @@
 #include <macis/solvers/selected_ci_diag.hpp>
 #include <macis/types.hpp>
 #include <macis/util/mcscf.hpp>
+#include <numeric>
+#include <vector>
 
 namespace macis {
 
@@ -55,9 +57,23 @@ double compute_casci_rdms(
                        settings.ci_max_subspace, settings.ci_res_tol, C,
                        MACIS_MPI_CODE(comm, ) true);
 
+#ifdef MACIS_ENABLE_MPI
+  // Gather the CI vector: every rank only holds its own rows
+  const int world_size = comm_size(comm);
+  const int n_local = C.size();
+  std::vector<int> counts(world_size), displs(world_size + 1, 0);
+  MPI_Allgather(&n_local, 1, MPI_INT, counts.data(), 1, MPI_INT, comm);
+  std::partial_sum(counts.begin(), counts.end(), displs.begin() + 1);
+  std::vector<double> C_full(displs.back());
+  MPI_Allgatherv(C.data(), n_local, MPI_DOUBLE, C_full.data(), counts.data(),
+                 displs.data(), MPI_DOUBLE, comm);
+#else
+  const auto& C_full = C;
+#endif
+
   // Compute RDMs
   ham_gen.form_rdms(dets.begin(), dets.end(), dets.begin(), dets.end(),
-                    C.data(), matrix_span<double>(ORDM, no, no),
+                    C_full.data(), matrix_span<double>(ORDM, no, no),
                     rank4_span<double>(TRDM, no, no, no, no));
 
   return E0;
-- 
2.43.0


From f41def4dddeba608990a4f465b0a27704f0d220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:14 +0000
Subject: [PATCH 40/47] fix: asci_grow returns the energy of the rotated
 wavefunction

---
 include/macis/asci/grow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/grow.hpp b/include/macis/asci/grow.hpp
index f3f4260..cc5e5d7 100644
--- a/include/macis/asci/grow.hpp
+++ b/include/macis/asci/grow.hpp
@@ -124,7 +124,7 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
       logger->trace("  * Rediagonalizing");
       auto rdg_st = hrt_t::now();
       std::vector<double> X_local;
-      selected_ci_diag(
+      E = selected_ci_diag(
           wfn.begin(), wfn.end(), ham_gen, mcscf_settings.ci_matel_tol,
           mcscf_settings.ci_max_subspace, mcscf_settings.ci_res_tol,
           X_local MACIS_MPI_CODE(, comm));
-- 
2.43.0


From f56bb8ebd808af98869b1183f4b2b5e03b6f5770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:21 +0000
Subject: [PATCH 41/47] fix: attic determinant header defines
 generate_singles_spin once

---
 attic/inc/dbwy/sd_operations.hpp | 35 --------------------------------
 1 file changed, 35 deletions(-)

diff --git a/attic/inc/dbwy/sd_operations.hpp b/attic/inc/dbwy/sd_operations.hpp
index d4805eb..f63d1de 100644
--- a/attic/inc/dbwy/sd_operations.hpp
+++ b/attic/inc/dbwy/sd_operations.hpp
@@ -295,41 +295,6 @@ void generate_singles_doubles_spin_as( size_t norb, std::bitset<N> state,
 
 }
 
-template <size_t N>
-void generate_singles_spin( size_t norb, std::bitset<N> state, 
-  std::vector<std::bitset<N>>& singles ) {
-
-  auto state_alpha = truncate_bitset<N/2>(state);
-  auto state_beta  = truncate_bitset<N/2>(state >> (N/2));
-
-  std::vector<std::bitset<N/2>> singles_alpha, singles_beta;
-
-  // Generate Spin-Specific singles / doubles
-  generate_singles( norb, state_alpha, singles_alpha );
-  generate_singles( norb, state_beta,  singles_beta  );
-
-  auto state_alpha_expand = expand_bitset<N>(state_alpha);
-  auto state_beta_expand  = expand_bitset<N>(state_beta) << (N/2);
-
-  // Generate Singles in full space
-  singles.clear();
-
-  // Single Alpha + No Beta
-  for( auto s_alpha : singles_alpha ) {
-    auto s_state = expand_bitset<N>(s_alpha);
-    s_state = s_state | state_beta_expand;
-    singles.emplace_back(s_state);
-  }
-
-  // No Alpha + Single Beta
-  for( auto s_beta : singles_beta ) {
-    auto s_state = expand_bitset<N>(s_beta) << (N/2);
-    s_state = s_state | state_alpha_expand;
-    singles.emplace_back(s_state);
-  }
-
-}
-
 template <size_t N>
 void generate_singles_doubles_spin( size_t norb, std::bitset<N> state, 
   std::vector<std::bitset<N>>& singles, std::vector<std::bitset<N>>& doubles ) {
-- 
2.43.0


From 32d4d1032e56ced6dcd98d17aaab823368f1ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:16 +0000
Subject: [PATCH 42/47] fix: attic ffs counts from one for 128-bit strings too

---
 attic/inc/dbwy/bitset_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/bitset_operations.hpp b/attic/inc/dbwy/bitset_operations.hpp
index bf04b59..83801d2 100644
--- a/attic/inc/dbwy/bitset_operations.hpp
+++ b/attic/inc/dbwy/bitset_operations.hpp
@@ -37,7 +37,7 @@ uint32_t ffs( std::bitset<N> bits ) {
 
   if constexpr (N <= 32)      return ffsl( bits.to_ulong() );
   else if constexpr (N <= 64) return ffsll( bits.to_ullong() );
-  else if constexpr (N <= 128) return std::countr_zero( to_uint128(bits) );
+  else if constexpr (N <= 128) return bits.any() ? std::countr_zero( to_uint128(bits) ) + 1 : 0;
   else {
     uint32_t ind = 0;
     for( ind = 0; ind < N; ++ind )
-- 
2.43.0


From 3ef16eef17752ba119d35d32340c29483ab60863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:16 +0000
Subject: [PATCH 43/47] fix: attic SDBuild blocks place the diagonal at the
 column of the bra determinant

---
 attic/inc/dbwy/sd_build.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/attic/inc/dbwy/sd_build.hpp b/attic/inc/dbwy/sd_build.hpp
index 95e01dd..4b79255 100644
--- a/attic/inc/dbwy/sd_build.hpp
+++ b/attic/inc/dbwy/sd_build.hpp
@@ -90,13 +90,18 @@ protected:
         spin_det_t exd_alpha = truncate_bitset<N/2>( ex_diag );
         spin_det_t exd_beta  = truncate_bitset<N/2>( ex_diag >> (N/2) );
 
-        // Compute Matrix Element
-        const auto h_eld = this->matrix_element_diag( bra_occ_alpha, bra_occ_beta );
-
-        if( std::abs(h_eld) > H_thresh ) {
-          nrow++;
-          colind.emplace_back(i);
-          nzval.emplace_back(h_eld);
+        // Diagonal only contributes if the bra is among the kets
+        det_pos<N> pos_bra; pos_bra.det = bra; pos_bra.id = 0;
+        auto bra_it = kets.find( pos_bra );
+        if( bra_it != kets.end() ) {
+          // Compute Matrix Element
+          const auto h_eld = this->matrix_element_diag( bra_occ_alpha, bra_occ_beta );
+
+          if( std::abs(h_eld) > H_thresh ) {
+            nrow++;
+            colind.emplace_back(bra_it->id);
+            nzval.emplace_back(h_eld);
+          }
         }
 
         // Loop over ket determinants
-- 
2.43.0


From 82acce7ec4fd8aca8191fb2c29e18d0fe69e12ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:16 +0000
Subject: [PATCH 44/47] fix: attic ASCI duplicate removal sorts by a strict
 order

---
 attic/inc/dbwy/asci_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index 731a708..b473df0 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -418,7 +418,7 @@ void keep_only_largest_copy_asci_pairs(
   });
   #else
   ips4o::parallel::sort( asci_pairs.begin(), asci_pairs.end(), 
-    []( auto x, auto y ) { return !bitset_less(x.state, y.state); });
+    []( auto x, auto y ) { return bitset_less(y.state, x.state); });
   #endif
   #endif
 
-- 
2.43.0


From 2b3b15884e9e0bafaeaee64ce6bfcc36c73d09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:16 +0000
Subject: [PATCH 45/47] fix: attic ASCI search accepts few or no contributions

---
 attic/inc/dbwy/asci_util.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index b473df0..fb3d26b 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -365,6 +365,9 @@ void sort_and_accumulate_asci_pairs(
   std::vector< asci_contrib<N> >& asci_pairs
 ) {
 
+  // Nothing to accumulate
+  if( asci_pairs.empty() ) return;
+
   // Sort by bitstring
   #if 0
   std::sort( asci_pairs.begin(), asci_pairs.end(), []( auto x, auto y ) {
@@ -629,7 +632,7 @@ std::vector<std::bitset<N>> asci_search(
   // Sort pairs by ASCI score
   auto asci_sort_st = clock_type::now();
   #if 1
-  std::nth_element( asci_pairs.begin(), asci_pairs.begin() + ndets_max,
+  std::nth_element( asci_pairs.begin(), asci_pairs.begin() + std::min(ndets_max, asci_pairs.size()),
     asci_pairs.end(), 
   #else
   std::sort( asci_pairs.begin(), asci_pairs.end(),
-- 
2.43.0


From 0001271930e78a6130104aadc675d5db8a94b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:57 +0000
Subject: [PATCH 46/47] fix: attic Davidson normalizes its start vector over
 all ranks and accepts ranks without rows

---
 attic/inc/dbwy/davidson.hpp | 62 ++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/attic/inc/dbwy/davidson.hpp b/attic/inc/dbwy/davidson.hpp
index 7a6dec4..8260850 100644
--- a/attic/inc/dbwy/davidson.hpp
+++ b/attic/inc/dbwy/davidson.hpp
@@ -100,23 +100,25 @@ void p_gram_schmidt( int64_t N_local, int64_t K, const double* V_old, int64_t LD
   double* V_new, MPI_Comm comm ) {
 
   std::vector<double> inner(K);
+  // BLAS rejects vanishing leading dimensions: ranks may own no rows
+  const int64_t LDN = std::max( int64_t(1), N_local );
   // Compute local V_old**H * V_new
   blas::gemm( blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
-    K, 1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K );
+    K, 1, N_local, 1., V_old, LDV, V_new, LDN, 0., inner.data(), K );
 
   // Reduce inner product
   MPI_Allreduce( MPI_IN_PLACE, inner.data(), K, MPI_DOUBLE, MPI_SUM, comm );
 
   // Project locally
   blas::gemm( blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-    N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new, N_local );
+    N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new, LDN );
 
   // Repeat
   blas::gemm( blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
-    K, 1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K );
+    K, 1, N_local, 1., V_old, LDV, V_new, LDN, 0., inner.data(), K );
   MPI_Allreduce( MPI_IN_PLACE, inner.data(), K, MPI_DOUBLE, MPI_SUM, comm );
   blas::gemm( blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-    N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new, N_local );
+    N_local, 1, K, -1., V_old, LDV, inner.data(), K, 1., V_new, LDN );
 
 
   // Normalize
@@ -157,8 +159,9 @@ double p_davidson( int64_t max_m,
   const sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double,int32_t>>& A, 
   double tol, double* X_local = nullptr, bool print = false ) {
 
-  //int64_t N = A.n();
   int64_t N_local = A.local_row_extent();
+  // BLAS rejects vanishing leading dimensions: ranks may own no rows
+  const int64_t LDV = std::max( int64_t(1), N_local );
   auto comm = A.comm();
 
   int world_rank, world_size;
@@ -185,36 +188,19 @@ double p_davidson( int64_t max_m,
   auto A_diagonal_tile = A.diagonal_tile_ptr();
   if( !A_diagonal_tile ) throw std::runtime_error("DIE DIE DIE");
 
-  // Gather Diagonal
+  // Local Diagonal
   auto D_local = extract_diagonal_elements( *A_diagonal_tile );
 #if 1
   {
-    std::vector<int> remote_counts(world_size), row_starts(world_size+1,0);
-    for( auto i = 0; i < world_size; ++i ) {
-      remote_counts[i] = A.row_extent(i);
-      row_starts[i+1]  = row_starts[i] + A.row_extent(i);
-    }
-    std::vector<double> D(row_starts.back());
-
-    MPI_Allgatherv( D_local.data(), D_local.size(), MPI_DOUBLE, D.data(),
-      remote_counts.data(), row_starts.data(), MPI_DOUBLE, comm );
-
-    // Determine min index
-    auto D_min = std::min_element(D.begin(), D.end());
-    auto min_idx = std::distance( D.begin(), D_min );
-
-    // Get owner rank
-    int owner_rank = min_idx / remote_counts[0];
-    if( world_rank == owner_rank ) {
-      V_local[ min_idx - A.local_row_start() ] = 1.;
-    }
     // Starting vector: Normalized random vector.
     std::default_random_engine gen;
     std::normal_distribution<> dist(-1.,1.);
     std::generate( V_local.begin(), V_local.begin()+N_local, [&](){ return dist(gen); } );
-    V_local[0] += 1.;
+    if( N_local ) V_local[0] += 1.;
     double tmp = 0.;
     for( auto i = 0; i < N_local; ++i ) tmp += V_local[i] * V_local[i];
+    // The vector is normalized over all ranks
+    MPI_Allreduce( MPI_IN_PLACE, &tmp, 1, MPI_DOUBLE, MPI_SUM, comm );
     tmp = std::sqrt(tmp);
     for( auto i = 0; i < N_local; ++i ) V_local[i] /= tmp;
 
@@ -260,7 +246,7 @@ double p_davidson( int64_t max_m,
 
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV_local.data(), N_local, V_local.data()+N_local);
-  p_gram_schmidt(N_local, 1, V_local.data(), N_local, V_local.data()+N_local, comm);
+  p_gram_schmidt(N_local, 1, V_local.data(), LDV, V_local.data()+N_local, comm);
 
   for( size_t i = 1; i < max_m; ++i ) {
 
@@ -271,8 +257,8 @@ double p_davidson( int64_t max_m,
     const auto k = i + 1;
 
     // Rayleigh Ritz
-    p_rayleigh_ritz( N_local, k, V_local.data(), N_local, AV_local.data(), 
-      N_local, LAM.data(), C.data(), k, comm);
+    p_rayleigh_ritz( N_local, k, V_local.data(), LDV, AV_local.data(), 
+      LDV, LAM.data(), C.data(), k, comm);
 
     // Compute Residual (A - LAM(0)*I) * V(:,0:i) * C(:,0)
     double* R_local = V_local.data() + (i+1)*N_local;
@@ -282,25 +268,25 @@ double p_davidson( int64_t max_m,
 
       // X = V*C
       blas::gemm( blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-        N_local, 1, k, 1., V_local.data(), N_local, C.data(), k, 0., 
-        X_local, N_local );
+        N_local, 1, k, 1., V_local.data(), LDV, C.data(), k, 0., 
+        X_local, LDV );
 
       // R = X
       std::copy_n( X_local, N_local, R_local );
 
       // R = (AV - LAM[0]*V)*C = AV*C - LAM[0]*X = AV*C - LAM[0]*R
       blas::gemm( blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-        N_local, 1, k, 1., AV_local.data(), N_local, C.data(), k, -LAM[0], 
-        R_local, N_local );
+        N_local, 1, k, 1., AV_local.data(), LDV, C.data(), k, -LAM[0], 
+        R_local, LDV );
 
     } else {
 
       blas::gemm( blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-        N_local, 1, k, 1., AV_local.data(), N_local, C.data(), k, 0., 
-        R_local, N_local );
+        N_local, 1, k, 1., AV_local.data(), LDV, C.data(), k, 0., 
+        R_local, LDV );
       blas::gemm( blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-        N_local, 1, k, -LAM[0], V_local.data(), N_local, C.data(), k, 1., 
-        R_local, N_local );
+        N_local, 1, k, -LAM[0], V_local.data(), LDV, C.data(), k, 1., 
+        R_local, LDV );
 
     }
 
@@ -322,7 +308,7 @@ double p_davidson( int64_t max_m,
     }
 
     // Project new vector out form old vectors
-    p_gram_schmidt(N_local, k, V_local.data(), N_local, R_local, comm);
+    p_gram_schmidt(N_local, k, V_local.data(), LDV, R_local, comm);
 
   } // Davidson iterations
 
-- 
2.43.0


From 396f6afd7022b070f737aea524c9d995caefc7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:57 +0000
Subject: [PATCH 47/47] fix: attic Davidson returns a guess that is an
 eigenvector and stops at the full space

---
 attic/inc/dbwy/davidson.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/attic/inc/dbwy/davidson.hpp b/attic/inc/dbwy/davidson.hpp
index 8260850..96b46cb 100644
--- a/attic/inc/dbwy/davidson.hpp
+++ b/attic/inc/dbwy/davidson.hpp
@@ -28,6 +28,7 @@ void gram_schmidt( int64_t N, int64_t K, const double* V_old, int64_t LDV,
 double davidson( int64_t max_m, const sparsexx::csr_matrix<double,int32_t>& A, double tol ) {
 
   int64_t N = A.n();
+  max_m = std::min( max_m, N );
   std::cout << "N = " << N << ", MAX_M = " << max_m << std::endl;
   std::vector<double> V(N * (max_m+1)), AV(N * (max_m+1)), C((max_m+1)*(max_m+1)), 
     LAM(max_m+1);
@@ -41,6 +42,13 @@ double davidson( int64_t max_m, const sparsexx::csr_matrix<double,int32_t>& A, d
   // Compute Initial A*V
   sparsexx::spblas::gespmbv(1, 1., A, V.data(), N, 0., AV.data(), N);
 
+  // Rayleigh quotient and residual of the guess. A guess which is already an
+  // eigenvector spans an invariant subspace which cannot be expanded
+  LAM[0] = blas::dot( N, V.data(), 1, AV.data(), 1 );
+  std::copy_n(AV.data(), N, V.data()+N);
+  blas::axpy( N, -LAM[0], V.data(), 1, V.data()+N, 1 );
+  if( blas::nrm2( N, V.data()+N, 1 ) < tol ) return LAM[0];
+
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV.data(), N, V.data()+N);
   gram_schmidt(N, 1, V.data(), N, V.data()+N);
@@ -162,6 +170,7 @@ double p_davidson( int64_t max_m,
   int64_t N_local = A.local_row_extent();
   // BLAS rejects vanishing leading dimensions: ranks may own no rows
   const int64_t LDV = std::max( int64_t(1), N_local );
+  max_m = std::min( max_m, int64_t(A.n()) );
   auto comm = A.comm();
 
   int world_rank, world_size;
@@ -244,6 +253,18 @@ double p_davidson( int64_t max_m,
   // Compute initial A*V
   sparsexx::spblas::pgespmv( 1., A, V_local.data(), 0., AV_local.data(), spmv_info );
 
+  // Rayleigh quotient and residual of the guess. A guess which is already an
+  // eigenvector spans an invariant subspace which cannot be expanded
+  LAM[0] = blas::dot( N_local, V_local.data(), 1, AV_local.data(), 1 );
+  MPI_Allreduce( MPI_IN_PLACE, LAM.data(), 1, MPI_DOUBLE, MPI_SUM, comm );
+  if( X_local ) std::copy_n( V_local.data(), N_local, X_local );
+  std::copy_n(AV_local.data(), N_local, V_local.data()+N_local);
+  blas::axpy( N_local, -LAM[0], V_local.data(), 1, V_local.data()+N_local, 1 );
+  double guess_res_dot = blas::dot( N_local, V_local.data()+N_local, 1,
+    V_local.data()+N_local, 1 );
+  MPI_Allreduce( MPI_IN_PLACE, &guess_res_dot, 1, MPI_DOUBLE, MPI_SUM, comm );
+  if( std::sqrt(guess_res_dot) < tol ) return LAM[0];
+
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV_local.data(), N_local, V_local.data()+N_local);
   p_gram_schmidt(N_local, 1, V_local.data(), LDV, V_local.data()+N_local, comm);
-- 
2.43.0

