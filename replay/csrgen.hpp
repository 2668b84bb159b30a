#pragma once
#include "rt.hpp"
// well-formed random compressed upper-triangular matrix
template <class M> M random_csr(rt::Rng& g, int n, int density) {
    M A; A.m = n; A.row_ptr.clear(); A.col_ind.clear(); A.val.clear(); A.diag.clear();
    A.row_ptr.push_back(0);
    for (int i = 0; i < n; i++) {
        A.diag.push_back(g.r());
        for (int j = i + 1; j < n; j++) if (g.i(0, 99) < density) { A.col_ind.push_back(j); A.val.push_back(g.r()); }
        A.row_ptr.push_back(A.col_ind.size());
    }
    A.nnz = A.val.size();
    return A;
}
template <class M> std::string show_csr(const M& A) { return "m=" + std::to_string(A.m) + " row_ptr=" + rt::strv(A.row_ptr) + " col_ind=" + rt::strv(A.col_ind) + " val=" + rt::str(A.val) + " diag=" + rt::str(A.diag); }
template <class M> double dense(const M& A, int i, int j) {
    if (i == j) return A.diag[i];
    if (i > j) std::swap(i, j);
    for (size_t k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) if ((int)A.col_ind[k] == j) return A.val[k];
    return 0;
}
