// explicit instantiation: makes clang emit the bodies of the template members from /repo's headers
#include "algebra/coo.hpp"
#include "algebra/system.hpp"
template struct nikfemm::MatCOOSymmetric<double>;
template struct nikfemm::System<double>;
// client lemmas: what a caller sees through the returned reference
namespace nikfemm {
    void client_coo_set(MatCOOSymmetric<double>& A, uint32_t i, uint32_t j, double v) { A(i, j) = v; }
    double client_coo_get(MatCOOSymmetric<double>& A, uint32_t i, uint32_t j) { return A(i, j); }
    void client_coo_add(MatCOOSymmetric<double>& A, uint32_t i, uint32_t j, double v) { A(i, j) += v; }
    double client_coo_set_get(MatCOOSymmetric<double>& A, uint32_t i, uint32_t j, double v, uint32_t p, uint32_t q, double w) { A(i, j) = v; A(p, q) = w; return A(i, j); }
}
