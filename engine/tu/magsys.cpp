// The system with expression entries of /repo; no code of its own.
#include "algebra/non_linear.hpp"
#include "algebra/system.hpp"
namespace nikfemm {
    template struct MatCOOSymmetric<NonLinearExpression>;
    template void System<NonLinearExpression>::addDirichletBoundaryCondition(uint32_t, double);
    template System<NonLinearExpression>::System(uint32_t);
}
