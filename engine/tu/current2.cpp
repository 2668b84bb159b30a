// The single-layer conduction simulation of /repo; no code of its own.
#include "current_density/simulation.cpp"
namespace nikfemm {
    template struct System<double>;
}
