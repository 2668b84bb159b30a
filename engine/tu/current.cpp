// The conduction simulations of /repo; no code of its own.
#include "current_density/multilayer_simulation.cpp"
namespace nikfemm {
    template std::vector<Vector> Mesh<CurrentDensityProp>::computeGrad(std::vector<double>&) const;
    template const CurrentDensityProp* Drawing<CurrentDensityProp>::getRegionPtrFromId(uint32_t) const;
}
