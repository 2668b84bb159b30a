// Instantiates the mesh template of /repo with the conduction property type; no code of its own.
#include "utils/utils.cpp"
#include "geometry/vector.cpp"
#include "geometry/segment.cpp"
#include "geometry/polygon.cpp"
#include "current_density/properties.cpp"
#include "triangle/triangle.h"
#include "mesh/mesh.hpp"
namespace nikfemm {
    typedef Mesh<CurrentDensityProp> MC;
    template std::vector<Vector> MC::computeCurl(std::vector<double>&) const;
    template std::vector<Vector> MC::computeGrad(std::vector<double>&) const;
    template Polygon MC::getInnermostPolygon(Vector);
    template double MC::computeAreaIntegral(Vector);
    template double MC::computeMass(Vector, double);
    template Vector MC::computeBarycenter(Vector);
    template double MC::computeInertiaMoment(Vector, Vector, double);
    template void MC::kelvinTransformCentered();
    template const CurrentDensityProp* Drawing<CurrentDensityProp>::getRegionPtrFromId(uint32_t) const;
}
