// Instantiates the drawing of /repo with both of its property types; no code of its own.
#include "utils/utils.cpp"
#include "geometry/vector.cpp"
#include "geometry/segment.cpp"
#include "geometry/circle.cpp"
#include "geometry/polygon.cpp"
#include "current_density/properties.cpp"
#include "drawing/drawing.hpp"
namespace nikfemm {
    typedef Drawing<CurrentDensityProp> DR;
    template DR::Drawing();
    template void DR::drawRectangle(Vector, Vector);
    template void DR::drawRectangle(Vector, double, double);
    template void DR::drawCircle(Vector, double, uint32_t);
    template void DR::drawCircle(Circle, uint32_t);
    template void DR::drawPolygon(Vector*, uint32_t);
    template void DR::drawPolygon(const std::vector<Vector>&);
    template void DR::drawPolygon(Polygon);
    template void DR::drawRegion(Vector, CurrentDensityProp);
    template void DR::drawPoint(Vector);
    template const CurrentDensityProp* DR::getRegionPtrFromId(uint32_t) const;
    template uint32_t DR::getRegionId(CurrentDensityProp);
    template double DR::getCurrentEpsilon();
    template void DR::translate(Vector);
    template CurrentDensityProp DR::getPolygonProp(Polygon);
    template void DR::drawSegment(Vector, Vector);
    template void DR::drawSegment(Segment);
}
