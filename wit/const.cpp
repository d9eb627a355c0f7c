// every member of the const handle templates, so that their bodies can be judged
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/LineStringOrPolygon.h>
namespace lanelet {
template class ConstPrimitive<PointData>;
template class ConstPrimitive<LineStringData>;
template class ConstPrimitive<LaneletData>;
template class ConstPrimitive<AreaData>;
template class ConstPrimitive<RegulatoryElementData>;
template class ConstLineStringImpl<Point3d>;
template class ConstLineStringImpl<Point2d>;
}  // namespace lanelet
