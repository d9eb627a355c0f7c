// Makes the header-only projectors part of the analysed program.
#include <lanelet2_io/Projection.h>
#include <lanelet2_projection/Geocentric.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/Mercator.h>
#include <lanelet2_projection/UTM.h>

namespace {
[[maybe_unused]] void project(const lanelet::Origin& origin) {
  lanelet::projection::Mercator m(origin);
  lanelet::projection::SphericalMercatorProjector s(origin);
  lanelet::BasicPoint3d p = m.forward(origin.position) + s.forward(origin.position);
  m.reverse(p);
  s.reverse(p);
}
}  // namespace
