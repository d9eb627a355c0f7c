// uses of the comparison and hash of every public type that has them (property C11); analysed, never run
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/LaneletOrArea.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_core/primitives/LineString.h>
#include <lanelet2_core/primitives/LineStringOrPolygon.h>
#include <lanelet2_core/primitives/Point.h>
#include <lanelet2_core/primitives/Polygon.h>
#include <lanelet2_io/io_handlers/OsmFile.h>
#include <lanelet2_routing/LaneletPath.h>
#include <lanelet2_routing/Types.h>
using namespace lanelet;
#define EQ(T)                                                                  \
  bool wit_eq(const T& witLhs, const T& witRhs) { return witLhs == witRhs; }   \
  bool wit_ne(const T& witLhs, const T& witRhs) { return witLhs != witRhs; }
#define HASH(T) size_t wit_hash(const T& witObj) { return std::hash<T>()(witObj); }
#define BOTH(T) EQ(T) HASH(T)
BOTH(Point3d) BOTH(ConstPoint3d) BOTH(Point2d) BOTH(ConstPoint2d)
BOTH(LineString3d) BOTH(ConstLineString3d) BOTH(LineString2d) BOTH(ConstLineString2d)
BOTH(ConstHybridLineString2d) BOTH(ConstHybridLineString3d)
BOTH(Polygon3d) BOTH(ConstPolygon3d) BOTH(Polygon2d) BOTH(ConstPolygon2d)
EQ(ConstHybridPolygon2d) EQ(ConstHybridPolygon3d)
BOTH(Lanelet) BOTH(ConstLanelet) EQ(WeakLanelet) EQ(ConstWeakLanelet)
BOTH(Area) BOTH(ConstArea) EQ(WeakArea) EQ(ConstWeakArea)
BOTH(ConstLaneletOrArea) EQ(LineStringOrPolygon3d) EQ(ConstLineStringOrPolygon3d)
EQ(LaneletSequence) EQ(CompoundLineString2d) EQ(CompoundLineString3d) EQ(CompoundPolygon2d) EQ(CompoundPolygon3d)
EQ(Attribute) EQ(AttributeMap) EQ(RuleParameterMap)
EQ(routing::LaneletRelation) EQ(routing::LaneletPath) EQ(routing::LaneletOrAreaPath)
HASH(RegulatoryElement)
template struct std::hash<std::pair<ConstLaneletOrArea, ConstLaneletOrArea>>;
