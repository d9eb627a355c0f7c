// every pair of save and load functions of the binary format is instantiated so that it is analysed
#include <lanelet2_io/io_handlers/Serialize.h>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
namespace serial_wit {
using namespace lanelet;
template <typename T>
void both(boost::archive::binary_oarchive& oa, boost::archive::binary_iarchive& ia, const T& out, T& in) {
  boost::serialization::save(oa, out, 0U);
  boost::serialization::load(ia, in, 0U);
}
template <typename T>
void data(boost::archive::binary_oarchive& oa, boost::archive::binary_iarchive& ia, const T* out, T* in) {
  boost::serialization::save_construct_data(oa, out, 0U);
  boost::serialization::load_construct_data(ia, in, 0U);
}
struct Out {
  const Attribute& attribute;
  const AttributeMap& attributes;
  const RuleParameterMap& parameters;
  const Lanelet& lanelet;
  const ConstLanelet& constLanelet;
  const WeakLanelet& weakLanelet;
  const Area& area;
  const ConstArea& constArea;
  const WeakArea& weakArea;
  const LineString3d& lineString;
  const ConstLineString3d& constLineString;
  const Polygon3d& polygon;
  const Point3d& point;
  const ConstPoint3d& constPoint;
  const RegulatoryElementPtr& regulatoryElement;
  const LaneletMap& map;
};
struct In {
  Attribute& attribute;
  AttributeMap& attributes;
  RuleParameterMap& parameters;
  Lanelet& lanelet;
  ConstLanelet& constLanelet;
  WeakLanelet& weakLanelet;
  Area& area;
  ConstArea& constArea;
  WeakArea& weakArea;
  LineString3d& lineString;
  ConstLineString3d& constLineString;
  Polygon3d& polygon;
  Point3d& point;
  ConstPoint3d& constPoint;
  RegulatoryElementPtr& regulatoryElement;
  LaneletMap& map;
};
void all(boost::archive::binary_oarchive& oa, boost::archive::binary_iarchive& ia, const Out& o, In& i) {
  both(oa, ia, o.attribute, i.attribute);
  both(oa, ia, o.attributes, i.attributes);
  both(oa, ia, o.parameters, i.parameters);
  both(oa, ia, o.lanelet, i.lanelet);
  both(oa, ia, o.constLanelet, i.constLanelet);
  both(oa, ia, o.weakLanelet, i.weakLanelet);
  both(oa, ia, o.area, i.area);
  both(oa, ia, o.constArea, i.constArea);
  both(oa, ia, o.weakArea, i.weakArea);
  both(oa, ia, o.lineString, i.lineString);
  both(oa, ia, o.constLineString, i.constLineString);
  both(oa, ia, o.polygon, i.polygon);
  both(oa, ia, o.point, i.point);
  both(oa, ia, o.constPoint, i.constPoint);
  both(oa, ia, o.regulatoryElement, i.regulatoryElement);
  both(oa, ia, o.map, i.map);
}
void datas(boost::archive::binary_oarchive& oa, boost::archive::binary_iarchive& ia, LaneletData* l, AreaData* a, LineStringData* s, PointData* p,
           RegulatoryElementData* r) {
  data(oa, ia, l, l);
  data(oa, ia, a, a);
  data(oa, ia, s, s);
  data(oa, ia, p, p);
  data(oa, ia, r, r);
}
}  // namespace serial_wit
