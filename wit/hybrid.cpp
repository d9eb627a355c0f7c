// every member of the hybrid maps is instantiated so that it is analysed
#include <lanelet2_core/Attribute.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
namespace lanelet {
template class HybridMap<Attribute, decltype(AttributeNamesString::Map)&, AttributeNamesString::Map>;
template class HybridMap<RuleParameters, decltype(RoleNameString::Map)&, RoleNameString::Map>;
template class HybridMap<ConstRuleParameters, decltype(RoleNameString::Map)&, RoleNameString::Map>;
}  // namespace lanelet
namespace hybrid_wit {
inline auto copy(const lanelet::AttributeMap& m) { return lanelet::AttributeMap(m.begin(), m.end()); }
lanelet::AttributeMap use(const lanelet::AttributeMap& m) { return copy(m); }
}  // namespace hybrid_wit
