// Instantiates the templates of the matching package so that their bodies are analysed.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_matching/LaneletMatching.h>

namespace lanelet {
namespace matching {
template bool isCloseTo<LaneletLayer>(const LaneletLayer&, const Object2d&, double);
template bool isCloseTo<PolygonLayer>(const PolygonLayer&, const Object2d&, double);
template bool isWithin<LaneletLayer>(const LaneletLayer&, const Object2d&);
template bool isWithin<PolygonLayer>(const PolygonLayer&, const Object2d&);
template std::vector<LaneletMatch> removeNonRuleCompliantMatches(const std::vector<LaneletMatch>&,
                                                                 const traffic_rules::TrafficRulesPtr&);
template std::vector<ConstLaneletMatch> removeNonRuleCompliantMatches(const std::vector<ConstLaneletMatch>&,
                                                                      const traffic_rules::TrafficRulesPtr&);
template std::vector<LaneletMatchProbabilistic> removeNonRuleCompliantMatches(
    const std::vector<LaneletMatchProbabilistic>&, const traffic_rules::TrafficRulesPtr&);
template std::vector<ConstLaneletMatchProbabilistic> removeNonRuleCompliantMatches(
    const std::vector<ConstLaneletMatchProbabilistic>&, const traffic_rules::TrafficRulesPtr&);
}  // namespace matching
}  // namespace lanelet
