// uses of every operation of the container of routing graphs (property R03); analysed, never run
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/RoutingGraphContainer.h>
using namespace lanelet;
void wit_container(const routing::RoutingGraphContainer& witC, const ConstLanelet& witL, const routing::Route* witR) {
  (void)witC.conflictingInGraph(witL, 0, 2.);
  (void)witC.conflictingInGraphs(witL, 2.);
  (void)witC.conflictingOfRouteInGraph(witR, 0, 2.);
  (void)witC.conflictingOfRouteInGraphs(witR, 2.);
}
