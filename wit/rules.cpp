// uses of the templates that work on rule parameters (property C07); analysed, never run
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/LaneletOrArea.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <lanelet2_core/utility/Utilities.h>
using namespace lanelet;
void wit_rules(const RegulatoryElement& r, const RuleParameters& p, const LineStringOrPolygon3d& l, const ConstLineStringOrPolygon3d& cl,
               const ConstLaneletOrArea& la) {
  (void)r.find<ConstPoint3d>(1);
  (void)r.find<ConstLineString3d>(1);
  (void)r.find<ConstPolygon3d>(1);
  (void)r.find<ConstLanelet>(1);
  (void)r.find<ConstArea>(1);
  (void)r.find<ConstRuleParameter>(1);
  (void)r.getParameters<ConstPoint3d>(RoleName::Refers);
  (void)r.getParameters<ConstLineString3d>(RoleName::Refers);
  (void)r.getParameters<ConstPolygon3d>("refers");
  (void)utils::getVariant<ConstPoint3d>(p);
  (void)l.lineString();
  (void)l.polygon();
  (void)cl.lineString();
  (void)cl.polygon();
  (void)la.lanelet();
  (void)la.area();
}
