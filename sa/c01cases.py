"""Programs for C01. Each case is one expression, compiled twice: with mutable arguments it has to compile (so the
expression means something), with constant arguments it must not."""

HEADERS = ["lanelet2_core/LaneletMap.h", "lanelet2_core/primitives/Lanelet.h", "lanelet2_core/primitives/Area.h", "lanelet2_core/primitives/Point.h",
           "lanelet2_core/primitives/LineString.h", "lanelet2_core/primitives/Polygon.h", "lanelet2_core/primitives/RegulatoryElement.h",
           "lanelet2_core/primitives/BasicRegulatoryElements.h", "lanelet2_core/primitives/LaneletOrArea.h", "lanelet2_core/primitives/LaneletSequence.h",
           "lanelet2_core/primitives/CompoundLineString.h", "lanelet2_core/primitives/CompoundPolygon.h",
           "lanelet2_core/primitives/LineStringOrPolygon.h", "lanelet2_core/geometry/LaneletMap.h", "lanelet2_core/geometry/Lanelet.h",
           "lanelet2_core/geometry/Point.h", "lanelet2_routing/RoutingGraph.h", "lanelet2_routing/Route.h", "lanelet2_traffic_rules/TrafficRules.h",
           "lanelet2_matching/LaneletMatching.h"]
PRE = "".join(f"#include <{h}>\n" for h in HEADERS)

CASES = []   # (name, constant parameters, mutable parameters, statement)


def case(name, cp, mp, st):
    CASES.append((name, cp, mp, st))


H = ["Point3d", "Point2d", "LineString3d", "LineString2d", "Polygon3d", "Polygon2d", "Lanelet", "Area", "WeakLanelet", "WeakArea",
     "LineStringOrPolygon3d"]
for t in H:
    k = "Const" + t
    for how, st in (("construct", "{t} m(c); (void)m;"), ("convert", "{t} m = c; (void)m;"), ("cast", "auto m = static_cast<{t}>(c); (void)m;"),
                    ("bind", "const {t}& m = c; (void)m;"), ("return", "auto f = [&]() -> {t} {{ return c; }}; (void)f;"),
                    ("insert", "std::vector<{t}> v; v.push_back(c);"), ("range", "std::vector<{t}> v{{&c, &c + 1}};")):
        case(f"{how} {t} from {k}", f"{k} c", f"{t} c", st.format(t=t))
    case(f"assign {k} to {t}", f"{t} m, {k} c", f"{t} m, {t} c", "m = c;")
# across dimensions and kinds
for k, t, mk in (("ConstPoint3d", "Point2d", "Point3d"), ("ConstPoint2d", "Point3d", "Point2d"), ("ConstLineString3d", "LineString2d", "LineString3d"),
                 ("ConstLineString2d", "LineString3d", "LineString2d"), ("ConstPolygon3d", "Polygon2d", "Polygon3d"),
                 ("ConstPolygon2d", "Polygon3d", "Polygon2d"), ("ConstHybridLineString3d", "LineString3d", "LineString3d"),
                 ("ConstHybridLineString2d", "LineString2d", "LineString2d"), ("ConstHybridPolygon3d", "Polygon3d", "Polygon3d"),
                 ("ConstHybridPolygon2d", "Polygon2d", "Polygon2d"), ("ConstPolygon3d", "LineString3d", "LineString3d"),
                 ("ConstLineString3d", "Polygon3d", "LineString3d"), ("ConstLanelet", "WeakLanelet", "Lanelet"), ("ConstArea", "WeakArea", "Area"),
                 ("ConstLineString3d", "LineStringOrPolygon3d", "LineString3d"), ("ConstPolygon3d", "LineStringOrPolygon3d", "Polygon3d")):
    case(f"construct {t} from {k}", f"{k} c", f"{mk} c", f"{t} m(c); (void)m;")
for t, d in (("Point3d", "PointData"), ("Point2d", "PointData"), ("Polygon3d", "LineStringData"), ("LineString3d", "LineStringData"),
             ("LineString2d", "LineStringData"), ("Polygon2d", "LineStringData"), ("Area", "AreaData")):
    case(f"construct {t} from constant {d}", f"std::shared_ptr<const {d}> c", f"std::shared_ptr<{d}> c", f"{t} m(c); (void)m;")
for t, d in (("Lanelet", "LaneletData"), ("LineString3d", "LineStringData"), ("Polygon3d", "LineStringData"), ("LineString2d", "LineStringData"),
             ("Polygon2d", "LineStringData")):
    case(f"construct {t} from constant {d} and orientation", f"std::shared_ptr<const {d}> c", f"std::shared_ptr<{d}> c",
         f"{t} m(c, false); (void)m;")
case("construct GenericRegulatoryElement from constant data", "std::shared_ptr<const RegulatoryElementData> c", "std::shared_ptr<RegulatoryElementData> c",
     "GenericRegulatoryElement m(c); (void)m;")
case("create a regulatory element from constant data", "std::shared_ptr<const RegulatoryElementData> c", "std::shared_ptr<RegulatoryElementData> c",
     'auto r = RegulatoryElementFactory::create("x", c); (void)r;')
# what constData shows
for t, mem in (("Point3d", "point"), ("Point3d", "id"), ("Point3d", "attributes"), ("LineString3d", "id"), ("Lanelet", "id"), ("Area", "id"),
               ("Polygon3d", "attributes")):
    d = {"Point3d": "PointData", "LineString3d": "LineStringData", "Lanelet": "LaneletData", "Area": "AreaData", "Polygon3d": "LineStringData"}[t]
    case(f"write {mem} through {t} data", f"Const{t} c", f"std::shared_ptr<{d}> p", f"[](auto& x) {{ x.{mem} = {{}}; }}(*GET);")
# writing through a constant primitive
for t in ("Point3d", "Point2d", "LineString3d", "LineString2d", "Polygon3d", "Polygon2d", "Lanelet", "Area"):
    k = "Const" + t
    case(f"setId of {k}", f"{k} c", f"{t} c", "c.setId(3);")
    case(f"setAttribute of {k}", f"{k} c", f"{t} c", 'c.setAttribute("a", "b");')
    case(f"setAttribute by name of {k}", f"{k} c", f"{t} c", 'c.setAttribute(AttributeName::Type, "b");')
    case(f"attributes()[] of {k}", f"{k} c", f"{t} c", 'c.attributes()["a"] = "b";')
    case(f"attributes().clear() of {k}", f"{k} c", f"{t} c", "c.attributes().clear();")
    case(f"bind attributes of {k}", f"{k} c", f"{t} c", "AttributeMap& m = c.attributes(); (void)m;")
case("x of ConstPoint3d", "ConstPoint3d c", "Point3d c", "c.x() = 1.;")
case("y of ConstPoint3d", "ConstPoint3d c", "Point3d c", "c.y() = 1.;")
case("z of ConstPoint3d", "ConstPoint3d c", "Point3d c", "c.z() = 1.;")
case("x of ConstPoint2d", "ConstPoint2d c", "Point2d c", "c.x() = 1.;")
case("y of ConstPoint2d", "ConstPoint2d c", "Point2d c", "c.y() = 1.;")
case("basicPoint of ConstPoint3d", "ConstPoint3d c", "Point3d c", "c.basicPoint().x() = 1.;")
case("basicPoint of ConstPoint2d", "ConstPoint2d c", "Point2d c", "c.basicPoint().x() = 1.;")
for t, pt, seg in (("LineString3d", "Point3d", 1), ("LineString2d", "Point2d", 1), ("Polygon3d", "Point3d", 1), ("Polygon2d", "Point2d", 1)):
    k = "Const" + t
    case(f"push_back on {k}", f"{k} c, {pt} p", f"{t} c, {pt} p", "c.push_back(p);")
    case(f"pop_back on {k}", f"{k} c", f"{t} c", "c.pop_back();")
    case(f"clear on {k}", f"{k} c", f"{t} c", "c.clear();")
    case(f"insert into {k}", f"{k} c, {pt} p", f"{t} c, {pt} p", "c.insert(c.begin(), p);")
    case(f"erase from {k}", f"{k} c", f"{t} c", "c.erase(c.begin());")
    case(f"resize {k}", f"{k} c", f"{t} c", "c.resize(3);")
    for e in ("c[0]", "c.front()", "c.back()", "*c.begin()"):
        case(f"{e} of {k} as {pt}", f"{k} c", f"{t} c", f"{pt} p = {e}; (void)p;")
        case(f"move {e} of {k}", f"{k} c", f"{t} c", f"auto p = {e}; p.x() = 1.;")
    case(f"iterator of {k} as iterator of {t}", f"{k} c", f"{t} c", f"{t}::iterator i = c.begin(); (void)i;")
    case(f"write through the iterator of {k}", f"{k} c, {pt} p", f"{t} c, {pt} p", "*c.begin() = p;")
    case(f"loop over {k}", f"{k} c", f"{t} c", "for (auto p : c) { p.x() = 1.; }")
    if "LineString" in t:
        case(f"invert {k}", f"{k} c", f"{t} c", f"{t} m = c.invert(); (void)m;")
        case(f"edit inverted {k}", f"{k} c, {pt} p", f"{t} c, {pt} p", "c.invert().push_back(p);")
for e, what in (("leftBound", "LineString3d"), ("rightBound", "LineString3d"), ("leftBound3d", "LineString3d"), ("rightBound3d", "LineString3d"),
                ("leftBound2d", "LineString2d"), ("rightBound2d", "LineString2d")):
    case(f"{e} of ConstLanelet", "ConstLanelet c", "Lanelet c", f"{what} m = c.{e}(); (void)m;")
    case(f"edit {e} of ConstLanelet", "ConstLanelet c", "Lanelet c", f"c.{e}().setId(4);")
    case(f"point of {e} of ConstLanelet", "ConstLanelet c", "Lanelet c", f"auto p = c.{e}().front(); p.x() = 3.;")
    case(f"{e} of inverted ConstLanelet", "ConstLanelet c", "Lanelet c", f"c.invert().{e}().setId(4);")
case("invert ConstLanelet", "ConstLanelet c", "Lanelet c", "Lanelet m = c.invert(); (void)m;")
for m in ("setLeftBound", "setRightBound", "setCenterline"):
    case(f"{m} of ConstLanelet", "ConstLanelet c, LineString3d l", "Lanelet c, LineString3d l", f"c.{m}(l);")
for t in ("Lanelet", "Area"):
    k = "Const" + t
    case(f"addRegulatoryElement to {k}", f"{k} c, RegulatoryElementPtr r", f"{t} c, RegulatoryElementPtr r", "c.addRegulatoryElement(r);")
    case(f"removeRegulatoryElement from {k}", f"{k} c, RegulatoryElementPtr r", f"{t} c, RegulatoryElementPtr r", "c.removeRegulatoryElement(r);")
    case(f"regulatory element of {k}", f"{k} c", f"{t} c", "RegulatoryElementPtr r = c.regulatoryElements().front(); (void)r;")
    case(f"edit regulatory element of {k}", f"{k} c, {t} t", f"{t} c, {t} t", "std::shared_ptr<RegulatoryElement> r(CONSTR(c)); r->setId(3);".replace("CONSTR(c)", "c.regulatoryElements()[0]"))
    case(f"typed regulatory elements of {k}", f"{k} c", f"{t} c", "std::vector<std::shared_ptr<TrafficLight>> r = [](auto& x) { return x.template regulatoryElementsAs<TrafficLight>(); }(c); (void)r;")
    case(f"edit typed regulatory element of {k}", f"{k} c", f"{t} c", "for (auto& r : c.regulatoryElementsAs<TrafficLight>()) { r->removeStopLine(); }")
    case(f"lock weak {k}", f"ConstWeak{t} c", f"Weak{t} c", f"{t} m = c.lock(); (void)m;")
    case(f"edit locked weak {k}", f"ConstWeak{t} c", f"Weak{t} c", "c.lock().setId(3);")
case("outer bound of ConstArea", "ConstArea c", "Area c", "LineStrings3d m = c.outerBound(); (void)m;")
case("element of outer bound of ConstArea", "ConstArea c", "Area c", "LineString3d m = c.outerBound().front(); (void)m;")
case("edit outer bound of ConstArea", "ConstArea c", "Area c", "for (auto l : c.outerBound()) { l.setId(3); }")
case("inner bounds of ConstArea", "ConstArea c", "Area c", "InnerBounds m = c.innerBounds(); (void)m;")
case("edit inner bounds of ConstArea", "ConstArea c", "Area c", "for (auto b : c.innerBounds()) { for (auto l : b) { l.setId(3); } }")
case("set outer bound of ConstArea", "ConstArea c, LineStrings3d l", "Area c, LineStrings3d l", "c.setOuterBound(l);")
case("set inner bounds of ConstArea", "ConstArea c, InnerBounds l", "Area c, InnerBounds l", "c.setInnerBounds(l);")
# always constant, whatever they are asked of
RW = "LineString3d c"
case("edit the centerline of a lanelet", "Lanelet l", "Lanelet l, LineString3d centerline", "auto m = CENTER; m.setId(3);")
case("edit a point of the outer polygon of an area", "Area l", "Area l, Polygon3d outer", "auto p = OUTER.front(); p.x() = 3.;")
for k, mk in (("CompoundLineString3d", "LineString3d"), ("CompoundLineString2d", "LineString2d"), ("CompoundPolygon3d", "Polygon3d"),
              ("CompoundPolygon2d", "Polygon2d"), ("CompoundHybridLineString2d", "LineString2d"), ("ConstHybridLineString2d", "LineString2d")):
    for e in ("c[0]", "c.front()", "c.back()", "*c.begin()"):
        pt = "basic" if "Hybrid" in k else mk[-2:]
        if pt == "basic":
            case(f"write {e} of {k}", f"{k} c", "BasicLineString2d c", f"auto& p = {e}; p.x() = 1.; (void)p;")
        else:
            case(f"write {e} of {k}", f"{k} c", f"{mk} c", f"auto p = {e}; p.x() = 1.;")
for k, mk in (("CompoundLineString3d", "LineString3d"), ("CompoundLineString2d", "LineString2d")):
    case(f"parts of {k}", f"{k} c", "LineStrings3d c", "auto l = [](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, LineStrings3d>) return x; else return x.lineStrings(); }(c); l[0].setId(3);")
case("lanelets of a sequence", "LaneletSequence c", "Lanelets c", "auto l = *c.begin(); l.setId(3);")
case("bounds of a sequence", "LaneletSequence c", "Lanelet c", "auto l = c.leftBound(); auto p = l[0]; p.x() = 1.;")
case("lanelet of ConstLaneletOrArea", "ConstLaneletOrArea c", "Optional<Lanelet> c", "Optional<Lanelet> l = [](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Optional<Lanelet>>) return x; else return x.lanelet(); }(c); (void)l;")
case("area of ConstLaneletOrArea", "ConstLaneletOrArea c", "Optional<Area> c", "Optional<Area> l = [](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Optional<Area>>) return x; else return x.area(); }(c); (void)l;")
for d in ("3d",):
    case(f"line string of ConstLineStringOrPolygon{d}", f"ConstLineStringOrPolygon{d} c", f"LineStringOrPolygon{d} c",
         f"Optional<LineString{d}> l = c.lineString(); (void)l;")
    case(f"polygon of ConstLineStringOrPolygon{d}", f"ConstLineStringOrPolygon{d} c", f"LineStringOrPolygon{d} c",
         f"Optional<Polygon{d}> l = c.polygon(); (void)l;")
# regulatory elements
R = "RegulatoryElement"
case("setId of a constant regulatory element", "const RegulatoryElement& c", "RegulatoryElement& c", "c.setId(3);")
case("constant regulatory element pointer to mutable", "RegulatoryElementConstPtr c", "RegulatoryElementPtr c", "RegulatoryElementPtr r = c; (void)r;")
case("constant generic element pointer to mutable", "std::shared_ptr<const GenericRegulatoryElement> c", "std::shared_ptr<GenericRegulatoryElement> c", "RegulatoryElementPtr r = c; (void)r;")
case("downcast a constant regulatory element", "RegulatoryElementConstPtr c", "RegulatoryElementPtr c", "auto r = std::dynamic_pointer_cast<TrafficLight>(c); (void)r;")
for t in ("Point3d", "LineString3d", "Polygon3d", "WeakLanelet", "WeakArea", "Lanelet", "Area"):
    case(f"parameters of a constant regulatory element as {t}", "RegulatoryElement& c", "RegulatoryElement& c",
         f'auto p = c.getParameters<{t}>("refers"); for (auto x : p) x{".setId(3)" if "Weak" not in t else ".lock()"};'.replace("<" + t + ">", f"<TYPE:{t}>"))
    if t not in ("Lanelet", "Area"):
        case(f"find a {t} in a constant regulatory element", "RegulatoryElement& c", "RegulatoryElement& c", f"auto p = c.find<TYPE:{t}>(3); (void)p;")
case("visit a regulatory element mutably", "const RegulatoryElement& c, internal::MutableParameterVisitor& v", "const RegulatoryElement& c, RuleParameterVisitor& v", "c.applyVisitor(v);")
case("parameter map of a constant regulatory element", "const GenericRegulatoryElement& c", "GenericRegulatoryElement& c", "RuleParameterMap& m = c.parameters(); (void)m;")
case("add to a constant generic element", "const GenericRegulatoryElement& c, LineString3d l", "GenericRegulatoryElement& c, LineString3d l", 'c.addParameter("refers", l);')
case("attributes of a constant generic element", "const GenericRegulatoryElement& c", "GenericRegulatoryElement& c", 'c.attributes()["a"] = "b";')
case("set an attribute of a constant generic element", "const GenericRegulatoryElement& c", "GenericRegulatoryElement& c", 'c.setAttribute("a", "b");')
for t, ops in (("TrafficLight", [("Optional<LineString3d> s = c.stopLine(); (void)s;", "stop line"), ("c.setStopLine(l);", "setStopLine"),
                                 ("c.removeStopLine();", "removeStopLine"), ("LineStringsOrPolygons3d t = c.trafficLights(); (void)t;", "lights"),
                                 ("for (auto x : c.trafficLights()) { x.lineString()->setId(3); }", "edit lights"), ("c.addTrafficLight(l);", "add"), ("c.removeTrafficLight(l);", "remove")]),
               ("RightOfWay", [("c.addYieldLanelet(ll);", "addYield"), ("c.addRightOfWayLanelet(ll);", "addRightOfWay"), ("c.removeRightOfWayLanelet(ll);", "removeRow"),
                               ("c.removeYieldLanelet(ll);", "removeYield"), ("Lanelets x = c.yieldLanelets(); (void)x;", "yield lanelets"),
                               ("for (auto x : c.rightOfWayLanelets()) { x.setId(3); }", "edit right of way lanelets"),
                               ("Optional<LineString3d> s = c.stopLine(); (void)s;", "stop line"), ("c.setStopLine(l);", "setStopLine"), ("c.removeStopLine();", "removeStopLine")]),
               ("AllWayStop", [("Lanelets x = c.lanelets(); (void)x;", "lanelets"), ("LineStrings3d x = c.stopLines(); (void)x;", "stop lines"),
                               ("for (auto x : c.stopLines()) { x.setId(3); }", "edit stop lines"), ("c.addTrafficSign(l);", "add sign"), ("c.removeTrafficSign(l);", "remove sign"),
                               ("LineStringsOrPolygons3d x = c.trafficSigns(); (void)x;", "signs"), ("c.removeLanelet(ll);", "remove lanelet"),
                               ("Optional<LineString3d> x = c.getStopLine(ll); (void)x;", "stop line of a lanelet")]),
               ("TrafficSign", [("LineStringsOrPolygons3d x = c.trafficSigns(); (void)x;", "signs"), ("LineStrings3d x = c.refLines(); (void)x;", "ref lines"),
                                ("for (auto x : c.refLines()) { x.setId(3); }", "edit ref lines"), ("for (auto x : c.cancelLines()) { x.setId(3); }", "edit cancel lines"),
                                ("for (auto x : c.cancellingTrafficSigns()) { x.lineString()->setId(3); }", "edit cancelling signs"), ("c.addRefLine(l);", "add"), ("c.removeRefLine(l);", "remove")])):
    for st, nm in ops:
        case(f"{nm} of a constant {t}", f"const {t}& c, LineString3d l, Lanelet ll", f"{t}& c, LineString3d l, Lanelet ll", st)
# maps and layers
for m in ("LaneletMap", "LaneletSubmap"):
    case(f"add to a constant {m}", f"const {m}& c, Lanelet l", f"{m}& c, Lanelet l", "c.add(l);")
    case(f"pointer to constant {m}", f"{m}ConstPtr c", f"{m}Ptr c", f"{m}Ptr m = c; (void)m;")
    for l, t in (("laneletLayer", "Lanelet"), ("areaLayer", "Area"), ("lineStringLayer", "LineString3d"), ("polygonLayer", "Polygon3d"),
                 ("pointLayer", "Point3d"), ("regulatoryElementLayer", "RegulatoryElementPtr")):
        cm, mm = f"const {m}& c, BoundingBox2d b", f"{m}& c, BoundingBox2d b"
        it = f"std::decay_t<decltype(c.{l})>::iterator"
        for nm, e in (("begin", f"*c.{l}.begin()"), ("find", f"*c.{l}.find(3)"), ("get", f"c.{l}.get(3)")):
            case(f"{nm} of {l} of a constant {m}", cm, mm, f"{t} x = {e}; (void)x;")
        case(f"bind element of {l} of a constant {m}", cm, mm, f"{t}& x = *c.{l}.begin(); (void)x;")
        case(f"iterator of {l} of a constant {m}", cm, mm, f"{it} x = c.{l}.begin(); (void)x;")
        case(f"found iterator of {l} of a constant {m}", cm, mm, f"{it} x = c.{l}.find(3); (void)x;")
        case(f"loop over {l} of a constant {m}", cm, mm, f"for ({t} x : c.{l}) {{ (void)x; }}")
        case(f"copy {l} of a constant {m}", cm, mm, f"std::vector<{t}> x(c.{l}.begin(), c.{l}.end());")
        case(f"search {l} of a constant {m}", cm, mm, f"std::vector<{t}> x = c.{l}.search(b); (void)x;")
        case(f"nearest in {l} of a constant {m}", cm, mm, f"std::vector<{t}> x = c.{l}.nearest(BasicPoint2d(0, 0), 3); (void)x;")
        case(f"searchUntil in {l} of a constant {m}", cm, mm, f"c.{l}.searchUntil(b, [](const auto&, const {t}&) {{ return true; }});")
        case(f"nearestUntil in {l} of a constant {m}", cm, mm, f"c.{l}.nearestUntil(BasicPoint2d(0, 0), [](const auto&, const {t}&) {{ return true; }});")
        case(f"result of searchUntil in {l} of a constant {m}", cm, mm, f"Optional<{t}> x = c.{l}.searchUntil(b, [](auto&, auto&) {{ return true; }}); (void)x;")
        case(f"result of nearestUntil in {l} of a constant {m}", cm, mm, f"Optional<{t}> x = c.{l}.nearestUntil(BasicPoint2d(0, 0), [](auto&, auto&) {{ return true; }}); (void)x;")
        if m == "LaneletMap":
            case(f"findNearest in {l} of a constant map", cm, mm, f"std::vector<std::pair<double, {t}>> x = geometry::findNearest(c.{l}, BasicPoint2d(0, 0), 3); (void)x;")
            u = {"lineStringLayer": "ConstPoint3d", "laneletLayer": "ConstLineString3d", "areaLayer": "ConstLineString3d", "polygonLayer": "ConstPoint3d",
                 "regulatoryElementLayer": "ConstLineString3d"}.get(l)
            if u:
                case(f"findUsages in {l} of a constant map", cm + f", {u} q", mm + f", {u} q", f"std::vector<{t}> x = c.{l}.findUsages(q); (void)x;")
            if l in ("laneletLayer", "areaLayer"):
                case(f"findUsages of a regulatory element in {l} of a constant map", cm + ", RegulatoryElementConstPtr q", mm + ", RegulatoryElementConstPtr q",
                     f"std::vector<{t}> x = c.{l}.findUsages(q); (void)x;")
case("map of a constant submap", "const LaneletSubmap& c", "LaneletSubmap& c", "LaneletMapPtr m = c.laneletMap(); (void)m;")
case("lanelets of the map of a constant submap", "const LaneletSubmap& c", "LaneletSubmap& c", "Lanelet l = *c.laneletMap()->laneletLayer.begin(); (void)l;")
for n, t in (("Map", "LaneletMap"), ("Submap", "LaneletSubmap")):
    case(f"create{n} from constant lanelets", "ConstLanelets c", "Lanelets c", f"{t}UPtr m = utils::create{n}(c); (void)m;")
    case(f"create{n} from constant areas", "ConstAreas c", "Areas c", f"{t}UPtr m = utils::create{n}(c); (void)m;")
    case(f"create{n} from constant line strings", "ConstLineStrings3d c", "LineStrings3d c", f"{t}UPtr m = utils::create{n}(c); (void)m;")
    case(f"create{n} from constant polygons", "ConstPolygons3d c", "Polygons3d c", f"{t}UPtr m = utils::create{n}(c); (void)m;")
    case(f"create{n} from constant points", "ConstPoints3d c", "Points3d c", f"{t}UPtr m = utils::create{n}(c); (void)m;")
    case(f"createConst{n} to a mutable pointer", "ConstLanelets c, ConstAreas a", "Lanelets c, Areas a",
         f"{t}UPtr m = [](auto& l, auto& x) {{ if constexpr (std::is_same_v<std::decay_t<decltype(l)>, Lanelets>) return utils::create{n}(l, x); else return utils::createConst{n}(l, x); }}(c, a); (void)m;")
# routing and matching hand out constant elements only
RG = "const routing::RoutingGraph& c, Lanelet l"
for e, t, mt in (("following(l)", "Lanelets", "ConstLanelets"), ("previous(l)", "Lanelets", "ConstLanelets"), ("besides(l)", "Lanelets", "ConstLanelets"),
                 ("left(l)", "Optional<Lanelet>", "Optional<ConstLanelet>"), ("right(l)", "Optional<Lanelet>", "Optional<ConstLanelet>"),
                 ("reachableSet(l, 3.)", "Lanelets", "ConstLanelets"), ("shortestPath(l, l)", "Optional<Lanelets>", "Optional<routing::LaneletPath>"),
                 ("passableSubmap()", "LaneletSubmapPtr", "LaneletSubmapConstPtr")):
    CASES.append((f"routing graph {e}", RG, RG, (f"{t} x = c.{e}; (void)x;", f"{mt} x = c.{e}; (void)x;")))
case_rt = "const routing::Route& c, Lanelet l"
for e, t, mt in (("laneletSubmap()", "LaneletSubmapPtr", "LaneletSubmapConstPtr"), ("fullLane(l)[0]", "Lanelet", "ConstLanelet"),
                 ("conflictingInRoute(l)", "Lanelets", "ConstLanelets"), ("following(l)", "Lanelets", "ConstLanelets"),
                 ("shortestPath()[0]", "Lanelet", "ConstLanelet")):
    CASES.append((f"route {e}", case_rt, case_rt, (f"{t} x = c.{e}; (void)x;", f"{mt} x = c.{e}; (void)x;")))
case("deterministic matches in a constant map", "const LaneletMap& c, matching::Object2d o", "LaneletMap& c, matching::Object2d o",
     "std::vector<matching::LaneletMatch> x = matching::getDeterministicMatches(c, o, 3.); (void)x;")
case("probabilistic matches in a constant map", "const LaneletMap& c, matching::ObjectWithCovariance2d o", "LaneletMap& c, matching::ObjectWithCovariance2d o",
     "std::vector<matching::LaneletMatchProbabilistic> x = matching::getProbabilisticMatches(c, o, 3.); (void)x;")


def programs():
    """(name, program that must not compile, program that must)"""
    for i, (name, cp, mp, st) in enumerate(CASES):
        a, b = st if isinstance(st, tuple) else (st, st)
        a, b = a.replace("GET", "c.constData()"), b.replace("GET", "p")
        a, b = a.replace("CENTER", "l.centerline()"), b.replace("CENTER", "centerline")
        a, b = a.replace("OUTER", "l.outerBoundPolygon()"), b.replace("OUTER", "outer")
        if "TYPE:" in a:
            a, b = a.replace("TYPE:", ""), b.replace("TYPE:", "Const").replace("x.setId(3)", "(void)x.id()").replace("ConstWeak", "Const").replace("x.lock()", "(void)x.id()")
        yield name, cp, a, mp, b
