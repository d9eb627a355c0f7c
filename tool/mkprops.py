import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
C='lanelet2_core/include/lanelet2_core/'; S='lanelet2_core/src/'
IO='lanelet2_io/'; RT='lanelet2_routing/'; TR='lanelet2_traffic_rules/'; VA='lanelet2_validation/'; MA='lanelet2_matching/'; PY='lanelet2_python/'
p('C01','Const handles never give mutable access',
 'From a constant primitive, constant map, constant layer or constant regulatory element no user program can obtain, through the public interface and without a cast of its own, a handle, reference, pointer or iterator through which the shared data can be changed. Conversions go only from mutable to constant types, and view operations (inverting, iterating, indexing, asking for bounds, rings, members, parameters) preserve constness.',
 ['programs'],'every program that compiles against the public headers','Tests only contain programs that compile; that no violating program compiles is a statement about all programs.',
 [C+'primitives/Lanelet.h',C+'primitives/LineString.h',C+'primitives/Point.h',C+'primitives/Polygon.h',C+'primitives/Area.h',C+'primitives/RegulatoryElement.h',C+'LaneletMap.h',C+'primitives/Primitive.h'],
 [('ConstX / X class pairs, deleted or absent conversions','primitives/*.h'),('const overloads of layer and map accessors','LaneletMap.h'),('removal of const restricted to designated internals','utility/Utilities.h: removeConst')],
 [('constData_','shared data seen through const handles','primitives/Primitive.h')],['type traits on the public API','const_cast / const_pointer_cast sites'])
p('C02','Concurrent readers of shared data never race or see freed memory',
 'Threads that only use constant operations on shared primitives, attributes, maps, routing graphs, routes and traffic rules never write unsynchronised shared memory. Lazily computed values are published and read atomically, and no reader keeps using such a value after another reader may have replaced it.',
 ['schedules','programs'],'all interleavings of any number of const operations','The tests are single threaded; a race needs a particular interleaving.',
 [C+'Attribute.h',S+'Attribute.cpp',S+'Lanelet.cpp',S+'LaneletSequence.cpp',S+'LaneletMap.cpp',C+'primitives/Point.h',RT+'src/RoutingGraph.cpp'],
 [('std::atomic_load/atomic_store on cached shared_ptr','Attribute.cpp, Lanelet.cpp'),('atomic id counter','LaneletMap.cpp')],
 [('cache_','lazily parsed attribute value','Attribute.h'),('centerline_','lazily computed centerline','primitives/Lanelet.h'),('outerBoundPolygon','lazily computed area polygon','primitives/Area.h')],['const member functions that write mutable members or statics'])
p('C03','Elements put in a map always carry a unique registered id',
 'Whatever way an element enters a map by adding it, it has a valid id afterwards: an invalid id is replaced by a freshly generated one, and a valid one is announced to the id generator before the element becomes visible. Building a map from lists of elements that have ids announces those ids too, and the parsers announce the ids of a file. The id generator never returns the same id twice or an id announced earlier, even when used from several threads, and registering an id never lowers it.',
 ['histories','schedules'],'all sequences of additions and id registrations on any number of threads','Tests add a handful of elements in one thread.',
 [S+'LaneletMap.cpp',C+'utility/Utilities.h'],
 [('LaneletMap::add overloads','LaneletMap.cpp'),('atomic fetch-add and compare-exchange loop','LaneletMap.cpp: getId / registerId')],
 [('currId','next id to hand out','LaneletMap.cpp')],['LaneletMap::add(...)','utils::getId','utils::registerId'])
p('C04','A map always contains everything its elements refer to',
 'After adding any primitive or regulatory element to a map, everything it owns or refers to (bounds, rings, centerlines set by hand, points, regulatory elements and every kind of regulatory parameter) has been added to the matching layer too, transitively; cyclic references terminate because elements already contained are not processed again. Building a map or submap from element lists does the same for every layer it is meant to fill.',
 ['inputs','histories'],'all elements and reference structures, including cyclic ones','The tests add few, small and mostly acyclic elements.',
 [S+'LaneletMap.cpp',C+'LaneletMap.h'],
 [('LaneletMap::add overloads and AddToMap visitor','LaneletMap.cpp'),('AddRegelemVisitor etc.','LaneletMap.cpp')],
 [],['LaneletMap::add','LaneletSubmap','utils::createMap'])
p('C05','Lookups by id, by position and by usage stay in step with a layer',
 'Every operation that makes an element part of a layer records it in the id index, in the spatial index and in the usage index of everything it uses, so that it can be found each way. No operation updates only some of these indexes.',
 ['histories','inputs'],'all sequences of add / update operations on all layer types','Tests look up a few elements in small maps, rarely through every index.',
 [S+'LaneletMap.cpp',C+'LaneletMap.h'],
 [('PrimitiveLayer::add / Tree / UsageLookup','LaneletMap.cpp')],
 [('elements_','id index','LaneletMap.h'),('tree_->rTree','spatial index','LaneletMap.cpp'),('tree_->usage','usage index','LaneletMap.cpp')],['find','findUsages','search','nearest'])
p('C06','Attribute access by name and by fast key always agree',
 'For every attribute that has a fast key, reading it by name and by key gives the same value after any sequence of inserting, overwriting, erasing, clearing, copying, moving and swapping attributes. Each fast key corresponds to exactly one name and every key has a name.',
 ['histories','inputs'],'all sequences of operations on attribute and parameter maps','Unit tests exercise a few operations each, not their sequences or copies.',
 [C+'utility/HybridMap.h',C+'Attribute.h',C+'primitives/RegulatoryElement.h'],
 [('HybridMap: every mutator updates both the map and the key table','utility/HybridMap.h'),('key/name tables','Attribute.h, RegulatoryElement.h')],
 [('m_','name to value map','HybridMap.h'),('v_','key to iterator table','HybridMap.h')],['AttributeMap','RuleParameterMap'])
p('C07','Rule parameters: every kind handled, expired references never used',
 'Every operation that works through the parameters of a regulatory element handles each of the possible kinds (point, line, polygon, lanelet, area). A reference to a lanelet or area that no longer exists is detected before it is used: it is reported, skipped or turned into an empty result and never dereferenced.',
 ['inputs','histories'],'all mixes of parameter kinds and all deletion histories of referenced lanelets','Tests use few kinds per operation and hardly ever let a referenced lanelet expire.',
 [C+'primitives/RegulatoryElement.h',S+'RegulatoryElement.cpp',S+'BasicRegulatoryElements.cpp',S+'LaneletMap.cpp',S+'RegulatoryElementGeometry.cpp',IO+'src/OsmHandlerWrite.cpp'],
 [('RuleParameterVisitor overrides','RegulatoryElement.h'),('WeakLanelet::lock / expired guards','all users')],
 [],['RegulatoryElement::applyVisitor','find','getParameters'])
p('C08','Left and right (and fore and back) are never mixed up',
 'Wherever the library offers an operation for the left side and one for the right side, the two are mirror images: each consistently uses only data, relations and tags of its own side, except where an inverted view deliberately exchanges them. An inverted view exchanges the two sides and reverses order in every accessor, and inverting twice gives the original view back.',
 ['inputs'],'all primitives, inverted or not, and all left/right operation pairs','Tests sample one side or symmetric inputs and rarely inverted views.',
 [C+'primitives/Lanelet.h',C+'primitives/LineString.h',S+'Lanelet.cpp',RT+'src/RoutingGraph.cpp',RT+'src/Route.cpp',TR+'src/GenericTrafficRules.cpp'],
 [('ConstLanelet::leftBound/rightBound/invert','Lanelet.h, Lanelet.cpp'),('sibling functions named left*/right*','all packages')],
 [('inverted_','whether a view is reversed','Lanelet.h, LineString.h')],['all left*/right* pairs of the public API'])
p('C09','Derived geometry is never stale',
 'Any operation of a lanelet or area that changes a bound or ring drops cached geometry derived from it, so that the next query is computed from the new bounds. A centerline that was set by the user is kept by cache resets and is never reported as computed.',
 ['histories'],'all interleavings of modifying and querying operations','Tests check one or two modify-then-query sequences.',
 [C+'primitives/Lanelet.h',S+'Lanelet.cpp',C+'primitives/Area.h'],
 [('setLeftBound/setRightBound/setInnerBounds/... call resetCache','Lanelet.cpp, Area.h')],
 [('centerline_','cached centerline','Lanelet.h')],['ConstLanelet::centerline','ConstArea::outerBoundPolygon'])
p('C10','Objects are never created with indeterminate content',
 'Every public value type and class initialises every built-in or pointer member on construction by any constructor, and plain internal records are only created with such members set before they are read, so that copying, comparing or reading a freshly created object is well defined and repeatable.',
 ['programs','inputs'],'all constructors of all library classes','Reading an indeterminate value usually yields a plausible value in a test.',
 [C+'primitives',RT+'include/lanelet2_routing',IO+'include/lanelet2_io',MA+'include',VA+'include'],
 [('default member initialisers and constructor initialiser lists','all headers')],[],['all constructors'])
p('C11','Equal objects hash equally and comparison looks at all that matters',
 'For every library type that can be compared and hashed, the hash depends only on content that the comparison also looks at, so equal objects have equal hashes; inequality is the exact negation of equality. Views of the same data that differ (for example in orientation) compare different.',
 ['inputs'],'all pairs of values of comparable types','Tests compare a few chosen pairs.',
 [C+'primitives',C+'Attribute.h',RT+'include/lanelet2_routing'],
 [('operator== / operator!= / std::hash specialisations','primitives/*.h')],[],['operator==','std::hash'])
p('I01','Binary loading mirrors binary saving',
 'For every type written in binary form, loading consumes exactly the items that saving produced, in the same order and under the same conditions, and every item of a loaded element ends up where the saved one came from. Every layer of a map and every kind of rule parameter is covered.',
 ['inputs'],'all maps','Round trips in tests use small maps in which many kinds are absent or equal.',
 [IO+'include/lanelet2_io/io_handlers/Serialize.h',IO+'src/BinHandler.cpp'],
 [('save/load overload pairs','Serialize.h')],[],['binary write and parse'])
p('I02','The map file reader understands everything the writer produces',
 'Every tag, attribute name, role name, member type and element kind that the map file writer emits is the one the reader looks for at the same place, and each is carried to the element of the same kind; optional information such as elevation is written under the condition under which it is read. Both directions handle all element kinds.',
 ['inputs'],'all maps','Round-trip tests cover selected elements and compare a subset of their data.',
 [IO+'src/OsmFile.cpp',IO+'src/OsmHandlerLoad.cpp',IO+'src/OsmHandlerWrite.cpp',C+'Attribute.h'],
 [('keyword and role constants shared by writer and reader','OsmFile.cpp'),('role strings for lanelets, areas, rules','OsmHandlerLoad.cpp, OsmHandlerWrite.cpp')],[],['write and load of map files'])
p('I03','Errors while loading or writing maps are always reported',
 'Every element, member or reference of a known kind that the loader or writer has to skip, replace by a placeholder or cannot resolve leaves an error message that reaches the caller: through the error list if one was passed, otherwise as an exception. Error messages collected by one stage are never overwritten or dropped by a later one.',
 ['inputs','fault_sequences'],'all malformed or unusual inputs and combinations of errors','Tests provoke few errors, one at a time.',
 [IO+'src/OsmFile.cpp',IO+'src/OsmHandlerLoad.cpp',IO+'src/OsmHandlerWrite.cpp',IO+'src/Io.cpp',IO+'src/BinHandler.cpp'],
 [('parserError / writeError collectors','OsmHandlerLoad.cpp, OsmHandlerWrite.cpp'),('handleDefaultErrors','Io.cpp')],
 [('errors_','collected messages','OsmHandlerLoad.cpp')],['lanelet::load / write with and without error list'])
p('I04','Everything that can be created by name is registered under the right name',
 'Every regulatory element, map reader, map writer, traffic rule set and validator the library implements can be created through the public factory under the name, extension, location or participant it declares, and no two share one. Asking for an unknown name raises the library\'s documented error instead of returning nothing.',
 ['inputs','programs'],'all names and all implementing classes','Tests create some of them; a lost registration is invisible until the name appears in a file.',
 [S+'RegulatoryElement.cpp',S+'BasicRegulatoryElements.cpp',IO+'src/Factory.cpp',TR+'src/TrafficRulesFactory.cpp',TR+'src/GermanTrafficRules.cpp',VA+'src/ValidatorFactory.cpp'],
 [('static registration objects','*.cpp anonymous namespaces'),('factory create functions','Factory.cpp, RegulatoryElement.cpp')],[],['RegulatoryElementFactory','ParserFactory','WriterFactory','TrafficRulesFactory','ValidatorFactory'])
p('I05','Absent entries are never dereferenced',
 'Whatever the library looks up in map files, layers, attribute maps, rule parameters, routing graphs or routes may be absent; every use of a looked-up entry, optional value, first or last list element or dynamic cast result is preceded on every path by a test that it is present, or goes through an access that raises an error. Malformed files and elements unknown to a graph therefore lead to empty results or errors, never to undefined behaviour.',
 ['inputs'],'all files, all queries with elements that are or are not part of the queried object','Each lookup needs its own malformed input; tests contain few.',
 [IO+'src/OsmFile.cpp',IO+'src/OsmHandlerLoad.cpp',RT+'src/RoutingGraph.cpp',RT+'src/Route.cpp',RT+'src/LaneletPath.cpp',S+'LaneletMap.cpp',S+'BasicRegulatoryElements.cpp',MA+'src/LaneletMatching.cpp'],
 [('guards before dereference','all lookups')],[],['all public queries and loaders'])
p('E01','Regulatory elements store and return things under the same role',
 'For every regulatory element type, each accessor reads exactly the role that the constructor and the adding and removing operations of the same thing use, and roles for different things are different. Adding something is undone by removing it, and removing something that is not there reports so and changes nothing.',
 ['inputs','histories'],'all sequences of add, remove and query operations on all rule types','Tests construct each type once and query it.',
 [S+'BasicRegulatoryElements.cpp',C+'primitives/BasicRegulatoryElements.h'],
 [('role constants','RegulatoryElement.h: RoleNameString')],[('parameters','role to parameter map','RegulatoryElement.h')],['TrafficLight','TrafficSign','SpeedLimit','RightOfWay','AllWayStop'])
p('T01','Nobody is routed from or into something they may not use',
 'The default traffic rules answer that a transition between two elements, or a lane change, is possible only if both elements may be used by the participant themselves and they actually adjoin. The same holds for every combination of lanelets and areas.',
 ['inputs'],'all pairs of lanelets/areas and all participants','The tests sample tag combinations, mostly with both ends usable.',
 [TR+'src/GenericTrafficRules.cpp'],[('canPass / canChangeLane overloads','GenericTrafficRules.cpp')],[],['TrafficRules::canPass(from,to)','canChangeLane'])
p('T02','Explicit tags and rules win over defaults in traffic rules',
 'When answering whether an element may be used, in which direction, or with which speed limit, the default traffic rules consult the attached regulatory elements and the element\'s explicit participant-specific tags first, and fall back to defaults by type and location only if those give no answer. An explicit answer is returned as it is, not its negation.',
 ['inputs'],'all combinations of tags, rules and participants','The tag combinations are exponentially many; tests sample some.',
 [TR+'src/GenericTrafficRules.cpp'],[('override lookups before table lookups','GenericTrafficRules.cpp')],[],['TrafficRules::canPass','isOneWay','speedLimit'])
p('R01','Routing edges only connect what traffic rules allow',
 'An element becomes part of a routing graph only if the traffic rules let the participant use it, and a drivable relation (following, area or lane change) between two elements is created only under a positive answer of the traffic rules for exactly this ordered pair. Every cost model contributes its own cost for each such relation and merely adjacent or conflicting pairs never get a finite cost as if drivable.',
 ['inputs'],'all maps, rule sets and cost models','Tests use one hand-made map with one or two cost models.',
 [RT+'src/RoutingGraphBuilder.cpp'],[('canPass / canChangeLane guards before addEdge','RoutingGraphBuilder.cpp'),('per-cost-model loop','RoutingGraphBuilder.cpp: assignLaneChangeCosts/assignCosts')],[],['RoutingGraph::build'])
p('R02','Each routing query follows exactly the relations it is named after',
 'Queries about following, previous, left, right, adjacent, lane-change, conflicting or area relations use a view of the graph restricted to exactly those relations, in the right direction; queries that exclude lane changes or conflicts use a view without them. Relation kinds are distinct bits and the set of all relations contains each of them.',
 ['inputs','configurations'],'all graphs, all queries and flag combinations','Tests run queries on one map where most relation kinds are absent around the queried element.',
 [RT+'include/lanelet2_routing/internal/Graph.h',RT+'include/lanelet2_routing/Forward.h',RT+'src/RoutingGraph.cpp',RT+'src/Route.cpp'],
 [('filtered graph views','internal/Graph.h'),('RelationType bit values','Forward.h')],[],['RoutingGraph and Route queries'])
p('R03','Options of a query are never silently ignored',
 'Every argument a caller passes to a public routing, traffic rule, matching, loading, projection or geometry operation (cost model id, lane change permission, conflict inclusion, limits, error lists) takes part in producing the result and is handed on unchanged to the operation it delegates to, in the right position.',
 ['inputs','configurations'],'all argument values of all public operations','Tests mostly use default arguments, where a dropped or swapped argument makes no difference.',
 [RT+'src/RoutingGraph.cpp',RT+'src/Route.cpp',RT+'include/lanelet2_routing/RoutingGraphContainer.h',IO+'src/Io.cpp',MA+'src/LaneletMatching.cpp',TR+'src/GenericTrafficRules.cpp'],
 [('forwarding of parameters','all delegating functions')],[],['all public functions with parameters'])
p('R04','Routing rejects invalid costs and cost ids',
 'A routing query that evaluates the graph with a cost model id it does not have, and a cost model that yields a finite negative cost, always lead to the documented error and never to an out-of-range access or a negative edge. Every graph view or export made for a cost model validates the id first.',
 ['inputs'],'all ids and all user-defined cost models','Tests try one wrong id on a few queries.',
 [RT+'include/lanelet2_routing/internal/Graph.h',RT+'include/lanelet2_routing/internal/GraphUtils.h',RT+'src/RoutingGraph.cpp',RT+'src/RoutingGraphBuilder.cpp',RT+'src/RoutingCost.cpp'],
 [('id check in getFilteredGraph','internal/Graph.h'),('negative cost check in addEdge','internal/Graph.h')],[],['RoutingGraph queries with routingCostId'])
p('R05','Route validation reports exactly the broken relations',
 'Checking a route reports an error for an element whose recorded neighbour relation is missing or contradicts the opposite record, and reports none for consistent ones; when asked to throw, it throws if and only if it found errors.',
 ['inputs'],'all routes','Tests call it on valid routes with throwing disabled, so a reversed check goes unnoticed.',
 [RT+'src/Route.cpp'],[('checkValidity, checkRelationIs','Route.cpp')],[],['Route::checkValidity'])
p('X01','Every error the library raises is one of its documented errors',
 'Every exception that leaves a public operation because of the input given to it is derived from the library\'s common error type; errors of third-party components (projection, archives, container look-ups, number parsing) are converted or prevented.',
 ['inputs','fault_sequences'],'all inputs of all public operations','Tests trigger a few documented errors only.',
 [C+'Exceptions.h',IO+'include/lanelet2_io/Exceptions.h','lanelet2_projection/src/UTM.cpp',RT+'src/LaneletPath.cpp',IO+'src/BinHandler.cpp'],
 [('LaneletError hierarchy','Exceptions.h'),('try/catch conversions','UTM.cpp, RegulatoryElement.cpp')],[],['throw expressions and calls that may throw'])
p('X02','No library error terminates the program',
 'No function declared not to throw, and no destructor, can raise or let through one of the library\'s errors, so that any error stays catchable by the caller.',
 ['inputs'],'all inputs reaching functions declared not to throw','A terminate needs an error on a path that tests do not drive into an error.',
 [RT+'include/lanelet2_routing/RoutingCost.h',RT+'src/RoutingCost.cpp',C+'primitives',C+'Attribute.h'],
 [('noexcept specifications','all headers')],[],['noexcept functions and destructors'])
p('P01','Projections undo what they do: same offsets, zone and height',
 'In every projector, converting to the map frame and back use the same origin, offsets, zone, hemisphere and scale, applied in opposite direction and to the matching coordinate (x with easting or longitude, y with northing or latitude), and pass the height through the same way. A coordinate outside of the zone where that is forbidden, or one the conversion used reports it cannot convert, leads to the documented projection error in both directions.',
 ['inputs','configurations'],'all coordinates and projector configurations','Tests round-trip a few points around one origin.',
 ['lanelet2_projection/src','lanelet2_projection/include/lanelet2_projection',IO+'include/lanelet2_io/Projection.h'],
 [('forward / reverse pairs','UTM.cpp, LocalCartesian.cpp, Geocentric.cpp, Mercator.h')],[('xOffset_/yOffset_/zone_','origin state','UTM.h')],['Projector::forward','Projector::reverse'])
p('V01','Every selected validator runs and every issue it finds is reported',
 'Each validator whose name matches the selection is run on the map (or, for rule and routing validators, for every participant), every error and warning it returns appears in the report at its own severity, and a map with issues never leads to a success exit. Errors while loading or preparing validation are part of the report.',
 ['inputs','configurations'],'all maps, selections and combinations of issues','Tests run single validators on tiny maps.',
 [VA+'src/Validation.cpp',VA+'src/ValidatorFactory.cpp',VA+'src/Cli.cpp',VA+'include/lanelet2_validation/Issue.h'],
 [('validateMap, runValidators, buildReport','Validation.cpp')],[],['validateMap','the validation command line tool'])
p('V02','Tag validators look at every element with the right known values',
 'Tag validators examine every layer whose elements can carry the examined tags, compare a value against the known values of that tag (for the element\'s type where this matters), and recognise every known value; their lookup tables are well formed so that no known value is overlooked.',
 ['inputs'],'all tag values on all layers','Tests use a few unknown values on selected layers.',
 [VA+'src/validators/CheckTags.cpp'],[('sorted tables searched by bisection','CheckTags.cpp')],[],['validators for tags'])
p('M01','Map matching variants agree and respect traffic rules',
 'Matching on constant and on mutable maps runs the same search with the same parameters and differs only in the constness of results; results carry the distances computed for their own lanelet and are ordered as promised. Filtering by traffic rules keeps exactly the matches whose lanelet, in the orientation of the match, the participant may use.',
 ['inputs'],'all maps, poses and rule sets','Tests check few poses on one map.',
 [MA+'src/LaneletMatching.cpp',MA+'src/Utilities.cpp'],[('template implementation shared by variants','LaneletMatching.cpp')],[],['getDeterministicMatches','getProbabilisticMatches','removeNonRuleCompliantMatches'])
p('Y01','Python names call the C++ functions of the same name',
 'Every attribute, method, function and enumeration value exposed to Python is bound to the C++ entity of corresponding name and meaning, with getters and setters of the same thing paired and argument names matching argument positions. Every value of an exposed enumeration is available.',
 ['inputs','programs'],'all exposed Python entities','The Python tests touch a small part of the exposed interface.',
 [PY+'python_api'],[('def / add_property / enum_ value lists','python_api/*.cpp')],[],['the lanelet2 Python package'])
p('H01','Public headers can be used in any combination',
 'Every public header compiles on its own, can be included repeatedly and in any order together with every other, and defines nothing that clashes when used in several translation units of one program.',
 ['programs','configurations'],'all sets and orders of public headers in all programs','Tests include few combinations.',
 ['lanelet2_*/include'],[('include guards, includes, inline definitions','all headers')],[],['compilation and linking of user programs'])
# not applicable
def na(id,title,st,over,qt,why,files,mech): p(id,title,st,over,qt,why,files,mech)
na('N01','Projected coordinates are accurate','Projecting a coordinate and back reproduces it to within numerical accuracy, and distances in the map frame match distances on the ground near the origin.',['inputs'],'all coordinates near the origin','Tests sample points.',['lanelet2_projection/src'],[('GeographicLib calls','UTM.cpp')])
na('N02','Shortest paths are shortest','The shortest path query returns a path of minimal total cost, respecting via points, and none only if the goal is unreachable.',['inputs'],'all graphs and costs','One map.',[RT+'src/RoutingGraph.cpp',RT+'include/lanelet2_routing/internal/ShortestPath.h'],[('dijkstra search','ShortestPath.h')])
na('N03','Reachable and possible path queries are complete','Reachable sets and possible paths contain exactly what can be reached within the cost or length limit.',['inputs'],'all graphs','One map.',[RT+'src/RoutingGraph.cpp'],[('buildPath, reachableSet','RoutingGraph.cpp')])
na('N04','Routes are maximal and consistent','A route contains every lanelet from which the goal remains reachable by lane changes without leaving the road, and its lane ids partition it into lanes.',['inputs'],'all graphs','One map.',[RT+'src/RouteBuilder.cpp'],[('RouteConstructionVisitor','RouteBuilder.cpp')])
na('N05','Spatial queries are exact','Box searches return exactly the intersecting elements and nearest queries return the closest ones in order.',['inputs'],'all geometries','Few samples.',[S+'LaneletMap.cpp',C+'geometry/impl/LaneletMap.h'],[('R-tree queries','LaneletMap.cpp')])
na('N06','Centerlines and offsets are geometrically valid','A computed centerline lies between the bounds, is ordered along the lanelet and free of self-intersections; offset lines keep the requested distance.',['inputs'],'all bounds','Few shapes.',[S+'Lanelet.cpp',S+'LineStringGeometry.cpp'],[('calculateCenterline','Lanelet.cpp')])
na('N07','Polygon partitions are exact','Convex partitioning and triangulation cover the polygon exactly with parts that do not overlap and use each vertex.',['inputs'],'all simple polygons','Few shapes.',[S+'PolygonTriangulationGeometry.cpp'],[('convexPartition, triangulate','PolygonTriangulationGeometry.cpp')])
na('N08','Distances, overlaps and intersections are numerically right','Distance, overlap, intersection and arc coordinate computations agree with their mathematical definition up to rounding, in 2D and 3D.',['inputs'],'all geometries','Samples.',[C+'geometry/impl/LineString.h'],[('geometry algorithms','geometry/impl')])
na('N09','Saving and loading a map preserves all values','A map that is saved and loaded again equals the original in all ids, coordinates (to the written precision), attributes and references.',['inputs'],'all maps','Small maps.',[IO+'src'],[('writer and reader','OsmHandler*.cpp, Serialize.h')])
na('N10','Match probabilities follow the stated distance measure','Mahalanobis distances and probabilities of matches are numerically right and matches are sorted by them.',['inputs'],'all poses and covariances','Few samples.',[MA+'src/Utilities.cpp'],[('getMahalanobisDistSq','Utilities.cpp')])
na('N12','Unit conversions and quantities are dimensionally right','Speeds, times and accelerations keep their physical value through every conversion.',['inputs'],'all values','Samples.',[C+'utility/Units.h',S+'Attribute.cpp'],[('boost units','Units.h')])
na('N13','Lanelet relation predicates are exact','Follows, left-of, overlaps and conflict predicates hold exactly for lanelets whose bounds are related that way.',['inputs'],'all lanelet pairs','Samples.',[C+'geometry/impl/Lanelet.h'],[('follows, leftOf, overlaps','geometry/impl/Lanelet.h')])
na('N14','Conversion scripts keep map content','The bundled scripts that convert older map formats keep all content they do not document as changed.',['inputs'],'all maps','No tests.',['lanelet2_python/scripts'],[('scripts','lanelet2_python/scripts')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
