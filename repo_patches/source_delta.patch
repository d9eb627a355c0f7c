From 2d552cbccf7aa3fc92896b25f5f0ac44a092f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 01/40] fix: area to area transitions require both areas to be
 passable

canPass(area, area) only rejected the transition if the start area was not
passable while the end area was.
---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index bbf181b..28ab26e 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -235,7 +235,7 @@ bool GenericTrafficRules::canPass(const ConstArea& from, const ConstLanelet& to)
 }
 
 bool GenericTrafficRules::canPass(const ConstArea& from, const ConstArea& to) const {
-  if (!canPass(from) && canPass(to)) {
+  if (!canPass(from) || !canPass(to)) {
     return false;
   }
   auto line = determineCommonLine(from, to);
-- 
2.43.0


From 49884f41fb26eb65cc6fdc23fe3de4bdeed3c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 02/40] fix: routing views without conflicting relations really
 exclude them

---
 lanelet2_routing/include/lanelet2_routing/internal/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
index 3bdc80a..6520ff2 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
@@ -162,7 +162,7 @@ class Graph {
   }
 
   FilteredGraph withoutConflicting(RoutingCostId routingCostId = 0) const {
-    return getFilteredGraph(routingCostId, allRelations() | ~RelationType::Conflicting);
+    return getFilteredGraph(routingCostId, allRelations() & ~RelationType::Conflicting);
   }
 
   inline bool empty() const noexcept { return laneletOrAreaToVertex_.empty(); }
-- 
2.43.0


From 239cc3aebd2863f6c1488af59c5db8ea041f3ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 03/40] fix: route validation reports broken instead of
 consistent relations

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 380affd..76fb5e4 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -353,7 +353,7 @@ bool Route::contains(const ConstLanelet& lanelet) const { return !!graph_->getVe
 
 template <RelationType Expect>
 void checkRelationIs(Route::Errors& errors, Id source, Id dest, RelationType sourceRel, RelationType targetRel) {
-  if ((Expect & targetRel) != RelationType::None) {
+  if ((Expect & targetRel) == RelationType::None) {
     auto sourceStr = std::to_string(source);
     auto destStr = std::to_string(dest);
     errors.emplace_back("Lanelet " + sourceStr + " is " + relationToString(sourceRel) + "of/with " + destStr +
-- 
2.43.0


From 0f9a8a97331d778c9baaec62651da59c9cf479ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 04/40] fix: neighbour relations of lanelets outside a route
 are empty instead of undefined

---
 lanelet2_routing/src/Route.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 76fb5e4..f8f4667 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -267,6 +267,9 @@ Optional<LaneletRelation> Route::leftRelation(const ConstLanelet& lanelet) const
 LaneletRelations Route::leftRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowLeft();
   std::tie(next, type) = getNextVertex(*next, g);
@@ -288,6 +291,9 @@ Optional<LaneletRelation> Route::rightRelation(const ConstLanelet& lanelet) cons
 LaneletRelations Route::rightRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowRight();
   std::tie(next, type) = getNextVertex(*next, g);
-- 
2.43.0


From cb79696fbdf376fe0e525343bb8241e9489443d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 05/40] fix: LaneletRelation and OriginalGraphFilter start with
 defined members

---
 lanelet2_routing/include/lanelet2_routing/Types.h           | 4 ++--
 .../include/lanelet2_routing/internal/GraphUtils.h          | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/Types.h b/lanelet2_routing/include/lanelet2_routing/Types.h
index 15cc66c..88f9f13 100644
--- a/lanelet2_routing/include/lanelet2_routing/Types.h
+++ b/lanelet2_routing/include/lanelet2_routing/Types.h
@@ -32,8 +32,8 @@ using LaneletOrAreaVisitFunction = std::function<bool(const LaneletOrAreaVisitIn
 
 //! Represents the relation of a lanelet to another lanelet
 struct LaneletRelation {
-  ConstLanelet lanelet;       //!< the lanelet this relation refers to
-  RelationType relationType;  //!< the type of relation to that
+  ConstLanelet lanelet;                           //!< the lanelet this relation refers to
+  RelationType relationType{RelationType::None};  //!< the type of relation to that
 };
 inline bool operator==(const LaneletRelation& lhs, const LaneletRelation& rhs) {
   return lhs.lanelet == rhs.lanelet && lhs.relationType == rhs.relationType;
diff --git a/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h b/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h
index a7f5004..9c0ac62 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/GraphUtils.h
@@ -122,9 +122,9 @@ class OriginalGraphFilter {
   }
 
  private:
-  const GraphType* g_;
-  RoutingCostId costId_;
-  RelationType filterMask_;
+  const GraphType* g_{};
+  RoutingCostId costId_{};
+  RelationType filterMask_{RelationType::None};
 };
 using OriginalGraph = boost::filtered_graph<GraphType, OriginalGraphFilter>;
 
-- 
2.43.0


From 76951f21f07c6a6eab7461055570139518cf3cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 06/40] fix: cost functions that may throw are not declared
 noexcept

---
 lanelet2_python/python_api/routing.cpp                  | 8 ++++----
 lanelet2_routing/include/lanelet2_routing/RoutingCost.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 712c229..0e2a007 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -56,12 +56,12 @@ Optional<T> objectToOptional(const object& o) {
 class RoutingCostBaseWrapper : public lanelet::routing::RoutingCost, public wrapper<lanelet::routing::RoutingCost> {
  public:
   double getCostSucceeding(const traffic_rules::TrafficRules& trafficRules, const ConstLaneletOrArea& from,
-                           const ConstLaneletOrArea& to) const noexcept override {
+                           const ConstLaneletOrArea& to) const override {
     return this->get_override("getCostSucceeding")(boost::ref(trafficRules), from, to);
   }
 
   double getCostLaneChange(const traffic_rules::TrafficRules& trafficRules, const ConstLanelets& from,
-                           const ConstLanelets& to) const noexcept override {
+                           const ConstLanelets& to) const override {
     return this->get_override("getCostLaneChange")(boost::ref(trafficRules), from, to);
   }
 };
@@ -73,7 +73,7 @@ class RoutingCostWrapper : public BaseT, public wrapper<BaseT> {
   RoutingCostWrapper(double laneChangeCost, double minLaneChange) : BaseT(laneChangeCost, minLaneChange) {}
 
   double getCostSucceeding(const traffic_rules::TrafficRules& trafficRules, const ConstLaneletOrArea& from,
-                           const ConstLaneletOrArea& to) const noexcept override {
+                           const ConstLaneletOrArea& to) const override {
     const auto o = this->get_override("getCostSucceeding");
     if (o) {
       return o(boost::ref(trafficRules), from, to);
@@ -87,7 +87,7 @@ class RoutingCostWrapper : public BaseT, public wrapper<BaseT> {
   }
 
   double getCostLaneChange(const traffic_rules::TrafficRules& trafficRules, const ConstLanelets& from,
-                           const ConstLanelets& to) const noexcept override {
+                           const ConstLanelets& to) const override {
     const auto o = this->get_override("getCostLaneChange");
     if (o) {
       return o(boost::ref(trafficRules), from, to);
diff --git a/lanelet2_routing/include/lanelet2_routing/RoutingCost.h b/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
index 789d123..7565e2d 100644
--- a/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
+++ b/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
@@ -61,7 +61,7 @@ class RoutingCostDistance : public RoutingCost {
     return (from.applyVisitor(getLength) + to.applyVisitor(getLength)) / 2;
   }
   inline double getCostLaneChange(const traffic_rules::TrafficRules& /*trafficRules*/, const ConstLanelets& from,
-                                  const ConstLanelets& /*to*/) const noexcept override {
+                                  const ConstLanelets& /*to*/) const override {
     if (minChangeLength_ <= 0.) {
       return laneChangeCost_;
     }
@@ -94,7 +94,7 @@ class RoutingCostTravelTime : public RoutingCost {
   }
 
   inline double getCostLaneChange(const traffic_rules::TrafficRules& trafficRules, const ConstLanelets& from,
-                                  const ConstLanelets& /*to*/) const noexcept override {
+                                  const ConstLanelets& /*to*/) const override {
     if (minChangeTime_ <= 0.) {
       return laneChangeCost_;
     }
-- 
2.43.0


From db22440dfd225e792176bdd5a3024eaf55a0ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 07/40] fix: UtmProjector reports an invalid origin as
 projection error

---
 lanelet2_projection/src/UTM.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lanelet2_projection/src/UTM.cpp b/lanelet2_projection/src/UTM.cpp
index a19079d..3b65666 100644
--- a/lanelet2_projection/src/UTM.cpp
+++ b/lanelet2_projection/src/UTM.cpp
@@ -9,8 +9,12 @@ UtmProjector::UtmProjector(Origin origin, const bool useOffset, const bool throw
     : Projector(origin), useOffset_{useOffset}, throwInPaddingArea_{throwInPaddingArea} {
   double x = 0;
   double y = 0;
-  GeographicLib::UTMUPS::Forward(this->origin().position.lat, this->origin().position.lon, zone_,
-                                 isInNorthernHemisphere_, x, y);
+  try {
+    GeographicLib::UTMUPS::Forward(this->origin().position.lat, this->origin().position.lon, zone_,
+                                   isInNorthernHemisphere_, x, y);
+  } catch (GeographicLib::GeographicErr& e) {
+    throw ForwardProjectionError(e.what());
+  }
   if (useOffset_) {
     xOffset_ = x;
     yOffset_ = y;
-- 
2.43.0


From ce7b7c32a122b4127a32f8d3e949bb02d16396c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 08/40] fix: loading a map from an inaccessible path raises
 FileNotFoundError

---
 lanelet2_io/src/Io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lanelet2_io/src/Io.cpp b/lanelet2_io/src/Io.cpp
index 1a32a00..f12a404 100644
--- a/lanelet2_io/src/Io.cpp
+++ b/lanelet2_io/src/Io.cpp
@@ -28,7 +28,8 @@ std::unique_ptr<LaneletMap> load(const std::string& filename, const Origin& orig
 
 std::unique_ptr<LaneletMap> load(const std::string& filename, const Projector& projector, ErrorMessages* errors,
                                  const io::Configuration& params) {
-  if (!fs::exists(fs::path(filename))) {
+  boost::system::error_code ec;
+  if (!fs::exists(fs::path(filename), ec)) {
     throw FileNotFoundError("Could not find lanelet map under " + filename);
   }
   ErrorMessages err;
@@ -45,7 +46,8 @@ std::unique_ptr<LaneletMap> load(const std::string& filename, const std::string&
 
 std::unique_ptr<LaneletMap> load(const std::string& filename, const std::string& parserName, const Projector& projector,
                                  ErrorMessages* errors, const io::Configuration& params) {
-  if (!fs::exists(fs::path(filename))) {
+  boost::system::error_code ec;
+  if (!fs::exists(fs::path(filename), ec)) {
     throw FileNotFoundError("Could not find lanelet map under " + filename);
   }
   ErrorMessages err;
-- 
2.43.0


From 5b6b73e53fe4bac2ce352007ce0c4b0c103885d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 09/40] fix: malformed binary maps raise ParseError instead of
 boost exceptions

---
 lanelet2_io/src/BinHandler.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lanelet2_io/src/BinHandler.cpp b/lanelet2_io/src/BinHandler.cpp
index 8d22edc..204ce44 100644
--- a/lanelet2_io/src/BinHandler.cpp
+++ b/lanelet2_io/src/BinHandler.cpp
@@ -23,10 +23,14 @@ void BinWriter::write(const std::string& filename, const LaneletMap& laneletMap,
   if (!fs.good()) {
     throw ParseError("Failed open archive " + filename);
   }
-  boost::archive::binary_oarchive oa(fs);
-  oa << laneletMap;
-  auto idCounter = utils::getId();
-  oa << idCounter;
+  try {
+    boost::archive::binary_oarchive oa(fs);
+    oa << laneletMap;
+    auto idCounter = utils::getId();
+    oa << idCounter;
+  } catch (const boost::archive::archive_exception& e) {
+    throw WriteError("Failed to write archive " + filename + ": " + e.what());
+  }
 }
 
 std::unique_ptr<LaneletMap> BinParser::parse(const std::string& filename, ErrorMessages& /*errors*/) const {
@@ -35,10 +39,16 @@ std::unique_ptr<LaneletMap> BinParser::parse(const std::string& filename, ErrorM
     throw ParseError("Failed open archive " + filename);
   }
   std::unique_ptr<LaneletMap> laneletMap = std::make_unique<LaneletMap>();
-  boost::archive::binary_iarchive ia(fs);
-  ia >> *laneletMap;
   Id idCounter = 0;
-  ia >> idCounter;
+  try {
+    boost::archive::binary_iarchive ia(fs);
+    ia >> *laneletMap;
+    ia >> idCounter;
+  } catch (const LaneletError&) {
+    throw;
+  } catch (const std::exception& e) {  // malformed archives lead to archive_exceptions or failing allocations
+    throw ParseError("Failed to read archive " + filename + ": " + e.what());
+  }
   utils::registerId(idCounter);
   return laneletMap;
 }
-- 
2.43.0


From cab6902c88b4902ac27da5cd709dd7ae0ae44553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 10/40] fix: path polygons and polygon partitioning raise
 lanelet errors

---
 lanelet2_core/src/PolygonTriangulationGeometry.cpp | 8 ++++----
 lanelet2_routing/src/LaneletPath.cpp               | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lanelet2_core/src/PolygonTriangulationGeometry.cpp b/lanelet2_core/src/PolygonTriangulationGeometry.cpp
index 7635e69..03f72a8 100644
--- a/lanelet2_core/src/PolygonTriangulationGeometry.cpp
+++ b/lanelet2_core/src/PolygonTriangulationGeometry.cpp
@@ -248,13 +248,13 @@ class VectorMap {
 
   void append(const KeyType& key, const ValueType& value) {
     if (frozen_) {
-      throw std::runtime_error("Can't add to frozen vector map");
+      throw GeometryError("Can't add to frozen vector map");
     }
     storage_.emplace_back(ElementType{key, value});
   }
   void append(const ElementType& elem) {
     if (frozen_) {
-      throw std::runtime_error("Can't add to frozen vector map");
+      throw GeometryError("Can't add to frozen vector map");
     }
     storage_.emplace_back(elem);
   }
@@ -267,12 +267,12 @@ class VectorMap {
 
   const ValueType& at(const KeyType& key) const {
     if (!frozen_) {
-      throw std::runtime_error("Can't search in unfrozen vector map");
+      throw GeometryError("Can't search in unfrozen vector map");
     }
     auto it = std::lower_bound(storage_.begin(), storage_.end(), key,
                                [](auto& value, const KeyType& k) { return value.first < k; });
     if (it == storage_.end() || key != it->first) {
-      throw std::runtime_error("Item not found in vector map");
+      throw GeometryError("Item not found in vector map");
     }
     return it->second;
   }
diff --git a/lanelet2_routing/src/LaneletPath.cpp b/lanelet2_routing/src/LaneletPath.cpp
index a139293..8df5355 100644
--- a/lanelet2_routing/src/LaneletPath.cpp
+++ b/lanelet2_routing/src/LaneletPath.cpp
@@ -243,7 +243,7 @@ void addLaneletPair(BoundsResult& res, const Head& head, const bool notTail = tr
 void addLaneletAreaHead(BoundsResult& res, const Head& head, const bool notTail = true) {
   auto adj = getLaneletAdjacency(*head.cur.lanelet(), *head.next->area());
   if (!adj) {
-    throw std::runtime_error("Did not find adjacency");
+    throw GeometryError("Did not find adjacency");
   }
   if (!notTail) {
     appendFirst(res.left, *head.cur.lanelet(), adj->adjacency);
@@ -273,7 +273,7 @@ void addFirstArea(BoundsResult& res, const Head& head) {
 
 void addFirstLanelet(BoundsResult& res, const Head& head) {
   if (!head.next) {
-    throw std::runtime_error("Following primitive not intialized");
+    throw InvalidInputError("Following primitive not intialized");
   }
   if (head.next->isLanelet()) {
     addLaneletPair(res, head, false);
-- 
2.43.0


From 7bcb619449f185cf4d23a23838f078c25b3b7cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 11/40] fix: traffic rules without participant or location
 raise InvalidInputError

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 28ab26e..696dcca 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -320,9 +320,19 @@ SpeedLimitInformation GenericTrafficRules::speedLimit(const ConstArea& area) con
   return speedLimit(area.regulatoryElements(), area.attributes());
 }
 
-const std::string& TrafficRules::participant() const { return config_.at("participant").value(); }
+namespace {
+const std::string& configValue(const TrafficRules::Configuration& config, const std::string& key) {
+  auto it = config.find(key);
+  if (it == config.end()) {
+    throw InvalidInputError("The configuration of the traffic rules has no value for " + key);
+  }
+  return it->second.value();
+}
+}  // namespace
+
+const std::string& TrafficRules::participant() const { return configValue(config_, "participant"); }
 
-const std::string& TrafficRules::location() const { return config_.at("location").value(); }
+const std::string& TrafficRules::location() const { return configValue(config_, "location"); }
 
 Optional<bool> GenericTrafficRules::canPass(const std::string& type, const std::string& /*location*/) const {
   using ParticantsMap = std::map<std::string, std::vector<std::string>>;
-- 
2.43.0


From 388cd03224390fa31eb45a03b402552944773f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:22 +0000
Subject: [PATCH 12/40] fix: an invalid validation filter raises
 InvalidInputError

---
 lanelet2_validation/src/Validation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lanelet2_validation/src/Validation.cpp b/lanelet2_validation/src/Validation.cpp
index 10fc358..9fb662d 100644
--- a/lanelet2_validation/src/Validation.cpp
+++ b/lanelet2_validation/src/Validation.cpp
@@ -21,7 +21,11 @@ Regexes parseFilterString(const std::string& str) {
     if (substr.empty()) {
       continue;
     }
-    regexes.emplace_back(substr, std::regex::basic | std::regex::icase);
+    try {
+      regexes.emplace_back(substr, std::regex::basic | std::regex::icase);
+    } catch (const std::regex_error& e) {
+      throw InvalidInputError("Invalid regular expression '" + substr + "' in filter string: " + e.what());
+    }
   }
   return regexes;
 }
-- 
2.43.0


From bdc6159eb98b32d7c116182b94d5906b584496e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 13/40] fix: report failures while preparing the validation as
 issues

validateMap() reports a map that can not be loaded and a routing graph that can not be built as an issue of the
'general' check, but a participant without traffic rules or an invalid origin escaped as an exception, so that the
issues found so far were lost.
---
 lanelet2_validation/src/Validation.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lanelet2_validation/src/Validation.cpp b/lanelet2_validation/src/Validation.cpp
index 9fb662d..72ecbe1 100644
--- a/lanelet2_validation/src/Validation.cpp
+++ b/lanelet2_validation/src/Validation.cpp
@@ -48,6 +48,20 @@ std::vector<DetectedIssues> runValidators(const ValidatorsWithName<ValidatorT>&
   return issues;
 }
 
+std::vector<traffic_rules::TrafficRulesUPtr> createTrafficRules(std::vector<DetectedIssues>& issues,
+                                                                const ValidationConfig& config) {
+  std::vector<traffic_rules::TrafficRulesUPtr> rules;
+  for (const auto& participant : config.participants) {
+    try {
+      rules.push_back(traffic_rules::TrafficRulesFactory::create(config.location, participant));
+    } catch (LaneletError& err) {
+      issues.emplace_back("general", Issues{Issue(Severity::Error, "Failed to create traffic rules for " + participant +
+                                                                       ": " + err.what())});
+    }
+  }
+  return rules;
+}
+
 void runMapValidators(std::vector<DetectedIssues>& issues, const Regexes& regexes, const LaneletMap& map) {
   auto validators = ValidatorFactory::instance().createMapValidators(regexes);
   append(issues, runValidators(validators, [&map](auto& validator) { return validator(map); }));
@@ -127,10 +141,7 @@ std::vector<DetectedIssues> validateMap(LaneletMap& map, const ValidationConfig&
 
   runMapValidators(issues, regexes, map);
 
-  auto trafficRules = utils::transform(config.participants, [&config](auto& participant) {
-    return traffic_rules::TrafficRulesFactory::create(config.location, participant);
-  });
-
+  auto trafficRules = createTrafficRules(issues, config);
   runRuleValidators(issues, regexes, map, trafficRules);
   runRoutingGraphValidators(issues, regexes, map, trafficRules);
   return issues;
@@ -139,10 +150,10 @@ std::vector<DetectedIssues> validateMap(LaneletMap& map, const ValidationConfig&
 std::vector<DetectedIssues> validateMap(const std::string& mapFilename, const ValidationConfig& config) {
   using namespace std::string_literals;
   auto checks = parseFilterString(config.checksFilter);
-  auto projector = lanelet::projection::UtmProjector(Origin{config.origin});
   std::vector<DetectedIssues> issues;
   LaneletMapPtr map;
   try {
+    auto projector = lanelet::projection::UtmProjector(Origin{config.origin});
     Strings errors;
     map = lanelet::load(mapFilename, projector, &errors);
     if (!errors.empty()) {
-- 
2.43.0


From b70c878047f532aa0593637d7c1aac6c61220acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 14/40] fix: validation: accept the documented lanelet subtype
 exit

---
 lanelet2_validation/src/validators/CheckTags.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lanelet2_validation/src/validators/CheckTags.cpp b/lanelet2_validation/src/validators/CheckTags.cpp
index c3ff409..1163332 100644
--- a/lanelet2_validation/src/validators/CheckTags.cpp
+++ b/lanelet2_validation/src/validators/CheckTags.cpp
@@ -100,8 +100,8 @@ const ValueMap& knownLaneletValues() {
   const static ValueMap Tags{
       {Attr::Type, {Value::Lanelet}},
       {Attr::Subtype,
-       {Value::BicycleLane, Value::BusLane, Value::Crosswalk, Value::EmergencyLane, Value::Highway, Value::PlayStreet,
-        Value::Rail, Value::Road, Value::SharedWalkway, Value::Stairs, Value::Walkway}},
+       {Value::BicycleLane, Value::BusLane, Value::Crosswalk, Value::EmergencyLane, Value::Exit, Value::Highway,
+        Value::PlayStreet, Value::Rail, Value::Road, Value::SharedWalkway, Value::Stairs, Value::Walkway}},
       {Attr::Location, {Value::Nonurban, Value::Private, Value::Urban}}};
   return Tags;
 }
-- 
2.43.0


From 070bbb641095de3fe6d8894bca14e6d282973882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 15/40] fix: validation: validator headers can be included
 repeatedly

---
 .../include/lanelet2_validation/validators/mapping/BoolTags.h    | 1 +
 .../lanelet2_validation/validators/mapping/CurvatureTooBig.h     | 1 +
 .../lanelet2_validation/validators/mapping/MandatoryTags.h       | 1 +
 .../lanelet2_validation/validators/mapping/PointsTooClose.h      | 1 +
 .../lanelet2_validation/validators/mapping/UnknownTagValue.h     | 1 +
 .../include/lanelet2_validation/validators/mapping/UnknownTags.h | 1 +
 .../lanelet2_validation/validators/routing/RoutingGraphIsValid.h | 1 +
 7 files changed, 7 insertions(+)

diff --git a/lanelet2_validation/include/lanelet2_validation/validators/mapping/BoolTags.h b/lanelet2_validation/include/lanelet2_validation/validators/mapping/BoolTags.h
index 9142c33..e65625f 100644
--- a/lanelet2_validation/include/lanelet2_validation/validators/mapping/BoolTags.h
+++ b/lanelet2_validation/include/lanelet2_validation/validators/mapping/BoolTags.h
@@ -1,3 +1,4 @@
+#pragma once
 #include <lanelet2_core/LaneletMap.h>
 
 #include "lanelet2_validation/BasicValidator.h"
diff --git a/lanelet2_validation/include/lanelet2_validation/validators/mapping/CurvatureTooBig.h b/lanelet2_validation/include/lanelet2_validation/validators/mapping/CurvatureTooBig.h
index f04d1e4..cdd3f01 100644
--- a/lanelet2_validation/include/lanelet2_validation/validators/mapping/CurvatureTooBig.h
+++ b/lanelet2_validation/include/lanelet2_validation/validators/mapping/CurvatureTooBig.h
@@ -1,3 +1,4 @@
+#pragma once
 #include <lanelet2_core/LaneletMap.h>
 
 #include "lanelet2_validation/BasicValidator.h"
diff --git a/lanelet2_validation/include/lanelet2_validation/validators/mapping/MandatoryTags.h b/lanelet2_validation/include/lanelet2_validation/validators/mapping/MandatoryTags.h
index 3fdc6ed..1308450 100644
--- a/lanelet2_validation/include/lanelet2_validation/validators/mapping/MandatoryTags.h
+++ b/lanelet2_validation/include/lanelet2_validation/validators/mapping/MandatoryTags.h
@@ -1,3 +1,4 @@
+#pragma once
 #include <lanelet2_core/LaneletMap.h>
 
 #include "lanelet2_validation/BasicValidator.h"
diff --git a/lanelet2_validation/include/lanelet2_validation/validators/mapping/PointsTooClose.h b/lanelet2_validation/include/lanelet2_validation/validators/mapping/PointsTooClose.h
index 0d4fb45..103a05e 100644
--- a/lanelet2_validation/include/lanelet2_validation/validators/mapping/PointsTooClose.h
+++ b/lanelet2_validation/include/lanelet2_validation/validators/mapping/PointsTooClose.h
@@ -1,3 +1,4 @@
+#pragma once
 #include <lanelet2_core/LaneletMap.h>
 
 #include "lanelet2_validation/BasicValidator.h"
diff --git a/lanelet2_validation/include/lanelet2_validation/validators/mapping/UnknownTagValue.h b/lanelet2_validation/include/lanelet2_validation/validators/mapping/UnknownTagValue.h
index 2ac772d..d5461e0 100644
--- a/lanelet2_validation/include/lanelet2_validation/validators/mapping/UnknownTagValue.h
+++ b/lanelet2_validation/include/lanelet2_validation/validators/mapping/UnknownTagValue.h
@@ -1,3 +1,4 @@
+#pragma once
 #include <lanelet2_core/LaneletMap.h>
 
 #include "lanelet2_validation/BasicValidator.h"
diff --git a/lanelet2_validation/include/lanelet2_validation/validators/mapping/UnknownTags.h b/lanelet2_validation/include/lanelet2_validation/validators/mapping/UnknownTags.h
index 69a0228..af4e05c 100644
--- a/lanelet2_validation/include/lanelet2_validation/validators/mapping/UnknownTags.h
+++ b/lanelet2_validation/include/lanelet2_validation/validators/mapping/UnknownTags.h
@@ -1,3 +1,4 @@
+#pragma once
 #include <lanelet2_core/LaneletMap.h>
 
 #include "lanelet2_validation/BasicValidator.h"
diff --git a/lanelet2_validation/include/lanelet2_validation/validators/routing/RoutingGraphIsValid.h b/lanelet2_validation/include/lanelet2_validation/validators/routing/RoutingGraphIsValid.h
index 725fc94..b4dcaaa 100644
--- a/lanelet2_validation/include/lanelet2_validation/validators/routing/RoutingGraphIsValid.h
+++ b/lanelet2_validation/include/lanelet2_validation/validators/routing/RoutingGraphIsValid.h
@@ -1,3 +1,4 @@
+#pragma once
 #include "lanelet2_validation/BasicValidator.h"
 
 namespace lanelet {
-- 
2.43.0


From 60390c3ca0f58b2417dd8e861559a2c276ed3078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 16/40] fix: all way stop: find the stop line of a lanelet if
 another lanelet no longer exists

---
 lanelet2_core/src/BasicRegulatoryElements.cpp | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/lanelet2_core/src/BasicRegulatoryElements.cpp b/lanelet2_core/src/BasicRegulatoryElements.cpp
index d27909e..b7a98cd 100644
--- a/lanelet2_core/src/BasicRegulatoryElements.cpp
+++ b/lanelet2_core/src/BasicRegulatoryElements.cpp
@@ -71,6 +71,22 @@ LineStringsOrPolygons3d getLsOrPoly(const RuleParameterMap& paramsMap, RoleName
   return result;
 }
 
+//! finds the position of a lanelet in a role. Lanelets that no longer exist keep their position.
+Optional<size_t> findLaneletIndex(const RuleParameterMap& paramsMap, RoleName role, const ConstLanelet& llt) {
+  auto params = paramsMap.find(role);
+  if (params == paramsMap.end()) {
+    return {};
+  }
+  auto it = std::find_if(params->second.begin(), params->second.end(), [&llt](const RuleParameter& param) {
+    const auto* elem = boost::get<WeakLanelet>(&param);
+    return elem != nullptr && !elem->expired() && elem->lock() == llt;
+  });
+  if (it == params->second.end()) {
+    return {};
+  }
+  return size_t(std::distance(params->second.begin(), it));
+}
+
 ConstLineStringsOrPolygons3d getConstLsOrPoly(const RuleParameterMap& params, RoleName role) {
   return utils::transform(getLsOrPoly(params, role),
                           [](auto& lsOrPoly) { return static_cast<ConstLineStringOrPolygon3d>(lsOrPoly); });
@@ -376,28 +392,20 @@ LineStrings3d AllWayStop::stopLines() { return getParameters<LineString3d>(RoleN
 
 Optional<ConstLineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) const {
   auto sl = stopLines();
-  if (sl.empty()) {
-    return {};
-  }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
+  auto idx = findLaneletIndex(parameters(), RoleName::Yield, llt);
+  if (sl.empty() || !idx) {
     return {};
   }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return sl.at(*idx);
 }
 
 Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) {
   auto sl = stopLines();
-  if (sl.empty()) {
-    return {};
-  }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
+  auto idx = findLaneletIndex(parameters(), RoleName::Yield, llt);
+  if (sl.empty() || !idx) {
     return {};
   }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return sl.at(*idx);
 }
 
 ConstLineStringsOrPolygons3d AllWayStop::trafficSigns() const {
-- 
2.43.0


From f0c90e1edacb948946fd329256eb93409f009421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 17/40] fix: osm: relations with different members are not
 equal

---
 lanelet2_io/src/OsmFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 55df1bf..ea5cbb5 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -327,7 +327,7 @@ bool operator==(const Way& lhs, const Way& rhs) {
 bool operator==(const Relation& lhs, const Relation& rhs) {
   auto membersEqual = [&lhs, &rhs]() {
     for (auto itL = lhs.members.begin(), itR = rhs.members.begin(); itL != lhs.members.end(); ++itL, ++itR) {
-      if (itL->second->type() != itR->second->type() && itL->second->id != itR->second->id) {
+      if (itL->second->type() != itR->second->type() || itL->second->id != itR->second->id) {
         return false;
       }
     }
-- 
2.43.0


From 3bd1c212dfbecdfcca451426b3d4bebf2449f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 18/40] fix: line string: move assigning points to an inverted
 line string keeps their order

---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 5416d99..b82fda4 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -397,7 +397,7 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
   //! Move assign from a normal vector. Id and attributes stay unchanged.
   LineStringImpl& operator=(std::vector<Point3d>&& rhs) {
     if (inverted()) {
-      utils::invert(rhs);
+      std::reverse(rhs.begin(), rhs.end());
     }
     points() = std::move(rhs);
     return *this;
-- 
2.43.0


From 1376ba0887932867a44dfa5481108cb06eb339ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 19/40] fix: python: rule parameters that are areas or expired
 lanelets can be read

---
 lanelet2_python/python_api/core.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 36eab12..05939d0 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -195,12 +195,6 @@ struct ConstLaneletOrAreaToObject {
   }
 };
 
-struct ConstWeakLaneletToObject {
-  static PyObject* convert(const lanelet::ConstWeakLanelet& v) {
-    return incref(object(v.lock()).ptr());
-  }
-};
-
 template <class T>
 struct MapItem {
   using K = typename T::key_type;
@@ -668,6 +662,8 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
 
   WeakConverter<WeakLanelet>();
   WeakConverter<WeakArea>();
+  WeakConverter<ConstWeakLanelet>();
+  WeakConverter<ConstWeakArea>();
 
   // Register interable conversions.
   IterableConverter()
@@ -694,7 +690,6 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   to_python_converter<LineStringOrPolygon3d, LineStringOrPolygonToObject>();
   to_python_converter<ConstLineStringOrPolygon3d, ConstLineStringOrPolygonToObject>();
   to_python_converter<ConstLaneletOrArea, ConstLaneletOrAreaToObject>();
-  to_python_converter<ConstWeakLanelet, ConstWeakLaneletToObject>();
 
   implicitly_convertible<LineString3d, LineStringOrPolygon3d>();
   implicitly_convertible<Polygon3d, LineStringOrPolygon3d>();
-- 
2.43.0


From 9ee09a0d6a7ce4cdfea87084b1b757850ed9b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 20/40] fix: map: ids of elements a map is built from are not
 handed out again

---
 lanelet2_core/src/LaneletMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index ad53b2f..291ed80 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -330,6 +330,7 @@ PrimitiveLayer<T>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
@@ -338,6 +339,7 @@ PrimitiveLayer<Lanelet>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
-- 
2.43.0


From cf5c799deb49cdc66ee4113717cda2e48ff94849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 21/40] fix: map: an element whose id a layer already has does
 not enter only some of its indices

---
 lanelet2_core/src/LaneletMap.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 291ed80..41ccb14 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -383,38 +383,48 @@ typename PrimitiveLayer<T>::ConstPrimitiveT PrimitiveLayer<T>::get(Id id) const
 
 template <typename T>
 void PrimitiveLayer<T>::add(const PrimitiveLayer<T>::PrimitiveT& element) {
+  if (!elements_.insert({element.id(), element}).second) {
+    return;  // already there, the other indices must not get it twice
+  }
   for (const auto& elem : element) {
     tree_->usage.ownedLookup.insert(std::make_pair(elem, element));
   }
-  elements_.insert({element.id(), element});
   tree_->insert(element);
 }
 
 template <>
 void PrimitiveLayer<Area>::add(const Area& area) {
+  if (!elements_.insert({area.id(), area}).second) {
+    return;
+  }
   tree_->usage.add(area);
-  elements_.insert({area.id(), area});
   tree_->insert(area);
 }
 
 template <>
 void PrimitiveLayer<Lanelet>::add(const Lanelet& ll) {
+  if (!elements_.insert({ll.id(), ll}).second) {
+    return;
+  }
   tree_->usage.add(ll);
-  elements_.insert({ll.id(), ll});
   tree_->insert(ll);
 }
 
 template <>
 void PrimitiveLayer<Point3d>::add(const Point3d& p) {
+  if (!elements_.insert({p.id(), p}).second) {
+    return;
+  }
   tree_->usage.add(p);
-  elements_.insert({p.id(), p});
   tree_->insert(p);
 }
 
 template <>
 void PrimitiveLayer<RegulatoryElementPtr>::add(const PrimitiveLayer<RegulatoryElementPtr>::PrimitiveT& element) {
+  if (!elements_.insert({element->id(), element}).second) {
+    return;
+  }
   tree_->usage.add(element);
-  elements_.insert({element->id(), element});
   tree_->insert(element);
 }
 
-- 
2.43.0


From 500ae65483f7ffd14f5f23602f84db0b93d6fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 22/40] fix: place regulatory element members correctly after
 dropping one that is not in the map

---
 lanelet2_io/src/OsmHandlerWrite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerWrite.cpp b/lanelet2_io/src/OsmHandlerWrite.cpp
index a397ea4..2b3c02b 100644
--- a/lanelet2_io/src/OsmHandlerWrite.cpp
+++ b/lanelet2_io/src/OsmHandlerWrite.cpp
@@ -29,7 +29,8 @@ void removeAndFixPlaceholders(osm::Primitive** toRemove, osm::Roles& fromRoles,
   std::vector<std::pair<size_t, osm::Primitive**>> placeholderLocations;
   for (auto it = fromRoles.begin(); it != fromRoles.end(); ++it) {
     if (it->second == nullptr && remIt != it) {
-      placeholderLocations.emplace_back(std::distance(fromRoles.begin(), it), &it->second);
+      auto idx = std::distance(fromRoles.begin(), it);
+      placeholderLocations.emplace_back(it > remIt ? idx - 1 : idx, &it->second);
     }
   }
   fromRoles.erase(remIt);
-- 
2.43.0


From 91ce1a63c4d5a46635d0523c2dff19611d655c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 23/40] fix: report area borders that can not be closed

---
 lanelet2_io/src/OsmHandlerLoad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 4e1f6a6..1539ccc 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -372,6 +372,9 @@ class FromFileLoader {  // NOLINT
         rings.emplace_back(LineStrings3d());
       }
     }
+    if (!rings.back().empty()) {
+      parserError(id, "Could not complete boundary around linestring " + std::to_string(rings.back().back().id()));
+    }
     rings.pop_back();  // last ring will be empty or invalid
     return rings;
   }
-- 
2.43.0


From 23902b4e690e8d2773760da2701e1585f9a1d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 24/40] fix: report relation members of unknown type

---
 lanelet2_io/src/OsmFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index ea5cbb5..64fed0c 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -279,6 +279,8 @@ class OsmFileParser {
             // insert a placeholder and store a pointer to it for the second pass
             roles.emplace_back(role, nullptr);
             unresolvedRoles.push_back(UnresolvedRole{id, memberId, &roles.back().second});
+          } else {
+            reportParseError(id, "Relation has member " + std::to_string(memberId) + " of unknown type '" + type + "'");
           }
         } catch (std::out_of_range&) {
           reportParseError(id, "Relation has nonexistent member " + std::to_string(memberId));
-- 
2.43.0


From 77e212f2871576e8d210e906c8d4502b770c23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 25/40] fix: report binary maps that could not be written
 completely

---
 lanelet2_io/src/BinHandler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_io/src/BinHandler.cpp b/lanelet2_io/src/BinHandler.cpp
index 204ce44..4c315d5 100644
--- a/lanelet2_io/src/BinHandler.cpp
+++ b/lanelet2_io/src/BinHandler.cpp
@@ -31,6 +31,9 @@ void BinWriter::write(const std::string& filename, const LaneletMap& laneletMap,
   } catch (const boost::archive::archive_exception& e) {
     throw WriteError("Failed to write archive " + filename + ": " + e.what());
   }
+  if (!fs.flush()) {
+    throw WriteError("Failed to write archive " + filename);
+  }
 }
 
 std::unique_ptr<LaneletMap> BinParser::parse(const std::string& filename, ErrorMessages& /*errors*/) const {
-- 
2.43.0


From 563e32d650c2a5cb5ebec0f338bb8bdb66b247d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 26/40] fix: pass locale warnings of the osm reader and writer
 on to the caller

---
 lanelet2_io/src/OsmFile.cpp         | 2 +-
 lanelet2_io/src/OsmHandlerWrite.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 64fed0c..cfe05e9 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -196,7 +196,7 @@ class OsmFileParser {
     file.ways = osmParser.readWays(osmNode, file.nodes);
     file.relations = osmParser.readRelations(osmNode, file.nodes, file.ways);
     if (errors != nullptr) {
-      *errors = osmParser.errors_;
+      errors->insert(errors->end(), osmParser.errors_.begin(), osmParser.errors_.end());
     }
     return file;
   }
diff --git a/lanelet2_io/src/OsmHandlerWrite.cpp b/lanelet2_io/src/OsmHandlerWrite.cpp
index 2b3c02b..e1c6187 100644
--- a/lanelet2_io/src/OsmHandlerWrite.cpp
+++ b/lanelet2_io/src/OsmHandlerWrite.cpp
@@ -298,8 +298,10 @@ void testAndPrintLocaleWarning(ErrorMessages& errors) {
 }  // namespace
 
 void OsmWriter::write(const std::string& filename, const LaneletMap& laneletMap, ErrorMessages& errors, const io::Configuration& params) const {
-  testAndPrintLocaleWarning(errors);
+  ErrorMessages localeWarnings;
+  testAndPrintLocaleWarning(localeWarnings);
   auto file = toOsmFile(laneletMap, errors, params);
+  errors.insert(errors.begin(), localeWarnings.begin(), localeWarnings.end());
   auto doc = osm::write(*file, params);
   auto res = doc->save_file(filename.c_str(), "  ");
   if (!res) {
-- 
2.43.0


From fa246eb8c3aebe79cc230605f1b3395095fefe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 27/40] fix: Attribute no longer reads a cached value another
 thread may have freed

load() handed out a raw pointer into the shared cache after releasing its own
reference to it. A concurrent const access (asDouble(), asInt(), ...) replaces
the cache and frees the value that pointer refers to. Return a copy instead, and
take it from the atomically loaded pointer.
---
 lanelet2_core/src/Attribute.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index bac48c3..7a04caf 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -36,13 +36,15 @@ T store(std::shared_ptr<Attribute::Cache>& cache, T&& value) {
   return value;
 }
 
+// Returns a copy: another thread can replace the cached value at any time, so nothing must point into it.
 template <typename T>
-T* load(const std::shared_ptr<Attribute::Cache>& cache) {
+Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
   auto c = std::atomic_load_explicit(&cache, std::memory_order_acquire);
   if (!c) {
-    return nullptr;
+    return {};
   }
-  return boost::get<T>(&*cache);
+  auto* value = boost::get<T>(&*c);
+  return value != nullptr ? Optional<T>{*value} : Optional<T>{};
 }
 }  // namespace
 
@@ -60,8 +62,8 @@ Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQu
 
 Optional<bool> Attribute::asBool() const {
   // try load from cache
-  auto* val = load<bool>(cache_);
-  if (val != nullptr) {
+  auto val = load<bool>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -80,8 +82,8 @@ Optional<bool> Attribute::asBool() const {
 
 Optional<double> Attribute::asDouble() const {
   // try load from cache
-  auto* val = load<double>(cache_);
-  if (val != nullptr) {
+  auto val = load<double>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -94,8 +96,8 @@ Optional<double> Attribute::asDouble() const {
 
 Optional<Id> Attribute::asId() const {
   // try load from cache
-  auto* val = load<Id>(cache_);
-  if (val != nullptr) {
+  auto val = load<Id>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -108,8 +110,8 @@ Optional<Id> Attribute::asId() const {
 
 Optional<int> Attribute::asInt() const {
   // try load from cache
-  auto* val = load<int>(cache_);
-  if (val != nullptr) {
+  auto val = load<int>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -122,8 +124,8 @@ Optional<int> Attribute::asInt() const {
 
 Optional<Velocity> Attribute::asVelocity() const {
   // try load from cache
-  auto* val = load<Velocity>(cache_);
-  if (val != nullptr) {
+  auto val = load<Velocity>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
-- 
2.43.0


From 7736e23dba0f70a0c00a70797cdb1df3c9a5a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:04 +0000
Subject: [PATCH 28/40] fix: copying an Attribute reads the cache of the copied
 one atomically

The implicitly defined copy operations read the cached value without
synchronisation, while a concurrent const access to the copied attribute may
replace it. Copying is such a const access itself and has to be safe.
---
 lanelet2_core/include/lanelet2_core/Attribute.h |  5 +++++
 lanelet2_core/src/Attribute.cpp                 | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/lanelet2_core/include/lanelet2_core/Attribute.h b/lanelet2_core/include/lanelet2_core/Attribute.h
index 6319eda..c3db6c8 100644
--- a/lanelet2_core/include/lanelet2_core/Attribute.h
+++ b/lanelet2_core/include/lanelet2_core/Attribute.h
@@ -45,6 +45,11 @@ class Attribute {
   Attribute(int value);                                         // NOLINT
   Attribute(double value);                                      // NOLINT
   Attribute(const Velocity& value);                             // NOLINT
+  Attribute(const Attribute& rhs);
+  Attribute(Attribute&& rhs) noexcept = default;
+  Attribute& operator=(const Attribute& rhs);
+  Attribute& operator=(Attribute&& rhs) noexcept = default;
+  ~Attribute() = default;
 
   /**
    * @brief interpret this attribute as bool value
diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index 7a04caf..fd18f7b 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -60,6 +60,17 @@ Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQu
   store(cache_, value);
 }
 
+// rhs can be read (and thereby have its cache updated) by another thread while it is copied
+Attribute::Attribute(const Attribute& rhs)
+    : value_{rhs.value_}, cache_{std::atomic_load_explicit(&rhs.cache_, std::memory_order_acquire)} {}
+
+Attribute& Attribute::operator=(const Attribute& rhs) {
+  auto cache = std::atomic_load_explicit(&rhs.cache_, std::memory_order_acquire);
+  value_ = rhs.value_;
+  std::atomic_store_explicit(&cache_, cache, std::memory_order_release);
+  return *this;
+}
+
 Optional<bool> Attribute::asBool() const {
   // try load from cache
   auto val = load<bool>(cache_);
-- 
2.43.0


From 860e7c9e2379c1bdf0b586ebc3759e83f2f3ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:49 +0000
Subject: [PATCH 29/40] fix: mutable points, line strings and polygons can not
 be constructed from const ones

The inherited constructors of the const classes silently gave write access to the
data of a ConstPoint2d, ConstLineString2d/3d or ConstPolygon2d/3d.
---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 4 ++++
 lanelet2_core/include/lanelet2_core/primitives/Point.h      | 1 +
 lanelet2_core/include/lanelet2_core/primitives/Polygon.h    | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index b82fda4..10a4c4b 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -379,6 +379,10 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
   template <typename OtherT>
   explicit LineStringImpl(const LineStringImpl<OtherT>& other) : Base(other) {}
 
+  //! Construction from const LineStrings would give mutable access to their data
+  template <typename OtherT>
+  explicit LineStringImpl(const ConstLineStringImpl<OtherT>& other) = delete;
+
   explicit LineStringImpl(const std::shared_ptr<const LineStringData>&, bool inverted) = delete;
 
   //! Construct from linestring data
diff --git a/lanelet2_core/include/lanelet2_core/primitives/Point.h b/lanelet2_core/include/lanelet2_core/primitives/Point.h
index f519920..d38c2df 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/Point.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/Point.h
@@ -240,6 +240,7 @@ class Point2d : public Primitive<ConstPoint3d> {
   using Primitive::x;
   using Primitive::y;
   Point2d() = default;
+  explicit Point2d(const ConstPoint2d& other) = delete;  //!< would give mutable access to the data of a const point
   operator const BasicPoint3d&() const = delete;
 
   //! Cast to a basic 2d point
diff --git a/lanelet2_core/include/lanelet2_core/primitives/Polygon.h b/lanelet2_core/include/lanelet2_core/primitives/Polygon.h
index a458cb4..37b62d5 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/Polygon.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/Polygon.h
@@ -166,6 +166,7 @@ class Polygon3d : public LineStringImpl<ConstPolygon3d> {
 
   //! Conversion from LineString3d. Does not ensure validity of the polygon!
   explicit Polygon3d(const LineString3d& other) : LineStringImpl(other) {}
+  explicit Polygon3d(const ConstLineString3d& other) = delete;
   explicit operator LineString3d() const { return LineString3d(data(), inverted()); }
 
   friend class Polygon2d;
@@ -197,6 +198,7 @@ class Polygon2d : public LineStringImpl<ConstPolygon2d> {
 
   //! Conversion from LineString2d. Does not ensure validity of the polygon!
   explicit Polygon2d(const LineString2d& other) : LineStringImpl(other) {}
+  explicit Polygon2d(const ConstLineString2d& other) = delete;
   explicit operator LineString2d() const { return LineString2d(data(), inverted()); }
 
   /**
-- 
2.43.0


From 51a49baa738418bbc50e32d465ba171363acbdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 30/40] fix: name the altitude argument of the Python Origin
 constructor alt

---
 lanelet2_python/python_api/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/io.cpp b/lanelet2_python/python_api/io.cpp
index 4651d85..71518de 100644
--- a/lanelet2_python/python_api/io.cpp
+++ b/lanelet2_python/python_api/io.cpp
@@ -70,7 +70,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
                            +[](double lat, double lon, double alt) {
                              return std::make_shared<Origin>(GPSPoint{lat, lon, alt});
                            },
-                           py::default_call_policies(), (py::arg("lat") = 0., py::arg("lon") = 0., py::arg("lon") = 0)))
+                           py::default_call_policies(), (py::arg("lat") = 0., py::arg("lon") = 0., py::arg("alt") = 0.)))
       .def_readwrite("position", &Origin::position);
 
   py::def("load", loadProjectorWrapper, (py::arg("filename"), py::arg("projector") = DefaultProjector()));
-- 
2.43.0


From 0884f385c26f56e535db1650c6cb35c7ea223a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 31/40] fix: name both arguments of the Python loadRobust

---
 lanelet2_python/python_api/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/io.cpp b/lanelet2_python/python_api/io.cpp
index 71518de..d9c0a40 100644
--- a/lanelet2_python/python_api/io.cpp
+++ b/lanelet2_python/python_api/io.cpp
@@ -75,7 +75,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
 
   py::def("load", loadProjectorWrapper, (py::arg("filename"), py::arg("projector") = DefaultProjector()));
   py::def("load", loadWrapper, (py::arg("filename"), py::arg("origin")));
-  py::def("loadRobust", loadWithErrorWrapper, py::arg("filename"),
+  py::def("loadRobust", loadWithErrorWrapper, (py::arg("filename"), py::arg("projector")),
       "Loads a map robustly. Parser errors are returned as second member of "
       "the tuple. If there are errors, the map will be incomplete somewhere.");
 
-- 
2.43.0


From d182aa39764d8d35727463b888989b98d7a5d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 32/40] fix: give possiblePaths and possiblePathsTowards one
 keyword per argument in Python

---
 lanelet2_python/python_api/routing.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 0e2a007..7c0dc59 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -295,14 +295,12 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("reachableSetTowards", &RoutingGraph::reachableSetTowards, "set of lanelets that can reach a given lanelet",
            (arg("lanelet"), arg("maxRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = true))
       .def("possiblePaths", possPCost, "possible paths from a given start lanelet that are 'minRoutingCost'-long",
-           (arg("lanelet"), arg("minRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = false,
-            arg("routingCostId") = 0))
+           (arg("lanelet"), arg("minRoutingCost"), arg("routingCostId") = 0, arg("allowLaneChanges") = false))
       .def("possiblePaths", possPParam, "possible paths from a given start lanelet as configured in parameters",
            (arg("lanelet"), arg("parameters")))
       .def("possiblePathsTowards", possPToCost,
            "possible paths to a given start lanelet that are 'minRoutingCost'-long",
-           (arg("lanelet"), arg("minRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = false,
-            arg("routingCostId") = 0))
+           (arg("lanelet"), arg("minRoutingCost"), arg("routingCostId") = 0, arg("allowLaneChanges") = false))
       .def("possiblePathsTowards", possPToParam, "possible paths to a given lanelet as configured in parameters",
            (arg("lanelet"), arg("parameters")))
       .def("possiblePathsMinLen", possPLen, "possible routes from a given start lanelet that are 'minLanelets'-long",
-- 
2.43.0


From c46fd6f17065cee0d9bb01df6740cb567062e740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 33/40] fix: expose RelationType.Area to Python

---
 lanelet2_python/python_api/routing.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 7c0dc59..1e2b4d2 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -368,6 +368,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .value("Conflicting", RelationType::Conflicting)
       .value("AdjacentLeft", RelationType::AdjacentLeft)
       .value("AdjacentRight", RelationType::AdjacentRight)
+      .value("Area", RelationType::Area)
       .export_values();
 
   class_<Route, boost::noncopyable, std::shared_ptr<Route>>("Route",
-- 
2.43.0


From a937561dd255892498633b551ffd94850364f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 34/40] fix: make the absoluteHull of a matching object
 assignable from Python

---
 lanelet2_python/python_api/matching.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/matching.cpp b/lanelet2_python/python_api/matching.cpp
index 1fab969..3b72781 100644
--- a/lanelet2_python/python_api/matching.cpp
+++ b/lanelet2_python/python_api/matching.cpp
@@ -134,7 +134,8 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
                            (arg("objectId") = lanelet::InvalId, arg("pose") = Pose2d::Identity(),
                             arg("absoluteHull") = boost::python::list())))
       .add_property(
-          "absoluteHull", +[](Object2d& self) { return self.absoluteHull; }, &hullFromList,
+          "absoluteHull", +[](Object2d& self) { return self.absoluteHull; },
+          +[](Object2d& self, const boost::python::list& hull) { self.absoluteHull = hullFromList(hull); },
           "hull in absolute coordinates (not relative to the object's pose)")
       .def_readwrite("pose", &Object2d::pose)
       .def_readwrite("objectId", &Object2d::objectId);
-- 
2.43.0


From 7032f7fa56bcce0c75d6a62320cced3553dcb2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 35/40] fix: construct a SpeedLimitInformation from a speed in
 m/s in Python

---
 lanelet2_python/python_api/traffic_rules.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lanelet2_python/python_api/traffic_rules.cpp b/lanelet2_python/python_api/traffic_rules.cpp
index 936f74a..c0c47e0 100644
--- a/lanelet2_python/python_api/traffic_rules.cpp
+++ b/lanelet2_python/python_api/traffic_rules.cpp
@@ -9,8 +9,9 @@ using namespace boost::python;
 using namespace lanelet;
 using namespace lanelet::traffic_rules;
 
-SpeedLimitInformation makeSpeedLimit(double speedLimitKph, bool isMandatory) {
-  return SpeedLimitInformation{Velocity(speedLimitKph * units::KmH()), isMandatory};
+std::shared_ptr<SpeedLimitInformation> makeSpeedLimit(double speedLimitMPS, bool isMandatory) {
+  return std::make_shared<SpeedLimitInformation>(
+      SpeedLimitInformation{Velocity(speedLimitMPS * units::MPS()), isMandatory});
 }
 
 double getVelocity(const SpeedLimitInformation& self) { return units::KmHQuantity(self.speedLimit).value(); }
@@ -54,7 +55,9 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   auto core = import("lanelet2.core");
 
   class_<SpeedLimitInformation>("SpeedLimitInformation", "Current speed limit as returned by a traffic rule object")
-      .def("__init__", makeSpeedLimit, (arg("speedLimitMPS"), arg("isMandatory") = true),
+      .def("__init__",
+           make_constructor(makeSpeedLimit, default_call_policies(),
+                            (arg("speedLimitMPS"), arg("isMandatory") = true)),
            "Initialize from speed limit [m/s] and bool if speedlimit is "
            "mandatory")
       .add_property("speedLimit", getVelocity, setVelocity, "velocity in km/h")
-- 
2.43.0


From 45faca10efaea90952005a3fbd32c3d48b2e3413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 36/40] fix: let Python assign the coordinates of a Vector2d

---
 lanelet2_python/python_api/core.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 05939d0..1e8b50d 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -508,8 +508,8 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def(self_ns::str(self_ns::self));
 
   class_<Eigen::Vector2d>("Vector2d", "A simple point", no_init)
-      .add_property("x", getXWrapper<BasicPoint2d>, setXWrapper<BasicPoint2d>, "x coordinate")
-      .add_property("y", getYWrapper<BasicPoint2d>, setYWrapper<BasicPoint2d>, "y coordinate")
+      .add_property("x", getXWrapper<Eigen::Vector2d>, setXWrapper<Eigen::Vector2d>, "x coordinate")
+      .add_property("y", getYWrapper<Eigen::Vector2d>, setYWrapper<Eigen::Vector2d>, "y coordinate")
       .def("__add__", addWrapper<BasicPoint2d>)
       .def("__sub__", subWrapper<BasicPoint2d>)
       .def("__mul__", mulWrapper<BasicPoint2d, double>)
-- 
2.43.0


From 78fdf3937ec9da434134786c7a40602e04f88f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 37/40] fix: build routing graphs for maps that contain
 lanelets with an empty bound

---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 8d2c606..1b3b141 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -107,8 +107,10 @@ ConstLanelets RoutingGraphBuilder::getPassableLanelets(const LaneletLayer& lanel
                                                        const traffic_rules::TrafficRules& trafficRules) {
   ConstLanelets llts;
   llts.reserve(lanelets.size());
-  std::copy_if(lanelets.begin(), lanelets.end(), std::back_inserter(llts),
-               [&trafficRules](const ConstLanelet& llt) { return trafficRules.canPass(llt); });
+  // lanelets with an empty bound (e.g. from incomplete maps) are not connected to anything
+  std::copy_if(lanelets.begin(), lanelets.end(), std::back_inserter(llts), [&trafficRules](const ConstLanelet& llt) {
+    return !llt.leftBound().empty() && !llt.rightBound().empty() && trafficRules.canPass(llt);
+  });
   return llts;
 }
 
-- 
2.43.0


From 9d7955d599d458b99a1ef2681f0bd77ab12872f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 38/40] fix: lanelets with an empty bound share no line with an
 area

---
 lanelet2_core/include/lanelet2_core/geometry/impl/Area.h | 9 +++++++++
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp       | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/Area.h b/lanelet2_core/include/lanelet2_core/geometry/impl/Area.h
index 0edece9..fb2015b 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/Area.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/Area.h
@@ -66,6 +66,9 @@ inline bool leftOf(const ConstLanelet& right, const ConstArea& left) {
 inline bool rightOf(const ConstLanelet& left, const ConstArea& area) { return leftOf(left.invert(), area); }
 
 inline bool follows(const ConstLanelet& prev, const ConstArea& next) {
+  if (prev.leftBound().empty() || prev.rightBound().empty()) {
+    return false;
+  }
   auto outer = next.outerBound();
   return utils::anyOf(outer,
                       [p1 = prev.leftBound().back(), p2 = prev.rightBound().back()](const ConstLineString3d& ls) {
@@ -90,6 +93,9 @@ inline bool adjacent(const ConstArea& area1, const ConstArea& area2) {
 }
 
 inline Optional<ConstLineString3d> determineCommonLinePreceding(const ConstLanelet& ll, const ConstArea& ar) {
+  if (ll.leftBound().empty() || ll.rightBound().empty()) {
+    return {};
+  }
   return utils::findIf(ar.outerBound(), [p1 = ll.leftBound().back(), p2 = ll.rightBound().back()](auto& boundLs) {
     return (boundLs.back() == p1 && boundLs.front() == p2);
   });
@@ -101,6 +107,9 @@ inline Optional<ConstLineString3d> determineCommonLineFollowing(const ConstArea&
 
 inline Optional<ConstLineString3d> determineCommonLineFollowingOrPreceding(const ConstArea& ar,
                                                                            const ConstLanelet& ll) {
+  if (ll.leftBound().empty() || ll.rightBound().empty()) {
+    return {};
+  }
   return utils::findIf(ar.outerBound(), [p1 = ll.leftBound().front(), p2 = ll.rightBound().front(),
                                          p3 = ll.leftBound().back(), p4 = ll.rightBound().back()](auto& boundLs) {
     return ((boundLs.back() == p2 && boundLs.front() == p1) || (boundLs.back() == p3 && boundLs.front() == p4));
diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 696dcca..3cac749 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -189,6 +189,9 @@ bool GenericTrafficRules::canPass(const ConstLanelet& from, const ConstLanelet&
 }
 
 Optional<ConstLineString3d> determineCommonLine(const ConstLanelet& ll, const ConstArea& ar) {
+  if (ll.leftBound().empty() || ll.rightBound().empty()) {
+    return {};
+  }
   return utils::findIf(ar.outerBound(), [p1 = ll.leftBound().back(), p2 = ll.rightBound().back()](auto& boundLs) {
     return (boundLs.back() == p1 && boundLs.front() == p2);
   });
-- 
2.43.0


From dfa23f3d766e51d13ac263d1426d8f1c3b87879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:19 +0000
Subject: [PATCH 39/40] fix: an enclosing polygon of a path with an incomplete
 lanelet is an error

---
 lanelet2_routing/src/LaneletPath.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lanelet2_routing/src/LaneletPath.cpp b/lanelet2_routing/src/LaneletPath.cpp
index 8df5355..e767090 100644
--- a/lanelet2_routing/src/LaneletPath.cpp
+++ b/lanelet2_routing/src/LaneletPath.cpp
@@ -3,6 +3,8 @@
 #include <lanelet2_core/geometry/Area.h>
 #include <lanelet2_core/geometry/Lanelet.h>
 
+#include <algorithm>
+
 namespace lanelet {
 namespace routing {
 
@@ -83,6 +85,11 @@ struct Head {
   Optional<ConstLaneletOrArea> next;
 };
 
+bool hasEmptyBound(const ConstLaneletOrArea& laneletOrArea) {
+  auto ll = laneletOrArea.lanelet();
+  return ll && (ll->leftBound().empty() || ll->rightBound().empty());
+}
+
 enum class LaneletAdjacency { Following, Preceding, Left, Right };
 struct LaneletPairAdjacency {
   LaneletAdjacency ll;
@@ -342,6 +349,9 @@ BasicPolygon3d getEnclosingPolygon3d(const LaneletOrAreaPath& path) {
   if (path.size() == 1ul) {
     return path.front().boundingPolygon().basicPolygon();
   }
+  if (std::any_of(path.begin(), path.end(), hasEmptyBound)) {
+    throw InvalidInputError("Lanelets with an empty bound can not be enclosed");
+  }
   auto boundsResult = appendTail(Head{path[0], path[1]});
   for (size_t curIdx = 1; curIdx < path.size(); ++curIdx) {
     appendBounds(Head{path[curIdx], (curIdx + 1 < path.size()) ? path[curIdx + 1] : Optional<ConstLaneletOrArea>()},
-- 
2.43.0


From 951d56f285e2d72e85bf91339fd0e7dc3203e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:29 +0000
Subject: [PATCH 40/40] fix: findNearest for no elements returns nothing

---
 lanelet2_core/src/LaneletMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 41ccb14..4b788a2 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -984,7 +984,7 @@ auto findNearestImpl(LayerT&& map, const BasicPoint2d& pt, unsigned count) {
   NSmallestElements<RetT> closest(count);
   auto searchFunction = [&closest, &pt](auto& box, const RetT& prim) {
     auto dBox = distance(box, pt);
-    if (closest.full() && dBox > closest.values().back().first) {
+    if (closest.full() && (closest.empty() || dBox > closest.values().back().first)) {
       return true;
     }
     closest.insert(distance2d(prim, pt), prim);
-- 
2.43.0

