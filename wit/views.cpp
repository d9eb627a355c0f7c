// uses of every operation of the views with an inverted flag (property C08); analysed, never run
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_core/primitives/LineString.h>
#include <lanelet2_core/primitives/Polygon.h>
using namespace lanelet;
template <typename T>
void wit_read(const T& witL) {
  (void)witL.begin();
  (void)witL.end();
  (void)witL.front();
  (void)witL.back();
  (void)witL[0];
  (void)witL.size();
  (void)witL.empty();
  (void)witL.segment(0);
  (void)witL.numSegments();
}
template <typename T>
void wit_basic(const T& witL) {
  (void)witL.basicBegin();
  (void)witL.basicEnd();
}
template <typename T, typename B>
void wit_mutate(T& witL, const typename T::PointType& witP, std::vector<typename T::PointType> witPs, Points3d witP3, B*) {
  B& witB = witL;
  witB = witPs;
  (void)witL.insert(witL.begin(), witP);
  (void)witL.insert(witL.begin(), witPs.begin(), witPs.end());
  witL.push_back(witP);
  (void)witL.erase(witL.begin());
  witL.pop_back();
  witL.reserve(1);
  witL.resize(2);
  witL.clear();
  (void)witL.begin();
  (void)witL.end();
  (void)witL.front();
  (void)witL.back();
  (void)witL[0];
  (void)witL.segment(0);
}
void wit_views(LineString3d& witA, LineString2d& witB, Polygon3d& witC, Polygon2d& witD, const Point3d& witP, const Point2d& witQ) {
  wit_mutate(witA, witP, {}, {}, static_cast<LineStringImpl<ConstLineString3d>*>(nullptr));
  wit_mutate(witB, witQ, {}, {}, static_cast<LineStringImpl<ConstLineString2d>*>(nullptr));
  wit_mutate(witC, witP, {}, {}, static_cast<LineStringImpl<ConstPolygon3d>*>(nullptr));
  wit_mutate(witD, witQ, {}, {}, static_cast<LineStringImpl<ConstPolygon2d>*>(nullptr));
  LineStringImpl<ConstLineString2d>& witI = witB;
  witI.operator=(Points3d{witP});
}
void wit_views2(const ConstLineString3d& witA, const ConstLineString2d& witB, const ConstHybridLineString3d& witC,
                const ConstHybridLineString2d& witD, const CompoundLineString3d& witE, const CompoundLineString2d& witF,
                const CompoundHybridLineString3d& witG, const CompoundHybridLineString2d& witH, const CompoundPolygon3d& witI,
                const CompoundPolygon2d& witJ, const ConstPolygon3d& witK, const ConstPolygon2d& witM) {
  wit_read(witA), wit_read(witB), wit_read(witC), wit_read(witD), wit_read(witE), wit_read(witF), wit_read(witG), wit_read(witH);
  wit_read(witI), wit_read(witJ), wit_read(witK), wit_read(witM);
  wit_basic(witA), wit_basic(witB), wit_basic(witE), wit_basic(witF), wit_basic(witK), wit_basic(witM);
  (void)witE.lineStrings(), (void)witF.lineStrings(), (void)witI.lineStrings(), (void)witE.ids(), (void)witI.ids();
  (void)witA.invert(), (void)witB.invert(), (void)witC.invert(), (void)witD.invert(), (void)witE.invert(), (void)witF.invert();
  (void)witE.basicLineString(), (void)witF.basicLineString(), (void)witA.basicLineString(), (void)witB.basicLineString();
  ConstLineString2d witN(witA);
  ConstHybridLineString3d witO(witA);
  ConstHybridLineString2d witQ(witA);
  CompoundLineString2d witR(witE);
  CompoundHybridLineString3d witS(witE);
  (void)witN, (void)witO, (void)witQ, (void)witR, (void)witS;
}
