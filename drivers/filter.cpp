// Entry points for the boolean operation filters.
#include <stddef.h>
#include <cstdint>
#include <utility>
#include <vector>
#include "walnut/boolean_operation_filter.h"
#include "walnut/bsp_tree.h"
#include "walnut/bsp_visitor.h"
#define WV extern "C" __attribute__((used, noinline))
using namespace walnut;
namespace {
// an operand with an arbitrary answer
struct Any {
  Any(bool in, bool open) : r(in, open) {}
  std::pair<bool, bool> operator()(const std::vector<BSPContentInfo>&) { return r; }
  std::pair<bool, bool> r;
};
std::vector<BSPContentInfo> Infos(const long* p, int n) {
  std::vector<BSPContentInfo> v;
  for (int i = 0; i < n; ++i) { BSPContentInfo c; c.has_interior_polygons = p[3 * i]; c.has_border_polygons = p[3 * i + 1]; c.pwn = p[3 * i + 2]; v.push_back(c); }
  return v; }
std::vector<BSPContentId> Ids(const long* p, int n) { std::vector<BSPContentId> v; for (int i = 0; i < n; ++i) v.push_back(p[i]); return v; }
inline void Put(long* o, std::pair<bool, bool> r) { o[0] = r.first; o[1] = r.second; }
}
WV void wv_fone(const long* p, int n, long id, long* o) { PolygonFilter f(id); Put(o, f(Infos(p, n))); }
WV void wv_finv(const long* p, int n, long id, long* o) { InvertedPolygonFilter f(id); Put(o, f(Infos(p, n))); }
WV void wv_fodd(const long* p, int n, long id, long* o) { OddPolygonFilter f(id); Put(o, f(Infos(p, n))); }
WV void wv_fand(const long* a, long* o) { auto f = MakeIntersectionFilter(Any(a[0] != 0, a[1] != 0), Any(a[2] != 0, a[3] != 0)); Put(o, f(std::vector<BSPContentInfo>())); }
WV void wv_for(const long* a, long* o) { auto f = MakeUnionFilter(Any(a[0] != 0, a[1] != 0), Any(a[2] != 0, a[3] != 0)); Put(o, f(std::vector<BSPContentInfo>())); }
WV void wv_fsub(const long* a, long* o) { auto f = MakeSubtractionFilter(Any(a[0] != 0, a[1] != 0), Any(a[2] != 0, a[3] != 0)); Put(o, f(std::vector<BSPContentInfo>())); }
WV void wv_fxor(const long* a, long* o) { auto f = MakeXORFilter(Any(a[0] != 0, a[1] != 0), Any(a[2] != 0, a[3] != 0)); Put(o, f(std::vector<BSPContentInfo>())); }
WV void wv_funion(const long* p, int n, const long* ids, int m, int set, long* o) {
  UnionIdsFilter f; if (set) f.SetIds(Ids(ids, m)); else f = UnionIdsFilter(Ids(ids, m));
  BooleanOperationFilter& g = f; Put(o, g(Infos(p, n))); }
WV void wv_finter(const long* p, int n, const long* ids, int m, int set, long* o) {
  IntersectIdsFilter f; if (set) f.SetIds(Ids(ids, m)); else f = IntersectIdsFilter(Ids(ids, m));
  BooleanOperationFilter& g = f; Put(o, g(Infos(p, n))); }
WV void wv_fdiff(const long* p, int n, const long* ids, int m, int set, long* o) {
  SubtractIdsFilter f; if (set) f.SetIds(Ids(ids, m)); else f = SubtractIdsFilter(Ids(ids, m));
  BooleanOperationFilter& g = f; Put(o, g(Infos(p, n))); }
// filters used by the tree visitors
WV void wv_fvisit(const long* p, int n, long id, long* o) {
  CollectorVisitor<BSPTree<>::OutputPolygon, PolygonFilter> v((PolygonFilter(id)));
  BSPVisitor<BSPTree<>::OutputPolygon>& b = v; Put(o, b.IsInside(Infos(p, n))); }
