// Entry points for the analyser: facets from loops of points, extrusion, and
// measures of meshes.
#include <stddef.h>
#include <cstdint>
#include <vector>
#include "walnut/convex_polygon_factory.h"
#include "walnut/extrude.h"
#include "walnut/mesh.h"
#include "walnut/mutable_convex_polygon.h"
// The parts of the C++ library that are not in its headers: hash tables of one bucket
namespace std {
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return pair<bool, size_t>(false, 0); }
}
}
using namespace walnut;
using B = BigInt;
using CP = MutableConvexPolygon<>;
#define WV extern "C" __attribute__((used, noinline))
namespace {
inline HomoPoint3 H(const B* v) { return HomoPoint3(v[0], v[1], v[2], v[3]); }
inline PluckerLine L(const B* v) { return PluckerLine(Vector3(v[0], v[1], v[2]), Vector3(v[3], v[4], v[5])); }
inline HalfSpace3 P(const B* v) { return HalfSpace3(v[0], v[1], v[2], v[3]); }
inline void Out(B* o, const HalfSpace3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.d(); }
inline void Out(B* o, const HomoPoint3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.w(); }
inline void Out(B* o, const PluckerLine& l) {
  o[0] = l.d().x(); o[1] = l.d().y(); o[2] = l.d().z(); o[3] = l.m().x(); o[4] = l.m().y(); o[5] = l.m().z(); }
template <class Q> void Put(const Q& c, long*& o, B*& q) {
  *o++ = 0; *o++ = c.vertex_count(); *o++ = c.drop_dimension();
  Out(q, c.plane()); q += 4;
  for (size_t i = 0; i < c.vertex_count(); ++i) { Out(q, c.vertex(i)); Out(q + 4, c.const_edge(i).line()); q += 10; }
}
template <class V> void PutAll(const V& r, long* o, B* q) {
  *o++ = r.size();
  for (const auto& c : r) Put(c, o, q);
}
template <class Pt> struct Collector : ConvexPolygonFactory<Pt> {
  std::vector<CP> result;
  void Emit(CP&& c) override { result.push_back(std::move(c)); }
};
// n-gons: per polygon the plane, then vertex and line per edge; a: polygons, then vertices and dropped axis of each
void Mesh(const long* a, const B* p, std::vector<CP>& r) {
  r.reserve(a[0]);
  for (int k = 0; k < a[0]; ++k) {
    int n = a[1 + 2 * k];
    typename CP::EdgeVector e;
    e.reserve(n);
    for (int i = 0; i < n; ++i) e.emplace_back(H(p + 4 + 10 * i), L(p + 4 + 10 * i + 4));
    r.emplace_back(P(p), (int)a[2 + 2 * k], std::move(e));
    p += 4 + 10 * n;
  }
}
}
// several loops, one after the other, through the same factory: a: loops, then points of each
WV void wv_facets(const long* a, const B* p, long* o, B* q) {
  Collector<Point3> f;
  for (int k = 0; k < a[0]; ++k) {
    std::vector<Point3> v;
    for (int i = 0; i < a[1 + k]; ++i, p += 3) v.emplace_back(p[0], p[1], p[2]);
    f.Build(v.begin(), v.end());
  }
  PutAll(f.result, o, q);
}
WV void wv_facetsh(const long* a, const B* p, long* o, B* q) {
  Collector<HomoPoint3> f;
  for (int k = 0; k < a[0]; ++k) {
    std::vector<HomoPoint3> v;
    for (int i = 0; i < a[1 + k]; ++i, p += 4) v.push_back(H(p));
    f.Build(v.begin(), v.end());
  }
  PutAll(f.result, o, q);
}
WV void wv_extrude(const long* a, const B* p, const B* d, long* o, B* q) {
  std::vector<HomoPoint3> v;
  for (int i = 0; i < a[0]; ++i, p += 4) v.push_back(H(p));
  PutAll(Extrude(v, Vector3(d[0], d[1], d[2]), d[3]), o, q);
}
WV void wv_top(const long* a, const B* p, B* q) { std::vector<CP> m; Mesh(a, p, m); Out(q, GetTopPoint(m)); }
WV void wv_far(const long* a, const B* p, const B* v, B* q) {
  std::vector<CP> m; Mesh(a, p, m); Out(q, GetFarthest(m, Vector3(v[0], v[1], v[2]))); }
WV void wv_centroid(const long* a, const B* p, B* q) { std::vector<CP> m; Mesh(a, p, m); Out(q, GetCentroid(m)); }
