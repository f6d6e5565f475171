// Entry points for the analyser: convex polygons with a fixed vertex count and
// arbitrary vertices, edge lines and planes.
#include "walnut/aabb_convex_polygon.h"
#include "walnut/convex_polygon.h"
#include "walnut/mutable_convex_polygon.h"
using namespace walnut;
using B = BigInt;
using CP = MutableConvexPolygon<>;
#define WV extern "C" __attribute__((used, noinline))
static inline HomoPoint3 H(const B* v) { return HomoPoint3(v[0], v[1], v[2], v[3]); }
static inline HalfSpace3 P(const B* v) { return HalfSpace3(v[0], v[1], v[2], v[3]); }
static inline PluckerLine L(const B* v) { return PluckerLine(Vector3(v[0], v[1], v[2]), Vector3(v[3], v[4], v[5])); }
static inline void Out(B* o, const HalfSpace3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.d(); }
static inline void Out(B* o, const HomoPoint3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.w(); }
static inline void Out(B* o, const PluckerLine& l) {
  o[0] = l.d().x(); o[1] = l.d().y(); o[2] = l.d().z(); o[3] = l.m().x(); o[4] = l.m().y(); o[5] = l.m().z(); }
// plane: 4 numbers, then 10 per vertex (point, line)
static inline CP Poly(const B* p, int n, int dd) {
  typename CP::EdgeVector e;
  e.reserve(n);
  for (int i = 0; i < n; ++i) e.emplace_back(H(p + 4 + 10 * i), L(p + 4 + 10 * i + 4));
  return CP(P(p), dd, std::move(e));
}
static inline void Put(B* o, const CP& c) {
  Out(o, c.plane()); o += 4;
  for (size_t i = 0; i < c.vertex_count(); ++i, o += 10) { Out(o, c.vertex(i)); Out(o + 4, c.edge(i).line()); }
}
static inline void Put(size_t* o, const ConvexPolygonSplitRanges& r) {
  o[0] = r.neg_range.first; o[1] = r.neg_range.second; o[2] = r.pos_range.first; o[3] = r.pos_range.second; }

WV void wv_ranges_linear(const B* p, int n, int dd, const B& a, const B& b, const B& d, size_t* o) {
  Put(o, Poly(p, n, dd).FindSplitRangesLinear(HalfSpace2(a, b, d), dd)); }
WV void wv_ranges_bisect(const B* p, int n, int dd, const B& a, const B& b, const B& d, size_t* o) {
  Put(o, Poly(p, n, dd).FindSplitRangesBisect(HalfSpace2(a, b, d), dd)); }
WV void wv_splitinfo(const B* p, int n, int dd, const B* h, size_t* o, B* q) {
  ConvexPolygonSplitInfo s = Poly(p, n, dd).GetSplitInfo(P(h));
  Put(o, s.ranges); o[4] = s.has_new_shared_point1; o[5] = s.has_new_shared_point2;
  Out(q, s.new_line); Out(q + 6, s.new_shared_point1); Out(q + 10, s.new_shared_point2); }
static inline ConvexPolygonSplitInfo Info(size_t a, size_t b, size_t c, size_t d, bool h1, bool h2, const B* q) {
  ConvexPolygonSplitInfo s;
  s.ranges.neg_range = std::make_pair(a, b); s.ranges.pos_range = std::make_pair(c, d);
  s.has_new_shared_point1 = h1; s.has_new_shared_point2 = h2;
  s.new_line = L(q); s.new_shared_point1 = H(q + 6); s.new_shared_point2 = H(q + 10);
  return s; }
WV int wv_split_copy(const B* p, int n, int dd, size_t a, size_t b, size_t c, size_t d, bool h1, bool h2, const B* q, B* on, B* op) {
  CP src = Poly(p, n, dd);
  ConvexPolygonSplitInfo s = Info(a, b, c, d, h1, h2, q);
  const CP& csrc = src;
  std::pair<CP, CP> r = csrc.CreateSplitChildren(s);
  Put(on, r.first); Put(op, r.second);
  return (int)r.first.vertex_count() * 1000000 + (int)r.second.vertex_count() * 10000 + r.first.drop_dimension() * 100 + r.second.drop_dimension(); }
WV int wv_split_move(const B* p, int n, int dd, size_t a, size_t b, size_t c, size_t d, bool h1, bool h2, const B* q, B* on, B* op) {
  CP src = Poly(p, n, dd);
  ConvexPolygonSplitInfo s = Info(a, b, c, d, h1, h2, q);
  std::pair<CP, CP> r = std::move(src).CreateSplitChildren(std::move(s));
  Put(on, r.first); Put(op, r.second);
  return (int)r.first.vertex_count() * 1000000 + (int)r.second.vertex_count() * 10000 + r.first.drop_dimension() * 100 + r.second.drop_dimension(); }
WV void wv_invert(const B* p, int n, int dd, B* o) { CP c = Poly(p, n, dd); c.Invert(); Put(o, c); }
WV int wv_copy(const B* p, int n, int dd, B* o) { CP c = Poly(p, n, dd); CP d(c); Put(o, d); return (int)d.vertex_count() * 100 + d.drop_dimension(); }
WV int wv_move(const B* p, int n, int dd, B* o) { CP c = Poly(p, n, dd); CP d(std::move(c)); Put(o, d); return (int)d.vertex_count() * 100 + d.drop_dimension(); }
WV int wv_assign(const B* p, int n, int dd, const B* p2, int n2, int dd2, B* o) { CP c = Poly(p, n, dd); CP d = Poly(p2, n2, dd2); c = d; Put(o, c); return (int)c.vertex_count() * 100 + c.drop_dimension(); }
WV int wv_massign(const B* p, int n, int dd, const B* p2, int n2, int dd2, B* o) { CP c = Poly(p, n, dd); CP d = Poly(p2, n2, dd2); c = std::move(d); Put(o, c); return (int)c.vertex_count() * 100 + c.drop_dimension(); }
WV bool wv_polyeq(const B* p, int n, int dd, const B* p2, int n2, int dd2) { return Poly(p, n, dd) == Poly(p2, n2, dd2); }
WV bool wv_polyne(const B* p, int n, int dd, const B* p2, int n2, int dd2) { return Poly(p, n, dd) != Poly(p2, n2, dd2); }
WV size_t wv_minindex(const B* p, int n, int dd) { return Poly(p, n, dd).GetMinimumIndex(); }
WV void wv_area(const B* p, int n, int dd, int drop, B* o) { auto r = Poly(p, n, dd).GetProjectedArea(drop); o[0] = r.first; o[1] = r.second; }
WV void wv_centroid2(const B* p, int n, int dd, int drop, B* o) { HomoPoint2 r = Poly(p, n, dd).GetProjectedCentroid(drop); o[0] = r.x(); o[1] = r.y(); o[2] = r.w(); }
WV void wv_centroid3(const B* p, int n, int dd, B* o) { Out(o, Poly(p, n, dd).GetCentroid()); }
WV void wv_splitedge(const B* p, int n, int dd, size_t i, const B* m, B* o) { CP c = Poly(p, n, dd); c.SplitEdge(i, H(m)); Put(o, c); }
WV size_t wv_extreme2(const B* p, int n, int dd, const B& a, const B& b, int drop) { return Poly(p, n, dd).GetExtremeIndexBisect(Vector2(a, b), drop); }
WV size_t wv_extreme3(const B* p, int n, int dd, const B& a, const B& b, const B& c) { return Poly(p, n, dd).GetExtremeIndexBisect(Vector3(a, b, c)); }
WV void wv_fromverts(const B* p, int n, int dd, B* o) {
  std::vector<HomoPoint3> v; for (int i = 0; i < n; ++i) v.push_back(H(p + 4 + 10 * i));
  Put(o, CP(P(p), dd, v)); }
WV void wv_fromints(const B* p, int n, int dd, B* o) {
  std::vector<Point3> v; for (int i = 0; i < n; ++i) v.push_back(Point3(p[4 + 10 * i], p[5 + 10 * i], p[6 + 10 * i]));
  Put(o, CP(P(p), dd, v)); }
WV void wv_rotate(const B* p, int n, int dd, int k, B* o) { CP c = Poly(p, n, dd); c.RotateEdges(k); Put(o, c); }
WV void wv_sortverts(const B* p, int n, int dd, B* o) { CP c = Poly(p, n, dd); c.SortVertices(); Put(o, c); }
WV int wv_merge(const B* p, int n, int dd, const B* p2, int n2, int nz, size_t i, size_t j, B* o) {
  CP c = Poly(p, n, dd); CP d = Poly(p2, n2, dd);
  bool r = c.TryMergePolygon(nz, i, d, j);
  Put(o, c);
  return (int)c.vertex_count() * 100 + (int)d.vertex_count() * 2 + r; }
WV void wv_polyline2(const B* p, int n, int dd, const B* h, B* o) {
  // the 2D half-space a split uses, as GetSplitInfo derives it
  CP c = Poly(p, n, dd);
  int flip = c.normal().components()[dd].GetAbsMult();
  HalfSpace2 r = PluckerLine(c.plane(), P(h)).Project2D(dd) * -flip;
  o[0] = r.x(); o[1] = r.y(); o[2] = r.d(); }
// GetSplitInfo followed by CreateSplitChildren
template <bool kMove> static inline void Split(const B* p, int n, int dd, const B* h, size_t* o, B* on, B* op) {
  CP src = Poly(p, n, dd);
  ConvexPolygonSplitInfo s = src.GetSplitInfo(P(h));
  o[0] = s.ShouldEmitNegativeChild(); o[1] = s.ShouldEmitPositiveChild();
  if (!s.ShouldEmitNegativeChild() || !s.ShouldEmitPositiveChild()) return;
  const CP& csrc = src;
  std::pair<CP, CP> r = kMove ? std::move(src).CreateSplitChildren(std::move(s)) : csrc.CreateSplitChildren(s);
  o[2] = r.first.vertex_count(); o[3] = r.second.vertex_count();
  o[4] = r.first.drop_dimension(); o[5] = r.second.drop_dimension();
  Put(on, r.first); Put(op, r.second); }
WV void wv_split(const B* p, int n, int dd, const B* h, size_t* o, B* on, B* op) { Split<false>(p, n, dd, h, o, on, op); }
WV void wv_splitm(const B* p, int n, int dd, const B* h, size_t* o, B* on, B* op) { Split<true>(p, n, dd, h, o, on, op); }
WV void wv_splitflags(const B* p, int n, int dd, const B* h, size_t* o) {
  ConvexPolygonSplitInfo s = Poly(p, n, dd).GetSplitInfo(P(h));
  o[0] = s.ShouldEmitNegativeChild(); o[1] = s.ShouldEmitPositiveChild(); }
// ---- polygons that cache their bounding box
using AP = AABBConvexPolygon<MutableConvexPolygon<>>;
static inline AP APoly(const B* p, int n, int dd) { return AP(Poly(p, n, dd)); }
static inline void PutBox(size_t* o, B* q, const AP& a) {
  for (int i = 0; i < 3; ++i) { o[i] = a.min_vertex_index(i); o[3 + i] = a.max_vertex_index(i); }
  for (int i = 0; i < 3; ++i) { q[i] = a.aabb().min_point_num().components()[i]; q[3 + i] = a.aabb().max_point_num().components()[i]; }
  q[6] = a.aabb().denom(); }
WV void wv_abox(const B* p, int n, int dd, size_t* o, B* q) { PutBox(o, q, APoly(p, n, dd)); }
WV void wv_aboxcopy(const B* p, int n, int dd, size_t* o, B* q) { AP a = APoly(p, n, dd); AP b(a); AP c; c = b; AP t = APoly(p, n, dd); t.RotateEdges(1); t = c; PutBox(o, q, t); }
WV void wv_aboxmove(const B* p, int n, int dd, size_t* o, B* q) { AP a = APoly(p, n, dd); AP b(std::move(a)); AP c; c = std::move(b); AP t = APoly(p, n, dd); t.RotateEdges(1); t = std::move(c); PutBox(o, q, t); }
WV void wv_aboxrotate(const B* p, int n, int dd, int k, size_t* o, B* q) { AP a = APoly(p, n, dd); a.RotateEdges(k); PutBox(o, q, a); }
WV void wv_aboxsort(const B* p, int n, int dd, size_t* o, B* q, B* r) { AP a = APoly(p, n, dd); a.SortVertices(); PutBox(o, q, a); Put(r, a); }
template <bool kMove, bool kBox = true> static inline void ASplit(const B* p, int n, int dd, const B* h, size_t* o, B* on, B* op, B* qn, B* qp) {
  AP src = APoly(p, n, dd);
  ConvexPolygonSplitInfo s = kBox ? src.GetSplitInfo(P(h)) : static_cast<const ConvexPolygon<>&>(src).GetSplitInfo(P(h));
  o[0] = s.ShouldEmitNegativeChild(); o[1] = s.ShouldEmitPositiveChild();
  if (!s.ShouldEmitNegativeChild() || !s.ShouldEmitPositiveChild()) return;
  const AP& csrc = src;
  std::pair<AP, AP> r = kMove ? std::move(src).CreateSplitChildren(std::move(s)) : csrc.CreateSplitChildren(s);
  o[2] = r.first.vertex_count(); o[3] = r.second.vertex_count();
  o[4] = r.first.drop_dimension(); o[5] = r.second.drop_dimension();
  Put(on, r.first); Put(op, r.second); PutBox(o + 6, qn, r.first); PutBox(o + 12, qp, r.second); }
WV void wv_asplit(const B* p, int n, int dd, const B* h, size_t* o, B* on, B* op, B* qn, B* qp) { ASplit<false>(p, n, dd, h, o, on, op, qn, qp); }
WV void wv_asplitm(const B* p, int n, int dd, const B* h, size_t* o, B* on, B* op, B* qn, B* qp) { ASplit<true>(p, n, dd, h, o, on, op, qn, qp); }
WV void wv_asplitp(const B* p, int n, int dd, const B* h, size_t* o, B* on, B* op, B* qn, B* qp) { ASplit<false, false>(p, n, dd, h, o, on, op, qn, qp); }
WV void wv_asplitpm(const B* p, int n, int dd, const B* h, size_t* o, B* on, B* op, B* qn, B* qp) { ASplit<true, false>(p, n, dd, h, o, on, op, qn, qp); }
WV void wv_rounddown(const B& a, const B& w, const B& d, B& o) { o = rational::RoundDown(a, w, d); }
WV void wv_roundup(const B& a, const B& w, const B& d, B& o) { o = rational::RoundUp(a, w, d); }
WV void wv_oppositeedges(const B* p, int n, int dd, const B& a, const B& b, size_t* o) {
  auto r = Poly(p, n, dd).GetOppositeEdgeIndicesBisect(Vector2(a, b), dd); o[0] = r.first; o[1] = r.second; }
WV bool wv_apolyeq(const B* p, int n, int dd, const B* p2, int n2, int dd2) { return APoly(p, n, dd) == APoly(p2, n2, dd2); }
// ---- edge data
struct Tag : EdgeInfoRoot {
  Tag() = default;
  explicit Tag(const EdgeInfoRoot&) {}
  Tag(const Tag&) = default;
  Tag(RValueKey<Tag> o) noexcept : tag(o.get().tag) {}
  Tag(const Tag& o, const HomoPoint3&) : tag(o.tag) {}
  Tag(const Tag& o, const PluckerLine&) : tag(o.tag) {}
  Tag(const Tag& o, const HomoPoint3&, const PluckerLine&) : tag(o.tag) {}
  Tag& operator=(const Tag&) = default;
  Tag& operator=(RValueKey<Tag> o) noexcept { tag = o.get().tag; return *this; }
  bool operator==(const Tag& o) const { return tag == o.tag; }
  bool operator!=(const Tag& o) const { return tag != o.tag; }
  bool CanMerge(const Tag& o) const { return tag == o.tag; }
  long tag = 0;
 protected:
  void Merge(Tag&) {}
};
using TP = MutableConvexPolygon<Tag>;
static inline TP TPoly(const B* p, int n, int dd, const long* t) {
  TP c(Poly(p, n, dd));
  for (int i = 0; i < n; ++i) c.edge(i).tag = t[i];
  return c; }
static inline void PutT(B* o, long* t, const TP& c) {
  Out(o, c.plane()); o += 4;
  for (size_t i = 0; i < c.vertex_count(); ++i, o += 10) { Out(o, c.vertex(i)); Out(o + 4, c.edge(i).line()); t[i] = c.edge(i).tag; } }
WV bool wv_tpolyeq(const B* p, int n, int dd, const long* t, const B* p2, int n2, int dd2, const long* t2) { return TPoly(p, n, dd, t) == TPoly(p2, n2, dd2, t2); }
WV bool wv_tpolyne(const B* p, int n, int dd, const long* t, const B* p2, int n2, int dd2, const long* t2) { return TPoly(p, n, dd, t) != TPoly(p2, n2, dd2, t2); }
WV void wv_tsplit(const B* p, int n, int dd, const long* t, const B* h, size_t* o, B* on, B* op, long* tn, long* tp) {
  TP src = TPoly(p, n, dd, t);
  ConvexPolygonSplitInfo s = src.GetSplitInfo(P(h));
  o[0] = s.ShouldEmitNegativeChild(); o[1] = s.ShouldEmitPositiveChild();
  if (!o[0] || !o[1]) return;
  std::pair<TP, TP> r = std::move(src).CreateSplitChildren(std::move(s));
  o[2] = r.first.vertex_count(); o[3] = r.second.vertex_count();
  PutT(on, tn, r.first); PutT(op, tp, r.second); }
WV void wv_trotate(const B* p, int n, int dd, const long* t, int k, B* o, long* u) { TP c = TPoly(p, n, dd, t); c.RotateEdges(k); PutT(o, u, c); }
WV void wv_tsort(const B* p, int n, int dd, const long* t, B* o, long* u) { TP c = TPoly(p, n, dd, t); c.SortVertices(); PutT(o, u, c); }
WV void wv_tcopy(const B* p, int n, int dd, const long* t, B* o, long* u) { TP c = TPoly(p, n, dd, t); TP d(c); TP e; e = d; PutT(o, u, e); }
WV void wv_tmove(const B* p, int n, int dd, const long* t, B* o, long* u) { TP c = TPoly(p, n, dd, t); TP d(std::move(c)); TP e; e = std::move(d); PutT(o, u, e); }
WV void wv_tsplitedge(const B* p, int n, int dd, const long* t, size_t i, const B* m, B* o, long* u) { TP c = TPoly(p, n, dd, t); c.SplitEdge(i, H(m)); PutT(o, u, c); }
WV void wv_tmerge(const B* p, int n, int dd, const long* t, const B* p2, int n2, const long* t2, int nz, size_t i, size_t j, size_t* r, B* o, long* u, B* o2, long* u2) {
  TP c = TPoly(p, n, dd, t); TP d = TPoly(p2, n2, dd, t2);
  r[0] = c.TryMergePolygon(nz, i, d, j);
  r[1] = c.vertex_count(); r[2] = d.vertex_count(); r[3] = c.drop_dimension();
  PutT(o, u, c); PutT(o2, u2, d); }
WV void wv_aboxsplitedge(const B* p, int n, int dd, size_t i, const B* m, size_t* o, B* q) { AP a = APoly(p, n, dd); a.SplitEdge(i, H(m)); PutBox(o, q, a); }
WV void wv_aboxinvert(const B* p, int n, int dd, size_t* o, B* q) { AP a = APoly(p, n, dd); a.Invert(); PutBox(o, q, a); }
WV void wv_aboxmerge(const B* p, int n, int dd, const B* p2, int n2, int nz, size_t i, size_t j, size_t* r, B* o, size_t* ix, B* q) {
  AP c = APoly(p, n, dd); AP d = APoly(p2, n2, dd);
  r[0] = c.TryMergePolygon(nz, i, d, j); r[1] = c.vertex_count();
  Put(o, c); PutBox(ix, q, c); }
