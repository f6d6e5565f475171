// Entry points for the analyser: BSP trees split by arbitrary planes, with
// polygons added before, between and after the splits.
#include <stddef.h>
#include <cstdint>
#include <utility>
#include <vector>
#include "walnut/bsp_tree.h"
#include "walnut/mutable_convex_polygon.h"
using namespace walnut;
using B = BigInt;
using CP = MutableConvexPolygon<>;
#define WV extern "C" __attribute__((used, noinline))
namespace {
inline HomoPoint3 H(const B* v) { return HomoPoint3(v[0], v[1], v[2], v[3]); }
inline HalfSpace3 P(const B* v) { return HalfSpace3(v[0], v[1], v[2], v[3]); }
inline PluckerLine L(const B* v) { return PluckerLine(Vector3(v[0], v[1], v[2]), Vector3(v[3], v[4], v[5])); }
inline void Out(B* o, const HalfSpace3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.d(); }
inline void Out(B* o, const HomoPoint3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.w(); }
inline void Out(B* o, const PluckerLine& l) {
  o[0] = l.d().x(); o[1] = l.d().y(); o[2] = l.d().z(); o[3] = l.m().x(); o[4] = l.m().y(); o[5] = l.m().z(); }
inline CP Poly(const B* p, int n, int dd) {
  typename CP::EdgeVector e;
  e.reserve(n);
  for (int i = 0; i < n; ++i) e.emplace_back(H(p + 4 + 10 * i), L(p + 4 + 10 * i + 4));
  return CP(P(p), dd, std::move(e));
}
// which split plane of the path a side refers to
template <class N> long Code(const SplitSide& s, N* const* path, int levels) {
  if (s.split == nullptr) return 0;
  for (int l = 0; l < levels; ++l)
    if (s.split == &path[l]->split()) return 1 + 2 * l + (s.pos_side ? 1 : 0);
  return -1;
}
template <class Poly3, class N> void PutPoly(const Poly3& c, N* const* path, int levels, long*& o, B*& q) {
  *o++ = c.id; *o++ = c.vertex_count(); *o++ = c.drop_dimension(); *o++ = Code(c.on_node_plane, path, levels);
  Out(q, c.plane()); q += 4;
  for (size_t i = 0; i < c.vertex_count(); ++i) {
    const auto& e = c.const_edge(i);
    *o++ = Code(e.edge_created_by, path, levels);
    *o++ = Code(e.edge_first_coincident, path, levels);
    *o++ = Code(e.vertex_last_coincident, path, levels);
    *o++ = Code(e.edge_last_coincident, path, levels);
    Out(q, c.vertex(i)); Out(q + 4, e.line()); q += 10;
  }
}
template <class N> void Dump(int levels, int ids, const long* turn, N** path, long*& o, B*& q) {
  for (int l = 0; l <= levels; ++l) {
    if (l < levels) {
      *o++ = path[l]->IsLeaf(); *o++ = path[l]->contents().size(); *o++ = path[l]->border_contents().size();
      Out(q, path[l]->split()); q += 4;
    }
    N* n = l == levels ? path[l] : turn[l] ? path[l]->negative_child() : path[l]->positive_child();
    *o++ = n->IsLeaf(); *o++ = n->contents().size(); *o++ = n->border_contents().size();
    for (int id = 0; id < ids; ++id) {
      BSPContentInfo i = n->GetContentInfoForId(id);
      *o++ = i.has_interior_polygons; *o++ = i.has_border_polygons; *o++ = i.pwn;
    }
    for (auto& c : n->contents()) PutPoly(c, path, levels, o, q);
    for (auto& c : n->border_contents()) PutPoly(c, path, levels, o, q);
  }
}
void PutEvents(const std::vector<PolygonEventPoint>& v, long*& o) {
  *o++ = v.size();
  for (const PolygonEventPoint& e : v) { *o++ = e.start; *o++ = e.new_location; *o++ = e.start ? e.index.partner : e.index.content; }
}
// a: levels, polygons, ids, then the path, then per polygon: vertices, dropped
// axis, id, level it is added at, how it is added
template <class T> void Run(const long* a, const B* p, const B* h, long* o, B* q) {
  using N = typename T::BSPNodeRep;
  int levels = a[0], np = a[1], ids = a[2];
  const long* turn = a + 3;
  const long* d = turn + levels;
  T tree;
  N* path[8];
  path[0] = &tree.root;
  for (int l = 0; l <= levels; ++l) {
    const B* pp = p;
    for (int k = 0; k < np; ++k) {
      const long* e = d + 5 * k;
      if (e[3] == l) {
        CP c = Poly(pp, e[0], e[1]);
        if (e[4] == 0) tree.AddContent(e[2], c);
        else if (e[4] == 1) tree.AddContent(e[2], std::move(c));
        else if (e[4] == 2) { std::vector<CP> v; v.push_back(c); tree.AddContents(e[2], v); }
        else if (e[4] == 3) { std::vector<CP> v; v.push_back(c); tree.AddContents(e[2], std::move(v)); }
        else {
          // a polygon that carries the records of another tree
          HalfSpace3 other(0, 0, 1, 0);
          typename T::OutputPolygon b(7, &other, true, c);
          b.SetBoundaryAngles(SplitSide{&other, true}, 0, e[0] + 1);
          tree.AddContent(e[2], b);
        }
      }
      pp += 4 + 10 * e[0];
    }
    if (l == levels) break;
    path[l]->Split(P(h + 4 * l));
    path[l + 1] = turn[l] ? path[l]->positive_child() : path[l]->negative_child();
  }
  Dump<N>(levels, ids, turn, path, o, q);
}
// the traverser's own way of splitting a node: by a coordinate of some polygon.
// a: as above, then the number of partitions, then for each the dimension, the
// candidate (-1: the one of lowest cost) and the child to go on with
template <class T> void RunKd(const long* a, const B* p, const B* h, long* o, B* q) {
  using N = typename T::BSPNodeRep;
  int levels = a[0], np = a[1], ids = a[2];
  long turn[12];
  for (int l = 0; l < levels; ++l) turn[l] = a[3 + l];
  const long* d = a + 3 + levels;
  T tree;
  N* path[12];
  path[0] = &tree.root;
  for (int k = 0; k < np; ++k, d += 5) { tree.AddContent(d[2], Poly(p, d[0], d[1])); p += 4 + 10 * d[0]; }
  for (int l = 0; l < levels; ++l) {
    path[l]->Split(P(h + 4 * l));
    path[l + 1] = turn[l] ? path[l]->positive_child() : path[l]->negative_child();
  }
  std::vector<PolygonEventPoint> ev[3];
  for (int i = 0; i < 3; ++i) { ev[i].resize(path[levels]->contents().size() * 2); MakeEventPoints(i, path[levels]->contents(), ev[i].data()); }
  int stages = *d++;
  for (int stage = 0; stage <= stages; ++stage) {
    N& node = *path[levels];
    long n = node.contents().size();
    *o++ = n;
    for (auto& c : node.contents()) PutPoly(c, path, levels, o, q);
    for (int i = 0; i < 3; ++i) PutEvents(ev[i], o);
    if (n == 0 || stage == stages) { *o++ = 0; break; }
    int dim = d[0];
    std::vector<PolygonEventPoint> neg[3], pos[3];
    std::pair<BSPContentId, size_t> exclude = node.GetCostExclude();
    PolygonEventPointPartition best = GetLowestCost(exclude.first, exclude.second, node.contents(), ev[dim].data());
    long low[3] = {(long)best.split_index, (long)best.neg_poly_count, (long)best.pos_poly_count};
    if (d[1] >= 0) {
      // another admissible place: the last of a run of end events
      long starts = 0, ends = 0, c = 0, want = -1, total = 0;
      for (long i = 0; i < 2 * n; ++i) if (!ev[dim][i].start && (i + 1 == 2 * n || ev[dim][i + 1].start)) ++total;
      want = d[1] % total;
      for (long i = 0; i < 2 * n; ++i) {
        if (ev[dim][i].start) ++starts; else ++ends;
        if (!ev[dim][i].start && (i + 1 == 2 * n || ev[dim][i + 1].start) && c++ == want) {
          best.split_index = i; best.neg_poly_count = starts; best.pos_poly_count = n - ends; break; }
      }
    }
    HalfSpace3 plane = best.GetSplitPlane(dim, ev[dim].data(), node.contents());
    bool again = false;
    for (int l = 0; l < levels; ++l) again = again || path[l]->split().IsSameOrOpposite(plane);
    *o++ = again ? 2 : 1;
    for (long x : low) *o++ = x;
    if (again) break;
    best.DiscountBorderPolygons(ev[dim].data(), n);
    *o++ = best.neg_poly_count; *o++ = best.pos_poly_count; *o++ = best.border_poly_count;
    std::vector<size_t> map;
    node.Split(best, dim, ev[dim], map, neg[dim]);
    turn[levels] = d[2];
    path[levels + 1] = d[2] ? node.positive_child() : node.negative_child();
    ++levels;
    pos[dim] = ev[dim];
    pos[dim].resize(best.GetPosEventPointCount());
    std::vector<PolygonMergeEvent> heap;
    for (int i = 1; i < 3; ++i) {
      int e = (dim + i) % 3;
      neg[e].resize(best.GetNegEventPointCount());
      pos[e].resize(best.GetPosEventPointCount());
      best.ApplySecondary(e, map.size(), node.negative_child()->contents(), node.positive_child()->contents(),
                          map.data(), ev[e].data(), neg[e].data(), pos[e].data(), heap);
    }
    for (int i = 0; i < 3; ++i) { PutEvents(d[2] ? neg[i] : pos[i], o); ev[i] = d[2] ? pos[i] : neg[i]; }
    d += 3;
  }
  *o++ = levels;
  Dump<N>(levels, ids, turn, path, o, q);
}
}
WV void wv_bsp(const long* a, const B* p, const B* h, long* o, B* q) { Run<BSPTree<ConvexPolygon<>>>(a, p, h, o, q); }
WV void wv_bspbox(const long* a, const B* p, const B* h, long* o, B* q) { Run<BSPTree<>>(a, p, h, o, q); }
WV void wv_kd(const long* a, const B* p, const B* h, long* o, B* q) { RunKd<BSPTree<>>(a, p, h, o, q); }
