// Entry points for the analyser: boolean operations from polygons to output.
#include <stddef.h>
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>
#include "walnut/boolean_operation_filter.h"
#include "walnut/bsp_traverser.h"
#include "walnut/bsp_tree.h"
#include "walnut/bsp_visitor.h"
#include "walnut/connecting_visitor.h"
#include "walnut/mutable_convex_polygon.h"
// The parts of the C++ library that are not in its headers, in their plainest
// form: hash tables of one bucket, search trees that are not balanced.
namespace std {
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return pair<bool, size_t>(false, 0); }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// Every node but the header is black, so the header (red) can be told apart.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* next = _Rb_tree_increment(z);
  _Rb_tree_node_base* prev = z == h._M_left ? &h : _Rb_tree_decrement(z);
  if (z == h._M_left) h._M_left = next;
  if (z == h._M_right) h._M_right = prev;
  _Rb_tree_node_base* s;
  if (!z->_M_left) s = z->_M_right;
  else if (!z->_M_right) s = z->_M_left;
  else {
    // the successor takes the place
    s = z->_M_right;
    while (s->_M_left) s = s->_M_left;
    if (s != z->_M_right) {
      s->_M_parent->_M_left = s->_M_right;
      if (s->_M_right) s->_M_right->_M_parent = s->_M_parent;
      s->_M_right = z->_M_right;
      s->_M_right->_M_parent = s;
    }
    s->_M_left = z->_M_left;
    s->_M_left->_M_parent = s;
  }
  if (s) s->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = s;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = s;
  else z->_M_parent->_M_right = s;
  return z;
}
}
using namespace walnut;
using B = BigInt;
using CP = MutableConvexPolygon<>;
#define WV extern "C" __attribute__((used, noinline))
WV void wv_error() { }
namespace {
inline HomoPoint3 H(const B* v) { return HomoPoint3(v[0], v[1], v[2], v[3]); }
inline HalfSpace3 P(const B* v) { return HalfSpace3(v[0], v[1], v[2], v[3]); }
inline PluckerLine L(const B* v) { return PluckerLine(Vector3(v[0], v[1], v[2]), Vector3(v[3], v[4], v[5])); }
inline void Out(B* o, const HalfSpace3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.d(); }
inline void Out(B* o, const HomoPoint3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.w(); }
inline void Out(B* o, const PluckerLine& l) {
  o[0] = l.d().x(); o[1] = l.d().y(); o[2] = l.d().z(); o[3] = l.m().x(); o[4] = l.m().y(); o[5] = l.m().z(); }
inline CP Poly(const B* p, int n, int dd) {
  typename CP::EdgeVector e;
  e.reserve(n);
  for (int i = 0; i < n; ++i) e.emplace_back(H(p + 4 + 10 * i), L(p + 4 + 10 * i + 4));
  return CP(P(p), dd, std::move(e));
}
// one of the filters, chosen by number
struct Op {
  long op;
  std::pair<bool, bool> operator()(const std::vector<BSPContentInfo>& c) {
    PolygonFilter a(0), b(1);
    InvertedPolygonFilter nb(1);
    OddPolygonFilter oa(0);
    switch (op) {
      case 0: return MakeUnionFilter(a, b)(c);
      case 1: return MakeIntersectionFilter(a, b)(c);
      case 2: return MakeSubtractionFilter(a, nb)(c);
      case 3: return MakeXORFilter(a, b)(c);
      case 4: return a(c);
      case 5: return oa(c);
      case 6: return UnionIdsFilter({0, 1})(c);
      case 7: return IntersectIdsFilter({0, 1})(c);
      case 8: return SubtractIdsFilter({0, 1})(c);
      case 9: return nb(c);
      case 10: return MakeUnionFilter(MakeIntersectionFilter(a, b), PolygonFilter(2))(c);
      default: return MakeIntersectionFilter(MakeUnionFilter(a, b), PolygonFilter(2))(c);
    }
  }
};
// a: operation, kd bound, presplits, polygons, when the splits are made (0 before, 1 after, 2 before with
// the contents left at the root); then
// per polygon: vertices, dropped axis, id
template <class T> void Fill(const long* a, const B* p, const B* h, T& tree) {
  if (a[4] != 1) { for (int l = 0; l < a[2]; ++l) (l == 0 ? tree.root : l == 1 ? *tree.root.negative_child() : *tree.root.positive_child()).Split(P(h + 4 * l)); }
  const long* d = a + 5;
  for (int k = 0; k < a[3]; ++k, d += 3) { if (a[4] == 2) tree.root.AddRootContent(d[2], Poly(p, d[0], d[1])); else tree.AddContent(d[2], Poly(p, d[0], d[1])); p += 4 + 10 * d[0]; }
  if (a[4] == 1) { for (int l = 0; l < a[2]; ++l) (l == 0 ? tree.root : l == 1 ? *tree.root.negative_child() : *tree.root.positive_child()).Split(P(h + 4 * l)); }
}
template <class Q> void Put(const Q& c, long*& o, B*& q) {
  *o++ = c.id; *o++ = c.vertex_count(); *o++ = c.drop_dimension();
  Out(q, c.plane()); q += 4;
  for (size_t i = 0; i < c.vertex_count(); ++i) { Out(q, c.vertex(i)); Out(q + 4, c.edge(i).line()); q += 10; }
}
inline void Side(const SplitSide& s, long*& o, B*& q) {
  *o++ = s.split == nullptr ? 0 : s.pos_side ? 2 : 1;
  if (s.split != nullptr) { Out(q, *s.split); q += 4; }
}
}
WV void wv_collect(const long* a, const B* p, const B* h, long* o, B* q) {
  using T = BSPTree<>;
  using Q = T::OutputPolygon;
  T tree;
  Fill(a, p, h, tree);
  CollectorVisitor<Q, Op> v(Op{a[0]});
  tree.Traverse(v, a[1]);
  std::deque<HalfSpace3> planes;
  std::vector<Q> r = v.TakePolygons(planes);
  *o++ = r.size();
  for (const Q& c : r) {
    Put(c, o, q);
    Side(c.on_node_plane, o, q);
    for (size_t i = 0; i < c.vertex_count(); ++i) {
      const auto& e = c.edge(i);
      Side(e.edge_created_by, o, q);
      Side(e.edge_first_coincident, o, q);
      Side(e.vertex_last_coincident, o, q);
      Side(e.edge_last_coincident, o, q);
    }
  }
}
template <class V> long Find(V& v, const void* x) {
  for (size_t i = 0; i < v.size(); ++i) if (&v[i] == x) return i;
  return -1;
}
WV void wv_connect(const long* a, const B* p, const B* h, long* o, B* q) {
  using T = BSPTree<>;
  Op op{a[0]};
  using V = ConnectingVisitor<Op>;
  T tree;
  Fill(a, p, h, tree);
  long errors = 0;
  V v(op, [&errors](const std::string&) { ++errors; });
  tree.Traverse(v, a[1]);
  v.FilterEmptyPolygons();
  std::vector<V::PolygonRep> r = v.TakePolygons();
  *o++ = errors;
  *o++ = r.size();
  for (auto& c : r) {
    Put(c, o, q);
    for (size_t i = 0; i < c.vertex_count(); ++i) {
      auto* m = c.edge(i).partner();
      *o++ = &c.edge(i).polygon() == &c;
      *o++ = m ? Find(r, &m->polygon()) : -1;
      *o++ = m ? (long)m->edge_index() : -1;
      *o++ = m ? m->partner() == &c.edge(i) : 0;
      const auto& e = c.edge(i);
      for (auto* x : {&e.edge_created_by, &e.edge_first_coincident, &e.vertex_last_coincident, &e.edge_last_coincident}) {
        long w[1], *wp = w;
        B z[4], *zp = z;
        Side(*x, wp, zp);
      }
    }
  }
}
// a: levels, then the path (0 negative, 1 positive).  b: minimum, maximum, denominator
template <class T> void Path(const long* a, const B* h, T& tree) {
  auto* n = &tree.root;
  for (int l = 0; l < a[0]; ++l) {
    n->Split(P(h + 4 * l));
    n = a[1 + l] ? n->positive_child() : n->negative_child();
  }
}
WV void wv_border(const long* a, const B* b, const B* h, long* o, B* q) {
  BSPTree<> tree;
  Path(a, h, tree);
  AABB box(b[0], b[1], b[2], b[3], b[4], b[5], b[6]);
  auto all = tree.GetNodeBorder(a + 1, a + 1 + a[0], box);
  std::vector<typename decltype(all)::value_type> r;
  // facets that were merged into others are left empty
  for (auto& c : all) if (c.vertex_count()) r.push_back(std::move(c));
  *o++ = r.size();
  for (auto& c : r) {
    Put(c, o, q);
    for (size_t i = 0; i < c.vertex_count(); ++i) {
      auto* m = c.edge(i).partner();
      *o++ = &c.edge(i).polygon() == &c;
      *o++ = m ? Find(r, &m->polygon()) : -1;
      *o++ = m ? (long)m->edge_index() : -1;
      *o++ = m ? m->partner() == &c.edge(i) : 0;
    }
  }
}
template <class Q> void PutPlain(const Q& c, long*& o, B*& q) {
  *o++ = 0; *o++ = c.vertex_count(); *o++ = c.drop_dimension();
  Out(q, c.plane()); q += 4;
  for (size_t i = 0; i < c.vertex_count(); ++i) { Out(q, c.vertex(i)); Out(q + 4, c.const_edge(i).line()); q += 10; }
}
WV void wv_borderopen(const long* a, const B* b, const B* h, long* o, B* q) {
  BSPTree<> tree;
  Path(a, h, tree);
  AABB box(b[0], b[1], b[2], b[3], b[4], b[5], b[6]);
  auto r = tree.GetNodeBorderNoBoundWalls(a + 1, a + 1 + a[0], box);
  *o++ = r.size();
  for (const auto& c : r) PutPlain(c, o, q);
}
WV void wv_section(const B* b, const B* h, long* o, B* q) {
  AABB box(b[0], b[1], b[2], b[3], b[4], b[5], b[6]);
  CP r = box.IntersectPlane(P(h));
  *o++ = r.vertex_count() != 0;
  if (r.vertex_count()) PutPlain(r, o, q);
}
WV void wv_walls(const B* b, long* o, B* q) {
  AABB box(b[0], b[1], b[2], b[3], b[4], b[5], b[6]);
  auto r = box.GetWalls();
  *o++ = r.size();
  for (const auto& c : r) PutPlain(c, o, q);
}
