// Entry points for the analyser: axis-aligned boxes.
#include "walnut/aabb.h"
using namespace walnut;
using B = BigInt;
#define WV extern "C" __attribute__((used, noinline))
#define BOX const B &a, const B &b, const B &c, const B &d, const B &e, const B &f, const B &g
static inline AABB X(BOX) { return AABB(a, b, c, d, e, f, g); }
#define XA X(a, b, c, d, e, f, g)
WV bool wv_in_e(BOX, const B& x, const B& y, const B& z) { return XA.IsInside(Point3(x, y, z)); }
WV bool wv_in_h(BOX, const B& x, const B& y, const B& z, const B& w) { return XA.IsInside(HomoPoint3(x, y, z, w)); }
WV bool wv_on_e(BOX, const B& x, const B& y, const B& z) { return XA.IsOnBorder(Point3(x, y, z)); }
WV bool wv_on_h(BOX, const B& x, const B& y, const B& z, const B& w) { return XA.IsOnBorder(HomoPoint3(x, y, z, w)); }
WV int wv_side(BOX, const B& x, const B& y, const B& z, const B& w) { return XA.GetPlaneSide(HalfSpace3(x, y, z, w)); }
WV bool wv_eq(BOX, const B& h, const B& i, const B& j, const B& k, const B& l, const B& m, const B& n) { return XA == X(h, i, j, k, l, m, n); }
WV bool wv_ne(BOX, const B& h, const B& i, const B& j, const B& k, const B& l, const B& m, const B& n) { return XA != X(h, i, j, k, l, m, n); }
static inline void Out(B* o, const HomoPoint3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.w(); }
WV void wv_corners(BOX, B* o) { AABB x(XA); Out(o, x.min_point()); Out(o + 4, x.max_point()); }
WV void wv_diag2(BOX, B* o) { o[0] = XA.GetSquaredDiagonalLengthNumerator(); }
WV double wv_diag(BOX) { return XA.GetDiagonalLength(); }
WV bool wv_empty_e(const B& x, const B& y, const B& z) { return AABB().IsInside(Point3(x, y, z)); }
WV bool wv_empty_h(const B& x, const B& y, const B& z, const B& w) { return AABB().IsInside(HomoPoint3(x, y, z, w)); }
WV bool wv_cube(int r, const B& x, const B& y, const B& z) { return AABB(r).IsInside(Point3(x, y, z)); }
WV bool wv_box_pp(const B& a, const B& b, const B& c, const B& d, const B& e, const B& f, const B& x, const B& y, const B& z) {
  return AABB(Point3(a, b, c), Point3(d, e, f)).IsInside(Point3(x, y, z)); }
WV int wv_walls(BOX, B* o) {
  std::vector<MutableConvexPolygon<>> w = XA.GetWalls();
  int n = 0;
  for (const auto& p : w) {
    o[0] = p.plane().x(); o[1] = p.plane().y(); o[2] = p.plane().z(); o[3] = p.plane().d();
    for (size_t i = 0; i < 4; ++i) Out(o + 4 + 4 * i, p.vertex(i));
    o += 20; ++n;
  }
  return n;
}
