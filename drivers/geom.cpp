// Entry points for the analyser.  This file is compiled to IR together with
// /repo's sources and is never linked or run: every wv_* function gives names
// to the inputs and outputs of one public operation.
#include <algorithm>
#include "walnut/half_space2.h"
#include "walnut/half_space2_sideless_compare.h"
#include "walnut/half_space3.h"
#include "walnut/homo_point2.h"
#include "walnut/homo_point3.h"
#include "walnut/plucker_line.h"
#include "walnut/point2.h"
#include "walnut/point3.h"
#include "walnut/rational.h"
#include "walnut/vector2.h"
#include "walnut/vector3.h"

using namespace walnut;
using B = BigInt;
#define WV extern "C" __attribute__((used, noinline))

static inline HalfSpace3 P3(const B& a, const B& b, const B& c, const B& d) { return HalfSpace3(a, b, c, d); }
static inline HomoPoint3 H3(const B& x, const B& y, const B& z, const B& w) { return HomoPoint3(x, y, z, w); }
static inline Point3 E3(const B& x, const B& y, const B& z) { return Point3(x, y, z); }
static inline Vector3 V3(const B& x, const B& y, const B& z) { return Vector3(x, y, z); }
static inline HalfSpace2 P2(const B& a, const B& b, const B& d) { return HalfSpace2(a, b, d); }
static inline HomoPoint2 H2(const B& x, const B& y, const B& w) { return HomoPoint2(x, y, w); }
static inline Point2 E2(const B& x, const B& y) { return Point2(x, y); }
static inline Vector2 V2(const B& x, const B& y) { return Vector2(x, y); }
static inline void Out(B* o, const HalfSpace3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.d(); }
static inline void Out(B* o, const HomoPoint3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); o[3] = h.w(); }
static inline void Out(B* o, const HomoPoint2& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.w(); }
static inline void Out(B* o, const HalfSpace2& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.d(); }
static inline void Out(B* o, const Vector3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); }
static inline void Out(B* o, const Vector2& h) { o[0] = h.x(); o[1] = h.y(); }
static inline void Out(B* o, const Point3& h) { o[0] = h.x(); o[1] = h.y(); o[2] = h.z(); }
static inline void Out(B* o, const PluckerLine& l) { Out(o, l.d()); Out(o + 3, l.m()); }

#define A4 const B &a, const B &b, const B &c, const B &d
#define X4 const B &x, const B &y, const B &z, const B &w
#define E4 const B &e, const B &f, const B &g, const B &h

// --- plane sides
WV int wv_hs3_side_h(A4, X4) { return P3(a, b, c, d).Compare(H3(x, y, z, w)); }
WV bool wv_hs3_on_h(A4, X4) { return P3(a, b, c, d).IsCoincident(H3(x, y, z, w)); }
WV int wv_hs3_side_e(A4, const B& x, const B& y, const B& z) { return P3(a, b, c, d).Compare(E3(x, y, z)); }
WV bool wv_hs3_on_e(A4, const B& x, const B& y, const B& z) { return P3(a, b, c, d).IsCoincident(E3(x, y, z)); }
WV int wv_hs2_side_h(const B& a, const B& b, const B& d, const B& x, const B& y, const B& w) { return P2(a, b, d).Compare(H2(x, y, w)); }
WV bool wv_hs2_on_h(const B& a, const B& b, const B& d, const B& x, const B& y, const B& w) { return P2(a, b, d).IsCoincident(H2(x, y, w)); }
WV int wv_hs2_side_e(const B& a, const B& b, const B& d, const B& x, const B& y) { return P2(a, b, d).Compare(E2(x, y)); }
WV bool wv_hs2_on_e(const B& a, const B& b, const B& d, const B& x, const B& y) { return P2(a, b, d).IsCoincident(E2(x, y)); }
WV int wv_hs3_side_par(A4, E4, int dim) { return P3(a, b, c, d).Compare(P3(e, f, g, h), dim); }
WV bool wv_hs3_valid(A4) { return P3(a, b, c, d).IsValid(); }
WV bool wv_hs2_valid(const B& a, const B& b, const B& d) { return P2(a, b, d).IsValid(); }
WV void wv_hs3_neg(A4, B* o) { Out(o, -P3(a, b, c, d)); }
WV void wv_hs3_negate(A4, B* o) { HalfSpace3 p = P3(a, b, c, d); p.Negate(); Out(o, p); }
WV void wv_hs2_neg(const B& a, const B& b, const B& d, B* o) { Out(o, -P2(a, b, d)); }
WV void wv_hs2_negate(const B& a, const B& b, const B& d, B* o) { HalfSpace2 p = P2(a, b, d); p.Negate(); Out(o, p); }
WV void wv_hs2_scale(const B& a, const B& b, const B& d, int s, B* o) { Out(o, P2(a, b, d) * s); }
WV void wv_hs3_axis(int dim, const B& n, const B& d, B* o) { Out(o, HalfSpace3::GetAxisAligned(dim, n, d)); }
WV void wv_hs3_extrude2(const B& a, const B& b, const B& d, int dim, B* o) { Out(o, HalfSpace3(P2(a, b, d), dim)); }
WV void wv_hs3_reduce(A4, B* o) { HalfSpace3 p = P3(a, b, c, d); p.Reduce(); Out(o, p); }

// --- planes through points
WV void wv_hs3_3h(X4, A4, E4, B* o) { Out(o, HalfSpace3(H3(x, y, z, w), H3(a, b, c, d), H3(e, f, g, h))); }
WV void wv_hs3_3e(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c, const B& e, const B& f, const B& g, B* o) { Out(o, HalfSpace3(E3(x, y, z), E3(a, b, c), E3(e, f, g))); }
WV void wv_hs3_np(const B& a, const B& b, const B& c, X4, B* o) { Out(o, HalfSpace3(V3(a, b, c), H3(x, y, z, w))); }
WV void wv_hs2_2e(const B& a, const B& b, const B& x, const B& y, B* o) { Out(o, HalfSpace2(E2(a, b), E2(x, y))); }
WV void wv_hs3_project(A4, const B& x, const B& y, const B& w, int dim, B* o) { Out(o, P3(a, b, c, d).ProjectOntoPlane(H2(x, y, w), dim)); }

// --- plane equality and order
WV bool wv_hs3_eq(A4, E4) { return P3(a, b, c, d) == P3(e, f, g, h); }
WV bool wv_hs3_ne(A4, E4) { return P3(a, b, c, d) != P3(e, f, g, h); }
WV bool wv_hs3_sameopp(A4, E4) { return P3(a, b, c, d).IsSameOrOpposite(P3(e, f, g, h)); }
WV bool wv_hs3_cmp(A4, E4) { return HalfSpace3Compare()(P3(a, b, c, d), P3(e, f, g, h)); }
WV bool wv_hs2_eq(const B& a, const B& b, const B& d, const B& e, const B& f, const B& h) { return P2(a, b, d) == P2(e, f, h); }
WV bool wv_hs2_ne(const B& a, const B& b, const B& d, const B& e, const B& f, const B& h) { return P2(a, b, d) != P2(e, f, h); }
WV bool wv_hs2_sameline(const B& a, const B& b, const B& d, const B& e, const B& f, const B& h) { return P2(a, b, d).HasSameLine(P2(e, f, h)); }
WV bool wv_hs2_sideless(const B& a, const B& b, const B& d, const B& e, const B& f, const B& h) { return HalfSpace2SidelessCompare()(P2(a, b, d), P2(e, f, h)); }

// --- points
WV bool wv_hp3_eq(X4, A4) { return H3(x, y, z, w) == H3(a, b, c, d); }
WV bool wv_hp3_ne(X4, A4) { return H3(x, y, z, w) != H3(a, b, c, d); }
WV bool wv_hp3_eq_e(X4, const B& a, const B& b, const B& c) { return H3(x, y, z, w) == E3(a, b, c); }
WV bool wv_hp3_ne_e(X4, const B& a, const B& b, const B& c) { return H3(x, y, z, w) != E3(a, b, c); }
WV bool wv_e_eq_hp3(X4, const B& a, const B& b, const B& c) { return E3(a, b, c) == H3(x, y, z, w); }
WV bool wv_hp2_eq(const B& x, const B& y, const B& w, const B& a, const B& b, const B& d) { return H2(x, y, w) == H2(a, b, d); }
WV bool wv_hp2_ne(const B& x, const B& y, const B& w, const B& a, const B& b, const B& d) { return H2(x, y, w) != H2(a, b, d); }
WV bool wv_hp2_eq_e(const B& x, const B& y, const B& w, const B& a, const B& b) { return H2(x, y, w) == E2(a, b); }
WV bool wv_hp2_ne_e(const B& x, const B& y, const B& w, const B& a, const B& b) { return H2(x, y, w) != E2(a, b); }
WV bool wv_e_eq_hp2(const B& x, const B& y, const B& w, const B& a, const B& b) { return E2(a, b) == H2(x, y, w); }
WV bool wv_hp3_lex(X4, A4) { return HomoPoint3::LexicographicallyLt(H3(x, y, z, w), H3(a, b, c, d)); }
WV bool wv_hp3_lexm(X4, A4) { return H3(x, y, z, w).LexicographicallyLt(H3(a, b, c, d)); }
WV bool wv_hp3_top(X4, A4) { return HomoPoint3::TopnessLt(H3(x, y, z, w), H3(a, b, c, d)); }
WV bool wv_hp2_lex(const B& x, const B& y, const B& w, const B& a, const B& b, const B& d) { return HomoPoint2::LexicographicallyLt(H2(x, y, w), H2(a, b, d)); }
WV int wv_hp3_cmpc(X4, A4, size_t i) { return H3(x, y, z, w).CompareComponent(i, H3(a, b, c, d)); }
WV bool wv_hp3_ltc(X4, A4, size_t i) { return H3(x, y, z, w).IsLessThanComponent(i, H3(a, b, c, d)); }
WV bool wv_hp3_eqc(X4, A4, size_t i) { return H3(x, y, z, w).IsEquivalentComponent(i, H3(a, b, c, d)); }
WV void wv_hp3_diff(X4, A4, B* o) { B den; Vector3 v = H3(x, y, z, w).Difference(H3(a, b, c, d), den); Out(o, v); o[3] = den; }
WV void wv_hp3_add(X4, A4, B* o) { Out(o, H3(x, y, z, w).AddOffset(V3(a, b, c), d)); }
WV void wv_hp3_reduce(X4, B* o) { HomoPoint3 p = H3(x, y, z, w); p.Reduce(); Out(o, p); }
WV void wv_hp3_drop(X4, int dim, B* o) { Out(o, H3(x, y, z, w).DropDimension(dim)); }
WV bool wv_hp3_valid(X4) { return H3(x, y, z, w).IsValid(); }
WV void wv_hp3_double(X4, double* o) { DoublePoint3 p = H3(x, y, z, w).GetDoublePoint3(); o[0] = p.x; o[1] = p.y; o[2] = p.z; }
WV bool wv_hp3_stricteq(X4, A4) { return HomoPoint3StrictEq()(H3(x, y, z, w), H3(a, b, c, d)); }
WV size_t wv_hp3_hash(X4) { return ReducedHomoPoint3Hasher()(H3(x, y, z, w)); }
WV bool wv_e3_eq(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c) { return E3(x, y, z) == E3(a, b, c); }
WV bool wv_e3_ne(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c) { return E3(x, y, z) != E3(a, b, c); }
WV bool wv_e2_eq(const B& x, const B& y, const B& a, const B& b) { return E2(x, y) == E2(a, b); }
WV bool wv_e3_lex(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c) { return Point3::LexicographicallyLt(E3(x, y, z), E3(a, b, c)); }

// --- orientation
WV int wv_hp3_twist(int dim, X4, A4, E4) { BigIntWord t = H3(x, y, z, w).Get2DTwistDir(dim, H3(a, b, c, d), H3(e, f, g, h)); return t > 0 ? 1 : t < 0 ? -1 : 0; }
WV int wv_hp3_twistr(int dim, X4, A4, E4) { return H3(x, y, z, w).Get2DTwistDirReduced(dim, H3(a, b, c, d), H3(e, f, g, h)); }
WV int wv_e3_twist(int dim, const B& x, const B& y, const B& z, const B& a, const B& b, const B& c, const B& e, const B& f, const B& g) { auto t = E3(x, y, z).Get2DTwistDir(dim, E3(a, b, c), E3(e, f, g)); return t > 0 ? 1 : t < 0 ? -1 : 0; }
WV int wv_e2_twist(const B& x, const B& y, const B& a, const B& b, const B& e, const B& f) { auto t = E2(x, y).GetTwistDir(E2(a, b), E2(e, f)); return t > 0 ? 1 : t < 0 ? -1 : 0; }
WV bool wv_v2_rot(const B& x, const B& y, const B& a, const B& b) { return V2(x, y).IsRotationLessThan(V2(a, b)); }
WV bool wv_v2_rotc(const B& x, const B& y, const B& a, const B& b) { return Vector2::RotationCompare()(V2(x, y), V2(a, b)); }
WV bool wv_v2_half(const B& x, const B& y, const B& a, const B& b) { return V2(x, y).IsHalfRotationLessThan(V2(a, b)); }
WV bool wv_v2_halfc(const B& x, const B& y, const B& a, const B& b) { return Vector2::HalfRotationCompare()(V2(x, y), V2(a, b)); }
WV bool wv_v2_samedir(const B& x, const B& y, const B& a, const B& b) { return V2(x, y).IsSameDir(V2(a, b)); }
WV bool wv_v2_sameopp(const B& x, const B& y, const B& a, const B& b) { return V2(x, y).IsSameOrOppositeDir(V2(a, b)); }
WV bool wv_v3_samedir(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c) { return V3(x, y, z).IsSameDir(V3(a, b, c)); }
WV bool wv_v3_sameopp(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c) { return V3(x, y, z).IsSameOrOppositeDir(V3(a, b, c)); }

// --- vectors
WV void wv_v3_cross(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c, B* o) { Out(o, V3(x, y, z).Cross(V3(a, b, c))); }
WV void wv_v3_dot(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c, B* o) { o[0] = V3(x, y, z).Dot(V3(a, b, c)); }
WV void wv_v3_add(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c, B* o) { Out(o, V3(x, y, z) + V3(a, b, c)); }
WV void wv_v3_sub(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c, B* o) { Out(o, V3(x, y, z) - V3(a, b, c)); }
WV void wv_v3_scale(const B& x, const B& y, const B& z, const B& s, B* o) { Out(o, V3(x, y, z).Scale(s)); }
WV void wv_v3_neg(const B& x, const B& y, const B& z, B* o) { Out(o, -V3(x, y, z)); }
WV void wv_v3_negate(const B& x, const B& y, const B& z, B* o) { Vector3 v = V3(x, y, z); v.Negate(); Out(o, v); }
WV bool wv_v3_iszero(const B& x, const B& y, const B& z) { return V3(x, y, z).IsZero(); }
WV bool wv_v3_eq(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c) { return V3(x, y, z) == V3(a, b, c); }
WV void wv_v3_scalesq(const B& x, const B& y, const B& z, B* o) { o[0] = V3(x, y, z).GetScaleSquared(); }
WV void wv_v3_drop(const B& x, const B& y, const B& z, int dim, B* o) { Out(o, V3(x, y, z).DropDimension(dim)); }
WV void wv_v3_reduce(const B& x, const B& y, const B& z, B* o) { Vector3 v = V3(x, y, z); v.Reduce(); Out(o, v); }
WV void wv_v2_cross(const B& x, const B& y, const B& a, const B& b, B* o) { o[0] = V2(x, y).Cross(V2(a, b)); }
WV void wv_v2_dot(const B& x, const B& y, const B& a, const B& b, B* o) { o[0] = V2(x, y).Dot(V2(a, b)); }
WV void wv_v2_perp(const B& x, const B& y, B* o) { Out(o, V2(x, y).GetPerpendicular()); }
WV void wv_v2_sub(const B& x, const B& y, const B& a, const B& b, B* o) { Out(o, V2(x, y) - V2(a, b)); }
WV void wv_v2_neg(const B& x, const B& y, B* o) { Out(o, -V2(x, y)); }
WV bool wv_v2_iszero(const B& x, const B& y) { return V2(x, y).IsZero(); }
WV bool wv_v2_eq(const B& x, const B& y, const B& a, const B& b) { return V2(x, y) == V2(a, b); }
WV void wv_v2_scalesq(const B& x, const B& y, B* o) { o[0] = V2(x, y).GetScaleSquared(); }

// --- lines
WV void wv_pl_2h(X4, A4, B* o) { Out(o, PluckerLine(H3(x, y, z, w), H3(a, b, c, d))); }
WV void wv_pl_2e(const B& x, const B& y, const B& z, const B& a, const B& b, const B& c, B* o) { Out(o, PluckerLine(E3(x, y, z), E3(a, b, c))); }
WV void wv_pl_2p(A4, E4, B* o) { Out(o, PluckerLine(P3(a, b, c, d), P3(e, f, g, h))); }
WV void wv_pl_meet(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2, A4, B* o) { Out(o, PluckerLine(V3(d0, d1, d2), V3(m0, m1, m2)).Intersect(P3(a, b, c, d))); }
WV void wv_pl_proj(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2, int dim, B* o) { Out(o, PluckerLine(V3(d0, d1, d2), V3(m0, m1, m2)).Project2D(dim)); }
WV bool wv_pl_on_h(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2, X4) { return PluckerLine(V3(d0, d1, d2), V3(m0, m1, m2)).IsCoincident(H3(x, y, z, w)); }
WV bool wv_pl_on_e(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2, const B& x, const B& y, const B& z) { return PluckerLine(V3(d0, d1, d2), V3(m0, m1, m2)).IsCoincident(E3(x, y, z)); }
WV bool wv_pl_on_p(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2, A4) { return PluckerLine(V3(d0, d1, d2), V3(m0, m1, m2)).IsCoincident(P3(a, b, c, d)); }
WV bool wv_pl_eq(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2, const B& e0, const B& e1, const B& e2, const B& n0, const B& n1, const B& n2) { return PluckerLine(V3(d0, d1, d2), V3(m0, m1, m2)) == PluckerLine(V3(e0, e1, e2), V3(n0, n1, n2)); }
WV bool wv_pl_ne(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2, const B& e0, const B& e1, const B& e2, const B& n0, const B& n1, const B& n2) { return PluckerLine(V3(d0, d1, d2), V3(m0, m1, m2)) != PluckerLine(V3(e0, e1, e2), V3(n0, n1, n2)); }
WV void wv_pl_neg(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2, B* o) { Out(o, -PluckerLine(V3(d0, d1, d2), V3(m0, m1, m2))); }
WV void wv_pl_negate(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2, B* o) { PluckerLine l(V3(d0, d1, d2), V3(m0, m1, m2)); l.Negate(); Out(o, l); }
WV void wv_pl_reduce(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2, B* o) { PluckerLine l(V3(d0, d1, d2), V3(m0, m1, m2)); l.Reduce(); Out(o, l); }
WV bool wv_pl_valid(const B& d0, const B& d1, const B& d2, const B& m0, const B& m1, const B& m2) { return PluckerLine(V3(d0, d1, d2), V3(m0, m1, m2)).IsValid(); }

// --- rationals
WV bool wv_rat_lt(const B& a, const B& b, const B& c, const B& d) { return rational::IsLessThan(a, b, c, d); }
WV bool wv_rat_eq(const B& a, const B& b, const B& c, const B& d) { return rational::Equals(a, b, c, d); }
WV void wv_rat_up(const B& a, const B& b, const B& c, B* o) { o[0] = rational::RoundUp(a, b, c); }
WV void wv_rat_down(const B& a, const B& b, const B& c, B* o) { o[0] = rational::RoundDown(a, b, c); }
WV int wv_e3_twistr(int dim, const B& x, const B& y, const B& z, const B& a, const B& b, const B& c, const B& e, const B& f, const B& g) { return E3(x, y, z).Get2DTwistDirReduced(dim, E3(a, b, c), E3(e, f, g)); }
#include "walnut/r_transformation.h"
WV int wv_rxy(const B& a, const B& b, const B& c, const B& d, const B& e, const B& f) { return RXYCompareBivector(V3(a, b, c), V3(d, e, f)); }
WV int wv_rxyside(const B& a, const B& b, const B& c, const B& d, const B& e, const B& f, const B& g, bool pos) {
  HalfSpace3 h = P3(d, e, f, g);
  return RXYCompareBivector(V3(a, b, c), SplitSide{&h, pos}); }
WV void wv_rtrans(const B& x, const B& y, const B& z, const B& w, const B& k, B* o) { Out(o, RTransform(H3(x, y, z, w), k)); }
