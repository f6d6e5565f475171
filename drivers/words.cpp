// Entry points for the word-level analysis of the big integer classes.
#include <new>
#include "walnut/big_int.h"
using namespace walnut;
using B = BigInt;
#define WV extern "C" __attribute__((used, noinline))
WV void wv_add(const B& a, const B& b, B* o) { new (o) B(a + b); }
WV void wv_sub(const B& a, const B& b, B* o) { new (o) B(a - b); }
WV void wv_mul(const B& a, const B& b, B* o) { new (o) B(a * b); }
WV void wv_neg(const B& a, B* o) { new (o) B(-a); }
WV void wv_abs(const B& a, B* o) { new (o) B(a.abs()); }
WV bool wv_getabs(const B& a, B* o) { bool s; new (o) B(a.GetAbs(s)); return s; }
WV bool wv_uabs(const B& a, BigUInt* o) { bool s; new (o) BigUInt(a.GetUIntAbs(&s)); return s; }
WV void wv_inc(B& a) { ++a; }
WV void wv_dec(B& a) { --a; }
WV void wv_negate(B& a) { a.Negate(); }
WV void wv_addeq(B& a, const B& b) { a += b; }
WV void wv_subeq(B& a, const B& b) { a -= b; }
WV void wv_muleq(B& a, const B& b) { a *= b; }
WV void wv_addeqi(B& a, int b) { a += b; }
WV void wv_subeqi(B& a, int b) { a -= b; }
WV void wv_muleqi(B& a, int b) { a *= b; }
WV void wv_addi(const B& a, int b, B* o) { new (o) B(a + b); }
WV void wv_subi(const B& a, int b, B* o) { new (o) B(a - b); }
WV void wv_muli(const B& a, int b, B* o) { new (o) B(a * b); }
WV void wv_mulw(const B& a, BigIntWord b, B* o) { new (o) B(a * b); }
WV void wv_imul(int b, const B& a, B* o) { new (o) B(b * a); }
WV void wv_addmul(B& a, const B& b, const B& c) { a.AddMultiply(b, c); }
WV void wv_submul(B& a, const B& b, const B& c) { a.SubtractMultiply(b, c); }
WV void wv_det(const B& a, const B& b, const B& c, const B& d, B* o) { new (o) B(B::Determinant(a, b, c, d)); }
WV void wv_shl(const B& a, size_t s, B* o) { new (o) B(a << s); }
WV int wv_cmp(const B& a, const B& b) { return a.Compare(b); }
WV bool wv_lt(const B& a, const B& b) { return a < b; }
WV bool wv_le(const B& a, const B& b) { return a <= b; }
WV bool wv_gt(const B& a, const B& b) { return a > b; }
WV bool wv_ge(const B& a, const B& b) { return a >= b; }
WV bool wv_eq(const B& a, const B& b) { return a == b; }
WV bool wv_ne(const B& a, const B& b) { return a != b; }
WV bool wv_less(const B& a, bool f, const B& b) { return a.LessThan(f, b); }
WV bool wv_flip(const B& a, bool f, const B& b) { return B::FlippableCompare(f)(a, b); }
WV bool wv_lti(const B& a, int b) { return a < b; }
WV bool wv_lei(const B& a, int b) { return a <= b; }
WV bool wv_gti(const B& a, int b) { return a > b; }
WV bool wv_gei(const B& a, int b) { return a >= b; }
WV bool wv_eqi(const B& a, int b) { return a == b; }
WV bool wv_nei(const B& a, int b) { return a != b; }
WV BigIntWord wv_sign(const B& a) { return a.GetSign(); }
WV BigIntWord wv_signext(const B& a) { return a.SignExtension(); }
WV bool wv_zero(const B& a) { return a.IsZero(); }
WV bool wv_isneg(const B& a) { return a.IsNegative(); }
WV int wv_absmult(const B& a) { return a.GetAbsMult(); }
WV int wv_absmult2(const B& a, const B& b) { return a.GetAbsMult(b); }
WV bool wv_same(const B& a, const B& b) { return a.HasSameSign(b); }
WV bool wv_diff(const B& a, const B& b) { return a.HasDifferentSign(b); }
WV size_t wv_hash(const B& a) { return a.GetHash(); }
WV int wv_toint(const B& a) { return a.ToInt(); }
WV bool wv_half(const B& a) { return a.IsHalfWord(); }
WV void wv_fromi(int v, B* o) { new (o) B(v); }
WV void wv_fromw(BigIntWord v, B* o) { new (o) B(v); }
WV void wv_default(B* o) { new (o) B(); }
WV void wv_copy(const B& a, B* o) { new (o) B(a); }
WV void wv_move(B& a, B* o) { new (o) B(std::move(a)); }
WV void wv_assign(B& a, const B& b) { a = b; }
WV void wv_massign(B& a, B& b) { a = std::move(b); }
WV void wv_assignw(B& a, BigIntWord b) { a = b; }
WV void wv_swap(B& a, B& b) { std::swap(a, b); }
WV void wv_reuse(B& a, B& b, const B& c) { a = std::move(b); b = c; }
WV void wv_reuse2(B& a, const B& c) { B t(std::move(a)); a = c; }
WV void wv_dtor(B& a) { a.~B(); }
WV void wv_movedtor(B& a, B& b) { a = std::move(b); b.~B(); a.~B(); }
WV void wv_tmp(const B& a, const B& b) { B c(a + b); B d(c); c = d; d = a * b; d = std::move(c); }
WV void wv_fromu(const BigUInt& a, B* o) { new (o) B(a); }
WV void wv_assignu(B& b, const BigUInt& a) { b = a; }
WV void wv_max(size_t n, B* o) { new (o) B(B::max_value(n)); }
WV void wv_min(size_t n, B* o) { new (o) B(B::min_value(n)); }
WV void wv_div(const B& a, const B& b, B* o) { new (o) B(a / b); }
WV void wv_mod(const B& a, const B& b, B* o) { new (o) B(a % b); }
WV void wv_divrem(const B& a, const B& b, B* q, B* r) { new (q) B(a.DivideRemainder(b, r)); }
// --- unsigned helper
WV void wvu_shl(const BigUInt& a, size_t s, BigUInt* o) { new (o) BigUInt(a << s); }
WV void wvu_mul(const BigUInt& a, BigUIntWord w, BigUInt* o) { new (o) BigUInt(a.Multiply(w)); }
WV void wvu_sub(const BigUInt& a, const BigUInt& b, BigUInt* o) { new (o) BigUInt(a.Subtract(b)); }
WV void wvu_addsl(BigUInt& a, BigUIntWord w, size_t s) { a.AddLeftShifted(w, s); }
WV void wvu_subsl(BigUInt& a, const BigUInt& b, size_t s) { a.SubtractLeftShifted(b, s); }
WV void wvu_shrw(BigUInt& a) { a.ShiftRightWord(); }
WV bool wvu_ge(const BigUInt& a, const BigUInt& b) { return a >= b; }
WV void wvu_divrem(const BigUInt& a, const BigUInt& b, BigUInt* q, BigUInt* r) { new (q) BigUInt(a.DivideRemainder(b, r)); }
