// Entry point for the analyser: histories of deeds and their targets.
#include <cstddef>
#include <new>
#include <type_traits>
#include <utility>
#include "walnut/deed.h"
using namespace walnut;
#define WV extern "C" __attribute__((used, noinline))
namespace {
struct Base { long pad = 7; };
struct T : public Base, public DeedTarget {
  T() = default;
  T(const T&) = default;
  T(T&&) = default;
  T& operator=(const T&) = default;
  T& operator=(T&&) = default;
};
using D = Deed<T>;
constexpr int NT = 4, ND = 5;
struct Room {
  std::aligned_storage<sizeof(T), alignof(T)>::type t[NT];
  std::aligned_storage<sizeof(D), alignof(D)>::type d[ND];
  bool lt[NT], ld[ND];
  T* T_(int i) { return reinterpret_cast<T*>(&t[i]); }
  D* D_(int i) { return reinterpret_cast<D*>(&d[i]); }
};
void Report(Room& r, long*& o) {
  for (int i = 0; i < ND; ++i) {
    if (!r.ld[i]) { *o++ = -9; continue; }
    D& d = *r.D_(i);
    if (d.is_lender()) { *o++ = -2; continue; }
    long k = -1;
    for (int j = 0; j < NT; ++j) if (d.get() == r.T_(j)) k = r.lt[j] ? j : -3;
    if (d.get() != nullptr && k < 0) k = -4;
    if (d.empty() != (k == -1) || (d == nullptr) != (k == -1) || (d != nullptr) != (k != -1) || (bool)d != (k != -1)) k = -5;
    if (k >= 0 && (&*d != d.get() || d->pad != 7)) k = -6;
    *o++ = k;
  }
}
}
// a: number of histories; each: number of steps, then (operation, i, j) per step
WV void wv_deed(const long* a, long* o) {
  long n = *a++;
  while (n-- > 0) {
    Room r;
    for (int i = 0; i < NT; ++i) r.lt[i] = false;
    for (int i = 0; i < ND; ++i) r.ld[i] = false;
    long steps = *a++;
    for (; steps > 0; --steps, a += 3) {
      int i = a[1], j = a[2];
      switch (a[0]) {
        case 0: new (r.T_(i)) T(); r.lt[i] = true; break;
        case 1: new (r.T_(i)) T(*r.T_(j)); r.lt[i] = true; break;
        case 2: new (r.T_(i)) T(std::move(*r.T_(j))); r.lt[i] = true; break;
        case 3: *r.T_(i) = std::move(*r.T_(j)); break;
        case 4: *r.T_(i) = *r.T_(j); break;
        case 5: r.T_(i)->~T(); r.lt[i] = false; break;
        case 10: new (r.D_(i)) D(); r.ld[i] = true; break;
        case 11: new (r.D_(i)) D(r.T_(j)); r.ld[i] = true; break;
        case 12: new (r.D_(i)) D(std::move(*r.D_(j))); r.ld[i] = true; break;
        case 13: *r.D_(i) = std::move(*r.D_(j)); break;
        case 14: r.D_(i)->swap(*r.D_(j)); break;
        case 15: new (r.D_(i)) D(r.D_(j)->Lend()); r.ld[i] = true; break;
        case 16: r.D_(i)->Return(); break;
        case 17: r.D_(i)->~D(); r.ld[i] = false; break;
        case 18: new (r.D_(i)) D(static_cast<T*>(nullptr)); r.ld[i] = true; break;
        default: Report(r, o);
      }
    }
  }
}
