// Monoid laws of every built-in monoid, for all values of every arithmetic type.
#include <parlay/monoid.h>
#include "common.h"
extern "C" { void gh_left(bool); void gh_right(bool); void gh_named(bool); void gh_assoc(bool); void gh_id(bool); }
namespace {
template <class M> struct Call { M m; template <class A, class B> auto operator()(A a, B b) const { return m(a, b); } };
template <class M> struct CallF { M m; template <class A, class B> auto operator()(A a, B b) const { return m.f(a, b); } };
template <class T> bool same(T x, T y) { return x == y || (x != x && y != y); }
// T: the value type; R: the named operation, written down independently
template <class T, class C, class Id, class R> inline __attribute__((always_inline)) void laws(C c, Id id, R ref, T a, T b, T d, bool assoc) {
  gh_left((T)c(T(id), a) == a); gh_right((T)c(a, T(id)) == a);
  gh_named(same<T>((T)c(a, b), (T)ref(a, b)));
  if (assoc) gh_assoc((T)c((T)c(a, b), d) == (T)c(a, (T)c(b, d)));
}
template <class T> struct UT { using type = std::make_unsigned_t<T>; };
template <> struct UT<bool> { using type = bool; };
template <class T, bool F = std::is_floating_point_v<T>> struct Ref {
  using U = unsigned long;
  static T add(T a, T b) { return (T)(U)((U)a + (U)b); }
  static T mul(T a, T b) { return (T)(U)((U)a * (U)b); }
};
template <class T> struct Ref<T, true> { static T add(T a, T b) { return a + b; } static T mul(T a, T b) { return a * b; } };
template <class T> T mx(T a, T b) { return a < b ? b : a; }
template <class T> T mn(T a, T b) { return b < a ? b : a; }
}
#define LAW(name, tag, T, M, R, assoc) extern "C" void vc_##name##_##tag(T a, T b, T d) { M m; laws<T>(Call<M>{m}, m.identity, [](T x, T y) -> T { return R; }, a, b, d, assoc); }
#define LAWF(name, tag, T, M, R, assoc) extern "C" void vc_##name##_##tag(T a, T b, T d) { M m; laws<T>(CallF<M>{m}, m.identity, [](T x, T y) -> T { return R; }, a, b, d, assoc); }
using namespace parlay;
#define PAIRS(name, M, tag, T, sec_) \
  extern "C" void vc_##name##_##tag(T a, T b, T c, T d) { using P = std::pair<T, T>; M<P> m; P p(a, b), q(c, d); \
    gh_left(M<P>::f(m.identity, p) == p); gh_right(M<P>::f(p, m.identity) == p); P s = M<P>::f(p, q); P ex = (sec_) ? q : p; gh_named(s == ex); } \
  extern "C" void vc_##name##a_##tag(T a, T b, T c, T d, T e, T f) { using P = std::pair<T, T>; P p(a, b), q(c, d), r(e, f); \
    P x = M<P>::f(M<P>::f(p, q), r), y = M<P>::f(p, M<P>::f(q, r)); gh_assoc(x == y); }
#define ARITH(tag, T, assoc) \
  LAW(plus, tag, T, plus<T>, Ref<T>::add(x, y), assoc) LAWF(addm, tag, T, addm<T>, Ref<T>::add(x, y), assoc) \
  LAW(multiplies, tag, T, multiplies<T>, Ref<T>::mul(x, y), assoc) \
  LAW(maximum, tag, T, maximum<T>, mx<T>(x, y), true) LAW(minimum, tag, T, minimum<T>, mn<T>(x, y), true) \
  LAWF(maxm, tag, T, maxm<T>, mx<T>(x, y), true) LAWF(minm, tag, T, minm<T>, mn<T>(x, y), true) \
  extern "C" void vc_minmaxm_##tag(T a, T b, T c, T d) { minmaxm<T> m; using P = std::pair<T, T>; P p(a, b), q(c, d); \
    gh_left(minmaxm<T>::f(m.identity, p) == p); gh_right(minmaxm<T>::f(p, m.identity) == p); P r = minmaxm<T>::f(p, q); gh_named(r.first == mn<T>(a, c) && r.second == mx<T>(b, d)); } \
  PAIRS(pairmax, maxm, tag, T, a < c || (a == c && b < d)) PAIRS(pairmin, minm, tag, T, c < a || (c == a && d < b)) \
  extern "C" void vc_pairmon_##tag(T a, T b, T c, T d) { auto m = pair_monoid(maxm<T>(), minm<T>()); using P = std::pair<T, T>; P p(a, b), q(c, d); \
    gh_left(m(m.identity, p) == p); gh_right(m(p, m.identity) == p); P r = m(p, q); gh_named(r.first == mx<T>(a, c) && r.second == mn<T>(b, d)); } \
  extern "C" void vc_arraymon_##tag(T a, T b, T c, T d) { auto m = array_monoid<maxm<T>, 2>(maxm<T>()); std::array<T, 2> p{a, b}, q{c, d}; \
    auto l = m(m.identity, p), s = m(p, m.identity), r = m(p, q); gh_left(l[0] == a && l[1] == b); gh_right(s[0] == a && s[1] == b); gh_named(r[0] == mx<T>(a, c) && r[1] == mx<T>(b, d)); }
#define INTEGRAL(tag, T) \
  LAW(bit_or, tag, T, bit_or<T>, (T)(x | y), true) LAW(bit_and, tag, T, bit_and<T>, (T)(x & y), true) LAW(bit_xor, tag, T, bit_xor<T>, (T)(x ^ y), true) LAWF(xorm, tag, T, xorm<T>, (T)(x ^ y), true) \
  extern "C" void vc_logical_##tag(T a, T b, T d) { logical_and<T> m; logical_or<T> o; \
    gh_left((bool)m(m.identity, a) == (bool)a); gh_right((bool)m(a, m.identity) == (bool)a); gh_left((bool)o(o.identity, a) == (bool)a); gh_right((bool)o(a, o.identity) == (bool)a); \
    gh_named((bool)m(a, b) == (a && b)); gh_named((bool)o(a, b) == (a || b)); gh_assoc((bool)m((T)m(a, b), d) == (bool)m(a, (T)m(b, d))); gh_assoc((bool)o((T)o(a, b), d) == (bool)o(a, (T)o(b, d))); }
ARITH(i8, signed char, true) ARITH(u8, unsigned char, true) ARITH(i16, short, true) ARITH(u16, unsigned short, true) ARITH(i32, int, true) ARITH(u32, unsigned, true) ARITH(i64, long, true) ARITH(u64, unsigned long, true) ARITH(i64l, long long, true) ARITH(u64l, unsigned long long, true) ARITH(c8, char, true)
ARITH(f32, float, false) ARITH(f64, double, false)
INTEGRAL(i8, signed char) INTEGRAL(u8, unsigned char) INTEGRAL(i16, short) INTEGRAL(u16, unsigned short) INTEGRAL(i32, int) INTEGRAL(u32, unsigned) INTEGRAL(i64, long) INTEGRAL(u64, unsigned long) INTEGRAL(i64l, long long) INTEGRAL(u64l, unsigned long long) INTEGRAL(c8, char) INTEGRAL(bool, bool)
// the factory functions hand on the given operation and identity unchanged
extern "C" void vc_factory(u64 a, u64 b, u64 id) {
  auto m = binary_op([](u64 x, u64 y) { return uf_op(x, y); }, id); gh_id(m.identity == id); gh_named(m(a, b) == uf_op(a, b));
  auto k = make_monoid([](u64 x, u64 y) { return uf_op(x, y); }, id); gh_id(k.identity == id); gh_named(k(a, b) == uf_op(a, b)); gh_named(k.operator()(a, b) == uf_op(a, b));
}
static u64 fp(u64 x, u64 y) { return uf_op(x, y); }
struct Legacy { using T = u64; u64 identity; static u64 f(u64 x, u64 y) { return uf_op(x, y); } };
extern "C" void vc_factory_pointer(u64 a, u64 b, u64 id) { auto m = binary_op(&fp, id); gh_id(m.identity == id); gh_named(m(a, b) == uf_op(a, b)); auto k = make_monoid(&fp, id); gh_id(k.identity == id); gh_named(k(a, b) == uf_op(a, b)); }
extern "C" void vc_factory_explicit(u64 a, u64 b, u64 id) {
  gh_id(plus<u64>(id).identity == id); gh_id(multiplies<u64>(id).identity == id); gh_id(maximum<u64>(id).identity == id); gh_id(minimum<u64>(id).identity == id);
  gh_id(bit_or<u64>(id).identity == id); gh_id(bit_and<u64>(id).identity == id); gh_id(bit_xor<u64>(id).identity == id); gh_id(logical_and<u64>(id).identity == id); gh_id(logical_or<u64>(id).identity == id);
}
extern "C" void vc_factory_legacy(u64 a, u64 b, u64 id) { Legacy l; l.identity = id; legacy_monoid_adapter<Legacy> m(l); gh_id(m.identity == id); gh_named(m(a, b) == uf_op(a, b)); const auto& cm = m; gh_named(cm(a, b) == uf_op(a, b)); }
