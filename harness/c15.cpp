#include "h.h"
#include <parlay/monoid.h>
#include <parlay/primitives.h>
template <class T> static bool eq(T a, T b) { if constexpr (std::is_floating_point_v<T>) return a == b || (a != a && b != b); else return a == b; }
template <class A, class B> static bool eq(std::pair<A, B> a, std::pair<A, B> b) { return eq(a.first, b.first) && eq(a.second, b.second); }
template <class T> static std::vector<T> values(Rng& g, int n) {
  using L = std::numeric_limits<T>; std::vector<T> v{T(0), T(1), T(2), T(3), L::max(), L::lowest(), L::min(), T(L::max() - 1), T(L::lowest() + 1), T(5), T(100)};
  if constexpr (std::is_signed_v<T>) { v.push_back(T(-1)); v.push_back(T(-2)); v.push_back(T(-100)); }
  if constexpr (L::has_infinity) { v.push_back(L::infinity()); v.push_back(-L::infinity()); v.push_back(L::denorm_min()); v.push_back(T(0.5)); v.push_back(T(-0.25)); }
  for (int i = 0; i < n; i++) { if constexpr (std::is_floating_point_v<T>) v.push_back(T((i64)(g.next() >> g.below(64))) / T(1 + g.below(1000))); else v.push_back(T(g.next() >> g.below(64))); }
  return v;
}
static std::string sv(double x) { char b[40]; snprintf(b, 40, "%g", x); return b; }
template <class T> static std::string tx(T x) { if constexpr (std::is_floating_point_v<T>) return sv(x); else return std::to_string(x); }
template <class A, class B> static std::string tx(std::pair<A, B> x) { return "(" + tx(x.first) + "," + tx(x.second) + ")"; }
template <class T, class M, class Ref> static void laws(const char* name, M m, Ref ref, const std::vector<T>& vs, bool assoc) {
  auto id = m.identity;
  for (auto& a : vs) { begin("%s<%zu bytes%s%s> identity with %s", name, sizeof(T), std::is_floating_point_v<T> ? " float" : "", std::is_signed_v<T> ? " signed" : "", tx(a).c_str()); T l = (T)m(id, a), r = (T)m(a, id); CHECK(eq<T>(l, a), "m(identity, a) is %s", tx(l).c_str()); CHECK(eq<T>(r, a), "m(a, identity) is %s", tx(r).c_str()); }
  for (auto& a : vs) for (auto& b : vs) { T x = (T)m(a, b), y = ref(a, b); if (!eq<T>(x, y)) { begin("%s %s %s", name, tx(a).c_str(), tx(b).c_str()); fail("%s gave %s, expected %s", name, tx(x).c_str(), tx(y).c_str()); } }
  if (assoc) for (auto& a : vs) for (auto& b : vs) for (auto& c : vs) { T x = (T)m((T)m(a, b), c), y = (T)m(a, (T)m(b, c)); if (!eq<T>(x, y)) { begin("%s %s %s %s", name, tx(a).c_str(), tx(b).c_str(), tx(c).c_str()); fail("%s is not associative", name); } }
  ncases += vs.size() * vs.size() * vs.size();
}
template <class M> struct L { M m; decltype(m.identity) identity; L(M x) : m(x), identity(m.identity) {} template <class A, class B> auto operator()(A a, B b) const { return m.f(a, b); } };
template <class M> static auto call(M m) { return m; }
// arithmetic of wide values would overflow in int; keep signed addition and multiplication in range of the type
template <class T> static void type(Rng& g) {
  auto vs = values<T>(g, 12); constexpr bool F = std::is_floating_point_v<T>;
  std::vector<T> sm{T(0), T(1), T(2), T(3), T(5), T(7)}; if (std::is_signed_v<T>) { sm.push_back(T(-1)); sm.push_back(T(-3)); } if (!F && !std::is_signed_v<T>) sm = vs;
  laws<T>("plus", parlay::plus<T>(), [](T a, T b) { return T(a + b); }, sm, true);
  laws<T>("addm", L<parlay::addm<T>>(parlay::addm<T>()), [](T a, T b) { return T(a + b); }, sm, true);
  if (sizeof(T) != 2 || std::is_signed_v<T>) laws<T>("multiplies", parlay::multiplies<T>(), [](T a, T b) { return T(a * b); }, sm, true);
  laws<T>("maximum", parlay::maximum<T>(), [](T a, T b) { return a < b ? b : a; }, vs, true);
  laws<T>("minimum", parlay::minimum<T>(), [](T a, T b) { return b < a ? b : a; }, vs, true);
  laws<T>("maxm", L<parlay::maxm<T>>(parlay::maxm<T>()), [](T a, T b) { return a < b ? b : a; }, vs, true);
  laws<T>("minm", L<parlay::minm<T>>(parlay::minm<T>()), [](T a, T b) { return b < a ? b : a; }, vs, true);
  // identities alone for all values
  for (auto a : vs) { begin("plus identity %s", tx(a).c_str()); CHECK(eq<T>(T(parlay::plus<T>()(parlay::plus<T>().identity, a)), a) && eq<T>(T(parlay::multiplies<T>()(a, parlay::multiplies<T>().identity)), a), "identity of plus or multiplies"); }
  using Q = std::pair<T, T>; std::vector<Q> ps; for (auto a : vs) ps.push_back({a, a}); for (size_t i = 0; i + 1 < vs.size(); i++) ps.push_back({std::min(vs[i], vs[i + 1]), std::max(vs[i], vs[i + 1])});
  laws<Q>("minmaxm", L<parlay::minmaxm<T>>(parlay::minmaxm<T>()), [](Q a, Q b) { return Q(std::min(a.first, b.first), std::max(a.second, b.second)); }, ps, true);
  std::vector<Q> pp; for (size_t i = 0; i < vs.size(); i++) pp.push_back({vs[i], vs[(i * 7 + 3) % vs.size()]});
  laws<Q>("maxm of pairs", L<parlay::maxm<Q>>(parlay::maxm<Q>()), [](Q a, Q b) { return a < b ? b : a; }, pp, true);
  laws<Q>("minm of pairs", L<parlay::minm<Q>>(parlay::minm<Q>()), [](Q a, Q b) { return b < a ? b : a; }, pp, true);
  laws<Q>("pair_monoid", parlay::pair_monoid(parlay::maxm<T>(), parlay::minm<T>()), [](Q a, Q b) { return Q(std::max(a.first, b.first), std::min(a.second, b.second)); }, pp, true);
  if constexpr (!F) {
    laws<T>("bit_or", parlay::bit_or<T>(), [](T a, T b) { return T(a | b); }, vs, true); laws<T>("bit_and", parlay::bit_and<T>(), [](T a, T b) { return T(a & b); }, vs, true); laws<T>("bit_xor", parlay::bit_xor<T>(), [](T a, T b) { return T(a ^ b); }, vs, true); laws<T>("xorm", L<parlay::xorm<T>>(parlay::xorm<T>()), [](T a, T b) { return T(a ^ b); }, vs, true);
  }
  auto mm = parlay::make_monoid([](T a, T b) { return a < b ? b : a; }, std::numeric_limits<T>::lowest()); auto nf = vs; if (F) nf.erase(std::remove(nf.begin(), nf.end(), -std::numeric_limits<T>::infinity()), nf.end());
  laws<T>("make_monoid", mm, [](T a, T b) { return a < b ? b : a; }, nf, true); laws<T>("binary_op", parlay::binary_op([](T a, T b) { return a < b ? b : a; }, std::numeric_limits<T>::lowest()), [](T a, T b) { return a < b ? b : a; }, nf, true);
  T (*fp)(T, T) = [](T a, T b) { return a < b ? b : a; }; laws<T>("binary_op of a function pointer", parlay::binary_op(fp, std::numeric_limits<T>::lowest()), [](T a, T b) { return a < b ? b : a; }, nf, true);
  { auto am = parlay::array_monoid<parlay::maxm<T>, 3>(parlay::maxm<T>()); for (size_t i = 0; i + 2 < vs.size(); i++) { begin("array_monoid %zu", i); std::array<T, 3> a{vs[i], vs[i + 1], vs[i + 2]}, b{vs[vs.size() - 1 - i], vs[i / 2], vs[0]}; auto r = am(a, b); auto l = am(am.identity, a), q = am(a, am.identity); for (int k = 0; k < 3; k++) CHECK(eq<T>(r[k], std::max(a[k], b[k])) && eq<T>(l[k], a[k]) && eq<T>(q[k], a[k]), "array_monoid component %d", k); } }
  // the monoid as used by the algorithms: reduce over an empty, one-element and longer range
  for (size_t n : {size_t(0), size_t(1), vs.size(), size_t(5000)}) { begin("reduce of %zu", n); auto s = parlay::tabulate(n, [&](size_t i) { return vs[i % vs.size()]; }); if (n) { CHECK(eq<T>(parlay::reduce(s, parlay::maximum<T>()), *std::max_element(s.begin(), s.end())), "maximum"); CHECK(eq<T>(parlay::reduce(s, parlay::minimum<T>()), *std::min_element(s.begin(), s.end())), "minimum"); } else CHECK(eq<T>(parlay::reduce(s, parlay::maximum<T>()), parlay::maximum<T>().identity), "empty"); }
}
TEST(types) { Rng g(seed); type<signed char>(g); type<unsigned char>(g); type<short>(g); type<unsigned short>(g); type<int>(g); type<unsigned>(g); type<long>(g); type<unsigned long>(g); type<long long>(g); type<float>(g); type<double>(g); type<long double>(g); }
TEST(logical) { std::vector<bool> dummy; std::vector<int> bs{0, 1}; 
  for (int a : bs) for (int b : bs) { begin("logical %d %d", a, b); CHECK(parlay::logical_and<bool>()(bool(a), bool(b)) == (a && b), "logical_and"); CHECK(parlay::logical_or<bool>()(bool(a), bool(b)) == (a || b), "logical_or"); CHECK(parlay::logical_and<bool>()(parlay::logical_and<bool>().identity, bool(a)) == bool(a) && parlay::logical_or<bool>()(bool(a), parlay::logical_or<bool>().identity) == bool(a), "identity"); CHECK(parlay::logical_and<int>()(parlay::logical_and<int>().identity, a) == a && parlay::logical_or<int>()(a, parlay::logical_or<int>().identity) == a, "identity"); 
    CHECK(parlay::bit_and<bool>()(parlay::bit_and<bool>().identity, bool(a)) == a && parlay::bit_or<bool>()(parlay::bit_or<bool>().identity, bool(a)) == a && parlay::bit_xor<bool>()(parlay::bit_xor<bool>().identity, bool(a)) == a, "bitwise monoids of bool"); } }
TEST(strings) { begin("string concatenation"); auto m = parlay::binary_op([](std::string a, std::string b) { return a + b; }, std::string()); CHECK(m(m.identity, std::string("x")) == "x" && m(std::string("ab"), std::string("c")) == "abc", "concatenation"); auto p = parlay::plus<std::string>(std::string()); CHECK(p(std::string("a"), p.identity) == "a" && p(std::string("a"), std::string("b")) == "ab", "plus of strings"); }
TEST(random_fill) { Rng g(seed + 3); while (more(0.6)) { type<int>(g); type<unsigned long>(g); type<unsigned char>(g); type<double>(g); type<float>(g); type<short>(g); } }
MAIN
