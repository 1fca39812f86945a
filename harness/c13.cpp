#include "h.h"
#include <parlay/io.h>
#include <parlay/primitives.h>
using parlay::chars;
static std::string str(const chars& c) { return std::string(c.begin(), c.end()); }
static chars ch(const std::string& s) { return chars(s.begin(), s.end()); }
template <class T> struct P;
template <> struct P<int> { static int p(const chars& c) { return parlay::chars_to_int(c); } };
template <> struct P<long> { static long p(const chars& c) { return parlay::chars_to_long(c); } };
template <> struct P<long long> { static long long p(const chars& c) { return parlay::chars_to_long_long(c); } };
template <> struct P<unsigned> { static unsigned p(const chars& c) { return parlay::chars_to_uint(c); } };
template <> struct P<unsigned long> { static unsigned long p(const chars& c) { return parlay::chars_to_ulong(c); } };
template <> struct P<unsigned long long> { static unsigned long long p(const chars& c) { return parlay::chars_to_ulong_long(c); } };
template <class T> static void one(T v) {
  begin("%zu-byte %s %s", sizeof(T), std::is_signed_v<T> ? "signed" : "unsigned", std::to_string(v).c_str());
  auto c = parlay::to_chars(v); CHECK(str(c) == std::to_string(v), "to_chars gave \"%s\"", str(c).c_str());
  CHECK(P<T>::p(c) == v, "parsing \"%s\" gave %s", str(c).c_str(), std::to_string(P<T>::p(c)).c_str());
  if (v >= 0) { auto q = ch("+" + std::to_string(v)); CHECK(P<T>::p(q) == v, "with a plus sign"); auto z = ch("000" + std::to_string(v)); CHECK(P<T>::p(z) == v, "with leading zeros"); }
  auto t = ch(std::to_string(v) + " 12"); CHECK(P<T>::p(t) == v, "parsing stops at the first character that is not a digit"); 
}
template <class T> static void all(Rng& g, int n) {
  using L = std::numeric_limits<T>; for (T d = 0; d < 40; d++) { one<T>(L::max() - d); one<T>(L::min() + d); one<T>(d); if (L::is_signed) one<T>(T(0) - d); }
  for (u64 p = 1, k = 0; k < 20; k++, p *= 10) for (int d = -1; d <= 1; d++) { if (p - 1 < (u64)L::max()) { one<T>((T)(p + d)); if (L::is_signed) one<T>((T)(0 - (T)(p + d))); } }
  for (int b = 0; b < (int)sizeof(T) * 8; b++) for (int d = -1; d <= 1; d++) one<T>((T)((u64(1) << b) + d));
  for (int i = 0; i < n; i++) one<T>((T)(g.next() >> g.below(64)));
}
TEST(integers) { Rng g(seed); all<int>(g, 2000); all<long>(g, 2000); all<long long>(g, 2000); all<unsigned>(g, 2000); all<unsigned long>(g, 2000); all<unsigned long long>(g, 2000); }
TEST(small_and_delayed) {
  for (int v = -300; v < 300; v++) { auto s = std::to_string(v); begin("int8/int16 parse %d", v); auto c = ch(s); if (v >= -128 && v < 128) CHECK((parlay::internal::chars_to_int_t<signed char>(parlay::make_slice(c)) == v), "signed char"); CHECK((parlay::internal::chars_to_int_t<short>(parlay::make_slice(c)) == v), "short"); if (v >= 0 && v < 256) CHECK((parlay::internal::chars_to_int_t<unsigned char>(parlay::make_slice(c)) == v), "unsigned char"); if (v >= 0) CHECK((parlay::internal::chars_to_int_t<unsigned short>(parlay::make_slice(c)) == v), "unsigned short"); auto d = parlay::delayed_tabulate(s.size(), [&](size_t i) { return s[i]; }); CHECK((parlay::internal::chars_to_int_t<int>(parlay::make_slice(d)) == v), "delayed characters"); }
  for (int v : {-32768, 32767, 65535, 32768, -1}) { auto c = ch(std::to_string(v)); begin("16 bit %d", v); if (v >= -32768 && v < 32768) CHECK((parlay::internal::chars_to_int_t<short>(parlay::make_slice(c)) == v), "short"); if (v >= 0) CHECK((parlay::internal::chars_to_int_t<unsigned short>(parlay::make_slice(c)) == v), "unsigned short"); }
}
template <class F> static F parse(const chars& c) { if constexpr (std::is_same_v<F, float>) return parlay::chars_to_float(c); else if constexpr (std::is_same_v<F, double>) return parlay::chars_to_double(c); else return parlay::chars_to_long_double(c); }
template <class F> static F ref(const std::string& s) { if constexpr (std::is_same_v<F, float>) return strtof(s.c_str(), 0); else if constexpr (std::is_same_v<F, double>) return strtod(s.c_str(), 0); else return strtold(s.c_str(), 0); }
template <class F> static void text(const std::string& s) { begin("parse \"%s\" as %zu-byte float", s.c_str(), sizeof(F)); F a = parse<F>(ch(s)), b = ref<F>(s); 
  bool ok = (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); if (!ok && sizeof(F) > 8) ok = std::fabs(a - b) <= std::fabs(b) * 1e-18L; CHECK(ok, "\"%s\" was parsed as %.25Lg, it is %.25Lg", s.c_str(), (long double)a, (long double)b); }
static void texts(const std::string& s) { text<float>(s); text<double>(s); text<long double>(s); }
static void fl(double v) { begin("double %.17g", v); auto c = parlay::to_chars(v); char b[64]; snprintf(b, sizeof b, "%.11e", v); CHECK(str(c) == b, "to_chars gave \"%s\", expected \"%s\"", str(c).c_str(), b); double r = parlay::chars_to_double(c); double e = strtod(b, 0); CHECK((std::isnan(v) && std::isnan(r)) || r == e, "parsing \"%s\" gave %.17g", b, r);
  if (std::isfinite(v) && std::fabs(v) > 1e-300) CHECK(std::fabs(r - v) <= 1.0000001e-11 * std::fabs(v), "round trip lost precision");
  float f = (float)v; if (std::isfinite(f)) { begin("float %.9g", f); auto cf = parlay::to_chars(f); float rf = parlay::chars_to_float(cf); CHECK(rf == f, "float round trip of \"%s\" gave %.9g", str(cf).c_str(), rf); } }
TEST(floats) {
  Rng g(seed + 1);
  for (double v : {0.0, -0.0, 1.0, -1.0, 0.1, 1e22, 1e23, 1e-22, 9007199254740992.0, 9007199254740993.0, 16777216.0, 16777217.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 3.4028234663852886e38, 1.1754943508222875e-38, 1e-45, HUGE_VAL, -HUGE_VAL, (double)NAN, 123456789.0, 1e-5, 999999999999.5, 1e100, -1e-100}) fl(v);
  for (int i = 0; i < 4000; i++) { u64 b = g.next(); double d; memcpy(&d, &b, 8); fl(d); fl((double)(i64)(g.next() >> g.below(64)) / 1000); }
  for (auto s : {"0", "-0", "+0", "1", "12.5", "-12.5", "+12.5", ".5", "-.5", "5.", "1e5", "1E5", "1e+5", "1e-5", "-1.25e-3", "1.5E+10", "  7.25", "\t-3", "123456789012345678", "1234567890123456789", "9007199254740993", "9007199254740992", "9007199254740991", "16777217", "16777216", "16777215", "1e22", "1e23", "1e-22", "1e-23", "1e10", "1e11", "1e-10", "1e-11", "0.1", "0.30000000000000004", "179769313486231570e291", "4.9e-324", "inf", "-inf", "nan", "0000000000001.5", "1.500000000000000", "3.14159265358979", "1e-40", "3e38", "0.000000000000001", "99999999.99", "123456.7e-3", "0e10", "0.0", "00.0e-5", "8388608.5", "16777215.5", "1677721.65"}) texts(s);
  for (int i = 0; i < 6000; i++) { std::string s = g.coin(3) ? "-" : g.coin(4) ? "+" : ""; int a = g.below(12), b = g.below(12); if (!a && !b) a = 1; for (int k = 0; k < a; k++) s += '0' + g.below(10); if (b || g.coin()) { s += "."; for (int k = 0; k < b; k++) s += '0' + g.below(10); } if (g.coin(3)) { s += g.coin() ? "e" : "E"; s += g.coin() ? "-" : g.coin() ? "+" : ""; s += std::to_string(g.below(g.coin() ? 12 : 30)); } if (a || b) texts(s); }
}
TEST(composite) {
  Rng g(seed + 2);
  begin("composite"); CHECK(str(parlay::to_chars(std::pair<int, long>(-3, 5))) == "(-3, 5)", "pair"); CHECK(str(parlay::to_chars(std::array<int, 3>{1, -2, 3})) == "[1, -2, 3]", "array"); CHECK(str(parlay::to_chars(true)) == "1" && str(parlay::to_chars(false)) == "0" && str(parlay::to_chars('x')) == "x", "bool and char"); 
  for (size_t n : {0, 1, 2, 3, 100, 3000}) { begin("to_chars of %zu numbers", n); std::vector<int> v(n); for (auto& x : v) x = (int)g.next(); std::string e = "["; for (size_t i = 0; i < n; i++) e += (i ? ", " : "") + std::to_string(v[i]); e += "]"; CHECK(str(parlay::to_chars(parlay::sequence<int>(v.begin(), v.end()))) == e, "sequence of numbers"); std::string s(n, ' '); for (auto& x : s) x = (char)g.next(); CHECK(str(parlay::to_chars(s)) == s, "string"); std::string z; for (size_t i = 0; i < n; i++) z += (char)(1 + g.below(255)); CHECK(str(parlay::to_chars(z.c_str())) == z, "C string"); std::ostringstream o; o << ch(s); CHECK(o.str() == s, "stream output"); }
}
TEST(random_fill) { Rng g(seed + 7); while (more(1.0)) { u64 x = g.next() >> g.below(64); one<int>((int)x); one<long>((long)x); one<unsigned>((unsigned)x); one<unsigned long>(x); double d; u64 b = g.next(); memcpy(&d, &b, 8); fl(d); texts(std::to_string((long)x >> 20) + "." + std::to_string(g.below(100000)) + (g.coin() ? "" : "e" + std::to_string((int)g.below(40) - 20))); } }
MAIN
