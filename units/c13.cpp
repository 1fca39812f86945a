// Parsing and formatting of numbers.
#include <parlay/io.h>
#include "common.h"
using namespace parlay;
template <class T> T parse(const char* a, const char* b) { return parlay::internal::chars_to_int_t<T>(make_slice(a, b)); }
extern "C" {
void gh_text(const void*); void gh_parsed(u64); void gh_float(float); void gh_double(double);
// chars_to_int_t is the function behind chars_to_int, ..., chars_to_ulong_long
u64 vc_parse_int(const char* a, u64 n) { return (u64)(long)parse<int>(a, a + n); }
u64 vc_parse_long(const char* a, u64 n) { return (u64)parse<long>(a, a + n); }
u64 vc_parse_llong(const char* a, u64 n) { return (u64)parse<long long>(a, a + n); }
u64 vc_parse_short(const char* a, u64 n) { return (u64)(long)parse<short>(a, a + n); }
u64 vc_parse_uint(const char* a, u64 n) { return parse<unsigned>(a, a + n); }
u64 vc_parse_ulong(const char* a, u64 n) { return parse<unsigned long>(a, a + n); }
u64 vc_parse_ullong(const char* a, u64 n) { return parse<unsigned long long>(a, a + n); }
float vc_to_float(const chars* s) { return chars_to_float(*s); }
double vc_to_double(const chars* s) { return chars_to_double(*s); }
int vc_to_int(const chars* s) { return chars_to_int(*s); }
long vc_to_long(const chars* s) { return chars_to_long(*s); }
long long vc_to_llong(const chars* s) { return chars_to_long_long(*s); }
unsigned vc_to_uint(const chars* s) { return chars_to_uint(*s); }
unsigned long vc_to_ulong(const chars* s) { return chars_to_ulong(*s); }
unsigned long long vc_to_ullong(const chars* s) { return chars_to_ulong_long(*s); }
void vc_fmt_char(char v) { auto c = to_chars(v); gh_text(&c); }
void vc_fmt_bool(bool v) { auto c = to_chars(v); gh_text(&c); }
void vc_fmt_int(int v) { auto c = to_chars(v); gh_text(&c); }
void vc_fmt_uint(unsigned v) { auto c = to_chars(v); gh_text(&c); }
void vc_fmt_long(long v) { auto c = to_chars(v); gh_text(&c); }
void vc_fmt_ulong(unsigned long v) { auto c = to_chars(v); gh_text(&c); }
void vc_fmt_llong(long long v) { auto c = to_chars(v); gh_text(&c); }
void vc_fmt_ullong(unsigned long long v) { auto c = to_chars(v); gh_text(&c); }
void vc_fmt_double(double v) { auto c = to_chars(v); gh_text(&c); }
void vc_fmt_float(float v) { auto c = to_chars(v); gh_text(&c); }
}
