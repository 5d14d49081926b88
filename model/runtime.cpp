// C / C++ runtime for the symbolic executor: everything libstdc++ and libc keep out of line.
// The templates (iostreams, strings, facets) are the real libstdc++ ones, instantiated here; the
// parts that only exist as machine code are written out again with the same behaviour.
// Built with -fno-access-control.
#include <chrono>
#include <ctime>
#include <pthread.h>
#include <condition_variable>
#include <cwchar>
#include <cassert>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <ios>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <vector>
#include <ext/stdio_filebuf.h>
#include "vp.h"
#include "vp_fs.h"

// ------------------------------------------------------------------------------------------ libc
extern "C" {
static thread_local int g_errno;
int * __errno_location(void) throw() {return &g_errno;}
size_t strlen(const char * s) throw() {size_t n = 0; while (s[n]) {n++;} return n;}
size_t strnlen(const char * s, size_t m) throw() {size_t n = 0; while (n < m && s[n]) {n++;} return n;}
int strcmp(const char * a, const char * b) throw()
{
  while (*a && *a == *b) {a++; b++;}
  return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
}
int strncmp(const char * a, const char * b, size_t n) throw()
{
  while (n && *a && *a == *b) {a++; b++; n--;}
  return n ? static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b) : 0;
}
char * strcpy(char * d, const char * s) throw()
{
  size_t i = 0;
  for (; s[i]; i++) {d[i] = s[i];}
  d[i] = 0;
  return d;
}
char * strncpy(char * d, const char * s, size_t n) throw()
{
  size_t i = 0;
  for (; i < n && s[i]; i++) {d[i] = s[i];}
  for (; i < n; i++) {d[i] = 0;}
  return d;
}
char * strcat(char * d, const char * s) throw() {strcpy(d + strlen(d), s); return d;}
char * strncat(char * d, const char * s, size_t n) throw()
{
  char * r = d;
  d += strlen(d);
  while (n-- && *s) {*d++ = *s++;}
  *d = 0;
  return r;
}
static const char * str_chr(const char * s, int c)
{
  for (;; s++) {if (*s == static_cast<char>(c)) {return s;} if (!*s) {return nullptr;}}
}
static const char * str_rchr(const char * s, int c)
{
  const char * r = nullptr;
  for (;; s++) {if (*s == static_cast<char>(c)) {r = s;} if (!*s) {return r;}}
}
static const char * str_str(const char * a, const char * b)
{
  size_t n = strlen(b);
  for (;; a++) {if (0 == strncmp(a, b, n)) {return a;} if (!*a) {return nullptr;}}
}
const char * vp_strchr(const char * s, int c) __asm__("strchr");
const char * vp_strchr(const char * s, int c) {return str_chr(s, c);}
const char * vp_strrchr(const char * s, int c) __asm__("strrchr");
const char * vp_strrchr(const char * s, int c) {return str_rchr(s, c);}
const char * vp_strstr(const char * a, const char * b) __asm__("strstr");
const char * vp_strstr(const char * a, const char * b) {return str_str(a, b);}
size_t strspn(const char * s, const char * set) throw()
{
  size_t n = 0;
  while (s[n] && str_chr(set, s[n])) {n++;}
  return n;
}
size_t strcspn(const char * s, const char * set) throw()
{
  size_t n = 0;
  while (s[n] && !str_chr(set, s[n])) {n++;}
  return n;
}
char * strdup(const char * s) throw()
{
  size_t n = strlen(s) + 1;
  char * r = static_cast<char *>(malloc(n));
  if (r) {memcpy(r, s, n);}
  return r;
}
char * strndup(const char * s, size_t m) throw()
{
  size_t n = strnlen(s, m);
  char * r = static_cast<char *>(malloc(n + 1));
  if (r) {memcpy(r, s, n); r[n] = 0;}
  return r;
}
int isspace(int c) throw() {return c == ' ' || (c >= 9 && c <= 13);}
int isdigit(int c) throw() {return c >= '0' && c <= '9';}
int isupper(int c) throw() {return c >= 'A' && c <= 'Z';}
int islower(int c) throw() {return c >= 'a' && c <= 'z';}
int isalpha(int c) throw() {return isupper(c) || islower(c);}
int isalnum(int c) throw() {return isalpha(c) || isdigit(c);}
int isxdigit(int c) throw() {return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');}
int isprint(int c) throw() {return c >= 32 && c < 127;}
int iscntrl(int c) throw() {return (c >= 0 && c < 32) || c == 127;}
int ispunct(int c) throw() {return c > 32 && c < 127 && !isalnum(c);}
int isblank(int c) throw() {return c == ' ' || c == '\t';}
int isgraph(int c) throw() {return c > 32 && c < 127;}
int tolower(int c) throw() {return isupper(c) ? c + 32 : c;}
int toupper(int c) throw() {return islower(c) ? c - 32 : c;}
static unsigned long long str_to_ull(const char * s, char ** end, int base, bool * neg, bool * over)
{
  const char * p = s;
  while (isspace(static_cast<unsigned char>(*p))) {p++;}
  *neg = false; *over = false;
  if (*p == '+' || *p == '-') {*neg = *p == '-'; p++;}
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit(p[2])) {p += 2; base = 16;}
  if (base == 0) {base = *p == '0' ? 8 : 10;}
  unsigned long long v = 0;
  bool any = false;
  for (;; p++) {
    int d;
    if (isdigit(*p)) {d = *p - '0';} else if (isalpha(*p)) {d = (*p | 32) - 'a' + 10;} else {break;}
    if (d >= base) {break;}
    any = true;
    if (__builtin_mul_overflow(v, static_cast<unsigned long long>(base), &v) ||
      __builtin_add_overflow(v, static_cast<unsigned long long>(d), &v)) {*over = true;}
  }
  if (end) {*end = const_cast<char *>(any ? p : s);}
  return v;
}
unsigned long long strtoull(const char * s, char ** end, int base) throw()
{
  bool neg, over;
  unsigned long long v = str_to_ull(s, end, base, &neg, &over);
  if (over) {errno = ERANGE; return ~0ull;}
  return neg ? 0ull - v : v;
}
unsigned long strtoul(const char * s, char ** end, int base) throw() {return strtoull(s, end, base);}
long long strtoll(const char * s, char ** end, int base) throw()
{
  bool neg, over;
  unsigned long long v = str_to_ull(s, end, base, &neg, &over);
  if (over || v > (neg ? 0x8000000000000000ull : 0x7fffffffffffffffull)) {
    errno = ERANGE;
    return neg ? static_cast<long long>(0x8000000000000000ull) : 0x7fffffffffffffffll;
  }
  return static_cast<long long>(neg ? 0ull - v : v);
}
long strtol(const char * s, char ** end, int base) throw() {return strtoll(s, end, base);}
int atoi(const char * s) throw() {return static_cast<int>(strtol(s, nullptr, 10));}

struct VpOut { char * b; size_t cap, n; };
static void put(VpOut & o, char c)
{
  if (o.n + 1 < o.cap) {o.b[o.n] = c;}
  o.n++;
}
int vsnprintf(char * buf, size_t size, const char * f, va_list ap) throw()
{
  VpOut o = {buf, size, 0};
  for (; *f; f++) {
    if (*f != '%') {put(o, *f); continue;}
    f++;
    bool left = false, zero = false, plus = false, space = false, alt = false;
    for (;; f++) {
      if (*f == '-') {left = true;} else if (*f == '0') {zero = true;} else if (*f == '+') {plus = true;
      } else if (*f == ' ') {space = true;} else if (*f == '#') {alt = true;} else {break;}
    }
    long width = 0, prec = -1;
    if (*f == '*') {
      width = va_arg(ap, int); f++;
      if (width < 0) {left = true; width = -width;}
    } else {for (; isdigit(*f); f++) {width = width * 10 + (*f - '0');}}
    if (*f == '.') {
      f++; prec = 0;
      if (*f == '*') {prec = va_arg(ap, int); f++;} else {
        for (; isdigit(*f); f++) {prec = prec * 10 + (*f - '0');}
      }
    }
    int lng = 0;
    for (;; f++) {
      if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') {lng += (*f == 'l') ? 1 : 2;
      } else if (*f == 'h') {lng--;} else {break;}
    }
    char tmp[80];
    const char * s = tmp;
    size_t n = 0;
    char c = *f;
    if (c == '%') {put(o, '%'); continue;}
    if (c == 'c') {
      tmp[0] = static_cast<char>(va_arg(ap, int)); n = 1; zero = false;
    } else if (c == 's') {
      s = va_arg(ap, const char *);
      if (!s) {s = "(null)";}
      while ((prec < 0 || n < static_cast<size_t>(prec)) && s[n]) {n++;}
      zero = false;
    } else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
      unsigned long long v;
      bool neg = false;
      if (c == 'd' || c == 'i') {
        long long sv = lng > 0 ? va_arg(ap, long long) : va_arg(ap, int);
        if (lng == -1) {sv = static_cast<short>(sv);}
        if (lng <= -2) {sv = static_cast<signed char>(sv);}
        neg = sv < 0;
        v = neg ? 0ull - static_cast<unsigned long long>(sv) : static_cast<unsigned long long>(sv);
      } else if (c == 'p') {
        v = reinterpret_cast<uintptr_t>(va_arg(ap, void *)); alt = true;
      } else {
        v = lng > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
        if (lng == -1) {v = static_cast<unsigned short>(v);}
        if (lng <= -2) {v = static_cast<unsigned char>(v);}
      }
      unsigned base = c == 'o' ? 8 : (c == 'x' || c == 'X' || c == 'p') ? 16 : 10;
      const char * dg = c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
      char rev[32];
      size_t k = 0;
      unsigned long long t = v;
      while (t) {rev[k++] = dg[t % base]; t /= base;}
      if (k == 0 && prec != 0) {rev[k++] = '0';}
      char sign[3];
      size_t sn = 0;
      if (neg) {sign[sn++] = '-';} else if ((c == 'd' || c == 'i') && plus) {sign[sn++] = '+';
      } else if ((c == 'd' || c == 'i') && space) {sign[sn++] = ' ';}
      if (alt && base == 16 && v) {sign[sn++] = '0'; sign[sn++] = c == 'X' ? 'X' : 'x';}
      size_t digits = k;
      if (prec >= 0 && static_cast<size_t>(prec) > digits) {digits = static_cast<size_t>(prec);}
      if (prec < 0 && zero && !left && static_cast<size_t>(width) > sn + digits) {
        digits = static_cast<size_t>(width) - sn;
      }
      size_t total = sn + digits;
      if (!left) {for (size_t i = total; i < static_cast<size_t>(width); i++) {put(o, ' ');}}
      for (size_t i = 0; i < sn; i++) {put(o, sign[i]);}
      for (size_t i = k; i < digits; i++) {put(o, '0');}
      while (k) {put(o, rev[--k]);}
      if (left) {for (size_t i = total; i < static_cast<size_t>(width); i++) {put(o, ' ');}}
      continue;
    } else {
      vp_unmodelled("printf conversion");
    }
    if (!left) {for (size_t i = n; i < static_cast<size_t>(width); i++) {put(o, zero ? '0' : ' ');}}
    for (size_t i = 0; i < n; i++) {put(o, s[i]);}
    if (left) {for (size_t i = n; i < static_cast<size_t>(width); i++) {put(o, ' ');}}
  }
  if (size) {buf[o.n < size ? o.n : size - 1] = 0;}
  return static_cast<int>(o.n);
}
int snprintf(char * buf, size_t size, const char * f, ...) throw()
{
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(buf, size, f, ap);
  va_end(ap);
  return r;
}
int sprintf(char * buf, const char * f, ...) throw()
{
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(buf, 0x7fffffff, f, ap);
  va_end(ap);
  return r;
}
int printf(const char *, ...) {return 0;}
int fprintf(FILE *, const char *, ...) {return 0;}
int fputs(const char *, FILE *) {return 0;}
int puts(const char *) {return 0;}
int putchar(int c) {return c;}
size_t fwrite(const void *, size_t, size_t n, FILE *) {return n;}
FILE * stderr, * stdout, * stdin;
char * getenv(const char *) throw() {return nullptr;}
// Time passes as it likes, but not backwards.
static int64_t the_time = 1000000000000000000;
static int64_t tick(const char * clock)
{
  vp_norace(&the_time);
  the_time += static_cast<int64_t>(vp_sym(clock, 44));
  return the_time;
}
int clock_gettime(clockid_t, struct timespec * t) throw()
{
  const int64_t n = tick("clock_gettime");
  t->tv_sec = n / 1000000000;
  t->tv_nsec = n % 1000000000;
  return 0;
}
time_t time(time_t * t) throw()
{
  const time_t n = tick("time") / 1000000000;
  if (t) {*t = n;}
  return n;
}
char __libc_single_threaded = 0;
void * __dso_handle;
locale_t __uselocale(locale_t) throw() {return nullptr;}
}

namespace std
{
namespace chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept {return time_point(duration(tick("steady_clock")));}
system_clock::time_point system_clock::now() noexcept {return time_point(duration(tick("system_clock")));}
}
}
}

// ------------------------------------------------------------------------------------ exceptions
void vp_rt_throw_bad_alloc_impl() {throw std::bad_alloc();}
extern "C" void vp_rt_throw_bad_alloc(void) {vp_rt_throw_bad_alloc_impl();}
namespace __cxxabiv1
{
extern "C" {
char vt_class[128] __asm__("_ZTVN10__cxxabiv117__class_type_infoE");
char vt_si[128] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE");
char vt_vmi[128] __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
char vt_ptr[128] __asm__("_ZTVN10__cxxabiv119__pointer_type_infoE");
char vt_fn[128] __asm__("_ZTVN10__cxxabiv120__function_type_infoE");
char vt_fund[128] __asm__("_ZTVN10__cxxabiv123__fundamental_type_infoE");
char vt_arr[128] __asm__("_ZTVN10__cxxabiv117__array_type_infoE");
char vt_enum[128] __asm__("_ZTVN10__cxxabiv116__enum_type_infoE");
}
__forced_unwind::~__forced_unwind() throw() {}
}
// fundamental type infos used in catch clauses
namespace std
{
exception::~exception() noexcept {}
const char * exception::what() const noexcept {return "std::exception";}
bad_exception::~bad_exception() noexcept {}
const char * bad_exception::what() const noexcept {return "std::bad_exception";}
bad_alloc::~bad_alloc() noexcept {}
const char * bad_alloc::what() const noexcept {return "std::bad_alloc";}
bad_array_new_length::~bad_array_new_length() noexcept {}
const char * bad_array_new_length::what() const noexcept {return "std::bad_array_new_length";}
bad_cast::~bad_cast() noexcept {}
const char * bad_cast::what() const noexcept {return "std::bad_cast";}
bad_typeid::~bad_typeid() noexcept {}
const char * bad_typeid::what() const noexcept {return "std::bad_typeid";}
bad_function_call::~bad_function_call() noexcept {}
const char * bad_function_call::what() const noexcept {return "bad_function_call";}
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char * bad_weak_ptr::what() const noexcept {return "bad_weak_ptr";}
type_info::~type_info() {}
bool type_info::__is_pointer_p() const {return false;}
bool type_info::__is_function_p() const {return false;}
bool type_info::__do_catch(const type_info *, void **, unsigned) const {return false;}
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const {return false;}
const nothrow_t nothrow{};
bool uncaught_exception() noexcept {return false;}
int uncaught_exceptions() noexcept {return 0;}

static const char * dup_msg(const char * s, size_t n)
{
  char * p = static_cast<char *>(::operator new(n + 1));
  memcpy(p, s, n);
  p[n] = 0;
  return p;
}
__cow_string::__cow_string() : _M_p(dup_msg("", 0)) {}
__cow_string::__cow_string(const std::string & s) : _M_p(dup_msg(s.data(), s.size())) {}
__cow_string::__cow_string(const char * s, size_t n) : _M_p(dup_msg(s, n)) {}
__cow_string::__cow_string(const __cow_string & o) noexcept : _M_p(dup_msg(o._M_p, strlen(o._M_p))) {}
__cow_string & __cow_string::operator=(const __cow_string & o) noexcept
{
  const char * p = dup_msg(o._M_p, strlen(o._M_p));
  ::operator delete(const_cast<char *>(_M_p));
  _M_p = p;
  return *this;
}
__cow_string::~__cow_string() {::operator delete(const_cast<char *>(_M_p));}
__cow_string::__cow_string(__cow_string && o) noexcept : _M_p(o._M_p) {o._M_p = dup_msg("", 0);}
__cow_string & __cow_string::operator=(__cow_string && o) noexcept {std::swap(_M_p, o._M_p); return *this;}

logic_error::logic_error(const std::string & s) : _M_msg(s) {}
logic_error::logic_error(const char * s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error & o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error && o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error & logic_error::operator=(const logic_error & o) noexcept {_M_msg = o._M_msg; return *this;}
logic_error & logic_error::operator=(logic_error && o) noexcept {_M_msg = o._M_msg; return *this;}
logic_error::~logic_error() noexcept {}
const char * logic_error::what() const noexcept {return _M_msg._M_p;}
runtime_error::runtime_error(const std::string & s) : _M_msg(s) {}
runtime_error::runtime_error(const char * s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error & o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error && o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error & runtime_error::operator=(const runtime_error & o) noexcept {_M_msg = o._M_msg; return *this;}
runtime_error & runtime_error::operator=(runtime_error && o) noexcept {_M_msg = o._M_msg; return *this;}
runtime_error::~runtime_error() noexcept {}
const char * runtime_error::what() const noexcept {return _M_msg._M_p;}
#define VP_EXC(C, B) C::C(const std::string & s) : B(s) {} C::C(const char * s) : B(s) {} \
  C::~C() noexcept {}
VP_EXC(invalid_argument, logic_error)
VP_EXC(domain_error, logic_error)
VP_EXC(length_error, logic_error)
VP_EXC(out_of_range, logic_error)
VP_EXC(range_error, runtime_error)
VP_EXC(overflow_error, runtime_error)
VP_EXC(underflow_error, runtime_error)
void __throw_bad_exception() {throw bad_exception();}
void __throw_bad_alloc() {throw bad_alloc();}
void __throw_bad_array_new_length() {throw bad_array_new_length();}
void __throw_bad_cast() {throw bad_cast();}
void __throw_bad_typeid() {throw bad_typeid();}
void __throw_bad_function_call() {throw bad_function_call();}
void __throw_logic_error(const char * s) {throw logic_error(s);}
void __throw_domain_error(const char * s) {throw domain_error(s);}
void __throw_invalid_argument(const char * s) {throw invalid_argument(s);}
void __throw_length_error(const char * s) {throw length_error(s);}
void __throw_out_of_range(const char * s) {throw out_of_range(s);}
void __throw_out_of_range_fmt(const char * s, ...) {throw out_of_range(s);}
void __throw_runtime_error(const char * s) {throw runtime_error(s);}
void __throw_range_error(const char * s) {throw range_error(s);}
void __throw_overflow_error(const char * s) {throw overflow_error(s);}
void __throw_underflow_error(const char * s) {throw underflow_error(s);}
void __throw_system_error(int e) {throw system_error(error_code(e, generic_category()));}
void __throw_ios_failure(const char * s) {throw ios_base::failure(s);}
void __throw_ios_failure(const char * s, int e)
{
  throw ios_base::failure(s, e ? error_code(e, system_category()) : make_error_code(io_errc::stream));
}

// ---- system_error
inline namespace _V2
{
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept
{
  return error_condition(i, *this);
}
bool error_category::equivalent(int i, const error_condition & c) const noexcept
{
  return default_error_condition(i) == c;
}
bool error_category::equivalent(const error_code & c, int i) const noexcept
{
  return *this == c.category() && c.value() == i;
}
std::__cow_string error_category::_M_message(int) const {return std::__cow_string("error", 5);}
struct VpCat : error_category
{
  const char * n;
  explicit VpCat(const char * s) : n(s) {}
  const char * name() const noexcept override {return n;}
  std::string message(int) const override {return "error";}
  error_condition default_error_condition(int i) const noexcept override;
};
static VpCat * cat(int k)
{
  static VpCat g("generic"), s("system"), io("iostream");
  return k == 0 ? &g : k == 1 ? &s : &io;
}
error_condition VpCat::default_error_condition(int i) const noexcept
{
  return this == cat(1) ? error_condition(i, *cat(0)) : error_condition(i, *this);
}
const error_category & generic_category() noexcept {return *cat(0);}
const error_category & system_category() noexcept {return *cat(1);}
}
const error_category & iostream_category() noexcept {return *_V2::cat(2);}
error_condition error_code::default_error_condition() const noexcept
{
  return category().default_error_condition(value());
}
system_error::~system_error() noexcept {}
ios_base::failure::failure(const std::string & s) : system_error(io_errc::stream, s) {}
ios_base::failure::failure(const std::string & s, const error_code & e) : system_error(e, s) {}
ios_base::failure::failure(const char * s, const error_code & e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char * ios_base::failure::what() const noexcept {return runtime_error::what();}

// ------------------------------------------------------------------------------ trees and hashing
_Rb_tree_node_base * _Rb_tree_increment(_Rb_tree_node_base * x) throw()
{
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) {x = x->_M_left;}
    return x;
  }
  _Rb_tree_node_base * y = x->_M_parent;
  while (x == y->_M_right) {x = y; y = y->_M_parent;}
  if (x->_M_right != y) {x = y;}
  return x;
}
const _Rb_tree_node_base * _Rb_tree_increment(const _Rb_tree_node_base * x) throw()
{
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base * _Rb_tree_decrement(_Rb_tree_node_base * x) throw()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) {return x->_M_right;}
  if (x->_M_left) {
    _Rb_tree_node_base * y = x->_M_left;
    while (y->_M_right) {y = y->_M_right;}
    return y;
  }
  _Rb_tree_node_base * y = x->_M_parent;
  while (x == y->_M_left) {x = y; y = y->_M_parent;}
  return y;
}
const _Rb_tree_node_base * _Rb_tree_decrement(const _Rb_tree_node_base * x) throw()
{
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}
static void rotl(_Rb_tree_node_base * x, _Rb_tree_node_base *& root)
{
  _Rb_tree_node_base * y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) {y->_M_left->_M_parent = x;}
  y->_M_parent = x->_M_parent;
  if (x == root) {root = y;} else if (x == x->_M_parent->_M_left) {x->_M_parent->_M_left = y;
  } else {x->_M_parent->_M_right = y;}
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base * x, _Rb_tree_node_base *& root)
{
  _Rb_tree_node_base * y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) {y->_M_right->_M_parent = x;}
  y->_M_parent = x->_M_parent;
  if (x == root) {root = y;} else if (x == x->_M_parent->_M_right) {x->_M_parent->_M_right = y;
  } else {x->_M_parent->_M_left = y;}
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(
  const bool left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & h) throw()
{
  _Rb_tree_node_base *& root = h._M_parent;
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) {h._M_parent = x; h._M_right = x;} else if (p == h._M_left) {h._M_left = x;}
  } else {
    p->_M_right = x;
    if (p == h._M_right) {h._M_right = x;}
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base * g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      _Rb_tree_node_base * u = g->_M_right;
      if (u && u->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g;
      } else {
        if (x == x->_M_parent->_M_right) {x = x->_M_parent; rotl(x, root);}
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root);
      }
    } else {
      _Rb_tree_node_base * u = g->_M_left;
      if (u && u->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g;
      } else {
        if (x == x->_M_parent->_M_left) {x = x->_M_parent; rotr(x, root);}
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base * _Rb_tree_rebalance_for_erase(_Rb_tree_node_base * const z, _Rb_tree_node_base & h) throw()
{
  _Rb_tree_node_base *& root = h._M_parent;
  _Rb_tree_node_base *& leftmost = h._M_left;
  _Rb_tree_node_base *& rightmost = h._M_right;
  _Rb_tree_node_base * y = z;
  _Rb_tree_node_base * x = nullptr;
  _Rb_tree_node_base * xp = nullptr;
  if (!y->_M_left) {x = y->_M_right;} else if (!y->_M_right) {x = y->_M_left;} else {
    y = y->_M_right;
    while (y->_M_left) {y = y->_M_left;}
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) {x->_M_parent = y->_M_parent;}
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else {xp = y;}
    if (root == z) {root = y;} else if (z->_M_parent->_M_left == z) {z->_M_parent->_M_left = y;
    } else {z->_M_parent->_M_right = y;}
    y->_M_parent = z->_M_parent;
    std::swap(y->_M_color, z->_M_color);
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) {x->_M_parent = y->_M_parent;}
    if (root == z) {root = x;} else if (z->_M_parent->_M_left == z) {z->_M_parent->_M_left = x;
    } else {z->_M_parent->_M_right = x;}
    if (leftmost == z) {
      if (!z->_M_right) {leftmost = z->_M_parent;} else {
        leftmost = x;
        while (leftmost->_M_left) {leftmost = leftmost->_M_left;}
      }
    }
    if (rightmost == z) {
      if (!z->_M_left) {rightmost = z->_M_parent;} else {
        rightmost = x;
        while (rightmost->_M_right) {rightmost = rightmost->_M_right;}
      }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      if (x == xp->_M_left) {
        _Rb_tree_node_base * w = xp->_M_right;
        if (w->_M_color == _S_red) {
          w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right;
        }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) &&
          (!w->_M_right || w->_M_right->_M_color == _S_black))
        {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (!w->_M_right || w->_M_right->_M_color == _S_black) {
            w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right;
          }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) {w->_M_right->_M_color = _S_black;}
          rotl(xp, root);
          break;
        }
      } else {
        _Rb_tree_node_base * w = xp->_M_left;
        if (w->_M_color == _S_red) {
          w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left;
        }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) &&
          (!w->_M_left || w->_M_left->_M_color == _S_black))
        {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (!w->_M_left || w->_M_left->_M_color == _S_black) {
            w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left;
          }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) {w->_M_left->_M_color = _S_black;}
          rotr(xp, root);
          break;
        }
      }
    }
    if (x) {x->_M_color = _S_black;}
  }
  return y;
}
// The hash of libstdc++ (iteration orders then agree with the native run); keys are concretised, so
// that buckets are concrete.  Harnesses whose observations do not depend on iteration orders ask for one
// bucket (flathash) instead of enumerating the values of the keys.
size_t _Hash_bytes(const void * ptr, size_t len, size_t seed)
{
  if (vp_param("flathash", 0)) {return 0;}
  const size_t mul = (static_cast<size_t>(0xc6a4a793ul) << 32) + static_cast<size_t>(0x5bd1e995ul);
  const unsigned char * p = static_cast<const unsigned char *>(ptr);
  auto load = [&](size_t at, size_t n) {
      size_t r = 0;
      for (size_t i = 0; i < n; i++) {r |= static_cast<size_t>(vp_concretize(p[at + i])) << (8 * i);}
      return r;
    };
  auto mix = [](size_t v) {return v ^ (v >> 47);};
  size_t h = seed ^ (len * mul), at = 0;
  for (; at + 8 <= len; at += 8) {
    h ^= mix(load(at, 8) * mul) * mul;
    h *= mul;
  }
  if (len & 7) {
    h ^= load(at, len & 7);
    h *= mul;
  }
  h = mix(h) * mul;
  return mix(h);
}
size_t _Fnv_hash_bytes(const void * p, size_t n, size_t s) {return _Hash_bytes(p, n, s);}
namespace __detail
{
static const unsigned char kFast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
static const size_t kPrimes[] = {17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89,
  97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  if (_M_max_load_factor != 1.0f) {vp_unmodelled("hash table with a load factor other than 1");}
  if (n == 0) {return 1;}
  if (n < sizeof kFast) {_M_next_resize = kFast[n]; return kFast[n];}
  for (size_t p : kPrimes) {
    if (p >= n) {_M_next_resize = p; return p;}
  }
  vp_unmodelled("hash table with more than 257 buckets");
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
  if (ne + ni > _M_next_resize) {
    size_t mn = ne + ni, lo = _M_next_resize ? 0 : 11;
    if (mn < lo) {mn = lo;}
    if (mn >= nb) {return {true, _M_next_bkt(mn + 1 > nb * 2 ? mn + 1 : nb * 2)};}
    _M_next_resize = nb;
  }
  return {false, 0};
}
}
namespace __detail
{
// std::list
void _List_node_base::swap(_List_node_base & x, _List_node_base & y) noexcept
{
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next);
      std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_transfer(_List_node_base * const f, _List_node_base * const l) noexcept
{
  if (this != l) {
    l->_M_prev->_M_next = this;
    f->_M_prev->_M_next = l;
    this->_M_prev->_M_next = f;
    _List_node_base * const t = this->_M_prev;
    this->_M_prev = l->_M_prev;
    l->_M_prev = f->_M_prev;
    f->_M_prev = t;
  }
}
void _List_node_base::_M_hook(_List_node_base * const p) noexcept
{
  _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_reverse() noexcept
{
  _List_node_base * t = this;
  do {
    std::swap(t->_M_next, t->_M_prev);
    t = t->_M_prev;
  } while (t != this);
}
void _List_node_base::_M_unhook() noexcept
{
  _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next;
}
}

// ------------------------------------------------------------------------------------- locale, ios
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ios_base_library_init() {}
locale::facet::~facet() {}
locale::id ctype<char>::id;
locale::id codecvt<char, char, mbstate_t>::id;
const ctype_base::mask ctype_base::upper;
static const ctype_base::mask * mk_table()
{
  static ctype_base::mask t[257];
  static bool done = false;
  if (!done) {
    vp_norace(t);
    vp_norace(&done);
    done = true;
    for (int c = 0; c < 128; c++) {
      ctype_base::mask v = 0;
      if (::isupper(c)) {v |= ctype_base::upper;}
      if (::islower(c)) {v |= ctype_base::lower;}
      if (::isalpha(c)) {v |= ctype_base::alpha;}
      if (::isdigit(c)) {v |= ctype_base::digit;}
      if (::isxdigit(c)) {v |= ctype_base::xdigit;}
      if (::isspace(c)) {v |= ctype_base::space;}
      if (::isprint(c)) {v |= ctype_base::print;}
      if (::isgraph(c)) {v |= ctype_base::graph;}
      if (::iscntrl(c)) {v |= ctype_base::cntrl;}
      if (::ispunct(c)) {v |= ctype_base::punct;}
      if (::isblank(c)) {v |= ctype_base::blank;}
      t[c] = v;
    }
  }
  return t;
}
const ctype_base::mask * ctype<char>::classic_table() throw() {return mk_table();}
ctype<char>::ctype(const mask * t, bool d, size_t refs)
: facet(refs), _M_c_locale_ctype(nullptr), _M_del(t && d), _M_toupper(nullptr), _M_tolower(nullptr),
  _M_table(t ? t : classic_table()), _M_widen_ok(0), _M_narrow_ok(0)
{
  memset(_M_widen, 0, sizeof _M_widen);
  memset(_M_narrow, 0, sizeof _M_narrow);
}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const {return static_cast<char>(::toupper(static_cast<unsigned char>(c)));}
const char * ctype<char>::do_toupper(char * lo, const char * hi) const
{
  for (; lo < hi; lo++) {*lo = do_toupper(*lo);}
  return hi;
}
char ctype<char>::do_tolower(char c) const {return static_cast<char>(::tolower(static_cast<unsigned char>(c)));}
const char * ctype<char>::do_tolower(char * lo, const char * hi) const
{
  for (; lo < hi; lo++) {*lo = do_tolower(*lo);}
  return hi;
}
void ctype<char>::_M_widen_init() const
{
  for (int i = 0; i < 256; i++) {_M_widen[i] = static_cast<char>(i);}
  _M_widen_ok = 1;
}
void ctype<char>::_M_narrow_init() const
{
  for (int i = 0; i < 256; i++) {_M_narrow[i] = static_cast<char>(i);}
  _M_narrow_ok = 1;
}
codecvt<char, char, mbstate_t>::codecvt(size_t refs) : __codecvt_abstract_base<char, char, mbstate_t>(refs),
  _M_c_locale_codecvt(nullptr) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(
  mbstate_t &, const char * f, const char *, const char *& fn, char * t, char *, char *& tn) const
{
  fn = f; tn = t;
  return noconv;
}
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(mbstate_t &, char * t, char *, char *& tn) const
{
  tn = t;
  return noconv;
}
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(
  mbstate_t &, const char * f, const char *, const char *& fn, char * t, char *, char *& tn) const
{
  fn = f; tn = t;
  return noconv;
}
int codecvt<char, char, mbstate_t>::do_encoding() const throw() {return 1;}
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() {return true;}
int codecvt<char, char, mbstate_t>::do_length(mbstate_t &, const char * f, const char * e, size_t m) const
{
  size_t d = static_cast<size_t>(e - f);
  return static_cast<int>(d < m ? d : m);
}
int codecvt<char, char, mbstate_t>::do_max_length() const throw() {return 1;}
template<> numpunct<char>::~numpunct() {}
template<> void numpunct<char>::_M_initialize_numpunct(__c_locale) {}
template<typename C> static const __numpunct_cache<C> * np_cache();
template<> const __numpunct_cache<char> * np_cache<char>()
{
  static __numpunct_cache<char> * c = nullptr;
  if (!c) {
    alignas(__numpunct_cache<char>) static char st[sizeof(__numpunct_cache<char>)];
    vp_norace(&c);
    vp_norace(st);
    c = new (st) __numpunct_cache<char>(1);
    c->_M_grouping = "";
    c->_M_grouping_size = 0;
    c->_M_use_grouping = false;
    c->_M_truename = "true"; c->_M_truename_size = 4;
    c->_M_falsename = "false"; c->_M_falsename_size = 5;
    c->_M_decimal_point = '.';
    c->_M_thousands_sep = ',';
    memcpy(c->_M_atoms_out, __num_base::_S_atoms_out, __num_base::_S_oend);
    memcpy(c->_M_atoms_in, __num_base::_S_atoms_in, __num_base::_S_iend);
  }
  return c;
}
const char * __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
const char * __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
void __num_base::_S_format_float(const ios_base &, char *, char) throw() {vp_unmodelled("floating-point output");}
template<> const __numpunct_cache<char> *
__use_cache<__numpunct_cache<char>>::operator()(const locale &) const {return np_cache<char>();}
template<> void __convert_to_v(const char *, float &, ios_base::iostate &, const __c_locale &) throw()
{vp_unmodelled("floating-point input");}
template<> void __convert_to_v(const char *, double &, ios_base::iostate &, const __c_locale &) throw()
{vp_unmodelled("floating-point input");}
template<> void __convert_to_v(const char *, long double &, ios_base::iostate &, const __c_locale &) throw()
{vp_unmodelled("floating-point input");}
bool __verify_grouping(const char *, size_t, const std::string &) throw() {return true;}
__c_locale locale::facet::_S_get_c_locale() {return nullptr;}
const char * locale::facet::_S_get_c_name() throw() {return "C";}
size_t locale::id::_M_id() const throw()
{
  if (!_M_index) {vp_norace(this); vp_norace(&_S_refcount); _M_index = static_cast<size_t>(++_S_refcount);}
  return _M_index - 1;
}
_Atomic_word locale::id::_S_refcount;
static locale::_Impl * the_impl()
{
  static locale::_Impl * impl = nullptr;
  if (!impl) {
    alignas(locale::_Impl) static char st[sizeof(locale::_Impl)];
    static const locale::facet * facets[16];
    static const locale::facet * caches[16];
    alignas(ctype<char>) static char ct[sizeof(ctype<char>)];
    alignas(num_put<char>) static char npt[sizeof(num_put<char>)];
    alignas(num_get<char>) static char ngt[sizeof(num_get<char>)];
    alignas(codecvt<char, char, mbstate_t>) static char cv[sizeof(codecvt<char, char, mbstate_t>)];
    locale::_Impl * p = reinterpret_cast<locale::_Impl *>(st);
    // set up once, before any thread in the real library
    vp_norace(&impl);
    vp_norace(st);
    vp_norace(facets);
    vp_norace(caches);
    vp_norace(ct);
    vp_norace(npt);
    vp_norace(ngt);
    vp_norace(cv);
    p->_M_refcount = 1;
    p->_M_facets = facets;
    p->_M_facets_size = 16;
    p->_M_caches = caches;
    p->_M_names = nullptr;
    facets[ctype<char>::id._M_id()] = new (ct) ctype<char>(nullptr, false, 1);
    facets[num_put<char>::id._M_id()] = new (npt) num_put<char>(1);
    facets[num_get<char>::id._M_id()] = new (ngt) num_get<char>(1);
    facets[codecvt<char, char, mbstate_t>::id._M_id()] = new (cv) codecvt<char, char, mbstate_t>(1);
    impl = p;
  }
  return impl;
}
// There is one locale, the classic one, and it is never destroyed.
locale::locale() throw() : _M_impl(the_impl()) {}
locale::locale(const locale & o) throw() : _M_impl(o._M_impl) {}
locale::locale(const char *) : _M_impl(the_impl()) {}
locale::~locale() throw() {}
const locale & locale::operator=(const locale & o) throw() {_M_impl = o._M_impl; return *this;}
const locale & locale::classic() {static locale l; return l;}
locale locale::global(const locale &) {return locale();}
bool locale::operator==(const locale & o) const throw() {return _M_impl == o._M_impl;}

ios_base::ios_base() throw()
: _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0),
  _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw()
{
  _M_precision = 6;
  _M_width = 0;
  _M_flags = skipws | dec;
  _M_ios_locale = locale();
}
locale ios_base::imbue(const locale & l) throw() {locale o = _M_ios_locale; _M_ios_locale = l; return o;}
int ios_base::xalloc() throw() {vp_unmodelled("ios_base::xalloc");}
void ios_base::register_callback(event_callback, int) {vp_unmodelled("ios_base::register_callback");}
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
void ios_base::_M_move(ios_base & r) noexcept
{
  _M_precision = r._M_precision; _M_width = r._M_width; _M_flags = r._M_flags;
  _M_exception = r._M_exception; _M_streambuf_state = r._M_streambuf_state;
}
void ios_base::_M_swap(ios_base & r) noexcept
{
  std::swap(_M_precision, r._M_precision); std::swap(_M_width, r._M_width);
  std::swap(_M_flags, r._M_flags); std::swap(_M_exception, r._M_exception);
  std::swap(_M_streambuf_state, r._M_streambuf_state);
}
#define VP_EXTR(T) template istream & istream::_M_extract(T &);
VP_EXTR(void *) VP_EXTR(bool) VP_EXTR(double) VP_EXTR(long double) VP_EXTR(float) VP_EXTR(unsigned int)
VP_EXTR(long) VP_EXTR(unsigned long) VP_EXTR(unsigned short) VP_EXTR(long long) VP_EXTR(unsigned long long)
#define VP_INS(T) template ostream & ostream::_M_insert(T);
VP_INS(const void *) VP_INS(bool) VP_INS(double) VP_INS(long double) VP_INS(long) VP_INS(unsigned long)
VP_INS(long long) VP_INS(unsigned long long)
template<> istream & istream::getline(char * s, streamsize n, char d)
{
  _M_gcount = 0;
  ios_base::iostate err = ios_base::goodbit;
  sentry c(*this, true);
  if (c) {
    try {
      int ch = rdbuf()->sgetc();
      while (_M_gcount + 1 < n && ch != EOF && ch != static_cast<unsigned char>(d)) {
        *s++ = static_cast<char>(ch);
        _M_gcount++;
        ch = rdbuf()->snextc();
      }
      if (ch == EOF) {err |= ios_base::eofbit;} else if (ch == static_cast<unsigned char>(d)) {
        _M_gcount++;
        rdbuf()->sbumpc();
      } else {err |= ios_base::failbit;}
    } catch (...) {_M_setstate(ios_base::badbit);}
  }
  if (n > 0) {*s = 0;}
  if (!_M_gcount) {err |= ios_base::failbit;}
  if (err) {setstate(err);}
  return *this;
}
template<> istream & istream::ignore(streamsize n)
{
  sentry c(*this, true);
  _M_gcount = 0;
  if (c) {
    while (_M_gcount < n) {
      int ch = rdbuf()->sbumpc();
      if (ch == EOF) {setstate(ios_base::eofbit); break;}
      _M_gcount++;
    }
  }
  return *this;
}
template<> istream & istream::ignore(streamsize n, int_type d)
{
  sentry c(*this, true);
  _M_gcount = 0;
  if (c) {
    while (n == numeric_limits<streamsize>::max() || _M_gcount < n) {
      int ch = rdbuf()->sbumpc();
      if (ch == EOF) {setstate(ios_base::eofbit); break;}
      _M_gcount++;
      if (ch == d) {break;}
    }
  }
  return *this;
}
template<> streamsize __copy_streambufs_eof(streambuf * in, streambuf * out, bool & eof)
{
  streamsize n = 0;
  eof = true;
  for (int c = in->sgetc(); c != EOF; c = in->snextc()) {
    if (out->sputc(static_cast<char>(c)) == EOF) {eof = false; break;}
    n++;
  }
  return n;
}
template streamsize __copy_streambufs(streambuf *, streambuf *);
template<> istream & getline(istream & in, std::string & s, char d)
{
  size_t n = 0;
  ios_base::iostate err = ios_base::goodbit;
  istream::sentry c(in, true);
  if (c) {
    try {
      s.erase();
      int ch = in.rdbuf()->sgetc();
      while (n < s.max_size() && ch != EOF && ch != static_cast<unsigned char>(d)) {
        s += static_cast<char>(ch);
        n++;
        ch = in.rdbuf()->snextc();
      }
      if (ch == EOF) {err |= ios_base::eofbit;} else if (ch == static_cast<unsigned char>(d)) {
        n++;
        in.rdbuf()->sbumpc();
      } else {err |= ios_base::failbit;}
    } catch (...) {in._M_setstate(ios_base::badbit);}
  }
  if (!n) {err |= ios_base::failbit;}
  if (err) {in.setstate(err);}
  return in;
}
template const ctype<char> * __try_use_facet(const locale &);
template const num_get<char> * __try_use_facet(const locale &);
template const num_put<char> * __try_use_facet(const locale &);
template const codecvt<char, char, mbstate_t> * __try_use_facet(const locale &);
template const ctype<char> & use_facet(const locale &);
template const codecvt<char, char, mbstate_t> & use_facet(const locale &);
template bool has_facet<ctype<char>>(const locale &);
template bool has_facet<codecvt<char, char, mbstate_t>>(const locale &);
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class __cxx11::basic_stringbuf<char>;
template class __cxx11::basic_ostringstream<char>;
template class __cxx11::basic_istringstream<char>;
template class __cxx11::basic_stringstream<char>;
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
template class allocator<char>;
template class num_put<char>;
template class num_get<char>;
template class __cxx11::basic_string<char>;
template ostream & endl(ostream &);
template ostream & ends(ostream &);
template ostream & flush(ostream &);
template ostream & operator<<(ostream &, char);
template ostream & operator<<(ostream &, unsigned char);
template ostream & operator<<(ostream &, signed char);
template ostream & operator<<(ostream &, const char *);
template ostream & operator<<(ostream &, const std::string &);
template ostream & __ostream_insert(ostream &, const char *, streamsize);
template istream & ws(istream &);
template istream & operator>>(istream &, char &);
template istream & operator>>(istream &, unsigned char &);
template<> istream & operator>>(istream & in, std::string & s)
{
  streamsize got = 0;
  ios_base::iostate err = ios_base::goodbit;
  istream::sentry k(in, false);
  if (k) {
    try {
      s.erase();
      const streamsize w = in.width();
      const size_t n = w > 0 ? static_cast<size_t>(w) : s.max_size();
      const ctype<char> & ct = use_facet<ctype<char>>(in.getloc());
      int c = in.rdbuf()->sgetc();
      while (static_cast<size_t>(got) < n && c != EOF && !ct.is(ctype_base::space, static_cast<char>(c))) {
        s += static_cast<char>(c);
        got++;
        c = in.rdbuf()->snextc();
      }
      if (static_cast<size_t>(got) < n && c == EOF) {err |= ios_base::eofbit;}
      in.width(0);
    } catch (...) {in._M_setstate(ios_base::badbit);}
  }
  if (!got) {err |= ios_base::failbit;}
  if (err) {in.setstate(err);}
  return in;
}
template istream & getline(istream &, std::string &);
void __istream_extract(istream & in, char * s, streamsize num)
{
  streamsize got = 0;
  ios_base::iostate err = ios_base::goodbit;
  istream::sentry k(in, false);
  if (k) {
    try {
      const streamsize w = in.width();
      if (w > 0 && w < num) {num = w;}
      const ctype<char> & ct = use_facet<ctype<char>>(in.getloc());
      int c = in.rdbuf()->sgetc();
      while (got < num - 1 && c != EOF && !ct.is(ctype_base::space, static_cast<char>(c))) {
        *s++ = static_cast<char>(c);
        got++;
        c = in.rdbuf()->snextc();
      }
      if (got < num - 1 && c == EOF) {err |= ios_base::eofbit;}
      *s = 0;
      in.width(0);
    } catch (...) {in._M_setstate(ios_base::badbit);}
  }
  if (!got) {err |= ios_base::failbit;}
  if (err) {in.setstate(err);}
}
}
namespace std
{
ostream cout(nullptr), cerr(nullptr), clog(nullptr);
istream cin(nullptr);

// --------------------------------------------------------------------------------- file contents
struct VpFile { int h; };
__basic_file<char>::__basic_file(__c_lock *) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() {close();}
__basic_file<char> * __basic_file<char>::open(const char * name, ios_base::openmode mode, int)
{
  if (is_open()) {return nullptr;}
  if (mode & (ios_base::out | ios_base::app | ios_base::trunc)) {vp_unmodelled("opening a file for writing");}
  int h = vp_fs_open(name);
  if (h < 0) {errno = -h; return nullptr;}
  VpFile * f = new VpFile;
  f->h = h;
  _M_cfile = reinterpret_cast<__c_file *>(f);
  _M_cfile_created = true;
  return this;
}
__basic_file<char> * __basic_file<char>::sys_open(__c_file *, ios_base::openmode) {vp_unmodelled("sys_open");}
__basic_file<char> * __basic_file<char>::sys_open(int, ios_base::openmode) throw() {vp_unmodelled("sys_open");}
__basic_file<char> * __basic_file<char>::close()
{
  if (!_M_cfile) {return nullptr;}
  VpFile * f = reinterpret_cast<VpFile *>(_M_cfile);
  _M_cfile = nullptr;
  vp_fs_close(f->h);
  delete f;
  return this;
}
bool __basic_file<char>::is_open() const throw() {return _M_cfile != nullptr;}
int __basic_file<char>::fd() throw() {return 3;}
__c_file * __basic_file<char>::file() throw() {return _M_cfile;}
streamsize __basic_file<char>::xsputn(const char *, streamsize) {vp_unmodelled("write");}
streamsize __basic_file<char>::xsputn_2(const char *, streamsize, const char *, streamsize) {vp_unmodelled("write");}
streamsize __basic_file<char>::xsgetn(char * s, streamsize n)
{
  long r = vp_fs_read(reinterpret_cast<VpFile *>(_M_cfile)->h, s, static_cast<size_t>(n));
  if (r < 0) {errno = static_cast<int>(-r); return -1;}
  return r;
}
streamoff __basic_file<char>::seekoff(streamoff, ios_base::seekdir) throw() {vp_unmodelled("seek");}
int __basic_file<char>::sync() {return 0;}
streamsize __basic_file<char>::showmanyc() {return 0;}
}

// ----------------------------------------------------------------------------------- std::filesystem
namespace std::filesystem
{
inline namespace __cxx11
{
using std::string;
using sv = basic_string_view<char>;
struct path::_List::_Impl { vector<_Cmpt> v; };
static path::_List::_Impl * raw(const path::_List & l)
{
  return reinterpret_cast<path::_List::_Impl *>(reinterpret_cast<uintptr_t>(l._M_impl.get()) & ~static_cast<uintptr_t>(3));
}
void path::_List::_Impl_deleter::operator()(_Impl * p) const noexcept
{
  p = reinterpret_cast<_Impl *>(reinterpret_cast<uintptr_t>(p) & ~static_cast<uintptr_t>(3));
  if (p) {delete p;}
}
static void reset(path::_List & l, path::_List::_Impl * p, path::_Type t)
{
  l._M_impl.reset(reinterpret_cast<path::_List::_Impl *>(reinterpret_cast<uintptr_t>(p) | static_cast<uintptr_t>(t)));
}
path::_List::_List() : _M_impl(reinterpret_cast<_Impl *>(static_cast<uintptr_t>(_Type::_Filename))) {}
path::_List::_List(const _List & o)
{
  reset(*this, raw(o) ? new _Impl(*raw(o)) : nullptr, o.type());
}
path::_List & path::_List::operator=(const _List & o)
{
  if (this != &o) {reset(*this, raw(o) ? new _Impl(*raw(o)) : nullptr, o.type());}
  return *this;
}
void path::_List::type(_Type t) noexcept {reset(*this, nullptr, t);}
int path::_List::size() const noexcept {return raw(*this) ? static_cast<int>(raw(*this)->v.size()) : 0;}
bool path::_List::empty() const noexcept {return size() == 0;}
void path::_List::clear() {if (raw(*this)) {raw(*this)->v.clear();}}
path::_List::iterator path::_List::begin() noexcept {return raw(*this) ? raw(*this)->v.data() : nullptr;}
path::_List::iterator path::_List::end() noexcept
{
  return raw(*this) ? raw(*this)->v.data() + raw(*this)->v.size() : nullptr;
}
path::_List::const_iterator path::_List::begin() const noexcept {return raw(*this) ? raw(*this)->v.data() : nullptr;}
path::_List::const_iterator path::_List::end() const noexcept
{
  return raw(*this) ? raw(*this)->v.data() + raw(*this)->v.size() : nullptr;
}
path::_Cmpt & path::_List::front() noexcept {return *begin();}
path::_Cmpt & path::_List::back() noexcept {return *(end() - 1);}
const path::_Cmpt & path::_List::front() const noexcept {return *begin();}
const path::_Cmpt & path::_List::back() const noexcept {return *(end() - 1);}
void path::_List::pop_back() {raw(*this)->v.pop_back();}
path::_Cmpt::_Cmpt(sv s, _Type t, size_t pos) : path(s, t), _M_pos(pos) {}

path::path(sv s, _Type t) : _M_pathname(s) {_M_cmpts.type(t);}
void path::_M_split_cmpts()
{
  const std::string & s = _M_pathname;
  size_t n = s.size();
  if (n == 0) {_M_cmpts.type(_Type::_Filename); return;}
  vector<_Cmpt> v;
  size_t i = 0;
  if (s[0] == '/') {
    v.emplace_back(sv(s).substr(0, 1), _Type::_Root_dir, 0);
    while (i < n && s[i] == '/') {i++;}
    if (i == n) {_M_cmpts.type(_Type::_Root_dir); return;}
  }
  size_t start = i;
  for (; i < n; i++) {
    if (s[i] == '/') {
      v.emplace_back(sv(s).substr(start, i - start), _Type::_Filename, start);
      while (i < n && s[i] == '/') {i++;}
      start = i;
      if (i == n) {break;}
      i--;
    }
  }
  if (start < n) {
    v.emplace_back(sv(s).substr(start), _Type::_Filename, start);
  } else {
    v.emplace_back(sv(), _Type::_Filename, n);
  }
  if (v.size() == 1) {_M_cmpts.type(_Type::_Filename); return;}
  _List::_Impl * p = new _List::_Impl;
  p->v = std::move(v);
  reset(_M_cmpts, p, _Type::_Multi);
}
path & path::operator=(const path & o)
{
  if (this != &o) {
    _M_pathname = o._M_pathname;
    _M_cmpts = o._M_cmpts;
  }
  return *this;
}
void path::_M_append(sv s)
{
  if (!s.empty() && s[0] == '/') {
    _M_pathname.assign(s.data(), s.size());
  } else {
    if (has_filename()) {_M_pathname += '/';}
    _M_pathname.append(s.data(), s.size());
  }
  _M_split_cmpts();
}
path & path::operator/=(const path & o)
{
  if (o.is_absolute() || empty()) {return operator=(o);}
  std::string t = o._M_pathname;
  _M_append(t);
  return *this;
}
void path::_M_concat(sv s) {_M_pathname.append(s.data(), s.size()); _M_split_cmpts();}
path & path::operator+=(const path & o) {std::string t = o._M_pathname; _M_concat(t); return *this;}
bool path::has_root_directory() const noexcept {return !_M_pathname.empty() && _M_pathname[0] == '/';}
bool path::has_root_name() const noexcept {return false;}
bool path::has_root_path() const noexcept {return has_root_directory();}
bool path::has_relative_path() const noexcept
{
  for (char c : _M_pathname) {if (c != '/') {return true;}}
  return false;
}
bool path::has_parent_path() const noexcept {return !parent_path().empty();}
bool path::has_filename() const noexcept {return !_M_pathname.empty() && _M_pathname.back() != '/';}
path path::root_name() const {return path();}
path path::root_directory() const {return has_root_directory() ? path("/") : path();}
path path::root_path() const {return root_directory();}
path path::relative_path() const
{
  size_t i = 0;
  while (i < _M_pathname.size() && _M_pathname[i] == '/') {i++;}
  return path(_M_pathname.substr(i));
}
path path::parent_path() const
{
  if (!has_relative_path()) {return *this;}
  size_t i = _M_pathname.size();
  while (i > 0 && _M_pathname[i - 1] != '/') {i--;}
  size_t e = i;
  while (e > 0 && _M_pathname[e - 1] == '/') {e--;}
  if (e == 0) {return i ? path("/") : path();}
  return path(_M_pathname.substr(0, e));
}
path & path::remove_filename()
{
  size_t i = _M_pathname.size();
  while (i > 0 && _M_pathname[i - 1] != '/') {i--;}
  _M_pathname.resize(i);
  _M_split_cmpts();
  return *this;
}
path & path::replace_filename(const path & r) {remove_filename(); operator/=(r); return *this;}
path & path::replace_extension(const path & r)
{
  auto e = _M_find_extension();
  if (e.first && e.second != std::string::npos) {
    size_t n = e.first->size() - e.second;
    _M_pathname.resize(_M_pathname.size() - n);
  }
  if (!r.empty() && r.native()[0] != '.') {_M_pathname += '.';}
  _M_pathname += r._M_pathname;
  _M_split_cmpts();
  return *this;
}
pair<const std::string *, size_t> path::_M_find_extension() const noexcept
{
  const std::string * s = nullptr;
  if (_M_type() == _Type::_Filename) {s = &_M_pathname;
  } else if (_M_type() == _Type::_Multi && !_M_cmpts.empty()) {
    const auto & c = _M_cmpts.back();
    if (c._M_type() == _Type::_Filename) {s = &c._M_pathname;}
  }
  if (s) {
    size_t sz = s->size();
    if (sz == 0) {return {nullptr, std::string::npos};}
    if (sz <= 2 && (*s)[0] == '.') {return {s, std::string::npos};}
    size_t p = s->rfind('.');
    return {s, p ? p : std::string::npos};
  }
  return {nullptr, std::string::npos};
}
int path::compare(const path & o) const noexcept
{
  if (has_root_directory() != o.has_root_directory()) {return has_root_directory() ? 1 : -1;}
  auto a = begin(), b = o.begin();
  auto ae = end(), be = o.end();
  for (; a != ae && b != be; ++a, ++b) {
    int r = a->native().compare(b->native());
    if (r) {return r;}
  }
  return a != ae ? 1 : b != be ? -1 : 0;
}
int path::compare(sv s) const noexcept {return compare(path(s));}
size_t hash_value(const path & p) noexcept
{
  size_t h = 0;
  for (const auto & c : p) {h = h * 31 + std::hash<string>()(c.native());}
  return h;
}
path path::lexically_normal() const
{
  path ret;
  if (empty()) {return ret;}
  for (const auto & c : *this) {
    if (c.native() == "..") {
      if (ret.has_filename() && ret.filename() != "..") {ret.remove_filename();
      } else if (!ret.has_filename() && !ret.has_relative_path() && ret.has_root_directory()) {
      } else if (ret.has_relative_path() && !ret.has_filename()) {
        path par = ret.parent_path();
        if (par.filename() != "..") {ret = par.remove_filename();} else {ret /= c;}
      } else {ret /= c;}
    } else if (c.native() == ".") {
      ret /= path();
    } else {ret /= c;}
  }
  if (ret.empty()) {ret = ".";}
  return ret;
}
struct filesystem_error::_Impl { path p1, p2; string w; };
filesystem_error::filesystem_error(const string & s, error_code e)
: system_error(e, s), _M_impl(std::make_shared<_Impl>()) {}
filesystem_error::filesystem_error(const string & s, const path & p, error_code e)
: system_error(e, s), _M_impl(std::make_shared<_Impl>(_Impl{p, path(), s})) {}
filesystem_error::filesystem_error(const string & s, const path & p, const path & q, error_code e)
: system_error(e, s), _M_impl(std::make_shared<_Impl>(_Impl{p, q, s})) {}
filesystem_error::~filesystem_error() {}
const path & filesystem_error::path1() const noexcept {return _M_impl->p1;}
const path & filesystem_error::path2() const noexcept {return _M_impl->p2;}
const char * filesystem_error::what() const noexcept {return _M_impl->w.c_str();}
}
static file_type ftype(int k)
{
  switch (k) {
    case VP_FS_REGULAR: return file_type::regular;
    case VP_FS_DIR: return file_type::directory;
    case VP_FS_FIFO: return file_type::fifo;
    case VP_FS_SOCKET: return file_type::socket;
    case VP_FS_CHAR: return file_type::character;
    case VP_FS_BLOCK: return file_type::block;
    case VP_FS_LINK: return file_type::symlink;
    default: return file_type::unknown;
  }
}
static file_status stat_(const path & p, error_code & ec, bool follow) noexcept
{
  int r = vp_fs_stat(p.c_str(), follow);
  if (r >= 0) {
    ec.clear();
    return file_status(ftype(r), perms::owner_read);
  }
  int e = -r;
  ec.assign(e, generic_category());
  if (e == ENOENT || e == ENOTDIR) {return file_status(file_type::not_found);}
#ifdef EOVERFLOW
  if (e == EOVERFLOW) {return file_status(file_type::unknown);}
#endif
  return file_status(file_type::none);
}
file_status status(const path & p, error_code & ec) noexcept {return stat_(p, ec, true);}
file_status symlink_status(const path & p, error_code & ec) noexcept {return stat_(p, ec, false);}
file_status status(const path & p)
{
  error_code ec;
  file_status r = status(p, ec);
  if (r.type() == file_type::none) {throw filesystem_error("status", p, ec);}
  return r;
}
file_status symlink_status(const path & p)
{
  error_code ec;
  file_status r = symlink_status(p, ec);
  if (r.type() == file_type::none) {throw filesystem_error("symlink_status", p, ec);}
  return r;
}
uintmax_t file_size(const path & p, error_code & ec) noexcept
{
  file_status s = status(p, ec);
  if (!exists(s)) {
    if (!ec) {ec.assign(ENOENT, generic_category());}
    return static_cast<uintmax_t>(-1);
  }
  if (s.type() == file_type::regular) {
    ec.clear();
    long n = vp_fs_size(p.c_str());
    return static_cast<uintmax_t>(n);
  }
  ec = make_error_code(s.type() == file_type::directory ? errc::is_a_directory : errc::not_supported);
  return static_cast<uintmax_t>(-1);
}
uintmax_t file_size(const path & p)
{
  error_code ec;
  uintmax_t r = file_size(p, ec);
  if (ec) {throw filesystem_error("cannot get file size", p, ec);}
  return r;
}
path absolute(const path & p) {if (p.is_absolute()) {return p;} return path("/cwd") / p;}
path absolute(const path & p, error_code & ec) {ec.clear(); return absolute(p);}
path current_path() {return path("/cwd");}
}

// ------------------------------------------------------------- C file access, same file-system model
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
static unsigned mode_of(int k)
{
  switch (k) {
    case VP_FS_REGULAR: return S_IFREG | 0644;
    case VP_FS_DIR: return S_IFDIR | 0755;
    case VP_FS_FIFO: return S_IFIFO | 0644;
    case VP_FS_SOCKET: return S_IFSOCK | 0644;
    case VP_FS_CHAR: return S_IFCHR | 0644;
    case VP_FS_BLOCK: return S_IFBLK | 0644;
    case VP_FS_LINK: return S_IFLNK | 0777;
    default: return 0;
  }
}
static int cstat(const char * p, struct stat * b, bool follow)
{
  int r = vp_fs_stat(p, follow);
  if (r < 0) {errno = -r; return -1;}
  memset(b, 0, sizeof *b);
  b->st_mode = mode_of(r);
  if (r == VP_FS_REGULAR) {b->st_size = vp_fs_size(p);}
  return 0;
}
int stat(const char * p, struct stat * b) throw() {return cstat(p, b, true);}
int lstat(const char * p, struct stat * b) throw() {return cstat(p, b, false);}
int access(const char * p, int) throw()
{
  int r = vp_fs_stat(p, 1);
  if (r < 0) {errno = -r; return -1;}
  return 0;
}
int open(const char * p, int, ...)
{
  int h = vp_fs_open(p);
  if (h < 0) {errno = -h; return -1;}
  return h;
}
ssize_t read(int h, void * b, size_t n)
{
  long r = vp_fs_read(h, static_cast<char *>(b), n);
  if (r < 0) {errno = static_cast<int>(-r); return -1;}
  return r;
}
int close(int h) {vp_fs_close(h); return 0;}
FILE * fopen(const char * p, const char *)
{
  int h = vp_fs_open(p);
  if (h < 0) {errno = -h; return nullptr;}
  std::VpFile * f = new std::VpFile;
  f->h = h;
  return reinterpret_cast<FILE *>(f);
}
int fclose(FILE * f)
{
  std::VpFile * v = reinterpret_cast<std::VpFile *>(f);
  vp_fs_close(v->h);
  delete v;
  return 0;
}
int fgetc(FILE * f)
{
  char c;
  long r = vp_fs_read(reinterpret_cast<std::VpFile *>(f)->h, &c, 1);
  return r == 1 ? static_cast<unsigned char>(c) : EOF;
}
int getc(FILE * f) {return fgetc(f);}
char * fgets(char * b, int n, FILE * f)
{
  int i = 0;
  while (i + 1 < n) {
    int c = fgetc(f);
    if (c == EOF) {break;}
    b[i++] = static_cast<char>(c);
    if (c == '\n') {break;}
  }
  if (i == 0) {return nullptr;}
  b[i] = 0;
  return b;
}
size_t fread(void * b, size_t s, size_t n, FILE * f)
{
  long r = vp_fs_read(reinterpret_cast<std::VpFile *>(f)->h, static_cast<char *>(b), s * n);
  return r < 0 ? 0 : static_cast<size_t>(r) / s;
}
// default file system: empty
__attribute__((weak)) int vp_fs_stat(const char *, int) {return -ENOENT;}
__attribute__((weak)) int vp_fs_open(const char *) {return -ENOENT;}
__attribute__((weak)) long vp_fs_read(int, char *, size_t) {return -EBADF;}
__attribute__((weak)) long vp_fs_size(const char *) {return -1;}
__attribute__((weak)) void vp_fs_close(int) {}
}
namespace std {template class __shared_ptr<const filesystem::filesystem_error::_Impl>;}


// ------------------------------------------------------------------- once, condition variables, wide
extern "C" {
int __cxa_guard_acquire(uint64_t *);
void __cxa_guard_release(uint64_t *);
int pthread_once(pthread_once_t * o, void (* f)(void))
{
  if (__cxa_guard_acquire(reinterpret_cast<uint64_t *>(o))) {
    f();
    __cxa_guard_release(reinterpret_cast<uint64_t *>(o));
  }
  return 0;
}
void vp_rt_cond_wait(void *, void *);
void vp_rt_cond_notify(void *);
void __once_proxy(void);
int pthread_cond_destroy(pthread_cond_t *) throw() {return 0;}
wchar_t * wmemcpy(wchar_t * d, const wchar_t * p, size_t n) throw()
{
  for (size_t i = 0; i < n; i++) {d[i] = p[i];}
  return d;
}
size_t wcslen(const wchar_t * p) {size_t n = 0; while (p[n]) {n++;} return n;}
}
namespace std
{
__thread void * __once_callable;
__thread void (* __once_call)();
extern "C" void __once_proxy() {__once_call();}
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> & l)
{
  vp_rt_cond_wait(this, l.mutex()->native_handle());
  pthread_mutex_lock(l.mutex()->native_handle());
}
void condition_variable::notify_one() noexcept {vp_rt_cond_notify(this);}
void condition_variable::notify_all() noexcept {vp_rt_cond_notify(this);}
}
