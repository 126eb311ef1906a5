// Engine-only: output streams with the classic locale, integers in decimal.
#include "sym.h"
#include <ostream>
#include <sstream>
namespace std {
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale &o) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(fmtflags(skipws | dec)), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = fmtflags(skipws | dec); }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
struct Ios : basic_ios<char> {
  static void init(basic_ios<char> *s, basic_streambuf<char> *b) {
    Ios *t = (Ios *)s;
    t->_M_init();
    t->_M_fill = ' '; t->_M_fill_init = true;
    t->_M_tie = nullptr; t->_M_exception = goodbit; t->_M_streambuf = b; t->_M_streambuf_state = b ? goodbit : badbit;
    t->_M_ctype = nullptr; t->_M_num_put = nullptr; t->_M_num_get = nullptr;
  }
  static void clr(basic_ios<char> *s, iostate st) { ((Ios *)s)->_M_streambuf_state = s->rdbuf() ? st : iostate(st | badbit); }
};
static ostream &putNum(ostream &o, bool neg, unsigned long long v) {
  char b[24]; int i = 24;
  do { b[--i] = '0' + v % 10; v /= 10; } while (v);
  if (neg) b[--i] = '-';
  return o.write(b + i, 24 - i);
}
}
using namespace std;
#define AS(n) __asm__(n)
extern "C" {
void m_init(basic_ios<char> *s, basic_streambuf<char> *b) AS("_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E");
void m_clear(basic_ios<char> *s, ios_base::iostate st) AS("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate");
ostream &m_l(ostream *o, long v) AS("_ZNSo9_M_insertIlEERSoT_");
ostream &m_x(ostream *o, long long v) AS("_ZNSo9_M_insertIxEERSoT_");
ostream &m_m(ostream *o, unsigned long v) AS("_ZNSo9_M_insertImEERSoT_");
ostream &m_y(ostream *o, unsigned long long v) AS("_ZNSo9_M_insertIyEERSoT_");
ostream &m_b(ostream *o, bool v) AS("_ZNSo9_M_insertIbEERSoT_");
ostream &m_i(ostream *o, int v) AS("_ZNSolsEi");
ostream &m_s(ostream *o, short v) AS("_ZNSolsEs");
ostream &m_d(ostream *o, double v) AS("_ZNSo9_M_insertIdEERSoT_");
ostream &m_p(ostream *o, const void *v) AS("_ZNSo9_M_insertIPKvEERSoT_");
void m_init(basic_ios<char> *s, basic_streambuf<char> *b) { Ios::init(s, b); }
void m_clear(basic_ios<char> *s, ios_base::iostate st) { Ios::clr(s, st); }
ostream &m_l(ostream *o, long v) { return putNum(*o, v < 0, v < 0 ? 0ull - v : v); }
ostream &m_x(ostream *o, long long v) { return putNum(*o, v < 0, v < 0 ? 0ull - v : v); }
ostream &m_i(ostream *o, int v) { return putNum(*o, v < 0, v < 0 ? 0ull - v : v); }
ostream &m_s(ostream *o, short v) { return putNum(*o, v < 0, v < 0 ? 0ull - v : v); }
ostream &m_m(ostream *o, unsigned long v) { return putNum(*o, false, v); }
ostream &m_y(ostream *o, unsigned long long v) { return putNum(*o, false, v); }
ostream &m_b(ostream *o, bool v) { return putNum(*o, false, v); }
ostream &m_d(ostream *o, double) { return o->write("?", 1); }
ostream &m_p(ostream *o, const void *) { return o->write("?", 1); }
}
