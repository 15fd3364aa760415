// In-memory replacement of the iostream headers: files live in a table inside the program, numbers are printed as
// tokens that carry the value itself (a decimal print with at least 17 significant digits followed by a parse is
// modelled as the identity; fewer digits add an arbitrary rounding error of up to half a unit in the last place).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iosfwd>
#include <string>
#include <vector>
#include <utility>
#include <exception>
#include <stdexcept>
#include <type_traits>
#include <limits>
#include <initializer_list>
#include <bits/localefwd.h>
extern "C" { uint64_t vx_concretize(uint64_t); double vx_real(const char*); void vx_assume_(int); void vx_fail(const char*); int vx_is_symbolic(uint64_t); }
extern "C" double vxio_token_value(long id); extern "C" long vxio_token_new(double v, int prec);
struct VxFile { std::string name; std::string data; bool dir; };
std::vector<VxFile*>& vxio_files(); VxFile* vxio_find(const std::string& n);
namespace std {
typedef long streamoff; typedef long streamsize;
class locale { public: locale() {} explicit locale(const char*) {} static const locale& classic() { static locale l; return l; } };
class ios_base {
 public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static constexpr openmode app = 1, binary = 2, in = 4, out = 8, trunc = 16, ate = 32;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  static constexpr fmtflags scientific = 1, fixed = 2, left = 4, right = 8, internal = 16, dec = 32, hex = 64, oct = 128, boolalpha = 256, showpoint = 512, showpos = 1024, skipws = 2048, basefield = 224, floatfield = 3, adjustfield = 28, unitbuf = 4096, uppercase = 8192, showbase = 16384;
  class failure : public runtime_error { public: failure(const string& s) : runtime_error(s) {} };
  class Init {};
  fmtflags fl_ = 2048 | 32; streamsize prec_ = 6, w_ = 0; char fill_ = ' ';
  fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { auto o = fl_; fl_ = f; return o; } fmtflags setf(fmtflags f) { auto o = fl_; fl_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl_ &= ~f; }
  streamsize precision() const { return prec_; } streamsize precision(streamsize p) { auto o = prec_; prec_ = p; return o; } streamsize width() const { return w_; } streamsize width(streamsize p) { auto o = w_; w_ = p; return o; }
  locale getloc() const { return locale(); } locale imbue(const locale& l) { return l; } static bool sync_with_stdio(bool = true) { return true; }
};
typedef ios_base __vx_ios;
template <class C, class T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; typedef int int_type; string* s_ = nullptr; size_t g_ = 0; basic_streambuf* pubsetbuf(C*, long) { return this; } virtual ~basic_streambuf() {} };
template <class C, class T> class basic_stringbuf : public basic_streambuf<C, T> {};
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> {};
template <class C, class T> class basic_ios : public ios_base {
 public:
  typedef C char_type; typedef T traits_type;
  iostate st_ = 0; iostate ex_ = 0;
  string own_; string* s_ = &own_; size_t g_ = 0, p_ = 0; bool sink_ = false;
  bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; } explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; } void clear(iostate s = 0) { st_ = s; } void setstate(iostate s) { st_ |= s; if (st_ & ex_) throw ios_base::failure("ios"); } iostate exceptions() const { return ex_; } void exceptions(iostate e) { ex_ = e; }
  char fill() const { return fill_; } char fill(char c) { auto o = fill_; fill_ = c; return o; }
  basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; prec_ = o.prec_; w_ = o.w_; fill_ = o.fill_; return *this; }
  basic_ios* tie() const { return nullptr; } template <class X> basic_ios* tie(X*) { return nullptr; }
  basic_streambuf<C, T>* rdbuf() const { return nullptr; } template <class X> basic_streambuf<C, T>* rdbuf(X*) { return nullptr; }
  C widen(char c) const { return c; } char narrow(C c, char) const { return c; }
  basic_ios() {} basic_ios(const basic_ios&) = delete; virtual ~basic_ios() {}
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
 public:
  typedef basic_ostream M; typedef C char_type; typedef T traits_type; typedef std::ios_base ios_base; class sentry { public: explicit sentry(M&) {} explicit operator bool() const { return true; } };
  basic_ostream() {}
  void raw(const char* b, size_t n) { if (this->sink_ || this->fail()) return; if (!n) return; string& s = *this->s_; if (s.size() < this->p_ + n) s.resize(this->p_ + n); memcpy(&s[this->p_], b, n); this->p_ += n; }
  void pad(const char* b, size_t n) { size_t w = this->w_ > 0 ? this->w_ : 0; this->w_ = 0; bool l = this->fl_ & ios_base::left; char f = this->fill_; if (l) raw(b, n); for (size_t i = n; i < w; ++i) raw(&f, 1); if (!l) raw(b, n); }
  M& write(const char* b, long n) { raw(b, n); return *this; } M& put(char c) { raw(&c, 1); return *this; } M& flush() { return *this; }
  long tellp() { return this->p_; } M& seekp(long o) { this->p_ = o; return *this; } M& seekp(long o, int d) { this->p_ = d == 0 ? o : d == 1 ? this->p_ + o : this->s_->size() + o; return *this; }
  M& u(uint64_t v, bool neg) { char b[72]; int n = 0; v = vx_concretize(v); unsigned base = this->fl_ & ios_base::hex ? 16 : this->fl_ & ios_base::oct ? 8 : 10; do { b[71 - n++] = "0123456789abcdef"[v % base]; v /= base; } while (v); if (neg) b[71 - n++] = '-'; pad(b + 72 - n, n); return *this; }
  M& operator<<(long long v) { return v < 0 ? u(0 - (uint64_t)v, true) : u(v, false); } M& operator<<(unsigned long long v) { return u(v, false); }
  M& operator<<(long v) { return *this << (long long)v; } M& operator<<(unsigned long v) { return u(v, false); } M& operator<<(int v) { return *this << (long long)v; } M& operator<<(unsigned v) { return u(v, false); } M& operator<<(short v) { return *this << (long long)v; } M& operator<<(unsigned short v) { return u(v, false); } M& operator<<(bool v) { return u(v, false); }
  M& operator<<(double v) { if (this->sink_) return *this; int p = this->prec_; bool dot = false; if (this->fl_ & ios_base::fixed) dot = p > 0, p = -p; else if (this->fl_ & ios_base::scientific) dot = p > 0, ++p; char b[40]; int n = 0; b[n++] = 1; long id = vxio_token_new(v, p); char d[24]; int k = 0; do { d[k++] = '0' + id % 10; id /= 10; } while (id); while (k) b[n++] = d[--k]; if (dot) b[n++] = '.'; b[n++] = 2; pad(b, n); return *this; }
  M& operator<<(float v) { return *this << (double)v; } M& operator<<(long double v) { return *this << (double)v; } M& operator<<(const void*) { return *this; }
  M& operator<<(M& (*f)(M&)) { return f(*this); } M& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; } M& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
};
inline ostream& operator<<(ostream& o, const char* s) { o.pad(s, strlen(s)); return o; } inline ostream& operator<<(ostream& o, char c) { o.pad(&c, 1); return o; } inline ostream& operator<<(ostream& o, const string& s) { o.pad(s.data(), s.size()); return o; } inline ostream& operator<<(ostream& o, const string_view& s) { o.pad(s.data(), s.size()); return o; } inline ostream& operator<<(ostream& o, unsigned char c) { o.pad((char*)&c, 1); return o; } inline ostream& operator<<(ostream& o, signed char c) { o.pad((char*)&c, 1); return o; }
template <class C, class T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put('\n'); return o; } template <class C, class T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; } template <class C, class T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { o.put(0); return o; }
inline ios_base& scientific(ios_base& b) { b.setf(1, 3); return b; } inline ios_base& fixed(ios_base& b) { b.setf(2, 3); return b; } inline ios_base& defaultfloat(ios_base& b) { b.unsetf(3); return b; } inline ios_base& left(ios_base& b) { b.setf(4, 28); return b; } inline ios_base& right(ios_base& b) { b.setf(8, 28); return b; } inline ios_base& internal(ios_base& b) { return b; } inline ios_base& hex(ios_base& b) { b.setf(64, 224); return b; } inline ios_base& dec(ios_base& b) { b.setf(32, 224); return b; } inline ios_base& oct(ios_base& b) { b.setf(128, 224); return b; } inline ios_base& boolalpha(ios_base& b) { return b; } inline ios_base& noboolalpha(ios_base& b) { return b; } inline ios_base& showpos(ios_base& b) { return b; } inline ios_base& skipws(ios_base& b) { b.setf(2048); return b; } inline ios_base& noskipws(ios_base& b) { b.unsetf(2048); return b; } inline ios_base& showpoint(ios_base& b) { return b; } inline ios_base& uppercase(ios_base& b) { return b; }
struct _Setw { int n; }; struct _Setprecision { int n; }; struct _SetfillC { char c; };
inline _Setw setw(int n) { return {n}; } inline _Setprecision setprecision(int n) { return {n}; } inline _SetfillC setfill(char c) { return {c}; }
inline ostream& operator<<(ostream& o, _Setw w) { o.width(w.n); return o; } inline ostream& operator<<(ostream& o, _Setprecision w) { o.precision(w.n); return o; } inline ostream& operator<<(ostream& o, _SetfillC w) { o.fill(w.c); return o; }
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
 public:
  typedef basic_istream M; typedef C char_type; typedef T traits_type; typedef std::ios_base ios_base; long gc_ = 0;
  class sentry { bool ok; public: explicit sentry(M& m, bool nos = false) { if (!nos && m.good()) m.ws_(); ok = m.good(); if (!ok) m.setstate(ios_base::failbit); } explicit operator bool() const { return ok; } };
  basic_istream() {}
  bool at_end() const { return this->g_ >= this->s_->size(); }
  static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  void ws_() { while (!at_end() && sp((*this->s_)[this->g_])) ++this->g_; if (at_end()) this->st_ |= ios_base::eofbit; }
  bool start() { if (!this->good()) { this->setstate(ios_base::failbit); return false; } while (!at_end() && sp((*this->s_)[this->g_])) ++this->g_; if (at_end()) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; } return true; }
  bool num(string& t, bool real) {
    if (!start()) return false; string& s = *this->s_;
    if (s[this->g_] == 1) { while (!at_end()) { char c = s[this->g_++]; t.push_back(c); if (c == 2) break; } if (at_end()) this->st_ |= ios_base::eofbit; return true; }
    while (!at_end()) { char c = s[this->g_]; bool ok = (c >= '0' && c <= '9') || ((c == '+' || c == '-') && (t.empty() || (real && (t.back() == 'e' || t.back() == 'E')))) || (real && (c == '.' || c == 'e' || c == 'E')); if (!ok) break; t.push_back(c); ++this->g_; }
    if (at_end()) this->st_ |= ios_base::eofbit; bool any = false; for (char c : t) any |= c >= '0' && c <= '9'; if (!any) { this->setstate(ios_base::failbit); return false; } return true; }
  template <class I> M& rdint(I& v) { string t; if (!num(t, false)) { if (this->fail()) v = 0; return *this; } if (t[0] == 1) { this->setstate(ios_base::failbit); v = 0; return *this; } char* e; long long x = strtoll(t.c_str(), &e, 10); if (is_signed_v<I> ? (x > (long long)numeric_limits<I>::max() || x < (long long)numeric_limits<I>::min()) : false) { v = x > 0 ? numeric_limits<I>::max() : numeric_limits<I>::min(); this->setstate(ios_base::failbit); } else v = (I)x; return *this; }
  M& operator>>(int& v) { return rdint(v); } M& operator>>(long& v) { return rdint(v); } M& operator>>(long long& v) { return rdint(v); } M& operator>>(unsigned& v) { return rdint(v); } M& operator>>(unsigned long& v) { return rdint(v); } M& operator>>(unsigned long long& v) { return rdint(v); } M& operator>>(short& v) { return rdint(v); } M& operator>>(unsigned short& v) { return rdint(v); } M& operator>>(bool& v) { int i = 0; rdint(i); v = i; return *this; }
  M& operator>>(double& v) { string t; if (!num(t, true)) { v = 0; return *this; } v = strtod(t.c_str(), nullptr); return *this; } M& operator>>(float& v) { double d; *this >> d; v = (float)d; return *this; }
  M& operator>>(M& (*f)(M&)) { return f(*this); } M& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  M& read(char* b, long n) { gc_ = 0; if (!this->good()) { this->setstate(ios_base::failbit); return *this; } long av = (long)this->s_->size() - (long)this->g_; long k = n < av ? n : (av < 0 ? 0 : av); if (k) { memcpy(b, this->s_->data() + this->g_, k); this->g_ += k; gc_ = k; } if (k < n) this->setstate(ios_base::eofbit | ios_base::failbit); return *this; }
  long gcount() const { return gc_; }
  int get() { if (!this->good()) { this->setstate(ios_base::failbit); return -1; } if (at_end()) { this->setstate(ios_base::eofbit | ios_base::failbit); gc_ = 0; return -1; } gc_ = 1; return (unsigned char)(*this->s_)[this->g_++]; } M& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; } int peek() { if (!this->good()) return -1; if (at_end()) { this->setstate(ios_base::eofbit); return -1; } return (unsigned char)(*this->s_)[this->g_]; } M& unget() { this->st_ &= ~ios_base::eofbit; if (this->g_) --this->g_; return *this; } M& putback(char) { return unget(); }
  M& ignore(long n = 1, int d = -1) { for (long i = 0; i < n; ++i) { if (at_end()) { this->setstate(ios_base::eofbit); break; } char c = (*this->s_)[this->g_++]; if (d >= 0 && c == (char)d) break; } return *this; }
  long tellg() { return this->fail() ? -1 : (long)this->g_; } M& seekg(long o) { this->st_ &= ~ios_base::eofbit; this->g_ = o; return *this; } M& seekg(long o, int d) { this->st_ &= ~ios_base::eofbit; this->g_ = d == 0 ? o : d == 1 ? this->g_ + o : this->s_->size() + o; return *this; }
  M& getline_(string& l, char d) { l.clear(); if (!this->good()) { this->setstate(ios_base::failbit); return *this; } if (at_end()) { this->setstate(ios_base::eofbit | ios_base::failbit); return *this; } while (true) { if (at_end()) { this->st_ |= ios_base::eofbit; break; } char c = (*this->s_)[this->g_++]; if (c == d) break; l.push_back(c); } return *this; }
  M& getline(char* b, long n, char d = '\n') { string l; getline_(l, d); long k = 0; for (; k < (long)l.size() && k + 1 < n; ++k) b[k] = l[k]; b[k] = 0; return *this; }
};
inline istream& operator>>(istream& i, string& s) { s.clear(); if (!i.start()) return i; while (!i.at_end() && !istream::sp((*i.s_)[i.g_])) s.push_back((*i.s_)[i.g_++]); if (i.at_end()) i.st_ |= ios_base::eofbit; return i; }
inline istream& operator>>(istream& i, char& c) { if (i.start()) c = (*i.s_)[i.g_++]; return i; }
inline istream& getline(istream& i, string& l, char d) { return i.getline_(l, d); } inline istream& getline(istream& i, string& l) { return i.getline_(l, '\n'); } inline istream& getline(istream&& i, string& l) { return i.getline_(l, '\n'); }
inline istream& ws(istream& i) { i.ws_(); return i; } inline istream& operator>>(istream& i, _Setw) { return i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} };
namespace __cxx11 {
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { public: basic_stringstream() {} explicit basic_stringstream(unsigned) {} explicit basic_stringstream(const string& s, unsigned = 0) { this->own_ = s; } string str() const { return this->own_; } void str(const string& s) { this->own_ = s; this->g_ = this->p_ = 0; } };
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { public: basic_ostringstream() {} explicit basic_ostringstream(unsigned) {} string str() const { return this->own_; } void str(const string& s) { this->own_ = s; this->p_ = 0; } };
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { public: basic_istringstream() {} explicit basic_istringstream(const string& s, unsigned = 0) { this->own_ = s; } string str() const { return this->own_; } void str(const string& s) { this->own_ = s; this->g_ = 0; } };
}
template <class B> class __vx_file : public B {
 public:
  VxFile* f_ = nullptr;
  void open_(const string& n, unsigned m, bool rd, bool wr) {
    f_ = vxio_find(n); if (!f_) { if (!wr || (rd && !(m & (ios_base::trunc | ios_base::app)))) { this->setstate(ios_base::failbit); return; } f_ = new VxFile{n, "", false}; f_->data.reserve(64); vxio_files().push_back(f_); }
    if (wr && (m & ios_base::trunc || (!rd && !(m & (ios_base::app | ios_base::in | ios_base::ate)))) && !(m & ios_base::app)) f_->data.clear();
    this->s_ = &f_->data; this->g_ = 0; this->p_ = (m & (ios_base::app | ios_base::ate)) ? f_->data.size() : 0; if (m & ios_base::ate) this->g_ = f_->data.size(); }
  bool is_open() const { return f_ != nullptr; } void close() { if (!f_) this->setstate(ios_base::failbit); f_ = nullptr; this->s_ = &this->own_; this->own_.clear(); }
};
template <class C, class T> class basic_ofstream : public __vx_file<basic_ostream<C, T>> { public: basic_ofstream() {} template <class S> explicit basic_ofstream(const S& n, unsigned m = ios_base::out) { this->open_(string(n), m | ios_base::out, false, true); } template <class S> void open(const S& n, unsigned m = ios_base::out) { this->open_(string(n), m | ios_base::out, false, true); } };
template <class C, class T> class basic_ifstream : public __vx_file<basic_istream<C, T>> { public: basic_ifstream() {} template <class S> explicit basic_ifstream(const S& n, unsigned m = ios_base::in) { this->open_(string(n), m | ios_base::in, true, false); } template <class S> void open(const S& n, unsigned m = ios_base::in) { this->open_(string(n), m | ios_base::in, true, false); } };
template <class C, class T> class basic_fstream : public __vx_file<basic_iostream<C, T>> { public: basic_fstream() {} template <class S> explicit basic_fstream(const S& n, unsigned m = ios_base::in | ios_base::out) { this->open_(string(n), m, true, true); } template <class S> void open(const S& n, unsigned m = ios_base::in | ios_base::out) { this->open_(string(n), m, true, true); } };
struct __vx_null : ostream { __vx_null() { sink_ = true; } };
inline ostream& __vx_cout() { static __vx_null o; return o; } inline istream& __vx_cin() { static basic_istringstream<char> i; return i; }
static ostream& cout = __vx_cout(); static ostream& cerr = __vx_cout(); static ostream& clog = __vx_cout(); static istream& cin = __vx_cin();
typedef ios_base::openmode __vx_om; typedef basic_ios<char> ios;
template <class C, class T> class istreambuf_iterator_vx;
}
