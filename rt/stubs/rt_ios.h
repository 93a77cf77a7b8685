// Minimal iostreams for symbolic execution: text formatting over strings and stdio files.
#ifndef RT_IOS_H
#define RT_IOS_H
#include <cstdint>
#include <iosfwd>
#include <string>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <type_traits>
extern "C" int __sym_fmtd(char *, size_t, const char *, double);
extern "C" uint64_t __sym_concretize(uint64_t);
namespace std {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned openmode; typedef long streamsize_;
  static const fmtflags fixed = 1, left = 2, right = 4, scientific = 8, boolalpha = 16, uppercase = 32, hex = 64, dec = 128, showpoint = 256, oct = 512, showpos = 1024, showbase = 2048, internal = 4096, skipws = 8192, unitbuf = 16384, adjustfield = 6 | 4096, floatfield = 9, basefield = 192 | 512;
  typedef unsigned iostate; static const iostate goodbit = 0, badbit = 1, failbit = 2, eofbit = 4; typedef unsigned seekdir; static const seekdir beg = 0, cur = 1, end = 2;
  static bool sync_with_stdio(bool = true) { return true; }
  static const openmode in = 1, out = 2, app = 4, trunc = 8, binary = 16, ate = 32;
  fmtflags fl_ = 0; int prec_ = 6, wid_ = 0; char fill_ = ' '; bool fail_ = false, eof_ = false, nows_ = false;
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | f; return o; }
  void unsetf(fmtflags f) { fl_ &= ~f; }
  fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  int precision(int p) { int o = prec_; prec_ = p; return o; } int precision() const { return prec_; }
  int width(int w) { int o = wid_; wid_ = w; return o; } int width() const { return wid_; }
};
template <> class basic_streambuf<char, char_traits<char>> {
public:
  string str; FILE *f = nullptr; size_t pos = 0; bool own = false;
  void put(const char *p, size_t n) { if (f) fwrite(p, 1, n, f); else if (!own) str.append(p, n); }
  int peek() { if (f) { int c = fgetc(f); if (c >= 0) ungetc(c, f); return c; } return pos < str.size() ? (unsigned char)str[pos] : -1; }
  int sputc(char c) { put(&c, 1); return (unsigned char)c; } long sputn(const char *p, long n) { put(p, n); return n; } int sbumpc() { return get(); } int sgetc() { return peek(); } int snextc() { get(); return peek(); }
  int get() { if (f) return fgetc(f); if (pos < str.size()) return (unsigned char)str[pos++]; return -1; }
};
template <> class basic_ios<char, char_traits<char>> : public ios_base {
public:
  basic_streambuf<char> *sb_ = nullptr;
  bool fail() const { return fail_; } bool good() const { return !fail_ && !eof_; } bool eof() const { return eof_; } bool bad() const { return false; }
  bool operator!() const { return fail_; } explicit operator bool() const { return !fail_; } void clear(iostate s = 0) { fail_ = s & 3; eof_ = s & 4; } void setstate(iostate s) { if (s & 3) fail_ = true; if (s & 4) eof_ = true; } iostate rdstate() const { return (fail_ ? 2 : 0) | (eof_ ? 4 : 0); } void *tie(void *) { return nullptr; } basic_ios &copyfmt(const basic_ios &o) { fl_ = o.fl_; prec_ = o.prec_; wid_ = o.wid_; fill_ = o.fill_; return *this; } void exceptions(iostate) {}
  basic_streambuf<char> *rdbuf() const { return sb_; }
  basic_streambuf<char> *rdbuf(basic_streambuf<char> *b) { basic_streambuf<char> *o = sb_; sb_ = b; return o; }
  char fill(char c) { char o = fill_; fill_ = c; return o; } char fill() const { return fill_; }
};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char> {
public:
  explicit basic_ostream(basic_streambuf<char> *b) { sb_ = b; }
  basic_ostream() {}
  basic_ostream &write(const char *p, long n) { sb_->put(p, n); return *this; }
  basic_ostream &put(char c) { sb_->put(&c, 1); return *this; }
  basic_ostream &flush() { return *this; }
  void field(const char *p, size_t n) {
    int pad = wid_ > (int)n ? wid_ - (int)n : 0; wid_ = 0;
    if ((fl_ & internal) && n && (*p == '-' || *p == '+')) { sb_->put(p, 1); p++; n--; }
    if (!(fl_ & left)) for (int i = 0; i < pad; i++) sb_->put(&fill_, 1);
    sb_->put(p, n);
    if (fl_ & left) for (int i = 0; i < pad; i++) sb_->put(&fill_, 1);
  }
  void num(unsigned long v, bool neg) { v = __sym_concretize(v); char b[32]; int n = 31; unsigned base = (fl_ & hex) ? 16 : (fl_ & oct) ? 8 : 10; do { unsigned d = v % base; b[--n] = d < 10 ? '0' + d : ((fl_ & uppercase) ? 'A' : 'a') + (d - 10); v /= base; } while (v); if (neg) b[--n] = '-'; else if ((fl_ & showpos) && base == 10) b[--n] = '+'; field(b + n, 31 - n); }
  void snum(long v) { v = (long)__sym_concretize((unsigned long)v); if (v < 0 && !(fl_ & (hex | oct))) num(-(unsigned long)v, true); else num(v, false); }
  basic_ostream &operator<<(int v) { snum(v); return *this; }
  basic_ostream &operator<<(long v) { snum(v); return *this; }
  basic_ostream &operator<<(long long v) { snum(v); return *this; }
  basic_ostream &operator<<(short v) { snum(v); return *this; }
  basic_ostream &operator<<(unsigned v) { num(v, false); return *this; }
  basic_ostream &operator<<(unsigned long v) { num(v, false); return *this; }
  basic_ostream &operator<<(unsigned long long v) { num(v, false); return *this; }
  basic_ostream &operator<<(unsigned short v) { num(v, false); return *this; }
  basic_ostream &operator<<(bool v) { if (fl_ & boolalpha) { if (v) field("true", 4); else field("false", 5); } else num(v ? 1 : 0, false); return *this; }
  basic_ostream &operator<<(const void *v) { char b[32]; int n = snprintf(b, 32, "%p", v); field(b, n); return *this; }
  basic_ostream &operator<<(double v) { char f[16], b[512]; int i = 0; f[i++] = '%'; if (fl_ & showpos) f[i++] = '+'; if (fl_ & showpoint) f[i++] = '#'; f[i++] = '.'; int p = prec_; if (p >= 10) f[i++] = '0' + p / 10; f[i++] = '0' + p % 10; f[i++] = (fl_ & fixed) ? 'f' : (fl_ & scientific) ? 'e' : 'g'; f[i] = 0; int n = __sym_fmtd(b, sizeof b, f, v); field(b, n); return *this; }
  basic_ostream &operator<<(float v) { return *this << (double)v; }
  basic_ostream &operator<<(long double v) { return *this << (double)v; }
  basic_ostream &operator<<(basic_streambuf<char> *b) { for (int c; (c = b->get()) >= 0;) { char d = (char)c; sb_->put(&d, 1); } return *this; }
  basic_ostream &operator<<(nullptr_t) { field("nullptr", 7); return *this; }
  long tellp() { return (long)sb_->str.size(); }
  class sentry { public: explicit sentry(basic_ostream &) {} explicit operator bool() const { return true; } };
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
};
inline ostream &operator<<(ostream &o, const char *s) { o.field(s, strlen(s)); return o; }
inline ostream &operator<<(ostream &o, char c) { o.field(&c, 1); return o; }
inline ostream &operator<<(ostream &o, unsigned char c) { char d = c; o.field(&d, 1); return o; }
inline ostream &operator<<(ostream &o, const string &s) { o.field(s.data(), s.size()); return o; }
inline ostream &endl(ostream &o) { return o.put('\n'); }
inline ostream &flush(ostream &o) { return o; }
inline ostream &ends(ostream &o) { return o.put('\0'); }
inline ios_base &fixed(ios_base &b) { b.fl_ |= ios_base::fixed; return b; }
inline ios_base &scientific(ios_base &b) { b.fl_ |= ios_base::scientific; return b; }
inline ios_base &left(ios_base &b) { b.fl_ = (b.fl_ & ~ios_base::adjustfield) | ios_base::left; return b; }
inline ios_base &right(ios_base &b) { b.fl_ = (b.fl_ & ~ios_base::adjustfield) | ios_base::right; return b; }
inline ios_base &boolalpha(ios_base &b) { b.fl_ |= ios_base::boolalpha; return b; }
inline ios_base &uppercase(ios_base &b) { b.fl_ |= ios_base::uppercase; return b; }
inline ios_base &nouppercase(ios_base &b) { b.fl_ &= ~ios_base::uppercase; return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.fl_ &= ~ios_base::boolalpha; return b; }
inline ios_base &showpoint(ios_base &b) { b.fl_ |= ios_base::showpoint; return b; }
inline ios_base &noshowpoint(ios_base &b) { b.fl_ &= ~ios_base::showpoint; return b; }
inline ios_base &showpos(ios_base &b) { b.fl_ |= ios_base::showpos; return b; }
inline ios_base &noshowpos(ios_base &b) { b.fl_ &= ~ios_base::showpos; return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.fl_ &= ~ios_base::floatfield; return b; }
inline ios_base &skipws(ios_base &b) { return b; }
inline ios_base &noskipws(ios_base &b) { b.nows_ = true; return b; }
inline ios_base &unitbuf(ios_base &b) { return b; }
struct _Setw { int n; }; struct _Setfill { char c; }; struct _Setprec { int n; }; struct _Setiosf { unsigned f; };
inline _Setw setw(int n) { return {n}; } inline _Setfill setfill(char c) { return {c}; } inline _Setprec setprecision(int n) { return {n}; } inline _Setiosf setiosflags(unsigned f) { return {f}; }
inline ostream &operator<<(ostream &o, _Setw s) { o.wid_ = s.n; return o; }
inline ostream &operator<<(ostream &o, _Setfill s) { o.fill_ = s.c; return o; }
inline ostream &operator<<(ostream &o, _Setprec s) { o.prec_ = s.n; return o; }
inline ostream &operator<<(ostream &o, _Setiosf s) { o.fl_ |= s.f; return o; }
struct _Resetiosf { unsigned f; }; inline _Resetiosf resetiosflags(unsigned f) { return {f}; } inline ostream &operator<<(ostream &o, _Resetiosf s) { o.fl_ &= ~s.f; return o; }
inline ostream &operator<<(ostream &o, signed char c) { char d = (char)c; o.field(&d, 1); return o; }
template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char> {
public:
  basic_istream() {} explicit basic_istream(basic_streambuf<char> *b) { sb_ = b; }
  int get() { int c = sb_ ? sb_->get() : -1; if (c < 0) { eof_ = fail_ = true; } return c; }
  static bool ws_(int c) { return c == ' ' || (c >= 9 && c <= 13); }
  long gc_ = 0;
  long gcount() const { return gc_; }
  basic_istream &get(char &c) { int k = get(); gc_ = k >= 0; if (k >= 0) c = (char)k; return *this; }
  basic_istream &getline(char *p, long n, char d = '\n') { gc_ = 0; long i = 0; if (fail_ || eof_ || !sb_) { fail_ = true; if (n > 0) *p = 0; return *this; } for (;;) { int c = sb_->peek(); if (c < 0) { eof_ = true; if (!gc_) fail_ = true; break; } if ((char)c == d) { sb_->get(); gc_++; break; } if (i + 1 >= n) { fail_ = true; break; } p[i++] = (char)sb_->get(); gc_++; } if (n > 0) p[i] = 0; return *this; }
  int peek() { int c = sb_ && !fail_ ? sb_->peek() : -1; if (c < 0) eof_ = true; return c; }
  basic_istream &ignore(long n = 1, int d = -1) { gc_ = 0; while (n-- > 0) { int c = sb_->get(); if (c < 0) { eof_ = true; break; } gc_++; if (c == d) break; } return *this; }
  basic_istream &unget() { if (sb_->pos) sb_->pos--; eof_ = false; return *this; }
  basic_istream &putback(char c) { if (sb_->f) ungetc((unsigned char)c, sb_->f); else if (sb_->pos) sb_->pos--; eof_ = false; return *this; }
  basic_istream &read(char *p, long n) { gc_ = 0; while (gc_ < n) { int c = sb_->get(); if (c < 0) { eof_ = fail_ = true; break; } p[gc_++] = (char)c; } return *this; }
  long tellg() { return sb_->f ? ftell(sb_->f) : (long)sb_->pos; }
  basic_istream &seekg(long o, unsigned d = 0) { eof_ = false; if (sb_->f) fseek(sb_->f, o, d == 0 ? SEEK_SET : d == 1 ? SEEK_CUR : SEEK_END); else sb_->pos = d == 0 ? o : d == 1 ? sb_->pos + o : sb_->str.size() + o; return *this; }
  basic_istream &word(string &s) { s.clear(); if (fail_ || !sb_) { fail_ = true; return *this; } int c; if (!nows_) while (ws_(sb_->peek())) sb_->get(); c = sb_->peek(); if (c < 0) { eof_ = fail_ = true; return *this; } int lim = wid_; wid_ = 0; while (c >= 0 && !ws_(c) && (!lim || (int)s.size() < lim)) { s.push_back((char)c); sb_->get(); c = sb_->peek(); } if (c < 0) eof_ = true; return *this; }
  bool numtok(string &s, bool real) { s.clear(); if (fail_ || !sb_) { fail_ = true; return false; } while (ws_(sb_->peek())) sb_->get(); bool dig = false; for (;;) { int c = sb_->peek(); if (c < 0) { eof_ = true; break; } if (c >= '0' && c <= '9') dig = true; else if (c == '-' || c == '+') { if (!s.empty() && !(real && (s.back() == 'e' || s.back() == 'E'))) break; } else if (real && c == '.') { if (s.find('.') != string::npos || s.find('e') != string::npos || s.find('E') != string::npos) break; } else if (real && dig && (c == 'e' || c == 'E')) { if (s.find('e') != string::npos || s.find('E') != string::npos) break; } else break; s.push_back((char)sb_->get()); } if (!dig) fail_ = true; return dig; }
  template <class T> basic_istream &inum(T &v) { string s; bool ok = numtok(s, false); if (ok) { long k = strtol(s.c_str(), nullptr, 10); v = (T)k; } else v = 0; return *this; }
  template <class T> basic_istream &rnum(T &v) { string s; bool ok = numtok(s, true); v = ok ? (T)atof(s.c_str()) : 0; return *this; }
  basic_istream &operator>>(int &v) { return inum(v); } basic_istream &operator>>(long &v) { return inum(v); } basic_istream &operator>>(short &v) { return inum(v); } basic_istream &operator>>(long long &v) { return inum(v); }
  basic_istream &operator>>(unsigned &v) { return inum(v); } basic_istream &operator>>(unsigned long &v) { return inum(v); } basic_istream &operator>>(unsigned short &v) { return inum(v); } basic_istream &operator>>(unsigned long long &v) { return inum(v); }
  basic_istream &operator>>(bool &v) { int k = 0; inum(k); v = k; return *this; }
  basic_istream &operator>>(double &v) { return rnum(v); } basic_istream &operator>>(float &v) { return rnum(v); } basic_istream &operator>>(long double &v) { return rnum(v); }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
};
inline istream &ws(istream &i) { while (i.sb_ && istream::ws_(i.sb_->peek())) i.sb_->get(); if (i.sb_ && i.sb_->peek() < 0) i.eof_ = true; return i; }
inline istream &operator>>(istream &i, string &s) { return i.word(s); }
inline istream &operator>>(istream &i, char &c) { if (i.fail_) return i; if (!i.nows_) while (istream::ws_(i.sb_->peek())) i.sb_->get(); int k = i.sb_->get(); if (k < 0) i.eof_ = i.fail_ = true; else c = (char)k; return i; }
inline istream &operator>>(istream &i, char *p) { int lim = i.wid_; string s; i.word(s); if (lim && (int)s.size() > lim - 1) s.resize(lim - 1); memcpy(p, s.c_str(), s.size() + 1); return i; }
inline istream &operator>>(istream &i, _Setw s) { i.wid_ = s.n; return i; }
inline istream &getline(istream &i, string &s, char d) { s.clear(); if (!i.sb_ || i.fail_ || i.eof_) { i.fail_ = true; return i; } bool any = false; for (;;) { int c = i.sb_->get(); if (c < 0) { i.eof_ = true; if (!any) i.fail_ = true; return i; } any = true; if (c == (unsigned char)d) return i; s.push_back((char)c); } }
inline istream &getline(istream &i, string &s) { return getline(i, s, '\n'); }
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {};
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> { basic_streambuf<char> b_; public: basic_ostringstream() { sb_ = &b_; } explicit basic_ostringstream(const string &s, openmode = 0) { sb_ = &b_; b_.str = s; } explicit basic_ostringstream(openmode) { sb_ = &b_; } string str() const { return b_.str; } void str(const string &s) { b_.str = s; } };
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> { basic_streambuf<char> b_; public: explicit basic_istringstream(const string &s, openmode = 0) { sb_ = &b_; b_.str = s; } explicit basic_istringstream(openmode) { sb_ = &b_; } basic_istringstream() { sb_ = &b_; } void str(const string &s) { b_.str = s; b_.pos = 0; } string str() const { return b_.str; } };
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char> { basic_streambuf<char> b_; public: basic_stringstream() { sb_ = &b_; } explicit basic_stringstream(const string &s, openmode = 0) { sb_ = &b_; b_.str = s; } explicit basic_stringstream(openmode) { sb_ = &b_; } string str() const { return b_.str; } void str(const string &s) { b_.str = s; b_.pos = 0; } };
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char> { basic_streambuf<char> b_; public: basic_ifstream() { sb_ = &b_; b_.own = true; } explicit basic_ifstream(const char *n, openmode m = in) { sb_ = &b_; b_.own = true; open(n, m); } explicit basic_ifstream(const string &n, openmode m = in) { sb_ = &b_; b_.own = true; open(n.c_str(), m); } void open(const char *n, openmode m = in) { b_.f = fopen(n, "r"); fail_ = !b_.f; eof_ = false; } void open(const string &n, openmode m = in) { open(n.c_str(), m); } bool is_open() const { return b_.f != nullptr; } void close() { if (b_.f) { fclose(b_.f); b_.f = nullptr; } else fail_ = true; } ~basic_ifstream() { if (b_.f) fclose(b_.f); } };
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char> { basic_streambuf<char> b_; public: basic_ofstream() { sb_ = &b_; b_.own = true; } explicit basic_ofstream(const char *n, openmode m = out) { sb_ = &b_; b_.own = true; open(n, m); } explicit basic_ofstream(const string &n, openmode m = out) { sb_ = &b_; b_.own = true; open(n.c_str(), m); } void open(const char *n, openmode m = out) { b_.f = fopen(n, (m & app) ? "a" : "w"); fail_ = !b_.f; } void open(const string &n, openmode m = out) { open(n.c_str(), m); } bool is_open() const { return b_.f != nullptr; } void close() { if (b_.f) { fclose(b_.f); b_.f = nullptr; } else fail_ = true; } basic_streambuf<char> *rdbuf() const { return sb_; } ~basic_ofstream() { if (b_.f) fclose(b_.f); } };
template <class S, class T, class = enable_if_t<is_base_of<ios_base, S>::value && !is_lvalue_reference<S>::value>> inline S &&operator<<(S &&o, const T &v) { static_cast<ostream &>(o) << v; return static_cast<S &&>(o); }
template <class S, class T, class = enable_if_t<is_base_of<ios_base, S>::value && !is_lvalue_reference<S>::value>> inline S &&operator>>(S &&i, T &&v) { static_cast<istream &>(i) >> v; return static_cast<S &&>(i); }
inline istream &getline(istream &&i, string &s) { return getline(i, s, '\n'); }
typedef long streamsize_t_;
extern ostream cout, cerr, clog; extern istream cin;
}
#endif
