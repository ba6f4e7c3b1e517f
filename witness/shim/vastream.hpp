// Stand-in for the stream headers of the C++ library, used only in analysis witnesses: streams are plain text buffers over
// a table of named files, so that the interpreter sees every character; formatting a real number is a call to va_fmt.
#ifndef VASTREAM_HPP
#define VASTREAM_HPP
#include <iosfwd>
#include <string>
#include <cstring>
extern "C" int va_fmt(char *out, double v, int flags, int prec);
namespace VA {
struct File { std::string name, data; bool exists; int opens; };
struct FS { File f[8]; int n; FS() : n(0) {} };
static FS *fs_ = nullptr;
inline FS &fs() { if (!fs_) fs_ = new FS; return *fs_; }
inline File *find(const std::string &s) { FS &x = fs(); for (int i = 0; i < x.n; ++i) if (x.f[i].name == s) return &x.f[i]; return nullptr; }
inline File *get(const std::string &s) { File *p = find(s); if (p) return p; FS &x = fs(); p = &x.f[x.n++]; p->name = s; p->exists = true; p->opens = 0; return p; }
}
namespace std {
class locale { public: static const locale &classic() { static locale l; return l; } };
class ios_base {
 public:
  typedef int fmtflags; typedef int iostate; typedef int openmode; typedef int seekdir;
  static constexpr int dec = 1, oct = 2, hex = 4, fixed = 8, scientific = 16, left = 32, right = 64, internal = 128, showpoint = 256, showpos = 512,
    boolalpha = 1024, skipws = 2048, uppercase = 4096, unitbuf = 8192, showbase = 16384, floatfield = 24, adjustfield = 224, basefield = 7;
  static constexpr int goodbit = 0, eofbit = 1, failbit = 2, badbit = 4;
  static constexpr int in = 1, out = 2, app = 4, trunc = 8, binary = 16, ate = 32, beg = 0, cur = 1, end = 2;
  constexpr ios_base() : fl_(dec | skipws), pr_(6), wd_(0), st_(0), fi_(' ') {}
  int flags() const { return fl_; }
  int flags(int f) { int o = fl_; fl_ = f; return o; }
  int setf(int f) { int o = fl_; fl_ |= f; return o; }
  int setf(int f, int m) { int o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(int m) { fl_ &= ~m; }
  streamsize precision() const { return pr_; }
  streamsize precision(streamsize p) { streamsize o = pr_; pr_ = p; return o; }
  streamsize width() const { return wd_; }
  streamsize width(streamsize p) { streamsize o = wd_; wd_ = p; return o; }
  char fill() const { return fi_; }
  char fill(char c) { char o = fi_; fi_ = c; return o; }
  locale imbue(const locale &) { return locale(); }
  locale getloc() const { return locale(); }
  int rdstate() const { return st_; }
  void clear(int s = 0) { st_ = s; }
  void setstate(int s) { st_ |= s; }
  bool good() const { return st_ == 0; }
  bool eof() const { return st_ & eofbit; }
  bool fail() const { return st_ & (failbit | badbit); }
  bool bad() const { return st_ & badbit; }
  bool operator!() const { return fail(); }
  explicit operator bool() const { return !fail(); }
  void exceptions(int) {}
  int fl_; long pr_, wd_; int st_; char fi_;
};
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
struct Setw_ { int n; }; struct Setp_ { int n; }; struct Setf_ { char c; };
inline Setw_ setw(int n) { return Setw_{n}; }
inline Setp_ setprecision(int n) { return Setp_{n}; }
inline Setf_ setfill(char c) { return Setf_{c}; }
template <> class basic_ios<char> : public ios_base { public: constexpr basic_ios() {} void copyfmt(const basic_ios &o) { fl_ = o.fl_; pr_ = o.pr_; wd_ = o.wd_; fi_ = o.fi_; } };
template <> class basic_streambuf<char> {};
template <> class basic_ostream<char> : public virtual basic_ios<char> {
 public:
  typedef char char_type; typedef std::ios_base ios_base;
  basic_ostream() : buf_(nullptr) {}
  basic_ostream(const basic_ostream &) = delete;
  virtual ~basic_ostream() {}
  virtual void sync_() {}
  std::string &b_() { if (!buf_) buf_ = new std::string; return *buf_; }
  void raw_(const char *s, size_t n) { if (!fail()) b_().append(s, n); else setstate(badbit); }
  basic_ostream &put_(const char *s, size_t n) {
    size_t w = wd_ > 0 ? (size_t)wd_ : 0; wd_ = 0;
    if (fail()) { setstate(badbit); return *this; }
    size_t k = w > n ? w - n : 0;
    std::string &b = b_();
    if (k && (fl_ & adjustfield) != left) b.append(k, fi_);
    b.append(s, n);
    if (k && (fl_ & adjustfield) == left) b.append(k, fi_);
    return *this;
  }
  template <class I> basic_ostream &int_(I v, bool neg) {
    char t[32]; int i = 32;
    do { t[--i] = '0' + (char)(v % 10); v /= 10; } while (v);
    if (neg) t[--i] = '-';
    return put_(t + i, 32 - i);
  }
  basic_ostream &operator<<(int v) { return v < 0 ? int_((unsigned)0 - (unsigned)v, true) : int_((unsigned)v, false); }
  basic_ostream &operator<<(unsigned v) { return int_(v, false); }
  basic_ostream &operator<<(short v) { return *this << (int)v; }
  basic_ostream &operator<<(unsigned short v) { return *this << (int)v; }
  basic_ostream &operator<<(long v) { return v < 0 ? int_((unsigned long)0 - (unsigned long)v, true) : int_((unsigned long)v, false); }
  basic_ostream &operator<<(unsigned long v) { return int_(v, false); }
  basic_ostream &operator<<(long long v) { return *this << (long)v; }
  basic_ostream &operator<<(unsigned long long v) { return *this << (unsigned long)v; }
  basic_ostream &operator<<(bool v) { return (fl_ & boolalpha) ? (v ? put_("true", 4) : put_("false", 5)) : *this << (int)v; }
  basic_ostream &operator<<(double v) { char t[400]; int n = va_fmt(t, v, fl_, (int)pr_); return put_(t, n); }
  basic_ostream &operator<<(float v) { return *this << (double)v; }
  basic_ostream &operator<<(long double v) { return *this << (double)v; }
  basic_ostream &operator<<(const void *) { return put_("0xptr", 5); }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  __attribute__((noinline)) basic_ostream &write(const char *s, long n) { raw_(s, n); return *this; }
  basic_ostream &put(char c) { raw_(&c, 1); return *this; }
  basic_ostream &flush() { sync_(); return *this; }
  long tellp() { return buf_ ? (long)buf_->size() : 0; }
  std::string *buf_;
};
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, const char *s) { return o.put_(s, strlen(s)); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, char c) { return o.put_(&c, 1); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, signed char c) { char d = (char)c; return o.put_(&d, 1); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, unsigned char c) { char d = (char)c; return o.put_(&d, 1); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, const std::string &s) { return o.put_(s.data(), s.size()); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, Setw_ s) { o.wd_ = s.n; return o; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, Setp_ s) { o.pr_ = s.n; return o; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, Setf_ s) { o.fi_ = s.c; return o; }
inline basic_ostream<char> &endl(basic_ostream<char> &o) { char c = '\n'; o.raw_(&c, 1); return o.flush(); }
inline basic_ostream<char> &flush(basic_ostream<char> &o) { return o.flush(); }
inline bool ws_(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\v' || c == '\f'; }
template <> class basic_istream<char> : public virtual basic_ios<char> {
 public:
  typedef char char_type; typedef std::ios_base ios_base;
  basic_istream() : src_(nullptr), pos_(0), gc_(0) {}
  virtual ~basic_istream() {}
  virtual const std::string &in_() { return *src_; }
  bool sentry_(bool skip) {
    if (!good()) { setstate(failbit); return false; }
    if (skip) {
      const std::string &s = in_();
      while (pos_ < s.size() && ws_(s[pos_])) ++pos_;
      if (pos_ >= s.size()) { setstate(failbit | eofbit); return false; }
    }
    return true;
  }
  bool word_(std::string &w) {
    if (!sentry_(true)) return false;
    w.erase();
    const std::string &s = in_();
    while (pos_ < s.size() && !ws_(s[pos_])) w.push_back(s[pos_++]);
    if (pos_ >= s.size()) setstate(eofbit);
    if (w.empty()) setstate(failbit);
    return true;
  }
  void line_(std::string &w, char d) {
    if (!sentry_(false)) return;
    w.erase();
    const std::string &s = in_();
    bool any = false;
    while (true) {
      if (pos_ >= s.size()) { setstate(eofbit); break; }
      any = true;
      char c = s[pos_++];
      if (c == d) break;
      w.push_back(c);
    }
    if (!any) setstate(failbit);
  }
  template <class I> basic_istream &num_(I &v) {
    if (!sentry_(true)) return *this;
    const std::string &s = in_();
    bool neg = false, any = false; I x = 0;
    if (s[pos_] == '-' || s[pos_] == '+') { neg = s[pos_] == '-'; ++pos_; }
    while (pos_ < s.size() && s[pos_] >= '0' && s[pos_] <= '9') { x = x * 10 + (s[pos_++] - '0'); any = true; }
    if (pos_ >= s.size()) setstate(eofbit);
    if (!any) { setstate(failbit); v = 0; } else v = neg ? -x : x;
    return *this;
  }
  basic_istream &operator>>(int &v) { return num_(v); }
  basic_istream &operator>>(long &v) { return num_(v); }
  basic_istream &operator>>(unsigned &v) { return num_(v); }
  basic_istream &operator>>(unsigned long &v) { return num_(v); }
  basic_istream &operator>>(double &v) {
    std::string w; if (!sentry_(true)) return *this;
    const std::string &s = in_();
    while (pos_ < s.size() && !ws_(s[pos_]) && s[pos_] != ',' && s[pos_] != ';') w.push_back(s[pos_++]);
    if (pos_ >= s.size()) setstate(eofbit);
    char *e; v = strtod(w.c_str(), &e); if (e == w.c_str()) setstate(failbit);
    return *this;
  }
  __attribute__((noinline)) basic_istream &read(char *d, long n) {
    gc_ = 0;
    if (!sentry_(false)) return *this;
    const std::string &s = in_();
    long k = (long)(s.size() - pos_); if (k > n) k = n;
    memcpy(d, s.data() + pos_, k); pos_ += k; gc_ = k;
    if (k < n) setstate(eofbit | failbit);
    return *this;
  }
  int get() { gc_ = 0; if (!sentry_(false)) return -1; const std::string &s = in_(); if (pos_ >= s.size()) { setstate(eofbit | failbit); return -1; } gc_ = 1; return (unsigned char)s[pos_++]; }
  int peek() { if (!good()) return -1; const std::string &s = in_(); if (pos_ >= s.size()) { setstate(eofbit); return -1; } return (unsigned char)s[pos_]; }
  basic_istream &get(char &c) { int k = get(); if (k >= 0) c = (char)k; return *this; }
  basic_istream &ignore(long n = 1, int d = -1) { while (n-- > 0) { int c = get(); if (c < 0) { st_ &= ~failbit; break; } if (c == d) break; } return *this; }
  long gcount() const { return gc_; }
  long tellg() { return fail() ? -1 : (long)pos_; }
  basic_istream &seekg(long p) { st_ &= ~eofbit; pos_ = p; return *this; }
  basic_istream &seekg(long p, int w) { st_ &= ~eofbit; pos_ = w == 0 ? p : w == 1 ? pos_ + p : in_().size() + p; return *this; }
  const std::string *src_; size_t pos_; long gc_;
};
inline basic_istream<char> &operator>>(basic_istream<char> &i, std::string &s) { i.word_(s); return i; }
inline basic_istream<char> &operator>>(basic_istream<char> &i, char &c) { if (i.sentry_(true)) i.get(c); return i; }
inline basic_istream<char> &getline(basic_istream<char> &i, std::string &s, char d) { i.line_(s, d); return i; }
inline basic_istream<char> &getline(basic_istream<char> &i, std::string &s) { i.line_(s, '\n'); return i; }
inline basic_istream<char> &ws(basic_istream<char> &i) { const std::string &s = i.in_(); while (i.pos_ < s.size() && ws_(s[i.pos_])) ++i.pos_; if (i.pos_ >= s.size()) i.setstate(ios_base::eofbit); return i; }
template <> class basic_iostream<char> : public basic_istream<char>, public basic_ostream<char> { public: basic_iostream() {} };
// string streams
template <> class basic_ostringstream<char> : public basic_ostream<char> {
 public:
  basic_ostringstream() {}
  explicit basic_ostringstream(int) {}
  explicit basic_ostringstream(const std::string &s, int m = 0) { b_() = s; if (!(m & (app | ate))) {} }
  ~basic_ostringstream() { delete buf_; }
  std::string str() const { return buf_ ? *buf_ : std::string(); }
  void str(const std::string &s) { b_() = s; }
};
template <> class basic_istringstream<char> : public basic_istream<char> {
 public:
  basic_istringstream() {}
  explicit basic_istringstream(const std::string &s, int = 0) : s_(s) {}
  const std::string &in_() override { return s_; }
  std::string str() const { return s_; }
  void str(const std::string &s) { s_ = s; pos_ = 0; }
  std::string s_;
};
template <> class basic_stringstream<char> : public basic_iostream<char> {
 public:
  basic_stringstream() {}
  explicit basic_stringstream(int) {}
  explicit basic_stringstream(const std::string &s, int = 0) { b_() = s; }
  ~basic_stringstream() { delete buf_; }
  const std::string &in_() override { return b_(); }
  std::string str() const { return buf_ ? *buf_ : std::string(); }
  void str(const std::string &s) { b_() = s; pos_ = 0; }
};
// file streams: written text reaches the file on flush, close and destruction
template <> class basic_ofstream<char> : public basic_ostream<char> {
 public:
  basic_ofstream() : f_(nullptr) {}
  explicit basic_ofstream(const std::string &n, int m = out) : f_(nullptr) { open(n, m); }
  explicit basic_ofstream(const char *n, int m = out) : f_(nullptr) { open(n, m); }
  ~basic_ofstream() { sync_(); delete buf_; }
  void open(const std::string &n, int m = out) { if (f_) { setstate(failbit); return; } f_ = VA::get(n); ++f_->opens; if (!(m & app)) f_->data.clear(); b_().clear(); clear(); }
  void open(const char *n, int m = out) { open(std::string(n), m); }
  void sync_() override { if (f_ && buf_) { f_->data += *buf_; buf_->clear(); } }
  bool is_open() const { return f_ != nullptr; }
  void close() { if (!f_) setstate(failbit); sync_(); f_ = nullptr; }
  VA::File *f_;
};
template <> class basic_ifstream<char> : public basic_istream<char> {
 public:
  basic_ifstream() : f_(nullptr) {}
  explicit basic_ifstream(const std::string &n, int = in) : f_(nullptr) { open(n); }
  explicit basic_ifstream(const char *n, int = in) : f_(nullptr) { open(std::string(n)); }
  void open(const std::string &n, int = in) { if (f_) { setstate(failbit); return; } f_ = VA::find(n); pos_ = 0; if (!f_) setstate(failbit); else clear(); }
  void open(const char *n, int m = in) { open(std::string(n), m); }
  const std::string &in_() override { static std::string none; return f_ ? f_->data : none; }
  bool is_open() const { return f_ != nullptr; }
  void close() { if (!f_) setstate(failbit); f_ = nullptr; }
  VA::File *f_;
};
template <> class basic_fstream<char> : public basic_iostream<char> {
 public:
  basic_fstream() : f_(nullptr) {}
  explicit basic_fstream(const std::string &n, int m = in | out) : f_(nullptr) { open(n, m); }
  ~basic_fstream() { sync_(); delete buf_; }
  void open(const std::string &n, int m = in | out) {
    if (f_) { setstate(failbit); return; }
    // the table of [filebuf.members]: valid combinations of in, out, trunc, app
    int k = m & (in | out | trunc | app);
    bool ok = k == out || k == (out | trunc) || k == (out | app) || k == app || k == in || k == (in | out) || k == (in | out | trunc) || k == (in | out | app) || k == (in | app);
    bool need = k == in || k == (in | out);
    if (!ok || (need && !VA::find(n))) { setstate(failbit); return; }
    f_ = VA::get(n); ++f_->opens; pos_ = 0;
    if (k == out || (k & trunc)) f_->data.clear();
    b_().clear(); clear();
  }
  void sync_() override { if (f_ && buf_) { f_->data += *buf_; buf_->clear(); } }
  const std::string &in_() override { sync_(); return f_->data; }
  bool is_open() const { return f_ != nullptr; }
  void close() { if (!f_) setstate(failbit); sync_(); f_ = nullptr; }
  VA::File *f_;
};
class Con_ : public basic_ostream<char> { public: const char *n_; explicit Con_(const char *n) : n_(n) {} void sync_() override { if (buf_) { VA::get(n_)->data += *buf_; buf_->clear(); } } };
inline basic_ostream<char> &con_(int k) { static Con_ *c[2]; if (!c[k]) c[k] = new Con_(k ? "<cerr>" : "<cout>"); return *c[k]; }
#define cout con_(0)
#define cerr con_(1)
#define clog con_(1)
}
#endif
