#pragma once
#include <memory>
#include <string>
#ifdef VX_SPDLOG_FILE
extern "C" { long vxio_token_new(double v, int prec); uint64_t vx_int_(const char*, int); uint64_t vx_concretize(uint64_t); }
#endif
namespace spdlog {
struct logger;
#ifdef VX_SPDLOG_FILE
struct file_logger;
namespace vxlog {
inline void num(std::string& o, unsigned long long v, bool neg, int w, char fill, char al) { char b[32]; int n = 0; do { b[31 - n++] = '0' + v % 10; v /= 10; } while (v); if (neg) b[31 - n++] = '-'; std::string s(b + 32 - n, n); size_t p = (size_t)w > s.size() ? w - s.size() : 0; if (al == '<') { o += s; o.append(p, fill); } else if (al == '^') { o.append(p / 2, fill); o += s; o.append(p - p / 2, fill); } else { o.append(p, fill); o += s; } }
struct spec { int w = 0, prec = -1; char fill = ' ', al = 0, ty = 0, sg = 0; };
inline spec parse(const std::string& s) { spec r; size_t i = 0; if (i < s.size() && s[i] == ':') ++i; if (i + 1 < s.size() && (s[i + 1] == '<' || s[i + 1] == '>' || s[i + 1] == '^')) r.fill = s[i], r.al = s[i + 1], i += 2; else if (i < s.size() && (s[i] == '<' || s[i] == '>' || s[i] == '^')) r.al = s[i++]; if (i < s.size() && (s[i] == '+' || s[i] == '-' || s[i] == ' ')) r.sg = s[i++]; if (i < s.size() && s[i] == '0') r.fill = '0', ++i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') r.w = r.w * 10 + s[i++] - '0'; if (i < s.size() && s[i] == '.') { ++i; r.prec = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') r.prec = r.prec * 10 + s[i++] - '0'; } if (i < s.size()) r.ty = s[i]; return r; }
template <class A> void one(std::string& o, const spec& s, const A& a) {
  if constexpr (std::is_same_v<A, bool>) o += a ? "true" : "false";
  else if constexpr (std::is_integral_v<A>) { if (s.ty && s.ty != 'd') throw std::runtime_error("format specification"); num(o, a < 0 ? 0 - (unsigned long long)a : (unsigned long long)a, a < 0, s.w, s.fill, s.al); }
  else if constexpr (std::is_floating_point_v<A>) { int sig = 17, sci = 1; if (s.prec >= 0) { if (s.ty == 'e' || s.ty == 'E') sig = s.prec + 1, sci = s.prec > 0; else if (s.ty == 'f' || s.ty == 'F') sig = -s.prec, sci = s.prec > 0; else sig = s.prec, sci = 0; } else if (s.ty) sig = s.ty == 'f' || s.ty == 'F' ? -6 : s.ty == 'e' || s.ty == 'E' ? 7 : 6; else sci = 0;
    char b[40]; int n = 0; b[n++] = 1; long id = vxio_token_new((double)a, sig); char d[24]; int k = 0; do { d[k++] = '0' + id % 10; id /= 10; } while (id); while (k) b[n++] = d[--k]; if (sci || (a != 0 && vx_concretize(vx_int_("~fraction", 1)))) b[n++] = '.'; b[n++] = 2; size_t p = s.w > 24 ? s.w - 24 : 0; if (s.al == '<') { o.append(b, n); o.append(p, s.fill); } else { o.append(p, s.fill); o.append(b, n); } }
  else if constexpr (std::is_convertible_v<A, std::string>) o += std::string(a);
}
inline void fmt(std::string& o, const char* f) { while (*f) { if ((*f == '{' || *f == '}') && f[1] == *f) ++f; o.push_back(*f++); } }
template <class A, class... R> void fmt(std::string& o, const char* f, const A& a, const R&... r) { while (*f) { if ((*f == '{' || *f == '}') && f[1] == *f) { o.push_back(*f); f += 2; continue; } if (*f == '{') { std::string s; ++f; while (*f && *f != '}') s.push_back(*f++); if (*f) ++f; one(o, parse(s), a); fmt(o, f, r...); return; } o.push_back(*f++); } }
inline const char* cs(const char* s) { return s; } inline const char* cs(const std::string& s) { return s.c_str(); }
}
#endif
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
struct logger {
  logger(const std::string& n = "") : n_(n) {}
#ifdef VX_SPDLOG_FILE
  std::string file_, buf_, pat_ = "[2000-01-01 00:00:00.000] [fcidump] [info] %v"; bool filed_ = false; int lv_ = 2;
  template <class F, class... A> void out_(int lv, const F& f, const A&... a) { if (!filed_ || lv < lv_) return; std::string m; vxlog::fmt(m, vxlog::cs(f), a...); size_t k = pat_.find("%v"); if (k == std::string::npos) buf_ += pat_; else { buf_ += pat_.substr(0, k); buf_ += m; buf_ += pat_.substr(k + 2); } buf_ += "\n"; }
  template <class F, class... A> void info(const F& f, const A&... a) { out_(2, f, a...); } template <class F, class... A> void warn(const F& f, const A&... a) { out_(3, f, a...); } template <class F, class... A> void error(const F& f, const A&... a) { out_(4, f, a...); } template <class F, class... A> void critical(const F& f, const A&... a) { out_(5, f, a...); } template <class F, class... A> void debug(const F& f, const A&... a) { out_(1, f, a...); } template <class F, class... A> void trace(const F& f, const A&... a) { out_(0, f, a...); }
  void set_level(level::level_enum l) { lv_ = l; } void set_pattern(const std::string& p) { pat_ = p; } void flush() { if (!filed_) return; std::ofstream o(file_, std::ios_base::app | std::ios_base::out); o << buf_; buf_.clear(); } ~logger() { flush(); } level::level_enum level() const { return (level::level_enum)lv_; } bool should_log(level::level_enum l) const { return filed_ && l >= lv_; } const std::string& name() const { return n_; }
#else
  template <class... A> void info(A&&...) const {} template <class... A> void debug(A&&...) const {} template <class... A> void trace(A&&...) const {} template <class... A> void warn(A&&...) const {} template <class... A> void error(A&&...) const {} template <class... A> void critical(A&&...) const {} template <class... A> void log(A&&...) const {}
  void set_level(level::level_enum) {} void set_pattern(const std::string&) {} void flush() {} bool should_log(level::level_enum) const { return false; } level::level_enum level() const { return level::off; } const std::string& name() const { return n_; }
#endif
  std::string n_;
};
inline std::shared_ptr<logger> stdout_color_mt(const std::string& n) { return std::make_shared<logger>(n); }
#ifdef VX_SPDLOG_FILE
namespace vxlog { inline std::vector<std::shared_ptr<logger>>& reg() { static std::vector<std::shared_ptr<logger>>* v = new std::vector<std::shared_ptr<logger>>; return *v; } }
struct spdlog_ex : std::runtime_error { using std::runtime_error::runtime_error; };
inline std::shared_ptr<logger> basic_logger_mt(const std::string& n, const std::string& f, bool trunc = false) { for (auto& l : vxlog::reg()) if (l->n_ == n) throw spdlog_ex("logger with name already exists"); auto l = std::make_shared<logger>(n); l->file_ = f; l->filed_ = true; if (trunc) { std::ofstream o(f); } vxlog::reg().push_back(l); return l; }
inline std::shared_ptr<logger> basic_logger_st(const std::string& n, const std::string& f, bool t = false) { return basic_logger_mt(n, f, t); }
#else
inline std::shared_ptr<logger> basic_logger_mt(const std::string& n, const std::string&, bool = false) { return std::make_shared<logger>(n); }
#endif
template <class F = void> inline std::shared_ptr<logger> null_logger_mt(const std::string& n) { return std::make_shared<logger>(n); }
inline std::shared_ptr<logger> null_logger_mt(const std::string& n) { return std::make_shared<logger>(n); }
template <class... A> void info(A&&...) {} template <class... A> void debug(A&&...) {} template <class... A> void warn(A&&...) {} template <class... A> void error(A&&...) {} template <class... A> void trace(A&&...) {}
#ifdef VX_SPDLOG_FILE
inline std::shared_ptr<logger> get(const std::string& n) { for (auto& l : vxlog::reg()) if (l->n_ == n) return l; return nullptr; }
inline void drop(const std::string& n) { auto& v = vxlog::reg(); for (size_t i = 0; i < v.size(); ++i) if (v[i]->n_ == n) { v.erase(v.begin() + i); break; } } inline void drop_all() { vxlog::reg().clear(); } inline void shutdown() { drop_all(); }
#else
inline std::shared_ptr<logger> get(const std::string&) { return nullptr; }
inline void drop(const std::string&) {} inline void drop_all() {}
#endif
inline void set_level(level::level_enum) {}
struct stopwatch { double elapsed() const { return 0; } };
inline void dump_backtrace() {}
}
