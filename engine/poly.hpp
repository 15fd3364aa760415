// Exact polynomial arithmetic over the rationals: the encoding of symbolic reals.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

// Rational with a 64-bit fast path.
struct Rat {
  int64_t n = 0, d = 1;
  mpq_class* big = nullptr;
  Rat() {}
  Rat(int64_t v) : n(v) {}
  Rat(const Rat& o) : n(o.n), d(o.d), big(o.big ? new mpq_class(*o.big) : nullptr) {}
  Rat(Rat&& o) noexcept : n(o.n), d(o.d), big(o.big) { o.big = nullptr; }
  Rat& operator=(const Rat& o) {
    if (this != &o) { delete big; big = o.big ? new mpq_class(*o.big) : nullptr; n = o.n; d = o.d; }
    return *this;
  }
  Rat& operator=(Rat&& o) noexcept { std::swap(big, o.big); n = o.n; d = o.d; return *this; }
  ~Rat() { delete big; }
  static Rat from(const mpq_class& q0) {
    mpq_class q = q0; q.canonicalize(); Rat r;
    if (q.get_num().fits_slong_p() && q.get_den().fits_slong_p()) {
      r.n = q.get_num().get_si(); r.d = q.get_den().get_si();
    } else r.big = new mpq_class(q);
    return r;
  }
  static Rat from(double x) {
    if (x == (double)(int64_t)x && x > -1e15 && x < 1e15) return Rat((int64_t)x);
    return from(mpq_class(x));
  }
  mpq_class q() const { if (big) return *big; mpq_class r((long)n, (unsigned long)d); return r; }
  bool zero() const { return big ? sgn(*big) == 0 : n == 0; }
  bool one() const { return !big && n == 1 && d == 1; }
  int sign() const { return big ? sgn(*big) : (n > 0) - (n < 0); }
  double dbl() const { return q().get_d(); }
  std::string str() const { return q().get_str(); }
  static bool fit(__int128 v) { return v <= INT64_MAX && v > INT64_MIN; }
  static Rat mk(__int128 a, __int128 b) {
    if (b == 1 && fit(a)) { Rat r; r.n = (int64_t)a; return r; }
    __int128 x = a < 0 ? -a : a, y = b;
    while (y) { auto t = x % y; x = y; y = t; }
    if (x > 1) { a /= x; b /= x; }
    if (fit(a) && fit(b)) { Rat r; r.n = (int64_t)a; r.d = (int64_t)b; return r; }
    auto toz = [](__int128 v) {
      bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v;
      mpz_class hi((unsigned long)(u >> 64)), lo((unsigned long)u); mpz_class r = (hi << 64) + lo;
      return neg ? mpz_class(-r) : r; };
    return from(mpq_class(toz(a), toz(b)));
  }
};
inline Rat operator+(const Rat& a, const Rat& b) {
  if (!a.big && !b.big) {
    if (a.d == 1 && b.d == 1) return Rat::mk((__int128)a.n + b.n, 1);
    if (a.d < (1LL << 60) && b.d < (1LL << 60) ) {
      __int128 den = (__int128)a.d * b.d;
      __int128 p, q;
      if (!__builtin_mul_overflow((__int128)a.n, (__int128)b.d, &p) && !__builtin_mul_overflow((__int128)b.n, (__int128)a.d, &q) && !__builtin_add_overflow(p, q, &p))
        return Rat::mk(p, den);
    }
  }
  return Rat::from(a.q() + b.q());
}
inline Rat operator*(const Rat& a, const Rat& b) {
  if (!a.big && !b.big) return Rat::mk((__int128)a.n * b.n, (__int128)a.d * b.d);
  return Rat::from(a.q() * b.q());
}
inline Rat operator-(const Rat& a) { if (!a.big) { Rat r; r.n = -a.n; r.d = a.d; return r; } return Rat::from(mpq_class(-*a.big)); }
inline Rat inv(const Rat& a) { return Rat::from(mpq_class(1) / a.q()); }
inline bool operator==(const Rat& a, const Rat& b) { if (!a.big && !b.big) return a.n == b.n && a.d == b.d; return a.q() == b.q(); }

// Monomials are hash-consed sorted lists of variable ids.
struct MonoTable {
  std::vector<std::vector<uint32_t>> m{{}};
  std::map<std::vector<uint32_t>, uint32_t> idx{{{}, 0}};
  std::unordered_map<uint64_t, uint32_t> mulc;
  uint32_t get(const std::vector<uint32_t>& v) {
    auto it = idx.find(v); if (it != idx.end()) return it->second;
    uint32_t id = m.size(); m.push_back(v); idx[v] = id; return id;
  }
  uint32_t mul(uint32_t a, uint32_t b) {
    if (!a) return b; if (!b) return a; if (a > b) std::swap(a, b);
    uint64_t k = ((uint64_t)a << 32) | b; auto it = mulc.find(k); if (it != mulc.end()) return it->second;
    std::vector<uint32_t> r(m[a].size() + m[b].size());
    std::merge(m[a].begin(), m[a].end(), m[b].begin(), m[b].end(), r.begin());
    return mulc[k] = get(r);
  }
};
inline MonoTable MT;

struct Poly {
  std::vector<std::pair<uint32_t, Rat>> t;  // sorted by monomial id; no zero coefficients
  static Poly cst(const Rat& r) { Poly p; if (!r.zero()) p.t.emplace_back(0, r); return p; }
  static Poly var(uint32_t v) { Poly p; p.t.emplace_back(MT.get({v}), Rat(1)); return p; }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  Rat constVal() const { return t.empty() ? Rat(0) : t[0].second; }
  bool operator==(const Poly& o) const {
    if (t.size() != o.t.size()) return false;
    for (size_t i = 0; i < t.size(); ++i) if (t[i].first != o.t[i].first || !(t[i].second == o.t[i].second)) return false;
    return true;
  }
};
inline Poly padd(const Poly& a, const Poly& b, bool sub = false) {
  Poly r; r.t.reserve(a.t.size() + b.t.size()); size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.emplace_back(b.t[j].first, sub ? -b.t[j].second : b.t[j].second); ++j; }
    else { Rat c = a.t[i].second + (sub ? -b.t[j].second : b.t[j].second); if (!c.zero()) r.t.emplace_back(a.t[i].first, std::move(c)); ++i; ++j; }
  }
  return r;
}
inline Poly pscale(const Poly& a, const Rat& c) {
  Poly r; if (c.zero()) return r; if (c.one()) return a; r.t.reserve(a.t.size());
  for (auto& x : a.t) r.t.emplace_back(x.first, x.second * c);
  return r;
}
inline Poly pmul(const Poly& a, const Poly& b) {
  if (a.t.empty() || b.t.empty()) return Poly();
  if (a.isConst()) return pscale(b, a.constVal());
  if (b.isConst()) return pscale(a, b.constVal());
  std::map<uint32_t, Rat> acc;
  for (auto& x : a.t) for (auto& y : b.t) {
    uint32_t m = MT.mul(x.first, y.first); Rat c = x.second * y.second;
    auto it = acc.find(m); if (it == acc.end()) acc.emplace(m, std::move(c)); else it->second = it->second + c;
  }
  Poly r; for (auto& x : acc) if (!x.second.zero()) r.t.emplace_back(x.first, x.second);
  return r;
}
