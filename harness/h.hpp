// Replay / bounded stand-in harness: drives the real headers of /repo against an independent oracle.
#pragma once
#include <type_traits>
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
using namespace bezman;
using std::size_t; using std::string; using std::vector; using std::array; using std::to_string;
typedef long double LD;

struct Rng {
  uint64_t s;
  uint64_t n() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  int i(int lo, int hi) { return lo + (int)(n() % (uint64_t)(hi - lo + 1)); }
  double v() { return i(-32, 32) / 16.; }       // dyadic values
  double pos() { return i(1, 48) / 16.; }
};
inline int g_fd = -1;
inline long g_cases = 0;
inline string g_case;
inline void note(const string& s) {   // description of the current input, survives a crash
  g_case = s; g_cases++;
  if (g_fd >= 0) { string t = s + "\n"; (void)!ftruncate(g_fd, 0); (void)!pwrite(g_fd, t.data(), t.size(), 0); }
  alarm(60);
}
[[noreturn]] inline void fail(const string& what) {
  printf("FAIL %s | input: %s\n", what.c_str(), g_case.c_str()); fflush(stdout); _exit(3);
}
inline void onalarm(int) { printf("FAIL does not terminate (60 s) | input: %s\n", g_case.c_str()); fflush(stdout); _exit(3); }
template <class T> string str(const T& v) {
  std::ostringstream o; o.precision(17);
  if constexpr (std::is_arithmetic_v<T>) o << +v;
  else { o << "["; bool f = true; for (const auto& x : v) { if (!f) o << ","; f = false; o << str(x); } o << "]"; }
  return o.str();
}
template <class P> constexpr int NC() { if constexpr (std::is_arithmetic_v<P>) return 1; else return P::kSpatialDimension; }
template <class P> LD comp(const P& p, int k) { if constexpr (std::is_arithmetic_v<P>) return p; else return p[k]; }
template <class P> P rpt(Rng& r) { P p{}; if constexpr (std::is_arithmetic_v<P>) p = r.v(); else for (auto& x : p) x = r.v(); return p; }
template <class P> P rpt01(Rng& r) { P p{}; auto g = [&] { return r.i(0, 4) == 0 ? (double)r.i(0, 1) : r.i(0, 64) / 64.; }; if constexpr (std::is_arithmetic_v<P>) p = g(); else for (auto& x : p) x = g(); return p; }
inline void ok(bool c, const string& what) { if (!c) fail(what); }
inline void near_(LD got, LD want, LD scale, const string& what, LD rel = 1e-9L) {
  if (!(std::fabs(got - want) <= rel * (std::fabs(want) + scale + 1e-6L))) {
    std::ostringstream o; o.precision(17); o << what << ": got " << (double)got << " expected " << (double)want; fail(o.str());
  }
}
// ---------------------------------------------------------------- oracle: independent of the library
inline LD binom(int n, int k) { if (k < 0 || k > n) return 0; LD r = 1; for (int j = 1; j <= k; j++) r = r * (n - k + j) / j; return std::floor(r + 0.5L); }
// monomial coefficients of the Bernstein polynomial, differentiated d times, as exact integers where they fit
inline LD bernd(int n, int i, int d, LD x) {
  if (i < 0 || i > n) return 0;
  if (d == 0) { LD r = binom(n, i); for (int k = 0; k < i; k++) r *= x; for (int k = 0; k < n - i; k++) r *= (1 - x); return r; }
  // d-th derivative of x^i (1-x)^(n-i) by Leibniz, exact factors
  LD s = 0;
  for (int a = 0; a <= d; a++) {      // a derivatives on x^i, d-a on (1-x)^(n-i)
    int b = d - a; if (a > i || b > n - i) continue;
    LD t = binom(d, a);
    for (int k = 0; k < a; k++) t *= (i - k);
    for (int k = 0; k < b; k++) t *= -(LD)(n - i - k);
    for (int k = 0; k < i - a; k++) t *= x;
    for (int k = 0; k < n - i - b; k++) t *= (1 - x);
    s += t;
  }
  return s * binom(n, i);
}
struct Val { vector<LD> v; LD scale = 0; };
template <size_t D, class P> Val ref(const array<size_t, D>& dg, const vector<P>& cp, const array<LD, D>& x, const array<size_t, D>& der = {}) {
  Val R; R.v.assign(NC<P>(), 0);
  array<vector<LD>, D> b;
  size_t N = 1;
  for (size_t d = 0; d < D; d++) { N *= dg[d] + 1; for (size_t i = 0; i <= dg[d]; i++) b[d].push_back(bernd(dg[d], i, der[d], x[d])); }
  if (cp.size() != N) fail("control point count " + to_string(cp.size()) + " for degrees " + str(dg));
  for (size_t f = 0; f < N; f++) {
    size_t r = f; LD w = 1;
    for (size_t d = 0; d < D; d++) { w *= b[d][r % (dg[d] + 1)]; r /= dg[d] + 1; }
    for (int k = 0; k < NC<P>(); k++) { R.v[k] += w * comp(cp[f], k); R.scale = std::max(R.scale, std::fabs(w * comp(cp[f], k))); }
  }
  R.scale *= N;
  return R;
}
template <size_t D, class P> Val refS(const BezierSpline<D, P, double>& s, const array<LD, D>& x, const array<size_t, D>& der = {}) { return ref<D, P>(s.GetDegrees(), s.GetControlPoints(), x, der); }
template <size_t D, class P> Val refR(const RationalBezierSpline<D, P, double>& s, const array<LD, D>& x) {
  Val a = refS<D, P>(s.GetNumeratorSpline(), x); Val w = refS<D, double>(s.GetWeightFunctionSpline(), x);
  ok(s.GetNumeratorSpline().GetDegrees() == s.GetWeightFunctionSpline().GetDegrees(), "numerator and weight function degrees differ");
  for (auto& c : a.v) c /= w.v[0];
  a.scale = a.scale / std::fabs(w.v[0]) * (1 + w.scale / std::fabs(w.v[0]));
  return a;
}
template <class P> void cmp(const P& got, const Val& want, const string& what, LD rel = 1e-9L) {
  for (int k = 0; k < NC<P>(); k++) near_(comp(got, k), want.v[k], want.scale, what + " component " + to_string(k), rel);
}
inline void cmpv(const Val& got, const Val& want, const string& what, LD rel = 1e-9L) {
  ok(got.v.size() == want.v.size(), what + ": dimension");
  for (size_t k = 0; k < got.v.size(); k++) near_(got.v[k], want.v[k], want.scale + got.scale, what + " component " + to_string(k), rel);
}
// ---------------------------------------------------------------- generators
template <size_t D> array<size_t, D> rdeg(Rng& r, int mx) { array<size_t, D> d{}; for (auto& x : d) x = r.i(0, mx); return d; }
// all-different, zero and equal degrees alike; now and then one direction of high degree
#ifndef WIDE
#define WIDE (PROP == 10 || PROP == 16 || PROP == 9 || PROP == 12 || PROP == 13 || PROP == 18 ? 14 : PROP == 15 ? 10 : PROP == 6 ? 18 : PROP == 2 || PROP == 1 ? 0 : 28)
#endif
template <size_t D> array<size_t, D> skew(Rng& r, int mx, bool wide = true) {
  if (WIDE > mx && wide && r.i(0, 9) == 0) { auto d = rdeg<D>(r, 1); d[r.i(0, D - 1)] = r.i(mx, std::max(mx, D == 1 ? WIDE : WIDE / (int)D)); return d; }
  array<size_t, D> d = rdeg<D>(r, mx); if (r.i(0, 4) == 0) for (auto& x : d) x = d[0]; if (r.i(0, 5) == 0) d[r.i(0, D - 1)] = 0; return d;
}
template <size_t D> int mxdeg() { return D == 1 ? 7 : D == 2 ? 4 : 3; }
template <size_t D> size_t cnt(const array<size_t, D>& d) { size_t n = 1; for (auto x : d) n *= x + 1; return n; }
template <size_t D, class P> BezierSpline<D, P, double> rspl(Rng& r, const array<size_t, D>& d) {
  vector<P> c(cnt<D>(d)); for (auto& p : c) p = rpt<P>(r); return {d, c};
}
template <size_t D, class P> BezierSpline<D, P, double> rspl(Rng& r) { return rspl<D, P>(r, rdeg<D>(r, mxdeg<D>())); }
template <size_t D, class P> BezierSpline<D, P, double> rspl01(Rng& r, const array<size_t, D>& d) {
  vector<P> c(cnt<D>(d)); for (auto& p : c) p = rpt01<P>(r); return {d, c};
}
template <size_t D, class P> RationalBezierSpline<D, P, double> rrat(Rng& r, const array<size_t, D>& d, bool unit = false) {
  vector<P> c(cnt<D>(d)); vector<double> w(c.size());
  for (auto& p : c) p = unit ? rpt01<P>(r) : rpt<P>(r);
  for (auto& x : w) x = r.pos();
  return {d, c, w};
}
template <size_t D> array<LD, D> rpos(Rng& r, bool inside = false) {
  array<LD, D> x{}; for (auto& t : x) { int k = r.i(0, inside ? 3 : 5); t = k == 0 ? 0 : k == 1 ? 1 : k == 4 ? r.i(-32, 96) / 64. : r.i(0, 64) / 64.; } return x;
}
template <size_t D> Point<D, double> topt(const array<LD, D>& x) { Point<D, double> p{}; for (size_t i = 0; i < D; i++) p[i] = (double)x[i]; return p; }
template <class S> string desc(const S& s) { return "degrees " + str(s.GetDegrees()) + " ctps " + str(s.GetControlPoints()); }
template <class S> string descr(const S& s) { return "rational degrees " + str(s.GetDegrees()) + " weighted " + str(s.GetWeightedControlPoints()) + " weights " + str(s.GetWeights()); }
template <size_t D, class P> void consistent(const BezierSpline<D, P, double>& s, const array<size_t, D>& dg, const string& w) {
  ok(s.GetDegrees() == dg, w + ": degrees " + str(s.GetDegrees()) + " expected " + str(dg));
  ok(s.GetNumberOfControlPoints() == cnt<D>(dg), w + ": GetNumberOfControlPoints");
  ok(s.GetControlPoints().size() == cnt<D>(dg), w + ": number of stored control points");
  for (size_t f = 0; f < cnt<D>(dg); f++) {
    auto m = s.LocalToGlobalIndex(f); size_t r = f;
    for (size_t d = 0; d < D; d++) { ok(m[d] == r % (dg[d] + 1), w + ": multi-index of " + to_string(f)); r /= dg[d] + 1; }
    ok(s.GlobalToLocalIndex(m) == f, w + ": flat index of " + to_string(f));
    ok(&s.ControlPoint(m) == &s.GetControlPoints()[f], w + ": ControlPoint(array) " + to_string(f));
  }
}
template <size_t D, class P> void sameAs(const BezierSpline<D, P, double>& a, const BezierSpline<D, P, double>& b, const string& w) {
  ok(a.GetDegrees() == b.GetDegrees() && a.GetControlPoints().size() == b.GetControlPoints().size(), w);
  for (size_t i = 0; i < a.GetControlPoints().size(); i++) ok(!std::memcmp(&a.GetControlPoints()[i], &b.GetControlPoints()[i], sizeof(P)), w);
}
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
template <size_t D, class F> void grid(int n, F f) { for (int i = 0; i < n; i++) f(); }
