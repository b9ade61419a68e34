// C01..C11: polynomial splines
template <size_t D, class F> void positions(Rng& r, int n, F f) {
  array<LD, D> x{}; f(x); for (auto& t : x) t = 1; f(x); for (auto& t : x) t = .5L; f(x);
  for (int i = 0; i < n; i++) f(rpos<D>(r));
}
template <class P> double ptmax(const vector<P>& v) { double m = 0; for (auto& p : v) for (int k = 0; k < NC<P>(); k++) m = std::max(m, std::fabs((double)comp(p, k))); return m; }
template <class P> bool eqp(const P& a, const P& b) { for (int k = 0; k < NC<P>(); k++) if (comp(a, k) != comp(b, k)) return false; return true; }
template <size_t D, class S, class F> void allIdx(const S& s, F f) {
  array<size_t, D> m{}; size_t n = cnt<D>(s.GetDegrees()), k = 0;
  for (; k < n; k++) { f(m, k); for (size_t d = 0; d < D; d++) { if (++m[d] <= s.GetDegrees()[d]) break; m[d] = 0; } }
}
#define V1(f, m) f(m[0])
#define V2(f, m) f(m[0], m[1])
#define V3(f, m) f(m[0], m[1], m[2])
#if PROP == 1
template <size_t D, class P> void acc(BezierSpline<D, P, double>& s, const string& w) {
  const auto& c = s; const auto dg = c.GetDegrees();
  consistent<D, P>(s, dg, w);
  ok(s.GetDegrees() == c.GetDegrees(), w + ": GetDegrees const and not");
  ok(&c.GetControlPoints() == &s.GetControlPoints(), w + ": GetControlPoints");
  allIdx<D>(c, [&](const array<size_t, D>& m, size_t k) {
    const P* want = &s.GetControlPoints()[k];
    string a = w + " index " + str(m);
    ok(&s.ControlPoint(m) == want && &c.ControlPoint(m) == want, a + ": ControlPoint(array)");
    if constexpr (D == 1) { ok(&V1(s.ControlPoint, m) == want && &V1(c.ControlPoint, m) == want, a + ": ControlPoint(i)"); ok(&s.ControlPoint((int)m[0]) == want, a); }
    if constexpr (D == 2) { ok(&V2(s.ControlPoint, m) == want && &V2(c.ControlPoint, m) == want, a + ": ControlPoint(i,j)"); ok(&s.ControlPoint((int)m[0], (unsigned)m[1]) == want, a); }
    if constexpr (D == 3) { ok(&V3(s.ControlPoint, m) == want && &V3(c.ControlPoint, m) == want, a + ": ControlPoint(i,j,k)"); }
    ok(c.GlobalToLocalIndex(m) == k, a + ": GlobalToLocalIndex");
    ok(c.LocalToGlobalIndex(k) == m, a + ": LocalToGlobalIndex");
  });
}
template <size_t D, class P> void accr(RationalBezierSpline<D, P, double>& s, const string& w) {
  const auto& c = s; const auto dg = c.GetDegrees();
  consistent<D, P>(c.GetNumeratorSpline(), dg, w + " numerator"); consistent<D, double>(c.GetWeightFunctionSpline(), dg, w + " weights");
  ok(c.GetNumberOfControlPoints() == cnt<D>(dg), w + " count");
  ok(&c.GetWeightedControlPoints() == &c.GetNumeratorSpline().GetControlPoints() && &s.GetWeightedControlPoints() == &c.GetWeightedControlPoints(), w + ": GetWeightedControlPoints");
  ok(&c.GetWeights() == &c.GetWeightFunctionSpline().GetControlPoints() && &s.GetWeights() == &c.GetWeights(), w + ": GetWeights");
  allIdx<D>(c, [&](const array<size_t, D>& m, size_t k) {
    string a = w + " index " + str(m);
    const P* wp = &c.GetWeightedControlPoints()[k]; const double* ww = &c.GetWeights()[k];
    ok(c.LocalToGlobalIndex(k) == m && c.GlobalToLocalIndex(m) == k, a + ": index");
    ok(&s.WeightedControlPoint(m) == wp && &c.WeightedControlPoint(m) == wp, a + ": WeightedControlPoint(array)");
    ok(&s.Weight(m) == ww && &c.Weight(m) == ww, a + ": Weight(array)");
    auto prj = [&](const P& p) { if (*ww == 0) return; for (int j = 0; j < NC<P>(); j++) near_(comp(p, j), comp(*wp, j) / *ww, 0, a + ": ControlPoint", 1e-12L); };
    prj(c.ControlPoint(m));
    if constexpr (D == 1) { ok(&V1(s.WeightedControlPoint, m) == wp && &V1(c.WeightedControlPoint, m) == wp && &V1(s.Weight, m) == ww && &V1(c.Weight, m) == ww, a + ": accessors(i)"); prj(V1(c.ControlPoint, m)); prj(V1(s.ControlPoint, m)); }
    if constexpr (D == 2) { ok(&V2(s.WeightedControlPoint, m) == wp && &V2(c.WeightedControlPoint, m) == wp && &V2(s.Weight, m) == ww && &V2(c.Weight, m) == ww, a + ": accessors(i,j)"); prj(V2(c.ControlPoint, m)); prj(c.ControlPoint((int)m[0], (int)m[1])); }
    if constexpr (D == 3) { ok(&V3(s.WeightedControlPoint, m) == wp && &V3(c.WeightedControlPoint, m) == wp && &V3(s.Weight, m) == ww && &V3(c.Weight, m) == ww, a + ": accessors(i,j,k)"); prj(V3(c.ControlPoint, m)); }
  });
}
template <size_t D, class P> void c01(Rng& r, int n) {
  for (int it = 0; it < n; it++) {
    auto dg = skew<D>(r, D == 1 ? 12 : D == 2 ? 6 : 4); auto d2 = skew<D>(r, D == 1 ? 12 : D == 2 ? 6 : 4);
    note("degrees " + str(dg) + " then " + str(d2));
    auto s = rspl<D, P>(r, dg); auto pts = s.GetControlPoints();
    for (size_t i = 0; i < pts.size(); i++) ok(eqp(s.GetControlPoints()[i], pts[i]), "constructed from list");
    acc(s, "constructed"); { BezierSpline<D, P, double> e(dg); acc(e, "constructed from degrees"); for (auto& p : e.GetControlPoints()) ok(eqp(p, P{}), "constructed from degrees: not zero"); }
    BezierSpline<D, P, double> c(s); acc(c, "copied"); sameAs(c, s, "copy differs");
    BezierSpline<D, P, double> e; e = s; acc(e, "assigned"); sameAs(e, s, "assigned differs");
    s.UpdateDegrees(d2); acc(s, "UpdateDegrees"); ok(s.GetDegrees() == d2, "UpdateDegrees degrees");
    size_t nk = std::min(s.GetControlPoints().size(), pts.size()); for (size_t i = 0; i < nk; i++) ok(eqp(s.GetControlPoints()[i], pts[i]), "UpdateDegrees changed kept control points");
    s = c; acc(s, "reassigned"); c.UpdateDegrees(d2); acc(c, "copy UpdateDegrees"); acc(s, "original of the copy");
    size_t pd = r.i(0, D - 1); s.OrderElevateAlongParametricDimension(pd); acc(s, "elevated");
    auto q = rrat<D, P>(r, dg); accr(q, "rational");
    RationalBezierSpline<D, P, double> q2(q); accr(q2, "rational copy");
    q2.UpdateDegrees(d2); accr(q2, "rational UpdateDegrees"); ok(q2.GetDegrees() == d2, "rational UpdateDegrees degrees"); q2 = q; accr(q2, "rational assigned");
    q2.OrderElevateAlongParametricDimension(pd); accr(q2, "rational elevated");
    RationalBezierSpline<D, P, double> q3(e); accr(q3, "rational from polynomial"); for (auto w : q3.GetWeights()) ok(w == 1, "weights of a polynomial");
    for (size_t i = 0; i < q3.GetWeights().size(); i++) ok(eqp(q3.GetWeightedControlPoints()[i], e.GetControlPoints()[i]), "rational from polynomial");
    RationalBezierSpline<D, P, double> q4(dg); ok(q4.GetDegrees() == dg && q4.GetNumberOfControlPoints() == cnt<D>(dg), "rational from degrees");
    vector<P> cp(cnt<D>(dg)); vector<double> ws(cp.size()); for (auto& p : cp) p = rpt<P>(r); for (auto& w : ws) w = r.pos();
    RationalBezierSpline<D, P, double> q5(dg, cp, ws); accr(q5, "rational constructed");
    for (size_t i = 0; i < cp.size(); i++) { ok(q5.GetWeights()[i] == ws[i], "constructed weights"); for (int k = 0; k < NC<P>(); k++) near_(comp(q5.GetWeightedControlPoints()[i], k), comp(cp[i], k) * ws[i], 0, "constructed weighted control points", 1e-12L); }
    RationalBezierSpline<D, P, double> q6(q5.GetNumeratorSpline(), q5.GetWeightFunctionSpline()); accr(q6, "rational from splines");
  }
}
void prop(Rng& r, int n) { n *= 40; c01<1, double>(r, n); c01<1, Point<2, double>>(r, n); c01<2, double>(r, n); c01<2, Point<3, double>>(r, n); c01<3, Point<3, double>>(r, n / 2); c01<3, double>(r, n / 2); c01<4, double>(r, n / 4); }
#endif
#if PROP == 2
template <size_t N> void c02(Rng& r, int n) {
  using P = Point<N, double>;
  for (int it = 0; it < n; it++) {
    const P a = rpt<P>(r), b = rpt<P>(r); double s = r.v(); if (s == 0) s = .75; if (r.i(0, 3) == 0) s = r.i(0, 1) ? 4 : -1;
    note("a " + str(a) + " b " + str(b) + " s " + to_string(s));
    P x = a, y = b;
    auto chk = [&](const P& got, auto want, const char* w, LD rel = 1e-13L) { for (size_t k = 0; k < N; k++) near_(got[k], want(k), 0, string(w) + " component " + to_string(k), rel); };
    auto same = [&](const char* w) { ok(eqp(x, a) && eqp(y, b), string(w) + " changed an operand"); };
    chk(x + y, [&](size_t k) { return (LD)a[k] + b[k]; }, "a+b"); same("a+b");
    chk(x - y, [&](size_t k) { return (LD)a[k] - b[k]; }, "a-b"); same("a-b");
    chk(-x, [&](size_t k) { return -(LD)a[k]; }, "-a"); same("-a");
    chk(x * s, [&](size_t k) { return (LD)a[k] * s; }, "a*s"); same("a*s");
    chk(s * x, [&](size_t k) { return (LD)a[k] * s; }, "s*a"); same("s*a");
    chk(x / s, [&](size_t k) { return (LD)a[k] / s; }, "a/s"); same("a/s");
    bool nz = true; for (auto v : a) nz = nz && v != 0;
    if (nz) { chk(s / x, [&](size_t k) { return (LD)s / a[k]; }, "s/a"); same("s/a"); }
    LD d = 0, q = 0; for (size_t k = 0; k < N; k++) { d += (LD)a[k] * b[k]; q += (LD)a[k] * a[k]; }
    near_(x * y, d, 10, "a.b", 1e-12L); near_(x.SquaredEuclidianNorm(), q, 0, "squared norm", 1e-12L); near_(x.EuclidianNorm(), std::sqrt(q), 0, "norm", 1e-12L); same("dot/norm");
    { P z = a; P& rr = (z += b); ok(&rr == &z, "+= result"); chk(z, [&](size_t k) { return (LD)a[k] + b[k]; }, "a+=b"); }
    { P z = a; P& rr = (z -= b); ok(&rr == &z, "-= result"); chk(z, [&](size_t k) { return (LD)a[k] - b[k]; }, "a-=b"); }
    { P z = a; P& rr = (z *= s); ok(&rr == &z, "*= result"); chk(z, [&](size_t k) { return (LD)a[k] * s; }, "a*=s"); }
    { P z = a; P& rr = (z /= s); ok(&rr == &z, "/= result"); chk(z, [&](size_t k) { return (LD)a[k] / s; }, "a/=s"); }
    { P z = a; z += z; chk(z, [&](size_t k) { return 2 * (LD)a[k]; }, "a+=a"); }
    { P z = a; z -= z; chk(z, [&](size_t) { return (LD)0; }, "a-=a"); }
    for (size_t j = 0; j < N; j++) {
      { P z = a; z *= z[j]; chk(z, [&](size_t k) { return (LD)a[k] * a[j]; }, "a*=a[j]"); }
      { P z = a; P u = z * z[j]; chk(u, [&](size_t k) { return (LD)a[k] * a[j]; }, "a*a[j]"); }
      if (a[j] != 0) { P z = a; z /= z[j]; chk(z, [&](size_t k) { return (LD)a[k] / a[j]; }, "a/=a[j]"); }
      if (nz) { P z = a; P u = z[j] / z; chk(u, [&](size_t k) { return (LD)a[j] / a[k]; }, "a[j]/a"); }
      { P z = a; P u = z[j] * z; chk(u, [&](size_t k) { return (LD)a[k] * a[j]; }, "a[j]*a"); }
    }
    near_(x * x, q, 0, "a.a", 1e-12L);
  }
}
void prop(Rng& r, int n) { n *= 400; c02<1>(r, n); c02<2>(r, n); c02<3>(r, n); c02<4>(r, n); c02<7>(r, n / 4); }
#endif
#if PROP == 3 || PROP == 4
#include "bezman/src/utils/algorithms/bernstein_polynomial.hpp"
const double XS[] = {0, 1, .5, .25, .75, .1, .9, -.5, 1.5, 2, -3, 1e-3, 7.25, 1. / 3, -1};
void prop(Rng& r, int n) {
  using BP = utils::algorithms::BernsteinPolynomial<double>;
#if PROP == 3
  for (unsigned m = 0; m < 30; m++) { for (unsigned k = 0; k <= m; k++) { note("choose(" + to_string(m) + "," + to_string(k) + ")"); ok((LD)utils::FastBinomialCoefficient::choose(m, k) == binom(m, k), "binomial coefficient"); } }
#endif
  for (int it = 0; it < n; it++) for (size_t m = 0; m < 30; m++) for (int j = 0; j < 18; j++) {
    double x = j < 15 ? XS[j] : r.i(-64, 128) / 64. + (j == 17 ? 1e-5 : 0);
#if PROP == 3
    note("degree " + to_string(m) + " x " + str(x));
    auto b = BP::Evaluate(m, x); ok(b.size() == m + 1, "number of values");
    for (size_t i = 0; i <= m; i++) near_(b[i], bernd(m, i, 0, x), 0, "value " + to_string(i), 1e-12L);
    for (size_t i = 0; i <= m; i++) if (bernd(m, i, 0, x) == 0) ok(b[i] == 0, "value " + to_string(i) + " not zero");
#else
    for (size_t d : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, m / 2, m ? m - 1 : 0, m, m + 1, m + 7, (size_t)r.i(0, 30)}) {
      note("degree " + to_string(m) + " derivative " + to_string(d) + " x " + str(x));
      auto b = BP::EvaluateDerivative(m, x, d); ok(b.size() == m + 1, "number of values");
      for (size_t i = 0; i <= m; i++) {
        if (d > m) { ok(b[i] == 0, "derivative above the degree not zero"); continue; }
        LD f = 1, sc = 0; for (size_t k = 0; k < d; k++) f *= m - k;
        for (size_t k = 0; k <= d && k <= i; k++) sc += binom(d, k) * std::fabs(bernd(m - d, i - k, 0, x));
        // expected by B_n,i^(d) = n!/(n-d)! sum_k (-1)^(k+d) C(d,k) B_{n-d,i-k}, itself cross-checked with Leibniz where that is well conditioned
        LD w = bernd(m, i, d, x);
        LD lsc = 0; for (size_t a = 0; a <= d; a++) { size_t e = d - a; if (a > i || e > m - i) continue; LD t = binom(d, a); for (size_t k = 0; k < a; k++) t *= i - k; for (size_t k = 0; k < e; k++) t *= m - i - k; for (size_t k = 0; k < i - a; k++) t *= std::fabs((LD)x); for (size_t k = 0; k < m - i - e; k++) t *= std::fabs(1 - (LD)x); lsc += t; }
        near_(b[i], w, f * sc + lsc * binom(m, i) * 1e-3L, "value " + to_string(i), 1e-11L);
      }
    }
#endif
  }
}
#endif
#if PROP == 5
template <size_t D, class P> void c05(Rng& r, int n, int mx) {
  for (int it = 0; it < n; it++) {
    auto s = rspl<D, P>(r, skew<D>(r, mx)); const auto c = s;
    positions<D>(r, 3, [&](array<LD, D> x) {
      note(desc(s) + " at " + str(x)); auto p = topt<D>(x); auto want = refS<D, P>(s, x);
      cmp(s.Evaluate(p), want, "Evaluate"); cmp(s.ForwardEvaluate(p), want, "ForwardEvaluate");
      auto b = s.BasisFunctions(p); ok(b.size() == cnt<D>(s.GetDegrees()), "number of basis functions");
      for (size_t f = 0; f < b.size(); f++) { size_t q = f; LD w = 1, ss = 0; for (size_t d = 0; d < D; d++) { w *= bernd(s.GetDegrees()[d], q % (s.GetDegrees()[d] + 1), 0, x[d]); q /= s.GetDegrees()[d] + 1; } ss = std::fabs(w); near_(b[f], w, ss, "basis function " + to_string(f)); }
      auto bc = s.BasisFunctionContributions(p);
      for (size_t d = 0; d < D; d++) { ok(bc[d].size() == s.GetDegrees()[d] + 1, "contribution size"); for (size_t i = 0; i < bc[d].size(); i++) near_(bc[d][i], bernd(s.GetDegrees()[d], i, 0, x[d]), 0, "contribution"); }
      if constexpr (D == 1) { cmp(s.Evaluate(p[0]), want, "Evaluate(x)"); cmp(s.ForwardEvaluate(p[0]), want, "ForwardEvaluate(x)"); ok(s.BasisFunctions(p[0]) == b, "BasisFunctions(x)"); }
      if constexpr (D == 2) { cmp(s.Evaluate(p[0], p[1]), want, "Evaluate(x,y)"); cmp(s.ForwardEvaluate(p[0], p[1]), want, "ForwardEvaluate(x,y)"); ok(s.BasisFunctions(p[0], p[1]) == b, "BasisFunctions(x,y)"); }
      if constexpr (D == 3) { cmp(s.Evaluate(p[0], p[1], p[2]), want, "Evaluate(x,y,z)"); cmp(s.ForwardEvaluate(p[0], p[1], p[2]), want, "ForwardEvaluate(x,y,z)"); ok(s.BasisFunctions(p[0], p[1], p[2]) == b, "BasisFunctions(x,y,z)"); }
      sameAs(s, c, "evaluation changed the spline");
    });
  }
}
void prop(Rng& r, int n) { n *= 25; c05<1, double>(r, n, 8); c05<1, Point<2, double>>(r, n, 29); c05<1, double>(r, n / 2, 29); c05<2, Point<3, double>>(r, n, 5); c05<2, double>(r, n, 5); c05<2, double>(r, n / 8, 12); c05<3, Point<3, double>>(r, n / 2, 3); c05<3, double>(r, n / 2, 4); c05<4, double>(r, n / 8, 2); c05<1, Point<5, double>>(r, n / 6, 6); c05<2, Point<4, double>>(r, n / 8, 3); }
#endif
#if PROP == 6
template <size_t D, class P> void c06(Rng& r, int n, int mx) {
  for (int it = 0; it < n; it++) {
    auto dg = skew<D>(r, mx); auto s = rspl<D, P>(r, dg); const auto c = s; array<size_t, D> o{};
    for (size_t d = 0; d < D; d++) { int k = r.i(0, 5); o[d] = k == 0 ? 0 : k == 1 ? dg[d] + r.i(0, 2) : k == 2 ? 1 : r.i(0, (int)dg[d]); }
    note(desc(s) + " orders " + str(o));
    auto ds = s.DerivativeWRTParametricDimension(o); sameAs(s, c, "changed the spline");
    array<size_t, D> e{}; for (size_t d = 0; d < D; d++) e[d] = dg[d] > o[d] ? dg[d] - o[d] : 0;
    consistent<D, P>(ds, ds.GetDegrees(), "derivative spline"); for (size_t d = 0; d < D; d++) ok(ds.GetDegrees()[d] <= dg[d], "derivative degree grew");
    LD sc = ptmax(s.GetControlPoints()) + 1; for (size_t d = 0; d < D; d++) for (size_t k = 0; k < o[d]; k++) sc *= 2 * (LD)dg[d] + 1;
    bool zero = true; for (auto k : o) zero = zero && k == 0;
    if (zero) sameAs(ds, s, "order zero derivative differs");
    positions<D>(r, 2, [&](array<LD, D> x) {
      note(desc(s) + " orders " + str(o) + " at " + str(x)); auto p = topt<D>(x); auto want = refS<D, P>(s, x, o);
      LD g = 1; for (size_t d = 0; d < D; d++) for (size_t k = 0; k < dg[d]; k++) g *= std::max((LD)1, std::fabs(x[d]) + std::fabs(1 - x[d]));
      want.scale += sc * g;
      cmp(s.EvaluateDerivative(p, o), want, "EvaluateDerivative", 1e-10L); cmp(ds.Evaluate(p), want, "derivative spline Evaluate", 1e-10L); cmp(ds.ForwardEvaluate(p), want, "derivative spline ForwardEvaluate", 1e-10L);
      auto b = s.BasisFunctionsDerivatives(p, o); ok(b.size() == cnt<D>(dg), "number of derivative basis functions");
      for (size_t f = 0; f < b.size(); f++) { size_t q = f; LD w = 1; for (size_t d = 0; d < D; d++) { w *= bernd(dg[d], q % (dg[d] + 1), o[d], x[d]); q /= dg[d] + 1; } near_(b[f], w, std::fabs(w) + sc * g, "derivative basis function " + to_string(f), 1e-10L); }
      auto bc = s.BasisFunctionsDerivativeContributions(p, o);
      for (size_t d = 0; d < D; d++) { ok(bc[d].size() == dg[d] + 1, "contribution size"); for (size_t i = 0; i < bc[d].size(); i++) near_(bc[d][i], bernd(dg[d], i, o[d], x[d]), sc * g, "derivative contribution", 1e-10L); }
      if (zero) cmp(s.EvaluateDerivative(p, o), refS<D, P>(s, x), "order zero");
      for (size_t d = 0; d < D; d++) if (o[d] > dg[d]) { auto z = s.EvaluateDerivative(p, o), y = ds.Evaluate(p); for (int k = 0; k < NC<P>(); k++) ok(comp(z, k) == 0 && comp(y, k) == 0, "order above the degree not zero"); }
    });
  }
}
void prop(Rng& r, int n) { n *= 60; c06<1, double>(r, n, 8); c06<1, Point<2, double>>(r, n, 12); c06<2, Point<3, double>>(r, n, 5); c06<2, double>(r, n, 4); c06<3, double>(r, n / 2, 3); c06<3, Point<3, double>>(r, n / 3, 3); c06<4, double>(r, n / 12, 2); c06<1, Point<5, double>>(r, n / 6, 6); c06<2, Point<4, double>>(r, n / 12, 3); }
#endif
#if PROP == 7
template <size_t D, class P> void c07(Rng& r, int n, int mx) {
  for (int it = 0; it < n; it++) {
    auto dg = skew<D>(r, mx); auto s = rspl<D, P>(r, dg); const auto c = s; int times = r.i(1, 3);
    for (int t = 0; t < times; t++) {
      size_t pd = r.i(0, D - 1); note(desc(s) + " elevate " + to_string(pd)); dg[pd]++;
      auto& q = s.OrderElevateAlongParametricDimension(pd); ok(&q == &s, "result is not the spline");
      consistent<D, P>(s, dg, "elevated");
      positions<D>(r, 3, [&](array<LD, D> x) { cmpv(refS<D, P>(s, x), refS<D, P>(c, x), "value after elevation at " + str(x)); });
    }
    positions<D>(r, 1, [&](array<LD, D> x) { cmp(s.Evaluate(topt<D>(x)), refS<D, P>(c, x), "Evaluate after elevation"); });
  }
}
void prop(Rng& r, int n) { n *= 40; c07<1, double>(r, n, 9); c07<1, Point<2, double>>(r, n, 20); c07<2, Point<3, double>>(r, n, 6); c07<2, double>(r, n, 5); c07<3, double>(r, n, 3); c07<3, Point<3, double>>(r, n / 2, 3); c07<4, double>(r, n / 8, 2); c07<1, Point<5, double>>(r, n / 6, 6); c07<2, Point<4, double>>(r, n / 8, 3); }
#endif
#if PROP == 8
template <size_t D, class P> void c08(Rng& r, int n, int mx) {
  const double T[] = {.5, .25, .75, 1. / 64, 63. / 64, .3, 1e-6, 1 - 1e-6};
  for (int it = 0; it < n; it++) {
    auto dg = skew<D>(r, mx); auto s = rspl<D, P>(r, dg); const auto c = s; size_t pd = r.i(0, D - 1);
    double t = r.i(0, 1) ? T[r.i(0, 7)] : r.i(1, 63) / 64.;
    note(desc(s) + " split " + str(t) + " dim " + to_string(pd));
    auto g = s.SplitAtPosition(t, pd); ok(g.size() == 2, "two parts"); sameAs(s, c, "split changed the original");
    auto part = [&](const BezierSpline<D, P, double>& q, LD a, LD b, const string& w) {
      consistent<D, P>(q, dg, w);
      positions<D>(r, 2, [&](array<LD, D> x) { auto y = x; y[pd] = a + (b - a) * x[pd]; auto want = refS<D, P>(c, y); want.scale += ptmax(c.GetControlPoints()); cmpv(refS<D, P>(q, x), want, w + " at " + str(x)); });
    };
    part(g[0], 0, t, "first part"); part(g[1], t, 1, "second part");
    if (pd == 0) { auto h = s.SplitAtPosition(t); ok(h.size() == 2 && h[0] == g[0] && h[1] == g[1], "default dimension"); }
    int k = r.i(0, 4); vector<double> l; for (int i = 0; i < k; i++) l.push_back(r.i(1, 63) / 64.); std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end());
    note(desc(s) + " split " + str(l) + " dim " + to_string(pd));
    auto v = s.SplitAtPosition(l, pd); sameAs(s, c, "split changed the original"); ok(v.size() == l.size() + 1, "number of parts");
    if (l.empty()) sameAs(v[0], c, "empty list"); else for (size_t i = 0; i < v.size(); i++) part(v[i], i ? l[i - 1] : 0, i < l.size() ? l[i] : 1, "part " + to_string(i));
    for (double bad : {0., 1., -.5, 1.5, -1e-9, 1 + 1e-9, std::nan("")}) {
      note(desc(s) + " split " + str(bad) + " dim " + to_string(pd)); ok(throws([&] { s.SplitAtPosition(bad, pd); }), "position outside (0,1) accepted");
      ok(throws([&] { s.SplitAtPosition(vector<double>{bad}, pd); }), "list outside (0,1) accepted");
    }
    for (auto bad : {vector<double>{.5, .25}, vector<double>{.25, .75, .5}, vector<double>{.25, .5, 1.}, vector<double>{.5, 1.5}, vector<double>{0., .5}, vector<double>{-.5, .5}, vector<double>{.75, .8, .1}, vector<double>{.5, .5}, vector<double>{.1, .2, .2}}) {
      note(desc(s) + " split " + str(bad) + " dim " + to_string(pd)); ok(throws([&] { s.SplitAtPosition(bad, pd); }), "bad list accepted");
    }
  }
}
void prop(Rng& r, int n) { n *= 25; c08<1, double>(r, n, 9); c08<1, Point<2, double>>(r, n, 9); c08<2, Point<3, double>>(r, n, 5); c08<2, double>(r, n, 5); c08<3, double>(r, n, 3); c08<3, Point<3, double>>(r, n / 2, 3); c08<4, double>(r, n / 8, 2); c08<1, Point<5, double>>(r, n / 6, 5); c08<2, Point<4, double>>(r, n / 8, 3); }
#endif
#if PROP == 9
template <size_t D, class P> void c09(Rng& r, int n, int mx) {
  using S = BezierSpline<D, P, double>;
  for (int it = 0; it < n; it++) {
    auto da = skew<D>(r, mx), db = r.i(0, 3) == 0 ? da : skew<D>(r, mx); array<size_t, D> dm; for (size_t d = 0; d < D; d++) dm[d] = std::max(da[d], db[d]);
    const S a0 = rspl<D, P>(r, da), b0 = rspl<D, P>(r, db); S a = a0, b = b0; const P p0 = rpt<P>(r); P p = p0; const double f0 = r.v(); double f = f0;
    note("a " + desc(a) + " b " + desc(b) + " shift " + str(p) + " factor " + str(f));
    auto same = [&](const string& w) { sameAs(a, a0, w + " changed a"); sameAs(b, b0, w + " changed b"); ok(eqp(p, p0) && f == f0, w + " changed an argument"); };
    auto chk = [&](const S& q, const array<size_t, D>& dg, auto fn, const string& w) {
      consistent<D, P>(q, dg, w);
      positions<D>(r, 1, [&](array<LD, D> x) { auto u = refS<D, P>(a0, x), v = refS<D, P>(b0, x); Val z; z.scale = u.scale * (1 + std::fabs((LD)f)) + v.scale + 5; for (int k = 0; k < NC<P>(); k++) z.v.push_back(fn(u.v[k], v.v[k], k)); cmpv(refS<D, P>(q, x), z, w + " at " + str(x)); });
    };
    auto plus = [&](LD u, LD v, int) { return u + v; }; auto minus = [&](LD u, LD v, int) { return u - v; };
    chk(a + b, dm, plus, "a+b"); same("a+b"); chk(a - b, dm, minus, "a-b"); same("a-b"); chk(-a, da, [&](LD u, LD, int) { return -u; }, "-a"); same("-a");
    chk(b + a, dm, plus, "b+a"); chk(b - a, dm, [&](LD u, LD v, int) { return v - u; }, "b-a"); same("b-a");
    chk(a * f, da, [&](LD u, LD, int) { return u * f0; }, "a*f"); same("a*f"); chk(f * a, da, [&](LD u, LD, int) { return u * f0; }, "f*a"); same("f*a");
    chk(a + p, da, [&](LD u, LD, int k) { return u + comp(p0, k); }, "a+p"); same("a+p"); chk(p + a, da, [&](LD u, LD, int k) { return u + comp(p0, k); }, "p+a"); same("p+a");
    chk(a - p, da, [&](LD u, LD, int k) { return u - comp(p0, k); }, "a-p"); same("a-p"); chk(p - a, da, [&](LD u, LD, int k) { return comp(p0, k) - u; }, "p-a"); same("p-a");
    { S q = a; S& w = (q += b); ok(&w == &q, "+= result"); chk(q, dm, plus, "a+=b"); same("a+=b"); }
    { S q = a; S& w = (q -= b); ok(&w == &q, "-= result"); chk(q, dm, minus, "a-=b"); same("a-=b"); }
    { S q = a; q += q; chk(q, da, [&](LD u, LD, int) { return 2 * u; }, "a+=a"); } { S q = a; q -= q; chk(q, da, [&](LD, LD, int) { return (LD)0; }, "a-=a"); }
    { S q = a; S& w = (q *= f); ok(&w == &q, "*= result"); chk(q, da, [&](LD u, LD, int) { return u * f0; }, "a*=f"); }
    { S q = a; S& w = (q += p); ok(&w == &q, "+= result"); chk(q, da, [&](LD u, LD, int k) { return u + comp(p0, k); }, "a+=p"); }
    { S q = a; S& w = (q -= p); ok(&w == &q, "-= result"); chk(q, da, [&](LD u, LD, int k) { return u - comp(p0, k); }, "a-=p"); }
    chk(a + a, da, [&](LD u, LD, int) { return 2 * u; }, "a+a"); chk(a - a, da, [&](LD, LD, int) { return (LD)0; }, "a-a"); same("a-a");
    for (size_t j = 0; j < a0.GetControlPoints().size(); j += 1 + r.i(0, 3)) {
      const P c = a0.GetControlPoints()[j];
      { S q = a; q += q.GetControlPoints()[j]; chk(q, da, [&](LD u, LD, int k) { return u + comp(c, k); }, "a+=a.cp[" + to_string(j) + "]"); }
      { S q = a; q -= q.GetControlPoints()[j]; chk(q, da, [&](LD u, LD, int k) { return u - comp(c, k); }, "a-=a.cp[" + to_string(j) + "]"); }
      { S q = a; S w = q + q.GetControlPoints()[j]; chk(w, da, [&](LD u, LD, int k) { return u + comp(c, k); }, "a+a.cp"); }
      if constexpr (std::is_arithmetic_v<P>) { S q = a; q *= q.GetControlPoints()[j]; chk(q, da, [&](LD u, LD, int) { return u * c; }, "a*=a.cp"); }
      else { S q = a; q *= q.GetControlPoints()[j][NC<P>() - 1]; chk(q, da, [&](LD u, LD, int) { return u * c[NC<P>() - 1]; }, "a*=a.cp[][]"); }
    }
    ok(a == a0 && !(a == (a0 + (p + [] { P o{}; if constexpr (std::is_arithmetic_v<P>) o = 99; else o[NC<P>() - 1] = 99; return o; }()))), "operator==");
  }
}
void prop(Rng& r, int n) { n *= 30; c09<1, double>(r, n, 7); c09<1, Point<2, double>>(r, n, 7); c09<2, Point<3, double>>(r, n, 4); c09<2, double>(r, n, 4); c09<3, double>(r, n / 2, 2); c09<3, Point<3, double>>(r, n / 3, 2); c09<4, double>(r, n / 12, 1); c09<1, Point<5, double>>(r, n / 6, 4); c09<2, Point<4, double>>(r, n / 8, 2); }
#endif
#if PROP == 10
template <size_t D, class P, class Q> void c10(Rng& r, int n, int mx) {
  for (int it = 0; it < n; it++) {
    auto da = skew<D>(r, mx), db = skew<D>(r, mx); const auto a0 = rspl<D, P>(r, da); const auto b0 = rspl<D, Q>(r, db); auto a = a0; auto b = b0;
    note("a " + desc(a) + " b " + desc(b)); auto c = a * b; sameAs(a, a0, "product changed a"); sameAs(b, b0, "product changed b");
    using R = std::decay_t<decltype(c.GetControlPoints()[0])>; array<size_t, D> ds; for (size_t d = 0; d < D; d++) ds[d] = da[d] + db[d];
    consistent<D, R>(c, ds, "product");
    positions<D>(r, 2, [&](array<LD, D> x) {
      auto u = refS<D, P>(a0, x); auto v = refS<D, Q>(b0, x); Val z; z.scale = u.scale * v.scale * 4;
      if constexpr (NC<P>() > 1 && NC<Q>() > 1) { LD t = 0; for (int k = 0; k < NC<P>(); k++) t += u.v[k] * v.v[k]; z.v = {t}; }
      else if constexpr (NC<P>() > 1) for (int k = 0; k < NC<P>(); k++) z.v.push_back(u.v[k] * v.v[0]);
      else for (int k = 0; k < NC<Q>(); k++) z.v.push_back(u.v[0] * v.v[k]);
      cmpv(refS<D, R>(c, x), z, "product at " + str(x));
    });
    { note("a " + desc(a) + " times itself"); auto q = a * a; sameAs(a, a0, "a*a changed a"); using R2 = std::decay_t<decltype(q.GetControlPoints()[0])>; for (size_t d = 0; d < D; d++) ds[d] = 2 * da[d]; consistent<D, R2>(q, ds, "a*a");
      positions<D>(r, 1, [&](array<LD, D> x) { auto u = refS<D, P>(a0, x); Val z; LD t = 0; for (int k = 0; k < NC<P>(); k++) t += u.v[k] * u.v[k]; z.v = {t}; z.scale = u.scale * u.scale * 4; cmpv(refS<D, R2>(q, x), z, "a*a at " + str(x)); }); }
  }
}
template <size_t D> void powr(Rng& r, int n, int mx) {
  for (int it = 0; it < n; it++) {
    auto dg = skew<D>(r, mx, false); int e = r.i(0, D == 1 ? 9 : 5); const auto s0 = rspl<D, double>(r, dg); auto s = s0; note(desc(s) + " power " + to_string(e));
    auto q = s.RaisePower(e); sameAs(s, s0, "RaisePower changed the spline"); array<size_t, D> ds; for (size_t d = 0; d < D; d++) ds[d] = dg[d] * e; consistent<D, double>(q, ds, "power");
    positions<D>(r, 2, [&](array<LD, D> x) { auto u = refS<D, double>(s0, x); Val z; LD t = 1, sc = 1; for (int k = 0; k < e; k++) { t *= u.v[0]; sc *= u.scale + 1; } z.v = {t}; z.scale = sc; cmpv(refS<D, double>(q, x), z, "power at " + str(x)); });
  }
}
void prop(Rng& r, int n) {
  n *= 20; c10<1, double, double>(r, n, 7); c10<1, double, double>(r, n / 4, 14); c10<1, Point<2, double>, double>(r, n, 6); c10<1, double, Point<3, double>>(r, n, 6); c10<1, Point<3, double>, Point<3, double>>(r, n, 5);
  c10<2, double, double>(r, n, 3); c10<2, Point<2, double>, double>(r, n, 3); c10<2, double, Point<2, double>>(r, n, 3); c10<2, Point<2, double>, Point<2, double>>(r, n, 3);
  c10<3, double, double>(r, n / 3, 2); c10<3, double, Point<3, double>>(r, n / 3, 2); c10<3, Point<3, double>, Point<3, double>>(r, n / 3, 2); powr<1>(r, n, 3); powr<2>(r, n, 2); powr<3>(r, n / 4 + 1, 1); c10<4, double, double>(r, n / 8 + 1, 1); c10<2, Point<5, double>, Point<5, double>>(r, n / 8 + 1, 2); c10<1, double, Point<4, double>>(r, n / 8 + 1, 4);
}
#endif
#if PROP == 11
template <size_t D, class P> void c11(Rng& r, int n, int mx) {
  using S = BezierSpline<D, P, double>; constexpr int K = NC<P>();
  auto setc = [](P& p, int k, double v) { if constexpr (std::is_arithmetic_v<P>) p = v; else p[k] = v; };
  for (int it = 0; it < n; it++) {
    auto dg = skew<D>(r, mx); S s = rspl<D, P>(r, dg); int mode = r.i(0, 5); auto& cp = s.GetControlPoints();
    for (auto& p : cp) for (int k = 0; k < K; k++) { double v = (double)comp(p, k); if (mode == 1) v = -4 - std::fabs(v); if (mode == 2) v = 4 + std::fabs(v); if (mode >= 3) v = r.i(0, 2) == 0 ? r.i(0, 1) : r.i(0, 64) / 64.; setc(p, k, v); }
    if (mode == 5) { int k = r.i(0, K - 1); size_t j = r.i(0, 2) == 0 ? cp.size() - 1 : r.i(0, (int)cp.size() - 1); setc(cp[j], k, r.i(0, 2) == 0 ? (r.i(0, 1) ? std::nextafter(1., 2.) : -std::numeric_limits<double>::denorm_min()) : r.i(0, 1) ? 1 + 1 / 1024. / 1024 / 1024 : -1 / 1024. / 1024 / 1024); }
    const S c = s; note(desc(s));
    auto corners = [&](const auto& o, auto get, const string& w) {
      auto mxc = o.MaximumCorner(); auto mnc = o.MinimumCorner(); bool in = true; bool edge = false;
      for (int k = 0; k < K; k++) { LD hi = get(0, k), lo = hi; for (size_t j = 0; j < cp.size(); j++) { hi = std::max(hi, get(j, k)); lo = std::min(lo, get(j, k)); } near_(comp(mxc, k), hi, 0, w + " MaximumCorner", 1e-13L); near_(comp(mnc, k), lo, 0, w + " MinimumCorner", 1e-13L); in = in && hi <= 1 && lo >= 0; edge = edge || std::fabs(hi - 1) < 1e-14L; }
      if (w == "spline" || !edge) ok(o.FitsIntoUnitCube() == in, w + " FitsIntoUnitCube");
    };
    corners(s, [&](size_t j, int k) { return comp(c.GetControlPoints()[j], k); }, "spline"); sameAs(s, c, "corners changed the spline");
    { vector<double> w(cp.size()); for (auto& x : w) { x = r.i(0, 2) ? r.pos() : 1 << r.i(0, 3); if (r.i(0, 7) == 0) x = -x; } RationalBezierSpline<D, P, double> q(dg, cp, w); note("rational " + desc(s) + " weights " + str(w)); corners(q, [&](size_t j, int k) { return comp(q.GetWeightedControlPoints()[j], k) / (LD)q.GetWeights()[j]; }, "rational"); }
    note(desc(s));
    for (int k = 0; k < K; k++) { auto e = s.ExtractDimension(k); ok(e.GetDegrees() == dg && e.GetControlPoints().size() == cp.size(), "ExtractDimension shape"); consistent<D, double>(e, dg, "extracted"); for (size_t j = 0; j < cp.size(); j++) ok((LD)e.GetControlPoints()[j] == comp(cp[j], k), "ExtractDimension " + to_string(k)); }
    ok(throws([&] { s.ExtractDimension(K); }), "dimension out of range accepted"); sameAs(s, c, "ExtractDimension changed the spline");
    { P t = rpt<P>(r), f = rpt<P>(r); S q = s; note(desc(s) + " transposition " + str(t) + " scale " + str(f)); S& w = q.TransposeAndScale(t, f); ok(&w == &q, "result"); consistent<D, P>(q, dg, "TransposeAndScale"); for (size_t j = 0; j < cp.size(); j++) for (int k = 0; k < K; k++) near_(comp(q.GetControlPoints()[j], k), (comp(cp[j], k) + comp(t, k)) * comp(f, k), 8, "TransposeAndScale", 1e-13L);
      for (size_t i = 0; i < cp.size(); i += 1 + r.i(0, 2)) { S u = s; u.TransposeAndScale(u.GetControlPoints()[i], u.GetControlPoints()[cp.size() - 1 - i]); const P &t2 = cp[i], &f2 = cp[cp.size() - 1 - i]; for (size_t j = 0; j < cp.size(); j++) for (int k = 0; k < K; k++) near_(comp(u.GetControlPoints()[j], k), (comp(cp[j], k) + comp(t2, k)) * comp(f2, k), 8, "TransposeAndScale with own control points", 1e-13L); } }
    { S q = s; auto hi = s.MaximumCorner(), lo = s.MinimumCorner(); bool deg = false; for (int k = 0; k < K; k++) deg = deg || comp(hi, k) == comp(lo, k); note(desc(s)); S& w = q.FitIntoUnitCube(); ok(&w == &q, "result"); ok(q.GetDegrees() == dg && q.GetControlPoints().size() == cp.size(), "FitIntoUnitCube shape");
      for (int k = 0; k < K; k++) if (comp(hi, k) - comp(lo, k) > 1e-290) { LD a = 9, b = -9; for (size_t j = 0; j < cp.size(); j++) { LD v = comp(q.GetControlPoints()[j], k), e = (comp(cp[j], k) - comp(lo, k)) / (comp(hi, k) - comp(lo, k)); ok(std::fabs(v - e) < 1e-9L, "FitIntoUnitCube"); a = std::min(a, v); b = std::max(b, v); } ok(a == 0 && std::fabs(b - 1) < 1e-12L, "FitIntoUnitCube range"); } }
  }
}
void prop(Rng& r, int n) { n *= 60; c11<1, double>(r, n, 6); c11<1, Point<2, double>>(r, n, 6); c11<2, Point<3, double>>(r, n, 3); c11<2, double>(r, n, 3); c11<3, double>(r, n / 2, 2); c11<3, Point<3, double>>(r, n / 2, 2); c11<4, double>(r, n / 8, 2); c11<1, Point<5, double>>(r, n / 6, 5); c11<2, Point<4, double>>(r, n / 8, 3); }
#endif
