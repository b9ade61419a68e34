// C12..C18: composition and rational splines
template <size_t D> array<LD, D> inpos(Rng& r) { return rpos<D>(r, true); }
template <size_t D, class P> RationalBezierSpline<D, P, double> rrat1(Rng& r, const array<size_t, D>& d, bool unit = false) {   // weights in [1/2,2]
  vector<P> c(cnt<D>(d)); vector<double> w(c.size()); for (auto& p : c) p = unit ? rpt01<P>(r) : rpt<P>(r); for (auto& x : w) x = r.i(8, 32) / 16.; return {d, c, w};
}
template <size_t D, class P> void sameR(const RationalBezierSpline<D, P, double>& a, const RationalBezierSpline<D, P, double>& b, const string& w) { sameAs(a.GetNumeratorSpline(), b.GetNumeratorSpline(), w); sameAs(a.GetWeightFunctionSpline(), b.GetWeightFunctionSpline(), w); }
template <size_t D, class P> void consR(const RationalBezierSpline<D, P, double>& a, const string& w) { auto dg = a.GetNumeratorSpline().GetDegrees(); consistent<D, P>(a.GetNumeratorSpline(), dg, w + " numerator"); consistent<D, double>(a.GetWeightFunctionSpline(), dg, w + " weight function"); }
template <size_t D> array<LD, D> arr(const Val& v) { array<LD, D> a{}; for (size_t i = 0; i < D; i++) a[i] = v.v[i]; return a; }
template <size_t D, class IP> void spoil(Rng& r, vector<IP>& cp, const vector<double>* w) {   // one component just outside the unit cube
  size_t j = r.i(0, (int)cp.size() - 1); int k = r.i(0, NC<IP>() - 1); double v = r.i(0, 1) ? (r.i(0, 1) ? 1.5 : r.i(0, 1) && !w ? std::nextafter(1., 2.) : 1 + 1e-6) : (r.i(0, 1) ? -.5 : r.i(0, 1) && !w ? -std::numeric_limits<double>::denorm_min() : -1e-6); if (w) v *= (*w)[j];
  if constexpr (std::is_arithmetic_v<IP>) cp[j] = v; else cp[j][k] = v;
}
// derivative of a quotient of two splines
template <size_t D, class P> Val refRd(const RationalBezierSpline<D, P, double>& s, const array<LD, D>& x, const array<size_t, D>& o) {
  size_t N = 1; for (auto k : o) N *= k + 1; vector<Val> R(N); auto mi = [&](size_t f) { array<size_t, D> m{}; for (size_t d = 0; d < D; d++) { m[d] = f % (o[d] + 1); f /= o[d] + 1; } return m; };
  LD w0 = refS<D, double>(s.GetWeightFunctionSpline(), x).v[0];
  for (size_t f = 0; f < N; f++) {
    auto a = mi(f); R[f] = refS<D, P>(s.GetNumeratorSpline(), x, a);
    for (size_t g = 0; g < f; g++) { auto b = mi(g); bool sub = true; LD c = 1; array<size_t, D> e{}; for (size_t d = 0; d < D; d++) { if (b[d] > a[d]) sub = false; else { e[d] = a[d] - b[d]; c *= binom(a[d], b[d]); } } if (!sub) continue; auto wv = refS<D, double>(s.GetWeightFunctionSpline(), x, e); for (size_t k = 0; k < R[f].v.size(); k++) { R[f].v[k] -= c * wv.v[0] * R[g].v[k]; R[f].scale = std::max(R[f].scale, std::fabs(c) * (wv.scale + 1) * (R[g].scale + std::fabs(R[g].v[k]))); } }
    for (auto& v : R[f].v) v /= w0; R[f].scale /= std::fabs(w0);
  }
  return R[N - 1];
}
#if PROP == 12 || PROP == 13 || PROP == 18
template <size_t D, size_t ID, class P, class IP, bool OR, bool IR> void comp1(Rng& r, int n, int mo, int mi) {
  using Out = std::conditional_t<OR, RationalBezierSpline<D, P, double>, BezierSpline<D, P, double>>;
  using In = std::conditional_t<IR, RationalBezierSpline<ID, IP, double>, BezierSpline<ID, IP, double>>;
  for (int it = 0; it < n; it++) {
    auto od = skew<D>(r, mo); auto id = skew<ID>(r, mi); size_t sum = 0; for (auto k : od) sum += k;
    for (auto& k : id) while (k * sum > 14) k--;
    Out o = [&] { if constexpr (OR) return rrat1<D, P>(r, od); else return rspl<D, P>(r, od); }(); In in = [&] { if constexpr (IR) return rrat1<ID, IP>(r, id, true); else return rspl01<ID, IP>(r, id); }();
    string ds = string("outer ") + [&] { if constexpr (OR) return descr(o); else return desc(o); }() + " inner " + [&] { if constexpr (IR) return descr(in); else return desc(in); }();
    note(ds); const Out o0 = o; const In i0 = in;
    auto unchanged = [&] { if constexpr (OR) sameR(o, o0, "changed the outer spline"); else sameAs(o, o0, "changed the outer spline"); if constexpr (IR) sameR(in, i0, "changed the inner spline"); else sameAs(in, i0, "changed the inner spline"); };
    auto inv = [&](const array<LD, ID>& x) { if constexpr (IR) return refR<ID, IP>(i0, x); else return refS<ID, IP>(i0, x); };
    auto outv = [&](const array<LD, D>& y) { if constexpr (OR) return refR<D, P>(o0, y); else return refS<D, P>(o0, y); };
    auto valof = [&](const auto& s, const array<LD, ID>& x) { if constexpr (OR || IR) { consR(s, "composition"); return refR<ID>(s, x); } else { consistent<ID>(s, s.GetDegrees(), "composition"); return refS<ID>(s, x); } };
    In bad = in; if constexpr (IR) spoil<ID, IP>(r, bad.GetWeightedControlPoints(), &bad.GetWeights()); else spoil<ID, IP>(r, bad.GetControlPoints(), nullptr);
    if (it % 3 == 0) {   // an inner spline with many control points, one of them outside
      array<size_t, ID> ld; for (auto& k : ld) k = ID == 1 ? 40 + r.i(0, 60) : ID == 2 ? 6 + r.i(0, 5) : 3 + r.i(0, 1); array<size_t, D> ud; ud.fill(1);
      Out u = [&] { if constexpr (OR) return rrat1<D, P>(r, ud); else return rspl<D, P>(r, ud); }(); In big = [&] { if constexpr (IR) return rrat1<ID, IP>(r, ld, true); else return rspl01<ID, IP>(r, ld); }();
      if constexpr (IR) spoil<ID, IP>(r, big.GetWeightedControlPoints(), &big.GetWeights()); else spoil<ID, IP>(r, big.GetControlPoints(), nullptr);
      note(string("outer ") + [&] { if constexpr (OR) return descr(u); else return desc(u); }() + " large bad inner " + [&] { if constexpr (IR) return descr(big); else return desc(big); }());
#if PROP != 13
      ok(throws([&] { u.Compose(big); }), "large inner spline outside the unit cube accepted");
#else
      ok(throws([&] { u.ComposeSensitivity(big); }), "large inner spline outside the unit cube accepted");
#endif
    }
#if PROP != 13
    auto c = o.Compose(in); unchanged();
    if constexpr (!IR && !OR) for (size_t d = 0; d < ID; d++) ok(c.GetDegrees()[d] == id[d] * sum, "degree of the composition");
    for (int k = 0; k < 3; k++) { auto x = inpos<ID>(r); note(ds + " at " + str(x)); auto want = outv(arr<D>(inv(x))); want.scale += 4; cmpv(valof(c, x), want, "composition", 1e-8L); }
    if constexpr (!OR) { vector<In> grp{in, in}; if (r.i(0, 3)) grp.pop_back(); note(ds + " as a group"); auto g = o.Compose(grp); ok(g.size() == grp.size(), "group size"); auto x = inpos<ID>(r); auto want = outv(arr<D>(inv(x))); want.scale += 4; for (auto& m : g) cmpv(valof(m, x), want, "group composition", 1e-8L); ok(o.Compose(vector<In>{}).empty(), "empty group"); note(ds + " with a bad group member"); ok(throws([&] { o.Compose(vector<In>{in, bad}); }), "inner spline outside the unit cube accepted in a group"); }
    note(string("outer ") + ds + " bad inner " + [&] { if constexpr (IR) return descr(bad); else return desc(bad); }()); ok(throws([&] { o.Compose(bad); }), "inner spline outside the unit cube accepted"); unchanged();
#else
    auto c = o.ComposeSensitivity(in); unchanged(); size_t N = cnt<D>(od); ok(c.size() == N, "one sensitivity per control point");
    for (int k = 0; k < 2; k++) {
      auto x = inpos<ID>(r); note(ds + " at " + str(x)); auto y = arr<D>(inv(x)); Val acc; acc.v.assign(NC<P>(), 0); LD W = 0;
      vector<LD> N_(N); for (size_t f = 0; f < N; f++) { size_t q = f; LD w = 1; for (size_t d = 0; d < D; d++) { w *= bernd(od[d], q % (od[d] + 1), 0, y[d]); q /= od[d] + 1; } if constexpr (OR) { w *= o0.GetWeights()[f]; W += w; } N_[f] = w; }
      for (size_t f = 0; f < N; f++) { LD want = OR ? N_[f] / W : N_[f]; Val v; v.v = {want}; v.scale = 1; auto got = valof(c[f], x); cmpv(got, v, "sensitivity " + to_string(f), 1e-8L); for (int j = 0; j < NC<P>(); j++) { LD p; if constexpr (OR) p = comp(o0.GetWeightedControlPoints()[f], j) / (LD)o0.GetWeights()[f]; else p = comp(o0.GetControlPoints()[f], j); acc.v[j] += p * got.v[0]; } }
      auto want = outv(y); want.scale += 4; cmpv(acc, want, "weighted sum of the sensitivities", 1e-8L);
    }
    note(ds + " bad inner " + [&] { if constexpr (IR) return descr(bad); else return desc(bad); }()); ok(throws([&] { o.ComposeSensitivity(bad); }), "inner spline outside the unit cube accepted"); unchanged();
#endif
  }
}
template <bool OR> void all(Rng& r, int n) {
  comp1<1, 1, double, double, OR, false>(r, n, 4, 3); comp1<1, 1, Point<2, double>, double, OR, true>(r, n, 4, 3); comp1<1, 2, Point<3, double>, double, OR, false>(r, n, 3, 2);
  comp1<2, 1, Point<2, double>, Point<2, double>, OR, false>(r, n, 3, 3); comp1<2, 1, double, Point<2, double>, OR, true>(r, n, 3, 3); comp1<2, 2, Point<2, double>, Point<2, double>, OR, false>(r, n / 2 + 1, 2, 2); comp1<2, 2, Point<2, double>, Point<2, double>, OR, true>(r, n / 2 + 1, 2, 2);
  comp1<3, 1, Point<3, double>, Point<3, double>, OR, false>(r, n / 2 + 1, 2, 2); comp1<3, 1, double, Point<3, double>, OR, true>(r, n / 2 + 1, 2, 2); comp1<3, 3, Point<3, double>, Point<3, double>, OR, false>(r, n / 8 + 1, 1, 1); comp1<1, 1, double, Point<1, double>, OR, false>(r, n / 2 + 1, 3, 3); comp1<4, 1, double, Point<4, double>, OR, false>(r, n / 8 + 1, 1, 2); comp1<1, 4, Point<4, double>, double, OR, false>(r, n / 8 + 1, 2, 1); comp1<4, 2, Point<5, double>, Point<4, double>, OR, true>(r, n / 12 + 1, 1, 1);
  comp1<1, 1, double, double, OR, false>(r, n / 2 + 1, 11, 1); comp1<1, 1, double, double, OR, true>(r, n / 4 + 1, 9, 1); comp1<2, 1, double, Point<2, double>, OR, false>(r, n / 4 + 1, 6, 1);
}
void prop(Rng& r, int n) { n *= 12;
#if PROP == 12
  all<false>(r, n);
#elif PROP == 18
  all<true>(r, n);
#else
  all<false>(r, n / 2); all<true>(r, n / 2);
#endif
}
#endif
#if PROP == 14
template <size_t D, class P> void c14(Rng& r, int n, int mx) {
  for (int it = 0; it < n; it++) {
    auto dg = skew<D>(r, mx); auto s = r.i(0, 3) ? rrat<D, P>(r, dg) : rrat1<D, P>(r, dg); const auto c = s;
    { vector<P> cc(cnt<D>(dg)); vector<double> ww(cc.size()); for (auto& q : cc) q = rpt<P>(r); for (auto& w : ww) { w = r.pos(); if (r.i(0, 2) == 0) w = -w; } RationalBezierSpline<D, P, double> q(dg, cc, ww); note("constructed from degrees " + str(dg) + " control points " + str(cc) + " weights " + str(ww)); consR(q, "constructed"); ok(q.GetDegrees() == dg && q.GetWeights() == ww, "constructed: weights"); for (size_t f = 0; f < cc.size(); f++) for (int j = 0; j < NC<P>(); j++) { near_(comp(q.GetWeightedControlPoints()[f], j), comp(cc[f], j) * (LD)ww[f], 0, "constructed: weighted control point", 1e-13L); near_(comp(q.ControlPoint(q.LocalToGlobalIndex(f)), j), comp(cc[f], j), 0, "constructed: projected control point", 1e-13L); } }
    for (int k = 0; k < 4; k++) {
      auto x = inpos<D>(r); note(descr(s) + " at " + str(x)); auto p = topt<D>(x); auto want = refR<D, P>(s, x); LD W = refS<D, double>(s.GetWeightFunctionSpline(), x).v[0];
      cmp(s.Evaluate(p), want, "Evaluate"); cmp(s.ForwardEvaluate(p), want, "ForwardEvaluate");
      auto b = s.BasisFunctions(p), u = s.UnweightedBasisFunctions(p); ok(b.size() == cnt<D>(dg) && u.size() == b.size(), "number of basis functions");
      LD sum = 0; Val vb, vu; vb.v.assign(NC<P>(), 0); vu = vb;
      for (size_t f = 0; f < b.size(); f++) {
        size_t q = f; LD w = 1; for (size_t d = 0; d < D; d++) { w *= bernd(dg[d], q % (dg[d] + 1), 0, x[d]); q /= dg[d] + 1; }
        near_(b[f], w * s.GetWeights()[f] / W, 0, "basis function " + to_string(f)); near_(u[f], w / W, 0, "unweighted basis function " + to_string(f)); sum += b[f];
        for (int j = 0; j < NC<P>(); j++) { vb.v[j] += b[f] * comp(s.GetWeightedControlPoints()[f], j) / s.GetWeights()[f]; vu.v[j] += u[f] * comp(s.GetWeightedControlPoints()[f], j); }
      }
      near_(sum, 1, 0, "sum of the basis functions"); cmpv(vb, want, "basis functions with projected control points"); cmpv(vu, want, "unweighted basis functions with weighted control points");
      auto bc = s.BasisFunctionContributions(p); for (size_t d = 0; d < D; d++) { ok(bc[d].size() == dg[d] + 1, "contributions"); for (size_t i = 0; i < bc[d].size(); i++) near_(bc[d][i], bernd(dg[d], i, 0, x[d]), 0, "contribution"); }
      if constexpr (D == 1) { cmp(s.Evaluate(p[0]), want, "Evaluate(x)"); cmp(s.ForwardEvaluate(p[0]), want, "ForwardEvaluate(x)"); ok(s.BasisFunctions(p[0]) == b && s.UnweightedBasisFunctions(p[0]) == u, "BasisFunctions(x)"); }
      if constexpr (D == 2) { cmp(s.Evaluate(p[0], p[1]), want, "Evaluate(x,y)"); cmp(s.ForwardEvaluate(p[0], p[1]), want, "ForwardEvaluate(x,y)"); ok(s.BasisFunctions(p[0], p[1]) == b && s.UnweightedBasisFunctions(p[0], p[1]) == u, "BasisFunctions(x,y)"); }
      sameR(s, c, "evaluation changed the spline");
    }
  }
}
void prop(Rng& r, int n) { n *= 50; c14<1, double>(r, n, 7); c14<1, Point<2, double>>(r, n, 9); c14<2, Point<3, double>>(r, n, 4); c14<2, double>(r, n, 4); c14<3, double>(r, n / 2, 2); c14<3, Point<3, double>>(r, n / 2, 2); c14<4, double>(r, n / 8 + 1, 2); c14<1, Point<5, double>>(r, n / 8 + 1, 3); c14<2, Point<4, double>>(r, n / 8 + 1, 2); }
#endif
#if PROP == 15
template <size_t D, class P> void c15(Rng& r, int n, int mx) {
  for (int it = 0; it < n; it++) {
    auto dg = skew<D>(r, mx); auto s = rrat1<D, P>(r, dg); const auto c = s; array<size_t, D> o{}; for (auto& k : o) k = r.i(0, D == 1 ? 5 : D == 2 ? 3 : 2);
    array<size_t, D> os = o; auto total = [&] { size_t t = 0; for (auto k : os) t += k; return t; }; auto big = [&] { size_t m = 0; for (auto k : dg) m = std::max(m, k); return m; };
    while (total() > 3 || (big() << total()) >= 17) { size_t j = r.i(0, D - 1); if (os[j]) os[j]--; }
    note(descr(s) + " derivative spline of orders " + str(os)); auto ds = s.DerivativeWRTParametricDimension(os); consR(ds, "derivative spline"); sameR(s, c, "derivative changed the spline");
    for (int k = 0; k < 2; k++) {
      auto x = inpos<D>(r); auto p = topt<D>(x); note(descr(s) + " orders " + str(o) + " at " + str(x)); auto want = refRd<D, P>(s, x, o); want.scale += 4;
      cmp(s.EvaluateDerivative(p, o), want, "EvaluateDerivative", 1e-8L);
      auto b = s.BasisFunctionsDerivatives(p, o); ok(b.size() == cnt<D>(dg), "number of derivative basis functions"); Val v; v.v.assign(NC<P>(), 0);
      for (size_t f = 0; f < b.size(); f++) for (int j = 0; j < NC<P>(); j++) v.v[j] += b[f] * comp(s.GetWeightedControlPoints()[f], j) / (LD)s.GetWeights()[f];
      cmpv(v, want, "derivative basis functions with projected control points", 1e-8L);
      note(descr(s) + " derivative spline of orders " + str(os) + " at " + str(x)); auto w2 = refRd<D, P>(s, x, os); LD sc = 4; for (size_t d = 0; d < D; d++) for (size_t q = 0; q < os[d]; q++) sc *= 4 * (LD)dg[d] + 1; w2.scale += sc; cmp(ds.Evaluate(p), w2, "derivative spline", 1e-7L);
      sameR(s, c, "changed the spline");
    }
  }
}
// 1 / ((1 + x^12)(1 + y^12)(1 + z^12)) differentiated 24 times in every direction at the origin is (24!)^3
void highmixed() {
  const int n = 12; array<size_t, 3> dg{n, n, n}, od{24, 24, 24}; vector<double> p(13 * 13 * 13), w(13 * 13 * 13);
  for (int i = 0; i < 13 * 13 * 13; i++) { w[i] = (i % 13 == 12 ? 2. : 1.) * (i / 13 % 13 == 12 ? 2. : 1.) * (i / 169 == 12 ? 2. : 1.); p[i] = 1 / w[i]; }
  note("1/((1+x^12)(1+y^12)(1+z^12)) of degrees [12,12,12], orders [24,24,24] at the origin"); alarm(0);
  const RationalBezierSpline<3, double, double> s(dg, p, w); LD f = 1; for (int i = 1; i <= 24; i++) f *= (LD)i * i * i;
  near_(s.EvaluateDerivative(Point<3, double>{0., 0., 0.}, od), f, 0, "EvaluateDerivative", 1e-3L);
}
void prop(Rng& r, int n) { if (n >= 5) highmixed(); n *= 60; c15<1, double>(r, n, 4); c15<1, Point<2, double>>(r, n, 5); c15<2, Point<3, double>>(r, n / 2, 3); c15<2, double>(r, n / 2, 3); c15<3, double>(r, n / 6, 2); c15<3, Point<3, double>>(r, n / 6, 2); c15<4, double>(r, n / 40 + 1, 1); c15<1, Point<5, double>>(r, n / 40 + 1, 3); c15<2, Point<4, double>>(r, n / 40 + 1, 2); }
#endif
#if PROP == 16
template <size_t D, class P> void c16(Rng& r, int n, int mx) {
  using S = RationalBezierSpline<D, P, double>; using B = BezierSpline<D, P, double>;
  for (int it = 0; it < n; it++) {
    auto da = skew<D>(r, mx), db = r.i(0, 2) == 0 ? da : skew<D>(r, mx); const S a0 = rrat1<D, P>(r, da); S bt = rrat1<D, P>(r, db); if (da == db && r.i(0, 1)) { bt = S(bt.GetNumeratorSpline(), a0.GetWeightFunctionSpline()); if (r.i(0, 3) == 0) { auto& w = bt.GetWeights(); w[r.i(0, (int)w.size() - 1)] += .25; } }
    if (D > 1 && r.i(0, 3) == 0) { auto dr = da; std::reverse(dr.begin(), dr.end()); vector<P> cc(cnt<D>(dr)); for (auto& q : cc) q = rpt<P>(r); bt = S(dr, cc, a0.GetWeights()); }   // same weight list, other degrees
    const S b0 = bt; S a = a0, b = b0; const P p0 = rpt<P>(r); P p = p0; const double f0 = r.v(); double f = f0; const B c0 = rspl<D, P>(r, r.i(0, 2) ? db : da);
    note("a " + descr(a) + " b " + descr(b) + " polynomial " + desc(c0) + " shift " + str(p) + " factor " + str(f));
    auto same = [&](const string& w) { sameR(a, a0, w + " changed a"); sameR(b, b0, w + " changed b"); ok(eqp(p, p0) && f == f0, w + " changed an argument"); };
    auto chk = [&](const S& q, auto fn, const string& w) {
      consR(q, w); for (int k = 0; k < 2; k++) { auto x = inpos<D>(r); auto u = refR<D, P>(a0, x), v = refR<D, P>(b0, x); auto t = refS<D, P>(c0, x); Val z; z.scale = u.scale * (1 + std::fabs((LD)f)) + v.scale + t.scale + 5; for (int j = 0; j < NC<P>(); j++) z.v.push_back(fn(u.v[j], v.v[j], t.v[j], j)); cmpv(refR<D, P>(q, x), z, w + " at " + str(x)); }
    };
    auto plus = [](LD u, LD v, LD, int) { return u + v; }; auto minus = [](LD u, LD v, LD, int) { return u - v; };
    chk(a + b, plus, "a+b"); same("a+b"); chk(a - b, minus, "a-b"); same("a-b"); chk(b - a, [](LD u, LD v, LD, int) { return v - u; }, "b-a"); chk(-a, [](LD u, LD, LD, int) { return -u; }, "-a"); same("-a");
    chk(a + a, [](LD u, LD, LD, int) { return 2 * u; }, "a+a"); chk(a - a, [](LD, LD, LD, int) { return (LD)0; }, "a-a"); same("a-a");
    chk(a * f, [&](LD u, LD, LD, int) { return u * f0; }, "a*f"); chk(f * a, [&](LD u, LD, LD, int) { return u * f0; }, "f*a"); same("f*a");
    chk(a + p, [&](LD u, LD, LD, int k) { return u + comp(p0, k); }, "a+p"); chk(p + a, [&](LD u, LD, LD, int k) { return u + comp(p0, k); }, "p+a"); chk(a - p, [&](LD u, LD, LD, int k) { return u - comp(p0, k); }, "a-p"); same("a-p");
    { S q = a; S& w = (q += b); ok(&w == &q, "+="); chk(q, plus, "a+=b"); same("a+=b"); } { S q = a; S& w = (q -= b); ok(&w == &q, "-="); chk(q, minus, "a-=b"); same("a-=b"); }
    { S q = a; q += q; chk(q, [](LD u, LD, LD, int) { return 2 * u; }, "a+=a"); } { S q = a; q -= q; chk(q, [](LD, LD, LD, int) { return (LD)0; }, "a-=a"); }
    { S q = a; q += c0; chk(q, [](LD u, LD, LD t, int) { return u + t; }, "a+=polynomial"); } { S q = a; q -= c0; chk(q, [](LD u, LD, LD t, int) { return u - t; }, "a-=polynomial"); }
    { S q(c0); chk(q, [](LD, LD, LD t, int) { return t; }, "from polynomial"); chk(q + a, [](LD u, LD, LD t, int) { return u + t; }, "polynomial+a"); }
    { S q = a; S& w = (q *= f); ok(&w == &q, "*="); chk(q, [&](LD u, LD, LD, int) { return u * f0; }, "a*=f"); }
    { S q = a; S& w = (q += p); ok(&w == &q, "+="); chk(q, [&](LD u, LD, LD, int k) { return u + comp(p0, k); }, "a+=p"); } { S q = a; S& w = (q -= p); ok(&w == &q, "-="); chk(q, [&](LD u, LD, LD, int k) { return u - comp(p0, k); }, "a-=p"); }
    { size_t j = r.i(0, (int)a0.GetWeights().size() - 1); const P c = a0.GetWeightedControlPoints()[j]; const double wj = a0.GetWeights()[j];
      { S q = a; q += q.GetWeightedControlPoints()[j]; chk(q, [&](LD u, LD, LD, int k) { return u + comp(c, k); }, "a+=own control point"); } { S q = a; q -= q.GetWeightedControlPoints()[j]; chk(q, [&](LD u, LD, LD, int k) { return u - comp(c, k); }, "a-=own control point"); } { S q = a; q *= q.GetWeights()[j]; chk(q, [&](LD u, LD, LD, int) { return u * wj; }, "a*=own weight"); } }
    { const RationalBezierSpline<D, double, double> g0 = rrat1<D, double>(r, db); auto g = g0; auto q = g * a; sameR(g, g0, "product"); same("product"); consR(q, "g*a"); auto q2 = a * g; consR(q2, "a*g");
      for (int k = 0; k < 2; k++) { auto x = inpos<D>(r); auto u = refR<D, P>(a0, x); auto v = refR<D, double>(g0, x); Val z = u; for (auto& t : z.v) t *= v.v[0]; z.scale = u.scale * (v.scale + 1) + 4; cmpv(refR<D>(q, x), z, "g*a"); cmpv(refR<D>(q2, x), z, "a*g"); } }
    { auto q = a * a; same("a*a"); consR(q, "a*a"); auto x = inpos<D>(r); auto u = refR<D, P>(a0, x); LD t = 0; for (int k = 0; k < NC<P>(); k++) t += u.v[k] * u.v[k]; Val z; z.v = {t}; z.scale = u.scale * u.scale * 4 + 4; cmpv(refR<D>(q, x), z, "a*a"); }
    if constexpr (!std::is_arithmetic_v<P>) { auto q = a * b; same("a.b"); consR(q, "a.b"); auto x = inpos<D>(r); auto u = refR<D, P>(a0, x), v = refR<D, P>(b0, x); LD t = 0; for (int k = 0; k < NC<P>(); k++) t += u.v[k] * v.v[k]; Val z; z.v = {t}; z.scale = u.scale * v.scale * 4 + 4; cmpv(refR<D>(q, x), z, "a.b"); }
  }
}
void prop(Rng& r, int n) { n *= 30; c16<1, double>(r, n, 5); c16<1, Point<2, double>>(r, n, 5); c16<2, Point<3, double>>(r, n / 2, 3); c16<2, double>(r, n / 2, 3); c16<3, double>(r, n / 8, 1); c16<3, Point<3, double>>(r, n / 8, 2); c16<4, double>(r, n / 20 + 1, 1); c16<1, Point<5, double>>(r, n / 20 + 1, 3); c16<2, Point<4, double>>(r, n / 20 + 1, 2); }
#endif
#if PROP == 17
template <size_t D, class P> void c17(Rng& r, int n, int mx) {
  for (int it = 0; it < n; it++) {
    auto dg = skew<D>(r, mx); auto s = rrat<D, P>(r, dg); const auto c = s; size_t pd = r.i(0, D - 1);
    { auto q = s; int times = r.i(1, 2); auto e = dg; note(descr(s) + " elevate " + to_string(pd) + " times " + to_string(times)); for (int t = 0; t < times; t++) { auto& w = q.OrderElevateAlongParametricDimension(pd); ok(&w == &q, "result"); e[pd]++; } consR(q, "elevated"); ok(q.GetDegrees() == e, "degrees"); for (int k = 0; k < 3; k++) { auto x = inpos<D>(r); cmpv(refR<D, P>(q, x), refR<D, P>(c, x), "value after elevation at " + str(x)); } }
    double t = r.i(0, 3) ? r.i(1, 63) / 64. : .3; note(descr(s) + " split " + str(t) + " dim " + to_string(pd)); auto g = s.SplitAtPosition(t, pd); ok(g.size() == 2, "two parts"); sameR(s, c, "split changed the original");
    auto part = [&](const auto& q, LD a, LD b, const string& w) { consR(q, w); ok(q.GetDegrees() == dg, w + " degrees"); for (int k = 0; k < 3; k++) { auto x = inpos<D>(r); auto y = x; y[pd] = a + (b - a) * x[pd]; cmpv(refR<D, P>(q, x), refR<D, P>(c, y), w + " at " + str(x)); } };
    part(g[0], 0, t, "first part"); part(g[1], t, 1, "second part");
    int k = r.i(0, 4); vector<double> l; for (int i = 0; i < k; i++) l.push_back(r.i(1, 63) / 64.); std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end());
    note(descr(s) + " split " + str(l) + " dim " + to_string(pd)); auto v = s.SplitAtPosition(l, pd); sameR(s, c, "split changed the original"); ok(v.size() == l.size() + 1, "number of parts");
    for (size_t i = 0; i < v.size(); i++) part(v[i], i ? l[i - 1] : 0, i < l.size() ? l[i] : 1, "part " + to_string(i)); if (l.empty()) sameR(v[0], c, "empty list");
    for (double bad : {0., 1., -.5, 1.5, std::nan("")}) { note(descr(s) + " split " + str(bad)); ok(throws([&] { s.SplitAtPosition(bad, pd); }), "position outside (0,1) accepted"); ok(throws([&] { s.SplitAtPosition(vector<double>{bad}, pd); }), "list outside (0,1) accepted"); }
    for (auto bad : {vector<double>{.5, .25}, vector<double>{.25, .75, .5}, vector<double>{.5, 1.5}, vector<double>{.25, .5, 1.}, vector<double>{0., .5}, vector<double>{.5, .5}}) { note(descr(s) + " split " + str(bad)); ok(throws([&] { s.SplitAtPosition(bad, pd); }), "bad list accepted"); }
  }
}
void prop(Rng& r, int n) { n *= 40; c17<1, double>(r, n, 6); c17<1, Point<2, double>>(r, n, 6); c17<2, Point<3, double>>(r, n, 3); c17<2, double>(r, n, 3); c17<3, double>(r, n / 2, 2); c17<3, Point<3, double>>(r, n / 2, 2); c17<4, double>(r, n / 8 + 1, 2); c17<1, Point<5, double>>(r, n / 8 + 1, 3); c17<2, Point<4, double>>(r, n / 8 + 1, 2); }
#endif
