// C19..C25
#if PROP >= 19 && PROP <= 21
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
using utils::computational_differentiation::AlgoDiffType;
template <size_t N> struct Mk { using T = AlgoDiffType<double, N>; static T make(double v, const vector<double>& g) { T t(0., (size_t)0); t = T(v); for (size_t i = 0; i < N; i++) t += T(0., i) * g[i]; return t; } };
template <> struct Mk<0> { using T = AlgoDiffType<double, 0>; static T make(double v, const vector<double>& g) { T t(v, g.size()); for (size_t i = 0; i < g.size(); i++) t += T(0., g.size(), i) * g[i]; return t; } };
template <class T> void chk(const T& q, LD v, const vector<LD>& g, const string& w, LD sc = 0, LD rel = 1e-11L) {
  near_(q.GetValue(), v, sc, w + " value", rel); auto d = q.GetDerivatives(); ok(d.size() == g.size() && q.GetNumberOfDerivatives() == g.size(), w + " number of derivatives"); for (size_t i = 0; i < g.size(); i++) near_(d[i], g[i], sc, w + " derivative " + to_string(i), rel);
}
#endif
#if PROP == 19
template <class T, size_t N> void setters(Rng& r, const T& a0, size_t K) {
  if (K) { T q = a0; size_t j = r.i(0, (int)K - 1); q.SetActiveComponent(j); vector<LD> u(K, 0); u[j] = 1; chk(q, a0.GetValue(), u, "SetActiveComponent(" + to_string(j) + ")"); chk(q * q, (LD)a0.GetValue() * a0.GetValue(), [&] { auto v = u; v[j] = 2 * (LD)a0.GetValue(); return v; }(), "square after SetActiveComponent"); }
  if constexpr (N > 0) { T q = a0; T& w = (q = 5.); ok(&w == &q, "assignment result"); chk(q, 5, vector<LD>(N, 0), "assigned a scalar"); q = a0; q = -2.5; chk(q + q, -5, vector<LD>(N, 0), "assigned a scalar"); T z(1.5); chk(z, 1.5, vector<LD>(N, 0), "constructed from a scalar"); for (size_t j = 0; j < N; j++) { vector<LD> u(N, 0); u[j] = 1; chk(T(.75, j), .75, u, "active component " + to_string(j)); } }
  else { T q(5., K); chk(q, 5, vector<LD>(K, 0), "constructed from a scalar"); for (size_t j = 0; j < K; j++) { vector<LD> u(K, 0); u[j] = 1; chk(T(.75, K, j), .75, u, "active component " + to_string(j)); } }
  T c(a0); chk(c, a0.GetValue(), [&] { vector<LD> v; for (auto x : a0.GetDerivatives()) v.push_back(x); return v; }(), "copy"); T d = c; d = a0; chk(d, a0.GetValue(), [&] { vector<LD> v; for (auto x : a0.GetDerivatives()) v.push_back(x); return v; }(), "copy assignment");
}
template <size_t N> void c19(Rng& r, int n) {
  for (int it = 0; it < n; it++) {
    size_t K = N ? N : r.i(0, 5); double av = r.v(), bv = r.v(), s = r.v(); if (bv == 0) bv = .5; if (s == 0) s = -1.25; if (r.i(0, 9) == 0) av = 0; vector<double> ga(K), gb(K); for (auto& x : ga) x = r.v(); for (auto& x : gb) x = r.v();
    note("a " + to_string(av) + " grad " + str(ga) + " b " + to_string(bv) + " grad " + str(gb) + " s " + to_string(s)); auto a0 = Mk<N>::make(av, ga), b0 = Mk<N>::make(bv, gb); auto a = a0, b = b0; using T = decltype(a);
    setters<T, N>(r, a0, K); vector<LD> A(ga.begin(), ga.end()), B(gb.begin(), gb.end()); chk(a, av, A, "construction"); chk(b, bv, B, "construction");
    auto g = [&](auto f) { vector<LD> v; for (size_t i = 0; i < K; i++) v.push_back(f(A[i], B[i])); return v; }; auto same = [&](const string& w) { chk(a, av, A, w + ": operand a"); chk(b, bv, B, w + ": operand b"); };
    auto add = g([](LD x, LD y) { return x + y; }), sub = g([](LD x, LD y) { return x - y; }), mul = g([&](LD x, LD y) { return x * bv + y * av; }), dv = g([&](LD x, LD y) { return (x * bv - y * av) / ((LD)bv * bv); }), ng = g([](LD x, LD) { return -x; });
    auto sm = g([&](LD x, LD) { return x * s; }), sd = g([&](LD x, LD) { return x / s; }), rd = g([&](LD, LD y) { return -s * y / ((LD)bv * bv); });
    chk(a + b, (LD)av + bv, add, "a+b"); same("a+b"); chk(a - b, (LD)av - bv, sub, "a-b"); same("a-b"); chk(a * b, (LD)av * bv, mul, "a*b", 8); same("a*b"); chk(a / b, (LD)av / bv, dv, "a/b", 1); same("a/b"); chk(-a, -av, ng, "-a"); same("-a");
    chk(a + s, (LD)av + s, A, "a+s"); chk(s + a, (LD)av + s, A, "s+a"); chk(a - s, (LD)av - s, A, "a-s"); chk(s - a, (LD)s - av, ng, "s-a"); chk(a * s, (LD)av * s, sm, "a*s"); chk(s * a, (LD)av * s, sm, "s*a"); chk(a / s, (LD)av / s, sd, "a/s"); chk(s / b, (LD)s / bv, rd, "s/b"); same("scalar operators");
    auto ip = [&](auto f, LD v, const vector<LD>& gr, const string& w) { T q = a; T* p = &f(q); ok(p == &q, w + " result"); chk(q, v, gr, w, 8); same(w); };
    ip([&](T& q) -> T& { return q += b; }, (LD)av + bv, add, "a+=b"); ip([&](T& q) -> T& { return q -= b; }, (LD)av - bv, sub, "a-=b"); ip([&](T& q) -> T& { return q *= b; }, (LD)av * bv, mul, "a*=b"); ip([&](T& q) -> T& { return q /= b; }, (LD)av / bv, dv, "a/=b");
    ip([&](T& q) -> T& { return q += s; }, (LD)av + s, A, "a+=s"); ip([&](T& q) -> T& { return q -= s; }, (LD)av - s, A, "a-=s"); ip([&](T& q) -> T& { return q *= s; }, (LD)av * s, sm, "a*=s"); ip([&](T& q) -> T& { return q /= s; }, (LD)av / s, sd, "a/=s");
    { T q = a; q += q; chk(q, 2 * (LD)av, g([](LD x, LD) { return 2 * x; }), "a+=a"); } { T q = a; q -= q; chk(q, 0, g([](LD, LD) { return (LD)0; }), "a-=a"); } { T q = a; q *= q; chk(q, (LD)av * av, g([&](LD x, LD) { return 2 * av * x; }), "a*=a", 8); } { T q = b; q /= q; chk(q, 1, g([](LD, LD) { return (LD)0; }), "b/=b", 1e3L); }
    chk(a * a, (LD)av * av, g([&](LD x, LD) { return 2 * av * x; }), "a*a", 8); chk(b / b, 1, g([](LD, LD) { return (LD)0; }), "b/b", 1e3L);
  }
}
#ifndef NARROW   // second try without nested types when the full driver does not compile
void nested(Rng& r, int n) {   // nested objects: second derivatives of a*b, a/b, s/b
  using T1 = AlgoDiffType<double, 2>; using T2 = AlgoDiffType<T1, 2>;
  for (int it = 0; it < n; it++) {
    double av = r.v(), bv = r.v(); if (bv == 0) bv = .75; note("nested a " + to_string(av) + " b " + to_string(bv)); T2 a(T1(av, (size_t)0), (size_t)0), b(T1(bv, (size_t)1), (size_t)1); LD A = av, B = bv;
    auto c2 = [&](const T2& q, LD v, LD da, LD db, LD aa, LD ab, LD bb, const string& w) { chk(q.GetValue(), v, {da, db}, w, 50); chk(q.GetDerivatives()[0], da, {aa, ab}, w + " d/da", 50); chk(q.GetDerivatives()[1], db, {ab, bb}, w + " d/db", 50); };
    c2(a + b, A + B, 1, 1, 0, 0, 0, "a+b"); c2(a - b, A - B, 1, -1, 0, 0, 0, "a-b"); c2(-a, -A, -1, 0, 0, 0, 0, "-a"); c2(a * b, A * B, B, A, 0, 1, 0, "a*b"); c2(a / b, A / B, 1 / B, -A / (B * B), 0, -1 / (B * B), 2 * A / (B * B * B), "a/b"); c2(a * a, A * A, 2 * A, 0, 2, 0, 0, "a*a");
    T1 s(3.); c2(s / b, 3 / B, 0, -3 / (B * B), 0, 0, 6 / (B * B * B), "s/b"); c2(s * b, 3 * B, 0, 3, 0, 0, 0, "s*b"); c2(s - b, 3 - B, 0, -1, 0, 0, 0, "s-b"); c2(s + b, 3 + B, 0, 1, 0, 0, 0, "s+b"); c2(b / s, B / 3, 0, 1 / 3.L, 0, 0, 0, "b/s");
    T2 q = a; q *= b; q += a; q /= b; q -= b; c2(q, A + A / B - B, 1 + 1 / B, -A / (B * B) - 1, 0, -1 / (B * B), 2 * A / (B * B * B), "((a*=b)+=a)/=b)-=b");
  }
}
#endif
void prop(Rng& r, int n) { n *= 400; c19<3>(r, n); c19<1>(r, n); c19<2>(r, n); c19<0>(r, n); c19<8>(r, n / 4);
#ifndef NARROW
  nested(r, n);
#endif
}
#endif
#if PROP == 20
struct Fn { string name; LD (*f)(LD); LD (*d)(LD); LD (*dd)(LD); double lo, hi; };
const LD L10 = std::log((LD)10);
const vector<Fn> FS = {
  {"abs", [](LD x) { return std::fabs(x); }, [](LD x) { return x > 0 ? 1.L : -1.L; }, [](LD) { return 0.L; }, -3, 3}, {"sqrt", [](LD x) { return std::sqrt(x); }, [](LD x) { return .5L / std::sqrt(x); }, [](LD x) { return -.25L / (x * std::sqrt(x)); }, .02, 9},
  {"exp", [](LD x) { return std::exp(x); }, [](LD x) { return std::exp(x); }, [](LD x) { return std::exp(x); }, -4, 4}, {"log", [](LD x) { return std::log(x); }, [](LD x) { return 1 / x; }, [](LD x) { return -1 / (x * x); }, .02, 9},
  {"log10", [](LD x) { return std::log10(x); }, [](LD x) { return 1 / (x * L10); }, [](LD x) { return -1 / (x * x * L10); }, .02, 9}, {"sin", [](LD x) { return std::sin(x); }, [](LD x) { return std::cos(x); }, [](LD x) { return -std::sin(x); }, -7, 7},
  {"cos", [](LD x) { return std::cos(x); }, [](LD x) { return -std::sin(x); }, [](LD x) { return -std::cos(x); }, -7, 7}, {"tan", [](LD x) { return std::tan(x); }, [](LD x) { return 1 / (std::cos(x) * std::cos(x)); }, [](LD x) { return 2 * std::tan(x) / (std::cos(x) * std::cos(x)); }, -1.4, 1.4},
  {"tan2", [](LD x) { return std::tan(x); }, [](LD x) { return 1 / (std::cos(x) * std::cos(x)); }, [](LD x) { return 2 * std::tan(x) / (std::cos(x) * std::cos(x)); }, 1.8, 4.4},
  {"asin", [](LD x) { return std::asin(x); }, [](LD x) { return 1 / std::sqrt(1 - x * x); }, [](LD x) { return x / ((1 - x * x) * std::sqrt(1 - x * x)); }, -.97, .97}, {"acos", [](LD x) { return std::acos(x); }, [](LD x) { return -1 / std::sqrt(1 - x * x); }, [](LD x) { return -x / ((1 - x * x) * std::sqrt(1 - x * x)); }, -.97, .97},
  {"atan", [](LD x) { return std::atan(x); }, [](LD x) { return 1 / (1 + x * x); }, [](LD x) { return -2 * x / ((1 + x * x) * (1 + x * x)); }, -6, 6}};
template <class T> T ap(const string& s, const T& x) { if (s == "abs") return abs(x); if (s == "sqrt") return sqrt(x); if (s == "exp") return exp(x); if (s == "log") return log(x); if (s == "log10") return log10(x); if (s == "sin") return sin(x); if (s == "cos") return cos(x); if (s == "asin") return asin(x); if (s == "acos") return acos(x); if (s == "atan") return atan(x); return tan(x); }
template <size_t N> void c20(Rng& r, int n) {
  for (int it = 0; it < n; it++) for (auto& F : FS) {
    size_t K = N ? N : r.i(0, 4); double x = F.lo + (F.hi - F.lo) * r.i(0, 1024) / 1024.; if (F.name == "abs" && x == 0) x = -1; if (r.i(0, 7) == 0 && F.lo < 0 && F.hi > 0) x = (r.i(0, 1) ? 1 : -1) * std::pow(10., -r.i(2, 12)); if (r.i(0, 7) == 0 && F.lo == .02) x = std::pow(10., r.i(-9, 9)); vector<double> g(K); for (auto& t : g) t = r.v(); note(F.name + " at " + str(x) + " grad " + str(g));
    auto a = Mk<N>::make(x, g); const auto a0 = a; auto q = ap(F.name, a); vector<LD> G; for (auto t : g) G.push_back(t * F.d(x)); chk(q, F.f(x), G, F.name, 1e-3L); vector<LD> g0(g.begin(), g.end()); chk(a, x, g0, F.name + " changed its argument");
    // powers
    double p = r.i(0, 3) == 0 ? r.i(-3, 5) : r.i(-24, 32) / 8.; double y = p == std::floor(p) ? r.v() : r.pos(); if (y == 0 && p < 1 && p != 0) y = .5; note("pow(" + str(y) + "," + str(p) + ") grad " + str(g)); auto b = Mk<N>::make(y, g); auto u = pow(b, p); LD dp = p == 0 ? 0 : p * std::pow((LD)y, (LD)p - 1); G.clear(); for (auto t : g) G.push_back(t * dp); chk(u, std::pow((LD)y, (LD)p), G, "pow(x,c)", 1e-3L);
    vector<double> h(K); for (auto& t : h) t = r.v(); double z = r.pos() + .25; note("pow(" + str(z) + "," + str(p) + ") grads " + str(g) + str(h)); auto bb = Mk<N>::make(z, g), pp = Mk<N>::make(p, h); auto w = pow(bb, pp); LD val = std::pow((LD)z, (LD)p); G.clear(); for (size_t i = 0; i < K; i++) G.push_back(val * (h[i] * std::log((LD)z) + p * g[i] / z)); chk(w, val, G, "pow(x,y)", 1e-2L, 1e-9L);
  }
}
#ifndef NARROW   // second try without nested types when the full driver does not compile
void nested(Rng& r, int n) {
  using T1 = AlgoDiffType<double, 2>; using T2 = AlgoDiffType<T1, 2>;
  for (int it = 0; it < n; it++) for (auto& F : FS) {
    double x = F.lo + (F.hi - F.lo) * r.i(1, 1023) / 1024.; if (x == 0) x = F.lo / 2; LD X = x, s = r.v(), t = r.v(); note("nested " + F.name + " at " + str(x)); T2 a(T1(x, (size_t)0), (size_t)0);
    auto q = ap(F.name, a); chk(q.GetValue(), F.f(X), {F.d(X), 0}, F.name, 1e-3L); chk(q.GetDerivatives()[0], F.d(X), {F.dd(X), 0}, F.name + " derivative", 1, 1e-9L); chk(q.GetDerivatives()[1], 0, {0, 0}, F.name + " derivative", 1e-3L); (void)s; (void)t;
    double p = r.i(2, 24) / 8., y = r.pos(); note("nested pow(" + str(y) + "," + str(p) + ")"); T2 b(T1(y, (size_t)0), (size_t)0); auto u = pow(b, T1(p)); LD Y = y; chk(u.GetValue(), std::pow(Y, (LD)p), {p * std::pow(Y, (LD)p - 1), 0}, "pow", 1); chk(u.GetDerivatives()[0], p * std::pow(Y, (LD)p - 1), {p * (p - 1) * std::pow(Y, (LD)p - 2), 0}, "pow derivative", 1, 1e-9L);
  }
}
#endif
void prop(Rng& r, int n) { n *= 40; c20<3>(r, n); c20<1>(r, n); c20<0>(r, n);
#ifndef NARROW
  nested(r, n);
#endif
}
#endif
#if PROP == 21
template <size_t N> void c21(Rng& r, int n) {
  for (int it = 0; it < n; it++) {
    size_t K = N ? N : r.i(0, 4); double av = r.i(-3, 3) / 2., bv = r.i(0, 2) ? r.i(-3, 3) / 2. : av; if (r.i(0, 9) == 0) bv = std::nextafter(av, 9); vector<double> g(K), h(K); for (auto& x : g) x = r.v(); for (auto& x : h) x = r.v(); if (r.i(0, 1)) h = g; note("a " + str(av) + " grad " + str(g) + " b " + str(bv) + " grad " + str(h));
    const auto a = Mk<N>::make(av, g), b = Mk<N>::make(bv, h);
#define CMP(op) ok((a op b) == (av op bv), "a " #op " b"); ok((a op bv) == (av op bv), "a " #op " scalar"); ok((av op b) == (av op bv), "scalar " #op " b");
    CMP(<) CMP(<=) CMP(>) CMP(>=) CMP(==) CMP(!=)
  }
}
void prop(Rng& r, int n) { n *= 2000; c21<3>(r, n); c21<1>(r, n); c21<0>(r, n); }
#endif
#if PROP == 22
#include "bezman/src/utils/base64.hpp"
static const char* TB = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
string enc(const vector<unsigned char>& v) { string s; size_t i = 0; for (; i + 2 < v.size(); i += 3) { unsigned x = v[i] << 16 | v[i + 1] << 8 | v[i + 2]; for (int k = 18; k >= 0; k -= 6) s += TB[x >> k & 63]; } if (v.size() - i == 1) { unsigned x = v[i] << 16; s += TB[x >> 18 & 63]; s += TB[x >> 12 & 63]; s += "=="; } if (v.size() - i == 2) { unsigned x = v[i] << 16 | v[i + 1] << 8; s += TB[x >> 18 & 63]; s += TB[x >> 12 & 63]; s += TB[x >> 6 & 63]; s += '='; } return s; }
template <class T> void rt(const vector<unsigned char>& by, const string& tn) {
  vector<T> v(by.size() / sizeof(T)); v.shrink_to_fit(); if (!v.empty()) std::memcpy((void*)v.data(), by.data(), v.size() * sizeof(T)); vector<unsigned char> used(by.begin(), by.begin() + v.size() * sizeof(T)); note(tn + " bytes " + str(used));
  string e = utils::Base64::Encode(v); ok(e == enc(used), "Encode gives " + e + " expected " + enc(used)); string keep = e; auto d = utils::Base64::Decode<T>(e); ok(e == keep, "Decode changed the text");
  ok(d.size() == v.size(), "Decode length " + to_string(d.size()) + " expected " + to_string(v.size())); if (!v.empty()) ok(!std::memcmp((const void*)d.data(), (const void*)v.data(), v.size() * sizeof(T)), "Decode(Encode(x)) differs");
}
template <size_t D, class S> void prd(Rng& r, size_t n) { vector<Point<D, S>> v(n); vector<S> f; for (auto& p : v) for (auto& x : p) { x = (S)r.v(); f.push_back(x); } note(to_string(D) + "-dimensional points " + str(f)); string e = utils::Base64::Encode(v); vector<unsigned char> by(f.size() * sizeof(S)); if (!by.empty()) std::memcpy(by.data(), f.data(), by.size()); ok(e == enc(by), "Encode of points"); auto d = utils::Base64::Decode<Point<D, S>>(e); ok(d == v, "Decode of points"); }
template <class S> void prt(Rng& r, size_t n, const string& tn) {
  prd<1, S>(r, n); prd<4, S>(r, n); prd<5, S>(r, n);
  vector<Point<3, S>> v(n); vector<S> f; for (auto& p : v) for (auto& x : p) { x = (S)r.v(); f.push_back(x); } note(tn + " " + str(f)); string e = utils::Base64::Encode(v); vector<unsigned char> by(f.size() * sizeof(S)); if (!by.empty()) std::memcpy(by.data(), f.data(), by.size()); ok(e == enc(by), "Encode of points"); auto d = utils::Base64::Decode<Point<3, S>>(e); ok(d.size() == n, "Decode of points: length"); for (size_t i = 0; i < n; i++) for (int k = 0; k < 3; k++) ok(d[i][k] == v[i][k], "Decode of points");
  vector<Point<2, S>> w(n); f.clear(); for (auto& p : w) for (auto& x : p) { x = (S)r.v(); f.push_back(x); } e = utils::Base64::Encode(w); auto g = utils::Base64::Decode<Point<2, S>>(e); ok(g == w, "Decode of 2D points");
}
void prop(Rng& r, int n) {
  for (int it = 0; it < 8 * n; it++) for (int L = 0; L < 26; L++) {
    vector<unsigned char> by(L); for (auto& b : by) b = it == 0 ? 0 : it == 1 ? 255 : (unsigned char)r.n(); for (int z = 0; z < r.i(0, 3) && z < L; z++) by[L - 1 - z] = r.i(0, 1) ? 0 : 255;
    rt<char>(by, "char"); rt<unsigned char>(by, "unsigned char"); rt<short>(by, "short"); rt<int>(by, "int"); rt<float>(by, "float"); rt<array<unsigned char, 3>>(by, "array<unsigned char,3>"); rt<array<unsigned char, 5>>(by, "array<unsigned char,5>"); rt<array<short, 3>>(by, "array<short,3>"); rt<double>(by, "double"); rt<long>(by, "long");
    vector<unsigned char> big(L * 8); for (auto& b : big) b = (unsigned char)r.n(); rt<double>(big, "double"); rt<size_t>(big, "size_t"); prt<double>(r, L % 9, "Point<3,double>"); prt<float>(r, L % 9, "Point<3,float>");
  }
  for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b += 1 + it_(a)) { rt<unsigned char>({(unsigned char)a, (unsigned char)b, (unsigned char)(a ^ b)}, "unsigned char"); rt<unsigned char>({(unsigned char)a, (unsigned char)b}, "unsigned char"); rt<unsigned char>({(unsigned char)b}, "unsigned char"); }
}
#endif
#if PROP == 23
#include "bezman/src/utils/algorithms/sort.hpp"
struct Only { int k; int id; bool operator<(const Only& o) const { return k < o.k; } bool operator>(const Only& o) const { return k > o.k; }
  bool operator<=(const Only& o) const { return k <= o.k; } bool operator>=(const Only& o) const { return k >= o.k; } bool operator==(const Only& o) const { return k == o.k; } bool operator!=(const Only& o) const { return k != o.k; } };
template <class T, class M, class S> void srt(Rng& r, int n, M mk, S sh) {
  for (int it = 0; it < n; it++) { size_t L = r.i(0, 3) ? r.i(0, 12) : r.i(0, 300); int range = r.i(0, 2) == 0 ? 2 : r.i(1, 400); vector<T> v; string d; for (size_t i = 0; i < L; i++) v.push_back(mk(r.i(-range, range), (int)i)); if (r.i(0, 5) == 0) std::stable_sort(v.begin(), v.end()); if (r.i(0, 5) == 0) std::reverse(v.begin(), v.end()); for (auto& x : v) d += sh(x) + " "; note("sequence " + d);
    const auto v0 = v; auto p = utils::algorithms::IndexListSort(v); ok(v.size() == v0.size(), "sequence changed"); for (size_t i = 0; i < L; i++) ok(sh(v[i]) == sh(v0[i]), "sequence changed"); ok(p.size() == L, "length"); vector<char> seen(L); for (auto i : p) { ok(i < L && !seen[i], "not a permutation"); seen[i] = 1; }
    for (size_t i = 1; i < L; i++) { ok(!(v[p[i]] < v[p[i - 1]]), "not sorted"); if (!(v[p[i - 1]] < v[p[i]])) ok(p[i - 1] < p[i], "equal values reordered"); } }
}
void prop(Rng& r, int n) { n *= 300; srt<int>(r, n, [](int k, int) { return k; }, [](int x) { return to_string(x); }); srt<double>(r, n, [](int k, int) { return k / 7.; }, [](double x) { return str(x); }); srt<string>(r, n, [](int k, int) { return to_string(k); }, [](const string& x) { return x; }); srt<Only>(r, n, [](int k, int i) { return Only{k, i}; }, [](const Only& x) { return to_string(x.k) + ":" + to_string(x.id); }); srt<unsigned long>(r, n, [](int k, int) { return (unsigned long)k; }, [](unsigned long x) { return to_string(x); }); srt<unsigned char>(r, n, [](int k, int) { return (unsigned char)k; }, [](unsigned char x) { return to_string(x); }); srt<float>(r, n, [](int k, int) { return k * 1e-8f + 1; }, [](float x) { return str(x); }); }
#endif
#if PROP == 24
#include "bezman/src/utils/algorithms/int_power.hpp"
template <class T> void pw(const string& tn, Rng& r, int n) {
  const __int128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  auto one = [&](T b) { __int128 v = 1; for (unsigned long e = 0; e <= (unsigned long)std::min<__int128>(hi, 200); e++) { note(tn + " " + to_string((long long)b) + "^" + to_string(e)); T g = utils::algorithms::IntPower<T>(b, (T)e); ok((__int128)g == v, "IntPower gives " + to_string((long long)g)); if (__builtin_mul_overflow(v, (__int128)b, &v) || v < lo || v > hi) break; } };
  for (long k = -300; k <= 300; k++) if (k >= lo && k <= hi) one((T)k); for (T b : {std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), (T)(std::numeric_limits<T>::max() / 2), (T)(std::numeric_limits<T>::min() + 1)}) one(b); for (int i = 0; i < n * 200; i++) one((T)(r.n() >> r.i(0, 63)));
  if (hi > 200) for (T b : {(T)0, (T)1}) for (T e : {(T)1000, (T)hi, (T)(hi - 1)}) { if (e < 0) continue; note(tn + " " + to_string((long long)b) + "^" + to_string((unsigned long long)e)); ok(utils::algorithms::IntPower<T>(b, e) == b, "IntPower of 0 or 1"); }
  if (lo < 0) for (T e : {(T)hi, (T)(hi - 1)}) { note(tn + " (-1)^" + to_string((long long)e)); ok(utils::algorithms::IntPower<T>((T)-1, e) == (e % 2 ? (T)-1 : (T)1), "IntPower of -1"); }
}
void prop(Rng& r, int n) { pw<signed char>("int8", r, n); pw<unsigned char>("uint8", r, n); pw<char>("char", r, n); pw<short>("int16", r, n); pw<unsigned short>("uint16", r, n); pw<int>("int", r, n); pw<unsigned>("unsigned", r, n); pw<long>("long", r, n); pw<unsigned long>("unsigned long", r, n); pw<long long>("long long", r, n); pw<unsigned long long>("unsigned long long", r, n); static_assert(utils::algorithms::IntPower(3ul, 4ul) == 81); }
#endif
#if PROP == 25
#include <sys/stat.h>
#include <sys/wait.h>
using L = utils::Logger;
struct Ex : std::exception { string m; explicit Ex(const string& s) : m(s) {} const char* what() const noexcept override { return m.c_str(); } };
template <class E, class F> void term(const string& m, F f, const string& w) { bool got = false; try { f(); } catch (const E& e) { got = true; ok(string(e.what()) == string(m.c_str()), w + ": message '" + e.what() + "' expected '" + m + "'"); } catch (...) { fail(w + ": wrong exception type"); } ok(got, w + ": no exception"); }
void run(Rng& r, int n) {
  const string ms[] = {"", "x", "A message", "%s %d %n", string(3000, 'q'), "line\nbreak", "Split Plane is at 2"};
  for (int rep = 0; rep < n; rep++) for (unsigned lv = 0; lv < 512; lv++) for (int form = 0; form < 2; form++) {
    string m = ms[r.i(0, 6)]; note("output level " + to_string(lv) + " message length " + to_string(m.size()));
    if (form == 0) L::SetOutputLevel(lv); else { using O = L::OutputLevel; switch (r.i(0, 6)) { case 0: L::SetOutputLevel({}); break; case 1: L::SetOutputLevel({O::nothing}); break; case 2: L::SetOutputLevel({O::all}); break; case 3: L::SetOutputLevel({O::errors, O::time_stamp}); break; case 4: L::SetOutputLevel({O::userinfo, O::warnings, O::logging, O::logging_verbose}); break; case 5: L::SetOutputLevel({O::error_file, O::log_file}); break; default: L::SetOutputLevel({O::warning_file}); } }
    auto quiet = [&](auto f, const char* w) { try { f(); } catch (...) { fail(string(w) + " raised"); } };
    for (int k = 0; k < 2; k++) { quiet([&] { L::Warning(m); }, "Warning"); quiet([&] { L::Error(m); }, "Error"); quiet([&] { L::UserInfo(m); }, "UserInfo"); quiet([&] { L::Logging(m); }, "Logging"); quiet([&] { L::ExtendedInformation(m); }, "ExtendedInformation");
      term<std::runtime_error>(m, [&] { L::TerminatingError(m); }, "TerminatingError"); if (lv % 7 == 0) { term<std::invalid_argument>(m, [&] { L::TerminatingError<std::invalid_argument>(m); }, "TerminatingError<invalid_argument>"); term<Ex>(m, [&] { L::TerminatingError<Ex>(m); }, "TerminatingError<user type>"); term<std::out_of_range>(m, [&] { L::TerminatingError<std::out_of_range>(m); }, "TerminatingError<out_of_range>"); } }
  }
  // streams that failed must not turn a message into an exception
  std::cout.setstate(std::ios::badbit); for (unsigned lv : {0u, 39u, 511u}) { note("broken stream, output level " + to_string(lv)); L::SetOutputLevel(lv); L::Error("e"); L::Warning("w"); L::UserInfo("u"); term<std::runtime_error>("t", [&] { L::TerminatingError("t"); }, "TerminatingError"); } std::cout.clear();
}
void prop(Rng& r, int n) {
  // first in a child where the log files cannot be created (their names are directories), then with working files
  for (int m = 1; m <= 3; m++) { fflush(stdout); pid_t p = fork(); if (p == 0) { alarm(60); for (const char* f : {"log_file.log", "warning_file.log", "error_file.log"}) if (m == 1 || (m == 2) == (f[0] == 'w')) mkdir(f, 0700); try { run(r, 1); } catch (...) { fail("unexpected exception, log files cannot be written"); } fflush(stdout); _exit(0); }
    int st = 0; waitpid(p, &st, 0); for (const char* f : {"log_file.log", "warning_file.log", "error_file.log"}) { rmdir(f); unlink(f); } if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3); if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("logger aborted, log files cannot be written"); }
  run(r, n);
}
#endif
#if PROP == 27
#include <fstream>
#include <sstream>
#include <sys/wait.h>
using L = utils::Logger;
using OL = L::OutputLevel;
struct Step { int kind; unsigned level; vector<OL> list; string text; };
struct Uex : std::exception { string m; explicit Uex(const string& s) : m(s) {} const char* what() const noexcept override { return m.c_str(); } };
inline const char* FN[3] = {"log_file.log", "warning_file.log", "error_file.log"};
inline string contents(int f) { std::ifstream i(FN[f], std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void same(int f, const vector<string>& want, const string& w) {
  string c = contents(f); size_t p = 0, k = 0, marks = 0;
  for (auto& t : want) { size_t q = c.find(t, p); ok(q != string::npos, w + ": " + FN[f] + " lacks message " + to_string(k) + " of " + to_string(want.size()) + " ('" + t.substr(0, 20) + "')"); q = c.find('\n', q + t.size()); ok(q != string::npos, w + ": " + FN[f] + ": message " + to_string(k) + " does not end its line"); p = q + 1; k++; if (!t.empty()) marks += 2; }
  ok(p == c.size() || want.empty(), w + ": " + FN[f] + " has text after the last message"); ok((size_t)std::count(c.begin(), c.end(), '#') == marks, w + ": " + FN[f] + " holds other messages than expected"); if (want.empty()) ok(c.empty(), w + ": " + FN[f] + " should be empty");
}
inline void step(const Step& s) {
  switch (s.kind) {
    case 0: L::UserInfo(s.text); break; case 1: L::Logging(s.text); break; case 2: L::ExtendedInformation(s.text); break; case 3: L::Warning(s.text); break; case 4: L::Error(s.text); break;
    case 5: try { L::TerminatingError(s.text); } catch (const std::runtime_error&) {} break; case 6: try { L::TerminatingError<Uex>(s.text); } catch (const Uex&) {} break;
    case 7: L::SetOutputLevel(s.level); break; default: { auto& l = s.list; if (l.empty()) L::SetOutputLevel({}); else if (l.size() == 1) L::SetOutputLevel({l[0]}); else if (l.size() == 2) L::SetOutputLevel({l[0], l[1]}); else L::SetOutputLevel({l[0], l[1], l[2]}); }
  }
}
void prop(Rng& r, int n) {
  const OL opts[] = {OL::nothing, OL::userinfo, OL::errors, OL::warnings, OL::logging, OL::logging_verbose, OL::time_stamp, OL::warning_file, OL::error_file, OL::log_file, OL::all, OL::log_file, OL::error_file, OL::warning_file};
  for (int it = 0; it < 60 * n; it++) {
    vector<Step> h; vector<string> want[3]; vector<array<size_t, 3>> sofar; unsigned lv = 39; int len = 1 + r.i(0, it % 3 == 0 ? 60 : 8); vector<unsigned> lvs; string d;
    for (int k = 0; k < len; k++) {
      Step s; s.kind = r.i(0, 8); if (k == 0 && r.i(0, 3)) s.kind = 7; s.level = r.i(0, 1) ? r.i(0, 511) : 448 + r.i(0, 63); if (s.kind == 8) for (int q = r.i(0, 3); q > 0; q--) s.list.push_back(opts[r.i(0, 13)]);
      if (s.kind < 7) { string id = "#" + to_string(k) + "#"; switch (r.i(0, 7)) { case 0: s.text = ""; break; case 1: s.text = id + string(r.i(500, 9000), 'q'); break; case 2: s.text = id + "%s %n\nsecond line"; break; case 3: s.text = id + "\t\\ \033[0m " + string(1, '\0') + "x"; break; default: s.text = id + " text"; } }
      if (s.kind == 7) lv = s.level; if (s.kind == 8) { lv = 0; for (auto o : s.list) lv |= (unsigned)o; }
      static const char* nm[] = {"UserInfo", "Logging", "ExtendedInformation", "Warning", "Error", "TerminatingError", "TerminatingError<user type>", "SetOutputLevel", "SetOutputLevel{list}"}; d += string(k ? "; " : "") + nm[s.kind] + (s.kind >= 7 ? " " + to_string(lv) : "");
      if (s.kind <= 2 && lv & 256) want[0].push_back(s.text); if (s.kind == 3 && lv & 64) want[1].push_back(s.text); if (s.kind >= 4 && s.kind <= 6 && lv & 128) want[2].push_back(s.text);
      h.push_back(s); lvs.push_back(lv); sofar.push_back({want[0].size(), want[1].size(), want[2].size()});
    }
    note(d); fflush(stdout); for (auto f : FN) unlink(f);
    pid_t p = fork();
    if (p == 0) {
      alarm(60);
      for (size_t k = 0; k < h.size(); k++) { step(h[k]); if (h[k].kind == 5 || h[k].kind == 6) for (int f = 0; f < 3; f++) if (lvs[k] & (f == 0 ? 256 : f == 1 ? 64 : 128)) same(f, vector<string>(want[f].begin(), want[f].begin() + sofar[k][f]), "after terminating error " + to_string(k)); }
      fflush(stdout); exit(0);      // closes the logger
    }
    int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3); ok(WIFEXITED(st) && WEXITSTATUS(st) == 0, "logger aborted");
    for (int f = 0; f < 3; f++) { same(f, want[f], "at the end"); unlink(FN[f]); }
  }
}
#endif
