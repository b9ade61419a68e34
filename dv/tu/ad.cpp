#include <type_traits>
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
using bezman::utils::computational_differentiation::AlgoDiffType;
template <class T, class S> void ops(T a, T b, const S s) {
  const T c = a, d = b;
  (void)(c + d); (void)(c - d); (void)(c * d); (void)(c / d); (void)(-c);
  a += d; a -= d; a *= d; a /= d;
  (void)(c + s); (void)(c - s); (void)(c * s); (void)(c / s); a += s; a -= s; a *= s; a /= s;
  (void)(s + c); (void)(s - c); (void)(s * c); (void)(s / c);
  (void)(c > d); (void)(c >= d); (void)(c < d); (void)(c <= d); (void)(c == d); (void)(c != d);
  (void)(c > s); (void)(c >= s); (void)(c < s); (void)(c <= s); (void)(c == s); (void)(c != s);
  (void)(s > c); (void)(s >= c); (void)(s < c); (void)(s <= c); (void)(s == c); (void)(s != c);
  (void)exp(c); (void)abs(c); (void)pow(c, s); (void)pow(c, d); (void)sqrt(c); (void)log(c); (void)log10(c);
  (void)cos(c); (void)sin(c); (void)tan(c); (void)acos(c); (void)asin(c); (void)atan(c);
  (void)c.GetValue(); (void)c.GetDerivatives(); (void)c.GetNumberOfDerivatives(); a.SetActiveComponent(0); a = d;
}
template <std::size_t N> void fixed() { using T = AlgoDiffType<double, N>; T a(1.), b(1., (std::size_t)0); T z; ops<T, double>(a, b, 2.); a = 3.; }
void all() {
  fixed<1>(); fixed<2>(); fixed<3>(); fixed<4>();
  using V = AlgoDiffType<double, 0>; V a(1., (std::size_t)3), b(1., (std::size_t)3, (std::size_t)1); V z; ops<V, double>(a, b, 2.);
  using I = AlgoDiffType<double, 2>; using N = AlgoDiffType<I, 2>; N zn; N x(I(1.)), y(I(1.), (std::size_t)0); ops<N, I>(x, y, I(2.)); x = I(1.);
}
