#include <type_traits>
#include "bezman/src/point.hpp"
using namespace bezman;
template <std::size_t N> void pt() {
  Point<N, double> a{}, b{}; const Point<N, double> c{};
  (void)(c + b); a += b; (void)(c - b); a -= b; (void)(-c); a *= 2.; (void)(c * 2.); (void)(2. * c); a /= 2.; (void)(c / 2.); (void)(2. / c);
  (void)(c * b); (void)c.SquaredEuclidianNorm(); (void)c.EuclidianNorm();
}
void all() { pt<1>(); pt<2>(); pt<3>(); pt<4>(); pt<5>(); }
