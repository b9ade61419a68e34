// Compositions and their sensitivities.
#include <type_traits>
#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
using namespace bezman;
template <std::size_t D, class P, std::size_t I, class IP>
void comp() {
  using S = BezierSpline<D, P, double>; using RS = RationalBezierSpline<D, P, double>;
  using IS = BezierSpline<I, IP, double>; using IR = RationalBezierSpline<I, IP, double>;
  const S s{}; const RS rs{}; const IS is{}; const IR ir{};
  (void)s.Compose(is); (void)s.Compose(ir); (void)rs.Compose(is); (void)rs.Compose(ir);
  (void)s.ComposeSensitivity(is); (void)s.ComposeSensitivity(ir); (void)rs.ComposeSensitivity(is); (void)rs.ComposeSensitivity(ir);
  const std::vector<IS> g; (void)s.Compose(g); const std::vector<IR> h; (void)s.Compose(h);
}
template void comp<1, double, 1, double>();
template void comp<1, Point<2, double>, 1, double>();
template void comp<1, Point<2, double>, 2, double>();
template void comp<2, double, 1, Point<2, double>>();
template void comp<2, Point<2, double>, 2, Point<2, double>>();
template void comp<2, Point<3, double>, 1, Point<2, double>>();
template void comp<3, Point<3, double>, 1, Point<3, double>>();
template void comp<3, double, 2, Point<3, double>>();
