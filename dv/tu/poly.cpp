// Instantiates the real templates of /repo so that clang emits their bodies.
#include <type_traits>
#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
using namespace bezman;
template <std::size_t D, class P>
void poly() {
  using S = BezierSpline<D, P, double>;
  using Q = BezierSpline<D, double, double>;
  std::array<std::size_t, D> dg{};
  std::vector<P> pts;
  S a{}, b(dg), s(dg, pts), c(s);
  const S k(s);
  a = b; a = S(dg);
  a.UpdateDegrees(dg);
  (void)k.GetDegrees(); (void)s.GetDegrees(); (void)k.GetControlPoints(); (void)s.GetControlPoints();
  (void)s.GetNumberOfControlPoints();
  (void)s.LocalToGlobalIndex(0); (void)s.GlobalToLocalIndex(dg);
  (void)s.ControlPoint(dg); (void)k.ControlPoint(dg);
  if constexpr (D == 1) { (void)s.ControlPoint(1); (void)k.ControlPoint(1); }
  if constexpr (D == 2) { (void)s.ControlPoint(1, 1); (void)k.ControlPoint(1, 1); }
  if constexpr (D == 3) { (void)s.ControlPoint(1, 1, 1); (void)k.ControlPoint(1, 1, 1); }
  Point<D, double> x{};
  s.OrderElevateAlongParametricDimension(0);
  (void)s.DerivativeWRTParametricDimension(dg);
  (void)s.Evaluate(x); (void)s.ForwardEvaluate(x); (void)s.BasisFunctions(x); (void)s.BasisFunctionContributions(x);
  if constexpr (D == 1) { (void)s.Evaluate(.5); (void)s.ForwardEvaluate(.5); (void)s.BasisFunctions(.5); (void)s.BasisFunctionContributions(.5); }
  if constexpr (D == 2) { (void)s.Evaluate(.5, .5); (void)s.ForwardEvaluate(.5, .5); (void)s.BasisFunctions(.5, .5); (void)s.BasisFunctionContributions(.5, .5); }
  if constexpr (D == 3) { (void)s.Evaluate(.5, .5, .5); (void)s.ForwardEvaluate(.5, .5, .5); (void)s.BasisFunctions(.5, .5, .5); (void)s.BasisFunctionContributions(.5, .5, .5); }
  (void)s.EvaluateDerivative(x, dg); (void)s.BasisFunctionsDerivatives(x, dg);
  P pt{};
  (void)(s + c); (void)(s - c); s += c; s -= c; (void)(s == c); (void)(-s);
  s *= 2.; (void)(s * 2.); (void)(2. * s);
  s += pt; s -= pt; (void)(s + pt); (void)(s - pt); (void)(pt + s); (void)(pt - s);
  (void)s.SplitAtPosition(.5, 0); (void)s.SplitAtPosition(std::vector<double>{.5}, 0);
  (void)s.SplitAtPosition(.5); (void)s.SplitAtPosition(std::vector<double>{.5});
  (void)s.MaximumCorner(); (void)s.MinimumCorner(); (void)s.FitsIntoUnitCube(); s.FitIntoUnitCube();
  s.TransposeAndScale(pt, pt); (void)s.ExtractDimension(0);
  Q q(dg);
  (void)(s * q); (void)(q * s); (void)(q * q); (void)(s * s);
  (void)q.RaisePower(2);
}
template void poly<1, double>();
template void poly<1, Point<2, double>>();
template void poly<2, double>();
template void poly<2, Point<2, double>>();
template void poly<3, double>();
template void poly<3, Point<3, double>>();
