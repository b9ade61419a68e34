// Instantiates the real rational templates of /repo so that clang emits their bodies.
#include <type_traits>
#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
using namespace bezman;
template <std::size_t D, class P>
void rat() {
  using S = BezierSpline<D, P, double>;
  using Q = BezierSpline<D, double, double>;
  using RS = RationalBezierSpline<D, P, double>;
  std::array<std::size_t, D> dg{};
  std::vector<P> pts; std::vector<double> ws;
  S s(dg); Q q(dg);
  RS a{}, b(dg), c(s), d(s, q), e(dg, pts, ws), f(e);
  const RS k(e);
  a = b; a = RS(dg);
  a.UpdateDegrees(dg);
  (void)k.GetDegrees(); (void)k.GetNumberOfControlPoints(); (void)k.GetWeightedControlPoints(); (void)a.GetWeightedControlPoints();
  (void)k.GetWeights(); (void)a.GetWeights(); (void)k.GetWeightFunctionSpline(); (void)k.GetNumeratorSpline();
  (void)k.LocalToGlobalIndex(0); (void)k.GlobalToLocalIndex(dg);
  (void)k.ControlPoint(dg); (void)a.WeightedControlPoint(dg); (void)k.WeightedControlPoint(dg); (void)a.Weight(dg); (void)k.Weight(dg);
  if constexpr (D == 1) { (void)k.ControlPoint(1); (void)a.WeightedControlPoint(1); (void)k.WeightedControlPoint(1); (void)a.Weight(1); (void)k.Weight(1); }
  if constexpr (D == 2) { (void)k.ControlPoint(1, 1); (void)a.WeightedControlPoint(1, 1); (void)k.WeightedControlPoint(1, 1); (void)a.Weight(1, 1); (void)k.Weight(1, 1); }
  if constexpr (D == 3) { (void)k.ControlPoint(1, 1, 1); (void)a.WeightedControlPoint(1, 1, 1); (void)k.WeightedControlPoint(1, 1, 1); (void)a.Weight(1, 1, 1); (void)k.Weight(1, 1, 1); }
  Point<D, double> x{};
  (void)k.Evaluate(x); (void)k.ForwardEvaluate(x); (void)k.BasisFunctions(x); (void)k.UnweightedBasisFunctions(x); (void)k.BasisFunctionContributions(x);
  if constexpr (D == 1) { (void)k.Evaluate(.5); (void)k.ForwardEvaluate(.5); (void)k.BasisFunctions(.5); (void)k.UnweightedBasisFunctions(.5); }
  if constexpr (D == 2) { (void)k.Evaluate(.5, .5); (void)k.ForwardEvaluate(.5, .5); (void)k.BasisFunctions(.5, .5); (void)k.UnweightedBasisFunctions(.5, .5); }
  if constexpr (D == 3) { (void)k.Evaluate(.5, .5, .5); (void)k.ForwardEvaluate(.5, .5, .5); (void)k.BasisFunctions(.5, .5, .5); (void)k.UnweightedBasisFunctions(.5, .5, .5); }
  (void)k.EvaluateDerivative(x, dg); (void)k.BasisFunctionsDerivatives(x, dg); (void)k.DerivativeWRTParametricDimension(dg);
  a.OrderElevateAlongParametricDimension(0);
  (void)k.SplitAtPosition(.5, 0); (void)k.SplitAtPosition(std::vector<double>{.5}, 0);
  (void)k.SplitAtPosition(.5); (void)k.SplitAtPosition(std::vector<double>{.5});
  P pt{};
  a *= 2.; (void)(k * 2.); (void)(2. * k);
  a += pt; a -= pt; (void)(k + pt); (void)(k - pt); (void)(pt + k); (void)(-k);
  (void)(k + b); (void)(k - b); a += b; a -= b; (void)(k * b);
  using RQ = RationalBezierSpline<D, double, double>;
  RQ rq(q);
  (void)(rq * k); (void)(k * rq);
  (void)k.ExtractDimension(0);
  (void)k.FitsIntoUnitCube(); (void)k.MaximumCorner(); (void)k.MinimumCorner();
}
template void rat<1, double>();
template void rat<1, Point<2, double>>();
template void rat<2, double>();
template void rat<2, Point<2, double>>();
template void rat<3, double>();
template void rat<3, Point<3, double>>();
