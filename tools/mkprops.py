import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
BS="src/bezier_spline.inc";BH="src/bezier_spline.hpp";RS="src/rational_bezier_spline.inc";RH="src/rational_bezier_spline.hpp"
PT="src/point.hpp";BP="src/utils/algorithms/bernstein_polynomial.hpp";FB="src/utils/fastbinomialcoefficient.hpp";BL="src/utils/binomialcoefficientlookuptablecreator.hpp"
RC="src/utils/algorithms/recursive_combine.hpp"
AD="src/utils/computational_differentiation/algo_diff_type.inc";ADH="src/utils/computational_differentiation/algo_diff_type.hpp"
p("C01","Control-point layout and every index accessor agree",
 "For a spline of any degrees, the control-point count is the product of (degree+1) over the parametric dimensions and control points are stored with the first parametric dimension running fastest. Converting a flat position to a multi-index and back is the identity both ways, every control-point accessor (flat, per-index, array-index, const or not, polynomial or rational weighted/weight/projected) designates exactly that control point, and this still holds after constructing, changing degrees, or copying a spline.",
 ["inputs","configurations"],"all parametric dimensions, all degree tuples, all in-range indices, after every constructor and degree update",
 "The tests index a few control points of two or three fixed-degree splines; the bijection and the agreement of all accessors quantify over all degree tuples and indices.",
 [BS,BH,RS,RH],[("row-based offsets",BS+": UpdateIndexOffsets_"),("index conversions",BS+": LocalToGlobalIndex/GlobalToLocalIndex"),("accessors",BS+": ControlPoint; "+RS+": ControlPoint/Weight/WeightedControlPoint")],
 [("index_offsets","stride of each parametric dimension",BH),("number_of_control_points","cached product of degree+1",BH)],["GetNumberOfControlPoints","ControlPoint"])
p("C02","Point arithmetic is componentwise vector arithmetic",
 "Sum, difference, negation, scaling by a scalar from either side, division by a non-zero scalar, scalar divided by a point, their in-place forms, the dot product and the (squared) Euclidean norm of points give, in exact arithmetic, the componentwise vector-space result in every component. Operators that return a new point leave their operands unchanged, and in-place operators are correct even when the argument is the point itself or one of its own components.",
 ["inputs"],"all coordinate values, all spatial dimensions, all operator forms, argument aliasing",
 "The tests exercise points only through a few spline examples; the identities quantify over all coordinates, operator forms and aliasing.",
 [PT],[("componentwise loops",PT)],obs=["operator results"])
p("C03","Binomial coefficients and Bernstein basis values are exact",
 "For every degree below the supported maximum of 30, the binomial coefficient lookup returns n choose k for all 0<=k<=n, and evaluating the Bernstein basis of degree n at x returns exactly n+1 values whose i-th entry is (n choose i) x^i (1-x)^(n-i) in exact arithmetic, for every real x including 0, 1 and values outside [0,1].",
 ["inputs"],"all n<30, all k<=n, all real x",
 "Tests sample a handful of degrees and positions; the claim covers every degree up to the table limit and every x.",
 [FB,BL,BP],[("lookup table",BL+": calculate_table"),("choose",FB),("two-sweep power accumulation",BP+": Evaluate")],obs=["choose","BernsteinPolynomial::Evaluate"])
p("C04","Derivatives of the Bernstein basis are exact",
 "For every degree n below 30, derivative order d and position x, the returned n+1 values are the d-th derivatives of the degree-n Bernstein polynomials at x in exact arithmetic: zero for every entry when d exceeds n, and the basis values themselves when d is 0.",
 ["inputs"],"all n<30, all derivative orders d>=0, all real x",
 "Tests compare a few low orders against hand-computed values; boundary orders (d=n, d=n+1, d=0) and higher degrees are not sampled.",
 [BP],[("order-d difference of lower-degree basis",BP+": EvaluateDerivative")],obs=["BernsteinPolynomial::EvaluateDerivative"])
p("C05","Evaluating a polynomial spline gives the tensor Bernstein sum",
 "Evaluating a polynomial spline at any parametric position, by de Casteljau or by the basis-function route, gives the same value: the sum over all control points of the product of the per-dimension Bernstein values times the control point. The basis functions are returned as one value per control point in the same order as the control points, and evaluation does not change the spline.",
 ["inputs","configurations"],"all degree tuples below 30, all control points, all parametric positions, all parametric and spatial dimensions",
 "Tests evaluate a few fixed splines at random points and mostly compare the two routes with each other; agreement for all degrees (mixed, zero) and dimensions needs an argument over all inputs.",
 [BS,BH,BP,RC],[("in-place de Casteljau per dimension",BS+": Evaluate"),("basis route",BS+": ForwardEvaluate, BasisFunctions"),("tensor combination",RC)],obs=["Evaluate","ForwardEvaluate","BasisFunctions"])
p("C06","Spline derivatives equal the true mixed partial derivatives",
 "For any orders per parametric dimension, evaluating the derivative of a polynomial spline at a position, and evaluating the derivative spline there, both give the exact mixed partial derivative of the spline map. Derivative basis functions combined with the control points give the same, orders of zero leave the map unchanged, and an order above the degree in some dimension gives zero.",
 ["inputs","configurations"],"all degree tuples, all derivative order tuples, all control points and positions",
 "Tests check a few orders on fixed splines; high and mixed orders, zero and above-degree orders in several dimensions are a space tests cannot cover.",
 [BS,BP],[("iterated forward differences",BS+": DerivativeWRTParametricDimension"),("derivative basis route",BS+": EvaluateDerivative, BasisFunctionsDerivatives")],obs=["EvaluateDerivative","DerivativeWRTParametricDimension"])
p("C07","Order elevation keeps the spline map",
 "Elevating the order of a polynomial spline along any parametric dimension raises exactly that dimension's degree by one, leaves a consistent spline, and leaves the value of the spline unchanged at every parametric position.",
 ["inputs","histories"],"all degree tuples, all control points, each dimension, any sequence of elevations",
 "Tests elevate two fixed splines and compare at sampled points; the in-place back-to-front rewrite must be right for every degree, stride and group layout.",
 [BS],[("in-place back-to-front rewrite",BS+": OrderElevateAlongParametricDimension")],obs=["Evaluate before/after","GetDegrees"])
p("C08","Splitting a polynomial spline reproduces it piecewise",
 "Splitting at a position strictly inside (0,1) along a parametric dimension yields two splines of the same degrees that reproduce the original on the two sub-intervals under the affine reparametrisation; splitting at a strictly increasing list of positions inside (0,1) yields one spline per sub-interval, in order, and an empty list yields the spline itself. The original is unchanged, and a position outside (0,1) or a list that is not strictly increasing is rejected with an error.",
 ["inputs"],"all splines, all split positions and lists of positions, each dimension, all evaluation positions",
 "Tests split fixed splines at sampled positions; correctness for every degree, dimension, stride, and list length (relative re-splitting) is not sampled.",
 [BS],[("in-place de Casteljau split",BS+": SplitAtPosition"),("successive relative splits",BS+": SplitAtPosition(vector)")],obs=["returned splines","exception"])
p("C09","Spline sums, differences, scaling and shifts act pointwise",
 "For polynomial splines of any and possibly different degrees, the value of a sum, difference, negation, scalar multiple, or shift by a point (all operand orders and in-place forms) at every parametric position is the same operation on the operands' values. Every such operation terminates, results have per-dimension degree the maximum of the operands', only the assigned operand of in-place forms changes, and passing one of the spline's own control points as argument gives the same result as passing a copy.",
 ["inputs","configurations"],"all pairs of degree tuples, all control points, all positions, all operator forms, self-aliasing arguments",
 "Tests combine splines where the left operand has the larger degree or degrees are equal; mixed relations per dimension and aliasing are not sampled.",
 [BS,BH],[("elevate to common degree then add",BS+": operator+, operator-, operator+=, operator-="),("point shifts and scaling",BS)],obs=["Evaluate of result"])
p("C10","Spline products and powers are pointwise products and powers",
 "The product of two polynomial splines of any degrees (scalar times vector, vector times scalar, scalar times scalar, or inner product of vector splines) has per-dimension degree equal to the sum of the operands' and at every position equals the product of their values; raising a scalar spline to a non-negative integer power has degree power times the degree and at every position equals that power of its value. Operands are unchanged.",
 ["inputs","configurations"],"all pairs of degree tuples whose sum stays below 30 per dimension, all control points, all powers, all positions",
 "Tests multiply a few splines of fixed degrees; the convolution bounds matter for every degree pair and index.",
 [BS],[("binomial convolution",BS+": CombineControlPointsForProduct_, operator*"),("recursive squaring",BS+": RaisePower")],obs=["Evaluate of result"])
p("C11","Bounding corners, unit-cube tests and per-axis transforms",
 "The minimum and maximum corners are the componentwise extrema of the control points; the unit-cube test is true exactly when every component of every control point lies in [0,1]; fitting into the unit cube maps each non-degenerate axis affinely and order-preservingly onto exactly [0,1]; transpose-and-scale applies (control point + shift) * scale per component; extracting a dimension gives the scalar spline of that component. Rational splines use their projected control points for corners and the unit-cube test.",
 ["inputs"],"all control point values, weights, dimensions and spline sizes",
 "Tests use one or two hand-made splines; extrema at first, last or interior control points and in each coordinate must be found for all inputs.",
 [BS,RS],[("corner loops",BS+": MaximumCorner, MinimumCorner"),("cube test",BS+": FitsIntoUnitCube"),("affine fit",BS+": FitIntoUnitCube, TransposeAndScale"),("component extraction",BS+": ExtractDimension")],obs=["returned corners and booleans"])
p("C12","Composition evaluates as function composition",
 "Composing a polynomial outer spline with a polynomial or rational inner spline (or a group of inner splines) whose control points lie in the unit cube gives a spline whose value at every parametric position equals the outer spline evaluated at the inner spline's value there. For polynomial inner splines its degree per dimension is the inner degree times the sum of outer degrees, and an inner spline outside the unit cube is rejected with an error.",
 ["inputs","configurations"],"all outer and inner splines (degrees, dimensions, control points), all positions",
 "Tests compose a few splines and compare at sampled points; the identity is over all degree combinations (including degree 0 and 1) and all control points.",
 [BS],[("Bernstein basis splines",BS+": ComposeNumeratorHelper"),("denominator power",BS+": ComposeDenominatorSpline"),("rejection",BS+": Compose")],obs=["Evaluate of result","exception"])
p("C13","Composition sensitivities are derivatives w.r.t. outer control points",
 "The sensitivity of a composition returns one scalar spline per outer control point, in control-point order, whose value at every position is the derivative of the composed value with respect to that control point (the outer basis function evaluated at the inner spline's value; for rational outer splines the weighted rational basis function). Weighting the outer control points with the sensitivities therefore reproduces the composition, and an inner spline outside the unit cube is rejected with an error.",
 ["inputs","configurations"],"all outer and inner splines, polynomial or rational, all positions, every outer control point",
 "Tests compare one configuration against finite samples; ordering and weighting must hold for all degree tuples.",
 [BS,RS],[("sensitivity branch",BS+": ComposeNumeratorHelper<true>"),("weight scaling",RS+": ComposeSensitivity")],obs=["Evaluate of each sensitivity"])
p("C14","Rational evaluation is the weighted quotient on every route",
 "Evaluating a rational spline, by the direct or by the basis-function route, gives the weighted numerator value divided by the weight-function value. Its basis functions sum to one wherever the weight function is non-zero and combine with the projected control points to that value, and its unweighted basis functions combine with the weighted control points to that value. A rational spline built from control points and weights has exactly these weights and projected control points.",
 ["inputs","configurations"],"all rational splines with non-vanishing weight function, all positions, all dimensions",
 "The tests check symmetries and one circle; the two routes and the basis identities are never compared for general weights.",
 [RS,RH],[("quotient evaluation",RS+": Evaluate, ForwardEvaluate"),("rational basis",RS+": BasisFunctions, UnweightedBasisFunctions")],obs=["Evaluate","ForwardEvaluate","BasisFunctions"])
p("C15","Rational derivatives equal the true mixed partial derivatives",
 "For any orders per dimension, evaluating the derivative of a rational spline at a position, evaluating its derivative spline there, and combining its derivative basis functions with the projected control points all give the exact mixed partial derivative of the rational map.",
 ["inputs","configurations"],"all rational splines with non-vanishing weight function, all order tuples, all positions",
 "Tests cover a few first and second orders on fixed geometry; the Leibniz recursion over order tuples must be right for all mixed orders.",
 [RS],[("generalised Leibniz recursion",RS+": EvaluateDerivative, BasisFunctionsDerivatives"),("quotient rule",RS+": DerivativeWRTParametricDimension")],obs=["EvaluateDerivative","DerivativeWRTParametricDimension"])
p("C16","Rational spline arithmetic acts pointwise",
 "Sum, difference, product, negation, scaling by a scalar and shift by a point of rational splines (also with polynomial operands where supported, all in-place forms, equal or different weight functions and degrees) give a rational spline whose value at every position is the same operation on the operands' values. Only the assigned operand of an in-place form changes, and numerator and weight function keep matching degrees.",
 ["inputs","configurations"],"all pairs of rational splines with non-vanishing weights, all positions, all operator forms",
 "Tests sample operand pairs with fixed weights; both branches (equal and different weights) and all operator forms need every input.",
 [RS,RH],[("common-denominator arithmetic",RS+": operator+, operator-, operator*, in-place forms")],obs=["Evaluate of result"])
p("C17","Rational refinement keeps the rational map",
 "Elevating the order of a rational spline along a dimension leaves its value unchanged at every position, and splitting it at one or at a strictly increasing list of positions inside (0,1) gives rational splines that reproduce it on the sub-intervals in order. Numerator and weight function keep equal degrees, the original of a split is unchanged, and a position outside (0,1) or a list that is not strictly increasing is rejected with an error.",
 ["inputs","histories"],"all rational splines with non-vanishing weights, each dimension, all split positions and lists",
 "Tests refine one or two fixed rational splines at sampled positions.",
 [RS],[("parallel refinement of numerator and weights",RS+": OrderElevateAlongParametricDimension, SplitAtPosition")],obs=["Evaluate before/after","exception"])
p("C18","Compositions with a rational outer spline evaluate as function composition",
 "Composing a rational outer spline with a polynomial or rational inner spline whose control points lie in the unit cube gives a rational spline whose value at every position is the outer value at the inner value there. An inner spline that does not fit into the unit cube is rejected with an error in every variant.",
 ["inputs","configurations"],"all rational outer and (rational) inner splines with non-vanishing weights, all positions",
 "Tests compose one or two fixed configurations.",
 [RS,BS],[("numerator/denominator composition",RS+": Compose")],obs=["Evaluate of result","exception"])
p("C19","Differentiation type: arithmetic propagates exact gradients",
 "For differentiable-value objects, sum, difference, product, quotient, negation with other such objects or plain scalars (all operand orders and in-place forms) yield the arithmetic value and the gradient given by the sum, product and quotient rules in every derivative component. In-place forms are correct when an object is combined with itself. An object built or assigned from a plain scalar has a zero gradient, and marking a component active gives exactly that unit gradient.",
 ["inputs","programs"],"all values, all gradients, all numbers of derivatives, all operator forms, self-aliasing",
 "Tests evaluate fixed values per operator; correctness for every value, derivative component and aliased operand is not sampled.",
 [AD,ADH],[("operator overloads",AD)],[("v_","value",ADH),("d_","gradient",ADH)],["GetValue","GetDerivatives"])
p("C20","Differentiation type: elementary functions follow the chain rule",
 "Absolute value, square root, exponential, logarithms, powers (constant exponent; variable exponent with positive base), sine, cosine, tangent and their inverses of a differentiable-value object return the function value and, in every component, the argument gradient times the mathematical derivative of the function, wherever that derivative is defined.",
 ["inputs","programs"],"all arguments in the domain, all gradients and numbers of derivatives",
 "Tests evaluate each function at one or two points; a wrong factor that coincides at those points, or a domain corner such as a zero base, stays unseen.",
 [AD,ADH],[("chain-rule overloads",AD)],obs=["GetValue","GetDerivatives"])
p("C21","Differentiation type: comparisons follow the values",
 "Every comparison between two differentiable-value objects or between one and a plain scalar, in either order, gives the same answer as comparing the plain values, independent of gradients.",
 ["inputs"],"all pairs of values and gradients, all six comparison operators, both operand orders",
 "Tests compare a few fixed values; equality boundaries and operand order for all operators are not covered.",
 [AD,ADH],[("comparison overloads",AD)],obs=["boolean results"])
p("C22","Base64 encoding is standard and decoding inverts it",
 "For every sequence of values of a supported element type, including empty ones and any byte length modulo 3, encoding yields the standard padded Base64 text of the value bytes, decoding that text as the same type yields the original sequence with the same length, and neither reads or writes outside the given data.",
 ["inputs"],"all byte contents, all lengths, all element sizes",
 "Tests round-trip vectors of 8-byte elements only at a few lengths; padding cases and element sizes 1, 2 and 4 as well as memory bounds are not sampled.",
 ["src/utils/base64.hpp"],[("3-byte groups and padding","src/utils/base64.hpp: Encode, Decode")],obs=["Encode","Decode"])
p("C23","Index sort returns the stable ascending permutation",
 "For every sequence, the index sort returns a permutation of its positions along which the values are non-decreasing and equal values keep their original order, and leaves the sequence unchanged.",
 ["inputs"],"all sequences of comparable values",
 "Tests sort two short sequences without the tie cases that stability and permutation claims are about.",
 ["src/utils/algorithms/sort.hpp"],[("stable sort of an index list","src/utils/algorithms/sort.hpp: IndexListSort")],obs=["returned index list"])
p("C24","Integer power is exact within the type's range",
 "For every integral type, base and non-negative exponent whose mathematical power is representable in that type, the integer power function returns exactly base to the exponent, and base to the power zero is one.",
 ["inputs"],"all integral types, bases and exponents with representable result",
 "No test exercises it with wide types or results beyond 32 bits.",
 ["src/utils/algorithms/int_power.hpp"],[("recursive squaring","src/utils/algorithms/int_power.hpp: IntPower")],obs=["return value"])
p("C25","Terminating errors always raise, other messages never do",
 "Reporting a terminating error through the logger always raises an exception that carries the message, and no other message level raises, whatever the configured output levels and whether logging is compiled in or not.",
 ["inputs","configurations"],"all messages, all output-level masks, logging compiled in or out",
 "The tests are built without logging and exercise one message; the guarantee ranges over configurations and masks.",
 ["src/utils/logger.hpp"],[("throw after logging","src/utils/logger.hpp: TerminatingError")],obs=["exception"])
p("C26","Floating-point results stay within rounding error of the exact results",
 "Every numerical result computed in double precision differs from the exact real-arithmetic result by at most a modest multiple of machine precision times the magnitude of the intermediate values.",
 ["inputs"],"all finite double inputs of moderate magnitude",
 "Tests compare with loose tolerances at sampled inputs; a rounding bound over all inputs is a different kind of claim.",
 [BS,RS,BP],[("convex combinations",BS+": Evaluate")],obs=["numerical results"])
p("C27","Log files contain every enabled message in order",
 "With logging compiled in, each log file holds, in the order reported and each on lines of its own, exactly the messages reported while file output for their kind was enabled since the program first opened the file (information messages in the log file, warnings in the warning file, errors and terminating errors in the error file); later messages, terminating errors and changes of the output level lose or reorder none of them, and a terminating error leaves the enabled files written to disk.",
 ["histories","configurations"],"all message sequences and output-level masks, across terminating errors and re-initialisation",
 "The logging variant is not exercised by any test at all.",
 ["src/utils/logger.hpp"],[("file streams","src/utils/logger.hpp: init, Warning_, Error_, UserInfo_, Logging_, ExtendedInformation_, TerminatingError_")],obs=["log files"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
