import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,entry=None):
    a={"files":files,"mechanism":[{"name":m,"where":", ".join(files)} for m in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append(dict(id=id,title=title,statement=stmt,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
D="src/data_api.rs"; GW="src/golub_welsch.rs"; M="src/math.rs"
L="src/legendre/mod.rs"; LB="src/legendre/bogaert"; J="src/jacobi/mod.rs"; LA="src/laguerre/mod.rs"; H="src/hermite/mod.rs"; C="src/chebyshev/mod.rs"
MI="src/midpoint/mod.rs"; SI="src/simpson/mod.rs"; TR="src/trapezoid/mod.rs"
RULES=[L,J,LA,H,C]; NC=[MI,SI,TR]
p("C01","Gauss-Legendre nodes and weights are the true ones for every degree",
 "For every degree n >= 1 the sequentially or parallel constructed Gauss-Legendre rule consists of the n roots of the Legendre polynomial P_n and the corresponding Gauss weights, each correct to a few units of double-precision rounding. Consequently the rule integrates every polynomial of degree up to 2n-1 exactly up to rounding.",
 ["inputs"],"every degree n (table region n<=100, asymptotic region n>100, and every node index of each degree)",
 "The existing tests compare a handful of degrees; an error in one entry of the hundreds of tabulated zeros/weights/Bessel values, or at the table/asymptotics boundary, affects single (degree, index) cells that no test evaluates.",
 [L,"src/legendre/bogaert/mod.rs"],["tabulated zeros and weights for degree <= 100","asymptotic expansion in Bessel zeros for degree > 100","mirror symmetry of node index k and n-k+1"])
p("C02","Gauss-Jacobi nodes and weights are the true ones for all n, alpha, beta",
 "For every degree n and all finite alpha, beta > -1 for which the total weight is representable, the Gauss-Jacobi rule consists of the n roots of the Jacobi polynomial with those parameters and its Gauss weights for the weight function (1-x)^alpha (1+x)^beta, up to a small multiple of double-precision rounding relative to the spectral radius and the total weight. Exchanging alpha and beta mirrors the rule about zero.",
 ["inputs"],"all degrees n and all parameter pairs with representable total weight, including alpha+beta = -1, parameters near -1, integers, half integers, strongly skewed and large parameters",
 "Two continuous parameters and a degree: unit tests fix a few (n, alpha, beta) triples and never touch e.g. alpha+beta=-1, where an intermediate formula degenerates.",
 [J,GW,M],["recurrence coefficients handed to the tridiagonal eigenvalue problem","total weight from the gamma function","degree-1 special case","odd-degree middle-node correction"])
p("C03","Gauss-Laguerre nodes and weights are the true ones for all n and alpha",
 "For every degree n and every finite alpha > -1 whose total weight Gamma(alpha+1) is representable, the Gauss-Laguerre rule consists of the n roots of the generalized Laguerre polynomial and its Gauss weights for x^alpha e^-x, up to a small multiple of double-precision rounding relative to the largest node and the total weight.",
 ["inputs"],"all degrees n and all alpha > -1, including alpha near -1 and large alpha",
 "A continuous parameter and a degree; tests sample a few pairs with loose tolerances.",
 [LA,GW,M],["recurrence coefficients","gamma function as total weight","eigenvalue decomposition and sort"])
p("C04","Gauss-Hermite nodes and weights are the true ones for every degree",
 "For every degree n the Gauss-Hermite rule consists of the n roots of the Hermite polynomial H_n and its Gauss weights for e^(-x^2), up to a small multiple of double-precision rounding relative to the largest node and the total weight, and is symmetric about zero to the same accuracy.",
 ["inputs"],"all degrees n",
 "Tests compare a few degrees.",
 [H,GW],["recurrence coefficients","eigenvalue decomposition and sort"])
p("C05","Gauss-Chebyshev rules of both kinds equal their closed forms",
 "For every degree n the first-kind rule has nodes cos((2k-1)pi/(2n)) with weights pi/n and the second-kind rule has nodes cos(k pi/(n+1)) with weights pi/(n+1) sin^2(k pi/(n+1)), k=1..n, in ascending node order and correct to a few units of rounding, whether constructed sequentially or in parallel.",
 ["inputs"],"all degrees n and all node indices",
 "Tests compare a few small degrees.",
 [C,M],["closed-form node and weight expressions","sine/cosine backends"])
p("C06","Newton-Cotes rules sample the right points with the right weights",
 "For every degree n, bounds a, b (in either order or equal, below a quarter of the largest double in magnitude) and integrand, the midpoint, trapezoid and Simpson rules evaluate the integrand exactly once at each composite sample point (n midpoints; n+1 grid points; n+1 grid points plus n cell midpoints) and return the composite-rule weighted sum of those values, up to rounding, unless that sum overflows. This holds for the sequential and the parallel method.",
 ["inputs","schedules"],"all degrees, interval bounds and integrands; all work-splitting schedules for the parallel methods",
 "Tests integrate a few smooth functions with loose tolerances: a lost, duplicated or misweighted sample point at one degree or only in the parallel variant is below those tolerances.",
 NC,["per-cell sampling loops and their end points","parallel splitting into partial sums"])
p("C07","Every Gauss rule is structurally sound for its degree and parameters",
 "Every constructed Gauss rule whose total weight is representable has exactly n nodes in strictly ascending order, finite and inside the integration domain up to rounding, with finite non-negative weights that sum to the total mass of the weight function, and it reports the degree and parameters it was built with. The same holds for the parallel constructors.",
 ["inputs"],"all rule families, degrees and parameters with representable total weight",
 "The invariant is universally quantified over families, degrees and parameters; tests check sortedness for a few strided degrees.",
 RULES+[GW,D],["pair construction and sort","total-weight scale factor","degree/alpha/beta accessors"])
p("C08","Sequential integration is the weighted sum over the mapped nodes",
 "integrate calls the integrand exactly once for each node, at that node mapped affinely from [-1,1] to the given bounds (unmapped for Laguerre and Hermite), and returns half the signed interval length times the sum of integrand values times weights (unscaled for Laguerre and Hermite), up to rounding. This includes reversed, degenerate, tiny and huge intervals (bounds below a quarter of the largest double in magnitude) and stateful integrands.",
 ["inputs","histories"],"all rules, interval bounds below a quarter of the largest double and all integrands including stateful ones",
 "Tests integrate a few smooth functions where errors cancel by symmetry, and never observe which points were evaluated.",
 RULES,["argument transformation","scale factor","summation over node-weight pairs"])
p("C09","Parallel integration agrees with the sequential one under every schedule",
 "For every rule, bounds, pure integrand, thread-pool size and work-splitting schedule, par_integrate evaluates the integrand at the same points (up to rounding) and the same number of times as integrate, and its result differs from the sequential one only by the rounding of reassociating the same terms.",
 ["schedules","inputs"],"all reduction trees / schedules, pool sizes, rules, bounds and integrands",
 "The scheduler picks the reduction tree; tests run one pool and compare against a loose analytic value.",
 RULES+NC,["fork-join map and sum","separate treatment of end points in the Newton-Cotes rules"])
p("C10","Parallel construction yields the same rule as sequential construction",
 "For every degree, thread-pool size and schedule, a rule constructed with par_new is equal, node for node and weight for weight and in the same order, to the rule constructed with new.",
 ["schedules","inputs"],"all degrees, schedules and pool sizes",
 "Tests compare or sort-check a few degrees in the default pool.",
 [L,C],["indexed parallel map collected in order"])
p("C11","All views of a rule's data agree with each other",
 "For every rule the node iterator, weight iterator, pair iterator, borrowed and owned into-iterators, borrowed slice, boxed slice and reported degree all describe the same sequence of node-weight pairs in the same order, and reading a rule never changes it.",
 ["inputs","histories"],"all families, degrees and interleavings of reads",
 "Implemented by macro per family; tests instantiate a few views on one degree and mostly only count them.",
 [D],["view accessors generated for every rule type"])
p("C12","Iterators honour the double-ended exact-size fused contract",
 "For every iterator type and every interleaving of next, next_back, nth, nth_back, len, size_hint, clone, slice views, count and last, the results are those of consuming a window of the rule's sequence from both ends: no element is lost, repeated or reordered, the remaining length is always exact, clones are independent, and an exhausted iterator stays exhausted.",
 ["histories"],"all operation sequences, skip counts up to the maximum integer, all iterator types and lengths",
 "The number of interleavings is exponential in the length; tests perform single operations on fresh iterators.",
 [D],["iterator adapters delegating to slice and range iterators","overridden nth/nth_back/count/last"],
 [("window","the elements not yet yielded: a contiguous range shrinking from both ends")])
p("C13","Parameter values are always finite and above -1, with exact arithmetic",
 "No public operation (construction, conversion, parsing, checked arithmetic, default, deserialization) ever yields a parameter that is NaN, infinite or <= -1; each accepts precisely the valid values and rejects all others. Construction and conversion preserve the value, and the checked operations return the correctly rounded IEEE result of the operation (powers: within a few units of rounding) whenever that result is valid, and nothing otherwise.",
 ["inputs","histories"],"all 2^64 double bit patterns, all strings, all operand pairs and all chains of checked operations",
 "Tests try about a dozen values; the domain is all bit patterns and their combinations.",
 [D,M],["validating constructor all other paths must go through","derived deserialization","power function backend"],
 [("parameter","a real number in (-1, +inf) represented as a double")])
p("C14","Special-case delegation and rule conversions are faithful",
 "Gauss-Jacobi rules with (alpha,beta) equal to (0,0), (-1/2,-1/2) and (1/2,1/2) are identical to the Legendre and the Chebyshev rules of first and second kind, and converting such a rule to a Jacobi rule keeps every pair and sets exactly those parameters. Fixed-step rules built from a degree directly or by conversion are equal.",
 ["inputs","histories"],"all degrees; parameters at and arbitrarily near the special values including signed zeros; all conversion chains",
 "Tests check the delegation for one degree only.",
 [J,L,C]+NC,["parameter match in the Jacobi constructor","From conversions"])
p("C15","Rules behave as values: clone, comparison, degree change, moves",
 "Clones are equal to and independent of their original, two rules compare equal exactly when their data and parameters are equal, and after any sequence of degree changes a fixed-step rule behaves in every respect like a freshly built rule of the last degree. Handing out iterators or integrals never alters later results.",
 ["histories"],"all sequences of construct, clone, change_degree, compare, convert, integrate and iterate operations",
 "Tests perform one clone and one degree change; the property is about arbitrary histories.",
 NC+RULES+[D],["derived Clone/PartialEq","change_degree"])
p("C16","Serialization round-trips every rule and rejects invalid parameters",
 "With the serialization features enabled, every rule and parameter survives serialization followed by deserialization (text and binary formats, and zero-copy archives) with bit-identical data and parameters, and the restored rule integrates identically. Deserialization from a text or binary document never produces a parameter that the validating constructor would reject.",
 ["inputs","configurations"],"all rules, degrees, parameters and serde documents; rkyv archives written by the crate itself",
 "The repository has no serialization test for these types beyond compiling the derives.",
 RULES+NC+[D],["serde and rkyv derives on the rule and parameter types"])
p("C17","Results do not depend on the enabled feature set",
 "Every rule, integral and parameter operation gives the same result, up to a few units of rounding, whichever math backend and optional features are enabled, and enabling a feature never changes the behaviour of an operation available without it.",
 ["configurations","inputs"],"all feature combinations (libm, std, rayon, serialization features) crossed with rules and parameters",
 "Each test run uses one feature set and never compares two.",
 [M,GW,"Cargo.toml"]+RULES,["cfg-selected math backend functions"])
p("C18","Integrand faults are contained and special values propagate",
 "If the integrand panics at any evaluation, the panic propagates to the caller of integrate or par_integrate and the rule afterwards behaves exactly as before. A NaN returned at a single evaluated point makes the result NaN and an infinite value makes it infinite or NaN, never finite; no value is silently dropped.",
 ["fault_sequences","inputs","schedules"],"every fault position k in every evaluation sequence, every rule, and every thread-pool schedule",
 "No test injects a fault; the fault position quantifier is as large as the rule.",
 RULES+NC,["summation loops","fork-join join of panicking tasks"])
p("C19","Construction and integration terminate without panicking",
 "Every constructor call with any non-zero degree and any valid parameters returns (given enough memory) without panicking or hanging, even for extreme parameters, and no method of a constructed rule or iterator panics of its own accord, including arithmetic overflow at maximal degrees and skip counts.",
 ["inputs"],"all degrees and all valid parameters including subnormal, just above -1, and near the largest double; maximal skip counts",
 "Tests use benign parameters; the eigenvalue iteration's termination depends on the data.",
 RULES+NC+[D,GW],["eigenvalue iteration without iteration bound","index arithmetic","u32 degree arithmetic"])
p("C20","Parameter text form round-trips",
 "Formatting a parameter (plain, lower and upper exponent form) and parsing the text back yields the identical value, and parsing any decimal text yields the correctly rounded double if that is a valid parameter, and otherwise an error that tells malformed text from an out-of-range value.",
 ["inputs"],"all parameter values and all strings",
 "Tests parse six strings.",
 [D],["Display/LowerExp/UpperExp and FromStr implementations"])
p("C21","Operations are deterministic and free of hidden state",
 "Constructing a rule or sequentially integrating with the same arguments always gives bit-identical results, regardless of what was done before, in which thread it runs, or which other rules are being built or used concurrently or are currently in the middle of an integration (nested integration included).",
 ["histories","schedules"],"all histories, thread interleavings and nesting structures",
 "Tests call each operation once in a fresh state.",
 RULES+NC+["src/legendre/bogaert/mod.rs"],["absence of shared mutable state and caches","re-entrancy of integrate"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],x['title'], x['statement'].count('. ')+1)
