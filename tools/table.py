OTHER = set()
AI = 'abstract interpretation of LLVM IR'
p('C01','No call has undefined behaviour',
 'For every value of every argument (infinities, NaN, zeros, subnormals and the extremes of integer types included), calling a mathematical function of the library with float, double, long double or built-in integer arguments never overflows a signed integer, converts an out-of-range floating value to an integer, divides an integer by zero, shifts by a bad amount, indexes out of bounds or reaches code marked unreachable. The absolute value of the most negative int or long long, and integer powers, gcd, lcm, factorial and the binomial coefficient of arguments whose result is not representable, are excepted.',
 ['inputs'],'all argument values of all supported argument types, in C++11 and C++17','Tests sample about 1200 argument values; an overflow or a conversion out of range needs an extreme argument and usually shows no symptom at run time, though the same call is rejected in a constant expression.',
 ['find_whole.hpp','floor.hpp','pow_integral.hpp','mantissa.hpp','find_exponent.hpp','log.hpp','exp.hpp','gcd.hpp','lcm.hpp'],
 [('range guards before the conversion to an integer','find_whole.hpp'),('threshold tests before whole-part extraction','floor.hpp'),('exponent recursion guards','pow_integral.hpp')],
 AI+' (interval domain), all inputs','A proof over all inputs: each obligation is one entry point over its whole argument space; no reachable event of an undefined kind.')
p('C02','Recursion stays within the default constant-expression depth',
 'For float and double arguments of any value (shape counts of the multivariate log-gamma limited to 20, the gamma function limited to arguments above -150), no call nests deeper than 1024 function calls, so every call terminates; and for arguments of moderate size (logarithm, lgamma and square root in 1e-120..1e120, in float 1e-30..1e30; gamma function in -40..20; the other functions except the incomplete ones, the inverse error function, pow and those built from the logarithm up to 1e120 in magnitude) no deeper than 512, the default limit of the compilers for constant expressions.',
 ['inputs'],'all argument values in float and double, in C++11 and C++17','The depth depends on the magnitude of the argument; tests evaluate a few arguments of moderate size.',
 ['log.hpp','exp.hpp','mantissa.hpp','find_exponent.hpp','sqrt.hpp','tgamma.hpp','incomplete_gamma.hpp','incomplete_beta.hpp'],
 [('range reduction before series and continued fractions','log.hpp'),('iteration caps','gcem_options.hpp'),('power-of-ten strides in exponent search','find_exponent.hpp')],
 AI+' with call-depth tracking','Proof of an upper bound on nested calls for every input.')
p('C03','NaN in, NaN out',
 'A NaN passed as any argument of a floating-point function yields NaN, whatever the other arguments are (infinities and zeros included); the exceptions are min, max and copysign, the predicates and sign function, and a zero integer exponent.',
 ['inputs'],'NaN in each position, every value in the other positions, all three floating types, C++11 and C++17','Tests pass NaN in a single position with one companion value.',
 ['is_nan.hpp','pow.hpp','atan2.hpp','hypot.hpp','fmod.hpp','incomplete_beta.hpp','incomplete_gamma.hpp','erf.hpp','exp.hpp'],
 [('leading NaN test of each function','is_nan.hpp')],AI+' (NaN-tracking interval domain)','Proof for all companion values.')
p('C04','Arguments outside the mathematical domain give NaN',
 'Every argument outside the domain gives NaN: arc sine, arc cosine, inverse hyperbolic tangent and inverse error function beyond [-1,1], inverse hyperbolic cosine below 1, logarithms, square root and inverse square root of negative numbers, log1p below -1, trigonometric functions at infinity, powers of negative numbers to exponents strictly between consecutive integers in [-2,3], remainder by zero or of infinity, incomplete gamma with a negative shape and its inverse for probabilities above one, and the gamma function at negative integers (signed char). This holds for negative or out-of-range integer arguments of the one-argument functions too.',
 ['inputs'],'every value of the excluded region, all floating types and signed integer types','Tests try one or two points of each region.',
 ['acos.hpp','asin.hpp','acosh.hpp','atanh.hpp','log.hpp','log1p.hpp','sqrt.hpp','inv_sqrt.hpp','erf_inv.hpp','pow.hpp','fmod.hpp','sin.hpp','cos.hpp','tan.hpp','incomplete_gamma.hpp','incomplete_gamma_inv.hpp','tgamma.hpp'],
 [('domain test at the head of each function','acos.hpp'),('negative-argument test before conversion','log.hpp')],AI+' (interval domain)','Proof over the whole region.')
p('C05','Limit points and infinities give the exact limit',
 'At zero of either sign, one, minus one and both infinities each function returns its exact limit (for example exp(-inf)=0, tanh(inf)=1, log(0)=-inf, erf(-inf)=-1, inv_sqrt(0)=inf; arc functions a few ulps from multiples of pi/2; log-gamma at 1 and 2 within 1e-13, 1e-5 in float). The same holds along whole edges: hypot with any infinite leg is infinite, x^0=1 for every x with an integer exponent, atan2(y,0) is plus or minus pi/2 for every y, the regularised incomplete functions are 0 and 1 at the ends of the range for every shape, remainder of zero is zero.',
 ['inputs'],'the limit points of each function, with a full range for the other arguments, all floating types','Tests fix the companion argument; special-case branches are reached by a handful of points.',
 ['exp.hpp','log.hpp','tanh.hpp','erf.hpp','hypot.hpp','atan2.hpp','inv_sqrt.hpp','incomplete_gamma.hpp','incomplete_beta.hpp','lgamma.hpp','pow_integral.hpp'],
 [('special-case branches ahead of the general algorithm','exp.hpp'),('neg-zero and limit handling','neg_zero.hpp')],AI+' (interval domain)','Proof at each listed point or edge.')
TM_ = AI+' in the Taylor-model domain (rigorous rounding-error and truncation bounds)'
ANOTE = 'A proof for every argument of the stated box: the implementation and the exact function are both enclosed by Taylor models with rigorous remainders and adaptive subdivision.'
AWHY = 'Accuracy is a statement about every argument of a continuum; tests compare a few dozen points with std functions. A wrong coefficient, threshold or iteration count in a branch no test point falls into goes unnoticed.'
p('C08','Exponential, logarithm, root and power are accurate over their range',
 'In double and long double (float in parentheses): exp on [-708,709] is within 1e-11 relative (1e-5 on [-87,88]; in long double also within 1e-10 on [709,1200] and near 5000, 11300 and -11300), expm1 there within 1e-10 relative (1e-4), log on the whole normal double (float) range within 1e-11(1+|log|) (1e-5; long double [1e-250,1e250]), log2 and log10 there and log1p above -0.999999 (-0.9999) up to the largest double (long double 1e200) within 1e-10(1+|f|) (1e-4), sqrt and inv_sqrt on [1e-6,1e8] within 1e-10 and on the decades up to 1e308 and down to 1e-300 within 1e-9 relative (1e-4 on all normal floats). pow for a base in [0.01,100] and a real exponent in [-10,10] is within 1e-8 relative (1e-3 for [0.1,10], [-5,5]); hypot for legs of magnitude [0.01,100], or of very large or small magnitude (1e-150, 1e150, 1e300), within 1e-9 relative (1e-3).',
 ['inputs'],'every argument of the stated intervals, three floating types, C++11 and C++17',AWHY,
 ['exp.hpp','expm1.hpp','log.hpp','log1p.hpp','log2.hpp','log10.hpp','sqrt.hpp','inv_sqrt.hpp','pow.hpp','hypot.hpp','mantissa.hpp','find_exponent.hpp'],
 [('whole/fraction split and continued fraction','exp.hpp'),('mantissa/exponent split and series','log.hpp'),('Newton iteration with rescaling','sqrt.hpp')],TM_,ANOTE)
p('C09','Trigonometric and arc functions are accurate over their range',
 'In double and long double (float in parentheses): sine on [-100,100] ([-30,30]), cosine on |x|<60 except within 0.002 of odd multiples of pi (|x|<15, 0.05), tangent on [-1.5,1.5], arc tangent on |x| up to 1e300 (1e38), arc sine and arc cosine on [-0.99,0.99] are within 1e-10(1+|f|) (1e-4) of the exact value; sine and cosine on sample periods around 100, 1000, 1e5 and 1e6 within 1e-9(1+|f|) (1e-3, around 30 and 1000 and [16,21]), tangent on [1.5,1.57], [1.58,3], [4,4.7] (and [100,100.5]), arc sine and arc cosine up to |x| of 0.9999999 (0.999) within 1e-8(1+|f|) (tangent 1e-2, others 1e-3); and two-argument arc tangent with both arguments of magnitude [0.01,100] in all four quadrants within 1e-9 (1e-3).',
 ['inputs'],'every argument of the stated intervals, three floating types, C++11 and C++17',AWHY,
 ['sin.hpp','cos.hpp','tan.hpp','atan.hpp','asin.hpp','acos.hpp','atan2.hpp'],
 [('half-angle tangent and continued fraction with reduction modulo pi','tan.hpp'),('argument ranges of the arc tangent series','atan.hpp'),('quadrant selection','atan2.hpp')],TM_,ANOTE)
p('C10','Hyperbolic functions and their inverses are accurate over their range',
 'In double and long double (float in parentheses): hyperbolic sine and cosine on [-708,708] ([-87,87]) are within 1e-10 relative (1e-4; below |x|=2 the sine within an extra 1e-13 absolute, 1e-5), hyperbolic tangent on [-1000,1000], inverse sine for |x| up to 1e200 (3e38), inverse cosine on [1.001,1e200] (3e38) and inverse tangent on [-0.999,0.999] within 1e-10(1+|f|) (1e-4), inverse tangent up to |x| of 0.9999999 (0.9999) and inverse cosine from 1.000001 (1.0001) within 1e-8(1+|f|) (1e-3, 1e-2).',
 ['inputs'],'every argument of the stated intervals, three floating types, C++11 and C++17',AWHY,
 ['sinh.hpp','cosh.hpp','tanh.hpp','asinh.hpp','acosh.hpp','atanh.hpp','exp.hpp','log.hpp','sqrt.hpp'],
 [('exponential identities','sinh.hpp'),('continued fraction and saturation','tanh.hpp'),('logarithmic identities with a large-argument form','asinh.hpp')],TM_,ANOTE)
p('C11','Error, gamma and beta functions are accurate over their range',
 'In double and long double (float in parentheses): the error function on [-26,26] (float and long double to 9) is within 1e-11(1+|f|) (5e-3), log-gamma on [0.01,1e300] within 1e-10(1+|f|) (3e-5 up to 10000, 1e-4 up to 1e30), gamma on [0.1,20] and in the middle four fifths of the unit intervals between -11 and 0 within 1e-8 relative (1e-3), on [20,168] within 2e-7 ([20,34], 1e-3), factorial of a floating argument on [-0.9,19] within 1e-8 relative (1e-3). Beta and log-beta for arguments in [0.5,20] (long double [1,8]) are within 1e-8 (5e-3), log binomial coefficients for n in [21,60], k in [1,20] within 1e-7 (1e-2), multivariate log-gamma of order 1, 2, 3 and 5 on [3,30] within 1e-8 (1e-3).',
 ['inputs'],'every argument of the stated intervals and boxes, three floating types, C++11 and C++17',AWHY,
 ['erf.hpp','lgamma.hpp','tgamma.hpp','beta.hpp','lbeta.hpp','lmgamma.hpp','log_binomial_coef.hpp'],
 [('continued fractions for small, medium and large argument','erf.hpp'),('Lanczos coefficients','lgamma.hpp'),('reflection and recursion','tgamma.hpp')],TM_,ANOTE)
p('C22','Incomplete gamma and beta functions are accurate over their range',
 'The regularised lower incomplete gamma function in double (shape any value of [0.5,9.9] with argument in [0.1,12]; shapes from 0.5 to 1200 on a grid with arguments within 3.5 standard deviations below and 4 above the shape, up to shape+30 for small shapes) is within 1e-6 of the exact value, and the regularised incomplete beta function with shapes in {0.5,1,2,5,10} x {0.5,1,2,5,10,30} and argument in [0.02,0.98] likewise; float (shapes up to 9 and 5) within 1e-2, long double on a coarser grid within 1e-6.',
 ['inputs'],'every last argument of the stated intervals (and every shape of the stated box), three floating types, C++11 and C++17',AWHY,
 ['incomplete_gamma.hpp','incomplete_beta.hpp','include/gcem_incl/quadrature/gauss_legendre_50.hpp','lgamma.hpp'],
 [('continued fraction, series and quadrature selected by shape and argument','incomplete_gamma.hpp'),('Lentz continued fraction','incomplete_beta.hpp'),('quadrature nodes and weights','include/gcem_incl/quadrature/gauss_legendre_50.hpp')],TM_,ANOTE+' The shape parameters of the large-shape part are a grid, not a continuum.')
REL = 'relational abstract interpretation of LLVM IR (symbolic value numbering), all inputs'
p('C06','Every in-domain call can be evaluated in a constant expression',
 'For every argument of the stated domains no step of the computation is one that a compiler rejects in a constant expression: no invalid operation producing NaN, no overflow of finite operands, no floating or integer division by zero, no undefined behaviour. Domains, float and double: all finite values for abs, rounding functions, atan, erf, tanh, asinh (sqrt non-negative, acosh from 1, logarithms and inv_sqrt all positive normal values, log1p above -0.999999, -0.9999 in float); exp and expm1 up to 708 (87), sinh and cosh to |x| of 707 (86); asin, acos, atanh on |x| up to 0.999999 (0.9999); sin, cos, tan on [-100,100]; lgamma from the smallest normal value to 1e30, tgamma on [0.01,30]; atan2 with arguments zero or of magnitude 1e-150 to 1e150 (1e-18 to 1e18); fmod with |x| up to 1e6 and |y| in [0.1,1e6]; pow, hypot, beta, lbeta, lmgamma, log_binomial_coef, the incomplete functions and the inverse functions on the boxes of the accuracy properties. Long double: the same for functions not built on exp, log or sqrt, the boxes of the accuracy properties for the others.',
 ['inputs'],'every argument of the stated domains, three floating types, C++11 and C++17','The test suite evaluates a few dozen compile-time points; an intermediate overflow or 0/0 at another argument makes the program ill-formed although the run-time result may even be right.',
 ['atan.hpp','erf.hpp','exp.hpp','log.hpp','sqrt.hpp','lgamma.hpp','tan.hpp','hypot.hpp','atan2.hpp','gcem_options.hpp'],
 [('range reduction that keeps intermediates finite','exp.hpp'),('saturation before squares and powers overflow','erf.hpp'),('rescaling','hypot.hpp')],AI+' (intervals and Taylor models) with a monitor for inadmissible operations','Proof for every argument of the stated domains, conditional on the accuracy contracts decided by C08, C09, C11, C22 and C23.')
p('C07','Results stay inside the range of the function',
 'For every argument, infinities included, results lie in the range of the mathematical function up to rounding and are not NaN: arc cosine in [0,pi], arc sine (float, double) and arc tangent in [-pi/2,pi/2] (and at a magnitude of 1e6 and more within 1e-4 of the limit), two-argument arc tangent of finite arguments in [-pi,pi], tanh in [-1,1] and within 2e-6 of the limit from magnitude 20 on, abs, sqrt, inv_sqrt and hypot (float, double) not negative. In float and double exp above 80 (690) is at least 1e34 (1e299) and below -80 (-690) at most 1e-34 (1e-299) and not negative, sinh and cosh beyond magnitude 80 (600) exceed 1e34 (1e260) in magnitude with the right sign. In float also exp is never negative, expm1 at least -1, cosh at least 1, log of a non-negative number never NaN, erf beyond 6 within 0.01 of the limit, lgamma above 1e4 at least 5e4.',
 ['inputs'],'all argument values, three floating types, C++11 and C++17','The extremes of a range are approached at arguments tests do not sample: just before saturation thresholds, at huge magnitudes, at subnormals.',
 ['acos.hpp','asin.hpp','atan.hpp','atan2.hpp','tanh.hpp','sqrt.hpp','hypot.hpp','exp.hpp','sinh.hpp','cosh.hpp','erf.hpp'],
 [('saturation branches','tanh.hpp'),('overflow handling','exp.hpp'),('quadrant offsets','atan2.hpp')],AI+' (intervals; Taylor models for tails)','Proof over the whole argument range.')
p('C12','Rounding functions are exact; remainders follow the sign of the dividend',
 'floor, ceil, trunc and round return exactly the integer their definition prescribes (round half away from zero) for every finite float, double and long double, and keep infinities. fmod agrees with the exact remainder (sign of the dividend) within 1e-12(1+|f|) (1e-4 in float) for divisors 1, 3, 0.75, 10 and 1000 of either sign and quotients below 12 (4 in float and long double) outside a margin of 1e-6 (1e-3) of a period around exact multiples, and on several boxes with a varying divisor within 1e-11.',
 ['inputs'],'every finite argument (rounding), every dividend of the stated intervals (remainder)','Halfway cases, values next to an integer, values beyond 2^52 and subnormals are each a thin set that tests touch at a point or two.',
 ['floor.hpp','ceil.hpp','trunc.hpp','round.hpp','fmod.hpp','find_whole.hpp','find_fraction.hpp'],
 [('whole part by conversion to an integer, with a threshold above which values are integral','floor.hpp'),('comparison of the fraction with one half','round.hpp'),('quotient truncation','fmod.hpp')],AI+' in an exact integer-plus-fraction domain; Taylor models for the remainder','Proof for every finite value (rounding) and every dividend of the stated boxes.')
p('C13','Odd, even and symmetric functions are exactly so',
 'Bit-exact symmetries: sin, tan, atan, asin, sinh, tanh, asinh, erf and erf_inv are odd, cos, cosh and abs even, for every non-zero argument of the domain (infinity included); hypot does not depend on the sign of either argument, nor on the order of positive normal arguments; atan2 is odd in its first argument for normal arguments; beta and lbeta are symmetric for positive normal arguments.',
 ['inputs'],'every argument of the domain, three floating types, C++11 and C++17','Equality at x and -x is a relation over all x; the tests check some functions at a few negative points with a tolerance.',
 ['sin.hpp','cos.hpp','tan.hpp','atan.hpp','asin.hpp','sinh.hpp','cosh.hpp','tanh.hpp','asinh.hpp','erf.hpp','erf_inv.hpp','hypot.hpp','atan2.hpp','beta.hpp','lbeta.hpp'],
 [('sign split before the general algorithm','atan.hpp'),('magnitude first','hypot.hpp')],REL,'Proof that both evaluations have the same symbolic value up to sign.')
p('C14','The language standard does not change results',
 'Each function returns the same bits under C++11, 14, 17 and 20 for every argument, although several have separate C++11 bodies: exp, log (float, double), erf, tanh, and every function built on them, for all floating and integer argument types. The arc tangent family is only required to be the same under C++14, 17 and 20, and functions that use the long double logarithm are compared given the same logarithm.',
 ['inputs','configurations'],'all argument values, all argument types, four language standards','Test programs are built for one standard at a time and compared with a tolerance; nothing compares the two implementations with each other.',
 ['exp.hpp','log.hpp','erf.hpp','tanh.hpp','tan.hpp','gcem_options.hpp'],
 [('separate C++11 recursion and C++14 loop','exp.hpp'),('separate C++11 recursion and C++14 loop','erf.hpp')],REL,'Proof that both bodies compute the same symbolic value.')
p('C15','Integer and mixed arguments behave as if converted to double',
 'Calling a function with integer arguments of any type (or with one integer and one double, two different integer types, a float and a double) returns exactly what it returns for the same values converted to double beforehand: all unary functions except abs, atan2, beta, fmod, hypot, incomplete_gamma, incomplete_gamma_inv, lbeta, log_binomial_coef, lmgamma, incomplete_beta and its inverse, pow with a double exponent; max and min for float with double (max and min of mixed types with integers return what the arguments converted to the common type give). An integer with a float counts as a float, and any type with long double as long double; incomplete_beta and its inverse take mixed triples.',
 ['inputs'],'every value of eleven integer types (char included), paired with every double and, for fourteen type pairs, with every value of another integer type','The tests use int literals for a few functions only; other widths, unsigned types and mixed calls are not exercised.',
 ['gcem_options.hpp','log.hpp','sqrt.hpp','atan2.hpp','hypot.hpp','lbeta.hpp','beta.hpp','fmod.hpp','incomplete_gamma.hpp','pow.hpp'],
 [('return_t and common_return_t promotion','gcem_options.hpp'),('conversion in the public wrapper','hypot.hpp')],REL,'Proof over every value of the integer types.')
p('C16','Result types, noexcept and constexpr closure of the whole interface',
 'For all combinations of fourteen arithmetic argument types: functions return double for integer arguments and otherwise the (common) argument type; abs and factorial return the argument type; max, min, pow, gcd, lcm and binomial_coef the common type, sgn int, signbit bool, copysign its first type, lmgamma the promoted first type. Every function compiles for every combination. Every call is noexcept, usable in constant expressions with g++ and clang++ under C++11, 14, 17 and 20, and everything it can reach is constexpr, reads constants only and does not distinguish compile-time from run-time evaluation, so both give the same value.',
 ['inputs','configurations'],'all argument type combinations, two compilers, four standards, every reachable function','Tests convert results to the expected type before comparing and use one compiler; a branch that calls a non-constexpr helper is only noticed when that branch is evaluated at compile time.',
 ['gcem_options.hpp','incomplete_gamma.hpp','include/gcem_incl/quadrature/gauss_legendre_50.hpp','signbit.hpp','pow.hpp','max.hpp'],
 [('return_t, common_t, common_return_t','gcem_options.hpp'),('constexpr on every helper','incomplete_gamma.hpp')],'compile-time witnesses (static_assert, constexpr) and a reachability query over the clang syntax tree','Types, noexcept and constexpr closure are decided for all; usability in a constant expression at every argument is C06.')
p('C17','Every function is pure',
 'No function reads or writes mutable global state, stores outside its own frame, uses volatile or atomic accesses or assembly, calls into another library or the run-time system, or throws: a result depends on the arguments only, whatever other threads do.',
 ['inputs','schedules'],'every function reachable from every entry point, all argument types, C++11 and C++17','Purity is a statement about all paths; a cache or a call to the C maths library passes every value test.',
 ['gcem_options.hpp','signbit.hpp','incomplete_gamma.hpp'],[('header-only templates without state','gcem_options.hpp')],'reachability analysis over the LLVM IR call graph with an effect rule','Effects of every reachable instruction are classified.')
p('C18','Powers with an integer exponent are correct',
 'pow(x,n) with n of any integer type is within 1e-10 relative (1e-2 in float) of the exact power for |x| in [0.2,5] and n among 1 to 10, 13, 15 to 17, 21, 31, 32 and negative counterparts to -8 and -13 (a shorter list for narrow types), for every n from 11 to 128 (100 in float) and its negative with |x| in [0.5,2] up to 40 and [0.8,1.25] above, for |x| within 0.01 of 1 and |n| of 100, 1000 or (0.001) 10000, for the bases 2, -2, 10, -10, 0.5 and 3 over the whole exponent range with a finite normal result, and (within 1e-2) for exponents up to 2^40+2^33 with bases within 0.5/|n| of 1; powers of 1 are exactly 1 for every exponent, non-negative powers of -1 lie in [-1,1], and pow(x,1), pow(x,2), pow(x,3) are exactly the (rounded) product for every x. With integer base and exponent 0 to 20 the result is exactly the product, for every base whose power is representable (every base modulo 2^w for unsigned types); with base and exponent of different integer types (exponent 0 to 6) it is the product in their common type.',
 ['inputs'],'every base of the stated intervals for each exponent; every integer base for exponents 0 to 20','Square-and-multiply goes wrong for particular exponent bit patterns, signs and types; tests use three or four exponents.',
 ['pow_integral.hpp','pow.hpp','is_odd.hpp'],[('square-and-multiply','pow_integral.hpp'),('reciprocal for negative exponents','pow_integral.hpp')],TM_+' and symbolic value numbering for integers','Proof for every base; the exponents are a list.')
p('C19','Greatest common divisors, multiples, factorials, binomials are exact',
 'gcd and lcm equal their definition for all integers in [-40,40] ([-12,12] for floating types) and for pairs of large values (floating types: integers up to 2^24, 2^53, 2^62) with a representable multiple, lcm(a,1)=a, gcd(a,d) lies in [1,d] for d of 2, 3, 5 and 7, gcd(a,0)=gcd(0,a)=a, gcd(a,1)=1, lcm(a,0)=0 for every non-negative a, and gcd is never negative; factorial is exact wherever it fits its type, binomial coefficients are exact for n up to 33 (32-bit) and 40 (64-bit) and 24 (floating); in 8- and 16-bit types factorials and binomial coefficients (n up to 9 and 17) that fit and gcd and lcm on [-11,11] are exact; and n choose 0 is 1 for every n.',
 ['inputs'],'all pairs of the stated boxes, all values on the edges','The tables are finite but far larger than the handful of values tests compare; the identities quantify over whole types.',
 ['gcd.hpp','lcm.hpp','factorial.hpp','binomial_coef.hpp'],[('Euclidean recursion','gcd.hpp'),('table and recursion','factorial.hpp'),('multiplicative recursion','binomial_coef.hpp')],AI+' (interval domain), subdivided to points on the boxes','Complete on the boxes and edges; nothing is claimed for other large arguments.')
p('C20','Selection and sign functions pick exactly the right argument',
 'max and min return one of their arguments unchanged: the larger or smaller one (either when they compare equal), for every ordered pair of every floating and integer type. abs returns x or -x unchanged (and +0 for either zero; most negative integers excluded), sgn is -1, 0 or 1, signbit the sign bit of every value including zeros and infinities, copysign the magnitude of the first with the sign of the second argument, zeros included.',
 ['inputs'],'every pair of arguments of fourteen types','Tests compare a few ordered pairs of int and double; signed zeros, infinities and narrow types are not covered.',
 ['max.hpp','min.hpp','abs.hpp','sgn.hpp','signbit.hpp','copysign.hpp'],[('comparison and selection','max.hpp'),('sign bit builtin','signbit.hpp')],REL,'Proof for every pair under each assumed order.')
p('C21','The header is hygienic and its options work',
 'gcem.hpp can be included first, twice, before or after the maths headers, with function-like macros abs, min, max, round or signbit defined, and in several translation units of one program (nothing non-inline with external linkage, no mutable variable); it declares nothing outside namespace gcem, leaves no macro behind but GCEM_ ones and undefines only those five. The iteration and tolerance macros (ERF, ERF_INV, EXP, LOG small, INCML_BETA and its inverse and tolerance, INCML_GAMMA and its inverse, SQRT, INV_SQRT, TANH) can be set before inclusion and then take effect in the function they name. The mathematical constants are right to long double precision.',
 ['configurations'],'all include orders listed, all options, both compilers, four standards','Tests include the header once per program, with default options.',
 ['gcem_options.hpp','include/gcem.hpp'],[('#ifndef around each option','gcem_options.hpp'),('include guard','include/gcem.hpp')],'syntax-tree, preprocessor and IR queries with compile-time witnesses','Decides linkage, names, macros and reachability of each option; not the numerical effect of an option.')
p('C23','Inverse error, gamma and beta functions invert accurately',
 'The exact forward function, applied to the computed inverse, gives back the probability: erf_inv within 1e-9 for |p| up to 0.99999 in double and 0.99 in long double (1e-3, |p| up to 0.95, in float); incomplete_gamma_inv within 2e-5 in double for shapes 0.5 (p in [0.3,0.95]), 1, 2, 3, 5 and 9 (p in [0.05,0.95]), in long double for shape 2, in float within 2e-2 for shape 2 and p in [0.1,0.9]; incomplete_beta_inv within 2e-5 in double for shapes (2,2), (5,2), (2,5), (0.5,0.5), (10,5) and in long double, within 2e-2 in float, for (2,2), p in [0.2,0.8].',
 ['inputs'],'every probability of the stated intervals, three floating types, C++11 and C++17','Tests invert a few probabilities; a Halley step that is slightly wrong still converges near them.',
 ['erf_inv.hpp','incomplete_gamma_inv.hpp','incomplete_beta_inv.hpp','erf.hpp','incomplete_gamma.hpp','incomplete_beta.hpp'],[('initial value and Halley iteration','erf_inv.hpp'),('initial value and Halley iteration','incomplete_gamma_inv.hpp'),('initial value and Halley iteration','incomplete_beta_inv.hpp')],TM_+' with the error of each iteration round named by a variable',ANOTE+' The shapes are a list.')
p('C24','The quadrature tables are exact',
 'The Gauss-Legendre tables hold the n nodes and weights of the exact n-point rule, each to within 1e-19: distinct nodes inside (-1,1), positive weights, and the rule integrates every monomial of degree below 2n over [-1,1] with an error below 1e-17, for n=50 and n=30.',
 ['inputs'],'every polynomial of degree below 2n (by linearity, all monomials)','A wrong digit in one of 160 table entries changes incomplete gamma values by less than any test tolerance, or only for shapes no test uses.',
 ['include/gcem_incl/quadrature/gauss_legendre_50.hpp','include/gcem_incl/quadrature/gauss_legendre_30.hpp','incomplete_gamma.hpp'],[('node and weight tables','include/gcem_incl/quadrature/gauss_legendre_50.hpp')],'exact rational evaluation of the constant tables found in the IR','Complete: the tables are data and all moments are computed exactly.')
