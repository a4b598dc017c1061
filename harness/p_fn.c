/* One internal function per compilation (-DFN=k); compiled with -DMISSING when the tree has no such function any more. */
#include <stdint.h>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
const int CAT(have_, FN) =
#ifdef MISSING
        0;
#else
        1;
#endif
#if defined(MISSING)
#define BODY(x) return 0;
#define VBODY(x)
#else
#define BODY(x) return x;
#define VBODY(x) x;
#if FN == 1 || FN == 2 || FN == 3 || FN == 4 || FN == 5 || FN == 6
#include "specfunc.h"
#elif FN <= 9
#include "factorial.h"
#elif FN == 10
#include "binomial.h"
#else
#include "spherical_harmonics.h"
#endif
#endif
#if FN == 1
double p_boys(int n, double x) { BODY(boys_function(n, x)) }
#elif FN == 2
void p_boys_values(double x, int n, double *b) { VBODY(boys_values(x, n, b)) }
#elif FN == 3
void p_gfun(double x, int n, double *g) { VBODY(gfun_derivative_values(x, n, g)) }
#elif FN == 4
double p_bessel(int n, double x) { BODY(modified_bessel_scaled(n, x)) }
#elif FN == 5
double p_sk(int k, double x) { BODY(specfunc_fermi_sk(k, x)) }
#elif FN == 6
double p_dawson(double x) { BODY(Dawsons_Integral(x)) }
#elif FN == 7
double p_fact(int n) { BODY(factorial(n)) }
#elif FN == 8
double p_fratio(int n, int m) { BODY(factorial_ratio(n, m)) }
#elif FN == 9
double p_dfact(int n) { BODY(double_factorial(n)) }
#elif FN == 10
uint64_t p_binom(uint64_t n, uint64_t k) { BODY(binomial(n, k)) }
#elif FN == 11
double p_rsh(int l, int m, const double *k) { BODY(evaluate_real_spherical_harmonic(l, m, k)) }
#elif FN == 12
void p_rsh_array(int l, const double *k, double *a) { VBODY(evaluate_real_spherical_harmonics_array(l, k, a)) }
#endif
