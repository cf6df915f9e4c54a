// written by tools/gen_flintwrap.py
#include <flint/fmpz.h>
#include <flint/fmpq.h>
#include <flint/fmpz_poly.h>
#include <flint/fmpq_poly.h>
#include <flint/mag.h>
#include <flint/arf.h>
#include <flint/arb.h>
#include <flint/nf.h>
#include <flint/nf_elem.h>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TRACED 1
#endif
#endif
extern "C" {
#ifdef TRACED
void __tsan_read8(void*);
void __tsan_write8(void*);
#define RD(x) __tsan_read8((void*)(x))
#define WR(x) __tsan_write8((void*)(x))
#else
#define RD(x) (void)(x)
#define WR(x) (void)(x)
#endif
void __real_arb_abs(arb_t a0, const arb_t a1); void __wrap_arb_abs(arb_t a0, const arb_t a1) { RD(a1); WR(a0); return __real_arb_abs(a0, a1); }
void __real_arb_acos(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_acos(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_acos(a0, a1, a2); }
void __real_arb_acosh(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_acosh(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_acosh(a0, a1, a2); }
void __real_arb_add_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_add_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_add_arf(a0, a1, a2, a3); }
void __real_arb_add_error(arb_t a0, const arb_t a1); void __wrap_arb_add_error(arb_t a0, const arb_t a1) { RD(a1); WR(a0); return __real_arb_add_error(a0, a1); }
void __real_arb_add_error_2exp_fmpz(arb_t a0, const fmpz_t a1); void __wrap_arb_add_error_2exp_fmpz(arb_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_arb_add_error_2exp_fmpz(a0, a1); }
void __real_arb_add_error_2exp_si(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_add_error_2exp_si(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_add_error_2exp_si(a0, a1); }
void __real_arb_add_error_arf(arb_t a0, const arf_t a1); void __wrap_arb_add_error_arf(arb_t a0, const arf_t a1) { RD(a1); WR(a0); return __real_arb_add_error_arf(a0, a1); }
void __real_arb_add_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3); void __wrap_arb_add_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_add_fmpz(a0, a1, a2, a3); }
void __real_arb_add_fmpz_2exp(arb_t a0, const arb_t a1, const fmpz_t a2, const fmpz_t a3, mp_limb_signed_t a4); void __wrap_arb_add_fmpz_2exp(arb_t a0, const arb_t a1, const fmpz_t a2, const fmpz_t a3, mp_limb_signed_t a4) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_arb_add_fmpz_2exp(a0, a1, a2, a3, a4); }
void __real_arb_add_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3); void __wrap_arb_add_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_add_si(a0, a1, a2, a3); }
void __real_arb_add_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_add_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_add_ui(a0, a1, a2, a3); }
void __real_arb_addmul(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_addmul(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_addmul(a0, a1, a2, a3); }
void __real_arb_addmul_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_addmul_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_addmul_arf(a0, a1, a2, a3); }
void __real_arb_addmul_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3); void __wrap_arb_addmul_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_addmul_fmpz(a0, a1, a2, a3); }
void __real_arb_addmul_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3); void __wrap_arb_addmul_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_addmul_si(a0, a1, a2, a3); }
void __real_arb_addmul_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_addmul_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_addmul_ui(a0, a1, a2, a3); }
void __real_arb_agm(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_agm(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_agm(a0, a1, a2, a3); }
void __real_arb_approx_dot(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, arb_srcptr a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8); void __wrap_arb_approx_dot(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, arb_srcptr a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8) { RD(a1); WR(a0); return __real_arb_approx_dot(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_arb_asin(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_asin(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_asin(a0, a1, a2); }
void __real_arb_asinh(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_asinh(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_asinh(a0, a1, a2); }
void __real_arb_atan(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_atan(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_atan(a0, a1, a2); }
void __real_arb_atan2(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_atan2(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_atan2(a0, a1, a2, a3); }
void __real_arb_atan_arf(arb_t a0, const arf_t a1, mp_limb_signed_t a2); void __wrap_arb_atan_arf(arb_t a0, const arf_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_atan_arf(a0, a1, a2); }
void __real_arb_atan_arf_bb(arb_t a0, const arf_t a1, mp_limb_signed_t a2); void __wrap_arb_atan_arf_bb(arb_t a0, const arf_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_atan_arf_bb(a0, a1, a2); }
void __real_arb_atan_arf_newton(arb_t a0, const arf_t a1, mp_limb_signed_t a2); void __wrap_arb_atan_arf_newton(arb_t a0, const arf_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_atan_arf_newton(a0, a1, a2); }
void __real_arb_atan_frac_bsplit(arb_t a0, const fmpz_t a1, const fmpz_t a2, int a3, mp_limb_signed_t a4); void __wrap_arb_atan_frac_bsplit(arb_t a0, const fmpz_t a1, const fmpz_t a2, int a3, mp_limb_signed_t a4) { RD(a1); RD(a2); WR(a0); return __real_arb_atan_frac_bsplit(a0, a1, a2, a3, a4); }
void __real_arb_atan_newton(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_atan_newton(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_atan_newton(a0, a1, a2); }
void __real_arb_atanh(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_atanh(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_atanh(a0, a1, a2); }
void __real_arb_bell_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_arb_bell_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_bell_fmpz(a0, a1, a2); }
void __real_arb_bell_sum_bsplit(arb_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, mp_limb_signed_t a5); void __wrap_arb_bell_sum_bsplit(arb_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, mp_limb_signed_t a5) { RD(a1); RD(a2); RD(a3); RD(a4); WR(a0); return __real_arb_bell_sum_bsplit(a0, a1, a2, a3, a4, a5); }
void __real_arb_bell_sum_taylor(arb_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, mp_limb_signed_t a5); void __wrap_arb_bell_sum_taylor(arb_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, mp_limb_signed_t a5) { RD(a1); RD(a2); RD(a3); RD(a4); WR(a0); return __real_arb_bell_sum_taylor(a0, a1, a2, a3, a4, a5); }
void __real_arb_bell_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_bell_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_bell_ui(a0, a1, a2); }
void __real_arb_bernoulli_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_arb_bernoulli_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_bernoulli_fmpz(a0, a1, a2); }
void __real_arb_bernoulli_poly_ui(arb_t a0, mp_limb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_bernoulli_poly_ui(arb_t a0, mp_limb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); return __real_arb_bernoulli_poly_ui(a0, a1, a2, a3); }
void __real_arb_bernoulli_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_bernoulli_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_bernoulli_ui(a0, a1, a2); }
void __real_arb_bernoulli_ui_zeta(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_bernoulli_ui_zeta(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_bernoulli_ui_zeta(a0, a1, a2); }
void __real_arb_bin_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_bin_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_bin_ui(a0, a1, a2, a3); }
void __real_arb_bin_uiui(arb_t a0, mp_limb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_bin_uiui(arb_t a0, mp_limb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { WR(a0); return __real_arb_bin_uiui(a0, a1, a2, a3); }
int __real_arb_can_round_arf(const arb_t a0, mp_limb_signed_t a1, arf_rnd_t a2); int __wrap_arb_can_round_arf(const arb_t a0, mp_limb_signed_t a1, arf_rnd_t a2) { RD(a0); return __real_arb_can_round_arf(a0, a1, a2); }
void __real_arb_ceil(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_ceil(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_ceil(a0, a1, a2); }
void __real_arb_chebyshev_t2_ui(arb_t a0, arb_t a1, mp_limb_t a2, const arb_t a3, mp_limb_signed_t a4); void __wrap_arb_chebyshev_t2_ui(arb_t a0, arb_t a1, mp_limb_t a2, const arb_t a3, mp_limb_signed_t a4) { RD(a3); WR(a0); WR(a1); return __real_arb_chebyshev_t2_ui(a0, a1, a2, a3, a4); }
void __real_arb_chebyshev_t_ui(arb_t a0, mp_limb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_chebyshev_t_ui(arb_t a0, mp_limb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); return __real_arb_chebyshev_t_ui(a0, a1, a2, a3); }
void __real_arb_chebyshev_u2_ui(arb_t a0, arb_t a1, mp_limb_t a2, const arb_t a3, mp_limb_signed_t a4); void __wrap_arb_chebyshev_u2_ui(arb_t a0, arb_t a1, mp_limb_t a2, const arb_t a3, mp_limb_signed_t a4) { RD(a3); WR(a0); WR(a1); return __real_arb_chebyshev_u2_ui(a0, a1, a2, a3, a4); }
void __real_arb_chebyshev_u_ui(arb_t a0, mp_limb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_chebyshev_u_ui(arb_t a0, mp_limb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); return __real_arb_chebyshev_u_ui(a0, a1, a2, a3); }
void __real_arb_clear(arb_t a0); void __wrap_arb_clear(arb_t a0) { WR(a0); return __real_arb_clear(a0); }
void __real_arb_const_apery(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_apery(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_apery(a0, a1); }
void __real_arb_const_catalan(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_catalan(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_catalan(a0, a1); }
void __real_arb_const_e(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_e(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_e(a0, a1); }
void __real_arb_const_euler(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_euler(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_euler(a0, a1); }
void __real_arb_const_glaisher(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_glaisher(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_glaisher(a0, a1); }
void __real_arb_const_khinchin(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_khinchin(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_khinchin(a0, a1); }
void __real_arb_const_log10(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_log10(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_log10(a0, a1); }
void __real_arb_const_log2(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_log2(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_log2(a0, a1); }
void __real_arb_const_log_sqrt2pi(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_log_sqrt2pi(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_log_sqrt2pi(a0, a1); }
void __real_arb_const_pi(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_pi(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_pi(a0, a1); }
void __real_arb_const_sqrt_pi(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_const_sqrt_pi(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_const_sqrt_pi(a0, a1); }
int __real_arb_contains_arf(const arb_t a0, const arf_t a1); int __wrap_arb_contains_arf(const arb_t a0, const arf_t a1) { RD(a0); RD(a1); return __real_arb_contains_arf(a0, a1); }
int __real_arb_contains_fmpq(const arb_t a0, const fmpq_t a1); int __wrap_arb_contains_fmpq(const arb_t a0, const fmpq_t a1) { RD(a0); RD(a1); return __real_arb_contains_fmpq(a0, a1); }
int __real_arb_contains_fmpz(const arb_t a0, const fmpz_t a1); int __wrap_arb_contains_fmpz(const arb_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_arb_contains_fmpz(a0, a1); }
int __real_arb_contains_int(const arb_t a0); int __wrap_arb_contains_int(const arb_t a0) { RD(a0); return __real_arb_contains_int(a0); }
int __real_arb_contains_interior(const arb_t a0, const arb_t a1); int __wrap_arb_contains_interior(const arb_t a0, const arb_t a1) { RD(a0); RD(a1); return __real_arb_contains_interior(a0, a1); }
int __real_arb_contains_negative(const arb_t a0); int __wrap_arb_contains_negative(const arb_t a0) { RD(a0); return __real_arb_contains_negative(a0); }
int __real_arb_contains_nonnegative(const arb_t a0); int __wrap_arb_contains_nonnegative(const arb_t a0) { RD(a0); return __real_arb_contains_nonnegative(a0); }
int __real_arb_contains_nonpositive(const arb_t a0); int __wrap_arb_contains_nonpositive(const arb_t a0) { RD(a0); return __real_arb_contains_nonpositive(a0); }
int __real_arb_contains_positive(const arb_t a0); int __wrap_arb_contains_positive(const arb_t a0) { RD(a0); return __real_arb_contains_positive(a0); }
int __real_arb_contains_si(const arb_t a0, mp_limb_signed_t a1); int __wrap_arb_contains_si(const arb_t a0, mp_limb_signed_t a1) { RD(a0); return __real_arb_contains_si(a0, a1); }
int __real_arb_contains_zero(const arb_t a0); int __wrap_arb_contains_zero(const arb_t a0) { RD(a0); return __real_arb_contains_zero(a0); }
void __real_arb_cos(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_cos(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_cos(a0, a1, a2); }
void __real_arb_cos_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_cos_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_cos_pi(a0, a1, a2); }
void __real_arb_cos_pi_fmpq(arb_t a0, const fmpq_t a1, mp_limb_signed_t a2); void __wrap_arb_cos_pi_fmpq(arb_t a0, const fmpq_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_cos_pi_fmpq(a0, a1, a2); }
void __real_arb_cosh(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_cosh(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_cosh(a0, a1, a2); }
void __real_arb_cot(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_cot(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_cot(a0, a1, a2); }
void __real_arb_cot_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_cot_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_cot_pi(a0, a1, a2); }
void __real_arb_coth(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_coth(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_coth(a0, a1, a2); }
void __real_arb_csc(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_csc(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_csc(a0, a1, a2); }
void __real_arb_csc_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_csc_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_csc_pi(a0, a1, a2); }
void __real_arb_csch(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_csch(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_csch(a0, a1, a2); }
void __real_arb_digamma(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_digamma(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_digamma(a0, a1, a2); }
void __real_arb_div_2expm1_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_div_2expm1_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_div_2expm1_ui(a0, a1, a2, a3); }
void __real_arb_div_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_div_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_div_arf(a0, a1, a2, a3); }
void __real_arb_div_arf_newton(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_div_arf_newton(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_div_arf_newton(a0, a1, a2, a3); }
void __real_arb_div_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3); void __wrap_arb_div_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_div_fmpz(a0, a1, a2, a3); }
void __real_arb_div_newton(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_div_newton(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_div_newton(a0, a1, a2, a3); }
void __real_arb_div_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3); void __wrap_arb_div_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_div_si(a0, a1, a2, a3); }
void __real_arb_div_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_div_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_div_ui(a0, a1, a2, a3); }
void __real_arb_dot(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, arb_srcptr a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8); void __wrap_arb_dot(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, arb_srcptr a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8) { RD(a1); WR(a0); return __real_arb_dot(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_arb_dot_fmpz(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, const fmpz * a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8); void __wrap_arb_dot_fmpz(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, const fmpz * a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8) { RD(a1); WR(a0); return __real_arb_dot_fmpz(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_arb_dot_precise(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, arb_srcptr a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8); void __wrap_arb_dot_precise(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, arb_srcptr a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8) { RD(a1); WR(a0); return __real_arb_dot_precise(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_arb_dot_si(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, const mp_limb_signed_t * a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8); void __wrap_arb_dot_si(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, const mp_limb_signed_t * a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8) { RD(a1); WR(a0); return __real_arb_dot_si(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_arb_dot_simple(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, arb_srcptr a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8); void __wrap_arb_dot_simple(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, arb_srcptr a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8) { RD(a1); WR(a0); return __real_arb_dot_simple(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_arb_dot_siui(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, const mp_limb_t * a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8); void __wrap_arb_dot_siui(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, const mp_limb_t * a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8) { RD(a1); WR(a0); return __real_arb_dot_siui(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_arb_dot_ui(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, const mp_limb_t * a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8); void __wrap_arb_dot_ui(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, const mp_limb_t * a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8) { RD(a1); WR(a0); return __real_arb_dot_ui(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_arb_dot_uiui(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, const mp_limb_t * a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8); void __wrap_arb_dot_uiui(arb_t a0, const arb_t a1, int a2, arb_srcptr a3, mp_limb_signed_t a4, const mp_limb_t * a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8) { RD(a1); WR(a0); return __real_arb_dot_uiui(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_arb_doublefac_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_doublefac_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_doublefac_ui(a0, a1, a2); }
char * __real_arb_dump_str(const arb_t a0); char * __wrap_arb_dump_str(const arb_t a0) { RD(a0); return __real_arb_dump_str(a0); }
int __real_arb_eq(const arb_t a0, const arb_t a1); int __wrap_arb_eq(const arb_t a0, const arb_t a1) { RD(a0); RD(a1); return __real_arb_eq(a0, a1); }
void __real_arb_euler_number_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_arb_euler_number_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_euler_number_fmpz(a0, a1, a2); }
void __real_arb_euler_number_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_euler_number_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_euler_number_ui(a0, a1, a2); }
void __real_arb_exp(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_exp(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_exp(a0, a1, a2); }
void __real_arb_exp_arf(arb_t a0, const arf_t a1, mp_limb_signed_t a2, int a3, mp_limb_signed_t a4); void __wrap_arb_exp_arf(arb_t a0, const arf_t a1, mp_limb_signed_t a2, int a3, mp_limb_signed_t a4) { RD(a1); WR(a0); return __real_arb_exp_arf(a0, a1, a2, a3, a4); }
void __real_arb_exp_arf_bb(arb_t a0, const arf_t a1, mp_limb_signed_t a2, int a3); void __wrap_arb_exp_arf_bb(arb_t a0, const arf_t a1, mp_limb_signed_t a2, int a3) { RD(a1); WR(a0); return __real_arb_exp_arf_bb(a0, a1, a2, a3); }
void __real_arb_exp_arf_generic(arb_t a0, const arf_t a1, mp_limb_signed_t a2, int a3); void __wrap_arb_exp_arf_generic(arb_t a0, const arf_t a1, mp_limb_signed_t a2, int a3) { RD(a1); WR(a0); return __real_arb_exp_arf_generic(a0, a1, a2, a3); }
void __real_arb_exp_arf_log_reduction(arb_t a0, const arf_t a1, mp_limb_signed_t a2, int a3); void __wrap_arb_exp_arf_log_reduction(arb_t a0, const arf_t a1, mp_limb_signed_t a2, int a3) { RD(a1); WR(a0); return __real_arb_exp_arf_log_reduction(a0, a1, a2, a3); }
void __real_arb_exp_arf_rs_generic(arb_t a0, const arf_t a1, mp_limb_signed_t a2, int a3); void __wrap_arb_exp_arf_rs_generic(arb_t a0, const arf_t a1, mp_limb_signed_t a2, int a3) { RD(a1); WR(a0); return __real_arb_exp_arf_rs_generic(a0, a1, a2, a3); }
void __real_arb_exp_invexp(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_exp_invexp(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_exp_invexp(a0, a1, a2, a3); }
void __real_arb_expm1(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_expm1(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_expm1(a0, a1, a2); }
void __real_arb_fac_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_fac_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_fac_ui(a0, a1, a2); }
void __real_arb_fib_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_arb_fib_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_fib_fmpz(a0, a1, a2); }
void __real_arb_fib_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_fib_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_fib_ui(a0, a1, a2); }
void __real_arb_floor(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_floor(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_floor(a0, a1, a2); }
void __real_arb_fma(arb_t a0, const arb_t a1, const arb_t a2, const arb_t a3, mp_limb_signed_t a4); void __wrap_arb_fma(arb_t a0, const arb_t a1, const arb_t a2, const arb_t a3, mp_limb_signed_t a4) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_arb_fma(a0, a1, a2, a3, a4); }
void __real_arb_fma_arf(arb_t a0, const arb_t a1, const arf_t a2, const arb_t a3, mp_limb_signed_t a4); void __wrap_arb_fma_arf(arb_t a0, const arb_t a1, const arf_t a2, const arb_t a3, mp_limb_signed_t a4) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_arb_fma_arf(a0, a1, a2, a3, a4); }
void __real_arb_fma_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, const arb_t a3, mp_limb_signed_t a4); void __wrap_arb_fma_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, const arb_t a3, mp_limb_signed_t a4) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_arb_fma_fmpz(a0, a1, a2, a3, a4); }
void __real_arb_fma_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, const arb_t a3, mp_limb_signed_t a4); void __wrap_arb_fma_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, const arb_t a3, mp_limb_signed_t a4) { RD(a1); RD(a3); WR(a0); return __real_arb_fma_si(a0, a1, a2, a3, a4); }
void __real_arb_fma_ui(arb_t a0, const arb_t a1, mp_limb_t a2, const arb_t a3, mp_limb_signed_t a4); void __wrap_arb_fma_ui(arb_t a0, const arb_t a1, mp_limb_t a2, const arb_t a3, mp_limb_signed_t a4) { RD(a1); RD(a3); WR(a0); return __real_arb_fma_ui(a0, a1, a2, a3, a4); }
void __real_arb_fmpz_div_fmpz(arb_t a0, const fmpz_t a1, const fmpz_t a2, mp_limb_signed_t a3); void __wrap_arb_fmpz_div_fmpz(arb_t a0, const fmpz_t a1, const fmpz_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_fmpz_div_fmpz(a0, a1, a2, a3); }
void __real_arb_fmpz_divapprox(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_arb_fmpz_divapprox(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_arb_fmpz_divapprox(a0, a1, a2); }
void __real_arb_fmpz_euler_number_ui(fmpz_t a0, mp_limb_t a1); void __wrap_arb_fmpz_euler_number_ui(fmpz_t a0, mp_limb_t a1) { WR(a0); return __real_arb_fmpz_euler_number_ui(a0, a1); }
void __real_arb_fmpz_euler_number_ui_multi_mod(fmpz_t a0, mp_limb_t a1, double a2); void __wrap_arb_fmpz_euler_number_ui_multi_mod(fmpz_t a0, mp_limb_t a1, double a2) { WR(a0); return __real_arb_fmpz_euler_number_ui_multi_mod(a0, a1, a2); }
void __real_arb_gamma(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_gamma(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_gamma(a0, a1, a2); }
void __real_arb_gamma_fmpq(arb_t a0, const fmpq_t a1, mp_limb_signed_t a2); void __wrap_arb_gamma_fmpq(arb_t a0, const fmpq_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_gamma_fmpq(a0, a1, a2); }
void __real_arb_gamma_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_arb_gamma_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_gamma_fmpz(a0, a1, a2); }
int __real_arb_ge(const arb_t a0, const arb_t a1); int __wrap_arb_ge(const arb_t a0, const arb_t a1) { RD(a0); RD(a1); return __real_arb_ge(a0, a1); }
void __real_arb_get_abs_lbound_arf(arf_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_get_abs_lbound_arf(arf_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_get_abs_lbound_arf(a0, a1, a2); }
void __real_arb_get_abs_ubound_arf(arf_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_get_abs_ubound_arf(arf_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_get_abs_ubound_arf(a0, a1, a2); }
void __real_arb_get_fmpz_mid_rad_10exp(fmpz_t a0, fmpz_t a1, fmpz_t a2, const arb_t a3, mp_limb_signed_t a4); void __wrap_arb_get_fmpz_mid_rad_10exp(fmpz_t a0, fmpz_t a1, fmpz_t a2, const arb_t a3, mp_limb_signed_t a4) { RD(a3); WR(a0); WR(a1); WR(a2); return __real_arb_get_fmpz_mid_rad_10exp(a0, a1, a2, a3, a4); }
void __real_arb_get_interval_arf(arf_t a0, arf_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_get_interval_arf(arf_t a0, arf_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_get_interval_arf(a0, a1, a2, a3); }
void __real_arb_get_interval_fmpz_2exp(fmpz_t a0, fmpz_t a1, fmpz_t a2, const arb_t a3); void __wrap_arb_get_interval_fmpz_2exp(fmpz_t a0, fmpz_t a1, fmpz_t a2, const arb_t a3) { RD(a3); WR(a0); WR(a1); WR(a2); return __real_arb_get_interval_fmpz_2exp(a0, a1, a2, a3); }
void __real_arb_get_lbound_arf(arf_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_get_lbound_arf(arf_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_get_lbound_arf(a0, a1, a2); }
void __real_arb_get_mag_lower(mag_t a0, const arb_t a1); void __wrap_arb_get_mag_lower(mag_t a0, const arb_t a1) { RD(a1); WR(a0); return __real_arb_get_mag_lower(a0, a1); }
void __real_arb_get_mag_lower_nonnegative(mag_t a0, const arb_t a1); void __wrap_arb_get_mag_lower_nonnegative(mag_t a0, const arb_t a1) { RD(a1); WR(a0); return __real_arb_get_mag_lower_nonnegative(a0, a1); }
char * __real_arb_get_str(const arb_t a0, mp_limb_signed_t a1, mp_limb_t a2); char * __wrap_arb_get_str(const arb_t a0, mp_limb_signed_t a1, mp_limb_t a2) { RD(a0); return __real_arb_get_str(a0, a1, a2); }
void __real_arb_get_ubound_arf(arf_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_get_ubound_arf(arf_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_get_ubound_arf(a0, a1, a2); }
int __real_arb_get_unique_fmpz(fmpz_t a0, const arb_t a1); int __wrap_arb_get_unique_fmpz(fmpz_t a0, const arb_t a1) { RD(a1); WR(a0); return __real_arb_get_unique_fmpz(a0, a1); }
void __real_arb_hurwitz_zeta(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_hurwitz_zeta(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_hurwitz_zeta(a0, a1, a2, a3); }
void __real_arb_hypot(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_hypot(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_hypot(a0, a1, a2, a3); }
void __real_arb_indeterminate(arb_t a0); void __wrap_arb_indeterminate(arb_t a0) { WR(a0); return __real_arb_indeterminate(a0); }
int __real_arb_intersection(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); int __wrap_arb_intersection(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_intersection(a0, a1, a2, a3); }
int __real_arb_is_finite(const arb_t a0); int __wrap_arb_is_finite(const arb_t a0) { RD(a0); return __real_arb_is_finite(a0); }
int __real_arb_is_negative(const arb_t a0); int __wrap_arb_is_negative(const arb_t a0) { RD(a0); return __real_arb_is_negative(a0); }
int __real_arb_is_nonnegative(const arb_t a0); int __wrap_arb_is_nonnegative(const arb_t a0) { RD(a0); return __real_arb_is_nonnegative(a0); }
int __real_arb_is_nonpositive(const arb_t a0); int __wrap_arb_is_nonpositive(const arb_t a0) { RD(a0); return __real_arb_is_nonpositive(a0); }
int __real_arb_is_nonzero(const arb_t a0); int __wrap_arb_is_nonzero(const arb_t a0) { RD(a0); return __real_arb_is_nonzero(a0); }
int __real_arb_is_positive(const arb_t a0); int __wrap_arb_is_positive(const arb_t a0) { RD(a0); return __real_arb_is_positive(a0); }
void __real_arb_lambertw(arb_t a0, const arb_t a1, int a2, mp_limb_signed_t a3); void __wrap_arb_lambertw(arb_t a0, const arb_t a1, int a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_lambertw(a0, a1, a2, a3); }
int __real_arb_le(const arb_t a0, const arb_t a1); int __wrap_arb_le(const arb_t a0, const arb_t a1) { RD(a0); RD(a1); return __real_arb_le(a0, a1); }
void __real_arb_lgamma(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_lgamma(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_lgamma(a0, a1, a2); }
int __real_arb_load_str(arb_t a0, const char * a1); int __wrap_arb_load_str(arb_t a0, const char * a1) { WR(a0); return __real_arb_load_str(a0, a1); }
void __real_arb_log(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_log(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_log(a0, a1, a2); }
void __real_arb_log1p(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_log1p(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_log1p(a0, a1, a2); }
void __real_arb_log_arf(arb_t a0, const arf_t a1, mp_limb_signed_t a2); void __wrap_arb_log_arf(arb_t a0, const arf_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_log_arf(a0, a1, a2); }
void __real_arb_log_arf_newton(arb_t a0, const arf_t a1, mp_limb_signed_t a2); void __wrap_arb_log_arf_newton(arb_t a0, const arf_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_log_arf_newton(a0, a1, a2); }
void __real_arb_log_base_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_log_base_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_log_base_ui(a0, a1, a2, a3); }
void __real_arb_log_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_arb_log_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_log_fmpz(a0, a1, a2); }
void __real_arb_log_hypot(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_log_hypot(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_log_hypot(a0, a1, a2, a3); }
void __real_arb_log_newton(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_log_newton(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_log_newton(a0, a1, a2); }
void __real_arb_log_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_log_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_log_ui(a0, a1, a2); }
void __real_arb_log_ui_from_prev(arb_t a0, mp_limb_t a1, arb_t a2, mp_limb_t a3, mp_limb_signed_t a4); void __wrap_arb_log_ui_from_prev(arb_t a0, mp_limb_t a1, arb_t a2, mp_limb_t a3, mp_limb_signed_t a4) { WR(a0); WR(a2); return __real_arb_log_ui_from_prev(a0, a1, a2, a3, a4); }
void __real_arb_max(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_max(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_max(a0, a1, a2, a3); }
void __real_arb_min(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_min(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_min(a0, a1, a2, a3); }
void __real_arb_minmax(arb_t a0, arb_t a1, const arb_t a2, const arb_t a3, mp_limb_signed_t a4); void __wrap_arb_minmax(arb_t a0, arb_t a1, const arb_t a2, const arb_t a3, mp_limb_signed_t a4) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_arb_minmax(a0, a1, a2, a3, a4); }
void __real_arb_mul_2exp_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_mul_2exp_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_mul_2exp_si(a0, a1, a2); }
void __real_arb_mul_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_mul_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_mul_arf(a0, a1, a2, a3); }
void __real_arb_mul_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3); void __wrap_arb_mul_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_mul_fmpz(a0, a1, a2, a3); }
void __real_arb_mul_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3); void __wrap_arb_mul_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_mul_si(a0, a1, a2, a3); }
void __real_arb_mul_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_mul_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_mul_ui(a0, a1, a2, a3); }
int __real_arb_ne(const arb_t a0, const arb_t a1); int __wrap_arb_ne(const arb_t a0, const arb_t a1) { RD(a0); RD(a1); return __real_arb_ne(a0, a1); }
void __real_arb_neg_round(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_neg_round(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_neg_round(a0, a1, a2); }
void __real_arb_nint(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_nint(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_nint(a0, a1, a2); }
void __real_arb_nonnegative_abs(arb_t a0, const arb_t a1); void __wrap_arb_nonnegative_abs(arb_t a0, const arb_t a1) { RD(a1); WR(a0); return __real_arb_nonnegative_abs(a0, a1); }
void __real_arb_nonnegative_part(arb_t a0, const arb_t a1); void __wrap_arb_nonnegative_part(arb_t a0, const arb_t a1) { RD(a1); WR(a0); return __real_arb_nonnegative_part(a0, a1); }
void __real_arb_one(arb_t a0); void __wrap_arb_one(arb_t a0) { WR(a0); return __real_arb_one(a0); }
void __real_arb_partitions_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_arb_partitions_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_partitions_fmpz(a0, a1, a2); }
void __real_arb_partitions_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_partitions_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_partitions_ui(a0, a1, a2); }
void __real_arb_polylog(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_polylog(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_polylog(a0, a1, a2, a3); }
void __real_arb_polylog_si(arb_t a0, mp_limb_signed_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_polylog_si(arb_t a0, mp_limb_signed_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); return __real_arb_polylog_si(a0, a1, a2, a3); }
void __real_arb_pow(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_pow(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_pow(a0, a1, a2, a3); }
void __real_arb_pow_fmpq(arb_t a0, const arb_t a1, const fmpq_t a2, mp_limb_signed_t a3); void __wrap_arb_pow_fmpq(arb_t a0, const arb_t a1, const fmpq_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_pow_fmpq(a0, a1, a2, a3); }
void __real_arb_pow_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3); void __wrap_arb_pow_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_pow_fmpz(a0, a1, a2, a3); }
void __real_arb_pow_fmpz_binexp(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3); void __wrap_arb_pow_fmpz_binexp(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_pow_fmpz_binexp(a0, a1, a2, a3); }
void __real_arb_pow_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_pow_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_pow_ui(a0, a1, a2, a3); }
void __real_arb_power_sum_vec(arb_ptr a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3, mp_limb_signed_t a4); void __wrap_arb_power_sum_vec(arb_ptr a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3, mp_limb_signed_t a4) { RD(a1); RD(a2); return __real_arb_power_sum_vec(a0, a1, a2, a3, a4); }
void __real_arb_primorial_nth_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_primorial_nth_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_primorial_nth_ui(a0, a1, a2); }
void __real_arb_primorial_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_primorial_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_primorial_ui(a0, a1, a2); }
void __real_arb_print(const arb_t a0); void __wrap_arb_print(const arb_t a0) { RD(a0); return __real_arb_print(a0); }
void __real_arb_printd(const arb_t a0, mp_limb_signed_t a1); void __wrap_arb_printd(const arb_t a0, mp_limb_signed_t a1) { RD(a0); return __real_arb_printd(a0, a1); }
void __real_arb_printn(const arb_t a0, mp_limb_signed_t a1, mp_limb_t a2); void __wrap_arb_printn(const arb_t a0, mp_limb_signed_t a1, mp_limb_t a2) { RD(a0); return __real_arb_printn(a0, a1, a2); }
mp_limb_signed_t __real_arb_rel_error_bits(const arb_t a0); mp_limb_signed_t __wrap_arb_rel_error_bits(const arb_t a0) { RD(a0); return __real_arb_rel_error_bits(a0); }
mp_limb_signed_t __real_arb_rel_one_accuracy_bits(const arb_t a0); mp_limb_signed_t __wrap_arb_rel_one_accuracy_bits(const arb_t a0) { RD(a0); return __real_arb_rel_one_accuracy_bits(a0); }
void __real_arb_rgamma(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_rgamma(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_rgamma(a0, a1, a2); }
void __real_arb_rising(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_rising(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_rising(a0, a1, a2, a3); }
void __real_arb_rising2_ui(arb_t a0, arb_t a1, const arb_t a2, mp_limb_t a3, mp_limb_signed_t a4); void __wrap_arb_rising2_ui(arb_t a0, arb_t a1, const arb_t a2, mp_limb_t a3, mp_limb_signed_t a4) { RD(a2); WR(a0); WR(a1); return __real_arb_rising2_ui(a0, a1, a2, a3, a4); }
void __real_arb_rising_fmpq_ui(arb_t a0, const fmpq_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_rising_fmpq_ui(arb_t a0, const fmpq_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_rising_fmpq_ui(a0, a1, a2, a3); }
void __real_arb_rising_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_rising_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_rising_ui(a0, a1, a2, a3); }
void __real_arb_root(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_root(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_root(a0, a1, a2, a3); }
void __real_arb_root_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_root_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_root_ui(a0, a1, a2, a3); }
void __real_arb_rsqrt(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_rsqrt(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_rsqrt(a0, a1, a2); }
void __real_arb_rsqrt_arf_newton(arb_t a0, const arf_t a1, mp_limb_signed_t a2); void __wrap_arb_rsqrt_arf_newton(arb_t a0, const arf_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_rsqrt_arf_newton(a0, a1, a2); }
void __real_arb_rsqrt_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_rsqrt_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_rsqrt_ui(a0, a1, a2); }
void __real_arb_sec(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sec(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sec(a0, a1, a2); }
void __real_arb_sech(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sech(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sech(a0, a1, a2); }
void __real_arb_set_d(arb_t a0, double a1); void __wrap_arb_set_d(arb_t a0, double a1) { WR(a0); return __real_arb_set_d(a0, a1); }
void __real_arb_set_fmpz(arb_t a0, const fmpz_t a1); void __wrap_arb_set_fmpz(arb_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_arb_set_fmpz(a0, a1); }
void __real_arb_set_interval_arf(arb_t a0, const arf_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_set_interval_arf(arb_t a0, const arf_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_set_interval_arf(a0, a1, a2, a3); }
void __real_arb_set_interval_mag(arb_t a0, const mag_t a1, const mag_t a2, mp_limb_signed_t a3); void __wrap_arb_set_interval_mag(arb_t a0, const mag_t a1, const mag_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_set_interval_mag(a0, a1, a2, a3); }
void __real_arb_set_interval_neg_pos_mag(arb_t a0, const mag_t a1, const mag_t a2, mp_limb_signed_t a3); void __wrap_arb_set_interval_neg_pos_mag(arb_t a0, const mag_t a1, const mag_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_set_interval_neg_pos_mag(a0, a1, a2, a3); }
void __real_arb_set_round_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_arb_set_round_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_set_round_fmpz(a0, a1, a2); }
void __real_arb_set_round_fmpz_2exp(arb_t a0, const fmpz_t a1, const fmpz_t a2, mp_limb_signed_t a3); void __wrap_arb_set_round_fmpz_2exp(arb_t a0, const fmpz_t a1, const fmpz_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_set_round_fmpz_2exp(a0, a1, a2, a3); }
void __real_arb_set_si(arb_t a0, mp_limb_signed_t a1); void __wrap_arb_set_si(arb_t a0, mp_limb_signed_t a1) { WR(a0); return __real_arb_set_si(a0, a1); }
int __real_arb_set_str(arb_t a0, const char * a1, mp_limb_signed_t a2); int __wrap_arb_set_str(arb_t a0, const char * a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_set_str(a0, a1, a2); }
void __real_arb_set_ui(arb_t a0, mp_limb_t a1); void __wrap_arb_set_ui(arb_t a0, mp_limb_t a1) { WR(a0); return __real_arb_set_ui(a0, a1); }
void __real_arb_sgn(arb_t a0, const arb_t a1); void __wrap_arb_sgn(arb_t a0, const arb_t a1) { RD(a1); WR(a0); return __real_arb_sgn(a0, a1); }
int __real_arb_sgn_nonzero(const arb_t a0); int __wrap_arb_sgn_nonzero(const arb_t a0) { RD(a0); return __real_arb_sgn_nonzero(a0); }
void __real_arb_si_pow_ui(arb_t a0, mp_limb_signed_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_si_pow_ui(arb_t a0, mp_limb_signed_t a1, mp_limb_t a2, mp_limb_signed_t a3) { WR(a0); return __real_arb_si_pow_ui(a0, a1, a2, a3); }
void __real_arb_sin(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sin(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sin(a0, a1, a2); }
void __real_arb_sin_cos(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_sin_cos(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_sin_cos(a0, a1, a2, a3); }
void __real_arb_sin_cos_arf_atan_reduction(arb_t a0, arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_sin_cos_arf_atan_reduction(arb_t a0, arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_sin_cos_arf_atan_reduction(a0, a1, a2, a3); }
void __real_arb_sin_cos_arf_bb(arb_t a0, arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_sin_cos_arf_bb(arb_t a0, arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_sin_cos_arf_bb(a0, a1, a2, a3); }
void __real_arb_sin_cos_arf_generic(arb_t a0, arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_sin_cos_arf_generic(arb_t a0, arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_sin_cos_arf_generic(a0, a1, a2, a3); }
void __real_arb_sin_cos_arf_rs_generic(arb_t a0, arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_sin_cos_arf_rs_generic(arb_t a0, arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_sin_cos_arf_rs_generic(a0, a1, a2, a3); }
void __real_arb_sin_cos_generic(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_sin_cos_generic(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_sin_cos_generic(a0, a1, a2, a3); }
void __real_arb_sin_cos_pi(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_sin_cos_pi(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_sin_cos_pi(a0, a1, a2, a3); }
void __real_arb_sin_cos_pi_fmpq(arb_t a0, arb_t a1, const fmpq_t a2, mp_limb_signed_t a3); void __wrap_arb_sin_cos_pi_fmpq(arb_t a0, arb_t a1, const fmpq_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_sin_cos_pi_fmpq(a0, a1, a2, a3); }
void __real_arb_sin_cos_wide(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_sin_cos_wide(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_sin_cos_wide(a0, a1, a2, a3); }
void __real_arb_sin_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sin_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sin_pi(a0, a1, a2); }
void __real_arb_sin_pi_fmpq(arb_t a0, const fmpq_t a1, mp_limb_signed_t a2); void __wrap_arb_sin_pi_fmpq(arb_t a0, const fmpq_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sin_pi_fmpq(a0, a1, a2); }
void __real_arb_sinc(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sinc(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sinc(a0, a1, a2); }
void __real_arb_sinc_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sinc_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sinc_pi(a0, a1, a2); }
void __real_arb_sinh(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sinh(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sinh(a0, a1, a2); }
void __real_arb_sinh_cosh(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_sinh_cosh(arb_t a0, arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_arb_sinh_cosh(a0, a1, a2, a3); }
void __real_arb_sqrt(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sqrt(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sqrt(a0, a1, a2); }
void __real_arb_sqrt1pm1(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sqrt1pm1(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sqrt1pm1(a0, a1, a2); }
void __real_arb_sqrt_arf(arb_t a0, const arf_t a1, mp_limb_signed_t a2); void __wrap_arb_sqrt_arf(arb_t a0, const arf_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sqrt_arf(a0, a1, a2); }
void __real_arb_sqrt_arf_newton(arb_t a0, const arf_t a1, mp_limb_signed_t a2); void __wrap_arb_sqrt_arf_newton(arb_t a0, const arf_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sqrt_arf_newton(a0, a1, a2); }
void __real_arb_sqrt_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_arb_sqrt_fmpz(arb_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sqrt_fmpz(a0, a1, a2); }
void __real_arb_sqrt_newton(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sqrt_newton(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sqrt_newton(a0, a1, a2); }
void __real_arb_sqrt_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_sqrt_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_sqrt_ui(a0, a1, a2); }
void __real_arb_sqrtpos(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_sqrtpos(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_sqrtpos(a0, a1, a2); }
void __real_arb_sub_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_sub_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_sub_arf(a0, a1, a2, a3); }
void __real_arb_sub_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3); void __wrap_arb_sub_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_sub_fmpz(a0, a1, a2, a3); }
void __real_arb_sub_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3); void __wrap_arb_sub_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_sub_si(a0, a1, a2, a3); }
void __real_arb_sub_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_sub_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_sub_ui(a0, a1, a2, a3); }
void __real_arb_submul(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_submul(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_submul(a0, a1, a2, a3); }
void __real_arb_submul_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3); void __wrap_arb_submul_arf(arb_t a0, const arb_t a1, const arf_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_submul_arf(a0, a1, a2, a3); }
void __real_arb_submul_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3); void __wrap_arb_submul_fmpz(arb_t a0, const arb_t a1, const fmpz_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_submul_fmpz(a0, a1, a2, a3); }
void __real_arb_submul_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3); void __wrap_arb_submul_si(arb_t a0, const arb_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_submul_si(a0, a1, a2, a3); }
void __real_arb_submul_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_submul_ui(arb_t a0, const arb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_arb_submul_ui(a0, a1, a2, a3); }
void __real_arb_tan(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_tan(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_tan(a0, a1, a2); }
void __real_arb_tan_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_tan_pi(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_tan_pi(a0, a1, a2); }
void __real_arb_tanh(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_tanh(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_tanh(a0, a1, a2); }
void __real_arb_trim(arb_t a0, const arb_t a1); void __wrap_arb_trim(arb_t a0, const arb_t a1) { RD(a1); WR(a0); return __real_arb_trim(a0, a1); }
void __real_arb_trunc(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_trunc(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_trunc(a0, a1, a2); }
void __real_arb_ui_div(arb_t a0, mp_limb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_ui_div(arb_t a0, mp_limb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); return __real_arb_ui_div(a0, a1, a2, a3); }
void __real_arb_ui_pow_ui(arb_t a0, mp_limb_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_arb_ui_pow_ui(arb_t a0, mp_limb_t a1, mp_limb_t a2, mp_limb_signed_t a3) { WR(a0); return __real_arb_ui_pow_ui(a0, a1, a2, a3); }
void __real_arb_union(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3); void __wrap_arb_union(arb_t a0, const arb_t a1, const arb_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_arb_union(a0, a1, a2, a3); }
void __real_arb_zero(arb_t a0); void __wrap_arb_zero(arb_t a0) { WR(a0); return __real_arb_zero(a0); }
void __real_arb_zeta(arb_t a0, const arb_t a1, mp_limb_signed_t a2); void __wrap_arb_zeta(arb_t a0, const arb_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arb_zeta(a0, a1, a2); }
void __real_arb_zeta_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_zeta_ui(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_zeta_ui(a0, a1, a2); }
void __real_arb_zeta_ui_asymp(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_zeta_ui_asymp(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_zeta_ui_asymp(a0, a1, a2); }
void __real_arb_zeta_ui_bernoulli(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_zeta_ui_bernoulli(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_zeta_ui_bernoulli(a0, a1, a2); }
void __real_arb_zeta_ui_borwein_bsplit(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_zeta_ui_borwein_bsplit(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_zeta_ui_borwein_bsplit(a0, a1, a2); }
void __real_arb_zeta_ui_euler_product(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_arb_zeta_ui_euler_product(arb_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_arb_zeta_ui_euler_product(a0, a1, a2); }
mp_limb_signed_t __real_arf_abs_bound_lt_2exp_si(const arf_t a0); mp_limb_signed_t __wrap_arf_abs_bound_lt_2exp_si(const arf_t a0) { RD(a0); return __real_arf_abs_bound_lt_2exp_si(a0); }
int __real_arf_add_fmpz(arf_ptr a0, arf_srcptr a1, const fmpz_t a2, mp_limb_signed_t a3, arf_rnd_t a4); int __wrap_arf_add_fmpz(arf_ptr a0, arf_srcptr a1, const fmpz_t a2, mp_limb_signed_t a3, arf_rnd_t a4) { RD(a2); return __real_arf_add_fmpz(a0, a1, a2, a3, a4); }
int __real_arf_add_fmpz_2exp(arf_ptr a0, arf_srcptr a1, const fmpz_t a2, const fmpz_t a3, mp_limb_signed_t a4, arf_rnd_t a5); int __wrap_arf_add_fmpz_2exp(arf_ptr a0, arf_srcptr a1, const fmpz_t a2, const fmpz_t a3, mp_limb_signed_t a4, arf_rnd_t a5) { RD(a2); RD(a3); return __real_arf_add_fmpz_2exp(a0, a1, a2, a3, a4, a5); }
void __real_arf_approx_dot(arf_t a0, const arf_t a1, int a2, arf_srcptr a3, mp_limb_signed_t a4, arf_srcptr a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8, arf_rnd_t a9); void __wrap_arf_approx_dot(arf_t a0, const arf_t a1, int a2, arf_srcptr a3, mp_limb_signed_t a4, arf_srcptr a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8, arf_rnd_t a9) { RD(a1); WR(a0); return __real_arf_approx_dot(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); }
void __real_arf_ceil(arf_t a0, const arf_t a1); void __wrap_arf_ceil(arf_t a0, const arf_t a1) { RD(a1); WR(a0); return __real_arf_ceil(a0, a1); }
void __real_arf_clear(arf_t a0); void __wrap_arf_clear(arf_t a0) { WR(a0); return __real_arf_clear(a0); }
int __real_arf_cmp(const arf_t a0, const arf_t a1); int __wrap_arf_cmp(const arf_t a0, const arf_t a1) { RD(a0); RD(a1); return __real_arf_cmp(a0, a1); }
int __real_arf_cmp_2exp_si(const arf_t a0, mp_limb_signed_t a1); int __wrap_arf_cmp_2exp_si(const arf_t a0, mp_limb_signed_t a1) { RD(a0); return __real_arf_cmp_2exp_si(a0, a1); }
int __real_arf_cmp_d(const arf_t a0, double a1); int __wrap_arf_cmp_d(const arf_t a0, double a1) { RD(a0); return __real_arf_cmp_d(a0, a1); }
int __real_arf_cmp_si(const arf_t a0, mp_limb_signed_t a1); int __wrap_arf_cmp_si(const arf_t a0, mp_limb_signed_t a1) { RD(a0); return __real_arf_cmp_si(a0, a1); }
int __real_arf_cmp_ui(const arf_t a0, mp_limb_t a1); int __wrap_arf_cmp_ui(const arf_t a0, mp_limb_t a1) { RD(a0); return __real_arf_cmp_ui(a0, a1); }
int __real_arf_cmpabs(const arf_t a0, const arf_t a1); int __wrap_arf_cmpabs(const arf_t a0, const arf_t a1) { RD(a0); RD(a1); return __real_arf_cmpabs(a0, a1); }
int __real_arf_cmpabs_2exp_si(const arf_t a0, mp_limb_signed_t a1); int __wrap_arf_cmpabs_2exp_si(const arf_t a0, mp_limb_signed_t a1) { RD(a0); return __real_arf_cmpabs_2exp_si(a0, a1); }
int __real_arf_cmpabs_d(const arf_t a0, double a1); int __wrap_arf_cmpabs_d(const arf_t a0, double a1) { RD(a0); return __real_arf_cmpabs_d(a0, a1); }
int __real_arf_cmpabs_ui(const arf_t a0, mp_limb_t a1); int __wrap_arf_cmpabs_ui(const arf_t a0, mp_limb_t a1) { RD(a0); return __real_arf_cmpabs_ui(a0, a1); }
int __real_arf_complex_mul(arf_t a0, arf_t a1, const arf_t a2, const arf_t a3, const arf_t a4, const arf_t a5, mp_limb_signed_t a6, arf_rnd_t a7); int __wrap_arf_complex_mul(arf_t a0, arf_t a1, const arf_t a2, const arf_t a3, const arf_t a4, const arf_t a5, mp_limb_signed_t a6, arf_rnd_t a7) { RD(a2); RD(a3); RD(a4); RD(a5); WR(a0); WR(a1); return __real_arf_complex_mul(a0, a1, a2, a3, a4, a5, a6, a7); }
int __real_arf_complex_mul_fallback(arf_t a0, arf_t a1, const arf_t a2, const arf_t a3, const arf_t a4, const arf_t a5, mp_limb_signed_t a6, arf_rnd_t a7); int __wrap_arf_complex_mul_fallback(arf_t a0, arf_t a1, const arf_t a2, const arf_t a3, const arf_t a4, const arf_t a5, mp_limb_signed_t a6, arf_rnd_t a7) { RD(a2); RD(a3); RD(a4); RD(a5); WR(a0); WR(a1); return __real_arf_complex_mul_fallback(a0, a1, a2, a3, a4, a5, a6, a7); }
int __real_arf_complex_sqr(arf_t a0, arf_t a1, const arf_t a2, const arf_t a3, mp_limb_signed_t a4, arf_rnd_t a5); int __wrap_arf_complex_sqr(arf_t a0, arf_t a1, const arf_t a2, const arf_t a3, mp_limb_signed_t a4, arf_rnd_t a5) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_arf_complex_sqr(a0, a1, a2, a3, a4, a5); }
void __real_arf_debug(const arf_t a0); void __wrap_arf_debug(const arf_t a0) { RD(a0); return __real_arf_debug(a0); }
char * __real_arf_dump_str(const arf_t a0); char * __wrap_arf_dump_str(const arf_t a0) { RD(a0); return __real_arf_dump_str(a0); }
int __real_arf_equal(const arf_t a0, const arf_t a1); int __wrap_arf_equal(const arf_t a0, const arf_t a1) { RD(a0); RD(a1); return __real_arf_equal(a0, a1); }
int __real_arf_equal_d(const arf_t a0, double a1); int __wrap_arf_equal_d(const arf_t a0, double a1) { RD(a0); return __real_arf_equal_d(a0, a1); }
int __real_arf_equal_si(const arf_t a0, mp_limb_signed_t a1); int __wrap_arf_equal_si(const arf_t a0, mp_limb_signed_t a1) { RD(a0); return __real_arf_equal_si(a0, a1); }
int __real_arf_equal_ui(const arf_t a0, mp_limb_t a1); int __wrap_arf_equal_ui(const arf_t a0, mp_limb_t a1) { RD(a0); return __real_arf_equal_ui(a0, a1); }
void __real_arf_floor(arf_t a0, const arf_t a1); void __wrap_arf_floor(arf_t a0, const arf_t a1) { RD(a1); WR(a0); return __real_arf_floor(a0, a1); }
void __real_arf_frexp(arf_t a0, fmpz_t a1, const arf_t a2); void __wrap_arf_frexp(arf_t a0, fmpz_t a1, const arf_t a2) { RD(a2); WR(a0); WR(a1); return __real_arf_frexp(a0, a1, a2); }
double __real_arf_get_d(const arf_t a0, arf_rnd_t a1); double __wrap_arf_get_d(const arf_t a0, arf_rnd_t a1) { RD(a0); return __real_arf_get_d(a0, a1); }
void __real_arf_get_fmpq(fmpq_t a0, const arf_t a1); void __wrap_arf_get_fmpq(fmpq_t a0, const arf_t a1) { RD(a1); WR(a0); return __real_arf_get_fmpq(a0, a1); }
int __real_arf_get_fmpz(fmpz_t a0, const arf_t a1, arf_rnd_t a2); int __wrap_arf_get_fmpz(fmpz_t a0, const arf_t a1, arf_rnd_t a2) { RD(a1); WR(a0); return __real_arf_get_fmpz(a0, a1, a2); }
void __real_arf_get_fmpz_2exp(fmpz_t a0, fmpz_t a1, const arf_t a2); void __wrap_arf_get_fmpz_2exp(fmpz_t a0, fmpz_t a1, const arf_t a2) { RD(a2); WR(a0); WR(a1); return __real_arf_get_fmpz_2exp(a0, a1, a2); }
int __real_arf_get_fmpz_fixed_fmpz(fmpz_t a0, const arf_t a1, const fmpz_t a2); int __wrap_arf_get_fmpz_fixed_fmpz(fmpz_t a0, const arf_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_arf_get_fmpz_fixed_fmpz(a0, a1, a2); }
int __real_arf_get_fmpz_fixed_si(fmpz_t a0, const arf_t a1, mp_limb_signed_t a2); int __wrap_arf_get_fmpz_fixed_si(fmpz_t a0, const arf_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_arf_get_fmpz_fixed_si(a0, a1, a2); }
void __real_arf_get_mag(mag_t a0, const arf_t a1); void __wrap_arf_get_mag(mag_t a0, const arf_t a1) { RD(a1); WR(a0); return __real_arf_get_mag(a0, a1); }
void __real_arf_get_mag_lower(mag_t a0, const arf_t a1); void __wrap_arf_get_mag_lower(mag_t a0, const arf_t a1) { RD(a1); WR(a0); return __real_arf_get_mag_lower(a0, a1); }
mp_limb_signed_t __real_arf_get_si(const arf_t a0, arf_rnd_t a1); mp_limb_signed_t __wrap_arf_get_si(const arf_t a0, arf_rnd_t a1) { RD(a0); return __real_arf_get_si(a0, a1); }
char * __real_arf_get_str(const arf_t a0, mp_limb_signed_t a1); char * __wrap_arf_get_str(const arf_t a0, mp_limb_signed_t a1) { RD(a0); return __real_arf_get_str(a0, a1); }
int __real_arf_is_int(const arf_t a0); int __wrap_arf_is_int(const arf_t a0) { RD(a0); return __real_arf_is_int(a0); }
int __real_arf_is_int_2exp_si(const arf_t a0, mp_limb_signed_t a1); int __wrap_arf_is_int_2exp_si(const arf_t a0, mp_limb_signed_t a1) { RD(a0); return __real_arf_is_int_2exp_si(a0, a1); }
int __real_arf_load_str(arf_t a0, const char * a1); int __wrap_arf_load_str(arf_t a0, const char * a1) { WR(a0); return __real_arf_load_str(a0, a1); }
void __real_arf_mul_special(arf_t a0, const arf_t a1, const arf_t a2); void __wrap_arf_mul_special(arf_t a0, const arf_t a1, const arf_t a2) { RD(a1); RD(a2); WR(a0); return __real_arf_mul_special(a0, a1, a2); }
int __real_arf_mul_via_mpfr(arf_t a0, const arf_t a1, const arf_t a2, mp_limb_signed_t a3, arf_rnd_t a4); int __wrap_arf_mul_via_mpfr(arf_t a0, const arf_t a1, const arf_t a2, mp_limb_signed_t a3, arf_rnd_t a4) { RD(a1); RD(a2); WR(a0); return __real_arf_mul_via_mpfr(a0, a1, a2, a3, a4); }
int __real_arf_neg_round(arf_t a0, const arf_t a1, mp_limb_signed_t a2, arf_rnd_t a3); int __wrap_arf_neg_round(arf_t a0, const arf_t a1, mp_limb_signed_t a2, arf_rnd_t a3) { RD(a1); WR(a0); return __real_arf_neg_round(a0, a1, a2, a3); }
void __real_arf_print(const arf_t a0); void __wrap_arf_print(const arf_t a0) { RD(a0); return __real_arf_print(a0); }
void __real_arf_printd(const arf_t a0, mp_limb_signed_t a1); void __wrap_arf_printd(const arf_t a0, mp_limb_signed_t a1) { RD(a0); return __real_arf_printd(a0, a1); }
void __real_arf_set(arf_t a0, const arf_t a1); void __wrap_arf_set(arf_t a0, const arf_t a1) { RD(a1); WR(a0); return __real_arf_set(a0, a1); }
void __real_arf_set_d(arf_t a0, double a1); void __wrap_arf_set_d(arf_t a0, double a1) { WR(a0); return __real_arf_set_d(a0, a1); }
void __real_arf_set_mpn(arf_t a0, mp_srcptr a1, mp_size_t a2, int a3); void __wrap_arf_set_mpn(arf_t a0, mp_srcptr a1, mp_size_t a2, int a3) { WR(a0); return __real_arf_set_mpn(a0, a1, a2, a3); }
int __real_arf_set_round(arf_t a0, const arf_t a1, mp_limb_signed_t a2, arf_rnd_t a3); int __wrap_arf_set_round(arf_t a0, const arf_t a1, mp_limb_signed_t a2, arf_rnd_t a3) { RD(a1); WR(a0); return __real_arf_set_round(a0, a1, a2, a3); }
int __real_arf_sosq(arf_t a0, const arf_t a1, const arf_t a2, mp_limb_signed_t a3, arf_rnd_t a4); int __wrap_arf_sosq(arf_t a0, const arf_t a1, const arf_t a2, mp_limb_signed_t a3, arf_rnd_t a4) { RD(a1); RD(a2); WR(a0); return __real_arf_sosq(a0, a1, a2, a3, a4); }
int __real_arf_sqrt_fmpz(arf_t a0, const fmpz_t a1, mp_limb_signed_t a2, arf_rnd_t a3); int __wrap_arf_sqrt_fmpz(arf_t a0, const fmpz_t a1, mp_limb_signed_t a2, arf_rnd_t a3) { RD(a1); WR(a0); return __real_arf_sqrt_fmpz(a0, a1, a2, a3); }
int __real_arf_sqrt_ui(arf_t a0, mp_limb_t a1, mp_limb_signed_t a2, arf_rnd_t a3); int __wrap_arf_sqrt_ui(arf_t a0, mp_limb_t a1, mp_limb_signed_t a2, arf_rnd_t a3) { WR(a0); return __real_arf_sqrt_ui(a0, a1, a2, a3); }
int __real_arf_sub_fmpz(arf_ptr a0, arf_srcptr a1, const fmpz_t a2, mp_limb_signed_t a3, arf_rnd_t a4); int __wrap_arf_sub_fmpz(arf_ptr a0, arf_srcptr a1, const fmpz_t a2, mp_limb_signed_t a3, arf_rnd_t a4) { RD(a2); return __real_arf_sub_fmpz(a0, a1, a2, a3, a4); }
int __real_arf_sum(arf_t a0, arf_srcptr a1, mp_limb_signed_t a2, mp_limb_signed_t a3, arf_rnd_t a4); int __wrap_arf_sum(arf_t a0, arf_srcptr a1, mp_limb_signed_t a2, mp_limb_signed_t a3, arf_rnd_t a4) { WR(a0); return __real_arf_sum(a0, a1, a2, a3, a4); }
void __real_fmpq_add(fmpq_t a0, const fmpq_t a1, const fmpq_t a2); void __wrap_fmpq_add(fmpq_t a0, const fmpq_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_add(a0, a1, a2); }
void __real_fmpq_add_fmpz(fmpq_t a0, const fmpq_t a1, const fmpz_t a2); void __wrap_fmpq_add_fmpz(fmpq_t a0, const fmpq_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_add_fmpz(a0, a1, a2); }
void __real_fmpq_add_si(fmpq_t a0, const fmpq_t a1, mp_limb_signed_t a2); void __wrap_fmpq_add_si(fmpq_t a0, const fmpq_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_add_si(a0, a1, a2); }
void __real_fmpq_add_ui(fmpq_t a0, const fmpq_t a1, mp_limb_t a2); void __wrap_fmpq_add_ui(fmpq_t a0, const fmpq_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpq_add_ui(a0, a1, a2); }
void __real_fmpq_addmul(fmpq_t a0, const fmpq_t a1, const fmpq_t a2); void __wrap_fmpq_addmul(fmpq_t a0, const fmpq_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_addmul(a0, a1, a2); }
void __real_fmpq_canonicalise(fmpq_t a0); void __wrap_fmpq_canonicalise(fmpq_t a0) { WR(a0); return __real_fmpq_canonicalise(a0); }
mp_limb_signed_t __real_fmpq_cfrac_bound(const fmpq_t a0); mp_limb_signed_t __wrap_fmpq_cfrac_bound(const fmpq_t a0) { RD(a0); return __real_fmpq_cfrac_bound(a0); }
void __real_fmpq_clear_readonly(fmpq_t a0); void __wrap_fmpq_clear_readonly(fmpq_t a0) { WR(a0); return __real_fmpq_clear_readonly(a0); }
int __real_fmpq_cmp(const fmpq_t a0, const fmpq_t a1); int __wrap_fmpq_cmp(const fmpq_t a0, const fmpq_t a1) { RD(a0); RD(a1); return __real_fmpq_cmp(a0, a1); }
int __real_fmpq_cmp_fmpz(const fmpq_t a0, const fmpz_t a1); int __wrap_fmpq_cmp_fmpz(const fmpq_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpq_cmp_fmpz(a0, a1); }
int __real_fmpq_cmp_si(const fmpq_t a0, mp_limb_signed_t a1); int __wrap_fmpq_cmp_si(const fmpq_t a0, mp_limb_signed_t a1) { RD(a0); return __real_fmpq_cmp_si(a0, a1); }
int __real_fmpq_cmp_ui(const fmpq_t a0, mp_limb_t a1); int __wrap_fmpq_cmp_ui(const fmpq_t a0, mp_limb_t a1) { RD(a0); return __real_fmpq_cmp_ui(a0, a1); }
void __real_fmpq_dedekind_sum(fmpq_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpq_dedekind_sum(fmpq_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_dedekind_sum(a0, a1, a2); }
void __real_fmpq_dedekind_sum_naive(fmpq_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpq_dedekind_sum_naive(fmpq_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_dedekind_sum_naive(a0, a1, a2); }
void __real_fmpq_denominator(fmpz_t a0, const fmpq_t a1); void __wrap_fmpq_denominator(fmpz_t a0, const fmpq_t a1) { RD(a1); WR(a0); return __real_fmpq_denominator(a0, a1); }
fmpz * __real_fmpq_denominator_ptr(fmpq_t a0); fmpz * __wrap_fmpq_denominator_ptr(fmpq_t a0) { WR(a0); return __real_fmpq_denominator_ptr(a0); }
void __real_fmpq_div(fmpq_t a0, const fmpq_t a1, const fmpq_t a2); void __wrap_fmpq_div(fmpq_t a0, const fmpq_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_div(a0, a1, a2); }
void __real_fmpq_div_2exp(fmpq_t a0, const fmpq_t a1, mp_limb_t a2); void __wrap_fmpq_div_2exp(fmpq_t a0, const fmpq_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpq_div_2exp(a0, a1, a2); }
void __real_fmpq_div_fmpz(fmpq_t a0, const fmpq_t a1, const fmpz_t a2); void __wrap_fmpq_div_fmpz(fmpq_t a0, const fmpq_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_div_fmpz(a0, a1, a2); }
int __real_fmpq_equal_fmpz(fmpq_t a0, fmpz_t a1); int __wrap_fmpq_equal_fmpz(fmpq_t a0, fmpz_t a1) { WR(a0); WR(a1); return __real_fmpq_equal_fmpz(a0, a1); }
void __real_fmpq_farey_neighbors(fmpq_t a0, fmpq_t a1, const fmpq_t a2, const fmpz_t a3); void __wrap_fmpq_farey_neighbors(fmpq_t a0, fmpq_t a1, const fmpq_t a2, const fmpz_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpq_farey_neighbors(a0, a1, a2, a3); }
void __real_fmpq_gcd(fmpq_t a0, const fmpq_t a1, const fmpq_t a2); void __wrap_fmpq_gcd(fmpq_t a0, const fmpq_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_gcd(a0, a1, a2); }
void __real_fmpq_gcd_cofactors(fmpq_t a0, fmpz_t a1, fmpz_t a2, const fmpq_t a3, const fmpq_t a4); void __wrap_fmpq_gcd_cofactors(fmpq_t a0, fmpz_t a1, fmpz_t a2, const fmpq_t a3, const fmpq_t a4) { RD(a3); RD(a4); WR(a0); WR(a1); WR(a2); return __real_fmpq_gcd_cofactors(a0, a1, a2, a3, a4); }
mp_limb_signed_t __real_fmpq_get_cfrac(fmpz * a0, fmpq_t a1, const fmpq_t a2, mp_limb_signed_t a3); mp_limb_signed_t __wrap_fmpq_get_cfrac(fmpz * a0, fmpq_t a1, const fmpq_t a2, mp_limb_signed_t a3) { RD(a2); WR(a1); return __real_fmpq_get_cfrac(a0, a1, a2, a3); }
mp_limb_signed_t __real_fmpq_get_cfrac_naive(fmpz * a0, fmpq_t a1, const fmpq_t a2, mp_limb_signed_t a3); mp_limb_signed_t __wrap_fmpq_get_cfrac_naive(fmpz * a0, fmpq_t a1, const fmpq_t a2, mp_limb_signed_t a3) { RD(a2); WR(a1); return __real_fmpq_get_cfrac_naive(a0, a1, a2, a3); }
double __real_fmpq_get_d(const fmpq_t a0); double __wrap_fmpq_get_d(const fmpq_t a0) { RD(a0); return __real_fmpq_get_d(a0); }
void __real_fmpq_get_mpz_frac(mpz_t a0, mpz_t a1, fmpq_t a2); void __wrap_fmpq_get_mpz_frac(mpz_t a0, mpz_t a1, fmpq_t a2) { WR(a2); return __real_fmpq_get_mpz_frac(a0, a1, a2); }
char * __real_fmpq_get_str(char * a0, int a1, const fmpq_t a2); char * __wrap_fmpq_get_str(char * a0, int a1, const fmpq_t a2) { RD(a2); return __real_fmpq_get_str(a0, a1, a2); }
void __real_fmpq_harmonic_ui(fmpq_t a0, mp_limb_t a1); void __wrap_fmpq_harmonic_ui(fmpq_t a0, mp_limb_t a1) { WR(a0); return __real_fmpq_harmonic_ui(a0, a1); }
void __real_fmpq_height(fmpz_t a0, const fmpq_t a1); void __wrap_fmpq_height(fmpz_t a0, const fmpq_t a1) { RD(a1); WR(a0); return __real_fmpq_height(a0, a1); }
mp_limb_t __real_fmpq_height_bits(const fmpq_t a0); mp_limb_t __wrap_fmpq_height_bits(const fmpq_t a0) { RD(a0); return __real_fmpq_height_bits(a0); }
void __real_fmpq_init_set_mpz_frac_readonly(fmpq_t a0, const mpz_t a1, const mpz_t a2); void __wrap_fmpq_init_set_mpz_frac_readonly(fmpq_t a0, const mpz_t a1, const mpz_t a2) { WR(a0); return __real_fmpq_init_set_mpz_frac_readonly(a0, a1, a2); }
void __real_fmpq_init_set_readonly(fmpq_t a0, const mpq_t a1); void __wrap_fmpq_init_set_readonly(fmpq_t a0, const mpq_t a1) { WR(a0); return __real_fmpq_init_set_readonly(a0, a1); }
void __real_fmpq_inv(fmpq_t a0, const fmpq_t a1); void __wrap_fmpq_inv(fmpq_t a0, const fmpq_t a1) { RD(a1); WR(a0); return __real_fmpq_inv(a0, a1); }
int __real_fmpq_is_canonical(const fmpq_t a0); int __wrap_fmpq_is_canonical(const fmpq_t a0) { RD(a0); return __real_fmpq_is_canonical(a0); }
int __real_fmpq_mod_fmpz(fmpz_t a0, const fmpq_t a1, const fmpz_t a2); int __wrap_fmpq_mod_fmpz(fmpz_t a0, const fmpq_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_mod_fmpz(a0, a1, a2); }
void __real_fmpq_mul(fmpq_t a0, const fmpq_t a1, const fmpq_t a2); void __wrap_fmpq_mul(fmpq_t a0, const fmpq_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_mul(a0, a1, a2); }
void __real_fmpq_mul_2exp(fmpq_t a0, const fmpq_t a1, mp_limb_t a2); void __wrap_fmpq_mul_2exp(fmpq_t a0, const fmpq_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpq_mul_2exp(a0, a1, a2); }
void __real_fmpq_mul_fmpz(fmpq_t a0, const fmpq_t a1, const fmpz_t a2); void __wrap_fmpq_mul_fmpz(fmpq_t a0, const fmpq_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_mul_fmpz(a0, a1, a2); }
void __real_fmpq_mul_si(fmpq_t a0, const fmpq_t a1, mp_limb_signed_t a2); void __wrap_fmpq_mul_si(fmpq_t a0, const fmpq_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_mul_si(a0, a1, a2); }
void __real_fmpq_mul_ui(fmpq_t a0, const fmpq_t a1, mp_limb_t a2); void __wrap_fmpq_mul_ui(fmpq_t a0, const fmpq_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpq_mul_ui(a0, a1, a2); }
void __real_fmpq_next_calkin_wilf(fmpq_t a0, const fmpq_t a1); void __wrap_fmpq_next_calkin_wilf(fmpq_t a0, const fmpq_t a1) { RD(a1); WR(a0); return __real_fmpq_next_calkin_wilf(a0, a1); }
void __real_fmpq_next_minimal(fmpq_t a0, const fmpq_t a1); void __wrap_fmpq_next_minimal(fmpq_t a0, const fmpq_t a1) { RD(a1); WR(a0); return __real_fmpq_next_minimal(a0, a1); }
void __real_fmpq_next_signed_calkin_wilf(fmpq_t a0, const fmpq_t a1); void __wrap_fmpq_next_signed_calkin_wilf(fmpq_t a0, const fmpq_t a1) { RD(a1); WR(a0); return __real_fmpq_next_signed_calkin_wilf(a0, a1); }
void __real_fmpq_next_signed_minimal(fmpq_t a0, const fmpq_t a1); void __wrap_fmpq_next_signed_minimal(fmpq_t a0, const fmpq_t a1) { RD(a1); WR(a0); return __real_fmpq_next_signed_minimal(a0, a1); }
void __real_fmpq_numerator(fmpz_t a0, const fmpq_t a1); void __wrap_fmpq_numerator(fmpz_t a0, const fmpq_t a1) { RD(a1); WR(a0); return __real_fmpq_numerator(a0, a1); }
fmpz * __real_fmpq_numerator_ptr(fmpq_t a0); fmpz * __wrap_fmpq_numerator_ptr(fmpq_t a0) { WR(a0); return __real_fmpq_numerator_ptr(a0); }
void __real_fmpq_poly_add(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_add(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_add(a0, a1, a2); }
void __real_fmpq_poly_add_can(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, int a3); void __wrap_fmpq_poly_add_can(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, int a3) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_add_can(a0, a1, a2, a3); }
void __real_fmpq_poly_add_fmpq(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_t a2); void __wrap_fmpq_poly_add_fmpq(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_add_fmpq(a0, a1, a2); }
void __real_fmpq_poly_add_fmpz(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpz_t a2); void __wrap_fmpq_poly_add_fmpz(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_add_fmpz(a0, a1, a2); }
void __real_fmpq_poly_add_series(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_add_series(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_add_series(a0, a1, a2, a3); }
void __real_fmpq_poly_add_series_can(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3, int a4); void __wrap_fmpq_poly_add_series_can(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3, int a4) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_add_series_can(a0, a1, a2, a3, a4); }
void __real_fmpq_poly_add_si(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_add_si(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_add_si(a0, a1, a2); }
void __real_fmpq_poly_asin_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_asin_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_asin_series(a0, a1, a2); }
void __real_fmpq_poly_asinh_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_asinh_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_asinh_series(a0, a1, a2); }
void __real_fmpq_poly_atan_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_atan_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_atan_series(a0, a1, a2); }
void __real_fmpq_poly_atanh_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_atanh_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_atanh_series(a0, a1, a2); }
void __real_fmpq_poly_canonicalise(fmpq_poly_t a0); void __wrap_fmpq_poly_canonicalise(fmpq_poly_t a0) { WR(a0); return __real_fmpq_poly_canonicalise(a0); }
void __real_fmpq_poly_clear(fmpq_poly_t a0); void __wrap_fmpq_poly_clear(fmpq_poly_t a0) { WR(a0); return __real_fmpq_poly_clear(a0); }
int __real_fmpq_poly_cmp(const fmpq_poly_t a0, const fmpq_poly_t a1); int __wrap_fmpq_poly_cmp(const fmpq_poly_t a0, const fmpq_poly_t a1) { RD(a0); RD(a1); return __real_fmpq_poly_cmp(a0, a1); }
void __real_fmpq_poly_compose(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_compose(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_compose(a0, a1, a2); }
void __real_fmpq_poly_compose_series(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_compose_series(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_compose_series(a0, a1, a2, a3); }
void __real_fmpq_poly_compose_series_brent_kung(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_compose_series_brent_kung(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_compose_series_brent_kung(a0, a1, a2, a3); }
void __real_fmpq_poly_compose_series_horner(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_compose_series_horner(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_compose_series_horner(a0, a1, a2, a3); }
void __real_fmpq_poly_content(fmpq_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_content(fmpq_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_content(a0, a1); }
void __real_fmpq_poly_cos_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_cos_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_cos_series(a0, a1, a2); }
void __real_fmpq_poly_cosh_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_cosh_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_cosh_series(a0, a1, a2); }
int __real_fmpq_poly_debug(const fmpq_poly_t a0); int __wrap_fmpq_poly_debug(const fmpq_poly_t a0) { RD(a0); return __real_fmpq_poly_debug(a0); }
void __real_fmpq_poly_derivative(fmpq_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_derivative(fmpq_poly_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_derivative(a0, a1); }
void __real_fmpq_poly_div(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_div(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_div(a0, a1, a2); }
void __real_fmpq_poly_div_series(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_div_series(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_div_series(a0, a1, a2, a3); }
int __real_fmpq_poly_divides(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); int __wrap_fmpq_poly_divides(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_divides(a0, a1, a2); }
void __real_fmpq_poly_divrem(fmpq_poly_t a0, fmpq_poly_t a1, const fmpq_poly_t a2, const fmpq_poly_t a3); void __wrap_fmpq_poly_divrem(fmpq_poly_t a0, fmpq_poly_t a1, const fmpq_poly_t a2, const fmpq_poly_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpq_poly_divrem(a0, a1, a2, a3); }
int __real_fmpq_poly_equal(const fmpq_poly_t a0, const fmpq_poly_t a1); int __wrap_fmpq_poly_equal(const fmpq_poly_t a0, const fmpq_poly_t a1) { RD(a0); RD(a1); return __real_fmpq_poly_equal(a0, a1); }
int __real_fmpq_poly_equal_trunc(const fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); int __wrap_fmpq_poly_equal_trunc(const fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a0); RD(a1); return __real_fmpq_poly_equal_trunc(a0, a1, a2); }
void __real_fmpq_poly_evaluate_fmpq(fmpq_t a0, const fmpq_poly_t a1, const fmpq_t a2); void __wrap_fmpq_poly_evaluate_fmpq(fmpq_t a0, const fmpq_poly_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_evaluate_fmpq(a0, a1, a2); }
void __real_fmpq_poly_evaluate_fmpz(fmpq_t a0, const fmpq_poly_t a1, const fmpz_t a2); void __wrap_fmpq_poly_evaluate_fmpz(fmpq_t a0, const fmpq_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_evaluate_fmpz(a0, a1, a2); }
void __real_fmpq_poly_exp_expinv_series(fmpq_poly_t a0, fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_exp_expinv_series(fmpq_poly_t a0, fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_fmpq_poly_exp_expinv_series(a0, a1, a2, a3); }
void __real_fmpq_poly_exp_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_exp_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_exp_series(a0, a1, a2); }
void __real_fmpq_poly_fit_length(fmpq_poly_t a0, mp_limb_signed_t a1); void __wrap_fmpq_poly_fit_length(fmpq_poly_t a0, mp_limb_signed_t a1) { WR(a0); return __real_fmpq_poly_fit_length(a0, a1); }
void __real_fmpq_poly_fmpq_sub(fmpq_poly_t a0, const fmpq_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_fmpq_sub(fmpq_poly_t a0, const fmpq_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_fmpq_sub(a0, a1, a2); }
void __real_fmpq_poly_fmpz_sub(fmpq_poly_t a0, const fmpz_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_fmpz_sub(fmpq_poly_t a0, const fmpz_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_fmpz_sub(a0, a1, a2); }
void __real_fmpq_poly_gcd(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_gcd(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_gcd(a0, a1, a2); }
void __real_fmpq_poly_gegenbauer_c(fmpq_poly_t a0, mp_limb_t a1, const fmpq_t a2); void __wrap_fmpq_poly_gegenbauer_c(fmpq_poly_t a0, mp_limb_t a1, const fmpq_t a2) { RD(a2); WR(a0); return __real_fmpq_poly_gegenbauer_c(a0, a1, a2); }
void __real_fmpq_poly_get_coeff_fmpq(fmpq_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_get_coeff_fmpq(fmpq_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_get_coeff_fmpq(a0, a1, a2); }
void __real_fmpq_poly_get_coeff_fmpz(fmpz_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_get_coeff_fmpz(fmpz_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_get_coeff_fmpz(a0, a1, a2); }
void __real_fmpq_poly_get_denominator(fmpz_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_get_denominator(fmpz_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_get_denominator(a0, a1); }
void __real_fmpq_poly_get_nmod_poly(nmod_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_get_nmod_poly(nmod_poly_t a0, const fmpq_poly_t a1) { RD(a1); return __real_fmpq_poly_get_nmod_poly(a0, a1); }
void __real_fmpq_poly_get_nmod_poly_den(nmod_poly_t a0, const fmpq_poly_t a1, int a2); void __wrap_fmpq_poly_get_nmod_poly_den(nmod_poly_t a0, const fmpq_poly_t a1, int a2) { RD(a1); return __real_fmpq_poly_get_nmod_poly_den(a0, a1, a2); }
void __real_fmpq_poly_get_numerator(fmpz_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_get_numerator(fmpz_poly_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_get_numerator(a0, a1); }
void __real_fmpq_poly_get_slice(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_get_slice(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_fmpq_poly_get_slice(a0, a1, a2, a3); }
char * __real_fmpq_poly_get_str(const fmpq_poly_t a0); char * __wrap_fmpq_poly_get_str(const fmpq_poly_t a0) { RD(a0); return __real_fmpq_poly_get_str(a0); }
char * __real_fmpq_poly_get_str_pretty(const fmpq_poly_t a0, const char * a1); char * __wrap_fmpq_poly_get_str_pretty(const fmpq_poly_t a0, const char * a1) { RD(a0); return __real_fmpq_poly_get_str_pretty(a0, a1); }
void __real_fmpq_poly_init(fmpq_poly_t a0); void __wrap_fmpq_poly_init(fmpq_poly_t a0) { WR(a0); return __real_fmpq_poly_init(a0); }
void __real_fmpq_poly_init2(fmpq_poly_t a0, mp_limb_signed_t a1); void __wrap_fmpq_poly_init2(fmpq_poly_t a0, mp_limb_signed_t a1) { WR(a0); return __real_fmpq_poly_init2(a0, a1); }
void __real_fmpq_poly_integral(fmpq_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_integral(fmpq_poly_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_integral(a0, a1); }
void __real_fmpq_poly_interpolate_fmpz_vec(fmpq_poly_t a0, const fmpz * a1, const fmpz * a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_interpolate_fmpz_vec(fmpq_poly_t a0, const fmpz * a1, const fmpz * a2, mp_limb_signed_t a3) { WR(a0); return __real_fmpq_poly_interpolate_fmpz_vec(a0, a1, a2, a3); }
void __real_fmpq_poly_inv(fmpq_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_inv(fmpq_poly_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_inv(a0, a1); }
void __real_fmpq_poly_inv_series_newton(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_inv_series_newton(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_inv_series_newton(a0, a1, a2); }
void __real_fmpq_poly_invsqrt_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_invsqrt_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_invsqrt_series(a0, a1, a2); }
int __real_fmpq_poly_is_canonical(const fmpq_poly_t a0); int __wrap_fmpq_poly_is_canonical(const fmpq_poly_t a0) { RD(a0); return __real_fmpq_poly_is_canonical(a0); }
int __real_fmpq_poly_is_monic(const fmpq_poly_t a0); int __wrap_fmpq_poly_is_monic(const fmpq_poly_t a0) { RD(a0); return __real_fmpq_poly_is_monic(a0); }
int __real_fmpq_poly_is_one(const fmpq_poly_t a0); int __wrap_fmpq_poly_is_one(const fmpq_poly_t a0) { RD(a0); return __real_fmpq_poly_is_one(a0); }
int __real_fmpq_poly_is_squarefree(const fmpq_poly_t a0); int __wrap_fmpq_poly_is_squarefree(const fmpq_poly_t a0) { RD(a0); return __real_fmpq_poly_is_squarefree(a0); }
void __real_fmpq_poly_laguerre_l(fmpq_poly_t a0, mp_limb_t a1); void __wrap_fmpq_poly_laguerre_l(fmpq_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpq_poly_laguerre_l(a0, a1); }
void __real_fmpq_poly_lcm(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_lcm(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_lcm(a0, a1, a2); }
void __real_fmpq_poly_legendre_p(fmpq_poly_t a0, mp_limb_t a1); void __wrap_fmpq_poly_legendre_p(fmpq_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpq_poly_legendre_p(a0, a1); }
void __real_fmpq_poly_log_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_log_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_log_series(a0, a1, a2); }
void __real_fmpq_poly_make_monic(fmpq_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_make_monic(fmpq_poly_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_make_monic(a0, a1); }
void __real_fmpq_poly_mul(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_mul(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_mul(a0, a1, a2); }
void __real_fmpq_poly_mullow(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_mullow(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_mullow(a0, a1, a2, a3); }
void __real_fmpq_poly_neg(fmpq_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_neg(fmpq_poly_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_neg(a0, a1); }
void __real_fmpq_poly_nth_derivative(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_t a2); void __wrap_fmpq_poly_nth_derivative(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_nth_derivative(a0, a1, a2); }
void __real_fmpq_poly_one(fmpq_poly_t a0); void __wrap_fmpq_poly_one(fmpq_poly_t a0) { WR(a0); return __real_fmpq_poly_one(a0); }
void __real_fmpq_poly_pow(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_t a2); void __wrap_fmpq_poly_pow(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_pow(a0, a1, a2); }
void __real_fmpq_poly_pow_trunc(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_pow_trunc(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_fmpq_poly_pow_trunc(a0, a1, a2, a3); }
void __real_fmpq_poly_power_sums(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_power_sums(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_power_sums(a0, a1, a2); }
void __real_fmpq_poly_power_sums_to_fmpz_poly(fmpz_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_power_sums_to_fmpz_poly(fmpz_poly_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_power_sums_to_fmpz_poly(a0, a1); }
void __real_fmpq_poly_power_sums_to_poly(fmpq_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_power_sums_to_poly(fmpq_poly_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_power_sums_to_poly(a0, a1); }
void __real_fmpq_poly_powers_precompute(fmpq_poly_powers_precomp_t a0, fmpq_poly_t a1); void __wrap_fmpq_poly_powers_precompute(fmpq_poly_powers_precomp_t a0, fmpq_poly_t a1) { WR(a1); return __real_fmpq_poly_powers_precompute(a0, a1); }
void __real_fmpq_poly_primitive_part(fmpq_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_primitive_part(fmpq_poly_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_primitive_part(a0, a1); }
int __real_fmpq_poly_print(const fmpq_poly_t a0); int __wrap_fmpq_poly_print(const fmpq_poly_t a0) { RD(a0); return __real_fmpq_poly_print(a0); }
int __real_fmpq_poly_print_pretty(const fmpq_poly_t a0, const char * a1); int __wrap_fmpq_poly_print_pretty(const fmpq_poly_t a0, const char * a1) { RD(a0); return __real_fmpq_poly_print_pretty(a0, a1); }
int __real_fmpq_poly_read(fmpq_poly_t a0); int __wrap_fmpq_poly_read(fmpq_poly_t a0) { WR(a0); return __real_fmpq_poly_read(a0); }
void __real_fmpq_poly_realloc(fmpq_poly_t a0, mp_limb_signed_t a1); void __wrap_fmpq_poly_realloc(fmpq_poly_t a0, mp_limb_signed_t a1) { WR(a0); return __real_fmpq_poly_realloc(a0, a1); }
void __real_fmpq_poly_rem(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_rem(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_rem(a0, a1, a2); }
void __real_fmpq_poly_rem_powers_precomp(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, const fmpq_poly_powers_precomp_t a3); void __wrap_fmpq_poly_rem_powers_precomp(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, const fmpq_poly_powers_precomp_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_rem_powers_precomp(a0, a1, a2, a3); }
mp_limb_signed_t __real_fmpq_poly_remove(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); mp_limb_signed_t __wrap_fmpq_poly_remove(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_remove(a0, a1, a2); }
void __real_fmpq_poly_rescale(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_t a2); void __wrap_fmpq_poly_rescale(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_rescale(a0, a1, a2); }
void __real_fmpq_poly_resultant(fmpq_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_resultant(fmpq_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_resultant(a0, a1, a2); }
void __real_fmpq_poly_resultant_div(fmpq_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, const fmpz_t a3, mp_limb_signed_t a4); void __wrap_fmpq_poly_resultant_div(fmpq_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, const fmpz_t a3, mp_limb_signed_t a4) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_fmpq_poly_resultant_div(a0, a1, a2, a3, a4); }
void __real_fmpq_poly_reverse(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_reverse(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_reverse(a0, a1, a2); }
void __real_fmpq_poly_revert_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_revert_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_revert_series(a0, a1, a2); }
void __real_fmpq_poly_revert_series_lagrange(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_revert_series_lagrange(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_revert_series_lagrange(a0, a1, a2); }
void __real_fmpq_poly_revert_series_lagrange_fast(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_revert_series_lagrange_fast(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_revert_series_lagrange_fast(a0, a1, a2); }
void __real_fmpq_poly_revert_series_newton(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_revert_series_newton(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_revert_series_newton(a0, a1, a2); }
void __real_fmpq_poly_scalar_div_fmpq(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_t a2); void __wrap_fmpq_poly_scalar_div_fmpq(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_scalar_div_fmpq(a0, a1, a2); }
void __real_fmpq_poly_scalar_div_fmpz(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpz_t a2); void __wrap_fmpq_poly_scalar_div_fmpz(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_scalar_div_fmpz(a0, a1, a2); }
void __real_fmpq_poly_scalar_div_si(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_scalar_div_si(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_scalar_div_si(a0, a1, a2); }
void __real_fmpq_poly_scalar_div_ui(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_t a2); void __wrap_fmpq_poly_scalar_div_ui(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_scalar_div_ui(a0, a1, a2); }
void __real_fmpq_poly_scalar_mul_fmpq(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_t a2); void __wrap_fmpq_poly_scalar_mul_fmpq(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_scalar_mul_fmpq(a0, a1, a2); }
void __real_fmpq_poly_scalar_mul_fmpz(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpz_t a2); void __wrap_fmpq_poly_scalar_mul_fmpz(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_scalar_mul_fmpz(a0, a1, a2); }
void __real_fmpq_poly_scalar_mul_si(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_scalar_mul_si(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_scalar_mul_si(a0, a1, a2); }
void __real_fmpq_poly_scalar_mul_ui(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_t a2); void __wrap_fmpq_poly_scalar_mul_ui(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_scalar_mul_ui(a0, a1, a2); }
void __real_fmpq_poly_set(fmpq_poly_t a0, const fmpq_poly_t a1); void __wrap_fmpq_poly_set(fmpq_poly_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_set(a0, a1); }
void __real_fmpq_poly_set_coeff_fmpq(fmpq_poly_t a0, mp_limb_signed_t a1, const fmpq_t a2); void __wrap_fmpq_poly_set_coeff_fmpq(fmpq_poly_t a0, mp_limb_signed_t a1, const fmpq_t a2) { RD(a2); WR(a0); return __real_fmpq_poly_set_coeff_fmpq(a0, a1, a2); }
void __real_fmpq_poly_set_coeff_fmpz(fmpq_poly_t a0, mp_limb_signed_t a1, const fmpz_t a2); void __wrap_fmpq_poly_set_coeff_fmpz(fmpq_poly_t a0, mp_limb_signed_t a1, const fmpz_t a2) { RD(a2); WR(a0); return __real_fmpq_poly_set_coeff_fmpz(a0, a1, a2); }
void __real_fmpq_poly_set_coeff_si(fmpq_poly_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_set_coeff_si(fmpq_poly_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpq_poly_set_coeff_si(a0, a1, a2); }
void __real_fmpq_poly_set_coeff_ui(fmpq_poly_t a0, mp_limb_signed_t a1, mp_limb_t a2); void __wrap_fmpq_poly_set_coeff_ui(fmpq_poly_t a0, mp_limb_signed_t a1, mp_limb_t a2) { WR(a0); return __real_fmpq_poly_set_coeff_ui(a0, a1, a2); }
void __real_fmpq_poly_set_fmpq(fmpq_poly_t a0, const fmpq_t a1); void __wrap_fmpq_poly_set_fmpq(fmpq_poly_t a0, const fmpq_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_set_fmpq(a0, a1); }
void __real_fmpq_poly_set_fmpz(fmpq_poly_t a0, const fmpz_t a1); void __wrap_fmpq_poly_set_fmpz(fmpq_poly_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_set_fmpz(a0, a1); }
void __real_fmpq_poly_set_fmpz_poly(fmpq_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpq_poly_set_fmpz_poly(fmpq_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpq_poly_set_fmpz_poly(a0, a1); }
void __real_fmpq_poly_set_nmod_poly(fmpq_poly_t a0, const nmod_poly_t a1); void __wrap_fmpq_poly_set_nmod_poly(fmpq_poly_t a0, const nmod_poly_t a1) { WR(a0); return __real_fmpq_poly_set_nmod_poly(a0, a1); }
void __real_fmpq_poly_set_si(fmpq_poly_t a0, mp_limb_signed_t a1); void __wrap_fmpq_poly_set_si(fmpq_poly_t a0, mp_limb_signed_t a1) { WR(a0); return __real_fmpq_poly_set_si(a0, a1); }
int __real_fmpq_poly_set_str(fmpq_poly_t a0, const char * a1); int __wrap_fmpq_poly_set_str(fmpq_poly_t a0, const char * a1) { WR(a0); return __real_fmpq_poly_set_str(a0, a1); }
void __real_fmpq_poly_set_trunc(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_set_trunc(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_set_trunc(a0, a1, a2); }
void __real_fmpq_poly_set_ui(fmpq_poly_t a0, mp_limb_t a1); void __wrap_fmpq_poly_set_ui(fmpq_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpq_poly_set_ui(a0, a1); }
void __real_fmpq_poly_shift_left(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_shift_left(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_shift_left(a0, a1, a2); }
void __real_fmpq_poly_shift_right(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_shift_right(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_shift_right(a0, a1, a2); }
void __real_fmpq_poly_si_sub(fmpq_poly_t a0, mp_limb_signed_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_si_sub(fmpq_poly_t a0, mp_limb_signed_t a1, const fmpq_poly_t a2) { RD(a2); WR(a0); return __real_fmpq_poly_si_sub(a0, a1, a2); }
void __real_fmpq_poly_sin_cos_series(fmpq_poly_t a0, fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_sin_cos_series(fmpq_poly_t a0, fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_fmpq_poly_sin_cos_series(a0, a1, a2, a3); }
void __real_fmpq_poly_sin_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_sin_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_sin_series(a0, a1, a2); }
void __real_fmpq_poly_sinh_cosh_series(fmpq_poly_t a0, fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_sinh_cosh_series(fmpq_poly_t a0, fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3) { RD(a2); WR(a0); WR(a1); return __real_fmpq_poly_sinh_cosh_series(a0, a1, a2, a3); }
void __real_fmpq_poly_sinh_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_sinh_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_sinh_series(a0, a1, a2); }
void __real_fmpq_poly_sqrt_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_sqrt_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_sqrt_series(a0, a1, a2); }
void __real_fmpq_poly_sub(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2); void __wrap_fmpq_poly_sub(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_sub(a0, a1, a2); }
void __real_fmpq_poly_sub_can(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, int a3); void __wrap_fmpq_poly_sub_can(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, int a3) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_sub_can(a0, a1, a2, a3); }
void __real_fmpq_poly_sub_fmpq(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_t a2); void __wrap_fmpq_poly_sub_fmpq(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_sub_fmpq(a0, a1, a2); }
void __real_fmpq_poly_sub_fmpz(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpz_t a2); void __wrap_fmpq_poly_sub_fmpz(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_sub_fmpz(a0, a1, a2); }
void __real_fmpq_poly_sub_series(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpq_poly_sub_series(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_sub_series(a0, a1, a2, a3); }
void __real_fmpq_poly_sub_series_can(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3, int a4); void __wrap_fmpq_poly_sub_series_can(fmpq_poly_t a0, const fmpq_poly_t a1, const fmpq_poly_t a2, mp_limb_signed_t a3, int a4) { RD(a1); RD(a2); WR(a0); return __real_fmpq_poly_sub_series_can(a0, a1, a2, a3, a4); }
void __real_fmpq_poly_sub_si(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_sub_si(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_sub_si(a0, a1, a2); }
void __real_fmpq_poly_swap(fmpq_poly_t a0, fmpq_poly_t a1); void __wrap_fmpq_poly_swap(fmpq_poly_t a0, fmpq_poly_t a1) { WR(a0); WR(a1); return __real_fmpq_poly_swap(a0, a1); }
void __real_fmpq_poly_tan_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_tan_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_tan_series(a0, a1, a2); }
void __real_fmpq_poly_tanh_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpq_poly_tanh_series(fmpq_poly_t a0, const fmpq_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_poly_tanh_series(a0, a1, a2); }
void __real_fmpq_poly_truncate(fmpq_poly_t a0, mp_limb_signed_t a1); void __wrap_fmpq_poly_truncate(fmpq_poly_t a0, mp_limb_signed_t a1) { WR(a0); return __real_fmpq_poly_truncate(a0, a1); }
void __real_fmpq_poly_xgcd(fmpq_poly_t a0, fmpq_poly_t a1, fmpq_poly_t a2, const fmpq_poly_t a3, const fmpq_poly_t a4); void __wrap_fmpq_poly_xgcd(fmpq_poly_t a0, fmpq_poly_t a1, fmpq_poly_t a2, const fmpq_poly_t a3, const fmpq_poly_t a4) { RD(a3); RD(a4); WR(a0); WR(a1); WR(a2); return __real_fmpq_poly_xgcd(a0, a1, a2, a3, a4); }
void __real_fmpq_poly_zero(fmpq_poly_t a0); void __wrap_fmpq_poly_zero(fmpq_poly_t a0) { WR(a0); return __real_fmpq_poly_zero(a0); }
int __real_fmpq_pow_fmpz(fmpq_t a0, const fmpq_t a1, const fmpz_t a2); int __wrap_fmpq_pow_fmpz(fmpq_t a0, const fmpq_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_pow_fmpz(a0, a1, a2); }
void __real_fmpq_pow_si(fmpq_t a0, const fmpq_t a1, mp_limb_signed_t a2); void __wrap_fmpq_pow_si(fmpq_t a0, const fmpq_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_pow_si(a0, a1, a2); }
int __real_fmpq_print(const fmpq_t a0); int __wrap_fmpq_print(const fmpq_t a0) { RD(a0); return __real_fmpq_print(a0); }
int __real_fmpq_reconstruct_fmpz(fmpq_t a0, const fmpz_t a1, const fmpz_t a2); int __wrap_fmpq_reconstruct_fmpz(fmpq_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_reconstruct_fmpz(a0, a1, a2); }
int __real_fmpq_reconstruct_fmpz_2(fmpq_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4); int __wrap_fmpq_reconstruct_fmpz_2(fmpq_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4) { RD(a1); RD(a2); RD(a3); RD(a4); WR(a0); return __real_fmpq_reconstruct_fmpz_2(a0, a1, a2, a3, a4); }
void __real_fmpq_set_cfrac(fmpq_t a0, const fmpz * a1, mp_limb_signed_t a2); void __wrap_fmpq_set_cfrac(fmpq_t a0, const fmpz * a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpq_set_cfrac(a0, a1, a2); }
void __real_fmpq_set_fmpz_frac(fmpq_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpq_set_fmpz_frac(fmpq_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_set_fmpz_frac(a0, a1, a2); }
void __real_fmpq_set_si(fmpq_t a0, mp_limb_signed_t a1, mp_limb_t a2); void __wrap_fmpq_set_si(fmpq_t a0, mp_limb_signed_t a1, mp_limb_t a2) { WR(a0); return __real_fmpq_set_si(a0, a1, a2); }
int __real_fmpq_set_str(fmpq_t a0, const char * a1, int a2); int __wrap_fmpq_set_str(fmpq_t a0, const char * a1, int a2) { WR(a0); return __real_fmpq_set_str(a0, a1, a2); }
void __real_fmpq_set_ui(fmpq_t a0, mp_limb_t a1, mp_limb_t a2); void __wrap_fmpq_set_ui(fmpq_t a0, mp_limb_t a1, mp_limb_t a2) { WR(a0); return __real_fmpq_set_ui(a0, a1, a2); }
void __real_fmpq_simplest_between(fmpq_t a0, const fmpq_t a1, const fmpq_t a2); void __wrap_fmpq_simplest_between(fmpq_t a0, const fmpq_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_simplest_between(a0, a1, a2); }
void __real_fmpq_sub(fmpq_t a0, const fmpq_t a1, const fmpq_t a2); void __wrap_fmpq_sub(fmpq_t a0, const fmpq_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_sub(a0, a1, a2); }
void __real_fmpq_sub_fmpz(fmpq_t a0, const fmpq_t a1, const fmpz_t a2); void __wrap_fmpq_sub_fmpz(fmpq_t a0, const fmpq_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_sub_fmpz(a0, a1, a2); }
void __real_fmpq_sub_si(fmpq_t a0, const fmpq_t a1, mp_limb_signed_t a2); void __wrap_fmpq_sub_si(fmpq_t a0, const fmpq_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpq_sub_si(a0, a1, a2); }
void __real_fmpq_sub_ui(fmpq_t a0, const fmpq_t a1, mp_limb_t a2); void __wrap_fmpq_sub_ui(fmpq_t a0, const fmpq_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpq_sub_ui(a0, a1, a2); }
void __real_fmpq_submul(fmpq_t a0, const fmpq_t a1, const fmpq_t a2); void __wrap_fmpq_submul(fmpq_t a0, const fmpq_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpq_submul(a0, a1, a2); }
void __real_fmpz_CRT(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, fmpz_t a3, fmpz_t a4, int a5); void __wrap_fmpz_CRT(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, fmpz_t a3, fmpz_t a4, int a5) { RD(a1); RD(a2); WR(a0); WR(a3); WR(a4); return __real_fmpz_CRT(a0, a1, a2, a3, a4, a5); }
void __real_fmpz_CRT_ui(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, mp_limb_t a3, mp_limb_t a4, int a5); void __wrap_fmpz_CRT_ui(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, mp_limb_t a3, mp_limb_t a4, int a5) { RD(a1); RD(a2); WR(a0); return __real_fmpz_CRT_ui(a0, a1, a2, a3, a4, a5); }
void __real_fmpz_abs(fmpz_t a0, const fmpz_t a1); void __wrap_fmpz_abs(fmpz_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_fmpz_abs(a0, a1); }
int __real_fmpz_abs_fits_ui(const fmpz_t a0); int __wrap_fmpz_abs_fits_ui(const fmpz_t a0) { RD(a0); return __real_fmpz_abs_fits_ui(a0); }
mp_limb_t __real_fmpz_abs_lbound_ui_2exp(mp_limb_signed_t * a0, const fmpz_t a1, int a2); mp_limb_t __wrap_fmpz_abs_lbound_ui_2exp(mp_limb_signed_t * a0, const fmpz_t a1, int a2) { RD(a1); return __real_fmpz_abs_lbound_ui_2exp(a0, a1, a2); }
mp_limb_t __real_fmpz_abs_ubound_ui_2exp(mp_limb_signed_t * a0, const fmpz_t a1, int a2); mp_limb_t __wrap_fmpz_abs_ubound_ui_2exp(mp_limb_signed_t * a0, const fmpz_t a1, int a2) { RD(a1); return __real_fmpz_abs_ubound_ui_2exp(a0, a1, a2); }
void __real_fmpz_add(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_add(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_add(a0, a1, a2); }
void __real_fmpz_add_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_add_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_add_ui(a0, a1, a2); }
void __real_fmpz_addmul(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_addmul(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_addmul(a0, a1, a2); }
void __real_fmpz_addmul_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_fmpz_addmul_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_addmul_si(a0, a1, a2); }
void __real_fmpz_addmul_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_addmul_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_addmul_ui(a0, a1, a2); }
void __real_fmpz_and(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_and(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_and(a0, a1, a2); }
void __real_fmpz_bin_uiui(fmpz_t a0, mp_limb_t a1, mp_limb_t a2); void __wrap_fmpz_bin_uiui(fmpz_t a0, mp_limb_t a1, mp_limb_t a2) { WR(a0); return __real_fmpz_bin_uiui(a0, a1, a2); }
int __real_fmpz_bit_pack(mp_ptr a0, mp_limb_t a1, mp_limb_t a2, const fmpz_t a3, int a4, int a5); int __wrap_fmpz_bit_pack(mp_ptr a0, mp_limb_t a1, mp_limb_t a2, const fmpz_t a3, int a4, int a5) { RD(a3); return __real_fmpz_bit_pack(a0, a1, a2, a3, a4, a5); }
int __real_fmpz_bit_unpack(fmpz_t a0, mp_srcptr a1, mp_limb_t a2, mp_limb_t a3, int a4, int a5); int __wrap_fmpz_bit_unpack(fmpz_t a0, mp_srcptr a1, mp_limb_t a2, mp_limb_t a3, int a4, int a5) { WR(a0); return __real_fmpz_bit_unpack(a0, a1, a2, a3, a4, a5); }
void __real_fmpz_bit_unpack_unsigned(fmpz_t a0, mp_srcptr a1, mp_limb_t a2, mp_limb_t a3); void __wrap_fmpz_bit_unpack_unsigned(fmpz_t a0, mp_srcptr a1, mp_limb_t a2, mp_limb_t a3) { WR(a0); return __real_fmpz_bit_unpack_unsigned(a0, a1, a2, a3); }
mp_limb_t __real_fmpz_bits(const fmpz_t a0); mp_limb_t __wrap_fmpz_bits(const fmpz_t a0) { RD(a0); return __real_fmpz_bits(a0); }
void __real_fmpz_cdiv_q(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_cdiv_q(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_cdiv_q(a0, a1, a2); }
void __real_fmpz_cdiv_q_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_cdiv_q_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_cdiv_q_2exp(a0, a1, a2); }
void __real_fmpz_cdiv_q_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_fmpz_cdiv_q_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_cdiv_q_si(a0, a1, a2); }
void __real_fmpz_cdiv_q_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_cdiv_q_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_cdiv_q_ui(a0, a1, a2); }
void __real_fmpz_cdiv_qr(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3); void __wrap_fmpz_cdiv_qr(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpz_cdiv_qr(a0, a1, a2, a3); }
void __real_fmpz_cdiv_r_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_cdiv_r_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_cdiv_r_2exp(a0, a1, a2); }
mp_limb_t __real_fmpz_cdiv_ui(const fmpz_t a0, mp_limb_t a1); mp_limb_t __wrap_fmpz_cdiv_ui(const fmpz_t a0, mp_limb_t a1) { RD(a0); return __real_fmpz_cdiv_ui(a0, a1); }
void __real_fmpz_clear_readonly(fmpz_t a0); void __wrap_fmpz_clear_readonly(fmpz_t a0) { WR(a0); return __real_fmpz_clear_readonly(a0); }
mp_limb_signed_t __real_fmpz_clog(const fmpz_t a0, const fmpz_t a1); mp_limb_signed_t __wrap_fmpz_clog(const fmpz_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_clog(a0, a1); }
mp_limb_signed_t __real_fmpz_clog_ui(const fmpz_t a0, mp_limb_t a1); mp_limb_signed_t __wrap_fmpz_clog_ui(const fmpz_t a0, mp_limb_t a1) { RD(a0); return __real_fmpz_clog_ui(a0, a1); }
void __real_fmpz_clrbit(fmpz_t a0, mp_limb_t a1); void __wrap_fmpz_clrbit(fmpz_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_clrbit(a0, a1); }
int __real_fmpz_cmp(const fmpz_t a0, const fmpz_t a1); int __wrap_fmpz_cmp(const fmpz_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_cmp(a0, a1); }
int __real_fmpz_cmp2abs(const fmpz_t a0, const fmpz_t a1); int __wrap_fmpz_cmp2abs(const fmpz_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_cmp2abs(a0, a1); }
int __real_fmpz_cmp_si(const fmpz_t a0, mp_limb_signed_t a1); int __wrap_fmpz_cmp_si(const fmpz_t a0, mp_limb_signed_t a1) { RD(a0); return __real_fmpz_cmp_si(a0, a1); }
int __real_fmpz_cmp_ui(const fmpz_t a0, mp_limb_t a1); int __wrap_fmpz_cmp_ui(const fmpz_t a0, mp_limb_t a1) { RD(a0); return __real_fmpz_cmp_ui(a0, a1); }
int __real_fmpz_cmpabs(const fmpz_t a0, const fmpz_t a1); int __wrap_fmpz_cmpabs(const fmpz_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_cmpabs(a0, a1); }
void __real_fmpz_combit(fmpz_t a0, mp_limb_t a1); void __wrap_fmpz_combit(fmpz_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_combit(a0, a1); }
void __real_fmpz_complement(fmpz_t a0, const fmpz_t a1); void __wrap_fmpz_complement(fmpz_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_fmpz_complement(a0, a1); }
void __real_fmpz_divexact(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_divexact(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_divexact(a0, a1, a2); }
void __real_fmpz_divexact_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_fmpz_divexact_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_divexact_si(a0, a1, a2); }
void __real_fmpz_divexact_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_divexact_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_divexact_ui(a0, a1, a2); }
int __real_fmpz_divides(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); int __wrap_fmpz_divides(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_divides(a0, a1, a2); }
void __real_fmpz_divides_mod_list(fmpz_t a0, fmpz_t a1, fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5); void __wrap_fmpz_divides_mod_list(fmpz_t a0, fmpz_t a1, fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5) { RD(a3); RD(a4); RD(a5); WR(a0); WR(a1); WR(a2); return __real_fmpz_divides_mod_list(a0, a1, a2, a3, a4, a5); }
int __real_fmpz_divisible(const fmpz_t a0, const fmpz_t a1); int __wrap_fmpz_divisible(const fmpz_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_divisible(a0, a1); }
int __real_fmpz_divisible_si(const fmpz_t a0, mp_limb_signed_t a1); int __wrap_fmpz_divisible_si(const fmpz_t a0, mp_limb_signed_t a1) { RD(a0); return __real_fmpz_divisible_si(a0, a1); }
int __real_fmpz_divisor_in_residue_class_lenstra(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3); int __wrap_fmpz_divisor_in_residue_class_lenstra(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_fmpz_divisor_in_residue_class_lenstra(a0, a1, a2, a3); }
void __real_fmpz_divisor_sigma(fmpz_t a0, mp_limb_t a1, const fmpz_t a2); void __wrap_fmpz_divisor_sigma(fmpz_t a0, mp_limb_t a1, const fmpz_t a2) { RD(a2); WR(a0); return __real_fmpz_divisor_sigma(a0, a1, a2); }
double __real_fmpz_dlog(const fmpz_t a0); double __wrap_fmpz_dlog(const fmpz_t a0) { RD(a0); return __real_fmpz_dlog(a0); }
int __real_fmpz_equal(const fmpz_t a0, const fmpz_t a1); int __wrap_fmpz_equal(const fmpz_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_equal(a0, a1); }
int __real_fmpz_equal_si(const fmpz_t a0, mp_limb_signed_t a1); int __wrap_fmpz_equal_si(const fmpz_t a0, mp_limb_signed_t a1) { RD(a0); return __real_fmpz_equal_si(a0, a1); }
int __real_fmpz_equal_ui(const fmpz_t a0, mp_limb_t a1); int __wrap_fmpz_equal_ui(const fmpz_t a0, mp_limb_t a1) { RD(a0); return __real_fmpz_equal_ui(a0, a1); }
void __real_fmpz_euler_phi(fmpz_t a0, const fmpz_t a1); void __wrap_fmpz_euler_phi(fmpz_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_fmpz_euler_phi(a0, a1); }
void __real_fmpz_fac_ui(fmpz_t a0, mp_limb_t a1); void __wrap_fmpz_fac_ui(fmpz_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_fac_ui(a0, a1); }
void __real_fmpz_fdiv_q(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_fdiv_q(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_fdiv_q(a0, a1, a2); }
void __real_fmpz_fdiv_q_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_fdiv_q_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_fdiv_q_2exp(a0, a1, a2); }
void __real_fmpz_fdiv_q_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_fmpz_fdiv_q_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_fdiv_q_si(a0, a1, a2); }
void __real_fmpz_fdiv_q_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_fdiv_q_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_fdiv_q_ui(a0, a1, a2); }
void __real_fmpz_fdiv_qr(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3); void __wrap_fmpz_fdiv_qr(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpz_fdiv_qr(a0, a1, a2, a3); }
void __real_fmpz_fdiv_qr_preinvn(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_preinvn_t a4); void __wrap_fmpz_fdiv_qr_preinvn(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_preinvn_t a4) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpz_fdiv_qr_preinvn(a0, a1, a2, a3, a4); }
void __real_fmpz_fdiv_r(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_fdiv_r(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_fdiv_r(a0, a1, a2); }
void __real_fmpz_fdiv_r_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_fdiv_r_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_fdiv_r_2exp(a0, a1, a2); }
void __real_fmpz_fdiv_r_preinvn(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_preinvn_t a3); void __wrap_fmpz_fdiv_r_preinvn(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_preinvn_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_fdiv_r_preinvn(a0, a1, a2, a3); }
mp_limb_t __real_fmpz_fdiv_ui(const fmpz_t a0, mp_limb_t a1); mp_limb_t __wrap_fmpz_fdiv_ui(const fmpz_t a0, mp_limb_t a1) { RD(a0); return __real_fmpz_fdiv_ui(a0, a1); }
void __real_fmpz_fib_ui(fmpz_t a0, mp_limb_t a1); void __wrap_fmpz_fib_ui(fmpz_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_fib_ui(a0, a1); }
int __real_fmpz_fits_si(const fmpz_t a0); int __wrap_fmpz_fits_si(const fmpz_t a0) { RD(a0); return __real_fmpz_fits_si(a0); }
mp_limb_signed_t __real_fmpz_flog(const fmpz_t a0, const fmpz_t a1); mp_limb_signed_t __wrap_fmpz_flog(const fmpz_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_flog(a0, a1); }
mp_limb_signed_t __real_fmpz_flog_ui(const fmpz_t a0, mp_limb_t a1); mp_limb_signed_t __wrap_fmpz_flog_ui(const fmpz_t a0, mp_limb_t a1) { RD(a0); return __real_fmpz_flog_ui(a0, a1); }
void __real_fmpz_fmma(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4); void __wrap_fmpz_fmma(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4) { RD(a1); RD(a2); RD(a3); RD(a4); WR(a0); return __real_fmpz_fmma(a0, a1, a2, a3, a4); }
void __real_fmpz_fmms(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4); void __wrap_fmpz_fmms(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4) { RD(a1); RD(a2); RD(a3); RD(a4); WR(a0); return __real_fmpz_fmms(a0, a1, a2, a3, a4); }
void __real_fmpz_gcd(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_gcd(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_gcd(a0, a1, a2); }
void __real_fmpz_gcd3(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3); void __wrap_fmpz_gcd3(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_fmpz_gcd3(a0, a1, a2, a3); }
void __real_fmpz_gcd_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_gcd_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_gcd_ui(a0, a1, a2); }
void __real_fmpz_gcdinv(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3); void __wrap_fmpz_gcdinv(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpz_gcdinv(a0, a1, a2, a3); }
double __real_fmpz_get_d(const fmpz_t a0); double __wrap_fmpz_get_d(const fmpz_t a0) { RD(a0); return __real_fmpz_get_d(a0); }
double __real_fmpz_get_d_2exp(mp_limb_signed_t * a0, const fmpz_t a1); double __wrap_fmpz_get_d_2exp(mp_limb_signed_t * a0, const fmpz_t a1) { RD(a1); return __real_fmpz_get_d_2exp(a0, a1); }
int __real_fmpz_get_mpn(mp_ptr * a0, fmpz_t a1); int __wrap_fmpz_get_mpn(mp_ptr * a0, fmpz_t a1) { WR(a1); return __real_fmpz_get_mpn(a0, a1); }
void __real_fmpz_get_mpz(mpz_t a0, const fmpz_t a1); void __wrap_fmpz_get_mpz(mpz_t a0, const fmpz_t a1) { RD(a1); return __real_fmpz_get_mpz(a0, a1); }
mp_limb_t __real_fmpz_get_nmod(const fmpz_t a0, nmod_t a1); mp_limb_t __wrap_fmpz_get_nmod(const fmpz_t a0, nmod_t a1) { RD(a0); return __real_fmpz_get_nmod(a0, a1); }
mp_limb_signed_t __real_fmpz_get_si(const fmpz_t a0); mp_limb_signed_t __wrap_fmpz_get_si(const fmpz_t a0) { RD(a0); return __real_fmpz_get_si(a0); }
void __real_fmpz_get_signed_ui_array(mp_limb_t * a0, mp_limb_signed_t a1, const fmpz_t a2); void __wrap_fmpz_get_signed_ui_array(mp_limb_t * a0, mp_limb_signed_t a1, const fmpz_t a2) { RD(a2); return __real_fmpz_get_signed_ui_array(a0, a1, a2); }
void __real_fmpz_get_signed_uiui(mp_limb_t * a0, mp_limb_t * a1, const fmpz_t a2); void __wrap_fmpz_get_signed_uiui(mp_limb_t * a0, mp_limb_t * a1, const fmpz_t a2) { RD(a2); return __real_fmpz_get_signed_uiui(a0, a1, a2); }
char * __real_fmpz_get_str(char * a0, int a1, const fmpz_t a2); char * __wrap_fmpz_get_str(char * a0, int a1, const fmpz_t a2) { RD(a2); return __real_fmpz_get_str(a0, a1, a2); }
mp_limb_t __real_fmpz_get_ui(const fmpz_t a0); mp_limb_t __wrap_fmpz_get_ui(const fmpz_t a0) { RD(a0); return __real_fmpz_get_ui(a0); }
void __real_fmpz_get_ui_array(mp_limb_t * a0, mp_limb_signed_t a1, const fmpz_t a2); void __wrap_fmpz_get_ui_array(mp_limb_t * a0, mp_limb_signed_t a1, const fmpz_t a2) { RD(a2); return __real_fmpz_get_ui_array(a0, a1, a2); }
void __real_fmpz_init2(fmpz_t a0, mp_limb_t a1); void __wrap_fmpz_init2(fmpz_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_init2(a0, a1); }
void __real_fmpz_init_set_readonly(fmpz_t a0, const mpz_t a1); void __wrap_fmpz_init_set_readonly(fmpz_t a0, const mpz_t a1) { WR(a0); return __real_fmpz_init_set_readonly(a0, a1); }
int __real_fmpz_invmod(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); int __wrap_fmpz_invmod(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_invmod(a0, a1, a2); }
int __real_fmpz_is_perfect_power(fmpz_t a0, const fmpz_t a1); int __wrap_fmpz_is_perfect_power(fmpz_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_fmpz_is_perfect_power(a0, a1); }
int __real_fmpz_is_prime(const fmpz_t a0); int __wrap_fmpz_is_prime(const fmpz_t a0) { RD(a0); return __real_fmpz_is_prime(a0); }
int __real_fmpz_is_prime_morrison(fmpz_t a0, fmpz_t a1, const fmpz_t a2, mp_ptr a3, mp_limb_signed_t a4); int __wrap_fmpz_is_prime_morrison(fmpz_t a0, fmpz_t a1, const fmpz_t a2, mp_ptr a3, mp_limb_signed_t a4) { RD(a2); WR(a0); WR(a1); return __real_fmpz_is_prime_morrison(a0, a1, a2, a3, a4); }
int __real_fmpz_is_prime_pocklington(fmpz_t a0, fmpz_t a1, const fmpz_t a2, mp_ptr a3, mp_limb_signed_t a4); int __wrap_fmpz_is_prime_pocklington(fmpz_t a0, fmpz_t a1, const fmpz_t a2, mp_ptr a3, mp_limb_signed_t a4) { RD(a2); WR(a0); WR(a1); return __real_fmpz_is_prime_pocklington(a0, a1, a2, a3, a4); }
int __real_fmpz_is_prime_pseudosquare(const fmpz_t a0); int __wrap_fmpz_is_prime_pseudosquare(const fmpz_t a0) { RD(a0); return __real_fmpz_is_prime_pseudosquare(a0); }
int __real_fmpz_is_probabprime(const fmpz_t a0); int __wrap_fmpz_is_probabprime(const fmpz_t a0) { RD(a0); return __real_fmpz_is_probabprime(a0); }
int __real_fmpz_is_probabprime_BPSW(const fmpz_t a0); int __wrap_fmpz_is_probabprime_BPSW(const fmpz_t a0) { RD(a0); return __real_fmpz_is_probabprime_BPSW(a0); }
int __real_fmpz_is_probabprime_lucas(const fmpz_t a0); int __wrap_fmpz_is_probabprime_lucas(const fmpz_t a0) { RD(a0); return __real_fmpz_is_probabprime_lucas(a0); }
int __real_fmpz_is_square(const fmpz_t a0); int __wrap_fmpz_is_square(const fmpz_t a0) { RD(a0); return __real_fmpz_is_square(a0); }
int __real_fmpz_is_strong_probabprime(const fmpz_t a0, const fmpz_t a1); int __wrap_fmpz_is_strong_probabprime(const fmpz_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_is_strong_probabprime(a0, a1); }
int __real_fmpz_jacobi(const fmpz_t a0, const fmpz_t a1); int __wrap_fmpz_jacobi(const fmpz_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_jacobi(a0, a1); }
int __real_fmpz_kronecker(const fmpz_t a0, const fmpz_t a1); int __wrap_fmpz_kronecker(const fmpz_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_kronecker(a0, a1); }
void __real_fmpz_lcm(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_lcm(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_lcm(a0, a1, a2); }
void __real_fmpz_lshift_mpn(fmpz_t a0, mp_srcptr a1, mp_size_t a2, int a3, mp_limb_t a4); void __wrap_fmpz_lshift_mpn(fmpz_t a0, mp_srcptr a1, mp_size_t a2, int a3, mp_limb_t a4) { WR(a0); return __real_fmpz_lshift_mpn(a0, a1, a2, a3, a4); }
void __real_fmpz_lucas_chain(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4); void __wrap_fmpz_lucas_chain(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4) { RD(a2); RD(a3); RD(a4); WR(a0); WR(a1); return __real_fmpz_lucas_chain(a0, a1, a2, a3, a4); }
void __real_fmpz_lucas_chain_VtoU(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5, const fmpz_t a6, const fmpz_t a7); void __wrap_fmpz_lucas_chain_VtoU(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5, const fmpz_t a6, const fmpz_t a7) { RD(a2); RD(a3); RD(a4); RD(a5); RD(a6); RD(a7); WR(a0); WR(a1); return __real_fmpz_lucas_chain_VtoU(a0, a1, a2, a3, a4, a5, a6, a7); }
void __real_fmpz_lucas_chain_add(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5, const fmpz_t a6, const fmpz_t a7, const fmpz_t a8); void __wrap_fmpz_lucas_chain_add(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5, const fmpz_t a6, const fmpz_t a7, const fmpz_t a8) { RD(a2); RD(a3); RD(a4); RD(a5); RD(a6); RD(a7); RD(a8); WR(a0); WR(a1); return __real_fmpz_lucas_chain_add(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_fmpz_lucas_chain_double(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5, const fmpz_t a6); void __wrap_fmpz_lucas_chain_double(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5, const fmpz_t a6) { RD(a2); RD(a3); RD(a4); RD(a5); RD(a6); WR(a0); WR(a1); return __real_fmpz_lucas_chain_double(a0, a1, a2, a3, a4, a5, a6); }
void __real_fmpz_lucas_chain_full(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5); void __wrap_fmpz_lucas_chain_full(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5) { RD(a2); RD(a3); RD(a4); RD(a5); WR(a0); WR(a1); return __real_fmpz_lucas_chain_full(a0, a1, a2, a3, a4, a5); }
void __real_fmpz_lucas_chain_mul(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5, const fmpz_t a6, const fmpz_t a7); void __wrap_fmpz_lucas_chain_mul(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3, const fmpz_t a4, const fmpz_t a5, const fmpz_t a6, const fmpz_t a7) { RD(a2); RD(a3); RD(a4); RD(a5); RD(a6); RD(a7); WR(a0); WR(a1); return __real_fmpz_lucas_chain_mul(a0, a1, a2, a3, a4, a5, a6, a7); }
void __real_fmpz_mod(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_mod(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_mod(a0, a1, a2); }
int __real_fmpz_moebius_mu(const fmpz_t a0); int __wrap_fmpz_moebius_mu(const fmpz_t a0) { RD(a0); return __real_fmpz_moebius_mu(a0); }
void __real_fmpz_mul(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_mul(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_mul(a0, a1, a2); }
void __real_fmpz_mul_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_mul_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_mul_2exp(a0, a1, a2); }
void __real_fmpz_mul_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_fmpz_mul_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_mul_si(a0, a1, a2); }
void __real_fmpz_mul_si_tdiv_q_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2, mp_limb_t a3); void __wrap_fmpz_mul_si_tdiv_q_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2, mp_limb_t a3) { RD(a1); WR(a0); return __real_fmpz_mul_si_tdiv_q_2exp(a0, a1, a2, a3); }
void __real_fmpz_mul_tdiv_q_2exp(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, mp_limb_t a3); void __wrap_fmpz_mul_tdiv_q_2exp(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, mp_limb_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_mul_tdiv_q_2exp(a0, a1, a2, a3); }
void __real_fmpz_mul_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_mul_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_mul_ui(a0, a1, a2); }
int __real_fmpz_multi_CRT(fmpz_t a0, const fmpz * a1, const fmpz * a2, mp_limb_signed_t a3, int a4); int __wrap_fmpz_multi_CRT(fmpz_t a0, const fmpz * a1, const fmpz * a2, mp_limb_signed_t a3, int a4) { WR(a0); return __real_fmpz_multi_CRT(a0, a1, a2, a3, a4); }
void __real_fmpz_multi_CRT_precomp(fmpz_t a0, const fmpz_multi_CRT_t a1, const fmpz * a2, int a3); void __wrap_fmpz_multi_CRT_precomp(fmpz_t a0, const fmpz_multi_CRT_t a1, const fmpz * a2, int a3) { WR(a0); return __real_fmpz_multi_CRT_precomp(a0, a1, a2, a3); }
void __real_fmpz_multi_CRT_ui(fmpz_t a0, mp_srcptr a1, const fmpz_comb_t a2, fmpz_comb_temp_t a3, int a4); void __wrap_fmpz_multi_CRT_ui(fmpz_t a0, mp_srcptr a1, const fmpz_comb_t a2, fmpz_comb_temp_t a3, int a4) { WR(a0); return __real_fmpz_multi_CRT_ui(a0, a1, a2, a3, a4); }
void __real_fmpz_multi_mod_precomp(fmpz * a0, const fmpz_multi_mod_t a1, const fmpz_t a2, int a3); void __wrap_fmpz_multi_mod_precomp(fmpz * a0, const fmpz_multi_mod_t a1, const fmpz_t a2, int a3) { RD(a2); return __real_fmpz_multi_mod_precomp(a0, a1, a2, a3); }
void __real_fmpz_multi_mod_ui(mp_limb_t * a0, const fmpz_t a1, const fmpz_comb_t a2, fmpz_comb_temp_t a3); void __wrap_fmpz_multi_mod_ui(mp_limb_t * a0, const fmpz_t a1, const fmpz_comb_t a2, fmpz_comb_temp_t a3) { RD(a1); return __real_fmpz_multi_mod_ui(a0, a1, a2, a3); }
void __real_fmpz_ndiv_qr(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3); void __wrap_fmpz_ndiv_qr(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpz_ndiv_qr(a0, a1, a2, a3); }
void __real_fmpz_neg(fmpz_t a0, const fmpz_t a1); void __wrap_fmpz_neg(fmpz_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_fmpz_neg(a0, a1); }
void __real_fmpz_nextprime(fmpz_t a0, const fmpz_t a1, int a2); void __wrap_fmpz_nextprime(fmpz_t a0, const fmpz_t a1, int a2) { RD(a1); WR(a0); return __real_fmpz_nextprime(a0, a1, a2); }
void __real_fmpz_one_2exp(fmpz_t a0, mp_limb_t a1); void __wrap_fmpz_one_2exp(fmpz_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_one_2exp(a0, a1); }
void __real_fmpz_or(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_or(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_or(a0, a1, a2); }
void __real_fmpz_poly_2norm(fmpz_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_2norm(fmpz_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_2norm(a0, a1); }
void __real_fmpz_poly_CLD_bound(fmpz_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_CLD_bound(fmpz_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_CLD_bound(a0, a1, a2); }
void __real_fmpz_poly_CRT_ui(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2, const nmod_poly_t a3, int a4); void __wrap_fmpz_poly_CRT_ui(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2, const nmod_poly_t a3, int a4) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_CRT_ui(a0, a1, a2, a3, a4); }
void __real_fmpz_poly_add(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_add(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_add(a0, a1, a2); }
void __real_fmpz_poly_add_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, fmpz_t a2); void __wrap_fmpz_poly_add_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, fmpz_t a2) { RD(a1); WR(a0); WR(a2); return __real_fmpz_poly_add_fmpz(a0, a1, a2); }
void __real_fmpz_poly_add_series(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_add_series(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_add_series(a0, a1, a2, a3); }
void __real_fmpz_poly_add_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_add_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_add_si(a0, a1, a2); }
void __real_fmpz_poly_bit_pack(fmpz_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_bit_pack(fmpz_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_bit_pack(a0, a1, a2); }
void __real_fmpz_poly_bit_unpack(fmpz_poly_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_poly_bit_unpack(fmpz_poly_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_bit_unpack(a0, a1, a2); }
void __real_fmpz_poly_bit_unpack_unsigned(fmpz_poly_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_poly_bit_unpack_unsigned(fmpz_poly_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_bit_unpack_unsigned(a0, a1, a2); }
void __real_fmpz_poly_bound_roots(fmpz_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_bound_roots(fmpz_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_bound_roots(a0, a1); }
void __real_fmpz_poly_chebyshev_t(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_chebyshev_t(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_chebyshev_t(a0, a1); }
void __real_fmpz_poly_chebyshev_u(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_chebyshev_u(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_chebyshev_u(a0, a1); }
void __real_fmpz_poly_clear(fmpz_poly_t a0); void __wrap_fmpz_poly_clear(fmpz_poly_t a0) { WR(a0); return __real_fmpz_poly_clear(a0); }
void __real_fmpz_poly_compose(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_compose(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_compose(a0, a1, a2); }
void __real_fmpz_poly_compose_divconquer(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_compose_divconquer(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_compose_divconquer(a0, a1, a2); }
void __real_fmpz_poly_compose_horner(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_compose_horner(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_compose_horner(a0, a1, a2); }
void __real_fmpz_poly_compose_series(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_compose_series(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_compose_series(a0, a1, a2, a3); }
void __real_fmpz_poly_compose_series_brent_kung(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_compose_series_brent_kung(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_compose_series_brent_kung(a0, a1, a2, a3); }
void __real_fmpz_poly_compose_series_horner(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_compose_series_horner(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_compose_series_horner(a0, a1, a2, a3); }
void __real_fmpz_poly_content(fmpz_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_content(fmpz_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_content(a0, a1); }
void __real_fmpz_poly_cos_minpoly(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_cos_minpoly(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_cos_minpoly(a0, a1); }
void __real_fmpz_poly_cyclotomic(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_cyclotomic(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_cyclotomic(a0, a1); }
void __real_fmpz_poly_debug(const fmpz_poly_t a0); void __wrap_fmpz_poly_debug(const fmpz_poly_t a0) { RD(a0); return __real_fmpz_poly_debug(a0); }
void __real_fmpz_poly_deflate(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_deflate(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_deflate(a0, a1, a2); }
void __real_fmpz_poly_derivative(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_derivative(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_derivative(a0, a1); }
void __real_fmpz_poly_discriminant(fmpz_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_discriminant(fmpz_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_discriminant(a0, a1); }
void __real_fmpz_poly_div(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_div(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_div(a0, a1, a2); }
void __real_fmpz_poly_div_basecase(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_div_basecase(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_div_basecase(a0, a1, a2); }
void __real_fmpz_poly_div_divconquer(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_div_divconquer(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_div_divconquer(a0, a1, a2); }
void __real_fmpz_poly_div_preinv(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3); void __wrap_fmpz_poly_div_preinv(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_fmpz_poly_div_preinv(a0, a1, a2, a3); }
void __real_fmpz_poly_div_root(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_div_root(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_div_root(a0, a1, a2); }
void __real_fmpz_poly_div_series(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_div_series(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_div_series(a0, a1, a2, a3); }
void __real_fmpz_poly_div_series_basecase(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_div_series_basecase(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_div_series_basecase(a0, a1, a2, a3); }
void __real_fmpz_poly_div_series_divconquer(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_div_series_divconquer(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_div_series_divconquer(a0, a1, a2, a3); }
void __real_fmpz_poly_divhigh_smodp(fmpz * a0, const fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_t a3, mp_limb_signed_t a4); void __wrap_fmpz_poly_divhigh_smodp(fmpz * a0, const fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_t a3, mp_limb_signed_t a4) { RD(a1); RD(a2); RD(a3); return __real_fmpz_poly_divhigh_smodp(a0, a1, a2, a3, a4); }
int __real_fmpz_poly_divides(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); int __wrap_fmpz_poly_divides(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_divides(a0, a1, a2); }
void __real_fmpz_poly_divlow_smodp(fmpz * a0, const fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_t a3, mp_limb_signed_t a4); void __wrap_fmpz_poly_divlow_smodp(fmpz * a0, const fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_t a3, mp_limb_signed_t a4) { RD(a1); RD(a2); RD(a3); return __real_fmpz_poly_divlow_smodp(a0, a1, a2, a3, a4); }
void __real_fmpz_poly_divrem(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3); void __wrap_fmpz_poly_divrem(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpz_poly_divrem(a0, a1, a2, a3); }
void __real_fmpz_poly_divrem_basecase(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3); void __wrap_fmpz_poly_divrem_basecase(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpz_poly_divrem_basecase(a0, a1, a2, a3); }
void __real_fmpz_poly_divrem_divconquer(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3); void __wrap_fmpz_poly_divrem_divconquer(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpz_poly_divrem_divconquer(a0, a1, a2, a3); }
void __real_fmpz_poly_divrem_preinv(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3, const fmpz_poly_t a4); void __wrap_fmpz_poly_divrem_preinv(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3, const fmpz_poly_t a4) { RD(a2); RD(a3); RD(a4); WR(a0); WR(a1); return __real_fmpz_poly_divrem_preinv(a0, a1, a2, a3, a4); }
int __real_fmpz_poly_equal(const fmpz_poly_t a0, const fmpz_poly_t a1); int __wrap_fmpz_poly_equal(const fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a0); RD(a1); return __real_fmpz_poly_equal(a0, a1); }
int __real_fmpz_poly_equal_fmpz(const fmpz_poly_t a0, const fmpz_t a1); int __wrap_fmpz_poly_equal_fmpz(const fmpz_poly_t a0, const fmpz_t a1) { RD(a0); RD(a1); return __real_fmpz_poly_equal_fmpz(a0, a1); }
int __real_fmpz_poly_equal_trunc(const fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); int __wrap_fmpz_poly_equal_trunc(const fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a0); RD(a1); return __real_fmpz_poly_equal_trunc(a0, a1, a2); }
void __real_fmpz_poly_eta_qexp(fmpz_poly_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_eta_qexp(fmpz_poly_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpz_poly_eta_qexp(a0, a1, a2); }
void __real_fmpz_poly_eulerian_polynomial(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_eulerian_polynomial(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_eulerian_polynomial(a0, a1); }
void __real_fmpz_poly_evaluate_divconquer_fmpq(fmpq_t a0, const fmpz_poly_t a1, const fmpq_t a2); void __wrap_fmpz_poly_evaluate_divconquer_fmpq(fmpq_t a0, const fmpz_poly_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_evaluate_divconquer_fmpq(a0, a1, a2); }
void __real_fmpz_poly_evaluate_divconquer_fmpz(fmpz_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_evaluate_divconquer_fmpz(fmpz_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_evaluate_divconquer_fmpz(a0, a1, a2); }
void __real_fmpz_poly_evaluate_fmpq(fmpq_t a0, const fmpz_poly_t a1, const fmpq_t a2); void __wrap_fmpz_poly_evaluate_fmpq(fmpq_t a0, const fmpz_poly_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_evaluate_fmpq(a0, a1, a2); }
void __real_fmpz_poly_evaluate_fmpz(fmpz_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_evaluate_fmpz(fmpz_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_evaluate_fmpz(a0, a1, a2); }
void __real_fmpz_poly_evaluate_fmpz_vec(fmpz * a0, const fmpz_poly_t a1, const fmpz * a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_evaluate_fmpz_vec(fmpz * a0, const fmpz_poly_t a1, const fmpz * a2, mp_limb_signed_t a3) { RD(a1); return __real_fmpz_poly_evaluate_fmpz_vec(a0, a1, a2, a3); }
double __real_fmpz_poly_evaluate_horner_d(const fmpz_poly_t a0, double a1); double __wrap_fmpz_poly_evaluate_horner_d(const fmpz_poly_t a0, double a1) { RD(a0); return __real_fmpz_poly_evaluate_horner_d(a0, a1); }
double __real_fmpz_poly_evaluate_horner_d_2exp(mp_limb_signed_t * a0, const fmpz_poly_t a1, double a2); double __wrap_fmpz_poly_evaluate_horner_d_2exp(mp_limb_signed_t * a0, const fmpz_poly_t a1, double a2) { RD(a1); return __real_fmpz_poly_evaluate_horner_d_2exp(a0, a1, a2); }
double __real_fmpz_poly_evaluate_horner_d_2exp2(mp_limb_signed_t * a0, const fmpz_poly_t a1, double a2, mp_limb_signed_t a3); double __wrap_fmpz_poly_evaluate_horner_d_2exp2(mp_limb_signed_t * a0, const fmpz_poly_t a1, double a2, mp_limb_signed_t a3) { RD(a1); return __real_fmpz_poly_evaluate_horner_d_2exp2(a0, a1, a2, a3); }
void __real_fmpz_poly_evaluate_horner_fmpq(fmpq_t a0, const fmpz_poly_t a1, const fmpq_t a2); void __wrap_fmpz_poly_evaluate_horner_fmpq(fmpq_t a0, const fmpz_poly_t a1, const fmpq_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_evaluate_horner_fmpq(a0, a1, a2); }
void __real_fmpz_poly_evaluate_horner_fmpz(fmpz_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_evaluate_horner_fmpz(fmpz_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_evaluate_horner_fmpz(a0, a1, a2); }
mp_limb_t __real_fmpz_poly_evaluate_mod(const fmpz_poly_t a0, mp_limb_t a1, mp_limb_t a2); mp_limb_t __wrap_fmpz_poly_evaluate_mod(const fmpz_poly_t a0, mp_limb_t a1, mp_limb_t a2) { RD(a0); return __real_fmpz_poly_evaluate_mod(a0, a1, a2); }
void __real_fmpz_poly_fibonacci(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_fibonacci(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_fibonacci(a0, a1); }
void __real_fmpz_poly_fit_length(fmpz_poly_t a0, mp_limb_signed_t a1); void __wrap_fmpz_poly_fit_length(fmpz_poly_t a0, mp_limb_signed_t a1) { WR(a0); return __real_fmpz_poly_fit_length(a0, a1); }
void __real_fmpz_poly_fmpz_sub(fmpz_poly_t a0, fmpz_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_fmpz_sub(fmpz_poly_t a0, fmpz_t a1, const fmpz_poly_t a2) { RD(a2); WR(a0); WR(a1); return __real_fmpz_poly_fmpz_sub(a0, a1, a2); }
void __real_fmpz_poly_gcd(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_gcd(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_gcd(a0, a1, a2); }
int __real_fmpz_poly_gcd_heuristic(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); int __wrap_fmpz_poly_gcd_heuristic(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_gcd_heuristic(a0, a1, a2); }
void __real_fmpz_poly_gcd_modular(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_gcd_modular(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_gcd_modular(a0, a1, a2); }
void __real_fmpz_poly_gcd_subresultant(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_gcd_subresultant(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_gcd_subresultant(a0, a1, a2); }
void __real_fmpz_poly_get_coeff_fmpz(fmpz_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_get_coeff_fmpz(fmpz_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_get_coeff_fmpz(a0, a1, a2); }
mp_limb_signed_t __real_fmpz_poly_get_coeff_si(const fmpz_poly_t a0, mp_limb_signed_t a1); mp_limb_signed_t __wrap_fmpz_poly_get_coeff_si(const fmpz_poly_t a0, mp_limb_signed_t a1) { RD(a0); return __real_fmpz_poly_get_coeff_si(a0, a1); }
mp_limb_t __real_fmpz_poly_get_coeff_ui(const fmpz_poly_t a0, mp_limb_signed_t a1); mp_limb_t __wrap_fmpz_poly_get_coeff_ui(const fmpz_poly_t a0, mp_limb_signed_t a1) { RD(a0); return __real_fmpz_poly_get_coeff_ui(a0, a1); }
void __real_fmpz_poly_get_nmod_poly(nmod_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_get_nmod_poly(nmod_poly_t a0, const fmpz_poly_t a1) { RD(a1); return __real_fmpz_poly_get_nmod_poly(a0, a1); }
char * __real_fmpz_poly_get_str(const fmpz_poly_t a0); char * __wrap_fmpz_poly_get_str(const fmpz_poly_t a0) { RD(a0); return __real_fmpz_poly_get_str(a0); }
char * __real_fmpz_poly_get_str_pretty(const fmpz_poly_t a0, const char * a1); char * __wrap_fmpz_poly_get_str_pretty(const fmpz_poly_t a0, const char * a1) { RD(a0); return __real_fmpz_poly_get_str_pretty(a0, a1); }
void __real_fmpz_poly_height(fmpz_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_height(fmpz_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_height(a0, a1); }
void __real_fmpz_poly_hensel_lift(fmpz_poly_t a0, fmpz_poly_t a1, fmpz_poly_t a2, fmpz_poly_t a3, const fmpz_poly_t a4, const fmpz_poly_t a5, const fmpz_poly_t a6, const fmpz_poly_t a7, const fmpz_poly_t a8, const fmpz_t a9, const fmpz_t a10); void __wrap_fmpz_poly_hensel_lift(fmpz_poly_t a0, fmpz_poly_t a1, fmpz_poly_t a2, fmpz_poly_t a3, const fmpz_poly_t a4, const fmpz_poly_t a5, const fmpz_poly_t a6, const fmpz_poly_t a7, const fmpz_poly_t a8, const fmpz_t a9, const fmpz_t a10) { RD(a10); RD(a4); RD(a5); RD(a6); RD(a7); RD(a8); RD(a9); WR(a0); WR(a1); WR(a2); WR(a3); return __real_fmpz_poly_hensel_lift(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10); }
void __real_fmpz_poly_hensel_lift_once(fmpz_poly_factor_t a0, const fmpz_poly_t a1, const nmod_poly_factor_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_hensel_lift_once(fmpz_poly_factor_t a0, const fmpz_poly_t a1, const nmod_poly_factor_t a2, mp_limb_signed_t a3) { RD(a1); return __real_fmpz_poly_hensel_lift_once(a0, a1, a2, a3); }
void __real_fmpz_poly_hensel_lift_only_inverse(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3, const fmpz_poly_t a4, const fmpz_poly_t a5, const fmpz_t a6, const fmpz_t a7); void __wrap_fmpz_poly_hensel_lift_only_inverse(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3, const fmpz_poly_t a4, const fmpz_poly_t a5, const fmpz_t a6, const fmpz_t a7) { RD(a2); RD(a3); RD(a4); RD(a5); RD(a6); RD(a7); WR(a0); WR(a1); return __real_fmpz_poly_hensel_lift_only_inverse(a0, a1, a2, a3, a4, a5, a6, a7); }
void __real_fmpz_poly_hensel_lift_tree(mp_limb_signed_t * a0, fmpz_poly_t * a1, fmpz_poly_t * a2, fmpz_poly_t a3, mp_limb_signed_t a4, const fmpz_t a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8); void __wrap_fmpz_poly_hensel_lift_tree(mp_limb_signed_t * a0, fmpz_poly_t * a1, fmpz_poly_t * a2, fmpz_poly_t a3, mp_limb_signed_t a4, const fmpz_t a5, mp_limb_signed_t a6, mp_limb_signed_t a7, mp_limb_signed_t a8) { RD(a5); WR(a3); return __real_fmpz_poly_hensel_lift_tree(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_fmpz_poly_hensel_lift_tree_recursive(mp_limb_signed_t * a0, fmpz_poly_t * a1, fmpz_poly_t * a2, fmpz_poly_t a3, mp_limb_signed_t a4, mp_limb_signed_t a5, const fmpz_t a6, const fmpz_t a7); void __wrap_fmpz_poly_hensel_lift_tree_recursive(mp_limb_signed_t * a0, fmpz_poly_t * a1, fmpz_poly_t * a2, fmpz_poly_t a3, mp_limb_signed_t a4, mp_limb_signed_t a5, const fmpz_t a6, const fmpz_t a7) { RD(a6); RD(a7); WR(a3); return __real_fmpz_poly_hensel_lift_tree_recursive(a0, a1, a2, a3, a4, a5, a6, a7); }
void __real_fmpz_poly_hensel_lift_without_inverse(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3, const fmpz_poly_t a4, const fmpz_poly_t a5, const fmpz_poly_t a6, const fmpz_t a7, const fmpz_t a8); void __wrap_fmpz_poly_hensel_lift_without_inverse(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3, const fmpz_poly_t a4, const fmpz_poly_t a5, const fmpz_poly_t a6, const fmpz_t a7, const fmpz_t a8) { RD(a2); RD(a3); RD(a4); RD(a5); RD(a6); RD(a7); RD(a8); WR(a0); WR(a1); return __real_fmpz_poly_hensel_lift_without_inverse(a0, a1, a2, a3, a4, a5, a6, a7, a8); }
void __real_fmpz_poly_hermite_h(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_hermite_h(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_hermite_h(a0, a1); }
void __real_fmpz_poly_hermite_he(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_hermite_he(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_hermite_he(a0, a1); }
void __real_fmpz_poly_inflate(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_inflate(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_inflate(a0, a1, a2); }
void __real_fmpz_poly_init(fmpz_poly_t a0); void __wrap_fmpz_poly_init(fmpz_poly_t a0) { WR(a0); return __real_fmpz_poly_init(a0); }
void __real_fmpz_poly_init2(fmpz_poly_t a0, mp_limb_signed_t a1); void __wrap_fmpz_poly_init2(fmpz_poly_t a0, mp_limb_signed_t a1) { WR(a0); return __real_fmpz_poly_init2(a0, a1); }
void __real_fmpz_poly_interpolate_fmpz_vec(fmpz_poly_t a0, const fmpz * a1, const fmpz * a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_interpolate_fmpz_vec(fmpz_poly_t a0, const fmpz * a1, const fmpz * a2, mp_limb_signed_t a3) { WR(a0); return __real_fmpz_poly_interpolate_fmpz_vec(a0, a1, a2, a3); }
void __real_fmpz_poly_inv_series(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_inv_series(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_inv_series(a0, a1, a2); }
void __real_fmpz_poly_inv_series_basecase(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_inv_series_basecase(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_inv_series_basecase(a0, a1, a2); }
void __real_fmpz_poly_inv_series_newton(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_inv_series_newton(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_inv_series_newton(a0, a1, a2); }
mp_limb_t __real_fmpz_poly_is_cyclotomic(const fmpz_poly_t a0); mp_limb_t __wrap_fmpz_poly_is_cyclotomic(const fmpz_poly_t a0) { RD(a0); return __real_fmpz_poly_is_cyclotomic(a0); }
int __real_fmpz_poly_is_squarefree(const fmpz_poly_t a0); int __wrap_fmpz_poly_is_squarefree(const fmpz_poly_t a0) { RD(a0); return __real_fmpz_poly_is_squarefree(a0); }
void __real_fmpz_poly_lcm(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_lcm(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_lcm(a0, a1, a2); }
void __real_fmpz_poly_legendre_pt(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_legendre_pt(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_legendre_pt(a0, a1); }
mp_limb_signed_t __real_fmpz_poly_max_bits(const fmpz_poly_t a0); mp_limb_signed_t __wrap_fmpz_poly_max_bits(const fmpz_poly_t a0) { RD(a0); return __real_fmpz_poly_max_bits(a0); }
mp_limb_t __real_fmpz_poly_max_limbs(const fmpz_poly_t a0); mp_limb_t __wrap_fmpz_poly_max_limbs(const fmpz_poly_t a0) { RD(a0); return __real_fmpz_poly_max_limbs(a0); }
void __real_fmpz_poly_mul(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_mul(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mul(a0, a1, a2); }
void __real_fmpz_poly_mul_KS(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_mul_KS(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mul_KS(a0, a1, a2); }
void __real_fmpz_poly_mul_SS(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_mul_SS(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mul_SS(a0, a1, a2); }
void __real_fmpz_poly_mul_SS_precache_init(fmpz_poly_mul_precache_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2, const fmpz_poly_t a3); void __wrap_fmpz_poly_mul_SS_precache_init(fmpz_poly_mul_precache_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2, const fmpz_poly_t a3) { RD(a3); return __real_fmpz_poly_mul_SS_precache_init(a0, a1, a2, a3); }
void __real_fmpz_poly_mul_classical(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_mul_classical(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mul_classical(a0, a1, a2); }
void __real_fmpz_poly_mul_karatsuba(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_mul_karatsuba(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mul_karatsuba(a0, a1, a2); }
void __real_fmpz_poly_mulhigh_classical(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_mulhigh_classical(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mulhigh_classical(a0, a1, a2, a3); }
void __real_fmpz_poly_mulhigh_karatsuba_n(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_mulhigh_karatsuba_n(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mulhigh_karatsuba_n(a0, a1, a2, a3); }
void __real_fmpz_poly_mulhigh_n(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_mulhigh_n(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mulhigh_n(a0, a1, a2, a3); }
void __real_fmpz_poly_mullow(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_mullow(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mullow(a0, a1, a2, a3); }
void __real_fmpz_poly_mullow_KS(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_mullow_KS(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mullow_KS(a0, a1, a2, a3); }
void __real_fmpz_poly_mullow_SS(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_mullow_SS(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mullow_SS(a0, a1, a2, a3); }
void __real_fmpz_poly_mullow_SS_precache(fmpz_poly_t a0, const fmpz_poly_t a1, fmpz_poly_mul_precache_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_mullow_SS_precache(fmpz_poly_t a0, const fmpz_poly_t a1, fmpz_poly_mul_precache_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_fmpz_poly_mullow_SS_precache(a0, a1, a2, a3); }
void __real_fmpz_poly_mullow_classical(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_mullow_classical(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mullow_classical(a0, a1, a2, a3); }
void __real_fmpz_poly_mullow_karatsuba_n(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_mullow_karatsuba_n(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mullow_karatsuba_n(a0, a1, a2, a3); }
void __real_fmpz_poly_mulmid_classical(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_mulmid_classical(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_mulmid_classical(a0, a1, a2); }
void __real_fmpz_poly_neg(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_neg(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_neg(a0, a1); }
void __real_fmpz_poly_nth_derivative(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_nth_derivative(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_nth_derivative(a0, a1, a2); }
mp_limb_signed_t __real_fmpz_poly_num_real_roots(const fmpz_poly_t a0); mp_limb_signed_t __wrap_fmpz_poly_num_real_roots(const fmpz_poly_t a0) { RD(a0); return __real_fmpz_poly_num_real_roots(a0); }
mp_limb_signed_t __real_fmpz_poly_num_real_roots_sturm(const fmpz_poly_t a0); mp_limb_signed_t __wrap_fmpz_poly_num_real_roots_sturm(const fmpz_poly_t a0) { RD(a0); return __real_fmpz_poly_num_real_roots_sturm(a0); }
void __real_fmpz_poly_pow(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_pow(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_pow(a0, a1, a2); }
void __real_fmpz_poly_pow_addchains(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_pow_addchains(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_pow_addchains(a0, a1, a2); }
void __real_fmpz_poly_pow_binexp(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_pow_binexp(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_pow_binexp(a0, a1, a2); }
void __real_fmpz_poly_pow_binomial(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_pow_binomial(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_pow_binomial(a0, a1, a2); }
void __real_fmpz_poly_pow_multinomial(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_pow_multinomial(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_pow_multinomial(a0, a1, a2); }
void __real_fmpz_poly_pow_trunc(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_pow_trunc(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_fmpz_poly_pow_trunc(a0, a1, a2, a3); }
void __real_fmpz_poly_power_sums(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_power_sums(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_power_sums(a0, a1, a2); }
void __real_fmpz_poly_power_sums_naive(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_power_sums_naive(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_power_sums_naive(a0, a1, a2); }
void __real_fmpz_poly_power_sums_to_poly(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_power_sums_to_poly(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_power_sums_to_poly(a0, a1); }
void __real_fmpz_poly_powers_precompute(fmpz_poly_powers_precomp_t a0, fmpz_poly_t a1); void __wrap_fmpz_poly_powers_precompute(fmpz_poly_powers_precomp_t a0, fmpz_poly_t a1) { WR(a1); return __real_fmpz_poly_powers_precompute(a0, a1); }
void __real_fmpz_poly_preinvert(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_preinvert(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_preinvert(a0, a1); }
void __real_fmpz_poly_primitive_part(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_primitive_part(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_primitive_part(a0, a1); }
int __real_fmpz_poly_print(const fmpz_poly_t a0); int __wrap_fmpz_poly_print(const fmpz_poly_t a0) { RD(a0); return __real_fmpz_poly_print(a0); }
int __real_fmpz_poly_print_pretty(const fmpz_poly_t a0, const char * a1); int __wrap_fmpz_poly_print_pretty(const fmpz_poly_t a0, const char * a1) { RD(a0); return __real_fmpz_poly_print_pretty(a0, a1); }
void __real_fmpz_poly_product_roots_fmpq_vec(fmpz_poly_t a0, const fmpq * a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_product_roots_fmpq_vec(fmpz_poly_t a0, const fmpq * a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpz_poly_product_roots_fmpq_vec(a0, a1, a2); }
void __real_fmpz_poly_product_roots_fmpz_vec(fmpz_poly_t a0, const fmpz * a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_product_roots_fmpz_vec(fmpz_poly_t a0, const fmpz * a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpz_poly_product_roots_fmpz_vec(a0, a1, a2); }
void __real_fmpz_poly_pseudo_div(fmpz_poly_t a0, mp_limb_t * a1, const fmpz_poly_t a2, const fmpz_poly_t a3); void __wrap_fmpz_poly_pseudo_div(fmpz_poly_t a0, mp_limb_t * a1, const fmpz_poly_t a2, const fmpz_poly_t a3) { RD(a2); RD(a3); WR(a0); return __real_fmpz_poly_pseudo_div(a0, a1, a2, a3); }
void __real_fmpz_poly_pseudo_divrem_basecase(fmpz_poly_t a0, fmpz_poly_t a1, mp_limb_t * a2, const fmpz_poly_t a3, const fmpz_poly_t a4); void __wrap_fmpz_poly_pseudo_divrem_basecase(fmpz_poly_t a0, fmpz_poly_t a1, mp_limb_t * a2, const fmpz_poly_t a3, const fmpz_poly_t a4) { RD(a3); RD(a4); WR(a0); WR(a1); return __real_fmpz_poly_pseudo_divrem_basecase(a0, a1, a2, a3, a4); }
void __real_fmpz_poly_pseudo_divrem_cohen(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3); void __wrap_fmpz_poly_pseudo_divrem_cohen(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpz_poly_pseudo_divrem_cohen(a0, a1, a2, a3); }
void __real_fmpz_poly_pseudo_divrem_divconquer(fmpz_poly_t a0, fmpz_poly_t a1, mp_limb_t * a2, const fmpz_poly_t a3, const fmpz_poly_t a4); void __wrap_fmpz_poly_pseudo_divrem_divconquer(fmpz_poly_t a0, fmpz_poly_t a1, mp_limb_t * a2, const fmpz_poly_t a3, const fmpz_poly_t a4) { RD(a3); RD(a4); WR(a0); WR(a1); return __real_fmpz_poly_pseudo_divrem_divconquer(a0, a1, a2, a3, a4); }
void __real_fmpz_poly_pseudo_rem(fmpz_poly_t a0, mp_limb_t * a1, const fmpz_poly_t a2, const fmpz_poly_t a3); void __wrap_fmpz_poly_pseudo_rem(fmpz_poly_t a0, mp_limb_t * a1, const fmpz_poly_t a2, const fmpz_poly_t a3) { RD(a2); RD(a3); WR(a0); return __real_fmpz_poly_pseudo_rem(a0, a1, a2, a3); }
void __real_fmpz_poly_pseudo_rem_cohen(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_pseudo_rem_cohen(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_pseudo_rem_cohen(a0, a1, a2); }
int __real_fmpz_poly_read(fmpz_poly_t a0); int __wrap_fmpz_poly_read(fmpz_poly_t a0) { WR(a0); return __real_fmpz_poly_read(a0); }
int __real_fmpz_poly_read_pretty(fmpz_poly_t a0, char ** a1); int __wrap_fmpz_poly_read_pretty(fmpz_poly_t a0, char ** a1) { WR(a0); return __real_fmpz_poly_read_pretty(a0, a1); }
void __real_fmpz_poly_realloc(fmpz_poly_t a0, mp_limb_signed_t a1); void __wrap_fmpz_poly_realloc(fmpz_poly_t a0, mp_limb_signed_t a1) { WR(a0); return __real_fmpz_poly_realloc(a0, a1); }
void __real_fmpz_poly_rem(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_rem(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_rem(a0, a1, a2); }
void __real_fmpz_poly_rem_basecase(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_rem_basecase(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_rem_basecase(a0, a1, a2); }
void __real_fmpz_poly_rem_powers_precomp(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_powers_precomp_t a3); void __wrap_fmpz_poly_rem_powers_precomp(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_poly_powers_precomp_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_rem_powers_precomp(a0, a1, a2, a3); }
mp_limb_signed_t __real_fmpz_poly_remove(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); mp_limb_signed_t __wrap_fmpz_poly_remove(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_remove(a0, a1, a2); }
void __real_fmpz_poly_resultant(fmpz_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_resultant(fmpz_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_resultant(a0, a1, a2); }
void __real_fmpz_poly_resultant_euclidean(fmpz_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_resultant_euclidean(fmpz_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_resultant_euclidean(a0, a1, a2); }
void __real_fmpz_poly_resultant_modular(fmpz_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_resultant_modular(fmpz_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_resultant_modular(a0, a1, a2); }
void __real_fmpz_poly_resultant_modular_div(fmpz_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_t a3, mp_limb_signed_t a4); void __wrap_fmpz_poly_resultant_modular_div(fmpz_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, const fmpz_t a3, mp_limb_signed_t a4) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_fmpz_poly_resultant_modular_div(a0, a1, a2, a3, a4); }
void __real_fmpz_poly_reverse(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_reverse(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_reverse(a0, a1, a2); }
void __real_fmpz_poly_revert_series(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_revert_series(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_revert_series(a0, a1, a2); }
void __real_fmpz_poly_revert_series_lagrange(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_revert_series_lagrange(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_revert_series_lagrange(a0, a1, a2); }
void __real_fmpz_poly_revert_series_lagrange_fast(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_revert_series_lagrange_fast(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_revert_series_lagrange_fast(a0, a1, a2); }
void __real_fmpz_poly_revert_series_newton(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_revert_series_newton(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_revert_series_newton(a0, a1, a2); }
void __real_fmpz_poly_scalar_abs(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_scalar_abs(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_abs(a0, a1); }
void __real_fmpz_poly_scalar_addmul_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_scalar_addmul_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_scalar_addmul_fmpz(a0, a1, a2); }
void __real_fmpz_poly_scalar_addmul_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_scalar_addmul_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_addmul_si(a0, a1, a2); }
void __real_fmpz_poly_scalar_addmul_ui(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_scalar_addmul_ui(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_addmul_ui(a0, a1, a2); }
void __real_fmpz_poly_scalar_divexact_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_scalar_divexact_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_scalar_divexact_fmpz(a0, a1, a2); }
void __real_fmpz_poly_scalar_divexact_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_scalar_divexact_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_divexact_si(a0, a1, a2); }
void __real_fmpz_poly_scalar_divexact_ui(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_scalar_divexact_ui(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_divexact_ui(a0, a1, a2); }
void __real_fmpz_poly_scalar_fdiv_2exp(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_scalar_fdiv_2exp(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_fdiv_2exp(a0, a1, a2); }
void __real_fmpz_poly_scalar_fdiv_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_scalar_fdiv_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_scalar_fdiv_fmpz(a0, a1, a2); }
void __real_fmpz_poly_scalar_fdiv_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_scalar_fdiv_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_fdiv_si(a0, a1, a2); }
void __real_fmpz_poly_scalar_fdiv_ui(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_scalar_fdiv_ui(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_fdiv_ui(a0, a1, a2); }
void __real_fmpz_poly_scalar_mod_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_scalar_mod_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_scalar_mod_fmpz(a0, a1, a2); }
void __real_fmpz_poly_scalar_mul_2exp(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_scalar_mul_2exp(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_mul_2exp(a0, a1, a2); }
void __real_fmpz_poly_scalar_mul_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_scalar_mul_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_scalar_mul_fmpz(a0, a1, a2); }
void __real_fmpz_poly_scalar_mul_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_scalar_mul_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_mul_si(a0, a1, a2); }
void __real_fmpz_poly_scalar_mul_ui(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_scalar_mul_ui(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_mul_ui(a0, a1, a2); }
void __real_fmpz_poly_scalar_smod_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_scalar_smod_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_scalar_smod_fmpz(a0, a1, a2); }
void __real_fmpz_poly_scalar_submul_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_scalar_submul_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_scalar_submul_fmpz(a0, a1, a2); }
void __real_fmpz_poly_scalar_tdiv_2exp(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_scalar_tdiv_2exp(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_tdiv_2exp(a0, a1, a2); }
void __real_fmpz_poly_scalar_tdiv_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_scalar_tdiv_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_scalar_tdiv_fmpz(a0, a1, a2); }
void __real_fmpz_poly_scalar_tdiv_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_scalar_tdiv_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_tdiv_si(a0, a1, a2); }
void __real_fmpz_poly_scalar_tdiv_ui(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2); void __wrap_fmpz_poly_scalar_tdiv_ui(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_scalar_tdiv_ui(a0, a1, a2); }
void __real_fmpz_poly_set(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_set(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_set(a0, a1); }
void __real_fmpz_poly_set_coeff_fmpz(fmpz_poly_t a0, mp_limb_signed_t a1, const fmpz_t a2); void __wrap_fmpz_poly_set_coeff_fmpz(fmpz_poly_t a0, mp_limb_signed_t a1, const fmpz_t a2) { RD(a2); WR(a0); return __real_fmpz_poly_set_coeff_fmpz(a0, a1, a2); }
void __real_fmpz_poly_set_coeff_si(fmpz_poly_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_set_coeff_si(fmpz_poly_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpz_poly_set_coeff_si(a0, a1, a2); }
void __real_fmpz_poly_set_coeff_ui(fmpz_poly_t a0, mp_limb_signed_t a1, mp_limb_t a2); void __wrap_fmpz_poly_set_coeff_ui(fmpz_poly_t a0, mp_limb_signed_t a1, mp_limb_t a2) { WR(a0); return __real_fmpz_poly_set_coeff_ui(a0, a1, a2); }
void __real_fmpz_poly_set_fmpz(fmpz_poly_t a0, const fmpz_t a1); void __wrap_fmpz_poly_set_fmpz(fmpz_poly_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_set_fmpz(a0, a1); }
void __real_fmpz_poly_set_nmod_poly(fmpz_poly_t a0, const nmod_poly_t a1); void __wrap_fmpz_poly_set_nmod_poly(fmpz_poly_t a0, const nmod_poly_t a1) { WR(a0); return __real_fmpz_poly_set_nmod_poly(a0, a1); }
void __real_fmpz_poly_set_nmod_poly_unsigned(fmpz_poly_t a0, const nmod_poly_t a1); void __wrap_fmpz_poly_set_nmod_poly_unsigned(fmpz_poly_t a0, const nmod_poly_t a1) { WR(a0); return __real_fmpz_poly_set_nmod_poly_unsigned(a0, a1); }
void __real_fmpz_poly_set_si(fmpz_poly_t a0, mp_limb_signed_t a1); void __wrap_fmpz_poly_set_si(fmpz_poly_t a0, mp_limb_signed_t a1) { WR(a0); return __real_fmpz_poly_set_si(a0, a1); }
int __real_fmpz_poly_set_str(fmpz_poly_t a0, const char * a1); int __wrap_fmpz_poly_set_str(fmpz_poly_t a0, const char * a1) { WR(a0); return __real_fmpz_poly_set_str(a0, a1); }
void __real_fmpz_poly_set_trunc(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_set_trunc(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_set_trunc(a0, a1, a2); }
void __real_fmpz_poly_set_ui(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_set_ui(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_set_ui(a0, a1); }
void __real_fmpz_poly_shift_left(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_shift_left(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_shift_left(a0, a1, a2); }
void __real_fmpz_poly_shift_right(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_shift_right(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_shift_right(a0, a1, a2); }
void __real_fmpz_poly_si_sub(fmpz_poly_t a0, mp_limb_signed_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_si_sub(fmpz_poly_t a0, mp_limb_signed_t a1, const fmpz_poly_t a2) { RD(a2); WR(a0); return __real_fmpz_poly_si_sub(a0, a1, a2); }
void __real_fmpz_poly_signature(mp_limb_signed_t * a0, mp_limb_signed_t * a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_signature(mp_limb_signed_t * a0, mp_limb_signed_t * a1, const fmpz_poly_t a2) { RD(a2); return __real_fmpz_poly_signature(a0, a1, a2); }
void __real_fmpz_poly_sqr(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_sqr(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_sqr(a0, a1); }
void __real_fmpz_poly_sqr_KS(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_sqr_KS(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_sqr_KS(a0, a1); }
void __real_fmpz_poly_sqr_classical(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_sqr_classical(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_sqr_classical(a0, a1); }
void __real_fmpz_poly_sqr_karatsuba(fmpz_poly_t a0, const fmpz_poly_t a1); void __wrap_fmpz_poly_sqr_karatsuba(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_sqr_karatsuba(a0, a1); }
void __real_fmpz_poly_sqrlow(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_sqrlow(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_sqrlow(a0, a1, a2); }
void __real_fmpz_poly_sqrlow_KS(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_sqrlow_KS(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_sqrlow_KS(a0, a1, a2); }
void __real_fmpz_poly_sqrlow_classical(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_sqrlow_classical(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_sqrlow_classical(a0, a1, a2); }
void __real_fmpz_poly_sqrlow_karatsuba_n(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_sqrlow_karatsuba_n(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_sqrlow_karatsuba_n(a0, a1, a2); }
int __real_fmpz_poly_sqrt(fmpz_poly_t a0, const fmpz_poly_t a1); int __wrap_fmpz_poly_sqrt(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_sqrt(a0, a1); }
int __real_fmpz_poly_sqrt_KS(fmpz_poly_t a0, const fmpz_poly_t a1); int __wrap_fmpz_poly_sqrt_KS(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_sqrt_KS(a0, a1); }
int __real_fmpz_poly_sqrt_classical(fmpz_poly_t a0, const fmpz_poly_t a1); int __wrap_fmpz_poly_sqrt_classical(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_sqrt_classical(a0, a1); }
int __real_fmpz_poly_sqrt_divconquer(fmpz_poly_t a0, const fmpz_poly_t a1); int __wrap_fmpz_poly_sqrt_divconquer(fmpz_poly_t a0, const fmpz_poly_t a1) { RD(a1); WR(a0); return __real_fmpz_poly_sqrt_divconquer(a0, a1); }
int __real_fmpz_poly_sqrt_series(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); int __wrap_fmpz_poly_sqrt_series(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_sqrt_series(a0, a1, a2); }
int __real_fmpz_poly_sqrtrem_classical(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2); int __wrap_fmpz_poly_sqrtrem_classical(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a2); WR(a0); WR(a1); return __real_fmpz_poly_sqrtrem_classical(a0, a1, a2); }
int __real_fmpz_poly_sqrtrem_divconquer(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2); int __wrap_fmpz_poly_sqrtrem_divconquer(fmpz_poly_t a0, fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a2); WR(a0); WR(a1); return __real_fmpz_poly_sqrtrem_divconquer(a0, a1, a2); }
void __real_fmpz_poly_sub(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2); void __wrap_fmpz_poly_sub(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_sub(a0, a1, a2); }
void __real_fmpz_poly_sub_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, fmpz_t a2); void __wrap_fmpz_poly_sub_fmpz(fmpz_poly_t a0, const fmpz_poly_t a1, fmpz_t a2) { RD(a1); WR(a0); WR(a2); return __real_fmpz_poly_sub_fmpz(a0, a1, a2); }
void __real_fmpz_poly_sub_series(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3); void __wrap_fmpz_poly_sub_series(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_poly_t a2, mp_limb_signed_t a3) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_sub_series(a0, a1, a2, a3); }
void __real_fmpz_poly_sub_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_sub_si(fmpz_poly_t a0, const fmpz_poly_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_poly_sub_si(a0, a1, a2); }
void __real_fmpz_poly_swap(fmpz_poly_t a0, fmpz_poly_t a1); void __wrap_fmpz_poly_swap(fmpz_poly_t a0, fmpz_poly_t a1) { WR(a0); WR(a1); return __real_fmpz_poly_swap(a0, a1); }
void __real_fmpz_poly_swinnerton_dyer(fmpz_poly_t a0, mp_limb_t a1); void __wrap_fmpz_poly_swinnerton_dyer(fmpz_poly_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_poly_swinnerton_dyer(a0, a1); }
void __real_fmpz_poly_taylor_shift(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_taylor_shift(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_taylor_shift(a0, a1, a2); }
void __real_fmpz_poly_taylor_shift_divconquer(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_taylor_shift_divconquer(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_taylor_shift_divconquer(a0, a1, a2); }
void __real_fmpz_poly_taylor_shift_horner(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2); void __wrap_fmpz_poly_taylor_shift_horner(fmpz_poly_t a0, const fmpz_poly_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_poly_taylor_shift_horner(a0, a1, a2); }
void __real_fmpz_poly_theta_qexp(fmpz_poly_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_theta_qexp(fmpz_poly_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpz_poly_theta_qexp(a0, a1, a2); }
void __real_fmpz_poly_truncate(fmpz_poly_t a0, mp_limb_signed_t a1); void __wrap_fmpz_poly_truncate(fmpz_poly_t a0, mp_limb_signed_t a1) { WR(a0); return __real_fmpz_poly_truncate(a0, a1); }
void __real_fmpz_poly_xgcd_modular(fmpz_t a0, fmpz_poly_t a1, fmpz_poly_t a2, const fmpz_poly_t a3, const fmpz_poly_t a4); void __wrap_fmpz_poly_xgcd_modular(fmpz_t a0, fmpz_poly_t a1, fmpz_poly_t a2, const fmpz_poly_t a3, const fmpz_poly_t a4) { RD(a3); RD(a4); WR(a0); WR(a1); WR(a2); return __real_fmpz_poly_xgcd_modular(a0, a1, a2, a3, a4); }
void __real_fmpz_poly_zero_coeffs(fmpz_poly_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2); void __wrap_fmpz_poly_zero_coeffs(fmpz_poly_t a0, mp_limb_signed_t a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpz_poly_zero_coeffs(a0, a1, a2); }
mp_limb_t __real_fmpz_popcnt(const fmpz_t a0); mp_limb_t __wrap_fmpz_popcnt(const fmpz_t a0) { RD(a0); return __real_fmpz_popcnt(a0); }
int __real_fmpz_pow_fmpz(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); int __wrap_fmpz_pow_fmpz(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_pow_fmpz(a0, a1, a2); }
void __real_fmpz_pow_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_pow_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_pow_ui(a0, a1, a2); }
void __real_fmpz_powm(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3); void __wrap_fmpz_powm(fmpz_t a0, const fmpz_t a1, const fmpz_t a2, const fmpz_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_fmpz_powm(a0, a1, a2, a3); }
void __real_fmpz_powm_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2, const fmpz_t a3); void __wrap_fmpz_powm_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2, const fmpz_t a3) { RD(a1); RD(a3); WR(a0); return __real_fmpz_powm_ui(a0, a1, a2, a3); }
void __real_fmpz_preinvn_init(fmpz_preinvn_t a0, const fmpz_t a1); void __wrap_fmpz_preinvn_init(fmpz_preinvn_t a0, const fmpz_t a1) { RD(a1); return __real_fmpz_preinvn_init(a0, a1); }
void __real_fmpz_primorial(fmpz_t a0, mp_limb_t a1); void __wrap_fmpz_primorial(fmpz_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_primorial(a0, a1); }
int __real_fmpz_print(const fmpz_t a0); int __wrap_fmpz_print(const fmpz_t a0) { RD(a0); return __real_fmpz_print(a0); }
int __real_fmpz_read(fmpz_t a0); int __wrap_fmpz_read(fmpz_t a0) { WR(a0); return __real_fmpz_read(a0); }
mp_limb_signed_t __real_fmpz_remove(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); mp_limb_signed_t __wrap_fmpz_remove(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_remove(a0, a1, a2); }
void __real_fmpz_rfac_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_rfac_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_rfac_ui(a0, a1, a2); }
void __real_fmpz_rfac_uiui(fmpz_t a0, mp_limb_t a1, mp_limb_t a2); void __wrap_fmpz_rfac_uiui(fmpz_t a0, mp_limb_t a1, mp_limb_t a2) { WR(a0); return __real_fmpz_rfac_uiui(a0, a1, a2); }
int __real_fmpz_root(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2); int __wrap_fmpz_root(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_root(a0, a1, a2); }
void __real_fmpz_set(fmpz_t a0, const fmpz_t a1); void __wrap_fmpz_set(fmpz_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_fmpz_set(a0, a1); }
void __real_fmpz_set_d(fmpz_t a0, double a1); void __wrap_fmpz_set_d(fmpz_t a0, double a1) { WR(a0); return __real_fmpz_set_d(a0, a1); }
void __real_fmpz_set_d_2exp(fmpz_t a0, double a1, mp_limb_signed_t a2); void __wrap_fmpz_set_d_2exp(fmpz_t a0, double a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpz_set_d_2exp(a0, a1, a2); }
void __real_fmpz_set_mpz(fmpz_t a0, const mpz_t a1); void __wrap_fmpz_set_mpz(fmpz_t a0, const mpz_t a1) { WR(a0); return __real_fmpz_set_mpz(a0, a1); }
void __real_fmpz_set_signed_ui_array(fmpz_t a0, const mp_limb_t * a1, mp_limb_signed_t a2); void __wrap_fmpz_set_signed_ui_array(fmpz_t a0, const mp_limb_t * a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpz_set_signed_ui_array(a0, a1, a2); }
void __real_fmpz_set_signed_uiuiui(fmpz_t a0, mp_limb_t a1, mp_limb_t a2, mp_limb_t a3); void __wrap_fmpz_set_signed_uiuiui(fmpz_t a0, mp_limb_t a1, mp_limb_t a2, mp_limb_t a3) { WR(a0); return __real_fmpz_set_signed_uiuiui(a0, a1, a2, a3); }
int __real_fmpz_set_str(fmpz_t a0, const char * a1, int a2); int __wrap_fmpz_set_str(fmpz_t a0, const char * a1, int a2) { WR(a0); return __real_fmpz_set_str(a0, a1, a2); }
void __real_fmpz_set_ui_array(fmpz_t a0, const mp_limb_t * a1, mp_limb_signed_t a2); void __wrap_fmpz_set_ui_array(fmpz_t a0, const mp_limb_t * a1, mp_limb_signed_t a2) { WR(a0); return __real_fmpz_set_ui_array(a0, a1, a2); }
void __real_fmpz_setbit(fmpz_t a0, mp_limb_t a1); void __wrap_fmpz_setbit(fmpz_t a0, mp_limb_t a1) { WR(a0); return __real_fmpz_setbit(a0, a1); }
int __real_fmpz_sgn(const fmpz_t a0); int __wrap_fmpz_sgn(const fmpz_t a0) { RD(a0); return __real_fmpz_sgn(a0); }
mp_size_t __real_fmpz_size(const fmpz_t a0); mp_size_t __wrap_fmpz_size(const fmpz_t a0) { RD(a0); return __real_fmpz_size(a0); }
size_t __real_fmpz_sizeinbase(const fmpz_t a0, int a1); size_t __wrap_fmpz_sizeinbase(const fmpz_t a0, int a1) { RD(a0); return __real_fmpz_sizeinbase(a0, a1); }
void __real_fmpz_smod(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_smod(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_smod(a0, a1, a2); }
void __real_fmpz_sqrt(fmpz_t a0, const fmpz_t a1); void __wrap_fmpz_sqrt(fmpz_t a0, const fmpz_t a1) { RD(a1); WR(a0); return __real_fmpz_sqrt(a0, a1); }
int __real_fmpz_sqrtmod(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); int __wrap_fmpz_sqrtmod(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_sqrtmod(a0, a1, a2); }
void __real_fmpz_sqrtrem(fmpz_t a0, fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_sqrtrem(fmpz_t a0, fmpz_t a1, const fmpz_t a2) { RD(a2); WR(a0); WR(a1); return __real_fmpz_sqrtrem(a0, a1, a2); }
void __real_fmpz_sub(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_sub(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_sub(a0, a1, a2); }
void __real_fmpz_sub_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_sub_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_sub_ui(a0, a1, a2); }
void __real_fmpz_submul(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_submul(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_submul(a0, a1, a2); }
void __real_fmpz_submul_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_fmpz_submul_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_submul_si(a0, a1, a2); }
void __real_fmpz_submul_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_submul_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_submul_ui(a0, a1, a2); }
void __real_fmpz_tdiv_q(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_tdiv_q(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_tdiv_q(a0, a1, a2); }
void __real_fmpz_tdiv_q_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_tdiv_q_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_tdiv_q_2exp(a0, a1, a2); }
void __real_fmpz_tdiv_q_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2); void __wrap_fmpz_tdiv_q_si(fmpz_t a0, const fmpz_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_fmpz_tdiv_q_si(a0, a1, a2); }
void __real_fmpz_tdiv_q_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_tdiv_q_ui(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_tdiv_q_ui(a0, a1, a2); }
void __real_fmpz_tdiv_qr(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3); void __wrap_fmpz_tdiv_qr(fmpz_t a0, fmpz_t a1, const fmpz_t a2, const fmpz_t a3) { RD(a2); RD(a3); WR(a0); WR(a1); return __real_fmpz_tdiv_qr(a0, a1, a2, a3); }
void __real_fmpz_tdiv_r_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2); void __wrap_fmpz_tdiv_r_2exp(fmpz_t a0, const fmpz_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_fmpz_tdiv_r_2exp(a0, a1, a2); }
mp_limb_t __real_fmpz_tdiv_ui(const fmpz_t a0, mp_limb_t a1); mp_limb_t __wrap_fmpz_tdiv_ui(const fmpz_t a0, mp_limb_t a1) { RD(a0); return __real_fmpz_tdiv_ui(a0, a1); }
int __real_fmpz_tstbit(const fmpz_t a0, mp_limb_t a1); int __wrap_fmpz_tstbit(const fmpz_t a0, mp_limb_t a1) { RD(a0); return __real_fmpz_tstbit(a0, a1); }
void __real_fmpz_ui_pow_ui(fmpz_t a0, mp_limb_t a1, mp_limb_t a2); void __wrap_fmpz_ui_pow_ui(fmpz_t a0, mp_limb_t a1, mp_limb_t a2) { WR(a0); return __real_fmpz_ui_pow_ui(a0, a1, a2); }
mp_limb_t __real_fmpz_val2(const fmpz_t a0); mp_limb_t __wrap_fmpz_val2(const fmpz_t a0) { RD(a0); return __real_fmpz_val2(a0); }
void __real_fmpz_xgcd(fmpz_t a0, fmpz_t a1, fmpz_t a2, const fmpz_t a3, const fmpz_t a4); void __wrap_fmpz_xgcd(fmpz_t a0, fmpz_t a1, fmpz_t a2, const fmpz_t a3, const fmpz_t a4) { RD(a3); RD(a4); WR(a0); WR(a1); WR(a2); return __real_fmpz_xgcd(a0, a1, a2, a3, a4); }
void __real_fmpz_xgcd_canonical_bezout(fmpz_t a0, fmpz_t a1, fmpz_t a2, const fmpz_t a3, const fmpz_t a4); void __wrap_fmpz_xgcd_canonical_bezout(fmpz_t a0, fmpz_t a1, fmpz_t a2, const fmpz_t a3, const fmpz_t a4) { RD(a3); RD(a4); WR(a0); WR(a1); WR(a2); return __real_fmpz_xgcd_canonical_bezout(a0, a1, a2, a3, a4); }
void __real_fmpz_xgcd_partial(fmpz_t a0, fmpz_t a1, fmpz_t a2, fmpz_t a3, const fmpz_t a4); void __wrap_fmpz_xgcd_partial(fmpz_t a0, fmpz_t a1, fmpz_t a2, fmpz_t a3, const fmpz_t a4) { RD(a4); WR(a0); WR(a1); WR(a2); WR(a3); return __real_fmpz_xgcd_partial(a0, a1, a2, a3, a4); }
void __real_fmpz_xor(fmpz_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_fmpz_xor(fmpz_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_fmpz_xor(a0, a1, a2); }
void __real_mag_add(mag_t a0, const mag_t a1, const mag_t a2); void __wrap_mag_add(mag_t a0, const mag_t a1, const mag_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_add(a0, a1, a2); }
void __real_mag_add_2exp_fmpz(mag_t a0, const mag_t a1, const fmpz_t a2); void __wrap_mag_add_2exp_fmpz(mag_t a0, const mag_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_add_2exp_fmpz(a0, a1, a2); }
void __real_mag_add_lower(mag_t a0, const mag_t a1, const mag_t a2); void __wrap_mag_add_lower(mag_t a0, const mag_t a1, const mag_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_add_lower(a0, a1, a2); }
void __real_mag_add_ui(mag_t a0, const mag_t a1, mp_limb_t a2); void __wrap_mag_add_ui(mag_t a0, const mag_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_mag_add_ui(a0, a1, a2); }
void __real_mag_add_ui_2exp_si(mag_t a0, const mag_t a1, mp_limb_t a2, mp_limb_signed_t a3); void __wrap_mag_add_ui_2exp_si(mag_t a0, const mag_t a1, mp_limb_t a2, mp_limb_signed_t a3) { RD(a1); WR(a0); return __real_mag_add_ui_2exp_si(a0, a1, a2, a3); }
void __real_mag_add_ui_lower(mag_t a0, const mag_t a1, mp_limb_t a2); void __wrap_mag_add_ui_lower(mag_t a0, const mag_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_mag_add_ui_lower(a0, a1, a2); }
void __real_mag_addmul(mag_t a0, const mag_t a1, const mag_t a2); void __wrap_mag_addmul(mag_t a0, const mag_t a1, const mag_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_addmul(a0, a1, a2); }
void __real_mag_atan(mag_t a0, const mag_t a1); void __wrap_mag_atan(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_atan(a0, a1); }
void __real_mag_atan_lower(mag_t a0, const mag_t a1); void __wrap_mag_atan_lower(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_atan_lower(a0, a1); }
void __real_mag_bernoulli_div_fac_ui(mag_t a0, mp_limb_t a1); void __wrap_mag_bernoulli_div_fac_ui(mag_t a0, mp_limb_t a1) { WR(a0); return __real_mag_bernoulli_div_fac_ui(a0, a1); }
void __real_mag_bin_uiui(mag_t a0, mp_limb_t a1, mp_limb_t a2); void __wrap_mag_bin_uiui(mag_t a0, mp_limb_t a1, mp_limb_t a2) { WR(a0); return __real_mag_bin_uiui(a0, a1, a2); }
void __real_mag_binpow_uiui(mag_t a0, mp_limb_t a1, mp_limb_t a2); void __wrap_mag_binpow_uiui(mag_t a0, mp_limb_t a1, mp_limb_t a2) { WR(a0); return __real_mag_binpow_uiui(a0, a1, a2); }
void __real_mag_clear(mag_t a0); void __wrap_mag_clear(mag_t a0) { WR(a0); return __real_mag_clear(a0); }
int __real_mag_cmp(const mag_t a0, const mag_t a1); int __wrap_mag_cmp(const mag_t a0, const mag_t a1) { RD(a0); RD(a1); return __real_mag_cmp(a0, a1); }
int __real_mag_cmp_2exp_si(const mag_t a0, mp_limb_signed_t a1); int __wrap_mag_cmp_2exp_si(const mag_t a0, mp_limb_signed_t a1) { RD(a0); return __real_mag_cmp_2exp_si(a0, a1); }
void __real_mag_const_pi(mag_t a0); void __wrap_mag_const_pi(mag_t a0) { WR(a0); return __real_mag_const_pi(a0); }
void __real_mag_const_pi_lower(mag_t a0); void __wrap_mag_const_pi_lower(mag_t a0) { WR(a0); return __real_mag_const_pi_lower(a0); }
void __real_mag_cosh(mag_t a0, const mag_t a1); void __wrap_mag_cosh(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_cosh(a0, a1); }
void __real_mag_cosh_lower(mag_t a0, const mag_t a1); void __wrap_mag_cosh_lower(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_cosh_lower(a0, a1); }
void __real_mag_div(mag_t a0, const mag_t a1, const mag_t a2); void __wrap_mag_div(mag_t a0, const mag_t a1, const mag_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_div(a0, a1, a2); }
void __real_mag_div_lower(mag_t a0, const mag_t a1, const mag_t a2); void __wrap_mag_div_lower(mag_t a0, const mag_t a1, const mag_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_div_lower(a0, a1, a2); }
char * __real_mag_dump_str(const mag_t a0); char * __wrap_mag_dump_str(const mag_t a0) { RD(a0); return __real_mag_dump_str(a0); }
void __real_mag_exp(mag_t a0, const mag_t a1); void __wrap_mag_exp(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_exp(a0, a1); }
void __real_mag_exp_lower(mag_t a0, const mag_t a1); void __wrap_mag_exp_lower(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_exp_lower(a0, a1); }
void __real_mag_exp_tail(mag_t a0, const mag_t a1, mp_limb_t a2); void __wrap_mag_exp_tail(mag_t a0, const mag_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_mag_exp_tail(a0, a1, a2); }
void __real_mag_expinv(mag_t a0, const mag_t a1); void __wrap_mag_expinv(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_expinv(a0, a1); }
void __real_mag_expinv_lower(mag_t a0, const mag_t a1); void __wrap_mag_expinv_lower(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_expinv_lower(a0, a1); }
void __real_mag_expm1(mag_t a0, const mag_t a1); void __wrap_mag_expm1(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_expm1(a0, a1); }
void __real_mag_fac_ui(mag_t a0, mp_limb_t a1); void __wrap_mag_fac_ui(mag_t a0, mp_limb_t a1) { WR(a0); return __real_mag_fac_ui(a0, a1); }
void __real_mag_geom_series(mag_t a0, const mag_t a1, mp_limb_t a2); void __wrap_mag_geom_series(mag_t a0, const mag_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_mag_geom_series(a0, a1, a2); }
double __real_mag_get_d(const mag_t a0); double __wrap_mag_get_d(const mag_t a0) { RD(a0); return __real_mag_get_d(a0); }
double __real_mag_get_d_log2_approx(const mag_t a0); double __wrap_mag_get_d_log2_approx(const mag_t a0) { RD(a0); return __real_mag_get_d_log2_approx(a0); }
void __real_mag_get_fmpq(fmpq_t a0, const mag_t a1); void __wrap_mag_get_fmpq(fmpq_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_get_fmpq(a0, a1); }
void __real_mag_get_fmpz(fmpz_t a0, const mag_t a1); void __wrap_mag_get_fmpz(fmpz_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_get_fmpz(a0, a1); }
void __real_mag_get_fmpz_lower(fmpz_t a0, const mag_t a1); void __wrap_mag_get_fmpz_lower(fmpz_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_get_fmpz_lower(a0, a1); }
void __real_mag_hurwitz_zeta_uiui(mag_t a0, mp_limb_t a1, mp_limb_t a2); void __wrap_mag_hurwitz_zeta_uiui(mag_t a0, mp_limb_t a1, mp_limb_t a2) { WR(a0); return __real_mag_hurwitz_zeta_uiui(a0, a1, a2); }
void __real_mag_hypot(mag_t a0, const mag_t a1, const mag_t a2); void __wrap_mag_hypot(mag_t a0, const mag_t a1, const mag_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_hypot(a0, a1, a2); }
int __real_mag_load_str(mag_t a0, const char * a1); int __wrap_mag_load_str(mag_t a0, const char * a1) { WR(a0); return __real_mag_load_str(a0, a1); }
void __real_mag_log(mag_t a0, const mag_t a1); void __wrap_mag_log(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_log(a0, a1); }
void __real_mag_log1p(mag_t a0, const mag_t a1); void __wrap_mag_log1p(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_log1p(a0, a1); }
void __real_mag_log_lower(mag_t a0, const mag_t a1); void __wrap_mag_log_lower(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_log_lower(a0, a1); }
void __real_mag_log_ui(mag_t a0, mp_limb_t a1); void __wrap_mag_log_ui(mag_t a0, mp_limb_t a1) { WR(a0); return __real_mag_log_ui(a0, a1); }
void __real_mag_mul(mag_t a0, const mag_t a1, const mag_t a2); void __wrap_mag_mul(mag_t a0, const mag_t a1, const mag_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_mul(a0, a1, a2); }
void __real_mag_mul_2exp_fmpz(mag_t a0, const mag_t a1, const fmpz_t a2); void __wrap_mag_mul_2exp_fmpz(mag_t a0, const mag_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_mul_2exp_fmpz(a0, a1, a2); }
void __real_mag_mul_2exp_si(mag_t a0, const mag_t a1, mp_limb_signed_t a2); void __wrap_mag_mul_2exp_si(mag_t a0, const mag_t a1, mp_limb_signed_t a2) { RD(a1); WR(a0); return __real_mag_mul_2exp_si(a0, a1, a2); }
void __real_mag_mul_lower(mag_t a0, const mag_t a1, const mag_t a2); void __wrap_mag_mul_lower(mag_t a0, const mag_t a1, const mag_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_mul_lower(a0, a1, a2); }
void __real_mag_neg_log(mag_t a0, const mag_t a1); void __wrap_mag_neg_log(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_neg_log(a0, a1); }
void __real_mag_neg_log_lower(mag_t a0, const mag_t a1); void __wrap_mag_neg_log_lower(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_neg_log_lower(a0, a1); }
void __real_mag_polylog_tail(mag_t a0, const mag_t a1, mp_limb_signed_t a2, mp_limb_t a3, mp_limb_t a4); void __wrap_mag_polylog_tail(mag_t a0, const mag_t a1, mp_limb_signed_t a2, mp_limb_t a3, mp_limb_t a4) { RD(a1); WR(a0); return __real_mag_polylog_tail(a0, a1, a2, a3, a4); }
void __real_mag_pow_fmpz(mag_t a0, const mag_t a1, const fmpz_t a2); void __wrap_mag_pow_fmpz(mag_t a0, const mag_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_pow_fmpz(a0, a1, a2); }
void __real_mag_pow_fmpz_lower(mag_t a0, const mag_t a1, const fmpz_t a2); void __wrap_mag_pow_fmpz_lower(mag_t a0, const mag_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_pow_fmpz_lower(a0, a1, a2); }
void __real_mag_pow_ui(mag_t a0, const mag_t a1, mp_limb_t a2); void __wrap_mag_pow_ui(mag_t a0, const mag_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_mag_pow_ui(a0, a1, a2); }
void __real_mag_pow_ui_lower(mag_t a0, const mag_t a1, mp_limb_t a2); void __wrap_mag_pow_ui_lower(mag_t a0, const mag_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_mag_pow_ui_lower(a0, a1, a2); }
void __real_mag_print(const mag_t a0); void __wrap_mag_print(const mag_t a0) { RD(a0); return __real_mag_print(a0); }
void __real_mag_printd(const mag_t a0, mp_limb_signed_t a1); void __wrap_mag_printd(const mag_t a0, mp_limb_signed_t a1) { RD(a0); return __real_mag_printd(a0, a1); }
void __real_mag_rfac_ui(mag_t a0, mp_limb_t a1); void __wrap_mag_rfac_ui(mag_t a0, mp_limb_t a1) { WR(a0); return __real_mag_rfac_ui(a0, a1); }
void __real_mag_root(mag_t a0, const mag_t a1, mp_limb_t a2); void __wrap_mag_root(mag_t a0, const mag_t a1, mp_limb_t a2) { RD(a1); WR(a0); return __real_mag_root(a0, a1, a2); }
void __real_mag_rsqrt(mag_t a0, const mag_t a1); void __wrap_mag_rsqrt(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_rsqrt(a0, a1); }
void __real_mag_rsqrt_lower(mag_t a0, const mag_t a1); void __wrap_mag_rsqrt_lower(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_rsqrt_lower(a0, a1); }
void __real_mag_set_d(mag_t a0, double a1); void __wrap_mag_set_d(mag_t a0, double a1) { WR(a0); return __real_mag_set_d(a0, a1); }
void __real_mag_set_d_2exp_fmpz(mag_t a0, double a1, const fmpz_t a2); void __wrap_mag_set_d_2exp_fmpz(mag_t a0, double a1, const fmpz_t a2) { RD(a2); WR(a0); return __real_mag_set_d_2exp_fmpz(a0, a1, a2); }
void __real_mag_set_d_2exp_fmpz_lower(mag_t a0, double a1, const fmpz_t a2); void __wrap_mag_set_d_2exp_fmpz_lower(mag_t a0, double a1, const fmpz_t a2) { RD(a2); WR(a0); return __real_mag_set_d_2exp_fmpz_lower(a0, a1, a2); }
void __real_mag_set_d_lower(mag_t a0, double a1); void __wrap_mag_set_d_lower(mag_t a0, double a1) { WR(a0); return __real_mag_set_d_lower(a0, a1); }
void __real_mag_set_fmpz_2exp_fmpz(mag_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_mag_set_fmpz_2exp_fmpz(mag_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_set_fmpz_2exp_fmpz(a0, a1, a2); }
void __real_mag_set_fmpz_2exp_fmpz_lower(mag_t a0, const fmpz_t a1, const fmpz_t a2); void __wrap_mag_set_fmpz_2exp_fmpz_lower(mag_t a0, const fmpz_t a1, const fmpz_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_set_fmpz_2exp_fmpz_lower(a0, a1, a2); }
void __real_mag_set_ui(mag_t a0, mp_limb_t a1); void __wrap_mag_set_ui(mag_t a0, mp_limb_t a1) { WR(a0); return __real_mag_set_ui(a0, a1); }
void __real_mag_set_ui_2exp_si(mag_t a0, mp_limb_t a1, mp_limb_signed_t a2); void __wrap_mag_set_ui_2exp_si(mag_t a0, mp_limb_t a1, mp_limb_signed_t a2) { WR(a0); return __real_mag_set_ui_2exp_si(a0, a1, a2); }
void __real_mag_set_ui_lower(mag_t a0, mp_limb_t a1); void __wrap_mag_set_ui_lower(mag_t a0, mp_limb_t a1) { WR(a0); return __real_mag_set_ui_lower(a0, a1); }
void __real_mag_sinh(mag_t a0, const mag_t a1); void __wrap_mag_sinh(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_sinh(a0, a1); }
void __real_mag_sinh_lower(mag_t a0, const mag_t a1); void __wrap_mag_sinh_lower(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_sinh_lower(a0, a1); }
void __real_mag_sqrt(mag_t a0, const mag_t a1); void __wrap_mag_sqrt(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_sqrt(a0, a1); }
void __real_mag_sqrt_lower(mag_t a0, const mag_t a1); void __wrap_mag_sqrt_lower(mag_t a0, const mag_t a1) { RD(a1); WR(a0); return __real_mag_sqrt_lower(a0, a1); }
void __real_mag_sub(mag_t a0, const mag_t a1, const mag_t a2); void __wrap_mag_sub(mag_t a0, const mag_t a1, const mag_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_sub(a0, a1, a2); }
void __real_mag_sub_lower(mag_t a0, const mag_t a1, const mag_t a2); void __wrap_mag_sub_lower(mag_t a0, const mag_t a1, const mag_t a2) { RD(a1); RD(a2); WR(a0); return __real_mag_sub_lower(a0, a1, a2); }
void __real_nf_clear(nf_t a0); void __wrap_nf_clear(nf_t a0) { WR(a0); return __real_nf_clear(a0); }
void __real_nf_elem_add_fmpq(nf_elem_t a0, const nf_elem_t a1, const fmpq_t a2, const nf_t a3); void __wrap_nf_elem_add_fmpq(nf_elem_t a0, const nf_elem_t a1, const fmpq_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_add_fmpq(a0, a1, a2, a3); }
void __real_nf_elem_add_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3); void __wrap_nf_elem_add_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_add_fmpz(a0, a1, a2, a3); }
void __real_nf_elem_add_qf(nf_elem_t a0, const nf_elem_t a1, const nf_elem_t a2, const nf_t a3); void __wrap_nf_elem_add_qf(nf_elem_t a0, const nf_elem_t a1, const nf_elem_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_add_qf(a0, a1, a2, a3); }
void __real_nf_elem_add_si(nf_elem_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3); void __wrap_nf_elem_add_si(nf_elem_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3) { RD(a1); RD(a3); WR(a0); return __real_nf_elem_add_si(a0, a1, a2, a3); }
void __real_nf_elem_clear(nf_elem_t a0, const nf_t a1); void __wrap_nf_elem_clear(nf_elem_t a0, const nf_t a1) { RD(a1); WR(a0); return __real_nf_elem_clear(a0, a1); }
void __real_nf_elem_coprime_den(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3); void __wrap_nf_elem_coprime_den(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_coprime_den(a0, a1, a2, a3); }
void __real_nf_elem_coprime_den_signed(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3); void __wrap_nf_elem_coprime_den_signed(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_coprime_den_signed(a0, a1, a2, a3); }
void __real_nf_elem_div(nf_elem_t a0, const nf_elem_t a1, const nf_elem_t a2, const nf_t a3); void __wrap_nf_elem_div(nf_elem_t a0, const nf_elem_t a1, const nf_elem_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_div(a0, a1, a2, a3); }
int __real_nf_elem_equal(const nf_elem_t a0, const nf_elem_t a1, const nf_t a2); int __wrap_nf_elem_equal(const nf_elem_t a0, const nf_elem_t a1, const nf_t a2) { RD(a0); RD(a1); RD(a2); return __real_nf_elem_equal(a0, a1, a2); }
int __real_nf_elem_equal_fmpq(const nf_elem_t a0, const fmpq_t a1, const nf_t a2); int __wrap_nf_elem_equal_fmpq(const nf_elem_t a0, const fmpq_t a1, const nf_t a2) { RD(a0); RD(a1); RD(a2); return __real_nf_elem_equal_fmpq(a0, a1, a2); }
int __real_nf_elem_equal_fmpz(const nf_elem_t a0, const fmpz_t a1, const nf_t a2); int __wrap_nf_elem_equal_fmpz(const nf_elem_t a0, const fmpz_t a1, const nf_t a2) { RD(a0); RD(a1); RD(a2); return __real_nf_elem_equal_fmpz(a0, a1, a2); }
int __real_nf_elem_equal_si(const nf_elem_t a0, const mp_limb_signed_t a1, const nf_t a2); int __wrap_nf_elem_equal_si(const nf_elem_t a0, const mp_limb_signed_t a1, const nf_t a2) { RD(a0); RD(a2); return __real_nf_elem_equal_si(a0, a1, a2); }
int __real_nf_elem_equal_ui(const nf_elem_t a0, const mp_limb_t a1, const nf_t a2); int __wrap_nf_elem_equal_ui(const nf_elem_t a0, const mp_limb_t a1, const nf_t a2) { RD(a0); RD(a2); return __real_nf_elem_equal_ui(a0, a1, a2); }
void __real_nf_elem_fmpq_sub(nf_elem_t a0, const fmpq_t a1, const nf_elem_t a2, const nf_t a3); void __wrap_nf_elem_fmpq_sub(nf_elem_t a0, const fmpq_t a1, const nf_elem_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_fmpq_sub(a0, a1, a2, a3); }
void __real_nf_elem_fmpz_sub(nf_elem_t a0, const fmpz_t a1, const nf_elem_t a2, const nf_t a3); void __wrap_nf_elem_fmpz_sub(nf_elem_t a0, const fmpz_t a1, const nf_elem_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_fmpz_sub(a0, a1, a2, a3); }
void __real_nf_elem_gen(nf_elem_t a0, const nf_t a1); void __wrap_nf_elem_gen(nf_elem_t a0, const nf_t a1) { RD(a1); WR(a0); return __real_nf_elem_gen(a0, a1); }
void __real_nf_elem_get_coeff_fmpq(fmpq_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3); void __wrap_nf_elem_get_coeff_fmpq(fmpq_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3) { RD(a1); RD(a3); WR(a0); return __real_nf_elem_get_coeff_fmpq(a0, a1, a2, a3); }
void __real_nf_elem_get_coeff_fmpz(fmpz_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3); void __wrap_nf_elem_get_coeff_fmpz(fmpz_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3) { RD(a1); RD(a3); WR(a0); return __real_nf_elem_get_coeff_fmpz(a0, a1, a2, a3); }
void __real_nf_elem_get_fmpq_poly(fmpq_poly_t a0, const nf_elem_t a1, const nf_t a2); void __wrap_nf_elem_get_fmpq_poly(fmpq_poly_t a0, const nf_elem_t a1, const nf_t a2) { RD(a1); RD(a2); WR(a0); return __real_nf_elem_get_fmpq_poly(a0, a1, a2); }
void __real_nf_elem_get_fmpz_mat_row(fmpz_mat_t a0, const mp_limb_signed_t a1, fmpz_t a2, const nf_elem_t a3, const nf_t a4); void __wrap_nf_elem_get_fmpz_mat_row(fmpz_mat_t a0, const mp_limb_signed_t a1, fmpz_t a2, const nf_elem_t a3, const nf_t a4) { RD(a3); RD(a4); WR(a2); return __real_nf_elem_get_fmpz_mat_row(a0, a1, a2, a3, a4); }
void __real_nf_elem_get_fmpz_mod_poly(fmpz_mod_poly_t a0, const nf_elem_t a1, const nf_t a2, const fmpz_mod_ctx_t a3); void __wrap_nf_elem_get_fmpz_mod_poly(fmpz_mod_poly_t a0, const nf_elem_t a1, const nf_t a2, const fmpz_mod_ctx_t a3) { RD(a1); RD(a2); return __real_nf_elem_get_fmpz_mod_poly(a0, a1, a2, a3); }
void __real_nf_elem_get_fmpz_mod_poly_den(fmpz_mod_poly_t a0, const nf_elem_t a1, const nf_t a2, int a3, const fmpz_mod_ctx_t a4); void __wrap_nf_elem_get_fmpz_mod_poly_den(fmpz_mod_poly_t a0, const nf_elem_t a1, const nf_t a2, int a3, const fmpz_mod_ctx_t a4) { RD(a1); RD(a2); return __real_nf_elem_get_fmpz_mod_poly_den(a0, a1, a2, a3, a4); }
void __real_nf_elem_get_nmod_poly(nmod_poly_t a0, const nf_elem_t a1, const nf_t a2); void __wrap_nf_elem_get_nmod_poly(nmod_poly_t a0, const nf_elem_t a1, const nf_t a2) { RD(a1); RD(a2); return __real_nf_elem_get_nmod_poly(a0, a1, a2); }
void __real_nf_elem_get_nmod_poly_den(nmod_poly_t a0, const nf_elem_t a1, const nf_t a2, int a3); void __wrap_nf_elem_get_nmod_poly_den(nmod_poly_t a0, const nf_elem_t a1, const nf_t a2, int a3) { RD(a1); RD(a2); return __real_nf_elem_get_nmod_poly_den(a0, a1, a2, a3); }
char * __real_nf_elem_get_str_pretty(const nf_elem_t a0, const char * a1, const nf_t a2); char * __wrap_nf_elem_get_str_pretty(const nf_elem_t a0, const char * a1, const nf_t a2) { RD(a0); RD(a2); return __real_nf_elem_get_str_pretty(a0, a1, a2); }
void __real_nf_elem_init(nf_elem_t a0, const nf_t a1); void __wrap_nf_elem_init(nf_elem_t a0, const nf_t a1) { RD(a1); WR(a0); return __real_nf_elem_init(a0, a1); }
void __real_nf_elem_inv(nf_elem_t a0, const nf_elem_t a1, const nf_t a2); void __wrap_nf_elem_inv(nf_elem_t a0, const nf_elem_t a1, const nf_t a2) { RD(a1); RD(a2); WR(a0); return __real_nf_elem_inv(a0, a1, a2); }
int __real_nf_elem_is_gen(const nf_elem_t a0, const nf_t a1); int __wrap_nf_elem_is_gen(const nf_elem_t a0, const nf_t a1) { RD(a0); RD(a1); return __real_nf_elem_is_gen(a0, a1); }
void __real_nf_elem_mod_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3); void __wrap_nf_elem_mod_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_mod_fmpz(a0, a1, a2, a3); }
void __real_nf_elem_mod_fmpz_den(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3, int a4); void __wrap_nf_elem_mod_fmpz_den(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3, int a4) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_mod_fmpz_den(a0, a1, a2, a3, a4); }
void __real_nf_elem_mul_gen(nf_elem_t a0, const nf_elem_t a1, const nf_t a2); void __wrap_nf_elem_mul_gen(nf_elem_t a0, const nf_elem_t a1, const nf_t a2) { RD(a1); RD(a2); WR(a0); return __real_nf_elem_mul_gen(a0, a1, a2); }
void __real_nf_elem_mul_red(nf_elem_t a0, const nf_elem_t a1, const nf_elem_t a2, const nf_t a3, int a4); void __wrap_nf_elem_mul_red(nf_elem_t a0, const nf_elem_t a1, const nf_elem_t a2, const nf_t a3, int a4) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_mul_red(a0, a1, a2, a3, a4); }
void __real_nf_elem_neg(nf_elem_t a0, const nf_elem_t a1, const nf_t a2); void __wrap_nf_elem_neg(nf_elem_t a0, const nf_elem_t a1, const nf_t a2) { RD(a1); RD(a2); WR(a0); return __real_nf_elem_neg(a0, a1, a2); }
void __real_nf_elem_norm(fmpq_t a0, const nf_elem_t a1, const nf_t a2); void __wrap_nf_elem_norm(fmpq_t a0, const nf_elem_t a1, const nf_t a2) { RD(a1); RD(a2); WR(a0); return __real_nf_elem_norm(a0, a1, a2); }
void __real_nf_elem_norm_div(fmpq_t a0, const nf_elem_t a1, const nf_t a2, const fmpz_t a3, mp_limb_signed_t a4); void __wrap_nf_elem_norm_div(fmpq_t a0, const nf_elem_t a1, const nf_t a2, const fmpz_t a3, mp_limb_signed_t a4) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_norm_div(a0, a1, a2, a3, a4); }
void __real_nf_elem_one(nf_elem_t a0, const nf_t a1); void __wrap_nf_elem_one(nf_elem_t a0, const nf_t a1) { RD(a1); WR(a0); return __real_nf_elem_one(a0, a1); }
void __real_nf_elem_pow(nf_elem_t a0, const nf_elem_t a1, mp_limb_t a2, const nf_t a3); void __wrap_nf_elem_pow(nf_elem_t a0, const nf_elem_t a1, mp_limb_t a2, const nf_t a3) { RD(a1); RD(a3); WR(a0); return __real_nf_elem_pow(a0, a1, a2, a3); }
void __real_nf_elem_print_pretty(const nf_elem_t a0, const nf_t a1, const char * a2); void __wrap_nf_elem_print_pretty(const nf_elem_t a0, const nf_t a1, const char * a2) { RD(a0); RD(a1); return __real_nf_elem_print_pretty(a0, a1, a2); }
void __real_nf_elem_reduce(nf_elem_t a0, const nf_t a1); void __wrap_nf_elem_reduce(nf_elem_t a0, const nf_t a1) { RD(a1); WR(a0); return __real_nf_elem_reduce(a0, a1); }
void __real_nf_elem_rep_mat(fmpq_mat_t a0, const nf_elem_t a1, const nf_t a2); void __wrap_nf_elem_rep_mat(fmpq_mat_t a0, const nf_elem_t a1, const nf_t a2) { RD(a1); RD(a2); return __real_nf_elem_rep_mat(a0, a1, a2); }
void __real_nf_elem_rep_mat_fmpz_mat_den(fmpz_mat_t a0, fmpz_t a1, const nf_elem_t a2, const nf_t a3); void __wrap_nf_elem_rep_mat_fmpz_mat_den(fmpz_mat_t a0, fmpz_t a1, const nf_elem_t a2, const nf_t a3) { RD(a2); RD(a3); WR(a1); return __real_nf_elem_rep_mat_fmpz_mat_den(a0, a1, a2, a3); }
void __real_nf_elem_scalar_div_fmpq(nf_elem_t a0, const nf_elem_t a1, const fmpq_t a2, const nf_t a3); void __wrap_nf_elem_scalar_div_fmpq(nf_elem_t a0, const nf_elem_t a1, const fmpq_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_scalar_div_fmpq(a0, a1, a2, a3); }
void __real_nf_elem_scalar_div_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3); void __wrap_nf_elem_scalar_div_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_scalar_div_fmpz(a0, a1, a2, a3); }
void __real_nf_elem_scalar_div_si(nf_elem_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3); void __wrap_nf_elem_scalar_div_si(nf_elem_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3) { RD(a1); RD(a3); WR(a0); return __real_nf_elem_scalar_div_si(a0, a1, a2, a3); }
void __real_nf_elem_scalar_mul_fmpq(nf_elem_t a0, const nf_elem_t a1, const fmpq_t a2, const nf_t a3); void __wrap_nf_elem_scalar_mul_fmpq(nf_elem_t a0, const nf_elem_t a1, const fmpq_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_scalar_mul_fmpq(a0, a1, a2, a3); }
void __real_nf_elem_scalar_mul_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3); void __wrap_nf_elem_scalar_mul_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_scalar_mul_fmpz(a0, a1, a2, a3); }
void __real_nf_elem_scalar_mul_si(nf_elem_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3); void __wrap_nf_elem_scalar_mul_si(nf_elem_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3) { RD(a1); RD(a3); WR(a0); return __real_nf_elem_scalar_mul_si(a0, a1, a2, a3); }
void __real_nf_elem_set_fmpq(nf_elem_t a0, const fmpq_t a1, const nf_t a2); void __wrap_nf_elem_set_fmpq(nf_elem_t a0, const fmpq_t a1, const nf_t a2) { RD(a1); RD(a2); WR(a0); return __real_nf_elem_set_fmpq(a0, a1, a2); }
void __real_nf_elem_set_fmpq_poly(nf_elem_t a0, const fmpq_poly_t a1, const nf_t a2); void __wrap_nf_elem_set_fmpq_poly(nf_elem_t a0, const fmpq_poly_t a1, const nf_t a2) { RD(a1); RD(a2); WR(a0); return __real_nf_elem_set_fmpq_poly(a0, a1, a2); }
void __real_nf_elem_set_fmpz(nf_elem_t a0, const fmpz_t a1, const nf_t a2); void __wrap_nf_elem_set_fmpz(nf_elem_t a0, const fmpz_t a1, const nf_t a2) { RD(a1); RD(a2); WR(a0); return __real_nf_elem_set_fmpz(a0, a1, a2); }
void __real_nf_elem_set_fmpz_mat_row(nf_elem_t a0, const fmpz_mat_t a1, const mp_limb_signed_t a2, fmpz_t a3, const nf_t a4); void __wrap_nf_elem_set_fmpz_mat_row(nf_elem_t a0, const fmpz_mat_t a1, const mp_limb_signed_t a2, fmpz_t a3, const nf_t a4) { RD(a4); WR(a0); WR(a3); return __real_nf_elem_set_fmpz_mat_row(a0, a1, a2, a3, a4); }
void __real_nf_elem_set_si(nf_elem_t a0, mp_limb_signed_t a1, const nf_t a2); void __wrap_nf_elem_set_si(nf_elem_t a0, mp_limb_signed_t a1, const nf_t a2) { RD(a2); WR(a0); return __real_nf_elem_set_si(a0, a1, a2); }
void __real_nf_elem_set_ui(nf_elem_t a0, mp_limb_t a1, const nf_t a2); void __wrap_nf_elem_set_ui(nf_elem_t a0, mp_limb_t a1, const nf_t a2) { RD(a2); WR(a0); return __real_nf_elem_set_ui(a0, a1, a2); }
void __real_nf_elem_si_sub(nf_elem_t a0, mp_limb_signed_t a1, const nf_elem_t a2, const nf_t a3); void __wrap_nf_elem_si_sub(nf_elem_t a0, mp_limb_signed_t a1, const nf_elem_t a2, const nf_t a3) { RD(a2); RD(a3); WR(a0); return __real_nf_elem_si_sub(a0, a1, a2, a3); }
void __real_nf_elem_smod_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3); void __wrap_nf_elem_smod_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_smod_fmpz(a0, a1, a2, a3); }
void __real_nf_elem_smod_fmpz_den(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3, int a4); void __wrap_nf_elem_smod_fmpz_den(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3, int a4) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_smod_fmpz_den(a0, a1, a2, a3, a4); }
void __real_nf_elem_sub_fmpq(nf_elem_t a0, const nf_elem_t a1, const fmpq_t a2, const nf_t a3); void __wrap_nf_elem_sub_fmpq(nf_elem_t a0, const nf_elem_t a1, const fmpq_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_sub_fmpq(a0, a1, a2, a3); }
void __real_nf_elem_sub_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3); void __wrap_nf_elem_sub_fmpz(nf_elem_t a0, const nf_elem_t a1, const fmpz_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_sub_fmpz(a0, a1, a2, a3); }
void __real_nf_elem_sub_qf(nf_elem_t a0, const nf_elem_t a1, const nf_elem_t a2, const nf_t a3); void __wrap_nf_elem_sub_qf(nf_elem_t a0, const nf_elem_t a1, const nf_elem_t a2, const nf_t a3) { RD(a1); RD(a2); RD(a3); WR(a0); return __real_nf_elem_sub_qf(a0, a1, a2, a3); }
void __real_nf_elem_sub_si(nf_elem_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3); void __wrap_nf_elem_sub_si(nf_elem_t a0, const nf_elem_t a1, mp_limb_signed_t a2, const nf_t a3) { RD(a1); RD(a3); WR(a0); return __real_nf_elem_sub_si(a0, a1, a2, a3); }
void __real_nf_elem_swap(nf_elem_t a0, nf_elem_t a1, const nf_t a2); void __wrap_nf_elem_swap(nf_elem_t a0, nf_elem_t a1, const nf_t a2) { RD(a2); WR(a0); WR(a1); return __real_nf_elem_swap(a0, a1, a2); }
void __real_nf_elem_trace(fmpq_t a0, const nf_elem_t a1, const nf_t a2); void __wrap_nf_elem_trace(fmpq_t a0, const nf_elem_t a1, const nf_t a2) { RD(a1); RD(a2); WR(a0); return __real_nf_elem_trace(a0, a1, a2); }
void __real_nf_elem_zero(nf_elem_t a0, const nf_t a1); void __wrap_nf_elem_zero(nf_elem_t a0, const nf_t a1) { RD(a1); WR(a0); return __real_nf_elem_zero(a0, a1); }
void __real_nf_init(nf_t a0, const fmpq_poly_t a1); void __wrap_nf_init(nf_t a0, const fmpq_poly_t a1) { RD(a1); WR(a0); return __real_nf_init(a0, a1); }
void __real_nf_print(const nf_t a0); void __wrap_nf_print(const nf_t a0) { RD(a0); return __real_nf_print(a0); }
}
