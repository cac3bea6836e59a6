// Written by gen_mpwrap.py. Which operands an MPFR or GMP call reads and writes, told to the simulator.
#include <gmp.h>
#include <mpfr.h>
#include "simrt.h"
#define PC() ((unsigned)(unsigned long)__builtin_return_address(0))
#define rmpfr(x) sim_mp_access(x,sizeof *x,0,PC()); sim_mp_access((x)->_mpfr_d,(((x)->_mpfr_prec+63)/64)*8,0,PC())
#define wmpfr(x) sim_mp_access(&(x)->_mpfr_sign,16,1,PC()); sim_mp_access((x)->_mpfr_d,(((x)->_mpfr_prec+63)/64)*8,1,PC())
#define LIMBS(x) ((x)->_mp_size<0?-(x)->_mp_size:(x)->_mp_size)
#define rmpz(x) sim_mp_access(x,sizeof *x,0,PC()); sim_mp_access((x)->_mp_d,LIMBS(x)*8,0,PC())
#define wmpz(x) sim_mp_access(x,sizeof *x,1,PC()); sim_mp_access((x)->_mp_d,LIMBS(x)*8,1,PC())
#define rmpf(x) rmpz(x)
#define wmpf(x) wmpz(x)
#define rmpq(x) rmpz(&(x)->_mp_num); rmpz(&(x)->_mp_den)
#define wmpq(x) wmpz(&(x)->_mp_num); wmpz(&(x)->_mp_den)
extern "C" {
void __real___gmpf_abs(mpf_ptr a0,mpf_srcptr a1); void __wrap___gmpf_abs(mpf_ptr a0,mpf_srcptr a1) { rmpf(a1); __real___gmpf_abs(a0,a1); wmpf(a0); }
void __real___gmpf_add(mpf_ptr a0,mpf_srcptr a1,mpf_srcptr a2); void __wrap___gmpf_add(mpf_ptr a0,mpf_srcptr a1,mpf_srcptr a2) { rmpf(a1);rmpf(a2); __real___gmpf_add(a0,a1,a2); wmpf(a0); }
void __real___gmpf_add_ui(mpf_ptr a0,mpf_srcptr a1,unsigned long int a2); void __wrap___gmpf_add_ui(mpf_ptr a0,mpf_srcptr a1,unsigned long int a2) { rmpf(a1); __real___gmpf_add_ui(a0,a1,a2); wmpf(a0); }
void __real___gmpf_ceil(mpf_ptr a0,mpf_srcptr a1); void __wrap___gmpf_ceil(mpf_ptr a0,mpf_srcptr a1) { rmpf(a1); __real___gmpf_ceil(a0,a1); wmpf(a0); }
int __real___gmpf_cmp(mpf_srcptr a0,mpf_srcptr a1); int __wrap___gmpf_cmp(mpf_srcptr a0,mpf_srcptr a1) { rmpf(a0);rmpf(a1); int r=__real___gmpf_cmp(a0,a1);  return r; }
int __real___gmpf_cmp_d(mpf_srcptr a0,double a1); int __wrap___gmpf_cmp_d(mpf_srcptr a0,double a1) { rmpf(a0); int r=__real___gmpf_cmp_d(a0,a1);  return r; }
int __real___gmpf_cmp_si(mpf_srcptr a0,signed long int a1); int __wrap___gmpf_cmp_si(mpf_srcptr a0,signed long int a1) { rmpf(a0); int r=__real___gmpf_cmp_si(a0,a1);  return r; }
int __real___gmpf_cmp_ui(mpf_srcptr a0,unsigned long int a1); int __wrap___gmpf_cmp_ui(mpf_srcptr a0,unsigned long int a1) { rmpf(a0); int r=__real___gmpf_cmp_ui(a0,a1);  return r; }
int __real___gmpf_cmp_z(mpf_srcptr a0,mpz_srcptr a1); int __wrap___gmpf_cmp_z(mpf_srcptr a0,mpz_srcptr a1) { rmpf(a0);rmpz(a1); int r=__real___gmpf_cmp_z(a0,a1);  return r; }
void __real___gmpf_div(mpf_ptr a0,mpf_srcptr a1,mpf_srcptr a2); void __wrap___gmpf_div(mpf_ptr a0,mpf_srcptr a1,mpf_srcptr a2) { rmpf(a1);rmpf(a2); __real___gmpf_div(a0,a1,a2); wmpf(a0); }
void __real___gmpf_div_2exp(mpf_ptr a0,mpf_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpf_div_2exp(mpf_ptr a0,mpf_srcptr a1,mp_bitcnt_t a2) { rmpf(a1); __real___gmpf_div_2exp(a0,a1,a2); wmpf(a0); }
void __real___gmpf_div_ui(mpf_ptr a0,mpf_srcptr a1,unsigned long int a2); void __wrap___gmpf_div_ui(mpf_ptr a0,mpf_srcptr a1,unsigned long int a2) { rmpf(a1); __real___gmpf_div_ui(a0,a1,a2); wmpf(a0); }
void __real___gmpf_dump(mpf_srcptr a0); void __wrap___gmpf_dump(mpf_srcptr a0) { rmpf(a0); __real___gmpf_dump(a0);  }
int __real___gmpf_eq(mpf_srcptr a0,mpf_srcptr a1,mp_bitcnt_t a2); int __wrap___gmpf_eq(mpf_srcptr a0,mpf_srcptr a1,mp_bitcnt_t a2) { rmpf(a0);rmpf(a1); int r=__real___gmpf_eq(a0,a1,a2);  return r; }
int __real___gmpf_fits_sint_p(mpf_srcptr a0); int __wrap___gmpf_fits_sint_p(mpf_srcptr a0) { rmpf(a0); int r=__real___gmpf_fits_sint_p(a0);  return r; }
int __real___gmpf_fits_slong_p(mpf_srcptr a0); int __wrap___gmpf_fits_slong_p(mpf_srcptr a0) { rmpf(a0); int r=__real___gmpf_fits_slong_p(a0);  return r; }
int __real___gmpf_fits_sshort_p(mpf_srcptr a0); int __wrap___gmpf_fits_sshort_p(mpf_srcptr a0) { rmpf(a0); int r=__real___gmpf_fits_sshort_p(a0);  return r; }
int __real___gmpf_fits_uint_p(mpf_srcptr a0); int __wrap___gmpf_fits_uint_p(mpf_srcptr a0) { rmpf(a0); int r=__real___gmpf_fits_uint_p(a0);  return r; }
int __real___gmpf_fits_ulong_p(mpf_srcptr a0); int __wrap___gmpf_fits_ulong_p(mpf_srcptr a0) { rmpf(a0); int r=__real___gmpf_fits_ulong_p(a0);  return r; }
int __real___gmpf_fits_ushort_p(mpf_srcptr a0); int __wrap___gmpf_fits_ushort_p(mpf_srcptr a0) { rmpf(a0); int r=__real___gmpf_fits_ushort_p(a0);  return r; }
void __real___gmpf_floor(mpf_ptr a0,mpf_srcptr a1); void __wrap___gmpf_floor(mpf_ptr a0,mpf_srcptr a1) { rmpf(a1); __real___gmpf_floor(a0,a1); wmpf(a0); }
double __real___gmpf_get_d(mpf_srcptr a0); double __wrap___gmpf_get_d(mpf_srcptr a0) { rmpf(a0); double r=__real___gmpf_get_d(a0);  return r; }
mp_bitcnt_t __real___gmpf_get_prec(mpf_srcptr a0); mp_bitcnt_t __wrap___gmpf_get_prec(mpf_srcptr a0) { rmpf(a0); mp_bitcnt_t r=__real___gmpf_get_prec(a0);  return r; }
long __real___gmpf_get_si(mpf_srcptr a0); long __wrap___gmpf_get_si(mpf_srcptr a0) { rmpf(a0); long r=__real___gmpf_get_si(a0);  return r; }
char * __real___gmpf_get_str(char * a0,mp_exp_t * a1,int a2,size_t a3,mpf_srcptr a4); char * __wrap___gmpf_get_str(char * a0,mp_exp_t * a1,int a2,size_t a3,mpf_srcptr a4) { rmpf(a4); char * r=__real___gmpf_get_str(a0,a1,a2,a3,a4);  return r; }
unsigned long __real___gmpf_get_ui(mpf_srcptr a0); unsigned long __wrap___gmpf_get_ui(mpf_srcptr a0) { rmpf(a0); unsigned long r=__real___gmpf_get_ui(a0);  return r; }
int __real___gmpf_integer_p(mpf_srcptr a0); int __wrap___gmpf_integer_p(mpf_srcptr a0) { rmpf(a0); int r=__real___gmpf_integer_p(a0);  return r; }
void __real___gmpf_mul(mpf_ptr a0,mpf_srcptr a1,mpf_srcptr a2); void __wrap___gmpf_mul(mpf_ptr a0,mpf_srcptr a1,mpf_srcptr a2) { rmpf(a1);rmpf(a2); __real___gmpf_mul(a0,a1,a2); wmpf(a0); }
void __real___gmpf_mul_2exp(mpf_ptr a0,mpf_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpf_mul_2exp(mpf_ptr a0,mpf_srcptr a1,mp_bitcnt_t a2) { rmpf(a1); __real___gmpf_mul_2exp(a0,a1,a2); wmpf(a0); }
void __real___gmpf_mul_ui(mpf_ptr a0,mpf_srcptr a1,unsigned long int a2); void __wrap___gmpf_mul_ui(mpf_ptr a0,mpf_srcptr a1,unsigned long int a2) { rmpf(a1); __real___gmpf_mul_ui(a0,a1,a2); wmpf(a0); }
void __real___gmpf_neg(mpf_ptr a0,mpf_srcptr a1); void __wrap___gmpf_neg(mpf_ptr a0,mpf_srcptr a1) { rmpf(a1); __real___gmpf_neg(a0,a1); wmpf(a0); }
void __real___gmpf_pow_ui(mpf_ptr a0,mpf_srcptr a1,unsigned long int a2); void __wrap___gmpf_pow_ui(mpf_ptr a0,mpf_srcptr a1,unsigned long int a2) { rmpf(a1); __real___gmpf_pow_ui(a0,a1,a2); wmpf(a0); }
void __real___gmpf_reldiff(mpf_ptr a0,mpf_srcptr a1,mpf_srcptr a2); void __wrap___gmpf_reldiff(mpf_ptr a0,mpf_srcptr a1,mpf_srcptr a2) { rmpf(a1);rmpf(a2); __real___gmpf_reldiff(a0,a1,a2); wmpf(a0); }
void __real___gmpf_set(mpf_ptr a0,mpf_srcptr a1); void __wrap___gmpf_set(mpf_ptr a0,mpf_srcptr a1) { rmpf(a1); __real___gmpf_set(a0,a1); wmpf(a0); }
void __real___gmpf_set_d(mpf_ptr a0,double a1); void __wrap___gmpf_set_d(mpf_ptr a0,double a1) {  __real___gmpf_set_d(a0,a1); wmpf(a0); }
void __real___gmpf_set_q(mpf_ptr a0,mpq_srcptr a1); void __wrap___gmpf_set_q(mpf_ptr a0,mpq_srcptr a1) { rmpq(a1); __real___gmpf_set_q(a0,a1); wmpf(a0); }
void __real___gmpf_set_si(mpf_ptr a0,signed long int a1); void __wrap___gmpf_set_si(mpf_ptr a0,signed long int a1) {  __real___gmpf_set_si(a0,a1); wmpf(a0); }
int __real___gmpf_set_str(mpf_ptr a0,const char * a1,int a2); int __wrap___gmpf_set_str(mpf_ptr a0,const char * a1,int a2) {  int r=__real___gmpf_set_str(a0,a1,a2); wmpf(a0); return r; }
void __real___gmpf_set_ui(mpf_ptr a0,unsigned long int a1); void __wrap___gmpf_set_ui(mpf_ptr a0,unsigned long int a1) {  __real___gmpf_set_ui(a0,a1); wmpf(a0); }
void __real___gmpf_set_z(mpf_ptr a0,mpz_srcptr a1); void __wrap___gmpf_set_z(mpf_ptr a0,mpz_srcptr a1) { rmpz(a1); __real___gmpf_set_z(a0,a1); wmpf(a0); }
size_t __real___gmpf_size(mpf_srcptr a0); size_t __wrap___gmpf_size(mpf_srcptr a0) { rmpf(a0); size_t r=__real___gmpf_size(a0);  return r; }
void __real___gmpf_sqrt(mpf_ptr a0,mpf_srcptr a1); void __wrap___gmpf_sqrt(mpf_ptr a0,mpf_srcptr a1) { rmpf(a1); __real___gmpf_sqrt(a0,a1); wmpf(a0); }
void __real___gmpf_sqrt_ui(mpf_ptr a0,unsigned long int a1); void __wrap___gmpf_sqrt_ui(mpf_ptr a0,unsigned long int a1) {  __real___gmpf_sqrt_ui(a0,a1); wmpf(a0); }
void __real___gmpf_sub(mpf_ptr a0,mpf_srcptr a1,mpf_srcptr a2); void __wrap___gmpf_sub(mpf_ptr a0,mpf_srcptr a1,mpf_srcptr a2) { rmpf(a1);rmpf(a2); __real___gmpf_sub(a0,a1,a2); wmpf(a0); }
void __real___gmpf_sub_ui(mpf_ptr a0,mpf_srcptr a1,unsigned long int a2); void __wrap___gmpf_sub_ui(mpf_ptr a0,mpf_srcptr a1,unsigned long int a2) { rmpf(a1); __real___gmpf_sub_ui(a0,a1,a2); wmpf(a0); }
void __real___gmpf_swap(mpf_ptr a0,mpf_ptr a1); void __wrap___gmpf_swap(mpf_ptr a0,mpf_ptr a1) {  __real___gmpf_swap(a0,a1); wmpf(a0);wmpf(a1); }
void __real___gmpf_trunc(mpf_ptr a0,mpf_srcptr a1); void __wrap___gmpf_trunc(mpf_ptr a0,mpf_srcptr a1) { rmpf(a1); __real___gmpf_trunc(a0,a1); wmpf(a0); }
void __real___gmpf_ui_div(mpf_ptr a0,unsigned long int a1,mpf_srcptr a2); void __wrap___gmpf_ui_div(mpf_ptr a0,unsigned long int a1,mpf_srcptr a2) { rmpf(a2); __real___gmpf_ui_div(a0,a1,a2); wmpf(a0); }
void __real___gmpf_ui_sub(mpf_ptr a0,unsigned long int a1,mpf_srcptr a2); void __wrap___gmpf_ui_sub(mpf_ptr a0,unsigned long int a1,mpf_srcptr a2) { rmpf(a2); __real___gmpf_ui_sub(a0,a1,a2); wmpf(a0); }
void __real___gmpq_abs(mpq_ptr a0,mpq_srcptr a1); void __wrap___gmpq_abs(mpq_ptr a0,mpq_srcptr a1) { rmpq(a1); __real___gmpq_abs(a0,a1); wmpq(a0); }
void __real___gmpq_add(mpq_ptr a0,mpq_srcptr a1,mpq_srcptr a2); void __wrap___gmpq_add(mpq_ptr a0,mpq_srcptr a1,mpq_srcptr a2) { rmpq(a1);rmpq(a2); __real___gmpq_add(a0,a1,a2); wmpq(a0); }
void __real___gmpq_canonicalize(mpq_ptr a0); void __wrap___gmpq_canonicalize(mpq_ptr a0) {  __real___gmpq_canonicalize(a0); wmpq(a0); }
int __real___gmpq_cmp(mpq_srcptr a0,mpq_srcptr a1); int __wrap___gmpq_cmp(mpq_srcptr a0,mpq_srcptr a1) { rmpq(a0);rmpq(a1); int r=__real___gmpq_cmp(a0,a1);  return r; }
int __real___gmpq_cmp_si(mpq_srcptr a0,long a1,unsigned long a2); int __wrap___gmpq_cmp_si(mpq_srcptr a0,long a1,unsigned long a2) { rmpq(a0); int r=__real___gmpq_cmp_si(a0,a1,a2);  return r; }
int __real___gmpq_cmp_ui(mpq_srcptr a0,unsigned long int a1,unsigned long int a2); int __wrap___gmpq_cmp_ui(mpq_srcptr a0,unsigned long int a1,unsigned long int a2) { rmpq(a0); int r=__real___gmpq_cmp_ui(a0,a1,a2);  return r; }
int __real___gmpq_cmp_z(mpq_srcptr a0,mpz_srcptr a1); int __wrap___gmpq_cmp_z(mpq_srcptr a0,mpz_srcptr a1) { rmpq(a0);rmpz(a1); int r=__real___gmpq_cmp_z(a0,a1);  return r; }
void __real___gmpq_div(mpq_ptr a0,mpq_srcptr a1,mpq_srcptr a2); void __wrap___gmpq_div(mpq_ptr a0,mpq_srcptr a1,mpq_srcptr a2) { rmpq(a1);rmpq(a2); __real___gmpq_div(a0,a1,a2); wmpq(a0); }
void __real___gmpq_div_2exp(mpq_ptr a0,mpq_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpq_div_2exp(mpq_ptr a0,mpq_srcptr a1,mp_bitcnt_t a2) { rmpq(a1); __real___gmpq_div_2exp(a0,a1,a2); wmpq(a0); }
int __real___gmpq_equal(mpq_srcptr a0,mpq_srcptr a1); int __wrap___gmpq_equal(mpq_srcptr a0,mpq_srcptr a1) { rmpq(a0);rmpq(a1); int r=__real___gmpq_equal(a0,a1);  return r; }
double __real___gmpq_get_d(mpq_srcptr a0); double __wrap___gmpq_get_d(mpq_srcptr a0) { rmpq(a0); double r=__real___gmpq_get_d(a0);  return r; }
void __real___gmpq_get_den(mpz_ptr a0,mpq_srcptr a1); void __wrap___gmpq_get_den(mpz_ptr a0,mpq_srcptr a1) { rmpq(a1); __real___gmpq_get_den(a0,a1); wmpz(a0); }
void __real___gmpq_get_num(mpz_ptr a0,mpq_srcptr a1); void __wrap___gmpq_get_num(mpz_ptr a0,mpq_srcptr a1) { rmpq(a1); __real___gmpq_get_num(a0,a1); wmpz(a0); }
char * __real___gmpq_get_str(char * a0,int a1,mpq_srcptr a2); char * __wrap___gmpq_get_str(char * a0,int a1,mpq_srcptr a2) { rmpq(a2); char * r=__real___gmpq_get_str(a0,a1,a2);  return r; }
void __real___gmpq_inv(mpq_ptr a0,mpq_srcptr a1); void __wrap___gmpq_inv(mpq_ptr a0,mpq_srcptr a1) { rmpq(a1); __real___gmpq_inv(a0,a1); wmpq(a0); }
void __real___gmpq_mul(mpq_ptr a0,mpq_srcptr a1,mpq_srcptr a2); void __wrap___gmpq_mul(mpq_ptr a0,mpq_srcptr a1,mpq_srcptr a2) { rmpq(a1);rmpq(a2); __real___gmpq_mul(a0,a1,a2); wmpq(a0); }
void __real___gmpq_mul_2exp(mpq_ptr a0,mpq_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpq_mul_2exp(mpq_ptr a0,mpq_srcptr a1,mp_bitcnt_t a2) { rmpq(a1); __real___gmpq_mul_2exp(a0,a1,a2); wmpq(a0); }
void __real___gmpq_neg(mpq_ptr a0,mpq_srcptr a1); void __wrap___gmpq_neg(mpq_ptr a0,mpq_srcptr a1) { rmpq(a1); __real___gmpq_neg(a0,a1); wmpq(a0); }
void __real___gmpq_set(mpq_ptr a0,mpq_srcptr a1); void __wrap___gmpq_set(mpq_ptr a0,mpq_srcptr a1) { rmpq(a1); __real___gmpq_set(a0,a1); wmpq(a0); }
void __real___gmpq_set_d(mpq_ptr a0,double a1); void __wrap___gmpq_set_d(mpq_ptr a0,double a1) {  __real___gmpq_set_d(a0,a1); wmpq(a0); }
void __real___gmpq_set_den(mpq_ptr a0,mpz_srcptr a1); void __wrap___gmpq_set_den(mpq_ptr a0,mpz_srcptr a1) { rmpz(a1); __real___gmpq_set_den(a0,a1); wmpq(a0); }
void __real___gmpq_set_f(mpq_ptr a0,mpf_srcptr a1); void __wrap___gmpq_set_f(mpq_ptr a0,mpf_srcptr a1) { rmpf(a1); __real___gmpq_set_f(a0,a1); wmpq(a0); }
void __real___gmpq_set_num(mpq_ptr a0,mpz_srcptr a1); void __wrap___gmpq_set_num(mpq_ptr a0,mpz_srcptr a1) { rmpz(a1); __real___gmpq_set_num(a0,a1); wmpq(a0); }
void __real___gmpq_set_si(mpq_ptr a0,signed long int a1,unsigned long int a2); void __wrap___gmpq_set_si(mpq_ptr a0,signed long int a1,unsigned long int a2) {  __real___gmpq_set_si(a0,a1,a2); wmpq(a0); }
int __real___gmpq_set_str(mpq_ptr a0,const char * a1,int a2); int __wrap___gmpq_set_str(mpq_ptr a0,const char * a1,int a2) {  int r=__real___gmpq_set_str(a0,a1,a2); wmpq(a0); return r; }
void __real___gmpq_set_ui(mpq_ptr a0,unsigned long int a1,unsigned long int a2); void __wrap___gmpq_set_ui(mpq_ptr a0,unsigned long int a1,unsigned long int a2) {  __real___gmpq_set_ui(a0,a1,a2); wmpq(a0); }
void __real___gmpq_set_z(mpq_ptr a0,mpz_srcptr a1); void __wrap___gmpq_set_z(mpq_ptr a0,mpz_srcptr a1) { rmpz(a1); __real___gmpq_set_z(a0,a1); wmpq(a0); }
void __real___gmpq_sub(mpq_ptr a0,mpq_srcptr a1,mpq_srcptr a2); void __wrap___gmpq_sub(mpq_ptr a0,mpq_srcptr a1,mpq_srcptr a2) { rmpq(a1);rmpq(a2); __real___gmpq_sub(a0,a1,a2); wmpq(a0); }
void __real___gmpq_swap(mpq_ptr a0,mpq_ptr a1); void __wrap___gmpq_swap(mpq_ptr a0,mpq_ptr a1) {  __real___gmpq_swap(a0,a1); wmpq(a0);wmpq(a1); }
void __real___gmpz_2fac_ui(mpz_ptr a0,unsigned long int a1); void __wrap___gmpz_2fac_ui(mpz_ptr a0,unsigned long int a1) {  __real___gmpz_2fac_ui(a0,a1); wmpz(a0); }
void __real___gmpz_abs(mpz_ptr a0,mpz_srcptr a1); void __wrap___gmpz_abs(mpz_ptr a0,mpz_srcptr a1) { rmpz(a1); __real___gmpz_abs(a0,a1); wmpz(a0); }
void __real___gmpz_add(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_add(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_add(a0,a1,a2); wmpz(a0); }
void __real___gmpz_add_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); void __wrap___gmpz_add_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); __real___gmpz_add_ui(a0,a1,a2); wmpz(a0); }
void __real___gmpz_addmul(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_addmul(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_addmul(a0,a1,a2); wmpz(a0); }
void __real___gmpz_addmul_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); void __wrap___gmpz_addmul_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); __real___gmpz_addmul_ui(a0,a1,a2); wmpz(a0); }
void __real___gmpz_and(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_and(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_and(a0,a1,a2); wmpz(a0); }
void __real___gmpz_bin_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); void __wrap___gmpz_bin_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); __real___gmpz_bin_ui(a0,a1,a2); wmpz(a0); }
void __real___gmpz_bin_uiui(mpz_ptr a0,unsigned long int a1,unsigned long int a2); void __wrap___gmpz_bin_uiui(mpz_ptr a0,unsigned long int a1,unsigned long int a2) {  __real___gmpz_bin_uiui(a0,a1,a2); wmpz(a0); }
void __real___gmpz_cdiv_q(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_cdiv_q(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_cdiv_q(a0,a1,a2); wmpz(a0); }
void __real___gmpz_cdiv_q_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpz_cdiv_q_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2) { rmpz(a1); __real___gmpz_cdiv_q_2exp(a0,a1,a2); wmpz(a0); }
unsigned long int __real___gmpz_cdiv_q_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); unsigned long int __wrap___gmpz_cdiv_q_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); unsigned long int r=__real___gmpz_cdiv_q_ui(a0,a1,a2); wmpz(a0); return r; }
void __real___gmpz_cdiv_qr(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,mpz_srcptr a3); void __wrap___gmpz_cdiv_qr(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,mpz_srcptr a3) { rmpz(a2);rmpz(a3); __real___gmpz_cdiv_qr(a0,a1,a2,a3); wmpz(a0);wmpz(a1); }
unsigned long int __real___gmpz_cdiv_qr_ui(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,unsigned long int a3); unsigned long int __wrap___gmpz_cdiv_qr_ui(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,unsigned long int a3) { rmpz(a2); unsigned long int r=__real___gmpz_cdiv_qr_ui(a0,a1,a2,a3); wmpz(a0);wmpz(a1); return r; }
void __real___gmpz_cdiv_r(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_cdiv_r(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_cdiv_r(a0,a1,a2); wmpz(a0); }
void __real___gmpz_cdiv_r_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpz_cdiv_r_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2) { rmpz(a1); __real___gmpz_cdiv_r_2exp(a0,a1,a2); wmpz(a0); }
unsigned long int __real___gmpz_cdiv_r_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); unsigned long int __wrap___gmpz_cdiv_r_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); unsigned long int r=__real___gmpz_cdiv_r_ui(a0,a1,a2); wmpz(a0); return r; }
unsigned long int __real___gmpz_cdiv_ui(mpz_srcptr a0,unsigned long int a1); unsigned long int __wrap___gmpz_cdiv_ui(mpz_srcptr a0,unsigned long int a1) { rmpz(a0); unsigned long int r=__real___gmpz_cdiv_ui(a0,a1);  return r; }
void __real___gmpz_clrbit(mpz_ptr a0,mp_bitcnt_t a1); void __wrap___gmpz_clrbit(mpz_ptr a0,mp_bitcnt_t a1) {  __real___gmpz_clrbit(a0,a1); wmpz(a0); }
int __real___gmpz_cmp(mpz_srcptr a0,mpz_srcptr a1); int __wrap___gmpz_cmp(mpz_srcptr a0,mpz_srcptr a1) { rmpz(a0);rmpz(a1); int r=__real___gmpz_cmp(a0,a1);  return r; }
int __real___gmpz_cmp_d(mpz_srcptr a0,double a1); int __wrap___gmpz_cmp_d(mpz_srcptr a0,double a1) { rmpz(a0); int r=__real___gmpz_cmp_d(a0,a1);  return r; }
int __real___gmpz_cmp_si(mpz_srcptr a0,signed long int a1); int __wrap___gmpz_cmp_si(mpz_srcptr a0,signed long int a1) { rmpz(a0); int r=__real___gmpz_cmp_si(a0,a1);  return r; }
int __real___gmpz_cmp_ui(mpz_srcptr a0,unsigned long int a1); int __wrap___gmpz_cmp_ui(mpz_srcptr a0,unsigned long int a1) { rmpz(a0); int r=__real___gmpz_cmp_ui(a0,a1);  return r; }
int __real___gmpz_cmpabs(mpz_srcptr a0,mpz_srcptr a1); int __wrap___gmpz_cmpabs(mpz_srcptr a0,mpz_srcptr a1) { rmpz(a0);rmpz(a1); int r=__real___gmpz_cmpabs(a0,a1);  return r; }
int __real___gmpz_cmpabs_d(mpz_srcptr a0,double a1); int __wrap___gmpz_cmpabs_d(mpz_srcptr a0,double a1) { rmpz(a0); int r=__real___gmpz_cmpabs_d(a0,a1);  return r; }
int __real___gmpz_cmpabs_ui(mpz_srcptr a0,unsigned long int a1); int __wrap___gmpz_cmpabs_ui(mpz_srcptr a0,unsigned long int a1) { rmpz(a0); int r=__real___gmpz_cmpabs_ui(a0,a1);  return r; }
void __real___gmpz_com(mpz_ptr a0,mpz_srcptr a1); void __wrap___gmpz_com(mpz_ptr a0,mpz_srcptr a1) { rmpz(a1); __real___gmpz_com(a0,a1); wmpz(a0); }
void __real___gmpz_combit(mpz_ptr a0,mp_bitcnt_t a1); void __wrap___gmpz_combit(mpz_ptr a0,mp_bitcnt_t a1) {  __real___gmpz_combit(a0,a1); wmpz(a0); }
int __real___gmpz_congruent_2exp_p(mpz_srcptr a0,mpz_srcptr a1,mp_bitcnt_t a2); int __wrap___gmpz_congruent_2exp_p(mpz_srcptr a0,mpz_srcptr a1,mp_bitcnt_t a2) { rmpz(a0);rmpz(a1); int r=__real___gmpz_congruent_2exp_p(a0,a1,a2);  return r; }
int __real___gmpz_congruent_p(mpz_srcptr a0,mpz_srcptr a1,mpz_srcptr a2); int __wrap___gmpz_congruent_p(mpz_srcptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a0);rmpz(a1);rmpz(a2); int r=__real___gmpz_congruent_p(a0,a1,a2);  return r; }
int __real___gmpz_congruent_ui_p(mpz_srcptr a0,unsigned long a1,unsigned long a2); int __wrap___gmpz_congruent_ui_p(mpz_srcptr a0,unsigned long a1,unsigned long a2) { rmpz(a0); int r=__real___gmpz_congruent_ui_p(a0,a1,a2);  return r; }
void __real___gmpz_divexact(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_divexact(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_divexact(a0,a1,a2); wmpz(a0); }
void __real___gmpz_divexact_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long a2); void __wrap___gmpz_divexact_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long a2) { rmpz(a1); __real___gmpz_divexact_ui(a0,a1,a2); wmpz(a0); }
int __real___gmpz_divisible_2exp_p(mpz_srcptr a0,mp_bitcnt_t a1); int __wrap___gmpz_divisible_2exp_p(mpz_srcptr a0,mp_bitcnt_t a1) { rmpz(a0); int r=__real___gmpz_divisible_2exp_p(a0,a1);  return r; }
int __real___gmpz_divisible_p(mpz_srcptr a0,mpz_srcptr a1); int __wrap___gmpz_divisible_p(mpz_srcptr a0,mpz_srcptr a1) { rmpz(a0);rmpz(a1); int r=__real___gmpz_divisible_p(a0,a1);  return r; }
int __real___gmpz_divisible_ui_p(mpz_srcptr a0,unsigned long a1); int __wrap___gmpz_divisible_ui_p(mpz_srcptr a0,unsigned long a1) { rmpz(a0); int r=__real___gmpz_divisible_ui_p(a0,a1);  return r; }
void __real___gmpz_dump(mpz_srcptr a0); void __wrap___gmpz_dump(mpz_srcptr a0) { rmpz(a0); __real___gmpz_dump(a0);  }
void __real___gmpz_fac_ui(mpz_ptr a0,unsigned long int a1); void __wrap___gmpz_fac_ui(mpz_ptr a0,unsigned long int a1) {  __real___gmpz_fac_ui(a0,a1); wmpz(a0); }
void __real___gmpz_fdiv_q(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_fdiv_q(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_fdiv_q(a0,a1,a2); wmpz(a0); }
void __real___gmpz_fdiv_q_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpz_fdiv_q_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2) { rmpz(a1); __real___gmpz_fdiv_q_2exp(a0,a1,a2); wmpz(a0); }
unsigned long int __real___gmpz_fdiv_q_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); unsigned long int __wrap___gmpz_fdiv_q_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); unsigned long int r=__real___gmpz_fdiv_q_ui(a0,a1,a2); wmpz(a0); return r; }
void __real___gmpz_fdiv_qr(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,mpz_srcptr a3); void __wrap___gmpz_fdiv_qr(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,mpz_srcptr a3) { rmpz(a2);rmpz(a3); __real___gmpz_fdiv_qr(a0,a1,a2,a3); wmpz(a0);wmpz(a1); }
unsigned long int __real___gmpz_fdiv_qr_ui(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,unsigned long int a3); unsigned long int __wrap___gmpz_fdiv_qr_ui(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,unsigned long int a3) { rmpz(a2); unsigned long int r=__real___gmpz_fdiv_qr_ui(a0,a1,a2,a3); wmpz(a0);wmpz(a1); return r; }
void __real___gmpz_fdiv_r(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_fdiv_r(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_fdiv_r(a0,a1,a2); wmpz(a0); }
void __real___gmpz_fdiv_r_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpz_fdiv_r_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2) { rmpz(a1); __real___gmpz_fdiv_r_2exp(a0,a1,a2); wmpz(a0); }
unsigned long int __real___gmpz_fdiv_r_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); unsigned long int __wrap___gmpz_fdiv_r_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); unsigned long int r=__real___gmpz_fdiv_r_ui(a0,a1,a2); wmpz(a0); return r; }
unsigned long int __real___gmpz_fdiv_ui(mpz_srcptr a0,unsigned long int a1); unsigned long int __wrap___gmpz_fdiv_ui(mpz_srcptr a0,unsigned long int a1) { rmpz(a0); unsigned long int r=__real___gmpz_fdiv_ui(a0,a1);  return r; }
void __real___gmpz_fib2_ui(mpz_ptr a0,mpz_ptr a1,unsigned long int a2); void __wrap___gmpz_fib2_ui(mpz_ptr a0,mpz_ptr a1,unsigned long int a2) {  __real___gmpz_fib2_ui(a0,a1,a2); wmpz(a0);wmpz(a1); }
void __real___gmpz_fib_ui(mpz_ptr a0,unsigned long int a1); void __wrap___gmpz_fib_ui(mpz_ptr a0,unsigned long int a1) {  __real___gmpz_fib_ui(a0,a1); wmpz(a0); }
int __real___gmpz_fits_sint_p(mpz_srcptr a0); int __wrap___gmpz_fits_sint_p(mpz_srcptr a0) { rmpz(a0); int r=__real___gmpz_fits_sint_p(a0);  return r; }
int __real___gmpz_fits_slong_p(mpz_srcptr a0); int __wrap___gmpz_fits_slong_p(mpz_srcptr a0) { rmpz(a0); int r=__real___gmpz_fits_slong_p(a0);  return r; }
int __real___gmpz_fits_sshort_p(mpz_srcptr a0); int __wrap___gmpz_fits_sshort_p(mpz_srcptr a0) { rmpz(a0); int r=__real___gmpz_fits_sshort_p(a0);  return r; }
int __real___gmpz_fits_uint_p(mpz_srcptr a0); int __wrap___gmpz_fits_uint_p(mpz_srcptr a0) { rmpz(a0); int r=__real___gmpz_fits_uint_p(a0);  return r; }
int __real___gmpz_fits_ulong_p(mpz_srcptr a0); int __wrap___gmpz_fits_ulong_p(mpz_srcptr a0) { rmpz(a0); int r=__real___gmpz_fits_ulong_p(a0);  return r; }
int __real___gmpz_fits_ushort_p(mpz_srcptr a0); int __wrap___gmpz_fits_ushort_p(mpz_srcptr a0) { rmpz(a0); int r=__real___gmpz_fits_ushort_p(a0);  return r; }
void __real___gmpz_gcd(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_gcd(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_gcd(a0,a1,a2); wmpz(a0); }
unsigned long int __real___gmpz_gcd_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); unsigned long int __wrap___gmpz_gcd_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); unsigned long int r=__real___gmpz_gcd_ui(a0,a1,a2); wmpz(a0); return r; }
void __real___gmpz_gcdext(mpz_ptr a0,mpz_ptr a1,mpz_ptr a2,mpz_srcptr a3,mpz_srcptr a4); void __wrap___gmpz_gcdext(mpz_ptr a0,mpz_ptr a1,mpz_ptr a2,mpz_srcptr a3,mpz_srcptr a4) { rmpz(a3);rmpz(a4); __real___gmpz_gcdext(a0,a1,a2,a3,a4); wmpz(a0);wmpz(a1);wmpz(a2); }
double __real___gmpz_get_d(mpz_srcptr a0); double __wrap___gmpz_get_d(mpz_srcptr a0) { rmpz(a0); double r=__real___gmpz_get_d(a0);  return r; }
long int __real___gmpz_get_si(mpz_srcptr a0); long int __wrap___gmpz_get_si(mpz_srcptr a0) { rmpz(a0); long int r=__real___gmpz_get_si(a0);  return r; }
char * __real___gmpz_get_str(char * a0,int a1,mpz_srcptr a2); char * __wrap___gmpz_get_str(char * a0,int a1,mpz_srcptr a2) { rmpz(a2); char * r=__real___gmpz_get_str(a0,a1,a2);  return r; }
unsigned long int __real___gmpz_get_ui(mpz_srcptr a0); unsigned long int __wrap___gmpz_get_ui(mpz_srcptr a0) { rmpz(a0); unsigned long int r=__real___gmpz_get_ui(a0);  return r; }
mp_bitcnt_t __real___gmpz_hamdist(mpz_srcptr a0,mpz_srcptr a1); mp_bitcnt_t __wrap___gmpz_hamdist(mpz_srcptr a0,mpz_srcptr a1) { rmpz(a0);rmpz(a1); mp_bitcnt_t r=__real___gmpz_hamdist(a0,a1);  return r; }
int __real___gmpz_invert(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); int __wrap___gmpz_invert(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); int r=__real___gmpz_invert(a0,a1,a2); wmpz(a0); return r; }
void __real___gmpz_ior(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_ior(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_ior(a0,a1,a2); wmpz(a0); }
int __real___gmpz_jacobi(mpz_srcptr a0,mpz_srcptr a1); int __wrap___gmpz_jacobi(mpz_srcptr a0,mpz_srcptr a1) { rmpz(a0);rmpz(a1); int r=__real___gmpz_jacobi(a0,a1);  return r; }
int __real___gmpz_kronecker_si(mpz_srcptr a0,long a1); int __wrap___gmpz_kronecker_si(mpz_srcptr a0,long a1) { rmpz(a0); int r=__real___gmpz_kronecker_si(a0,a1);  return r; }
int __real___gmpz_kronecker_ui(mpz_srcptr a0,unsigned long a1); int __wrap___gmpz_kronecker_ui(mpz_srcptr a0,unsigned long a1) { rmpz(a0); int r=__real___gmpz_kronecker_ui(a0,a1);  return r; }
void __real___gmpz_lcm(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_lcm(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_lcm(a0,a1,a2); wmpz(a0); }
void __real___gmpz_lcm_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long a2); void __wrap___gmpz_lcm_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long a2) { rmpz(a1); __real___gmpz_lcm_ui(a0,a1,a2); wmpz(a0); }
void __real___gmpz_lucnum2_ui(mpz_ptr a0,mpz_ptr a1,unsigned long int a2); void __wrap___gmpz_lucnum2_ui(mpz_ptr a0,mpz_ptr a1,unsigned long int a2) {  __real___gmpz_lucnum2_ui(a0,a1,a2); wmpz(a0);wmpz(a1); }
void __real___gmpz_lucnum_ui(mpz_ptr a0,unsigned long int a1); void __wrap___gmpz_lucnum_ui(mpz_ptr a0,unsigned long int a1) {  __real___gmpz_lucnum_ui(a0,a1); wmpz(a0); }
void __real___gmpz_mfac_uiui(mpz_ptr a0,unsigned long int a1,unsigned long int a2); void __wrap___gmpz_mfac_uiui(mpz_ptr a0,unsigned long int a1,unsigned long int a2) {  __real___gmpz_mfac_uiui(a0,a1,a2); wmpz(a0); }
int __real___gmpz_millerrabin(mpz_srcptr a0,int a1); int __wrap___gmpz_millerrabin(mpz_srcptr a0,int a1) { rmpz(a0); int r=__real___gmpz_millerrabin(a0,a1);  return r; }
void __real___gmpz_mod(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_mod(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_mod(a0,a1,a2); wmpz(a0); }
void __real___gmpz_mul(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_mul(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_mul(a0,a1,a2); wmpz(a0); }
void __real___gmpz_mul_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpz_mul_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2) { rmpz(a1); __real___gmpz_mul_2exp(a0,a1,a2); wmpz(a0); }
void __real___gmpz_mul_si(mpz_ptr a0,mpz_srcptr a1,long int a2); void __wrap___gmpz_mul_si(mpz_ptr a0,mpz_srcptr a1,long int a2) { rmpz(a1); __real___gmpz_mul_si(a0,a1,a2); wmpz(a0); }
void __real___gmpz_mul_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); void __wrap___gmpz_mul_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); __real___gmpz_mul_ui(a0,a1,a2); wmpz(a0); }
void __real___gmpz_neg(mpz_ptr a0,mpz_srcptr a1); void __wrap___gmpz_neg(mpz_ptr a0,mpz_srcptr a1) { rmpz(a1); __real___gmpz_neg(a0,a1); wmpz(a0); }
void __real___gmpz_nextprime(mpz_ptr a0,mpz_srcptr a1); void __wrap___gmpz_nextprime(mpz_ptr a0,mpz_srcptr a1) { rmpz(a1); __real___gmpz_nextprime(a0,a1); wmpz(a0); }
int __real___gmpz_perfect_power_p(mpz_srcptr a0); int __wrap___gmpz_perfect_power_p(mpz_srcptr a0) { rmpz(a0); int r=__real___gmpz_perfect_power_p(a0);  return r; }
int __real___gmpz_perfect_square_p(mpz_srcptr a0); int __wrap___gmpz_perfect_square_p(mpz_srcptr a0) { rmpz(a0); int r=__real___gmpz_perfect_square_p(a0);  return r; }
mp_bitcnt_t __real___gmpz_popcount(mpz_srcptr a0); mp_bitcnt_t __wrap___gmpz_popcount(mpz_srcptr a0) { rmpz(a0); mp_bitcnt_t r=__real___gmpz_popcount(a0);  return r; }
void __real___gmpz_pow_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); void __wrap___gmpz_pow_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); __real___gmpz_pow_ui(a0,a1,a2); wmpz(a0); }
void __real___gmpz_powm(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2,mpz_srcptr a3); void __wrap___gmpz_powm(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2,mpz_srcptr a3) { rmpz(a1);rmpz(a2);rmpz(a3); __real___gmpz_powm(a0,a1,a2,a3); wmpz(a0); }
void __real___gmpz_powm_sec(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2,mpz_srcptr a3); void __wrap___gmpz_powm_sec(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2,mpz_srcptr a3) { rmpz(a1);rmpz(a2);rmpz(a3); __real___gmpz_powm_sec(a0,a1,a2,a3); wmpz(a0); }
void __real___gmpz_powm_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2,mpz_srcptr a3); void __wrap___gmpz_powm_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2,mpz_srcptr a3) { rmpz(a1);rmpz(a3); __real___gmpz_powm_ui(a0,a1,a2,a3); wmpz(a0); }
int __real___gmpz_prevprime(mpz_ptr a0,mpz_srcptr a1); int __wrap___gmpz_prevprime(mpz_ptr a0,mpz_srcptr a1) { rmpz(a1); int r=__real___gmpz_prevprime(a0,a1); wmpz(a0); return r; }
void __real___gmpz_primorial_ui(mpz_ptr a0,unsigned long int a1); void __wrap___gmpz_primorial_ui(mpz_ptr a0,unsigned long int a1) {  __real___gmpz_primorial_ui(a0,a1); wmpz(a0); }
int __real___gmpz_probab_prime_p(mpz_srcptr a0,int a1); int __wrap___gmpz_probab_prime_p(mpz_srcptr a0,int a1) { rmpz(a0); int r=__real___gmpz_probab_prime_p(a0,a1);  return r; }
mp_bitcnt_t __real___gmpz_remove(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); mp_bitcnt_t __wrap___gmpz_remove(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); mp_bitcnt_t r=__real___gmpz_remove(a0,a1,a2); wmpz(a0); return r; }
int __real___gmpz_root(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); int __wrap___gmpz_root(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); int r=__real___gmpz_root(a0,a1,a2); wmpz(a0); return r; }
void __real___gmpz_rootrem(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,unsigned long int a3); void __wrap___gmpz_rootrem(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,unsigned long int a3) { rmpz(a2); __real___gmpz_rootrem(a0,a1,a2,a3); wmpz(a0);wmpz(a1); }
mp_bitcnt_t __real___gmpz_scan0(mpz_srcptr a0,mp_bitcnt_t a1); mp_bitcnt_t __wrap___gmpz_scan0(mpz_srcptr a0,mp_bitcnt_t a1) { rmpz(a0); mp_bitcnt_t r=__real___gmpz_scan0(a0,a1);  return r; }
mp_bitcnt_t __real___gmpz_scan1(mpz_srcptr a0,mp_bitcnt_t a1); mp_bitcnt_t __wrap___gmpz_scan1(mpz_srcptr a0,mp_bitcnt_t a1) { rmpz(a0); mp_bitcnt_t r=__real___gmpz_scan1(a0,a1);  return r; }
void __real___gmpz_set(mpz_ptr a0,mpz_srcptr a1); void __wrap___gmpz_set(mpz_ptr a0,mpz_srcptr a1) { rmpz(a1); __real___gmpz_set(a0,a1); wmpz(a0); }
void __real___gmpz_set_d(mpz_ptr a0,double a1); void __wrap___gmpz_set_d(mpz_ptr a0,double a1) {  __real___gmpz_set_d(a0,a1); wmpz(a0); }
void __real___gmpz_set_f(mpz_ptr a0,mpf_srcptr a1); void __wrap___gmpz_set_f(mpz_ptr a0,mpf_srcptr a1) { rmpf(a1); __real___gmpz_set_f(a0,a1); wmpz(a0); }
void __real___gmpz_set_q(mpz_ptr a0,mpq_srcptr a1); void __wrap___gmpz_set_q(mpz_ptr a0,mpq_srcptr a1) { rmpq(a1); __real___gmpz_set_q(a0,a1); wmpz(a0); }
void __real___gmpz_set_si(mpz_ptr a0,signed long int a1); void __wrap___gmpz_set_si(mpz_ptr a0,signed long int a1) {  __real___gmpz_set_si(a0,a1); wmpz(a0); }
int __real___gmpz_set_str(mpz_ptr a0,const char * a1,int a2); int __wrap___gmpz_set_str(mpz_ptr a0,const char * a1,int a2) {  int r=__real___gmpz_set_str(a0,a1,a2); wmpz(a0); return r; }
void __real___gmpz_set_ui(mpz_ptr a0,unsigned long int a1); void __wrap___gmpz_set_ui(mpz_ptr a0,unsigned long int a1) {  __real___gmpz_set_ui(a0,a1); wmpz(a0); }
void __real___gmpz_setbit(mpz_ptr a0,mp_bitcnt_t a1); void __wrap___gmpz_setbit(mpz_ptr a0,mp_bitcnt_t a1) {  __real___gmpz_setbit(a0,a1); wmpz(a0); }
int __real___gmpz_si_kronecker(long a0,mpz_srcptr a1); int __wrap___gmpz_si_kronecker(long a0,mpz_srcptr a1) { rmpz(a1); int r=__real___gmpz_si_kronecker(a0,a1);  return r; }
size_t __real___gmpz_size(mpz_srcptr a0); size_t __wrap___gmpz_size(mpz_srcptr a0) { rmpz(a0); size_t r=__real___gmpz_size(a0);  return r; }
size_t __real___gmpz_sizeinbase(mpz_srcptr a0,int a1); size_t __wrap___gmpz_sizeinbase(mpz_srcptr a0,int a1) { rmpz(a0); size_t r=__real___gmpz_sizeinbase(a0,a1);  return r; }
void __real___gmpz_sqrt(mpz_ptr a0,mpz_srcptr a1); void __wrap___gmpz_sqrt(mpz_ptr a0,mpz_srcptr a1) { rmpz(a1); __real___gmpz_sqrt(a0,a1); wmpz(a0); }
void __real___gmpz_sqrtrem(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2); void __wrap___gmpz_sqrtrem(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2) { rmpz(a2); __real___gmpz_sqrtrem(a0,a1,a2); wmpz(a0);wmpz(a1); }
void __real___gmpz_sub(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_sub(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_sub(a0,a1,a2); wmpz(a0); }
void __real___gmpz_sub_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); void __wrap___gmpz_sub_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); __real___gmpz_sub_ui(a0,a1,a2); wmpz(a0); }
void __real___gmpz_submul(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_submul(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_submul(a0,a1,a2); wmpz(a0); }
void __real___gmpz_submul_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); void __wrap___gmpz_submul_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); __real___gmpz_submul_ui(a0,a1,a2); wmpz(a0); }
void __real___gmpz_swap(mpz_ptr a0,mpz_ptr a1); void __wrap___gmpz_swap(mpz_ptr a0,mpz_ptr a1) {  __real___gmpz_swap(a0,a1); wmpz(a0);wmpz(a1); }
void __real___gmpz_tdiv_q(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_tdiv_q(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_tdiv_q(a0,a1,a2); wmpz(a0); }
void __real___gmpz_tdiv_q_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpz_tdiv_q_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2) { rmpz(a1); __real___gmpz_tdiv_q_2exp(a0,a1,a2); wmpz(a0); }
unsigned long int __real___gmpz_tdiv_q_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); unsigned long int __wrap___gmpz_tdiv_q_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); unsigned long int r=__real___gmpz_tdiv_q_ui(a0,a1,a2); wmpz(a0); return r; }
void __real___gmpz_tdiv_qr(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,mpz_srcptr a3); void __wrap___gmpz_tdiv_qr(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,mpz_srcptr a3) { rmpz(a2);rmpz(a3); __real___gmpz_tdiv_qr(a0,a1,a2,a3); wmpz(a0);wmpz(a1); }
unsigned long int __real___gmpz_tdiv_qr_ui(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,unsigned long int a3); unsigned long int __wrap___gmpz_tdiv_qr_ui(mpz_ptr a0,mpz_ptr a1,mpz_srcptr a2,unsigned long int a3) { rmpz(a2); unsigned long int r=__real___gmpz_tdiv_qr_ui(a0,a1,a2,a3); wmpz(a0);wmpz(a1); return r; }
void __real___gmpz_tdiv_r(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_tdiv_r(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_tdiv_r(a0,a1,a2); wmpz(a0); }
void __real___gmpz_tdiv_r_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2); void __wrap___gmpz_tdiv_r_2exp(mpz_ptr a0,mpz_srcptr a1,mp_bitcnt_t a2) { rmpz(a1); __real___gmpz_tdiv_r_2exp(a0,a1,a2); wmpz(a0); }
unsigned long int __real___gmpz_tdiv_r_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2); unsigned long int __wrap___gmpz_tdiv_r_ui(mpz_ptr a0,mpz_srcptr a1,unsigned long int a2) { rmpz(a1); unsigned long int r=__real___gmpz_tdiv_r_ui(a0,a1,a2); wmpz(a0); return r; }
unsigned long int __real___gmpz_tdiv_ui(mpz_srcptr a0,unsigned long int a1); unsigned long int __wrap___gmpz_tdiv_ui(mpz_srcptr a0,unsigned long int a1) { rmpz(a0); unsigned long int r=__real___gmpz_tdiv_ui(a0,a1);  return r; }
int __real___gmpz_tstbit(mpz_srcptr a0,mp_bitcnt_t a1); int __wrap___gmpz_tstbit(mpz_srcptr a0,mp_bitcnt_t a1) { rmpz(a0); int r=__real___gmpz_tstbit(a0,a1);  return r; }
int __real___gmpz_ui_kronecker(unsigned long a0,mpz_srcptr a1); int __wrap___gmpz_ui_kronecker(unsigned long a0,mpz_srcptr a1) { rmpz(a1); int r=__real___gmpz_ui_kronecker(a0,a1);  return r; }
void __real___gmpz_ui_pow_ui(mpz_ptr a0,unsigned long int a1,unsigned long int a2); void __wrap___gmpz_ui_pow_ui(mpz_ptr a0,unsigned long int a1,unsigned long int a2) {  __real___gmpz_ui_pow_ui(a0,a1,a2); wmpz(a0); }
void __real___gmpz_ui_sub(mpz_ptr a0,unsigned long int a1,mpz_srcptr a2); void __wrap___gmpz_ui_sub(mpz_ptr a0,unsigned long int a1,mpz_srcptr a2) { rmpz(a2); __real___gmpz_ui_sub(a0,a1,a2); wmpz(a0); }
void __real___gmpz_xor(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2); void __wrap___gmpz_xor(mpz_ptr a0,mpz_srcptr a1,mpz_srcptr a2) { rmpz(a1);rmpz(a2); __real___gmpz_xor(a0,a1,a2); wmpz(a0); }
int __real_mpfr_abs(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_abs(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_abs(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_acos(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_acos(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_acos(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_acosh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_acosh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_acosh(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_acospi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_acospi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_acospi(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_acosu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_acosu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_acosu(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_add(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_add(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_add(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_add_d(mpfr_ptr a0,mpfr_srcptr a1,double a2,mpfr_rnd_t a3); int __wrap_mpfr_add_d(mpfr_ptr a0,mpfr_srcptr a1,double a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_add_d(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_add_q(mpfr_ptr a0,mpfr_srcptr a1,mpq_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_add_q(mpfr_ptr a0,mpfr_srcptr a1,mpq_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpq(a2); int r=__real_mpfr_add_q(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_add_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3); int __wrap_mpfr_add_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_add_si(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_add_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_add_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_add_ui(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_add_z(mpfr_ptr a0,mpfr_srcptr a1,mpz_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_add_z(mpfr_ptr a0,mpfr_srcptr a1,mpz_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpz(a2); int r=__real_mpfr_add_z(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_agm(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_agm(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_agm(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_ai(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_ai(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_ai(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_asin(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_asin(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_asin(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_asinh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_asinh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_asinh(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_asinpi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_asinpi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_asinpi(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_asinu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_asinu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_asinu(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_atan(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_atan(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_atan(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_atan2(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_atan2(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_atan2(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_atan2pi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_atan2pi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_atan2pi(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_atan2u(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,unsigned long a3,mpfr_rnd_t a4); int __wrap_mpfr_atan2u(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,unsigned long a3,mpfr_rnd_t a4) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_atan2u(a0,a1,a2,a3,a4); wmpfr(a0); return r; }
int __real_mpfr_atanh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_atanh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_atanh(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_atanpi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_atanpi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_atanpi(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_atanu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_atanu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_atanu(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_beta(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_beta(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_beta(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_can_round(mpfr_srcptr a0,mpfr_exp_t a1,mpfr_rnd_t a2,mpfr_rnd_t a3,mpfr_prec_t a4); int __wrap_mpfr_can_round(mpfr_srcptr a0,mpfr_exp_t a1,mpfr_rnd_t a2,mpfr_rnd_t a3,mpfr_prec_t a4) { rmpfr(a0); int r=__real_mpfr_can_round(a0,a1,a2,a3,a4);  return r; }
int __real_mpfr_cbrt(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_cbrt(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_cbrt(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_ceil(mpfr_ptr a0,mpfr_srcptr a1); int __wrap_mpfr_ceil(mpfr_ptr a0,mpfr_srcptr a1) { rmpfr(a1); int r=__real_mpfr_ceil(a0,a1); wmpfr(a0); return r; }
int __real_mpfr_check_range(mpfr_ptr a0,int a1,mpfr_rnd_t a2); int __wrap_mpfr_check_range(mpfr_ptr a0,int a1,mpfr_rnd_t a2) {  int r=__real_mpfr_check_range(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_cmp(mpfr_srcptr a0,mpfr_srcptr a1); int __wrap_mpfr_cmp(mpfr_srcptr a0,mpfr_srcptr a1) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_cmp(a0,a1);  return r; }
int __real_mpfr_cmp3(mpfr_srcptr a0,mpfr_srcptr a1,int a2); int __wrap_mpfr_cmp3(mpfr_srcptr a0,mpfr_srcptr a1,int a2) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_cmp3(a0,a1,a2);  return r; }
int __real_mpfr_cmp_d(mpfr_srcptr a0,double a1); int __wrap_mpfr_cmp_d(mpfr_srcptr a0,double a1) { rmpfr(a0); int r=__real_mpfr_cmp_d(a0,a1);  return r; }
int __real_mpfr_cmp_f(mpfr_srcptr a0,mpf_srcptr a1); int __wrap_mpfr_cmp_f(mpfr_srcptr a0,mpf_srcptr a1) { rmpfr(a0);rmpf(a1); int r=__real_mpfr_cmp_f(a0,a1);  return r; }
int __real_mpfr_cmp_ld(mpfr_srcptr a0,long double a1); int __wrap_mpfr_cmp_ld(mpfr_srcptr a0,long double a1) { rmpfr(a0); int r=__real_mpfr_cmp_ld(a0,a1);  return r; }
int __real_mpfr_cmp_q(mpfr_srcptr a0,mpq_srcptr a1); int __wrap_mpfr_cmp_q(mpfr_srcptr a0,mpq_srcptr a1) { rmpfr(a0);rmpq(a1); int r=__real_mpfr_cmp_q(a0,a1);  return r; }
int __real_mpfr_cmp_si(mpfr_srcptr a0,long a1); int __wrap_mpfr_cmp_si(mpfr_srcptr a0,long a1) { rmpfr(a0); int r=__real_mpfr_cmp_si(a0,a1);  return r; }
int __real_mpfr_cmp_si_2exp(mpfr_srcptr a0,long a1,mpfr_exp_t a2); int __wrap_mpfr_cmp_si_2exp(mpfr_srcptr a0,long a1,mpfr_exp_t a2) { rmpfr(a0); int r=__real_mpfr_cmp_si_2exp(a0,a1,a2);  return r; }
int __real_mpfr_cmp_ui(mpfr_srcptr a0,unsigned long a1); int __wrap_mpfr_cmp_ui(mpfr_srcptr a0,unsigned long a1) { rmpfr(a0); int r=__real_mpfr_cmp_ui(a0,a1);  return r; }
int __real_mpfr_cmp_ui_2exp(mpfr_srcptr a0,unsigned long a1,mpfr_exp_t a2); int __wrap_mpfr_cmp_ui_2exp(mpfr_srcptr a0,unsigned long a1,mpfr_exp_t a2) { rmpfr(a0); int r=__real_mpfr_cmp_ui_2exp(a0,a1,a2);  return r; }
int __real_mpfr_cmp_z(mpfr_srcptr a0,mpz_srcptr a1); int __wrap_mpfr_cmp_z(mpfr_srcptr a0,mpz_srcptr a1) { rmpfr(a0);rmpz(a1); int r=__real_mpfr_cmp_z(a0,a1);  return r; }
int __real_mpfr_cmpabs(mpfr_srcptr a0,mpfr_srcptr a1); int __wrap_mpfr_cmpabs(mpfr_srcptr a0,mpfr_srcptr a1) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_cmpabs(a0,a1);  return r; }
int __real_mpfr_cmpabs_ui(mpfr_srcptr a0,unsigned long a1); int __wrap_mpfr_cmpabs_ui(mpfr_srcptr a0,unsigned long a1) { rmpfr(a0); int r=__real_mpfr_cmpabs_ui(a0,a1);  return r; }
int __real_mpfr_compound_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3); int __wrap_mpfr_compound_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_compound_si(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_const_catalan(mpfr_ptr a0,mpfr_rnd_t a1); int __wrap_mpfr_const_catalan(mpfr_ptr a0,mpfr_rnd_t a1) {  int r=__real_mpfr_const_catalan(a0,a1); wmpfr(a0); return r; }
int __real_mpfr_const_euler(mpfr_ptr a0,mpfr_rnd_t a1); int __wrap_mpfr_const_euler(mpfr_ptr a0,mpfr_rnd_t a1) {  int r=__real_mpfr_const_euler(a0,a1); wmpfr(a0); return r; }
int __real_mpfr_const_log2(mpfr_ptr a0,mpfr_rnd_t a1); int __wrap_mpfr_const_log2(mpfr_ptr a0,mpfr_rnd_t a1) {  int r=__real_mpfr_const_log2(a0,a1); wmpfr(a0); return r; }
int __real_mpfr_const_pi(mpfr_ptr a0,mpfr_rnd_t a1); int __wrap_mpfr_const_pi(mpfr_ptr a0,mpfr_rnd_t a1) {  int r=__real_mpfr_const_pi(a0,a1); wmpfr(a0); return r; }
int __real_mpfr_copysign(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_copysign(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_copysign(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_cos(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_cos(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_cos(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_cosh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_cosh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_cosh(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_cospi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_cospi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_cospi(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_cosu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_cosu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_cosu(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_cot(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_cot(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_cot(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_coth(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_coth(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_coth(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_csc(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_csc(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_csc(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_csch(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_csch(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_csch(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_d_div(mpfr_ptr a0,double a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_d_div(mpfr_ptr a0,double a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_d_div(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_d_sub(mpfr_ptr a0,double a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_d_sub(mpfr_ptr a0,double a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_d_sub(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_digamma(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_digamma(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_digamma(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_dim(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_dim(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_dim(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_div(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_div(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_div(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_div_2exp(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_div_2exp(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_div_2exp(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_div_2si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3); int __wrap_mpfr_div_2si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_div_2si(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_div_2ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_div_2ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_div_2ui(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_div_d(mpfr_ptr a0,mpfr_srcptr a1,double a2,mpfr_rnd_t a3); int __wrap_mpfr_div_d(mpfr_ptr a0,mpfr_srcptr a1,double a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_div_d(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_div_q(mpfr_ptr a0,mpfr_srcptr a1,mpq_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_div_q(mpfr_ptr a0,mpfr_srcptr a1,mpq_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpq(a2); int r=__real_mpfr_div_q(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_div_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3); int __wrap_mpfr_div_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_div_si(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_div_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_div_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_div_ui(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_div_z(mpfr_ptr a0,mpfr_srcptr a1,mpz_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_div_z(mpfr_ptr a0,mpfr_srcptr a1,mpz_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpz(a2); int r=__real_mpfr_div_z(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_eint(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_eint(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_eint(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_eq(mpfr_srcptr a0,mpfr_srcptr a1,unsigned long a2); int __wrap_mpfr_eq(mpfr_srcptr a0,mpfr_srcptr a1,unsigned long a2) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_eq(a0,a1,a2);  return r; }
int __real_mpfr_equal_p(mpfr_srcptr a0,mpfr_srcptr a1); int __wrap_mpfr_equal_p(mpfr_srcptr a0,mpfr_srcptr a1) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_equal_p(a0,a1);  return r; }
int __real_mpfr_erf(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_erf(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_erf(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_erfc(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_erfc(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_erfc(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_exp(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_exp(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_exp(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_exp10(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_exp10(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_exp10(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_exp10m1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_exp10m1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_exp10m1(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_exp2(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_exp2(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_exp2(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_exp2m1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_exp2m1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_exp2m1(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_expm1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_expm1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_expm1(a0,a1,a2); wmpfr(a0); return r; }
void __real_mpfr_extract(mpz_ptr a0,mpfr_srcptr a1,unsigned int a2); void __wrap_mpfr_extract(mpz_ptr a0,mpfr_srcptr a1,unsigned int a2) { rmpfr(a1); __real_mpfr_extract(a0,a1,a2); wmpz(a0); }
int __real_mpfr_fac_ui(mpfr_ptr a0,unsigned long a1,mpfr_rnd_t a2); int __wrap_mpfr_fac_ui(mpfr_ptr a0,unsigned long a1,mpfr_rnd_t a2) {  int r=__real_mpfr_fac_ui(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_fits_intmax_p(mpfr_srcptr a0,mpfr_rnd_t a1); int __wrap_mpfr_fits_intmax_p(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); int r=__real_mpfr_fits_intmax_p(a0,a1);  return r; }
int __real_mpfr_fits_sint_p(mpfr_srcptr a0,mpfr_rnd_t a1); int __wrap_mpfr_fits_sint_p(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); int r=__real_mpfr_fits_sint_p(a0,a1);  return r; }
int __real_mpfr_fits_slong_p(mpfr_srcptr a0,mpfr_rnd_t a1); int __wrap_mpfr_fits_slong_p(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); int r=__real_mpfr_fits_slong_p(a0,a1);  return r; }
int __real_mpfr_fits_sshort_p(mpfr_srcptr a0,mpfr_rnd_t a1); int __wrap_mpfr_fits_sshort_p(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); int r=__real_mpfr_fits_sshort_p(a0,a1);  return r; }
int __real_mpfr_fits_uint_p(mpfr_srcptr a0,mpfr_rnd_t a1); int __wrap_mpfr_fits_uint_p(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); int r=__real_mpfr_fits_uint_p(a0,a1);  return r; }
int __real_mpfr_fits_uintmax_p(mpfr_srcptr a0,mpfr_rnd_t a1); int __wrap_mpfr_fits_uintmax_p(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); int r=__real_mpfr_fits_uintmax_p(a0,a1);  return r; }
int __real_mpfr_fits_ulong_p(mpfr_srcptr a0,mpfr_rnd_t a1); int __wrap_mpfr_fits_ulong_p(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); int r=__real_mpfr_fits_ulong_p(a0,a1);  return r; }
int __real_mpfr_fits_ushort_p(mpfr_srcptr a0,mpfr_rnd_t a1); int __wrap_mpfr_fits_ushort_p(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); int r=__real_mpfr_fits_ushort_p(a0,a1);  return r; }
int __real_mpfr_floor(mpfr_ptr a0,mpfr_srcptr a1); int __wrap_mpfr_floor(mpfr_ptr a0,mpfr_srcptr a1) { rmpfr(a1); int r=__real_mpfr_floor(a0,a1); wmpfr(a0); return r; }
int __real_mpfr_fma(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_srcptr a3,mpfr_rnd_t a4); int __wrap_mpfr_fma(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_srcptr a3,mpfr_rnd_t a4) { rmpfr(a1);rmpfr(a2);rmpfr(a3); int r=__real_mpfr_fma(a0,a1,a2,a3,a4); wmpfr(a0); return r; }
int __real_mpfr_fmma(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_srcptr a3,mpfr_srcptr a4,mpfr_rnd_t a5); int __wrap_mpfr_fmma(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_srcptr a3,mpfr_srcptr a4,mpfr_rnd_t a5) { rmpfr(a1);rmpfr(a2);rmpfr(a3);rmpfr(a4); int r=__real_mpfr_fmma(a0,a1,a2,a3,a4,a5); wmpfr(a0); return r; }
int __real_mpfr_fmms(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_srcptr a3,mpfr_srcptr a4,mpfr_rnd_t a5); int __wrap_mpfr_fmms(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_srcptr a3,mpfr_srcptr a4,mpfr_rnd_t a5) { rmpfr(a1);rmpfr(a2);rmpfr(a3);rmpfr(a4); int r=__real_mpfr_fmms(a0,a1,a2,a3,a4,a5); wmpfr(a0); return r; }
int __real_mpfr_fmod(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_fmod(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_fmod(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_fmod_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_fmod_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_fmod_ui(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_fms(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_srcptr a3,mpfr_rnd_t a4); int __wrap_mpfr_fms(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_srcptr a3,mpfr_rnd_t a4) { rmpfr(a1);rmpfr(a2);rmpfr(a3); int r=__real_mpfr_fms(a0,a1,a2,a3,a4); wmpfr(a0); return r; }
int __real_mpfr_frac(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_frac(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_frac(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_gamma(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_gamma(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_gamma(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_gamma_inc(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_gamma_inc(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_gamma_inc(a0,a1,a2,a3); wmpfr(a0); return r; }
double __real_mpfr_get_d(mpfr_srcptr a0,mpfr_rnd_t a1); double __wrap_mpfr_get_d(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); double r=__real_mpfr_get_d(a0,a1);  return r; }
double __real_mpfr_get_d1(mpfr_srcptr a0); double __wrap_mpfr_get_d1(mpfr_srcptr a0) { rmpfr(a0); double r=__real_mpfr_get_d1(a0);  return r; }
mpfr_exp_t __real_mpfr_get_exp(mpfr_srcptr a0); mpfr_exp_t __wrap_mpfr_get_exp(mpfr_srcptr a0) { rmpfr(a0); mpfr_exp_t r=__real_mpfr_get_exp(a0);  return r; }
int __real_mpfr_get_f(mpf_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_get_f(mpf_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_get_f(a0,a1,a2); wmpf(a0); return r; }
float __real_mpfr_get_flt(mpfr_srcptr a0,mpfr_rnd_t a1); float __wrap_mpfr_get_flt(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); float r=__real_mpfr_get_flt(a0,a1);  return r; }
mpfr_prec_t __real_mpfr_get_prec(mpfr_srcptr a0); mpfr_prec_t __wrap_mpfr_get_prec(mpfr_srcptr a0) { rmpfr(a0); mpfr_prec_t r=__real_mpfr_get_prec(a0);  return r; }
void __real_mpfr_get_q(mpq_ptr a0,mpfr_srcptr a1); void __wrap_mpfr_get_q(mpq_ptr a0,mpfr_srcptr a1) { rmpfr(a1); __real_mpfr_get_q(a0,a1); wmpq(a0); }
long __real_mpfr_get_si(mpfr_srcptr a0,mpfr_rnd_t a1); long __wrap_mpfr_get_si(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); long r=__real_mpfr_get_si(a0,a1);  return r; }
unsigned long __real_mpfr_get_ui(mpfr_srcptr a0,mpfr_rnd_t a1); unsigned long __wrap_mpfr_get_ui(mpfr_srcptr a0,mpfr_rnd_t a1) { rmpfr(a0); unsigned long r=__real_mpfr_get_ui(a0,a1);  return r; }
int __real_mpfr_get_z(mpz_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_get_z(mpz_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_get_z(a0,a1,a2); wmpz(a0); return r; }
mpfr_exp_t __real_mpfr_get_z_2exp(mpz_ptr a0,mpfr_srcptr a1); mpfr_exp_t __wrap_mpfr_get_z_2exp(mpz_ptr a0,mpfr_srcptr a1) { rmpfr(a1); mpfr_exp_t r=__real_mpfr_get_z_2exp(a0,a1); wmpz(a0); return r; }
int __real_mpfr_greater_p(mpfr_srcptr a0,mpfr_srcptr a1); int __wrap_mpfr_greater_p(mpfr_srcptr a0,mpfr_srcptr a1) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_greater_p(a0,a1);  return r; }
int __real_mpfr_greaterequal_p(mpfr_srcptr a0,mpfr_srcptr a1); int __wrap_mpfr_greaterequal_p(mpfr_srcptr a0,mpfr_srcptr a1) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_greaterequal_p(a0,a1);  return r; }
int __real_mpfr_hypot(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_hypot(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_hypot(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_inf_p(mpfr_srcptr a0); int __wrap_mpfr_inf_p(mpfr_srcptr a0) { rmpfr(a0); int r=__real_mpfr_inf_p(a0);  return r; }
int __real_mpfr_integer_p(mpfr_srcptr a0); int __wrap_mpfr_integer_p(mpfr_srcptr a0) { rmpfr(a0); int r=__real_mpfr_integer_p(a0);  return r; }
int __real_mpfr_j0(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_j0(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_j0(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_j1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_j1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_j1(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_jn(mpfr_ptr a0,long a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_jn(mpfr_ptr a0,long a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_jn(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_less_p(mpfr_srcptr a0,mpfr_srcptr a1); int __wrap_mpfr_less_p(mpfr_srcptr a0,mpfr_srcptr a1) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_less_p(a0,a1);  return r; }
int __real_mpfr_lessequal_p(mpfr_srcptr a0,mpfr_srcptr a1); int __wrap_mpfr_lessequal_p(mpfr_srcptr a0,mpfr_srcptr a1) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_lessequal_p(a0,a1);  return r; }
int __real_mpfr_lessgreater_p(mpfr_srcptr a0,mpfr_srcptr a1); int __wrap_mpfr_lessgreater_p(mpfr_srcptr a0,mpfr_srcptr a1) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_lessgreater_p(a0,a1);  return r; }
int __real_mpfr_li2(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_li2(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_li2(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_lngamma(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_lngamma(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_lngamma(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_log(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_log(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_log(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_log10(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_log10(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_log10(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_log10p1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_log10p1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_log10p1(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_log1p(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_log1p(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_log1p(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_log2(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_log2(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_log2(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_log2p1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_log2p1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_log2p1(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_log_ui(mpfr_ptr a0,unsigned long a1,mpfr_rnd_t a2); int __wrap_mpfr_log_ui(mpfr_ptr a0,unsigned long a1,mpfr_rnd_t a2) {  int r=__real_mpfr_log_ui(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_max(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_max(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_max(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_min(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_min(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_min(a0,a1,a2,a3); wmpfr(a0); return r; }
mpfr_prec_t __real_mpfr_min_prec(mpfr_srcptr a0); mpfr_prec_t __wrap_mpfr_min_prec(mpfr_srcptr a0) { rmpfr(a0); mpfr_prec_t r=__real_mpfr_min_prec(a0);  return r; }
int __real_mpfr_modf(mpfr_ptr a0,mpfr_ptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_modf(mpfr_ptr a0,mpfr_ptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_modf(a0,a1,a2,a3); wmpfr(a0);wmpfr(a1); return r; }
int __real_mpfr_mul(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_mul(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_mul(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_mul_2exp(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_mul_2exp(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_mul_2exp(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_mul_2si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3); int __wrap_mpfr_mul_2si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_mul_2si(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_mul_2ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_mul_2ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_mul_2ui(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_mul_d(mpfr_ptr a0,mpfr_srcptr a1,double a2,mpfr_rnd_t a3); int __wrap_mpfr_mul_d(mpfr_ptr a0,mpfr_srcptr a1,double a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_mul_d(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_mul_q(mpfr_ptr a0,mpfr_srcptr a1,mpq_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_mul_q(mpfr_ptr a0,mpfr_srcptr a1,mpq_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpq(a2); int r=__real_mpfr_mul_q(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_mul_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3); int __wrap_mpfr_mul_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_mul_si(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_mul_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_mul_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_mul_ui(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_mul_z(mpfr_ptr a0,mpfr_srcptr a1,mpz_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_mul_z(mpfr_ptr a0,mpfr_srcptr a1,mpz_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpz(a2); int r=__real_mpfr_mul_z(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_nan_p(mpfr_srcptr a0); int __wrap_mpfr_nan_p(mpfr_srcptr a0) { rmpfr(a0); int r=__real_mpfr_nan_p(a0);  return r; }
int __real_mpfr_neg(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_neg(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_neg(a0,a1,a2); wmpfr(a0); return r; }
void __real_mpfr_nextabove(mpfr_ptr a0); void __wrap_mpfr_nextabove(mpfr_ptr a0) {  __real_mpfr_nextabove(a0); wmpfr(a0); }
void __real_mpfr_nextbelow(mpfr_ptr a0); void __wrap_mpfr_nextbelow(mpfr_ptr a0) {  __real_mpfr_nextbelow(a0); wmpfr(a0); }
void __real_mpfr_nexttoward(mpfr_ptr a0,mpfr_srcptr a1); void __wrap_mpfr_nexttoward(mpfr_ptr a0,mpfr_srcptr a1) { rmpfr(a1); __real_mpfr_nexttoward(a0,a1); wmpfr(a0); }
int __real_mpfr_number_p(mpfr_srcptr a0); int __wrap_mpfr_number_p(mpfr_srcptr a0) { rmpfr(a0); int r=__real_mpfr_number_p(a0);  return r; }
int __real_mpfr_pow(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_pow(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_pow(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_pow_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3); int __wrap_mpfr_pow_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_pow_si(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_pow_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_pow_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_pow_ui(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_pow_z(mpfr_ptr a0,mpfr_srcptr a1,mpz_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_pow_z(mpfr_ptr a0,mpfr_srcptr a1,mpz_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpz(a2); int r=__real_mpfr_pow_z(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_powr(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_powr(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_powr(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_rec_sqrt(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_rec_sqrt(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_rec_sqrt(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_regular_p(mpfr_srcptr a0); int __wrap_mpfr_regular_p(mpfr_srcptr a0) { rmpfr(a0); int r=__real_mpfr_regular_p(a0);  return r; }
void __real_mpfr_reldiff(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); void __wrap_mpfr_reldiff(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); __real_mpfr_reldiff(a0,a1,a2,a3); wmpfr(a0); }
int __real_mpfr_remainder(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_remainder(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_remainder(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_rint(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_rint(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_rint(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_rint_ceil(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_rint_ceil(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_rint_ceil(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_rint_floor(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_rint_floor(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_rint_floor(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_rint_round(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_rint_round(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_rint_round(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_rint_roundeven(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_rint_roundeven(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_rint_roundeven(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_rint_trunc(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_rint_trunc(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_rint_trunc(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_root(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_root(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_root(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_rootn_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3); int __wrap_mpfr_rootn_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_rootn_si(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_rootn_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_rootn_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_rootn_ui(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_round(mpfr_ptr a0,mpfr_srcptr a1); int __wrap_mpfr_round(mpfr_ptr a0,mpfr_srcptr a1) { rmpfr(a1); int r=__real_mpfr_round(a0,a1); wmpfr(a0); return r; }
void __real_mpfr_round_nearest_away_begin(mpfr_ptr a0); void __wrap_mpfr_round_nearest_away_begin(mpfr_ptr a0) {  __real_mpfr_round_nearest_away_begin(a0); wmpfr(a0); }
int __real_mpfr_round_nearest_away_end(mpfr_ptr a0,int a1); int __wrap_mpfr_round_nearest_away_end(mpfr_ptr a0,int a1) {  int r=__real_mpfr_round_nearest_away_end(a0,a1); wmpfr(a0); return r; }
int __real_mpfr_roundeven(mpfr_ptr a0,mpfr_srcptr a1); int __wrap_mpfr_roundeven(mpfr_ptr a0,mpfr_srcptr a1) { rmpfr(a1); int r=__real_mpfr_roundeven(a0,a1); wmpfr(a0); return r; }
int __real_mpfr_sec(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_sec(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_sec(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_sech(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_sech(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_sech(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_set(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_set(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_set(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_set4(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2,int a3); int __wrap_mpfr_set4(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2,int a3) { rmpfr(a1); int r=__real_mpfr_set4(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_set_d(mpfr_ptr a0,double a1,mpfr_rnd_t a2); int __wrap_mpfr_set_d(mpfr_ptr a0,double a1,mpfr_rnd_t a2) {  int r=__real_mpfr_set_d(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_set_exp(mpfr_ptr a0,mpfr_exp_t a1); int __wrap_mpfr_set_exp(mpfr_ptr a0,mpfr_exp_t a1) {  int r=__real_mpfr_set_exp(a0,a1); wmpfr(a0); return r; }
int __real_mpfr_set_f(mpfr_ptr a0,mpf_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_set_f(mpfr_ptr a0,mpf_srcptr a1,mpfr_rnd_t a2) { rmpf(a1); int r=__real_mpfr_set_f(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_set_flt(mpfr_ptr a0,float a1,mpfr_rnd_t a2); int __wrap_mpfr_set_flt(mpfr_ptr a0,float a1,mpfr_rnd_t a2) {  int r=__real_mpfr_set_flt(a0,a1,a2); wmpfr(a0); return r; }
void __real_mpfr_set_inf(mpfr_ptr a0,int a1); void __wrap_mpfr_set_inf(mpfr_ptr a0,int a1) {  __real_mpfr_set_inf(a0,a1); wmpfr(a0); }
int __real_mpfr_set_ld(mpfr_ptr a0,long double a1,mpfr_rnd_t a2); int __wrap_mpfr_set_ld(mpfr_ptr a0,long double a1,mpfr_rnd_t a2) {  int r=__real_mpfr_set_ld(a0,a1,a2); wmpfr(a0); return r; }
void __real_mpfr_set_nan(mpfr_ptr a0); void __wrap_mpfr_set_nan(mpfr_ptr a0) {  __real_mpfr_set_nan(a0); wmpfr(a0); }
void __real_mpfr_set_prec_raw(mpfr_ptr a0,mpfr_prec_t a1); void __wrap_mpfr_set_prec_raw(mpfr_ptr a0,mpfr_prec_t a1) {  __real_mpfr_set_prec_raw(a0,a1); wmpfr(a0); }
int __real_mpfr_set_q(mpfr_ptr a0,mpq_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_set_q(mpfr_ptr a0,mpq_srcptr a1,mpfr_rnd_t a2) { rmpq(a1); int r=__real_mpfr_set_q(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_set_si(mpfr_ptr a0,long a1,mpfr_rnd_t a2); int __wrap_mpfr_set_si(mpfr_ptr a0,long a1,mpfr_rnd_t a2) {  int r=__real_mpfr_set_si(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_set_si_2exp(mpfr_ptr a0,long a1,mpfr_exp_t a2,mpfr_rnd_t a3); int __wrap_mpfr_set_si_2exp(mpfr_ptr a0,long a1,mpfr_exp_t a2,mpfr_rnd_t a3) {  int r=__real_mpfr_set_si_2exp(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_set_str(mpfr_ptr a0,const char * a1,int a2,mpfr_rnd_t a3); int __wrap_mpfr_set_str(mpfr_ptr a0,const char * a1,int a2,mpfr_rnd_t a3) {  int r=__real_mpfr_set_str(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_set_ui(mpfr_ptr a0,unsigned long a1,mpfr_rnd_t a2); int __wrap_mpfr_set_ui(mpfr_ptr a0,unsigned long a1,mpfr_rnd_t a2) {  int r=__real_mpfr_set_ui(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_set_ui_2exp(mpfr_ptr a0,unsigned long a1,mpfr_exp_t a2,mpfr_rnd_t a3); int __wrap_mpfr_set_ui_2exp(mpfr_ptr a0,unsigned long a1,mpfr_exp_t a2,mpfr_rnd_t a3) {  int r=__real_mpfr_set_ui_2exp(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_set_z(mpfr_ptr a0,mpz_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_set_z(mpfr_ptr a0,mpz_srcptr a1,mpfr_rnd_t a2) { rmpz(a1); int r=__real_mpfr_set_z(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_set_z_2exp(mpfr_ptr a0,mpz_srcptr a1,mpfr_exp_t a2,mpfr_rnd_t a3); int __wrap_mpfr_set_z_2exp(mpfr_ptr a0,mpz_srcptr a1,mpfr_exp_t a2,mpfr_rnd_t a3) { rmpz(a1); int r=__real_mpfr_set_z_2exp(a0,a1,a2,a3); wmpfr(a0); return r; }
void __real_mpfr_set_zero(mpfr_ptr a0,int a1); void __wrap_mpfr_set_zero(mpfr_ptr a0,int a1) {  __real_mpfr_set_zero(a0,a1); wmpfr(a0); }
int __real_mpfr_setsign(mpfr_ptr a0,mpfr_srcptr a1,int a2,mpfr_rnd_t a3); int __wrap_mpfr_setsign(mpfr_ptr a0,mpfr_srcptr a1,int a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_setsign(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_sgn(mpfr_srcptr a0); int __wrap_mpfr_sgn(mpfr_srcptr a0) { rmpfr(a0); int r=__real_mpfr_sgn(a0);  return r; }
int __real_mpfr_si_div(mpfr_ptr a0,long a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_si_div(mpfr_ptr a0,long a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_si_div(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_si_sub(mpfr_ptr a0,long a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_si_sub(mpfr_ptr a0,long a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_si_sub(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_signbit(mpfr_srcptr a0); int __wrap_mpfr_signbit(mpfr_srcptr a0) { rmpfr(a0); int r=__real_mpfr_signbit(a0);  return r; }
int __real_mpfr_sin(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_sin(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_sin(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_sin_cos(mpfr_ptr a0,mpfr_ptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_sin_cos(mpfr_ptr a0,mpfr_ptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_sin_cos(a0,a1,a2,a3); wmpfr(a0);wmpfr(a1); return r; }
int __real_mpfr_sinh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_sinh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_sinh(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_sinh_cosh(mpfr_ptr a0,mpfr_ptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_sinh_cosh(mpfr_ptr a0,mpfr_ptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_sinh_cosh(a0,a1,a2,a3); wmpfr(a0);wmpfr(a1); return r; }
int __real_mpfr_sinpi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_sinpi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_sinpi(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_sinu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_sinu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_sinu(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_sqr(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_sqr(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_sqr(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_sqrt(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_sqrt(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_sqrt(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_sqrt_ui(mpfr_ptr a0,unsigned long a1,mpfr_rnd_t a2); int __wrap_mpfr_sqrt_ui(mpfr_ptr a0,unsigned long a1,mpfr_rnd_t a2) {  int r=__real_mpfr_sqrt_ui(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_sub(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_sub(mpfr_ptr a0,mpfr_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpfr(a2); int r=__real_mpfr_sub(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_sub_d(mpfr_ptr a0,mpfr_srcptr a1,double a2,mpfr_rnd_t a3); int __wrap_mpfr_sub_d(mpfr_ptr a0,mpfr_srcptr a1,double a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_sub_d(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_sub_q(mpfr_ptr a0,mpfr_srcptr a1,mpq_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_sub_q(mpfr_ptr a0,mpfr_srcptr a1,mpq_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpq(a2); int r=__real_mpfr_sub_q(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_sub_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3); int __wrap_mpfr_sub_si(mpfr_ptr a0,mpfr_srcptr a1,long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_sub_si(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_sub_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_sub_ui(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_sub_ui(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_sub_z(mpfr_ptr a0,mpfr_srcptr a1,mpz_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_sub_z(mpfr_ptr a0,mpfr_srcptr a1,mpz_srcptr a2,mpfr_rnd_t a3) { rmpfr(a1);rmpz(a2); int r=__real_mpfr_sub_z(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_subnormalize(mpfr_ptr a0,int a1,mpfr_rnd_t a2); int __wrap_mpfr_subnormalize(mpfr_ptr a0,int a1,mpfr_rnd_t a2) {  int r=__real_mpfr_subnormalize(a0,a1,a2); wmpfr(a0); return r; }
void __real_mpfr_swap(mpfr_ptr a0,mpfr_ptr a1); void __wrap_mpfr_swap(mpfr_ptr a0,mpfr_ptr a1) {  __real_mpfr_swap(a0,a1); wmpfr(a0);wmpfr(a1); }
int __real_mpfr_tan(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_tan(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_tan(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_tanh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_tanh(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_tanh(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_tanpi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_tanpi(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_tanpi(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_tanu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_tanu(mpfr_ptr a0,mpfr_srcptr a1,unsigned long a2,mpfr_rnd_t a3) { rmpfr(a1); int r=__real_mpfr_tanu(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_total_order_p(mpfr_srcptr a0,mpfr_srcptr a1); int __wrap_mpfr_total_order_p(mpfr_srcptr a0,mpfr_srcptr a1) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_total_order_p(a0,a1);  return r; }
int __real_mpfr_trunc(mpfr_ptr a0,mpfr_srcptr a1); int __wrap_mpfr_trunc(mpfr_ptr a0,mpfr_srcptr a1) { rmpfr(a1); int r=__real_mpfr_trunc(a0,a1); wmpfr(a0); return r; }
int __real_mpfr_ui_div(mpfr_ptr a0,unsigned long a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_ui_div(mpfr_ptr a0,unsigned long a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_ui_div(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_ui_pow(mpfr_ptr a0,unsigned long a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_ui_pow(mpfr_ptr a0,unsigned long a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_ui_pow(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_ui_pow_ui(mpfr_ptr a0,unsigned long a1,unsigned long a2,mpfr_rnd_t a3); int __wrap_mpfr_ui_pow_ui(mpfr_ptr a0,unsigned long a1,unsigned long a2,mpfr_rnd_t a3) {  int r=__real_mpfr_ui_pow_ui(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_ui_sub(mpfr_ptr a0,unsigned long a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_ui_sub(mpfr_ptr a0,unsigned long a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_ui_sub(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_unordered_p(mpfr_srcptr a0,mpfr_srcptr a1); int __wrap_mpfr_unordered_p(mpfr_srcptr a0,mpfr_srcptr a1) { rmpfr(a0);rmpfr(a1); int r=__real_mpfr_unordered_p(a0,a1);  return r; }
int __real_mpfr_y0(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_y0(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_y0(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_y1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_y1(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_y1(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_yn(mpfr_ptr a0,long a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_yn(mpfr_ptr a0,long a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpfr(a2); int r=__real_mpfr_yn(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_z_sub(mpfr_ptr a0,mpz_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3); int __wrap_mpfr_z_sub(mpfr_ptr a0,mpz_srcptr a1,mpfr_srcptr a2,mpfr_rnd_t a3) { rmpz(a1);rmpfr(a2); int r=__real_mpfr_z_sub(a0,a1,a2,a3); wmpfr(a0); return r; }
int __real_mpfr_zero_p(mpfr_srcptr a0); int __wrap_mpfr_zero_p(mpfr_srcptr a0) { rmpfr(a0); int r=__real_mpfr_zero_p(a0);  return r; }
int __real_mpfr_zeta(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2); int __wrap_mpfr_zeta(mpfr_ptr a0,mpfr_srcptr a1,mpfr_rnd_t a2) { rmpfr(a1); int r=__real_mpfr_zeta(a0,a1,a2); wmpfr(a0); return r; }
int __real_mpfr_zeta_ui(mpfr_ptr a0,unsigned long a1,mpfr_rnd_t a2); int __wrap_mpfr_zeta_ui(mpfr_ptr a0,unsigned long a1,mpfr_rnd_t a2) {  int r=__real_mpfr_zeta_ui(a0,a1,a2); wmpfr(a0); return r; }
}
