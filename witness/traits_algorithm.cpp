//@ preamble
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <array>
#include <vector>
#define EX extern "C"
#define R __restrict
// flat, with a member that is not reflected; mixed member types; nested; with an indexable member
struct One { double x; int other; };
struct Two { double x; int other; double y; };
struct Mix { double x; float y; int n; };
struct Ints { int a; long b; };
struct In { double u; double v; };
struct Nest { In p; double w; In q; };
struct Arr { std::array<double, 3> c; double s; };
MAKE_ATTRIBUTE_TRAIT(One, x);
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Two, x, y);
MAKE_ATTRIBUTE_TRAIT(Mix, x, y, n);
MAKE_ATTRIBUTE_TRAIT(Ints, a, b);
MAKE_ATTRIBUTE_TRAIT(In, u, v);
MAKE_ATTRIBUTE_TRAIT(Nest, p, w, q);
MAKE_ATTRIBUTE_TRAIT(Arr, c, s);
#define ALL(M) M(One) M(Two) M(Mix) M(Ints) M(Nest)
#define FLT(M) M(One) M(Two) M(Nest)
// E(class, F): F(member) for every reflected member
#define MEM_One(F) F(x)
#define MEM_Two(F) F(x) F(y)
#define MEM_Mix(F) F(x) F(y) F(n)
#define MEM_Ints(F) F(a) F(b)
#define MEM_In(F) F(u) F(v)
#define MEM_Nest(F) F(p.u) F(p.v) F(w) F(q.u) F(q.v)
#define MV(x) static_cast<std::remove_reference_t<decltype(x)>&&>(x)
//@ section compound
#define ADD(m) a.m = a.m + b.m;
#define SUB(m) a.m = a.m - b.m;
#define MUL(m) a.m = a.m * b.m;
#define SCL(m) a.m = a.m * s;
#define M(T) \
EX void w_impl_add_##T(T& R a, const T& R b) { a += b; } \
EX void w_spec_add_##T(T& R a, const T& R b) { MEM_##T(ADD) } \
EX void w_impl_addself_##T(T& a) { a += a; } \
EX void w_spec_addself_##T(T& a) { T& b = a; MEM_##T(ADD) } \
EX void w_impl_sub_##T(T& R a, const T& R b) { a -= b; } \
EX void w_spec_sub_##T(T& R a, const T& R b) { MEM_##T(SUB) } \
EX void w_impl_subself_##T(T& a) { a -= a; } \
EX void w_spec_subself_##T(T& a) { T& b = a; MEM_##T(SUB) } \
EX void w_impl_mul_##T(T& R a, const T& R b) { a *= b; } \
EX void w_spec_mul_##T(T& R a, const T& R b) { MEM_##T(MUL) } \
EX void w_impl_muld_##T(T& R a, const double& R s) { a *= s; } \
EX void w_spec_muld_##T(T& R a, const double& R s) { MEM_##T(SCL) } \
EX void w_impl_muli_##T(T& R a, const int& R s) { a *= s; } \
EX void w_spec_muli_##T(T& R a, const int& R s) { MEM_##T(SCL) } \
EX bool w_true_self_##T(T& a, const T& b) { return &(a += b) == &a && &(a -= b) == &a && &(a *= b) == &a && &(a *= 2) == &a; }
ALL(M)
//@ section binary
// every combination of l-value and r-value operands
#define ADD(m) o->m = a.m + b.m;
#define SUB(m) o->m = a.m - b.m;
#define MUL(m) o->m = a.m * b.m;
#define OP(name, op, F, T) \
EX void w_impl_##name##_ll_##T(const T& R a, const T& R b, T* R o) { T r = a op b; MEM_##T(OUT) } \
EX void w_spec_##name##_ll_##T(const T& R a, const T& R b, T* R o) { MEM_##T(F) } \
EX void w_impl_##name##_nn_##T(T& R a, T& R b, T* R o) { T r = a op b; MEM_##T(OUT) } \
EX void w_spec_##name##_nn_##T(T& R a, T& R b, T* R o) { MEM_##T(F) } \
EX void w_impl_##name##_lr_##T(const T& R a, const T& R b, T* R o) { T y = b; T r = a op MV(y); MEM_##T(OUT) } \
EX void w_spec_##name##_lr_##T(const T& R a, const T& R b, T* R o) { MEM_##T(F) } \
EX void w_impl_##name##_rl_##T(const T& R a, const T& R b, T* R o) { T x = a; T r = MV(x) op b; MEM_##T(OUT) } \
EX void w_spec_##name##_rl_##T(const T& R a, const T& R b, T* R o) { MEM_##T(F) } \
EX void w_impl_##name##_rr_##T(const T& R a, const T& R b, T* R o) { T x = a, y = b; T r = MV(x) op MV(y); MEM_##T(OUT) } \
EX void w_spec_##name##_rr_##T(const T& R a, const T& R b, T* R o) { MEM_##T(F) }
#define OUT(m) o->m = r.m;
#define M(T) OP(add, +, ADD, T) OP(sub, -, SUB, T) OP(mul, *, MUL, T)
ALL(M)
//@ section expressions
// results of operations as operands of further ones
#define OUT(m) o->m = r.m;
#define SUMS(m) o->m = (a.m + b.m) * (a.m - b.m);
#define DIFF(m) o->m = a.m - (b.m + c.m);
#define MID(m) o->m = (a.m + b.m) / 2;
#define NEG(m) o->m = -(a.m - b.m) * 3;
#define M(T) \
EX void w_impl_sums_##T(const T& R a, const T& R b, T* R o) { T r = (a + b) * (a - b); MEM_##T(OUT) } \
EX void w_spec_sums_##T(const T& R a, const T& R b, T* R o) { MEM_##T(SUMS) } \
EX void w_impl_diff_##T(const T& R a, const T& R b, const T& R c, T* R o) { T r = a - (b + c); MEM_##T(OUT) } \
EX void w_spec_diff_##T(const T& R a, const T& R b, const T& R c, T* R o) { MEM_##T(DIFF) } \
EX void w_impl_mid_##T(const T& R a, const T& R b, T* R o) { T r = (a + b) / 2; MEM_##T(OUT) } \
EX void w_spec_mid_##T(const T& R a, const T& R b, T* R o) { MEM_##T(MID) } \
EX void w_impl_neg_##T(const T& R a, const T& R b, T* R o) { T r = -(a - b) * 3; MEM_##T(OUT) } \
EX void w_spec_neg_##T(const T& R a, const T& R b, T* R o) { MEM_##T(NEG) }
FLT(M)
//@ section scalar
// a number on either side
#define OUT(m) o->m = r.m;
#define SCL(m) o->m = a.m * s;
#define LSC(m) o->m = s * a.m;
#define DIV(m) o->m = a.m / s;
#define S(T, V) \
EX void w_impl_mul_##V##T(const T& R a, const V& R s, T* R o) { T r = a * s; MEM_##T(OUT) } \
EX void w_spec_mul_##V##T(const T& R a, const V& R s, T* R o) { MEM_##T(SCL) } \
EX void w_impl_mulr_##V##T(const T& R a, const V& R s, T* R o) { T x = a; T r = MV(x) * s; MEM_##T(OUT) } \
EX void w_spec_mulr_##V##T(const T& R a, const V& R s, T* R o) { MEM_##T(SCL) } \
EX void w_impl_lmul_##V##T(const T& R a, const V& R s, T* R o) { T r = s * a; MEM_##T(OUT) } \
EX void w_spec_lmul_##V##T(const T& R a, const V& R s, T* R o) { MEM_##T(LSC) } \
EX void w_impl_lmulr_##V##T(const T& R a, const V& R s, T* R o) { T x = a; T r = s * MV(x); MEM_##T(OUT) } \
EX void w_spec_lmulr_##V##T(const T& R a, const V& R s, T* R o) { MEM_##T(LSC) } \
EX void w_impl_div_##V##T(const T& R a, const V& R s, T* R o) { T r = a / s; MEM_##T(OUT) } \
EX void w_spec_div_##V##T(const T& R a, const V& R s, T* R o) { MEM_##T(DIV) } \
EX void w_impl_divr_##V##T(const T& R a, const V& R s, T* R o) { T x = a; T r = MV(x) / s; MEM_##T(OUT) } \
EX void w_spec_divr_##V##T(const T& R a, const V& R s, T* R o) { MEM_##T(DIV) }
#define M(T) S(T, double) S(T, int)
ALL(M)
//@ section functions
// elementary functions of every member
#include <cmath>
#define OUT(m) o->m = r.m;
#define U(f) o->m = std::f(a.m);
#define UNARY(F, T) \
EX void w_impl_##F##_##T(const T& R a, T* R o) { T r = F(a); MEM_##T(OUT) } \
EX void w_spec_##F##_##T(const T& R a, T* R o) { MEM_##T(F##_) } \
EX void w_impl_##F##_n##T(T& R a, T* R o) { T r = F(a); MEM_##T(OUT) } \
EX void w_spec_##F##_n##T(T& R a, T* R o) { MEM_##T(F##_) } \
EX void w_impl_##F##_r##T(const T& R a, T* R o) { T x = a; T r = F(MV(x)); MEM_##T(OUT) } \
EX void w_spec_##F##_r##T(const T& R a, T* R o) { MEM_##T(F##_) }
#define exp_(m) o->m = std::exp(a.m);
#define log_(m) o->m = std::log(a.m);
#define log2_(m) o->m = std::log2(a.m);
#define log10_(m) o->m = std::log10(a.m);
#define sqrt_(m) o->m = std::sqrt(a.m);
#define cbrt_(m) o->m = std::cbrt(a.m);
#define abs_(m) o->m = std::abs(a.m);
#define MINUS(T) \
EX void w_impl_minus_##T(const T& R a, T* R o) { T r = -a; MEM_##T(OUT) } \
EX void w_spec_minus_##T(const T& R a, T* R o) { MEM_##T(minus_) } \
EX void w_impl_minus_r##T(const T& R a, T* R o) { T x = a; T r = -MV(x); MEM_##T(OUT) } \
EX void w_spec_minus_r##T(const T& R a, T* R o) { MEM_##T(minus_) }
#define minus_(m) o->m = -a.m;
#define M(T) UNARY(exp, T) UNARY(log, T) UNARY(log2, T) UNARY(log10, T) UNARY(sqrt, T) UNARY(cbrt, T) UNARY(abs, T) MINUS(T)
FLT(M)
UNARY(abs, Ints) MINUS(Ints) UNARY(abs, Mix) MINUS(Mix)
//@ section power
#include <cmath>
#define OUT(m) o->m = r.m;
#define POW(m) o->m = std::pow(a.m, s);
#define BASE(m) o->m = std::pow(s, a.m);
#define M(T) \
EX void w_impl_pow_##T(const T& R a, const double& R s, T* R o) { T r = pow(a, s); MEM_##T(OUT) } \
EX void w_spec_pow_##T(const T& R a, const double& R s, T* R o) { MEM_##T(POW) } \
EX void w_impl_powi_##T(const T& R a, const int& R s, T* R o) { T r = pow(a, s); MEM_##T(OUT) } \
EX void w_spec_powi_##T(const T& R a, const int& R s, T* R o) { MEM_##T(POW) } \
EX void w_impl_powr_##T(const T& R a, const double& R s, T* R o) { T x = a; T r = pow(MV(x), s); MEM_##T(OUT) } \
EX void w_spec_powr_##T(const T& R a, const double& R s, T* R o) { MEM_##T(POW) } \
EX void w_impl_base_##T(const T& R a, const double& R s, T* R o) { T r = pow(s, a); MEM_##T(OUT) } \
EX void w_spec_base_##T(const T& R a, const double& R s, T* R o) { MEM_##T(BASE) } \
EX void w_impl_baser_##T(const T& R a, const double& R s, T* R o) { T x = a; T r = pow(s, MV(x)); MEM_##T(OUT) } \
EX void w_spec_baser_##T(const T& R a, const double& R s, T* R o) { MEM_##T(BASE) }
FLT(M)
//@ section arrays
// elementary functions of every element of an array
#include <cmath>
using A3 = std::array<double, 3>;
EX void w_impl_pow(const A3& R a, const double& R s, A3* R o) { *o = pow(a, s); }
EX void w_spec_pow(const A3& R a, const double& R s, A3* R o) { for (int i = 0; i < 3; ++i) (*o)[i] = std::pow(a[i], s); }
struct TArr { double v[4]; size_t getSize() const { return 4; } double& operator[](size_t i) { return v[i]; } const double& operator[](size_t i) const { return v[i]; } };
EX void w_impl_powt(const TArr& R a, const double& R s, TArr* R o) { *o = pow(a, s); }
EX void w_spec_powt(const TArr& R a, const double& R s, TArr* R o) { for (int i = 0; i < 4; ++i) o->v[i] = std::pow(a.v[i], s); }
EX void w_impl_abs(const A3& R a, A3* R o) { *o = abs(a); }
EX void w_spec_abs(const A3& R a, A3* R o) { for (int i = 0; i < 3; ++i) (*o)[i] = std::abs(a[i]); }
EX void w_impl_absi(const std::array<long, 4>& R a, std::array<long, 4>* R o) { *o = abs(a); }
EX void w_spec_absi(const std::array<long, 4>& R a, std::array<long, 4>* R o) { for (int i = 0; i < 4; ++i) (*o)[i] = std::abs(a[i]); }
EX double w_impl_absd(double a) { return ::abs<double>(a); }
EX double w_spec_absd(double a) { return std::abs(a); }
//@ section aggregates
#include <algorithm>
#define T(t) t, a
EX double w_impl_max1(const One& a) { return max(a); }
EX double w_spec_max1(const One& a) { return a.x; }
EX double w_impl_max2(const Two& a) { return max(a); }
EX double w_spec_max2(const Two& a) { return std::max(a.x, a.y); }
EX double w_impl_min2(const Two& a) { return min(a); }
EX double w_spec_min2(const Two& a) { return std::min(a.x, a.y); }
EX double w_impl_sum2(const Two& a) { return sum(a); }
EX double w_spec_sum2(const Two& a) { return a.x + a.y; }
EX double w_impl_maxm(const Mix& a) { return max(a); }
EX double w_spec_maxm(const Mix& a) { return std::max(std::max(a.x, double(a.y)), double(a.n)); }
EX double w_impl_minm(const Mix& a) { return min(a); }
EX double w_spec_minm(const Mix& a) { return std::min(std::min(a.x, double(a.y)), double(a.n)); }
EX double w_impl_summ(const Mix& a) { return sum(a); }
EX double w_spec_summ(const Mix& a) { return a.x + a.y + a.n; }
EX long w_impl_maxi(const Ints& a) { return max(a); }
EX long w_spec_maxi(const Ints& a) { return std::max(long(a.a), a.b); }
EX long w_impl_mini(const Ints& a) { return min(a); }
EX long w_spec_mini(const Ints& a) { return std::min(long(a.a), a.b); }
EX long w_impl_sumi(const Ints& a) { return sum(a); }
EX long w_spec_sumi(const Ints& a) { return a.a + a.b; }
EX double w_impl_maxn(const Nest& a) { return max(a); }
EX double w_spec_maxn(const Nest& a) { return std::max(std::max(std::max(a.p.u, a.p.v), a.w), std::max(a.q.u, a.q.v)); }
EX double w_impl_minn(const Nest& a) { return min(a); }
EX double w_spec_minn(const Nest& a) { return std::min(std::min(std::min(a.p.u, a.p.v), a.w), std::min(a.q.u, a.q.v)); }
EX double w_impl_sumn(const Nest& a) { return sum(a); }
EX double w_spec_sumn(const Nest& a) { return a.p.u + a.p.v + a.w + a.q.u + a.q.v; }
EX double w_impl_sumarr(const Arr& a) { return sum(a); }
EX double w_spec_sumarr(const Arr& a) { return a.c[0] + a.c[1] + a.c[2] + a.s; }
EX double w_impl_maxarr(const Arr& a) { return max(a); }
EX double w_spec_maxarr(const Arr& a) { return std::max(std::max(std::max(a.c[0], a.c[1]), a.c[2]), a.s); }
EX int w_impl_suminta(const std::array<int, 3>& a) { return sum(a); }
EX int w_spec_suminta(const std::array<int, 3>& a) { return a[0] + a[1] + a[2]; }
EX float w_impl_minflt(const std::array<float, 3>& a) { return min(a); }
EX float w_spec_minflt(const std::array<float, 3>& a) { return std::min(std::min(a[0], a[1]), a[2]); }
//@ section aggregates_list
#include <algorithm>
EX double w_impl_sum(const std::vector<double>& a) { return sum(a); }
EX double w_spec_sum(const std::vector<double>& a) { if (a.size() == 0) return 0; double s = a[0]; for (size_t i = 1; i < a.size(); ++i) s += a[i]; return s; }
EX double w_spec2_sum(const std::vector<double>& a) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i]; return s; }
EX double w_spec3_sum(const std::vector<double>& a) { double s = 0; for (const double& x : a) s += x; return s; }
EX double w_impl_max(const std::vector<double>& a) { return max(a); }
EX double w_spec_max(const std::vector<double>& a) { if (a.size() == 0) return 0; double s = a[0]; for (size_t i = 1; i < a.size(); ++i) s = std::max(s, a[i]); return s; }
EX double w_impl_minn(const std::vector<In>& a) { return min(a); }
EX double w_spec_minn(const std::vector<In>& a) { if (a.size() == 0) return 0; double s = std::min(a[0].u, a[0].v); for (size_t i = 1; i < a.size(); ++i) s = std::min(s, std::min(a[i].u, a[i].v)); return s; }
EX int w_impl_sumi(const std::vector<int>& a) { return sum(a); }
EX int w_spec_sumi(const std::vector<int>& a) { if (a.size() == 0) return 0; int s = a[0]; for (size_t i = 1; i < a.size(); ++i) s += a[i]; return s; }
//@ compile own_result
// the result is an object of its own, never a reference into an expired operand
#define V(...) static_assert(!std::is_reference<decltype(__VA_ARGS__)>::value, "a value");
#define D(T) std::declval<T>()
#define M(T) V(D(T) + D(T)) V(D(T) - D(const T&)) V(D(T) * 2) V(-D(T)) V(exp(D(T))) V(log(D(T))) V(log2(D(T))) V(log10(D(T))) V(sqrt(D(T))) V(cbrt(D(T))) V(abs(D(T))) V(pow(D(T), 2)) V(pow(2, D(T))) V(D(T) / 2)
M(One) M(Two) M(Nest)
