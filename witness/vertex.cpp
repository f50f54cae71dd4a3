//@ preamble
#include <GTMesh/NumericStaticArray/Vertex.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/NumericStaticArray/GramSchmidt.h>
#include <cmath>
#include <new>
#define R __restrict
#define FORT(M) M(1,double) M(2,double) M(3,double) M(4,double) M(2,float) M(3,float)
#define FORD(M) M(1,double) M(2,double) M(3,double) M(4,double)
#define C(a,b) C_(a,b)
#define C_(a,b) a##b
#define NAME(K,X,D,T) w_##K##_##X##_##D##_##T
#define EX extern "C"
//@ section componentwise
#define M(D,T) \
EX void NAME(impl,add,D,T)(const Vertex<D,T>& a, const Vertex<D,T>& b, Vertex<D,T>* R o){ *o = a + b; } \
EX void NAME(spec,add,D,T)(const T* a, const T* b, T* R o){ for (int i = 0; i < D; ++i) o[i] = a[i] + b[i]; } \
EX void NAME(impl,sub,D,T)(const Vertex<D,T>& a, const Vertex<D,T>& b, Vertex<D,T>* R o){ *o = a - b; } \
EX void NAME(spec,sub,D,T)(const T* a, const T* b, T* R o){ for (int i = 0; i < D; ++i) o[i] = a[i] - b[i]; } \
EX void NAME(impl,addeq,D,T)(Vertex<D,T>& R a, const Vertex<D,T>& R b){ a += b; } \
EX void NAME(spec,addeq,D,T)(T* R a, const T* R b){ for (int i = 0; i < D; ++i) a[i] = a[i] + b[i]; } \
EX void NAME(impl,subeq,D,T)(Vertex<D,T>& R a, const Vertex<D,T>& R b){ a -= b; } \
EX void NAME(spec,subeq,D,T)(T* R a, const T* R b){ for (int i = 0; i < D; ++i) a[i] = a[i] - b[i]; } \
EX void NAME(impl,mul,D,T)(const Vertex<D,T>& a, const T& x, Vertex<D,T>* R o){ *o = a * x; } \
EX void NAME(spec,mul,D,T)(const T* a, const T& x, T* R o){ for (int i = 0; i < D; ++i) o[i] = a[i] * x; } \
EX void NAME(impl,lmul,D,T)(const Vertex<D,T>& a, const T& x, Vertex<D,T>* R o){ *o = x * a; } \
EX void NAME(spec,lmul,D,T)(const T* a, const T& x, T* R o){ for (int i = 0; i < D; ++i) o[i] = a[i] * x; } \
EX void NAME(impl,muleq,D,T)(Vertex<D,T>& R a, const T& R x){ a *= x; } \
EX void NAME(spec,muleq,D,T)(T* R a, const T& R x){ for (int i = 0; i < D; ++i) a[i] = a[i] * x; } \
EX void NAME(impl,div,D,T)(const Vertex<D,T>& a, const T& x, Vertex<D,T>* R o){ *o = a / x; } \
EX void NAME(spec,div,D,T)(const T* a, const T& x, T* R o){ for (int i = 0; i < D; ++i) o[i] = a[i] / x; } \
EX void NAME(impl,diveq,D,T)(Vertex<D,T>& R a, const T& R x){ a /= x; } \
EX void NAME(spec,diveq,D,T)(T* R a, const T& R x){ for (int i = 0; i < D; ++i) a[i] = a[i] / x; } \
/* results handed back by the compound operators are the object itself */ \
EX bool NAME(true,retself,D,T)(Vertex<D,T>& a, const Vertex<D,T>& b, T x){ return &(a += b) == &a && &(a -= b) == &a && &(a *= x) == &a && &(a /= x) == &a; }
FORT(M)
//@ section integer_scalar
/* a scalar of another arithmetic type is the same number */
#define M(D,T) \
EX void NAME(impl,muli,D,T)(const Vertex<D,T>& a, const int& x, Vertex<D,T>* R o){ *o = a * x; } \
EX void NAME(spec,muli,D,T)(const T* a, const int& x, T* R o){ for (int i = 0; i < D; ++i) o[i] = a[i] * T(x); } \
EX void NAME(impl,divi,D,T)(const Vertex<D,T>& a, const int& x, Vertex<D,T>* R o){ *o = a / x; } \
EX void NAME(spec,divi,D,T)(const T* a, const int& x, T* R o){ for (int i = 0; i < D; ++i) o[i] = a[i] / T(x); } \
EX void NAME(impl,muleqi,D,T)(Vertex<D,T>& R a, const int& R x){ a *= x; } \
EX void NAME(spec,muleqi,D,T)(T* R a, const int& R x){ for (int i = 0; i < D; ++i) a[i] = a[i] * T(x); } \
EX void NAME(impl,diveqi,D,T)(Vertex<D,T>& R a, const int& R x){ a /= x; } \
EX void NAME(spec,diveqi,D,T)(T* R a, const int& R x){ for (int i = 0; i < D; ++i) a[i] = a[i] / T(x); } \
EX void NAME(impl,divu,D,T)(const Vertex<D,T>& a, const unsigned long& x, Vertex<D,T>* R o){ *o = a / x; } \
EX void NAME(spec,divu,D,T)(const T* a, const unsigned long& x, T* R o){ for (int i = 0; i < D; ++i) o[i] = a[i] / T(x); }
FORD(M)
//@ section products
#define M(D,T) \
EX T NAME(impl,dot,D,T)(const Vertex<D,T>& a, const Vertex<D,T>& b){ return a * b; } \
EX T NAME(impl,sumsq,D,T)(Vertex<D,T>& a){ return a.sumOfSquares(); } \
EX T NAME(impl,norm,D,T)(Vertex<D,T>& a){ return a.normEuclid(); } \
EX T NAME(spec,dot,D,T)(const T* a, const T* b){ T s = 0; for (int i = 0; i < D; ++i) s += a[i] * b[i]; return s; } \
EX T NAME(spec,sumsq,D,T)(const T* a){ T s = 0; for (int i = 0; i < D; ++i) s += a[i] * a[i]; return s; } \
EX T NAME(spec,norm,D,T)(const T* a){ T s = 0; for (int i = 0; i < D; ++i) s += a[i] * a[i]; return std::sqrt(s); }
FORD(M)
#define N(T) \
EX void NAME(impl,cross,3,T)(const Vector<3,T>& a, const Vector<3,T>& b, Vector<3,T>* R o){ *o = vectorProduct(a, b); } \
EX void NAME(spec,cross,3,T)(const T* a, const T* b, T* R o){ for (int i = 0; i < 3; ++i) o[i] = a[(i+1)%3]*b[(i+2)%3] - a[(i+2)%3]*b[(i+1)%3]; }
N(double) N(float)
//@ section comparison
#define M(D,T) \
EX bool NAME(impl,eq,D,T)(const Vertex<D,T>& a, const Vertex<D,T>& b){ return a == b; } \
EX bool NAME(impl,ne,D,T)(const Vertex<D,T>& a, const Vertex<D,T>& b){ return a != b; } \
EX bool NAME(spec,eq,D,T)(const T* a, const T* b){ bool r = true; for (int i = 0; i < D; ++i) r = r && a[i] == b[i]; return r; } \
EX bool NAME(spec,ne,D,T)(const T* a, const T* b){ bool r = false; for (int i = 0; i < D; ++i) r = r || a[i] != b[i]; return r; }
FORT(M)
//@ section construction
#define M(D,T) \
EX void NAME(impl,iempty,D,T)(Vertex<D,T>* R o){ *o = Vertex<D,T>(std::initializer_list<T>{}); } \
EX void NAME(spec,iempty,D,T)(T* R o){ for (int i = 0; i < D; ++i) o[i] = 0; } \
EX void NAME(impl,i1,D,T)(T a, Vertex<D,T>* R o){ *o = Vertex<D,T>{a}; } \
EX void NAME(spec,i1,D,T)(T a, T* R o){ o[0] = a; for (int i = 1; i < D; ++i) o[i] = 0; } \
EX void NAME(impl,i5,D,T)(T a, T b, T c, T d, T e, Vertex<D,T>* R o){ *o = Vertex<D,T>{a, b, c, d, e}; } \
EX void NAME(spec,i5,D,T)(T a, T b, T c, T d, T e, T* R o){ T v[5] = {a,b,c,d,e}; for (int i = 0; i < D; ++i) o[i] = v[i]; } \
EX void NAME(impl,as2,D,T)(T a, T b, Vertex<D,T>& R o){ o = {a, b}; } \
EX void NAME(spec,as2,D,T)(T a, T b, T* R o){ T v[2] = {a,b}; for (int i = 0; i < D; ++i) o[i] = i < 2 ? v[i] : 0; } \
EX bool NAME(true,size,D,T)(Vertex<D,T>& a){ return a.size() == D && Vertex<D,T>::size() == D && sizeof(Vertex<D,T>) == D * sizeof(T) && (T*)&a == a.data(); }
FORT(M)
//@ section orthogonalisation
/* Gram-Schmidt: e_i = v_i - sum_j (v_i.e_j)/(e_j.e_j) e_j */
template<int N, int D> static void gs(double* g){
  double inv[N];
  for (int i = 0; i < N; ++i) {
    double c[N];
    for (int j = 0; j < i; ++j) { double s = 0; for (int k = 0; k < D; ++k) s += g[i*D+k]*g[j*D+k]; c[j] = s * inv[j]; }
    for (int j = 0; j < i; ++j) for (int k = 0; k < D; ++k) g[i*D+k] -= c[j]*g[j*D+k];
    double s = 0; for (int k = 0; k < D; ++k) s += g[i*D+k]*g[i*D+k];
    inv[i] = 1.0 / s;
  }
}
template<int N, int D> static void gsn(double* R g, double* R n){
  for (int i = 0; i < N; ++i) {
    double c[N];
    for (int j = 0; j < i; ++j) { double s = 0; for (int k = 0; k < D; ++k) s += g[i*D+k]*g[j*D+k]; c[j] = s; }
    for (int j = 0; j < i; ++j) for (int k = 0; k < D; ++k) g[i*D+k] -= c[j]*g[j*D+k];
    double s = 0; for (int k = 0; k < D; ++k) s += g[i*D+k]*g[i*D+k];
    n[i] = std::sqrt(s);
    double q = 1.0 / n[i];
    for (int k = 0; k < D; ++k) g[i*D+k] *= q;
  }
}
#define G(N,D) \
EX void w_impl_gs_##N##_##D(std::array<Vertex<D,double>,N>& g){ gramSchmidt<N,D,size_t,double>(g); } \
EX void w_spec_gs_##N##_##D(double* g){ gs<N,D>(g); } \
EX void w_impl_gsn_##N##_##D(std::array<Vertex<D,double>,N>& R g, std::array<double,N>& R n){ gramSchmidt<N,D,size_t,double>(g, n); } \
EX void w_spec_gsn_##N##_##D(double* R g, double* R n){ gsn<N,D>(g, n); }
G(1,2) G(2,2) G(1,3) G(2,3) G(3,3) G(2,4)
//@ section orthogonalisation_runtime std=vector
/* run-time number of vectors: the same recurrence, every j < i */
template<int D, class T> static void rgs(std::vector<Vector<D,T>>& v){
  std::vector<T> inv(v.size());
  inv[0] = 1.0 / v[0].sumOfSquares();
  std::vector<T> c(v.size());
  for (size_t i = 1; i < v.size(); ++i) {
    for (size_t j = 0; j < i; ++j) c[j] = (v[i]*v[j]) * inv[j];
    for (size_t j = 0; j < i; ++j) v[i] -= v[j]*c[j];
    inv[i] = 1.0 / v[i].sumOfSquares();
  }
}
template<int D, class T> static void rgsn(std::vector<Vector<D,T>>& v, std::vector<T>& n){
  std::vector<T> c(v.size());
  n.resize(v.size());
  n[0] = v[0].normEuclid();
  v[0] /= n[0];
  for (size_t i = 1; i < v.size(); ++i) {
    for (size_t j = 0; j < i; ++j) c[j] = v[i]*v[j];
    for (size_t j = 0; j < i; ++j) v[i] -= v[j]*c[j];
    n[i] = v[i].normEuclid();
    v[i] /= n[i];
  }
}
#define GR(D,T) \
EX void w_impl_rgs_##D##_##T(std::vector<Vector<D,T>>& R g){ gramSchmidt<D,size_t,T>(g); } \
EX void w_spec_rgs_##D##_##T(std::vector<Vector<D,T>>& R g){ rgs<D,T>(g); } \
EX void w_impl_rgsn_##D##_##T(std::vector<Vector<D,T>>& R g, std::vector<T>& R n){ gramSchmidt<D,size_t,T>(g, n); } \
EX void w_spec_rgsn_##D##_##T(std::vector<Vector<D,T>>& R g, std::vector<T>& R n){ rgsn<D,T>(g, n); }
GR(2,double) GR(3,double) GR(3,float)
