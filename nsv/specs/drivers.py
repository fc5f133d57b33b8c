DRIVER = {}
DRIVER['sparse'] = r'''
#include "matrix/SparseMatrix.h"
template class NS::SparseMatrix<double>;
template class NS::SparseMatrixIterator<double>;
template class NS::SparseMatrixRowIterator<double>;
template class NS::SparseMatrixColumnIterator<double>;
namespace NS {
inline void nsv_inst(SparseMatrix<double>& a, SparseMatrix<double>& b, DynamicVector<double>& v, double f){
 (void)(a+b);(void)(a-b);(void)(-a);(void)(a*b);(void)(a*f);(void)(f*a);(void)(a==b);(void)(a!=b); a.mul(v); a.mul_left(v);
 SparseMatrix<double> c(a); c=a; SparseMatrix<double> d(static_cast<SparseMatrix<double>&&>(c)); d=static_cast<SparseMatrix<double>&&>(c);
}}
'''
DRIVER['vector'] = r'''
#include "Vector.h"
template class NS::CountableSet<double, std::vector<double> >;
template class NS::CountableSet<double, std::array<double,3> >;
template class NS::Vector<double, std::vector<double> >;
template class NS::Vector<double, std::array<double,3> >;
template class NS::CountableSet<std::complex<double>, std::vector<std::complex<double> > >;
namespace NS {
template<class V, class T> void nsv_vops(V& a, V& b, T f, const T& g){
 (void)(a+b);(void)(a-b);(void)(a*b);(void)(a/b);(void)(a+f);(void)(a-f);(void)(a*f);(void)(a/f);(void)(f+a);(void)(f-a);(void)(f*a);(void)(f/a);(void)(-a);(void)(a==b);(void)(a!=b);
 auto i=a.begin(); ++i; i++; (void)(i==a.end()); (void)(i!=a.end()); *i; i.isValid();
 a+=b;a-=b;a*=b;a/=b;a+=g;a-=g;a*=g;a/=g; a.at(0); a.set(0,g); a.dot(b); a.magSqr(); a.has(0,1,g); a.fill(g); a.swap(b); a.sum(); a.avg(); a.hasNaN(); a.hasInf(); a.hasZero(); a.do_reciprocal(); V c; V d{f,f};
}
inline void nsv_inst(DynamicVector<double>& a, Vector3D<double>& b, DynamicVector<std::complex<double> >& c){
 nsv_vops(a,a,1.0,1.0); nsv_vops(b,b,1.0,1.0); std::complex<double> z(1,0); nsv_vops(c,c,z,z); a.resize(3); c.resize(3); DynamicVector<double> q(3); DynamicVector<std::complex<double> > r(3); a.mag(); b.mag(); a.normalized(); b.normalized();
}}
'''
DRIVER['dense'] = r'''
#include "matrix/Matrix.h"
namespace NS {
template<class M, class T> void nsv_store(M& a, M& b, const T& g){
 M c; a.at(0,0); a.set(0,0,g); a.linear_at(0); a.linear_set(0,g); T v(0); a.has(0,0); a.has(0,0,v); a.columns(); a.rows(); a.size();
 auto i=a.begin(); ++i; i++; (void)(i==a.end()); (void)(i!=a.end()); *i; i.row(); i.column(); i.isValid(); const M& ca=a; auto ci=ca.begin(); ca.end(); a.cbegin(); a.cend();
 auto r=a.row_begin(0); ++r; r++; a.row_end(0); ca.row_begin(0); ca.row_end(0); a.row_cbegin(0); a.row_cend(0); *r;
 auto k=a.column_begin(0); ++k; k++; a.column_end(0); ca.column_begin(0); ca.column_end(0); a.column_cbegin(0); a.column_cend(0); *k; *ci;
 a.set(i,g); a.erase(i);
 a+=b; a-=b; a*=b; a*=g; a.swap(b); a.transpose(); a.conjugate(); a.adjugate(); a.trace(); (void)(a==b); (void)(a!=b); (void)(a+b); (void)(a-b); (void)(-a); (void)(a*b); (void)(a*g); (void)(g*a);
 a.sum(); a.empty(); a.has_zero();
}
inline void nsv_inst(DenseMatrix<double>& a, DenseMatrix<std::complex<double> >& z, FixedMatrix<double,2,3>& f, FixedMatrix<double,3,2>& g, DynamicVector<double>& v, FixedVector<double,2>& v2, FixedVector<double,3>& v3, DynamicVector<std::complex<double> >& w, FixedMatrix<std::complex<double>,2,2>& fz){
 std::complex<double> s(1,0);
 nsv_store(a,a,1.0); nsv_store(z,z,s); nsv_store(f,f,1.0); nsv_store(fz,fz,s);
 DenseMatrix<double> q(2,3); DenseMatrix<std::complex<double> > qz(2,3); a.mul(a); a.mul(v); a.mul_left(v); a.mul(v3); z.mul(z); z.mul(w); z.mul_left(w);
 f.mul(g); f.mul(v3); f.mul_left(v2); fz.mul(fz);
 a.max(); a.min(); a.avg(); a.has_nan(); a.has_inf(); f.max(); f.min(); f.avg(); f.has_nan(); f.has_inf();
 DenseMatrix<double> il={{1,2},{3}}; FixedMatrix<double,2,3> fl={{1,2},{3}};
 a+=f; a-=f; a*=f;
}}
'''
DRIVER['construct'] = r'''
#include "matrix/Matrix.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixCheck.h"
namespace NS {
template<template<typename> class M, class T> void nsv_con(const M<T>& m, const DynamicVector<T>& v){
 Construct::eye<M,T>(2,2); Construct::diag<M,T>(v); Construct::diag<M,T>(m); Construct::tril<M,T>(m,0); Construct::triu<M,T>(m,0); Construct::hilbert<M,T>(2);
 Check::matrixIsOrthogonal(m); Check::matrixIsUnitary(m); Check::matrixIsProjection(m); Check::matrixIsSymmetric(m); Check::matrixIsHermitian(m); Check::matrixIsSkewSymmetric(m); Check::matrixIsSkewHermitian(m);
}
template<class M> void nsv_chk(const M& m){
 Check::matrixIsOrthogonal(m); Check::matrixIsUnitary(m); Check::matrixIsProjection(m); Check::matrixIsSymmetric(m); Check::matrixIsHermitian(m); Check::matrixIsSkewSymmetric(m); Check::matrixIsSkewHermitian(m);
}
inline void nsv_inst(DenseMatrix<double>& a, SparseMatrix<double>& s, DenseMatrix<std::complex<double> >& z, DynamicVector<double>& v, DynamicVector<std::complex<double> >& w, FixedMatrix<double,2,3>& f){
 nsv_con<DenseMatrix,double>(a,v); nsv_con<SparseMatrix,double>(s,v); nsv_con<DenseMatrix,std::complex<double> >(z,w);
 Convert::toSparseMatrix(a); Convert::toDenseMatrix(s); Convert::toSparseMatrix(f);
 Construct::eye<double,2,2>(); Construct::eye<double,2,3>(); FixedMatrix<double,2,2> g; FixedMatrix<std::complex<double>,2,2> h;
 nsv_chk(g); nsv_chk(h);
}}
'''
DRIVER['simplex'] = r'''
#include "Simplex.h"
namespace NS {
inline void nsv_inst(Simplex<double,2>& s, FixedVector<double,2>& v, std::array<FixedVector<double,3>,2>& a3, std::array<FixedVector<double,2>,1>& a2, std::array<FixedVector<double,4>,3>& a4){
 Simplex<double,2> t; s.prepare(); s[0]; const Simplex<double,2>& c = s; c[0]; s.volume(); s.unitVolume(); s.center(); s.outerRadius(); s.diameter(); s.toLocal(v); s.toGlobal(v); s.gradient(0); s.faceCenter(0); s.faceNormal(0); s.matrix(); s.inverseMatrix(); s.determinant();
 Math::normal<double,4>(a4); Math::normal<double,3>(a3); Math::normal<double,2>(a2);
}}
'''
DRIVER['utils'] = r'''
#include "Types.h"
#include "Utils.h"
namespace NS {
inline void nsv_inst(){
 t_min<double>(1,2); t_max<double>(1,2); t_min<int>(1,2); t_max<int>(1,2); t_min<size_t>(1,2); t_max<size_t>(1,2);
 Math::sign_pow<int>(3); Math::sign_pow<size_t>(3); Math::factorial<int>(3); Math::factorial<size_t>(3); Math::binom<int>(3,2); Math::binom<size_t>(3,2); Math::binom<long>(3,2); Math::binom<double>(3.0,2);
}}
'''
DRIVER['shape'] = r'''
#include "sf/PolyShapeFunction.h"
namespace NS {
template<Dimension K, Dimension O> inline void nsv_shape(){
 PolyShapePolicy<double,K,O> p; FixedVector<double,K> v; FixedVector<double,PolyShapePolicy<double,K,O>::DOF> n;
 p.value(0,v); p.value(0,v,n); p.gradient(0,v); p.gradient(0,v,n); p.gradient2(0,v); p.gradient2(0,v,n);
}
inline void nsv_inst(){ nsv_shape<1,1>(); nsv_shape<1,2>(); nsv_shape<2,1>(); nsv_shape<2,2>(); nsv_shape<2,3>(); nsv_shape<3,1>(); nsv_shape<3,2>(); }
}
'''
DRIVER['quad'] = r'''
#include "quadrature/Quadrature.h"
namespace NS {
template<Dimension K> struct nsv_fun { double operator()(const FixedVector<double,K>& p) const; };
template<Dimension K> struct nsv_ifun { double operator()(Index i, const FixedVector<double,K>& p) const; };
template<Dimension K, Dimension O> inline void nsv_quad(const nsv_fun<K>& f, const nsv_ifun<K>& g){
 GaussLegendreQuadratureFactory<double,K,O> q; q.getQuadraturePoints(); q.getQuadratureWeights();
 GaussLegendreQuadrature<double,K,O> r; r.eval(f); r.eval_index(g);
}
inline void nsv_inst(const nsv_fun<1>& f, const nsv_fun<2>& g, const nsv_ifun<1>& h, const nsv_ifun<2>& i){ nsv_quad<1,1>(f,h); nsv_quad<1,2>(f,h); nsv_quad<1,3>(f,h); nsv_quad<2,1>(g,i); nsv_quad<2,2>(g,i); nsv_quad<2,3>(g,i); }
}
'''
DRIVER['lin'] = r'''
#include "matrix/Matrix.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixOrder.h"
namespace NS {
inline void nsv_inst(const DenseMatrix<double>& a, DenseMatrix<double>& m, const SparseMatrix<double>& s, SparseMatrix<double>& t, const FixedMatrix<double,2,2>& f2, const FixedMatrix<double,3,3>& f3, const DynamicVector<double>& v, const DynamicVector<Index>& p){
 LU::serial::doolittle(a,m,m,m); LU::serial::doolittle(s,t,t,t); LU::serial::solve_lu(a,a,v); LU::serial::solve_lu(s,s,v);
 LU::serial::cholesky(a,m); LU::serial::cholesky(s,t); LU::serial::ilu0(s,t,t); LU::serial::ainv_lu(a,a,m,m); LU::serial::ainv_lu(s,s,t,t);
 Operations::determinant(a); Operations::determinant(s); Operations::determinant(f2); Operations::determinant(f3);
 Operations::inverse(a); Operations::inverse(s); Operations::inverse(a,a); Operations::inverse(s,s); Operations::inverse(a,a,a); Operations::inverse(s,s,s);
 size_t k; Iterative::serial::jacobi(a,v,v,3,0.1,&k); Iterative::serial::jacobi(s,v,v,3,0.1,&k); Iterative::serial::sor(a,v,v,1.0,3,0.1,&k); Iterative::serial::sor(s,v,v,1.0,3,0.1,&k);
 CG::serial::cg(a,v,v,3,0.1,&k); CG::serial::cg(s,v,v,3,0.1,&k); CG::serial::pcg(a,v,a,v,3,0.1,&k); CG::serial::pcg(s,v,s,v,3,0.1,&k); CG::serial::jacobi(a,m); CG::serial::jacobi(s,t);
 cuthill_mckee(s); r_cuthill_mckee(s); permutation_matrix<double>(p); inverse_permutation(p); permutate(s,p); permutate(v,p);
}}
'''
DRIVER['mesh'] = r'''
#include "mesh/HyperCube.h"
template class NS::Mesh<double,2>;
template class NS::HyperCube<double,2>;
namespace NS {
inline void nsv_inst(const Mesh<double,2>& a, const FixedVector<double,2>& p){
 MeshVertex<double,2> v; MeshVertex<double,2> w(p); MeshElement<double,2> e; MeshEdge<double,2> g; Mesh<double,2> c(a);
}}
'''
DRIVER['loader'] = r'''
#include "loader/MeshTriangleLoader.h"
#include "loader/MeshObjLoader.h"
template class NS::Mesh<double,2>;
namespace NS {
inline void nsv_inst(const std::string& a){
 MeshTriangleLoader<double>::loadString(a, a); MeshObjLoader<double>::loadString(a); MeshObjLoader<double,2,0>::loadString(a);
}}
'''
DRIVER['vtk'] = r'''
#include "export/VTKExporter.h"
template class NS::Mesh<double,2>;
namespace NS {
inline void nsv_inst(const std::string& p, const Mesh<double,2>& m, const std::map<std::string, DynamicVector<double>*>& a){
 VTKExporter<double,2>::write(p, m, a, a, 0);
}}
'''
DRIVER['dof'] = r'''
#include "sf/PolyShapeFunction.h"
template class NS::Mesh<double,2>;
namespace NS {
inline void nsv_inst(Mesh<double,2>& m){
 PolyShapePolicy<double,2,1>::prepareMesh(m); PolyShapePolicy<double,2,2>::prepareMesh(m);
}}
'''
