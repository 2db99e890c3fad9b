// T01: the bindings that let generic linear algebra (Boost.LA, today Boost.QVM)
// work on vmmlib's types.  Boost.LA itself is not installed: its trait templates
// are stand-ins (checks/stub), and the generic algorithms are those of Boost.QVM,
// reached through vmmlib's traits.
#define VMMLIB_OLD_TYPEDEFS
#include <vmmlib/matrix.hpp>
#include <vmmlib/matrix_traits.hpp>
#include <vmmlib/vector.hpp>
#include <vmmlib/vector_traits.hpp>

#include <boost/qvm/mat.hpp>
#include <boost/qvm/mat_operations.hpp>
#include <boost/qvm/mat_traits.hpp>
#include <boost/qvm/map_mat_mat.hpp>
#include <boost/qvm/vec.hpp>
#include <boost/qvm/vec_mat_operations.hpp>
#include <boost/qvm/vec_operations.hpp>
#include <boost/qvm/vec_traits.hpp>

#include "gen.hpp"

namespace boost
{
namespace qvm
{
template <size_t M, size_t N, class T>
struct mat_traits<vmml::Matrix<M, N, T> >
{
    typedef boost::la::matrix_traits<vmml::Matrix<M, N, T> > L;
    typedef vmml::Matrix<M, N, T> X;
    static const int rows = L::rows;
    static const int cols = L::cols;
    typedef typename L::scalar_type scalar_type;
    template <int R, int C>
    static scalar_type read_element(const X& m)
    {
        return L::template r<R, C>(m);
    }
    template <int R, int C>
    static scalar_type& write_element(X& m)
    {
        return L::template w<R, C>(m);
    }
    static scalar_type read_element_idx(int r, int c, const X& m) { return L::ir(r, c, m); }
    static scalar_type& write_element_idx(int r, int c, X& m) { return L::iw(r, c, m); }
};
template <size_t M, class T>
struct vec_traits<vmml::Vector<M, T> >
{
    typedef boost::la::vector_traits<vmml::Vector<M, T> > L;
    typedef vmml::Vector<M, T> X;
    static const int dim = L::dim;
    typedef typename L::scalar_type scalar_type;
    template <int I>
    static scalar_type read_element(const X& v)
    {
        return L::template r<I>(v);
    }
    template <int I>
    static scalar_type& write_element(X& v)
    {
        return L::template w<I>(v);
    }
    static scalar_type read_element_idx(int i, const X& v) { return L::ir(i, v); }
    static scalar_type& write_element_idx(int i, X& v) { return L::iw(i, v); }
};
}
}

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"constant indices", "run-time indices", "not square",
                                   "generic algorithm", "write through", 0};
const char* const pbt::RULE =
    "Random matrices and vectors, and random sequences of reads and writes through "
    "the traits with constant and run-time indices, against a plain array; generic "
    "algorithms of Boost.QVM through the traits against definitions in long double; "
    "non-trivial = at least two different elements.";
#endif

namespace
{
template <class Mat, int R, int C>
struct Access
{
    typedef boost::la::matrix_traits<Mat> L;
    typedef typename L::scalar_type S;
    static S read(const Mat& m) { return L::template r<R, C>(m); }
    static void write(Mat& m, S v) { L::template w<R, C>(m) = v; }
};

// tables of the accessors with constant indices
template <size_t M, size_t N, class T, size_t I = 0>
struct Table
{
    typedef vmml::Matrix<M, N, T> Mat;
    static T read(const Mat& m, size_t k)
    {
        return k == I ? Access<Mat, (int)(I % M), (int)(I / M)>::read(m)
                      : Table<M, N, T, I + 1>::read(m, k);
    }
    static void write(Mat& m, size_t k, T v)
    {
        if (k == I)
            Access<Mat, (int)(I % M), (int)(I / M)>::write(m, v);
        else
            Table<M, N, T, I + 1>::write(m, k, v);
    }
};
template <size_t M, size_t N, class T>
struct Table<M, N, T, M * N>
{
    typedef vmml::Matrix<M, N, T> Mat;
    static T read(const Mat&, size_t) { return T(); }
    static void write(Mat&, size_t, T) {}
};
template <size_t M, class T, size_t I = 0>
struct VTable
{
    typedef vmml::Vector<M, T> V;
    typedef boost::la::vector_traits<V> L;
    static T read(const V& v, size_t k)
    {
        return k == I ? L::template r<(int)I>(v) : VTable<M, T, I + 1>::read(v, k);
    }
    static void write(V& v, size_t k, T x)
    {
        if (k == I)
            L::template w<(int)I>(v) = x;
        else
            VTable<M, T, I + 1>::write(v, k, x);
    }
};
template <size_t M, class T>
struct VTable<M, T, M>
{
    typedef vmml::Vector<M, T> V;
    static T read(const V&, size_t) { return T(); }
    static void write(V&, size_t, T) {}
};
}

template <size_t M, size_t N, class T>
void matrixAccess(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    typedef boost::la::matrix_traits<Mat> L;
    static_assert(std::is_same<typename L::scalar_type, T>::value, "scalar type");
    s.same((int)L::rows, (int)M, "rows");
    s.same((int)L::cols, (int)N, "columns");
    if (M != N)
        s.label(2);
    Mat m;
    Gen<T> g(s, 10, 2);
    T ref[M][N];
    for (size_t j = 0; j < N; ++j)
        for (size_t i = 0; i < M; ++i)
            m(i, j) = ref[i][j] = g();
    s.show("m", m.array, M * N);
    bool varied = false;
    for (size_t i = 1; i < M * N; ++i)
        varied = varied || m.array[i] != m.array[0];
    const int n = (int)s.range(1, 12);
    for (int k = 0; k < n; ++k)
    {
        const size_t i = s.draw(M), j = s.draw(N);
        const bool fixed = s.coin(), wr = s.coin();
        s.label(fixed ? 0 : 1);
        s.show("row", i);
        s.show("column", j);
        if (wr)
        {
            const T v = g();
            s.show(fixed ? "w<>" : "iw", v);
            if (fixed)
                Table<M, N, T>::write(m, j * M + i, v);
            else
                L::iw((int)i, (int)j, m) = v;
            ref[i][j] = v;
            s.label(4);
            for (size_t a = 0; a < M; ++a)
                for (size_t b = 0; b < N; ++b)
                    s.same(m(a, b), ref[a][b], "element after a write", a * N + b);
        }
        else
        {
            const Mat& c = m;
            s.same(fixed ? Table<M, N, T>::read(c, j * M + i) : L::ir((int)i, (int)j, c),
                   ref[i][j], fixed ? "r<>" : "ir");
        }
    }
    s.nontrivial(varied);
}

template <size_t M, class T>
void vectorAccess(Src& s)
{
    typedef vmml::Vector<M, T> V;
    typedef boost::la::vector_traits<V> L;
    static_assert(std::is_same<typename L::scalar_type, T>::value, "scalar type");
    s.same((int)L::dim, (int)M, "dimension");
    V v;
    T ref[M];
    Gen<T> g(s, 10, 2);
    fill(g, v.array, M);
    std::copy(v.array, v.array + M, ref);
    s.show("v", v.array, M);
    bool varied = false;
    for (size_t i = 1; i < M; ++i)
        varied = varied || ref[i] != ref[0];
    const int n = (int)s.range(1, 12);
    for (int k = 0; k < n; ++k)
    {
        const size_t i = s.draw(M);
        const bool fixed = s.coin(), wr = s.coin();
        s.label(fixed ? 0 : 1);
        if (wr)
        {
            const T x = g();
            s.show(fixed ? "w<>" : "iw", x);
            if (fixed)
                VTable<M, T>::write(v, i, x);
            else
                L::iw((int)i, v) = x;
            ref[i] = x;
            s.label(4);
            for (size_t a = 0; a < M; ++a)
                s.same(v[a], ref[a], "component after a write", a);
        }
        else
        {
            const V& c = v;
            s.same(fixed ? VTable<M, T>::read(c, i) : L::ir((int)i, c), ref[i],
                   fixed ? "r<>" : "ir");
        }
    }
    s.nontrivial(varied);
}

// generic algorithms
template <size_t M, size_t K, size_t N>
void generic(Src& s)
{
    typedef double T;
    namespace q = boost::qvm;
    vmml::Matrix<M, K, T> a;
    vmml::Matrix<K, N, T> b;
    vmml::Vector<K, T> v;
    Gen<T> g(s, 6);
    fill(g, a.array, M * K);
    fill(g, b.array, K * N);
    fill(g, v.array, K);
    s.show("a", a.array, M * K);
    s.show("b", b.array, K * N);
    s.show("v", v.array, K);
    s.label(3);
    if (M != K || K != N)
        s.label(2);
    vmml::Matrix<M, N, T> p;
    garbage(p.array, M * N);
    q::assign(p, q::operator*(a, b));
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            LD w = 0, mag = 0;
            for (size_t k = 0; k < K; ++k)
            {
                w += (LD)a(i, k) * b(k, j);
                mag += fabsl((LD)a(i, k) * b(k, j));
            }
            s.near(p(i, j), w, mag, 4 * (LD)K, "product", i * N + j);
            s.near((a * b)(i, j), w, mag, 4 * (LD)K, "product of vmmlib", i * N + j);
        }
    vmml::Matrix<K, M, T> t;
    garbage(t.array, M * K);
    q::assign(t, q::transposed(a));
    for (size_t i = 0; i < M; ++i)
        for (size_t k = 0; k < K; ++k)
            s.same(t(k, i), a(i, k), "transposed", i * K + k);
    vmml::Vector<M, T> r;
    garbage(r.array, M);
    q::assign(r, q::operator*(a, v));
    for (size_t i = 0; i < M; ++i)
    {
        LD w = 0, mag = 0;
        for (size_t k = 0; k < K; ++k)
        {
            w += (LD)a(i, k) * v[k];
            mag += fabsl((LD)a(i, k) * v[k]);
        }
        s.near(r[i], w, mag, 4 * (LD)K, "matrix by vector", i);
    }
    LD w = 0, mag = 0;
    for (size_t k = 0; k < K; ++k)
    {
        w += (LD)v[k] * v[k];
        mag += (LD)v[k] * v[k];
    }
    s.near(q::dot(v, v), w, mag, 4 * (LD)K, "dot product");
    s.near(q::mag_sqr(v), w, mag, 4 * (LD)K, "squared magnitude");
    vmml::Vector<K, T> d(v);
    q::operator*=(d, (T)2);
    for (size_t k = 0; k < K; ++k)
        s.same(d[k], 2 * v[k], "scaled in place", k);
    vmml::Matrix<M, K, T> e(a);
    q::operator+=(e, a);
    for (size_t i = 0; i < M; ++i)
        for (size_t k = 0; k < K; ++k)
            s.same(e(i, k), 2 * a(i, k), "added in place", i * K + k);
    bool varied = false;
    for (size_t i = 1; i < M * K; ++i)
        varied = varied || a.array[i] != a.array[0];
    s.nontrivial(varied);
}

typedef unsigned char ub;
#if PBT_PART == 0
PBT_REG("matrix_33_f", (matrixAccess<3, 3, float>), 4);
PBT_REG("matrix_44_d", (matrixAccess<4, 4, double>), 4);
PBT_REG("matrix_24_f", (matrixAccess<2, 4, float>), 4);
PBT_REG("matrix_52_i", (matrixAccess<5, 2, int>), 4);
PBT_REG("matrix_13_ub", (matrixAccess<1, 3, ub>), 4);
PBT_REG("matrix_31_d", (matrixAccess<3, 1, double>), 4);
PBT_REG("vector_2_f", (vectorAccess<2, float>), 4);
PBT_REG("vector_3_d", (vectorAccess<3, double>), 4);
PBT_REG("vector_4_i", (vectorAccess<4, int>), 4);
PBT_REG("vector_7_ub", (vectorAccess<7, ub>), 4);
PBT_REG("generic_333", (generic<3, 3, 3>), 4);
PBT_REG("generic_243", (generic<2, 4, 3>), 4);
PBT_REG("generic_444", (generic<4, 4, 4>), 4);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("matrixAccess_1_1_float", (matrixAccess<1, 1, float>), 2);
PBT_REG("matrixAccess_2_2_double", (matrixAccess<2, 2, double>), 2);
PBT_REG("matrixAccess_4_3_float", (matrixAccess<4, 3, float>), 2);
PBT_REG("matrixAccess_7_7_double", (matrixAccess<7, 7, double>), 2);
PBT_REG("matrixAccess_8_2_int", (matrixAccess<8, 2, int>), 2);
PBT_REG("matrixAccess_5_7_double", (matrixAccess<5, 7, double>), 2);
PBT_REG("matrixAccess_6_17_int", (matrixAccess<6, 17, int>), 2);
PBT_REG("matrixAccess_17_16_float", (matrixAccess<17, 16, float>), 1);
PBT_REG("vectorAccess_300_float", (vectorAccess<300, float>), 1);
PBT_REG("matrixAccess_3_9_float", (matrixAccess<3, 9, float>), 2);
PBT_REG("vectorAccess_1_float", (vectorAccess<1, float>), 2);
PBT_REG("vectorAccess_5_double", (vectorAccess<5, double>), 2);
PBT_REG("vectorAccess_8_float", (vectorAccess<8, float>), 2);
PBT_REG("vectorAccess_9_int", (vectorAccess<9, int>), 2);
PBT_REG("vectorAccess_17_double", (vectorAccess<17, double>), 2);
PBT_REG("generic_1_1_1", (generic<1, 1, 1>), 2);
PBT_REG("generic_2_2_2", (generic<2, 2, 2>), 2);
PBT_REG("generic_5_3_4", (generic<5, 3, 4>), 2);
PBT_REG("generic_2_5_2", (generic<2, 5, 2>), 2);
PBT_REG("generic_3_1_4", (generic<3, 1, 4>), 2);
#endif
