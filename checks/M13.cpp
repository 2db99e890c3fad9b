// M13: construction, resizing and conversion of matrices
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

#include <list>

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"grows", "shrinks", "one of each",
                                   "other element type", "array", "std::vector",
                                   "too short", "identity", 0};
const char* const pbt::RULE =
    "Random matrices converted to larger, smaller and differently typed ones "
    "over garbage, and built from arrays and vectors, against the index "
    "definition (common block converted, the rest zero); non-trivial = at least "
    "two different entries.";
#endif

template <class T>
bool rich(const T* a, size_t n)
{
    for (size_t i = 1; i < n; ++i)
        if (a[i] != a[0])
            return true;
    return false;
}

template <size_t M, size_t N, class T, size_t P, size_t Q, class U>
void conv(Src& s)
{
    vmml::Matrix<P, Q, U> a;
    for (size_t i = 0; i < P * Q; ++i)
        a.array[i] = convertible<T, U>(s);
    s.show("a(col-major)", a.array, P * Q);
    const vmml::Matrix<P, Q, U> a0 = a;
    vmml::Matrix<M, N, T> r;
    garbage(r.array, M * N);
    r = a;
    vmml::Matrix<M, N, T> c(a);
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            const T w = i < P && j < Q ? (T)a0.array[j * P + i] : T(0);
            s.same(r.array[j * M + i], w, "assignment of another matrix", i * N + j);
            s.same(c.array[j * M + i], w, "construction from another matrix", i * N + j);
        }
    s.expect(a == a0, "the source is unchanged");
    s.label(M >= P && N >= Q ? 0 : M <= P && N <= Q ? 1 : 2);
    if (!std::is_same<T, U>::value)
        s.label(3);
    s.nontrivial(rich(a.array, P * Q));
}

template <size_t M, size_t N, class T, class U>
void cast(Src& s)
{
    vmml::Matrix<M, N, U> a;
    for (size_t i = 0; i < M * N; ++i)
        a.array[i] = convertible<T, U>(s);
    s.show("a(col-major)", a.array, M * N);
    vmml::Matrix<M, N, T> r;
    garbage(r.array, M * N);
    r.cast_from(a);
    for (size_t i = 0; i < M * N; ++i)
        s.same(r.array[i], (T)a.array[i], "cast_from()", i);
    s.label(3);
    s.nontrivial(rich(a.array, M * N));
}

template <size_t M, size_t N, class T>
void build(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    Gen<T> g(s, std::is_floating_point<T>::value ? 20 : FULL);
    // a default matrix is the identity if square, else zero
    Mat d;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
            s.same(d.array[j * M + i], M == N && i == j ? T(1) : T(0), "default constructor", i * N + j);
    T rows[M][N], flat[M * N];
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
            flat[i * N + j] = rows[i][j] = g();
    s.show("rows", flat, M * N);
    Mat a, b, c, e, f;
    garbage(a.array, M * N);
    garbage(b.array, M * N);
    garbage(c.array, M * N);
    garbage(e.array, M * N);
    a = rows;
    b = flat;
    std::vector<T> v(flat, flat + M * N);
    const size_t extra = s.draw(3);
    for (size_t i = 0; i < extra; ++i)
        v.push_back(T(77));
    c = v;
    std::list<T> l(flat, flat + M * N);
    e.set(l.begin(), l.end());
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            s.same(a.array[j * M + i], rows[i][j], "assignment of T[M][N]", i * N + j);
            s.same(b.array[j * M + i], rows[i][j], "assignment of a flat array", i * N + j);
            s.same(c.array[j * M + i], rows[i][j], "assignment of a std::vector", i * N + j);
            s.same(e.array[j * M + i], rows[i][j], "set() from a list", i * N + j);
        }
    s.label(4);
    s.label(5);
    // copies are independent
    f = a;
    Mat h(a);
    const size_t at = s.draw(M * N);
    const T nv = a.array[at] == 1 ? T(2) : T(1);
    f.array[at] = nv;
    s.expect(h == b && a == b, "a copy does not change with its source");
    s.expect(f != b, "changing a copy");
    f = f;
    s.same(f.array[at], nv, "self assignment");
    // too short
    std::vector<T> sv(flat, flat + s.draw(M * N));
    const Mat a0 = a;
    s.same(throws<std::exception>([&] { a = sv; }), true, "a too short std::vector is refused");
    s.expect(a == a0, "a refused assignment changes nothing");
    s.label(6);
    s.nontrivial(rich(flat, M * N));
}

template <size_t N, class T>
void ident(Src& s)
{
    typedef vmml::Matrix<N, N, T> Mat;
    Gen<T> g(s, std::is_floating_point<T>::value ? 16 : 6);
    Mat m, i1;
    fill(g, m.array, N * N);
    s.show("m", m.array, N * N);
    garbage(i1.array, N * N);
    vmml::identity(i1);
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            s.same(i1.array[j * N + i], T(i == j), "identity()", i * N + j);
            s.same(Mat::IDENTITY.array[j * N + i], T(i == j), "IDENTITY", i * N + j);
            s.same(Mat::ZERO.array[j * N + i], T(0), "ZERO", i * N + j);
        }
    Mat z = m;
    z.zero();
    s.expect(z == Mat::ZERO, "zero()");
    Mat k;
    vmml::set_to_identity_functor<Mat>()(z);
    s.expect(z == Mat::IDENTITY, "set_to_identity_functor");
    vmml::set_to_zero_functor<Mat>()(z);
    s.expect(z == Mat::ZERO, "set_to_zero_functor");
    s.expect(m * i1 == m && i1 * m == m, "the identity is neutral");
    s.expect(m + Mat::ZERO == m, "zero is neutral");
    s.label(7);
    s.nontrivial(rich(m.array, N * N));
}

#if PBT_PART == 0
PBT_REG("conv_44f_33f", (conv<4, 4, float, 3, 3, float>));
PBT_REG("conv_33f_44f", (conv<3, 3, float, 4, 4, float>));
PBT_REG("conv_44d_44f", (conv<4, 4, double, 4, 4, float>));
PBT_REG("conv_44f_44d", (conv<4, 4, float, 4, 4, double>));
PBT_REG("conv_25f_43d", (conv<2, 5, float, 4, 3, double>));
PBT_REG("conv_52i_24f", (conv<5, 2, int, 2, 4, float>));
PBT_REG("conv_34i_43d", (conv<3, 4, int, 4, 3, double>), 8);
PBT_REG("conv_33u_24f", (conv<3, 3, unsigned char, 2, 4, float>), 8);
PBT_REG("conv_26d_31i", (conv<2, 6, double, 3, 1, int>), 8);
PBT_REG("conv_43f_42f", (conv<4, 3, float, 4, 2, float>), 8);
PBT_REG("conv_34f_24f", (conv<3, 4, float, 2, 4, float>), 8);
PBT_REG("conv_32d_23d", (conv<3, 2, double, 2, 3, double>), 8);
PBT_REG("conv_33d_33i", (conv<3, 3, double, 3, 3, int>), 8);
PBT_REG("cast_33di", (cast<3, 3, double, int>), 8);
PBT_REG("cast_34fd", (cast<3, 4, float, double>), 8);
PBT_REG("cast_34df", (cast<3, 4, double, float>), 8);
PBT_REG("cast_22if", (cast<2, 2, int, float>), 8);
PBT_REG("build_34f", (build<3, 4, float>));
PBT_REG("build_44d", (build<4, 4, double>));
PBT_REG("build_51i", (build<5, 1, int>), 8);
PBT_REG("build_26f", (build<2, 6, float>), 8);
PBT_REG("ident_1f", (ident<1, float>), 1);
PBT_REG("ident_3d", (ident<3, double>), 8);
PBT_REG("ident_4f", (ident<4, float>), 8);
PBT_REG("ident_5i", (ident<5, int>), 4);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("conv_2_2_float_2_2_double", (conv<2, 2, float, 2, 2, double>), 3);
PBT_REG("conv_3_3_float_3_3_float", (conv<3, 3, float, 3, 3, float>), 3);
PBT_REG("conv_3_3_double_4_4_float", (conv<3, 3, double, 4, 4, float>), 3);
PBT_REG("conv_4_4_double_3_3_double", (conv<4, 4, double, 3, 3, double>), 3);
PBT_REG("conv_2_2_float_4_4_float", (conv<2, 2, float, 4, 4, float>), 3);
PBT_REG("conv_4_4_float_2_2_float", (conv<4, 4, float, 2, 2, float>), 3);
PBT_REG("conv_5_5_float_4_4_float", (conv<5, 5, float, 4, 4, float>), 3);
PBT_REG("conv_4_4_int_5_5_double", (conv<4, 4, int, 5, 5, double>), 3);
PBT_REG("conv_8_8_float_3_9_double", (conv<8, 8, float, 3, 9, double>), 3);
PBT_REG("conv_3_9_double_8_8_float", (conv<3, 9, double, 8, 8, float>), 3);
PBT_REG("conv_7_2_float_2_7_float", (conv<7, 2, float, 2, 7, float>), 3);
PBT_REG("conv_1_1_double_3_3_float", (conv<1, 1, double, 3, 3, float>), 3);
PBT_REG("conv_17_4_float_16_5_double", (conv<17, 4, float, 16, 5, double>), 3);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("conv_3_3_int64_4_4_int64", (conv<3, 3, int64_t, 4, 4, int64_t>), 3);
PBT_REG("conv_4_2_uint64_3_3_int64", (conv<4, 2, uint64_t, 3, 3, int64_t>), 3);
PBT_REG("conv_2_2_float_3_2_int64", (conv<2, 2, float, 3, 2, int64_t>), 3);
PBT_REG("cast_3_2_int64_uint64", (cast<3, 2, int64_t, uint64_t>), 3);
PBT_REG("cast_2_2_float_int64", (cast<2, 2, float, int64_t>), 3);
PBT_REG("cast_3_3_int8_int", (cast<3, 3, int8_t, int>), 3);
PBT_REG("build_3_3_int64", (build<3, 3, int64_t>), 3);
PBT_REG("cast_1_1_float_double", (cast<1, 1, float, double>), 3);
PBT_REG("cast_4_4_float_double", (cast<4, 4, float, double>), 3);
PBT_REG("cast_4_4_double_float", (cast<4, 4, double, float>), 3);
PBT_REG("cast_5_3_float_int", (cast<5, 3, float, int>), 3);
PBT_REG("cast_8_8_double_float", (cast<8, 8, double, float>), 3);
PBT_REG("cast_2_9_int_double", (cast<2, 9, int, double>), 3);
PBT_REG("cast_17_3_float_double", (cast<17, 3, float, double>), 3);
PBT_REG("build_1_1_float", (build<1, 1, float>), 3);
PBT_REG("build_2_2_double", (build<2, 2, double>), 3);
PBT_REG("build_3_3_float", (build<3, 3, float>), 3);
PBT_REG("build_4_4_float", (build<4, 4, float>), 3);
PBT_REG("build_4_3_double", (build<4, 3, double>), 3);
PBT_REG("build_5_6_int", (build<5, 6, int>), 3);
PBT_REG("build_7_7_float", (build<7, 7, float>), 3);
PBT_REG("build_8_8_double", (build<8, 8, double>), 3);
PBT_REG("build_9_4_float", (build<9, 4, float>), 3);
PBT_REG("build_3_17_double", (build<3, 17, double>), 3);
PBT_REG("ident_2_float", (ident<2, float>), 2);
PBT_REG("ident_2_int", (ident<2, int>), 2);
PBT_REG("ident_3_float", (ident<3, float>), 2);
PBT_REG("ident_4_double", (ident<4, double>), 2);
PBT_REG("ident_5_float", (ident<5, float>), 2);
PBT_REG("ident_6_double", (ident<6, double>), 2);
PBT_REG("ident_7_float", (ident<7, float>), 2);
PBT_REG("ident_8_int", (ident<8, int>), 2);
PBT_REG("ident_9_double", (ident<9, double>), 2);
PBT_REG("ident_17_float", (ident<17, float>), 2);
PBT_REG("conv_17_17_float_18_16_double", (conv<17, 17, float, 18, 16, double>), 1);
PBT_REG("cast_17_17_double_float", (cast<17, 17, double, float>), 1);
PBT_REG("build_17_16_int", (build<17, 16, int>), 1);
PBT_REG("build_2_300_float", (build<2, 300, float>), 1);
#endif
