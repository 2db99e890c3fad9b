// M02: with safe accessors, an index outside a matrix is refused
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"row outside", "column outside",
                                   "last valid index", "first invalid index",
                                   "far outside", 0};
const char* const pbt::RULE =
    "Random row/column/offset pairs, half of them on the border, through every "
    "indexed accessor of a matrix built with safe accessors; a refused access "
    "must throw and change nothing, an accepted one must reach its element; "
    "non-trivial = at least one index is the last valid, the first invalid or a "
    "far invalid one.";
#endif

#ifndef VMMLIB_SAFE_ACCESSORS
#error "M02 needs the default configuration (safe accessors)"
#endif

template <size_t M, size_t N, class T>
void access(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    typedef vmml::exception X;
    Gen<T> g(s, std::is_floating_point<T>::value ? 20 : FULL);
    Mat m;
    for (size_t k = 0; k < M * N; ++k)
        m.array[k] = (T)(k + 1);
    const Mat m0 = m;
    const Mat& c = m;
    auto index = [&](size_t n) -> size_t {
        switch (s.draw(6))
        {
        case 0:
            s.label(2);
            s.nontrivial();
            return n - 1;
        case 1:
        case 2:
            s.label(3);
            s.nontrivial();
            return n;
        case 3:
            s.label(4);
            s.nontrivial();
            return s.coin() ? n + 1 + s.draw(8) : (size_t)0 - 1 - s.draw(1000);
        default:
            return s.draw(n);
        }
    };
    const size_t i = index(M), j = index(N);
    const bool rowOk = i < M, colOk = j < N;
    s.label(rowOk ? 31 : 0);
    s.label(colOk ? 31 : 1);
    const int op = (int)s.draw(16);
    s.show("M", M);
    s.show("N", N);
    s.show("row", i);
    s.show("col", j);
    s.show("accessor", op);
    const T x = (T)99;
    T got = x;
    vmml::Vector<M, T> colV;
    vmml::Vector<N, T> rowV;
    vmml::Matrix<M, 1, T> colM;
    vmml::Matrix<1, N, T> rowM;
    colV = x;
    rowV = x;
    colM = x;
    rowM = x;
    bool ok = rowOk && colOk, writes = false, threw = false;
    try
    {
        switch (op)
        {
        case 0:
            got = m.at(i, j);
            break;
        case 1:
            got = c.at(i, j);
            break;
        case 2:
            got = m(i, j);
            break;
        case 3:
            got = c(i, j);
            break;
        case 4:
            got = m[i][j];
            break;
        case 5:
            writes = true;
            m.at(i, j) = x;
            break;
        case 6:
            writes = true;
            m(i, j) = x;
            break;
        case 7:
            writes = true;
            m[i][j] = x;
            break;
        case 8:
            ok = rowOk;
            c.get_row(i, rowV);
            break;
        case 9:
            ok = rowOk;
            c.get_row(i, rowM);
            break;
        case 10:
            ok = rowOk;
            writes = true;
            m.set_row(i, rowV);
            break;
        case 11:
            ok = rowOk;
            writes = true;
            m.set_row(i, rowM);
            break;
        case 12:
            ok = colOk;
            c.get_column(j, colV);
            break;
        case 13:
            ok = colOk;
            c.get_column(j, colM);
            break;
        case 14:
            ok = colOk;
            writes = true;
            m.set_column(j, colV);
            break;
        default:
            ok = colOk;
            writes = true;
            m.set_column(j, colM);
        }
    }
    catch (const std::exception& e)
    {
        threw = true;
        // the exception can be handled as any other, and says something
        s.expect(dynamic_cast<const X*>(&e) != 0, "the exception is a vmml::exception");
        s.expect(e.what() != 0 && e.what()[0] != 0, "the exception has a description");
        const std::string text = e.what();
        const X copy(dynamic_cast<const X&>(e));
        s.expect(text == copy.what(), "a copied exception has the same description");
    }
    s.same(threw, !ok, "the access is refused exactly if it lies outside");
    for (size_t k = 0; k < M * N; ++k)
    {
        const size_t r = k % M, q = k / M;
        const bool hit = writes && ok &&
                         (op <= 7 ? r == i && q == j : op <= 11 ? r == i : q == j);
        s.same(m.array[k], hit ? x : m0.array[k], "elements after the access", k);
    }
    if (ok && op <= 4)
        s.same(got, m0.array[j * M + i], "element read");
    if (op == 8 || op == 12)
    {
        // an unaccepted read delivers nothing
        if (!ok && op == 8)
            for (size_t k = 0; k < N; ++k)
                s.same(rowV.array[k], x, "target of a refused get_row", k);
        if (!ok && op == 12)
            for (size_t k = 0; k < M; ++k)
                s.same(colV.array[k], x, "target of a refused get_column", k);
    }
    // by-value row and column access
    s.same(throws<X>([&] { c.get_row(i); }), !rowOk, "get_row(i) is refused");
    s.same(throws<X>([&] { c.get_column(j); }), !colOk, "get_column(j) is refused");
}

template <size_t M, size_t N, size_t O, size_t P, class T>
void sub(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    typedef vmml::exception X;
    Mat m;
    for (size_t k = 0; k < M * N; ++k)
        m.array[k] = (T)(k + 1);
    const Mat m0 = m;
    const Mat& c = m;
    size_t a = s.draw(M + 2), b = s.draw(N + 2);
    // offsets so large that offset + size is small again
    if (s.chance(1, 8))
        a = (size_t)0 - 1 - s.draw(O + 2);
    else if (s.chance(1, 8))
        b = (size_t)0 - 1 - s.draw(P + 2);
    const bool ok = O <= M && P <= N && a <= M - O && b <= N - P;
    s.show("row offset", a);
    s.show("col offset", b);
    s.label(a > M - O ? 0 : 31);
    s.label(b > N - P ? 1 : 31);
    vmml::Matrix<O, P, T> r;
    r = (T)77;
    s.same(throws<X>([&] { c.get_sub_matrix(r, a, b); }), !ok,
           "get_sub_matrix(target) is refused exactly if the block lies outside");
    s.same(throws<X>([&] { c.template get_sub_matrix<O, P>(a, b); }), !ok,
           "get_sub_matrix() is refused exactly if the block lies outside");
    for (size_t k = 0; k < O * P; ++k)
        s.same(r.array[k], ok ? m0.array[(b + k / O) * M + a + k % O] : (T)77,
               "target of get_sub_matrix", k);
    r = (T)55;
    s.same(throws<X>([&] { m.set_sub_matrix(r, a, b); }), !ok,
           "set_sub_matrix() is refused exactly if the block lies outside");
    // nothing outside the block is written
    for (size_t k = 0; k < M * N; ++k)
    {
        const size_t i = k % M, j = k / M;
        // modulo 2^64: a block that wraps around may be noticed at its last element
        const bool in = i - a < O && j - b < P;
        if (!in)
            s.same(m.array[k], m0.array[k], "element outside the block", k);
        else if (ok)
            s.same(m.array[k], (T)55, "element inside the block", k);
        else if (a < M + 2 && b < N + 2)
            s.same(m.array[k], m0.array[k], "element after a refused set_sub_matrix()", k);
    }
    s.nontrivial(a >= M - O || b >= N - P);
}

#if PBT_PART == 0
PBT_REG("access_f44", (access<4, 4, float>), 24);
PBT_REG("access_d23", (access<2, 3, double>), 24);
PBT_REG("access_f52", (access<5, 2, float>), 24);
PBT_REG("access_i13", (access<1, 3, int>), 12);
PBT_REG("access_i31", (access<3, 1, int>), 12);
PBT_REG("sub_f44", (sub<4, 4, 2, 3, float>), 8);
PBT_REG("sub_d35", (sub<3, 5, 2, 2, double>), 8);
PBT_REG("sub_i52", (sub<5, 2, 3, 1, int>), 8);
PBT_REG("sub_f33", (sub<3, 3, 3, 3, float>), 8);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("access_1_1_double", (access<1, 1, double>), 6);
PBT_REG("access_2_2_float", (access<2, 2, float>), 6);
PBT_REG("access_3_3_double", (access<3, 3, double>), 6);
PBT_REG("access_7_3_double", (access<7, 3, double>), 6);
PBT_REG("access_3_7_float", (access<3, 7, float>), 6);
PBT_REG("access_8_8_float", (access<8, 8, float>), 6);
PBT_REG("access_16_9_int", (access<16, 9, int>), 6);
PBT_REG("access_5_17_float", (access<5, 17, float>), 6);
PBT_REG("sub_7_7_3_2_float", (sub<7, 7, 3, 2, float>), 3);
PBT_REG("sub_2_5_2_5_double", (sub<2, 5, 2, 5, double>), 3);
PBT_REG("sub_4_4_3_3_double", (sub<4, 4, 3, 3, double>), 3);
PBT_REG("sub_8_9_5_4_float", (sub<8, 9, 5, 4, float>), 3);
PBT_REG("sub_4_4_1_4_int", (sub<4, 4, 1, 4, int>), 3);
PBT_REG("sub_4_4_4_1_float", (sub<4, 4, 4, 1, float>), 3);
#endif
