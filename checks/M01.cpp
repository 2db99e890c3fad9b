// M01: a matrix behaves like an M x N array under any sequence of element,
// row, column, block and bulk accesses (model-based)
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

#include <list>

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {
    "row/column write", "sub-matrix write", "bulk set", "short range",
    "column-major set", "array-style access", "iterator write", "fill", 0};
const char* const pbt::RULE =
    "Random sequences of 1-12 writes (elements, rows, columns, sub-matrices, "
    "ranges, arrays, fills) on a matrix and on a plain M x N model, with all "
    "elements compared through a random access path after every step; "
    "non-trivial = at least two different kinds of write.";
#endif

template <size_t M, size_t N, class T>
struct Model
{
    typedef vmml::Matrix<M, N, T> Mat;
    T e[M][N];

    void compare(Src& s, Mat& m)
    {
        const Mat& c = m;
        switch (s.draw(7))
        {
        case 0:
            for (size_t i = 0; i < M; ++i)
                for (size_t j = 0; j < N; ++j)
                    s.same(c.at(i, j), e[i][j], "at(row, col)", i * N + j);
            break;
        case 1:
            for (size_t i = 0; i < M; ++i)
                for (size_t j = 0; j < N; ++j)
                    s.same(c(i, j), e[i][j], "operator()(row, col)", i * N + j);
            break;
        case 2:
            for (size_t i = 0; i < M; ++i)
                for (size_t j = 0; j < N; ++j)
                {
                    s.same(m[i][j], e[i][j], "m[row][col]", i * N + j);
                    s.same(m[(int)i][j], e[i][j], "m[int row][col]", i * N + j);
                }
            break;
        case 3:
        {
            // iteration is column by column
            size_t k = 0;
            for (typename Mat::const_iterator it = c.begin(); it != c.end(); ++it, ++k)
                s.same(*it, e[k % M][k / M], "column-major iteration", k);
            s.same(k, M * N, "length of the iteration");
            k = M * N;
            for (typename Mat::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it)
            {
                --k;
                s.same(*it, e[k % M][k / M], "reverse iteration", k);
            }
            s.same(k, 0u, "length of the reverse iteration");
            k = M * N;
            for (typename Mat::reverse_iterator it = m.rbegin(); it != m.rend(); ++it)
            {
                --k;
                s.same(*it, e[k % M][k / M], "mutable reverse iteration", k);
            }
            s.same(k, 0u, "length of the mutable reverse iteration");
            k = 0;
            for (typename Mat::iterator it = m.begin(); it != m.end(); ++it, ++k)
                s.same(*it, e[k % M][k / M], "mutable iteration", k);
            s.same(k, M * N, "length of the mutable iteration");
            break;
        }
        case 4:
            for (size_t i = 0; i < M; ++i)
            {
                vmml::Vector<N, T> v, w = c.get_row(i);
                vmml::Matrix<1, N, T> r;
                garbage(v.array, N);
                garbage(r.array, N);
                c.get_row(i, v);
                c.get_row(i, r);
                for (size_t j = 0; j < N; ++j)
                {
                    s.same(w.array[j], e[i][j], "get_row(i)", i * N + j);
                    s.same(v.array[j], e[i][j], "get_row(i, vector)", i * N + j);
                    s.same(r.at(0, j), e[i][j], "get_row(i, matrix)", i * N + j);
                }
            }
            break;
        case 5:
            for (size_t j = 0; j < N; ++j)
            {
                vmml::Vector<M, T> v, w = c.get_column(j);
                vmml::Matrix<M, 1, T> r;
                garbage(v.array, M);
                garbage(r.array, M);
                c.get_column(j, v);
                c.get_column(j, r);
                for (size_t i = 0; i < M; ++i)
                {
                    s.same(w.array[i], e[i][j], "get_column(j)", i * N + j);
                    s.same(v.array[i], e[i][j], "get_column(j, vector)", i * N + j);
                    s.same(r.at(i, 0), e[i][j], "get_column(j, matrix)", i * N + j);
                }
            }
            break;
        default:
        {
            const size_t O = M > 1 ? M - 1 : 1, P = N > 2 ? N - 2 : 1;
            const size_t a = s.draw(M - O + 1), b = s.draw(N - P + 1);
            const vmml::Matrix<O, P, T> x = c.template get_sub_matrix<O, P>(a, b);
            vmml::Matrix<O, P, T> y, z;
            garbage(y.array, O * P);
            garbage(z.array, O * P);
            c.get_sub_matrix(y, a, b);
            c.get_sub_matrix(z);
            for (size_t i = 0; i < O; ++i)
                for (size_t j = 0; j < P; ++j)
                {
                    s.same(x.at(i, j), e[a + i][b + j], "get_sub_matrix(offsets)", i * P + j);
                    s.same(y.at(i, j), e[a + i][b + j], "get_sub_matrix(target, offsets)", i * P + j);
                    s.same(z.at(i, j), e[i][j], "get_sub_matrix(target)", i * P + j);
                }
            // the rest through the storage
            for (size_t k = 0; k < M * N; ++k)
                s.same(m.array[k], e[k % M][k / M], "storage", k);
        }
        }
    }
};

template <bool SQUARE>
struct Const
{
    template <class Mat>
    static void identity(Mat& m)
    {
        m = Mat::IDENTITY;
    }
};
template <>
struct Const<false>
{
    template <class Mat>
    static void identity(Mat&)
    {
    }
};

template <size_t M, size_t N, class T>
void history(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    Gen<T> g(s, std::is_floating_point<T>::value ? 20 : FULL);
    Mat m;
    Model<M, N, T> mod;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
            mod.e[i][j] = M == N && i == j ? T(1) : T(0);
    mod.compare(s, m);
    s.same(m.size(), M * N, "size()");
    s.same(m.get_number_of_rows(), M, "get_number_of_rows()");
    s.same(m.get_number_of_columns(), N, "get_number_of_columns()");
    s.expect((size_t)Mat::ROWS == M && (size_t)Mat::COLS == N, "ROWS, COLS");
    const size_t steps = 1 + s.draw(12);
    uint32_t kinds = 0;
    for (size_t step = 0; step < steps; ++step)
    {
        const int op = (int)s.draw(19);
        kinds |= 1u << op;
        s.show("op", op);
        const size_t i = s.draw(M), j = s.draw(N);
        const T x = g();
        switch (op)
        {
        case 0:
            m.at(i, j) = x;
            mod.e[i][j] = x;
            break;
        case 1:
            m(i, j) = x;
            mod.e[i][j] = x;
            break;
        case 2:
            s.label(5);
            m[i][j] = x;
            mod.e[i][j] = x;
            break;
        case 3:
            s.label(6);
            *(m.begin() + (j * M + i)) = x;
            mod.e[i][j] = x;
            break;
        case 4:
        case 5:
        {
            s.label(0);
            vmml::Vector<N, T> v;
            vmml::Matrix<1, N, T> r;
            for (size_t k = 0; k < N; ++k)
                r.array[k] = v.array[k] = mod.e[i][k] = g();
            if (op == 4)
                m.set_row(i, v);
            else
                m.set_row(i, r);
            break;
        }
        case 6:
        case 7:
        {
            s.label(0);
            vmml::Vector<M, T> v;
            vmml::Matrix<M, 1, T> r;
            for (size_t k = 0; k < M; ++k)
                r.array[k] = v.array[k] = mod.e[k][j] = g();
            if (op == 6)
                m.set_column(j, v);
            else
                m.set_column(j, r);
            break;
        }
        case 8:
        {
            s.label(1);
            const size_t O = M > 2 ? M - 2 : 1, P = N > 1 ? N - 1 : 1;
            const size_t a = s.draw(M - O + 1), b = s.draw(N - P + 1);
            vmml::Matrix<O, P, T> sub;
            for (size_t k = 0; k < O; ++k)
                for (size_t l = 0; l < P; ++l)
                    mod.e[a + k][b + l] = sub.array[l * O + k] = g();
            if (a == 0 && b == 0)
                m.set_sub_matrix(sub);
            else
                m.set_sub_matrix(sub, a, b);
            break;
        }
        case 9:
            s.label(7);
            if (s.coin())
                m.fill(x);
            else
                m = x;
            for (size_t k = 0; k < M * N; ++k)
                mod.e[k % M][k / M] = x;
            break;
        case 10:
            s.label(7);
            m.zero();
            for (size_t k = 0; k < M * N; ++k)
                mod.e[k % M][k / M] = 0;
            break;
        case 11:
        {
            s.label(2);
            T a[M][N];
            for (size_t k = 0; k < M; ++k)
                for (size_t l = 0; l < N; ++l)
                    a[k][l] = mod.e[k][l] = g();
            const T(&ca)[M][N] = a;
            m = ca;
            break;
        }
        case 12:
        {
            s.label(2);
            T a[M * N];
            for (size_t k = 0; k < M * N; ++k)
                a[k] = mod.e[k / N][k % N] = g();
            m = (const T*)a;
            break;
        }
        case 13:
        {
            s.label(2);
            std::vector<T> a(M * N + s.draw(3));
            for (size_t k = 0; k < a.size(); ++k)
            {
                a[k] = g();
                if (k < M * N)
                    mod.e[k / N][k % N] = a[k];
            }
            m = a;
            break;
        }
        case 14:
        {
            // a std::vector that is too short is refused
            if (M * N < 2)
                break;
            std::vector<T> a(s.draw(M * N), x);
            s.expect(throws<std::exception>([&] { m = a; }),
                     "assignment from a short std::vector throws");
            break;
        }
        case 15:
        case 16:
        {
            s.label(2);
            const size_t len = s.coin() ? M * N : s.draw(M * N + 4);
            if (len < M * N)
                s.label(3);
            std::vector<T> a(len);
            const bool rowMajor = op == 15;
            if (!rowMajor)
                s.label(4);
            for (size_t k = 0; k < len; ++k)
            {
                a[k] = g();
                if (k < M * N)
                {
                    if (rowMajor)
                        mod.e[k / N][k % N] = a[k];
                    else
                        mod.e[k % M][k / M] = a[k];
                }
            }
            s.show("range", len);
            if (s.coin())
            {
                std::list<T> l(a.begin(), a.end());
                if (rowMajor && s.coin())
                    m.set(l.begin(), l.end());
                else
                    m.set(l.begin(), l.end(), rowMajor);
            }
            else
            {
                // exactly sized heap storage: an access beyond it is seen
                T* p = new T[len ? len : 1];
                std::copy(a.begin(), a.end(), p);
                const T* q = p;
                try
                {
                    m.set(q, q + len, rowMajor);
                }
                catch (...)
                {
                    delete[] p;
                    throw;
                }
                delete[] p;
            }
            break;
        }
        case 17:
        {
            Mat o;
            garbage(o.array, M * N);
            const Mat& ref = (o = m);
            s.expect(&ref == &o, "assignment returns its target");
            const Mat copy(m);
            m.at(i, j) = x; // the copies are independent
            for (size_t k = 0; k < M * N; ++k)
            {
                s.same(o.array[k], mod.e[k % M][k / M], "assigned copy", k);
                s.same(copy.array[k], mod.e[k % M][k / M], "copy constructed", k);
            }
            mod.e[i][j] = x;
            m = *&m;
            break;
        }
        default:
        {
            // IDENTITY and ZERO
            const bool id = s.coin() && M == N;
            if (id)
                Const<M == N>::identity(m);
            else
                m = Mat::ZERO;
            for (size_t k = 0; k < M; ++k)
                for (size_t l = 0; l < N; ++l)
                    mod.e[k][l] = id && k == l ? T(1) : T(0);
        }
        }
        if (s.verbose)
            s.show("m(col-major)", m.array, M * N);
        mod.compare(s, m);
    }
    s.nontrivial(__builtin_popcount(kinds) >= 2);
}

template <size_t N, class T>
void square(Src& s)
{
    Gen<T> g(s, std::is_floating_point<T>::value ? 20 : FULL);
    vmml::Matrix<N, N, T> m;
    fill(g, m.array, N * N);
    vmml::identity(m);
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
            s.same(m.at(i, j), i == j ? T(1) : T(0), "identity(m)", i * N + j);
    vmml::Vector<N, T> d;
    fill(g, d.array, N);
    fill(g, m.array, N * N);
    s.show("d", d.array, N);
    m.diag(d);
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
            s.same(m.at(i, j), i == j ? d.array[i] : T(0), "diag(v)", i * N + j);
    s.nontrivial();
}

template <size_t M, size_t N, class T, class TT = T>
void translation(Src& s)
{
    Gen<T> g(s, std::is_floating_point<T>::value ? 20 : FULL);
    vmml::Matrix<M, N, T> m;
    fill(g, m.array, M * N);
    s.show("m(col-major)", m.array, M * N);
    const vmml::Vector<N - 1, T> t = m.get_translation();
    vmml::Vector<N - 1, TT> u;
    m.get_translation(u);
    for (size_t i = 0; i + 1 < N; ++i)
    {
        s.same(t.array[i], m.at(i, N - 1), "get_translation()", i);
        s.same(u.array[i], TT(m.at(i, N - 1)), "get_translation(v)", i);
    }
    s.nontrivial();
}

#if PBT_PART == 0
PBT_REG("history_f44", (history<4, 4, float>), 12);
PBT_REG("history_d33", (history<3, 3, double>), 8);
PBT_REG("history_d23", (history<2, 3, double>), 12);
PBT_REG("history_f53", (history<5, 3, float>), 12);
PBT_REG("history_i36", (history<3, 6, int>), 8);
PBT_REG("history_i22", (history<2, 2, int>), 8);
PBT_REG("history_f14", (history<1, 4, float>), 6);
PBT_REG("history_d51", (history<5, 1, double>), 6);
PBT_REG("history_u8_34", (history<3, 4, uint8_t>), 6);
PBT_REG("translation_f34", (translation<3, 4, float, double>), 3);
PBT_REG("translation_d55", (translation<5, 5, double>), 2);
PBT_REG("translation_i63", (translation<6, 3, int, int64_t>), 2);
PBT_REG("translation_d22", (translation<2, 2, double>), 2);
PBT_REG("translation_l34", (translation<3, 4, int64_t>), 2);
PBT_REG("square_f4", (square<4, float>), 4);
PBT_REG("square_i3", (square<3, int>), 4);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("history_1_1_float", (history<1, 1, float>), 3);
PBT_REG("history_2_2_float", (history<2, 2, float>), 3);
PBT_REG("history_3_3_float", (history<3, 3, float>), 3);
PBT_REG("history_4_4_double", (history<4, 4, double>), 3);
PBT_REG("history_4_4_int", (history<4, 4, int>), 3);
PBT_REG("history_7_7_float", (history<7, 7, float>), 3);
PBT_REG("history_8_8_double", (history<8, 8, double>), 3);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("history_9_5_int", (history<9, 5, int>), 3);
PBT_REG("history_6_4_double", (history<6, 4, double>), 3);
PBT_REG("history_4_6_float", (history<4, 6, float>), 3);
PBT_REG("history_17_3_double", (history<17, 3, double>), 3);
PBT_REG("history_3_17_float", (history<3, 17, float>), 3);
PBT_REG("history_16_16_float", (history<16, 16, float>), 3);
PBT_REG("history_1_9_double", (history<1, 9, double>), 3);
PBT_REG("history_9_1_float", (history<9, 1, float>), 3);
PBT_REG("square_2_double", (square<2, double>), 2);
PBT_REG("square_3_float", (square<3, float>), 2);
PBT_REG("square_5_double", (square<5, double>), 2);
PBT_REG("square_8_float", (square<8, float>), 2);
PBT_REG("history_20_20_float", (history<20, 20, float>), 1);
PBT_REG("history_300_2_int", (history<300, 2, int>), 1);
#endif
