// M03: element-wise and scalar arithmetic of matrices
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"self operand", "own element as scalar",
                                   "negation", "division", "non-square",
                                   "infinities and NaN", 0};
const char* const pbt::RULE =
    "Random matrices (square and not, several element types and value "
    "profiles) through every element-wise operator and form, including a matrix "
    "as its own operand, against plain loops; non-trivial = the operands are not "
    "constant and the result is not all zero.";
#endif

template <size_t M, size_t N, class T>
void ops(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    const size_t L = M * N;
    const int op = (int)s.draw(21);
    // as many bits as the operation leaves defined
    int bitsA = sumBits<T>(2), bitsB = bitsA;
    if (op == 6 || op == 7 || op == 10 || op == 14 || op == 18)
    {
        productBits<T>(s, 1, bitsA, bitsB);
        if (op == 14 || op == 18)
            bitsA = bitsB = std::min(bitsA, bitsB);
    }
    else if (!std::is_floating_point<T>::value && (op == 8 || op == 9 || op == 15 || op == 11 || op == 12))
        bitsA = bitsB = std::numeric_limits<T>::digits;
    Gen<T> g(s, bitsA, 2), h(s, bitsB, 2);
    Mat a, b, r;
    fill(g, a.array, L);
    fill(std::is_floating_point<T>::value && s.coin() ? g : h, b.array, L);
    garbage(r.array, L);
    T k = h();
    const size_t at = s.draw(L);
    if (std::is_floating_point<T>::value && s.chance(1, 12))
    {
        // the element type has results for these, too
        const T SP[] = {std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                        std::numeric_limits<T>::quiet_NaN(), 0};
        for (size_t i = 0; i < L; ++i)
        {
            if (s.chance(1, 4))
                a.array[i] = SP[s.draw(4)];
            if (s.chance(1, 4))
                b.array[i] = SP[s.draw(4)];
        }
        if (s.chance(1, 3))
            k = SP[s.draw(4)];
        s.label(5);
    }
    const Mat b0 = b;
    s.show("op", op);
    s.show("a(col-major)", a.array, L);
    s.show("b(col-major)", b.array, L);
    if (M != N)
        s.label(4);
    if (op == 8 || op == 9 || op == 15)
    {
        if (op == 15)
        {
            if (a.array[at] == 0)
                a.array[at] = 1;
        }
        else if (k == 0)
            k = 1;
        s.label(3);
    }
    const Mat a1 = a;
    s.show("k", k);
    T want[L];
#define EACH(expr)                                                             \
    for (size_t i = 0; i < L; ++i)                                             \
    {                                                                          \
        const T x = a1.array[i], y = b0.array[i];                              \
        (void)x;                                                               \
        (void)y;                                                               \
        want[i] = (T)(expr);                                                   \
    }
    bool inPlace = false;
    switch (op)
    {
    case 0:
        EACH(x + y) r = a + b;
        break;
    case 1:
        EACH(x - y) r = a - b;
        break;
    case 2:
        EACH(x + y) a += b;
        inPlace = true;
        break;
    case 3:
        EACH(x - y) a -= b;
        inPlace = true;
        break;
    case 4:
        EACH(x + k) a += k;
        inPlace = true;
        break;
    case 5:
        EACH(x - k) a -= k;
        inPlace = true;
        break;
    case 6:
        EACH(x * k) r = a * k;
        break;
    case 7:
        EACH(x * k) a *= k;
        inPlace = true;
        break;
    case 8:
        EACH(x / k) r = a / k;
        break;
    case 9:
        EACH(x / k) a /= k;
        inPlace = true;
        break;
    case 10:
        EACH(x * y) a.multiply_piecewise(b);
        inPlace = true;
        break;
    case 11:
        s.label(2);
        EACH(-x) r = -a;
        break;
    case 12:
        s.label(2);
        EACH(-x) r = a.negate();
        break;
    case 13:
        s.label(1);
        EACH(x + a1.array[at]) a += a.array[at];
        inPlace = true;
        break;
    case 14:
        s.label(1);
        EACH(x * a1.array[at]) a *= a.array[at];
        inPlace = true;
        break;
    case 15:
        s.label(1);
        EACH(x / a1.array[at]) a /= a.array[at];
        inPlace = true;
        break;
    case 16:
        s.label(0);
        EACH(x + x) a += a;
        inPlace = true;
        break;
    case 17:
        s.label(0);
        EACH(x - x) a -= a;
        inPlace = true;
        break;
    case 18:
        s.label(0);
        EACH(x * x) a.multiply_piecewise(a);
        inPlace = true;
        break;
    case 19:
        s.label(1);
        EACH(x - a1.array[at]) a -= a.array[at];
        inPlace = true;
        break;
    default:
        s.label(0);
        EACH(x + x) r = a + a;
    }
    const T* got = inPlace ? a.array : r.array;
    bool rich = false, nz = false;
    for (size_t i = 0; i < L; ++i)
    {
        if (std::is_floating_point<T>::value && std::isfinite((double)want[i]))
            s.near(got[i], (LD)want[i], (LD)want[i], 2, "element", i);
        else
            s.same(got[i], want[i], "element", i);
        rich = rich || a1.array[i] != a1.array[0];
        nz = nz || want[i] != 0;
        if (!inPlace)
            s.same(a.array[i], a1.array[i], "left operand unchanged", i);
        s.same(b.array[i], b0.array[i], "right operand unchanged", i);
    }
    s.nontrivial((rich || L == 1) && nz);
}

#if PBT_PART == 0
PBT_REG("f44", (ops<4, 4, float>), 32);
PBT_REG("f33", (ops<3, 3, float>));
PBT_REG("d22", (ops<2, 2, double>));
PBT_REG("d44", (ops<4, 4, double>));
PBT_REG("f23", (ops<2, 3, float>));
PBT_REG("d52", (ops<5, 2, double>));
PBT_REG("d17", (ops<1, 7, double>));
PBT_REG("i33", (ops<3, 3, int>));
PBT_REG("i24", (ops<2, 4, int>));
#elif PBT_PART == 1 // further shapes and types
PBT_REG("ops_1_1_double", (ops<1, 1, double>), 4);
PBT_REG("ops_2_2_float", (ops<2, 2, float>), 4);
PBT_REG("ops_3_3_double", (ops<3, 3, double>), 4);
PBT_REG("ops_3_4_float", (ops<3, 4, float>), 4);
PBT_REG("ops_4_3_double", (ops<4, 3, double>), 4);
PBT_REG("ops_5_5_float", (ops<5, 5, float>), 4);
PBT_REG("ops_4_4_int", (ops<4, 4, int>), 4);
PBT_REG("ops_2_2_unsigned", (ops<2, 2, unsigned>), 4);
PBT_REG("ops_3_3_int64", (ops<3, 3, int64_t>), 4);
PBT_REG("ops_2_5_uint64", (ops<2, 5, uint64_t>), 4);
PBT_REG("ops_4_4_uint8", (ops<4, 4, uint8_t>), 4);
PBT_REG("ops_3_2_int16", (ops<3, 2, int16_t>), 4);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("ops_6_6_double", (ops<6, 6, double>), 3);
PBT_REG("ops_7_3_int", (ops<7, 3, int>), 3);
PBT_REG("ops_8_8_float", (ops<8, 8, float>), 3);
PBT_REG("ops_9_2_double", (ops<9, 2, double>), 3);
PBT_REG("ops_2_9_float", (ops<2, 9, float>), 3);
PBT_REG("ops_16_16_float", (ops<16, 16, float>), 3);
PBT_REG("ops_17_5_double", (ops<17, 5, double>), 3);
PBT_REG("ops_3_33_float", (ops<3, 33, float>), 3);
PBT_REG("ops_17_17_float", (ops<17, 17, float>), 1);
PBT_REG("ops_2_300_int", (ops<2, 300, int>), 1);
#endif
