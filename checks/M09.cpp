// M09: convolution with extended borders
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"non-square matrix", "non-square kernel",
                                   "kernel larger than the matrix",
                                   "even kernel", "impulse kernel", 0};
const char* const pbt::RULE =
    "Random matrices and kernels of square and non-square, odd, even and "
    "oversized shapes against the definition (the kernel slid over the matrix, "
    "border elements repeated outwards); non-trivial = at least two different "
    "entries in both.";
#endif

template <class T>
bool rich(const T* a, size_t n)
{
    for (size_t i = 1; i < n; ++i)
        if (a[i] != a[0])
            return true;
    return n == 1 && a[0] != 0;
}

template <size_t M, size_t N, size_t U, size_t V, class T>
void conv(Src& s)
{
    int bitsM, bitsK;
    productBits<T>(s, U * V, bitsM, bitsK);
    if (std::is_floating_point<T>::value)
        bitsM = bitsK = 16;
    Gen<T> g(s, bitsM, 2), h(s, bitsK, 2);
    vmml::Matrix<M, N, T> m;
    vmml::Matrix<U, V, T> k;
    fill(g, m.array, M * N);
    if (s.chance(1, 5))
    {
        k = T(0);
        k.array[s.draw(U * V)] = 1;
        s.label(4);
    }
    else
        fill(std::is_floating_point<T>::value && s.coin() ? g : h, k.array, U * V);
    s.show("m(col-major)", m.array, M * N);
    s.show("kernel(col-major)", k.array, U * V);
    const vmml::Matrix<M, N, T> m0 = m;
    const vmml::Matrix<U, V, T> k0 = k;
    m.convolve(k);
    const LD deps = std::numeric_limits<double>::epsilon();
    const LD teps = std::is_floating_point<T>::value ? (LD)std::numeric_limits<T>::epsilon() : 0;
    for (long y = 0; y < (long)M; ++y)
        for (long x = 0; x < (long)N; ++x)
        {
            LD w = 0, mag = 0;
            for (long j = 0; j < (long)U; ++j)
                for (long i = 0; i < (long)V; ++i)
                {
                    const long sy = std::min(std::max(y - (long)U / 2 + j, 0l), (long)M - 1);
                    const long sx = std::min(std::max(x - (long)V / 2 + i, 0l), (long)N - 1);
                    const LD t = (LD)k0.array[i * U + j] * m0.array[sx * M + sy];
                    w += t;
                    mag += fabsl(t);
                }
            s.within(m.array[x * M + y], w,
                     (deps * (U * V + 2) + 2 * teps) * mag +
                         (std::is_floating_point<T>::value ? 64 * (LD)std::numeric_limits<T>::min() : 0),
                     "convolve()", y * N + x);
        }
    s.expect(k == k0, "the kernel is unchanged");
    if (M != N)
        s.label(0);
    if (U != V)
        s.label(1);
    if (U > M || V > N)
        s.label(2);
    if (U % 2 == 0 || V % 2 == 0)
        s.label(3);
    s.nontrivial(rich(m0.array, M * N) && rich(k0.array, U * V));
}

#if PBT_PART == 0
PBT_REG("44_33i", (conv<4, 4, 3, 3, int>));
PBT_REG("44_33f", (conv<4, 4, 3, 3, float>));
PBT_REG("66_55d", (conv<6, 6, 5, 5, double>), 8);
PBT_REG("55_22f", (conv<5, 5, 2, 2, float>), 8);
PBT_REG("55_44i", (conv<5, 5, 4, 4, int>), 8);
PBT_REG("33_55i", (conv<3, 3, 5, 5, int>), 8);
PBT_REG("35_33i", (conv<3, 5, 3, 3, int>));
PBT_REG("62_33d", (conv<6, 2, 3, 3, double>));
PBT_REG("44_13i", (conv<4, 4, 1, 3, int>));
PBT_REG("55_31f", (conv<5, 5, 3, 1, float>));
PBT_REG("46_25i", (conv<4, 6, 2, 5, int>), 8);
PBT_REG("17_15d", (conv<1, 7, 1, 5, double>), 8);
PBT_REG("11_11f", (conv<1, 1, 1, 1, float>), 1);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("conv_2_2_1_1_float", (conv<2, 2, 1, 1, float>), 3);
PBT_REG("conv_3_3_3_3_double", (conv<3, 3, 3, 3, double>), 3);
PBT_REG("conv_4_4_2_2_int", (conv<4, 4, 2, 2, int>), 3);
PBT_REG("conv_7_7_3_3_float", (conv<7, 7, 3, 3, float>), 3);
PBT_REG("conv_8_8_5_5_int", (conv<8, 8, 5, 5, int>), 3);
PBT_REG("conv_9_4_3_5_double", (conv<9, 4, 3, 5, double>), 3);
PBT_REG("conv_5_9_7_3_int", (conv<5, 9, 7, 3, int>), 3);
PBT_REG("conv_6_6_4_3_float", (conv<6, 6, 4, 3, float>), 3);
PBT_REG("conv_2_7_3_4_double", (conv<2, 7, 3, 4, double>), 3);
PBT_REG("conv_8_3_1_7_int", (conv<8, 3, 1, 7, int>), 3);
PBT_REG("conv_3_8_7_1_float", (conv<3, 8, 7, 1, float>), 3);
PBT_REG("conv_16_16_3_3_int", (conv<16, 16, 3, 3, int>), 3);
#endif
