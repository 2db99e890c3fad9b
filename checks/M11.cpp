// M11: fills that promise a structure: DCT coefficients and random values
#include <vmmlib/matrix.hpp>
#include <vmmlib/vector.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"dct", "random with seed",
                                   "random continues a sequence", "integers", 0};
const char* const pbt::RULE =
    "DCT matrices of order 1-64 applied to random signals (orthonormality, "
    "inverse by transpose, energy, agreement with the DCT-II definition); random "
    "fills over random seeds (range, reproducibility, spread); non-trivial = the "
    "signal is not constant, or the seed is not the previous one.";
#endif

template <size_t N, class T>
void dct(Src& s)
{
    vmml::Matrix<N, N, T> d;
    garbage(d.array, N * N);
    d.set_dct();
    const LD eps = std::numeric_limits<T>::epsilon();
    const LD PI = 3.14159265358979323846264338327950288L;
    // there is nothing to vary: a few times is enough for a large one
    static int large = 0;
    for (size_t i = 0; i < N && (N <= 32 || large < 4); ++i)
        for (size_t j = 0; j < N; ++j)
        {
            LD w = 0;
            for (size_t k = 0; k < N; ++k)
                w += (LD)d.array[k * N + i] * d.array[k * N + j];
            s.within(w, i == j ? 1 : 0, 16 * N * eps, "rows of the DCT are orthonormal", i * N + j);
        }
    large += N > 32;
    Gen<T> g(s, 16, 1);
    vmml::Vector<N, T> x;
    fill(g, x.array, N);
    s.show("signal", x.array, N);
    const vmml::Vector<N, T> y = d * x;
    vmml::Matrix<N, N, T> dt;
    d.transpose_to(dt);
    const vmml::Vector<N, T> z = dt * y;
    LD mag = 0;
    for (size_t i = 0; i < N; ++i)
        mag += fabsl(x.array[i]);
    LD ex = 0, ey = 0;
    for (size_t k = 0; k < N; ++k)
    {
        LD w = 0;
        for (size_t n = 0; n < N; ++n)
            w += x.array[n] * cosl((2 * n + 1) * k * PI / (2 * N));
        w *= sqrtl((k ? 2.0L : 1.0L) / N);
        s.within(y.array[k], w, 16 * N * eps * mag, "DCT-II coefficient", k);
        s.within(z.array[k], x.array[k], 32 * N * eps * mag, "the transposed DCT restores the signal", k);
        ex += (LD)x.array[k] * x.array[k];
        ey += (LD)y.array[k] * y.array[k];
        if (x.array[k] != x.array[0])
            s.nontrivial();
    }
    s.within(ey, ex, 64 * N * eps * mag * mag, "the DCT keeps the energy");
    s.label(0);
}

template <size_t M, size_t N, class T>
void rnd(Src& s)
{
    const int seed = (int)s.range(1, 2000000000);
    s.show("seed", seed);
    const size_t L = M * N;
    vmml::Matrix<M, N, T> a, b, c, d;
    garbage(a.array, L);
    garbage(b.array, L);
    garbage(c.array, L);
    garbage(d.array, L);
    a.set_random(seed);
    b.set_random(); // goes on
    s.expect(L < 4 || !(a == b), "a second random fill differs");
    srand((unsigned)seed);
    c.set_random();
    d.set_random(-1);
    s.expect(a == c, "set_random(seed) equals srand(seed) and set_random()");
    s.expect(b == d, "the sequence after a seed is reproducible");
    // the same seed again, straight away or after other draws
    for (int k = 0; k < 2; ++k)
    {
        if (k || s.coin())
            for (size_t j = s.draw(4); j-- > 0;)
                if (s.coin())
                    rand();
                else
                    d.set_random();
        garbage(c.array, L);
        c.set_random(seed);
        s.expect(a == c, "the same seed again gives the same elements");
    }
    size_t neg = 0, pos = 0, big = 0;
    for (size_t i = 0; i < L; ++i)
    {
        s.expect(a.array[i] >= -1 && a.array[i] <= 1, "a random element is in [-1, 1]");
        neg += a.array[i] < 0;
        pos += a.array[i] > 0;
        big += fabs((double)a.array[i]) > 0.5;
    }
    if (std::is_floating_point<T>::value && L >= 64)
    {
        s.expect(neg && pos, "random elements have both signs");
        s.expect(big && big < L, "random elements have all magnitudes");
    }
    if (std::is_floating_point<T>::value && L >= 64)
    {
        std::vector<T> v(a.array, a.array + L);
        std::sort(v.begin(), v.end());
        const size_t n = std::unique(v.begin(), v.end()) - v.begin();
        s.expect(n * 10 >= L * 9, "random elements vary: most are different");
    }
    const int seed2 = (int)s.range(1, 2000000000);
    if (seed2 != seed && std::is_floating_point<T>::value && L >= 4)
    {
        c.set_random(seed2);
        s.expect(!(a == c), "another seed gives other values");
        s.nontrivial();
    }
    s.label(1);
    s.label(2);
}

template <size_t N, class T>
void rndv(Src& s)
{
    const int seed = (int)s.range(1, 2000000000);
    s.show("seed", seed);
    vmml::Vector<N, T> a, b;
    garbage(a.array, N);
    garbage(b.array, N);
    a.set_random(seed);
    srand((unsigned)seed);
    b.set_random();
    s.expect(a == b, "Vector::set_random(seed) equals srand(seed) and set_random()");
    for (int k = 0; k < 2; ++k)
    {
        if (s.coin())
            rand();
        garbage(b.array, N);
        b.set_random(seed);
        s.expect(a == b, "the same seed again gives the same components");
    }
    for (size_t i = 0; i < N; ++i)
        s.expect(a.array[i] >= -1 && a.array[i] <= 1, "a random element is in [-1, 1]");
    const int seed2 = (int)s.range(1, 2000000000);
    if (seed2 != seed && N >= 4)
    {
        b.set_random(seed2);
        s.expect(!(a == b), "another seed gives other values");
        s.nontrivial();
    }
    s.label(1);
}

#if PBT_PART == 0
PBT_REG("dct_1d", (dct<1, double>), 1);
PBT_REG("dct_2f", (dct<2, float>), 1);
PBT_REG("dct_3f", (dct<3, float>), 1);
PBT_REG("dct_4d", (dct<4, double>), 2);
PBT_REG("dct_5d", (dct<5, double>), 1);
PBT_REG("dct_8f", (dct<8, float>), 1);
PBT_REG("dct_16d", (dct<16, double>), 1);
PBT_REG("rnd_33f", (rnd<3, 3, float>), 4);
PBT_REG("rnd_88d", (rnd<8, 8, double>), 2);
PBT_REG("rnd_99f", (rnd<9, 9, float>), 2);
PBT_REG("rnd_41d", (rnd<4, 1, double>), 4);
PBT_REG("rnd_v4f", (rndv<4, float>), 4);
PBT_REG("rnd_v6d", (rndv<6, double>), 4);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("dct_1_float", (dct<1, float>), 1);
PBT_REG("dct_2_double", (dct<2, double>), 1);
PBT_REG("dct_3_double", (dct<3, double>), 1);
PBT_REG("dct_4_float", (dct<4, float>), 1);
PBT_REG("dct_6_double", (dct<6, double>), 1);
PBT_REG("dct_7_float", (dct<7, float>), 1);
PBT_REG("dct_9_double", (dct<9, double>), 1);
PBT_REG("dct_12_float", (dct<12, float>), 1);
PBT_REG("dct_32_double", (dct<32, double>), 1);
PBT_REG("rnd_1_1_double", (rnd<1, 1, double>), 1);
PBT_REG("rnd_2_5_float", (rnd<2, 5, float>), 1);
PBT_REG("rnd_4_4_double", (rnd<4, 4, double>), 1);
PBT_REG("rnd_5_2_double", (rnd<5, 2, double>), 1);
PBT_REG("rnd_8_3_float", (rnd<8, 3, float>), 1);
PBT_REG("rnd_17_4_double", (rnd<17, 4, double>), 1);
PBT_REG("rnd_3_17_float", (rnd<3, 17, float>), 1);
PBT_REG("rndv_1_float", (rndv<1, float>), 1);
PBT_REG("rndv_2_double", (rndv<2, double>), 1);
PBT_REG("rndv_3_float", (rndv<3, float>), 1);
PBT_REG("rndv_5_double", (rndv<5, double>), 1);
PBT_REG("rndv_8_float", (rndv<8, float>), 1);
PBT_REG("rndv_17_double", (rndv<17, double>), 1);
PBT_REG("rnd_1_80_double", (rnd<1, 80, double>), 1);
PBT_REG("rnd_5_70_float", (rnd<5, 70, float>), 1);
PBT_REG("rnd_300_2_double", (rnd<300, 2, double>), 1);
PBT_REG("rndv_100_float", (rndv<100, float>), 1);
PBT_REG("dct_64_double", (dct<64, double>), 1);
PBT_REG("dct_33_float", (dct<33, float>), 1);
#endif
