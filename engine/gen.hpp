// Generators and reference helpers shared by the checks.
#ifndef PBT_GEN_HPP
#define PBT_GEN_HPP

#include "pbt.hpp"

#include <algorithm>

namespace pbt
{
// Values of one case come from one profile: exact small integers, dyadics, a
// unit range, several magnitudes, boundary values or numbers found in the
// sources, with repeats and negations of earlier values mixed in.
template <class T, bool FP = std::is_floating_point<T>::value>
class Gen;

template <class T>
class Gen<T, true>
{
public:
    // lim2: exponent bound, |x| <= 2^lim2 (and >= 2^-lim2 unless zero); with a degree,
    // all values of some cases are scaled by a power of two, as far as products of so
    // many values do not overflow or underflow
    explicit Gen(Src& src, int lim2 = 24, int degree = 0) : s(src), lim(lim2), scale(0)
    {
        profile = (int)s.draw(8);
        if (degree && s.chance(1, 6))
        {
            // downwards, differences of neighbours have to remain normal, too
            const int most = std::numeric_limits<T>::max_exponent < 200 ? 118 : 480;
            const int up = std::max(0, std::min(most / degree - std::max(lim, 14), 200));
            const int down = std::max(0, up - std::numeric_limits<T>::digits);
            scale = s.coin() ? (int)s.range(0, up) : -(int)s.range(0, down);
        }
    }

    T operator()()
    {
        const T v = pick();
        if (pool.size() < 24)
            pool.push_back(v);
        return scale ? std::ldexp(v, scale) : v;
    }
    // the unit of the case: a power of two
    T unit() const { return std::ldexp(T(1), scale); }

    T positive()
    {
        T v = std::fabs((*this)());
        return v == 0 ? unit() : v;
    }
    T nonzero()
    {
        T v = (*this)();
        return v == 0 ? unit() : v;
    }

    // exact: sums and products of few values carry no rounding error
    bool exact() const { return profile == 0; }
    Src& source() { return s; }
    int profile;

private:
    T clampMag(T v)
    {
        const T hi = std::ldexp(T(1), lim), lo = std::ldexp(T(1), -lim);
        if (v > hi)
            return hi;
        if (v < -hi)
            return -hi;
        if (v != 0 && std::fabs(v) < lo)
            return v < 0 ? -lo : lo;
        return v;
    }

    T pick()
    {
        int p = profile;
        if (p != 0 && !pool.empty() && s.chance(1, 8))
        {
            const T v = pool[s.draw(pool.size())];
            switch (s.draw(5))
            {
            case 0:
            case 1:
                return -v;
            case 2:
                return std::nextafter(v, T(0));
            default:
                return v;
            }
        }
        if (p == 7)
            p = (int)s.draw(7);
        switch (p)
        {
        case 0:
            return (T)s.zigzag(8);
        case 1:
            return (T)s.zigzag(1024) / 16;
        case 2:
            return (T)(2 * s.unit53() - 1);
        case 3:
        {
            const double e = (s.unit53() * 8 - 4);
            const T v = (T)std::pow(10.0, e);
            return s.coin() ? -v : v;
        }
        case 4:
        {
            const int e = (int)s.zigzag(lim);
            const T m = (T)(1 + s.unit53());
            const T v = std::ldexp(m, e - (e == lim ? 1 : 0));
            return s.coin() ? -v : v;
        }
        case 5:
            if (!dictionary().empty())
            {
                const double d = dictionary()[s.draw(dictionary().size())];
                const T v = clampMag((T)d);
                switch (s.draw(4))
                {
                case 0:
                    return v;
                case 1:
                    return -v;
                case 2:
                    return clampMag(std::nextafter(v, T(0)));
                default:
                    return clampMag(std::nextafter(v, T(1e9)));
                }
            }
            return (T)s.zigzag(8);
        default:
        {
            static const double S[] = {0,    -0.0,  1,     -1,   2,     0.5,
                                       -0.5, 1e-3,  -1e-3, 1e-6, -1e-6, 1e-7,
                                       10,   -100., 1000., 0.1,  -0.1,  1. / 3,
                                       255,  256,   127,   128,  65535, 360};
            return clampMag((T)S[s.draw(sizeof(S) / sizeof(S[0]))]);
        }
        }
    }
    Src& s;
    int lim, scale;
    std::vector<T> pool;
};

// integers: small ones, uniform over the range, of a random number of bits, next
// to powers of two, and repeats and neighbours of earlier values
template <class T>
class Gen<T, false>
{
    typedef unsigned long long U;

public:
    // |x| <= 2^lim2 (from 0 for unsigned types), at most the largest value of T;
    // with lim2 > 64 the least value of a signed type is made as well
    explicit Gen(Src& src, int lim2 = 6, int = 0) : s(src)
    {
        const int digits = std::numeric_limits<T>::digits;
        bits = lim2 < digits ? lim2 : digits;
        hi = lim2 < digits ? U(1) << lim2 : (U)std::numeric_limits<T>::max();
        least = std::is_signed<T>::value && lim2 > 64;
        static const int P[] = {0, 0, 1, 1, 2, 3};
        profile = P[s.draw(6)];
    }
    T operator()()
    {
        T v;
        if (!pool.empty() && s.chance(1, 8))
        {
            v = pool[s.draw(pool.size())];
            if (v != 0 && s.chance(1, 3))
                v = (T)(v < 0 ? v + 1 : v - 1);
        }
        else
            v = pick();
        if (pool.size() < 24)
            pool.push_back(v);
        return v;
    }
    T nonzero()
    {
        T v = (*this)();
        return v == 0 ? T(1) : v;
    }
    // not for lim2 > 64
    T positive()
    {
        T v = (*this)();
        return v == 0 ? T(1) : v < 0 ? T(-v) : v;
    }
    bool exact() const { return true; }
    T unit() const { return T(1); }
    Src& source() { return s; }
    int profile;

private:
    T pick()
    {
        const bool neg = std::is_signed<T>::value;
        U mag;
        if (profile < 2)
        {
            const U b = profile == 0 ? std::min<U>(hi, 3) : hi;
            if (!neg)
                return (T)s.draw(b + 1);
            if (profile == 1 && s.chance(1, 12))
                return extreme();
            const U v = s.draw(2 * b + 1);
            return v & 1 ? (T)((v + 1) / 2) : (T)(-(long long)(v / 2));
        }
        if (s.chance(1, 12))
            return extreme();
        const U one = 1, k = s.draw(bits + (bits < 64));
        if (profile == 2)
            mag = s.draw(one << k);
        else
        {
            mag = (one << k) + (U)s.zigzag(1);
            if (mag > hi)
                mag = hi;
        }
        return neg && s.coin() ? (T)(-(long long)mag) : (T)mag;
    }
    T extreme()
    {
        if (!std::is_signed<T>::value)
            return (T)hi;
        if (least && s.coin())
            return std::numeric_limits<T>::min();
        return s.coin() ? (T)(-(long long)hi) : (T)hi;
    }
    Src& s;
    U hi;
    int bits;
    bool least;
    std::vector<T> pool;
};

// how many bits two integers may have for their sum (of so many terms) or product
// to be defined: arithmetic of unsigned types wraps, that of types narrower than
// int is carried out in int
const int FULL = 100;
template <class T>
bool wraps()
{
    return std::is_unsigned<T>::value && sizeof(T) >= sizeof(unsigned);
}
template <class T>
int sumBits(size_t terms)
{
    if (std::is_floating_point<T>::value)
        return 24;
    const int d = std::numeric_limits<T>::digits;
    if (wraps<T>() || sizeof(T) < sizeof(int))
        return d; // fewer than 2^15 terms of at most 16 bits
    int l = 0;
    while ((size_t(1) << l) < terms)
        ++l;
    return d - 1 - l;
}
// the bits of the two factors of a sum of so many products
template <class T>
void productBits(Src& s, size_t terms, int& a, int& b)
{
    a = b = 24;
    if (std::is_floating_point<T>::value)
        return;
    const int d = std::numeric_limits<T>::digits;
    a = b = d;
    if (wraps<T>() || d <= 8)
        return;
    int l = 0;
    while ((size_t(1) << l) < terms)
        ++l;
    const int sum = (sizeof(T) < sizeof(int) ? 31 : d) - 1 - l;
    a = std::min(d, 1 + (int)s.draw(sum - 2));
    b = std::min(d, sum - a);
}

// the next value towards zero, or a small one
template <class T>
T neighbour(T v, std::true_type)
{
    return v == 0 ? std::numeric_limits<T>::min() : std::nextafter(v, T(0));
}
template <class T>
T neighbour(T v, std::false_type)
{
    return v > 0 ? (T)(v - 1) : (T)(v + 1);
}
template <class T>
T neighbour(T v)
{
    return neighbour(v, std::is_floating_point<T>());
}

// gives values that were drawn a structure for which code may take a short cut:
// zeros, equal or sorted values, and for a square number of them the matrices that
// applications use
template <class T>
T negated(T v)
{
    return std::is_signed<T>::value && v != std::numeric_limits<T>::min() ? (T)(-v) : v;
}
template <class T>
void squarePattern(Src& s, T* p, size_t k, bool exact)
{
    const bool up = s.coin(), fp = std::is_floating_point<T>::value && !exact;
    const size_t kind = s.draw(fp ? 12 : 10);
    std::vector<T> old(p, p + k * k);
    const auto at = [&](size_t i, size_t j) -> T& { return up ? p[i * k + j] : p[j * k + i]; };
    const size_t a = s.draw(k), b = (a + 1 + s.draw(k - 1)) % k;
    if (kind >= 4 && kind != 8)
        for (size_t i = 0; i < k; ++i)
            for (size_t j = 0; j < k; ++j)
                if (kind != 9 || i != j)
                    at(i, j) = i == j ? T(1) : T(0);
    switch (kind)
    {
    case 0: // diagonal
        for (size_t i = 0; i < k * k; ++i)
            if (i % (k + 1))
                p[i] = 0;
        break;
    case 1: // triangular
        for (size_t i = 0; i < k; ++i)
            for (size_t j = 0; j < i; ++j)
                at(i, j) = 0;
        break;
    case 2: // symmetric
        for (size_t i = 0; i < k; ++i)
            for (size_t j = 0; j < i; ++j)
                at(i, j) = at(j, i);
        break;
    case 3: // affine
        for (size_t j = 0; j < k; ++j)
            at(k - 1, j) = j == k - 1 ? T(1) : T(0);
        break;
    case 4: // shear
        at(a, b) = old[0];
        break;
    case 5: // translation
    case 9: // and a scaling
        for (size_t i = 0; i + 1 < k; ++i)
            at(i, k - 1) = old[i];
        if (kind == 9)
            at(k - 1, k - 1) = 1;
        break;
    case 6: // two axes exchanged or turned
        at(a, a) = at(b, b) = 0;
        at(a, b) = 1;
        at(b, a) = s.coin() ? T(1) : negated(T(1));
        break;
    case 7: // mirrored
        at(a, a) = negated(T(1));
        if (s.coin())
            at(b, b) = at(a, a);
        break;
    case 8: // equal rows or columns
        for (size_t j = 0; j < k; ++j)
            at(a, j) = at(b, j);
        break;
    case 10: // scaled with determinant one
        at(a, a) = T(2);
        at(b, b) = T(0.5);
        break;
    case 11: // turned, maybe with an offset
        at(a, a) = at(b, b) = T(0.6);
        at(a, b) = T(0.8);
        at(b, a) = T(-0.8);
        if (s.coin() && a + 1 < k && b + 1 < k)
            at(a, k - 1) = old[0];
    }
}
template <class T>
void pattern(Src& s, T* p, size_t n, bool exact)
{
    size_t k = 1;
    while (k * k < n)
        ++k;
    if (k * k == n && k > 1 && s.chance(2, 3))
        return squarePattern(s, p, k, exact);
    const size_t at = s.draw(n);
    switch (s.draw(8))
    {
    case 0: // all the same
        for (size_t i = 0; i < n; ++i)
            p[i] = p[n - 1];
        break;
    case 1: // all zero but one
        for (size_t i = 0; i < n; ++i)
            if (i != at)
                p[i] = 0;
        break;
    case 2: // many zeros
        for (size_t i = 0; i < n; ++i)
            if (s.coin())
                p[i] = 0;
        break;
    case 3:
        std::sort(p, p + n);
        break;
    case 4:
        std::sort(p, p + n);
        std::reverse(p, p + n);
        break;
    case 5: // a tail of zeros
        for (size_t i = at; i < n; ++i)
            p[i] = 0;
        break;
    case 6: // the one cancels the other
        for (size_t i = 0; i + 1 < n; i += 2)
            p[i + 1] = negated(p[i]);
        break;
    case 7: // the same but one
        for (size_t i = 0; i < n; ++i)
            if (i != at)
                p[i] = p[at ? 0 : n - 1];
    }
}
template <class T, class G>
void fill(G& g, T* p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        p[i] = g();
    if (n > 1 && g.source().chance(1, 8))
        pattern(g.source(), p, n, g.exact());
}

// some cases have elements at the ends of the floating-point range
template <class T>
typename std::enable_if<!std::is_floating_point<T>::value>::type extreme(Src&, T*, size_t, bool = false)
{
}
template <class T>
typename std::enable_if<std::is_floating_point<T>::value>::type extreme(Src& s, T* p, size_t n,
                                                                        bool nan = false)
{
    typedef std::numeric_limits<T> L;
    if (!s.chance(1, 8))
        return;
    for (size_t i = 0; i < n; ++i)
    {
        if (s.chance(1, 2))
            continue;
        T v;
        switch (s.draw(nan ? 5 : 4))
        {
        case 0:
            v = L::infinity();
            break;
        case 1:
            v = L::max();
            break;
        case 2:
            v = L::denorm_min();
            break;
        case 3:
            v = L::min();
            break;
        default:
            v = L::quiet_NaN();
        }
        p[i] = s.coin() ? -v : v;
    }
}

// distinct recognisable values, so that an element a function forgets to write,
// or reads before writing, shows
template <class T>
void garbage(T* p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        p[i] = std::is_floating_point<T>::value ? (T)(-7777.5 - (double)i)
                                                : (T)(93 + i);
}

template <class T>
bool sameBits(const T& a, const T& b)
{
    return std::memcmp(&a, &b, sizeof(T)) == 0;
}

// an angle in radians: quarter turns, beyond a full turn, many turns, tiny,
// negative
template <class T>
T angle(Src& s)
{
    const double PI = 3.14159265358979323846;
    switch (s.draw(8))
    {
    case 7:
        return (T)(s.zigzag(16) / 4.);
    case 6:
        return (T)((2 * s.unit53() - 1) * std::pow(10., (int)s.range(1, 7)));
    case 0:
        return (T)(s.zigzag(8) * PI / 2);
    case 1:
        return (T)(s.zigzag(24) * PI / 12);
    case 2:
        return (T)((2 * s.unit53() - 1) * PI);
    case 3:
        return (T)((2 * s.unit53() - 1) * 20);
    case 4:
        return (T)((2 * s.unit53() - 1) * 1e-3);
    default:
        return (T)((2 * s.unit53() - 1) * 2);
    }
}

// a unit vector in T (unit up to rounding), never degenerate
template <class T, size_t N>
void unitVec(Src& s, T* v)
{
    LD w[N];
    if (s.chance(1, 4))
    {
        for (size_t i = 0; i < N; ++i)
            v[i] = 0;
        v[s.draw(N)] = s.coin() ? T(-1) : T(1);
        return;
    }
    LD n = 0;
    for (size_t i = 0; i < N; ++i)
    {
        w[i] = s.chance(1, 6) ? 0 : 2 * s.unit53() - 1;
        n += w[i] * w[i];
    }
    if (n < 1e-6L)
    {
        w[0] = 1;
        n = 0;
        for (size_t i = 0; i < N; ++i)
            n += w[i] * w[i];
    }
    n = sqrtl(n);
    for (size_t i = 0; i < N; ++i)
        v[i] = (T)(w[i] / n);
}

// reference 3x3 rotation by theta about the unit axis a (Rodrigues), row-major
inline void rodrigues(const LD* a, LD th, LD R[3][3])
{
    const LD c = cosl(th), s = sinl(th), t = 1 - c;
    R[0][0] = c + t * a[0] * a[0];
    R[0][1] = t * a[0] * a[1] - s * a[2];
    R[0][2] = t * a[0] * a[2] + s * a[1];
    R[1][0] = t * a[1] * a[0] + s * a[2];
    R[1][1] = c + t * a[1] * a[1];
    R[1][2] = t * a[1] * a[2] - s * a[0];
    R[2][0] = t * a[2] * a[0] - s * a[1];
    R[2][1] = t * a[2] * a[1] + s * a[0];
    R[2][2] = c + t * a[2] * a[2];
}

// a value of type U which static_cast< T > can convert, over the whole range
template <class T, class U>
U convertible(Src& s)
{
    typedef std::numeric_limits<T> LT;
    typedef std::numeric_limits<U> LU;
    if (std::is_floating_point<U>::value)
    {
        double v;
        if (std::is_floating_point<T>::value)
            switch (s.draw(3))
            {
            case 0:
                v = (double)s.zigzag(4096) / 64;
                break;
            case 1:
                v = 2 * s.unit53() - 1;
                break;
            default:
                v = std::ldexp(1 + s.unit53(), (int)s.zigzag(100));
                v = s.coin() ? v : -v;
            }
        else
        {
            const double hi =
                std::min((double)LT::max(), std::ldexp(1., 52)) / (LT::digits > 20 ? 2 : 1);
            switch (s.draw(3))
            {
            case 0:
                v = (double)s.range(0, 6400) / 64;
                break;
            case 1:
                v = s.unit53() * 2;
                break;
            default:
                v = s.unit53() * hi;
            }
            if (v > hi)
                v = hi;
            if (LT::is_signed && s.coin())
                v = -v;
        }
        return (U)v;
    }
    long long lo = LU::is_signed ? (long long)LU::min() : 0;
    long long hi = (unsigned long long)LU::max() > (1ull << 62) ? (1ll << 62)
                                                                : (long long)LU::max();
    if (!std::is_floating_point<T>::value)
    {
        lo = LT::is_signed ? std::max(lo, (long long)LT::min()) : 0;
        if ((unsigned long long)LT::max() < (1ull << 62))
            hi = std::min(hi, (long long)LT::max());
    }
    lo = std::max(lo, -(1ll << 61));
    hi = std::min(hi, 1ll << 61);
    switch (s.draw(4))
    {
    case 0:
        return (U)s.range(0, std::min(hi, 100ll));
    case 1:
        return (U)(s.coin() ? lo : hi);
    default:
        return (U)s.range(lo, hi);
    }
}

// runs f and tells whether it threw an exception of type E
template <class E, class F>
bool throws(F f)
{
    try
    {
        f();
    }
    catch (const E&)
    {
        return true;
    }
    return false;
}
} // namespace pbt
#endif
