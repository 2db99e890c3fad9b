// A small choice-sequence property-testing engine (in the manner of Hypothesis):
// every random decision of a property goes through Src::draw(), is recorded, and
// a failing case is shrunk by editing the recorded choice sequence.  The same
// property bodies are driven by (a) a seeded pseudo-random generator, (b) the
// recorded choices of a replay file and (c) libFuzzer's bytes (-DPBT_FUZZ).
#ifndef PBT_HPP
#define PBT_HPP

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt
{
typedef long double LD;

struct Failure
{
    std::string what;
};

inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

template <class T>
struct is_num
{
    static const bool value = std::is_arithmetic<T>::value;
};

template <class T>
inline void put(std::ostream& os, const T& v)
{
    if (std::is_integral<T>::value)
        os << (long long)v;
    else
    {
        os.precision(std::numeric_limits<T>::max_digits10);
        os << v;
    }
}

class Src
{
public:
    enum Mode
    {
        RANDOM,
        REPLAY,
        BYTES
    };

    Src()
        : verbose(false), tap(0), mode(RANDOM), nontriv(false), labels(0),
          mirror(0), mirrorCap(0)
    {
    }

    void startRandom(uint64_t seed)
    {
        mode = RANDOM;
        state = seed;
        reset();
    }
    void startReplay(const std::vector<uint64_t>& c)
    {
        mode = REPLAY;
        replay = c;
        pos = 0;
        reset();
    }
    void startBytes(const uint8_t* d, size_t n)
    {
        mode = BYTES;
        data = d;
        size = n;
        pos = 0;
        reset();
    }

    // uniform in [0, n); n == 0 means the full 64 bit range
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if (mode == RANDOM)
        {
            state += 0x9e3779b97f4a7c15ull;
            uint64_t z = state;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            z ^= z >> 31;
            v = n == 0 ? z : (uint64_t)(((unsigned __int128)z * n) >> 64);
        }
        else if (mode == REPLAY)
        {
            v = pos < replay.size() ? replay[pos] : 0;
            ++pos;
            if (n != 0 && v >= n)
                v = n - 1;
        }
        else
        {
            v = 0;
            uint64_t m = n == 0 ? ~0ull : n - 1;
            while (m)
            {
                v = v << 8 | (pos < size ? data[pos] : 0);
                ++pos;
                m >>= 8;
            }
            if (n != 0)
                v %= n;
        }
        choices.push_back(v);
        if (mirror && choices.size() <= mirrorCap)
        {
            mirror[8 + choices.size() - 1] = v;
            mirror[0] = choices.size();
        }
        return v;
    }

    bool coin() { return draw(2) != 0; }
    // true with probability num/den; shrinks to false
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
    // integer in [lo, hi], shrinks towards lo
    long long range(long long lo, long long hi)
    {
        return lo + (long long)draw((uint64_t)(hi - lo) + 1);
    }
    // integer in [-b, b], shrinks towards 0
    long long zigzag(long long b)
    {
        const uint64_t v = draw(2 * (uint64_t)b + 1);
        return (v & 1) ? -(long long)((v + 1) / 2) : (long long)(v / 2);
    }
    double unit53() { return (double)draw(1ull << 53) / 9007199254740992.0; }

    void nontrivial() { nontriv = true; }
    void nontrivial(bool b)
    {
        if (b)
            nontriv = true;
    }
    // labels 0..31 are named by the check with PBT_LABELS
    void label(unsigned i) { labels |= 1u << i; }

    bool verbose;
    std::ostringstream log;

    // A "tap" sees every value that a property checks: used by the differential
    // configuration check, which compares the results of two builds bit by bit.
    uint64_t* tap;

    template <class T>
    void observe(const T& v)
    {
        if (!tap)
            return;
        unsigned char b[sizeof(T)];
        std::memcpy(b, &v, sizeof(T));
        uint64_t h = *tap;
        for (size_t i = 0; i < sizeof(T) && i < 10; ++i)
            h = (h ^ b[i]) * 0x100000001b3ull;
        *tap = h;
    }

    template <class T>
    void show(const char* name, const T* v, size_t n)
    {
        if (!verbose)
            return;
        log << name << "=[";
        for (size_t i = 0; i < n; ++i)
        {
            if (i)
                log << ' ';
            put(log, v[i]);
        }
        log << "] ";
    }
    template <class T>
    typename std::enable_if<is_num<T>::value>::type show(const char* name,
                                                         const T& v)
    {
        if (!verbose)
            return;
        log << name << '=';
        put(log, v);
        log << ' ';
    }
    void show(const char* name, const std::string& v)
    {
        if (verbose)
            log << name << "=\"" << v << "\" ";
    }

    void fail(const std::string& what) { throw Failure{what}; }

    void expect(bool ok, const char* what)
    {
        if (!ok)
            throw Failure{what};
    }

    template <class A, class B>
    void same(const A& got, const B& want, const char* what, size_t idx = 0)
    {
        observe(got);
        if (got == (A)want)
            return;
        if (got != got && want != want)
            return; // both NaN
        std::ostringstream os;
        os << what << " [" << idx << "]: got ";
        put(os, got);
        os << ", expected ";
        put(os, want);
        throw Failure{os.str()};
    }

    // |got - want| <= k * eps(T) * mag + tiny.  mag is the sum of the magnitudes
    // of the terms that make up the result (the standard rounding-error bound).
    template <class T>
    void near(const T& got, LD want, LD mag, LD k, const char* what,
              size_t idx = 0)
    {
        observe(got);
        const LD tol =
            k * (LD)std::numeric_limits<T>::epsilon() * fabsl(mag) +
            (std::is_floating_point<T>::value
                 ? 64 * (LD)std::numeric_limits<T>::min()
                 : (LD)0);
        const LD d = fabsl((LD)got - want);
        if (d <= tol)
            return;
        std::ostringstream os;
        os.precision(12);
        os << what << " [" << idx << "]: got ";
        put(os, got);
        os << ", expected ";
        put(os, want);
        os << " (difference " << (double)d << ", tolerance " << (double)tol
           << ")";
        throw Failure{os.str()};
    }
    // absolute tolerance
    template <class T>
    void within(const T& got, LD want, LD tol, const char* what, size_t idx = 0)
    {
        observe(got);
        const LD d = fabsl((LD)got - want);
        if (d <= tol)
            return;
        std::ostringstream os;
        os.precision(12);
        os << what << " [" << idx << "]: got ";
        put(os, got);
        os << ", expected ";
        put(os, want);
        os << " (difference " << (double)d << ", tolerance " << (double)tol
           << ")";
        throw Failure{os.str()};
    }

    std::vector<uint64_t> choices;
    Mode mode;
    bool nontriv;
    uint32_t labels;
    // shared memory that survives a crash of the case
    volatile uint64_t* mirror;
    size_t mirrorCap;

private:
    void reset()
    {
        choices.clear();
        nontriv = false;
        labels = 0;
        if (verbose)
            log.str("");
    }
    uint64_t state;
    std::vector<uint64_t> replay;
    const uint8_t* data;
    size_t size;
    size_t pos;
};

typedef void (*Prop)(Src&);

struct Sub
{
    std::string name;
    Prop fn;
    unsigned weight; // cases per round
};

std::vector<Sub>& registry();

struct Reg
{
    Reg(const std::string& n, Prop f, unsigned w = 16)
    {
        Sub s;
        s.name = n;
        s.fn = f;
        s.weight = w;
        registry().push_back(s);
    }
};

// numbers that occur as literals in the sources under test (a fuzzing
// dictionary), given to the run with --dict
std::vector<double>& dictionary();

extern const char* const LABELS[]; // null-terminated, defined by each check
extern const char* const RULE;     // the non-triviality rule, in words

} // namespace pbt

// the part of the instantiations that this translation unit holds
#ifndef PBT_PART
#define PBT_PART 0
#endif

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_REG(name, ...)                                                     \
    static pbt::Reg PBT_CAT(pbt_reg_, __COUNTER__)(name, __VA_ARGS__)

#endif
