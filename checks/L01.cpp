// L01: low-pass filter
#include <vmmlib/lowpass_filter.hpp>
#include <vmmlib/vector.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"window not full", "window full", "factor changed",
                                   "factor 0", "factor 1", "integer", "constant input", 0};
const char* const pbt::RULE =
    "Random histories of added values and factor changes against a model with the "
    "whole history; non-trivial = more values than the window and a factor "
    "strictly between 0 and 1.";
#endif

// value <- newest; for each older value in the window, from new to old,
// value <- value (1 - F^k) + old F^k
inline LD model(const std::vector<LD>& h, size_t window, float F, LD& mag)
{
    const size_t n = h.size();
    LD v = h[n - 1], w = F;
    mag = fabsl(v);
    for (size_t k = 1; k < window && k < n; ++k)
    {
        mag = mag + fabsl(h[n - 1 - k]) * w;
        v = v * (1 - w) + h[n - 1 - k] * w;
        w *= F;
    }
    return v;
}

inline float factor(Src& s)
{
    switch (s.draw(6))
    {
    case 0:
        s.label(3);
        return 0;
    case 1:
        s.label(4);
        return 1;
    case 2:
        return 0.5f;
    default:
        return (float)s.unit53();
    }
}

template <size_t M, class T>
void scalar(Src& s)
{
    float F = factor(s);
    s.show("window", (int)M);
    s.show("F", F);
    vmml::LowpassFilter<M, T> f(F);
    Gen<T> g(s, 12, 1);
    std::vector<LD> h;
    const bool constant = s.chance(1, 8);
    const T cst = g();
    const int n = (int)s.range(1, s.chance(1, 4) ? 2 * M + 20 : 20);
    for (int i = 0; i < n; ++i)
    {
        if (s.chance(1, 8))
        {
            F = factor(s);
            s.show("set F", F);
            const T before = h.empty() ? T() : f.get();
            f.set_smooth_factor(F);
            if (!h.empty())
                s.same(f.get(), before, "a new factor does not change the value");
            s.label(2);
        }
        const bool fed = !constant && !h.empty() && s.chance(1, 8);
        // also the filter's own value, fed back to it
        const T x = fed ? f.get() : constant ? cst : g();
        s.show("add", x);
        h.push_back(x);
        const T r = fed ? f.add(s.coin() ? f.get() : *f) : f.add(x);
        LD mag;
        const LD w = model(h, M, F, mag);
        s.near(r, w, mag, 8 * (LD)M + 8, "add()");
        const vmml::LowpassFilter<M, T>& c = f;
        s.same(c.get(), r, "get()");
        s.same(*c, r, "operator*()");
        s.same(*c.operator->(), r, "operator->()");
        LD lo = h.back(), hi = lo;
        for (size_t k = 0; k < M && k < h.size(); ++k)
        {
            lo = std::min(lo, h[h.size() - 1 - k]);
            hi = std::max(hi, h[h.size() - 1 - k]);
        }
        const LD tol = (8 * (LD)M + 8) * std::numeric_limits<T>::epsilon() * std::max(fabsl(lo), fabsl(hi));
        s.expect((LD)r >= lo - tol && (LD)r <= hi + tol,
                 "the value is between the smallest and largest of the window");
        s.label(h.size() > M ? 1 : 0);
        if (constant)
            s.label(6);
        s.nontrivial(h.size() > M && F > 0 && F < 1);
    }
}

template <size_t M, class T>
void vec(Src& s)
{
    typedef vmml::Vector<3, T> V;
    float F = factor(s);
    s.show("window", (int)M);
    s.show("F", F);
    vmml::LowpassFilter<M, V> f(F);
    Gen<T> g(s, 12, 1);
    std::vector<LD> h[3];
    const int n = (int)s.range(1, s.chance(1, 4) ? 2 * M + 12 : 12);
    for (int i = 0; i < n; ++i)
    {
        if (s.chance(1, 8))
        {
            F = factor(s);
            s.show("set F", F);
            f.set_smooth_factor(F);
            s.label(2);
        }
        T x[3];
        fill(g, x, 3);
        const bool fed = i > 0 && s.chance(1, 8);
        if (fed)
            for (int k = 0; k < 3; ++k)
                x[k] = f->array[k];
        s.show("add", x, 3);
        const V r = fed ? f.add(s.coin() ? f.get() : *f) : f.add(V(x[0], x[1], x[2]));
        for (int k = 0; k < 3; ++k)
        {
            h[k].push_back(x[k]);
            LD mag;
            const LD w = model(h[k], M, F, mag);
            s.near(r.array[k], w, mag, 12 * (LD)M + 8, "add()", k);
            s.same(f.get().array[k], r.array[k], "get()", k);
            s.same(f->array[k], r.array[k], "operator->()", k);
        }
        s.label(h[0].size() > M ? 1 : 0);
        s.nontrivial(h[0].size() > M && F > 0 && F < 1);
    }
}

#if PBT_PART == 0
PBT_REG("scalar_1_f", (scalar<1, float>), 4);
PBT_REG("scalar_2_f", (scalar<2, float>), 8);
PBT_REG("scalar_5_f", (scalar<5, float>), 8);
PBT_REG("scalar_3_d", (scalar<3, double>), 8);
PBT_REG("scalar_10_d", (scalar<10, double>), 8);
PBT_REG("vec_4_f", (vec<4, float>), 8);
PBT_REG("vec_3_d", (vec<3, double>), 8);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("scalar_3_float", (scalar<3, float>), 4);
PBT_REG("scalar_4_float", (scalar<4, float>), 4);
PBT_REG("scalar_7_double", (scalar<7, double>), 4);
PBT_REG("scalar_8_float", (scalar<8, float>), 4);
PBT_REG("scalar_16_double", (scalar<16, double>), 4);
PBT_REG("scalar_33_float", (scalar<33, float>), 4);
PBT_REG("scalar_1_double", (scalar<1, double>), 4);
PBT_REG("vec_1_float", (vec<1, float>), 4);
PBT_REG("vec_2_double", (vec<2, double>), 4);
PBT_REG("vec_3_float", (vec<3, float>), 4);
PBT_REG("vec_4_double", (vec<4, double>), 4);
PBT_REG("vec_5_float", (vec<5, float>), 4);
PBT_REG("vec_8_double", (vec<8, double>), 4);
#endif
