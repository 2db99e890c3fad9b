// M10: quantization and its inverse
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"symmetric range", "range off zero",
                                   "range across zero", "saturated",
                                   "own extrema", "constant", 0};
const char* const pbt::RULE =
    "Random matrices over symmetric, one-sided and lopsided value ranges to "
    "8, 16 and 32 bit signed and unsigned integers and back; the error in "
    "quantization steps, the order of the values and saturation are checked; "
    "non-trivial = at least three different values.";
#endif

template <size_t M, size_t N, class T, class Q>
void quant(Src& s)
{
    const size_t L = M * N;
    const bool sgn = std::is_signed<Q>::value;
    const LD R = (LD)std::numeric_limits<Q>::max() - (LD)std::numeric_limits<Q>::min();
    if (s.chance(1, 16))
    {
        // all elements are the same: there is no range to divide
        const T c = (T)s.zigzag(8) * (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(s.chance(1, 6) ? 40 : 6));
        s.show("constant", c);
        s.label(5);
        vmml::Matrix<M, N, T> m, d;
        vmml::Matrix<M, N, Q> q;
        for (size_t i = 0; i < L; ++i)
            m.array[i] = c;
        garbage(q.array, L);
        garbage(d.array, L);
        T a = c * 2 + 1, b = c / 2 - 1;
        m.quantize(q, a, b);
        s.same(a, c, "minimum of a constant matrix");
        s.same(b, c, "maximum of a constant matrix");
        q.dequantize(d, a, b);
        for (size_t i = 0; i < L; ++i)
        {
            s.expect(q.array[i] == q.array[0], "equal values are quantized alike");
            s.same(d.array[i], c, "constant matrix after quantize and dequantize", i);
        }
        return;
    }
    // a range, and values in it
    T lo, hi;
    const int kind = (int)s.draw(4);
    const T width = (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(s.chance(1, 6) ? 40 : 6));
    if (kind == 0)
    {
        hi = width;
        lo = -width;
    }
    else if (kind == 1)
    {
        lo = (T)(s.unit53() * 4) * width;
        if (s.coin())
            lo = -lo - width;
        hi = lo + width;
    }
    else if (kind == 2)
    {
        lo = (T)(-s.unit53()) * width;
        hi = lo + width;
    }
    else
    {
        lo = (T)s.zigzag(8);
        hi = lo + (T)s.range(1, 8);
    }
    s.label(lo == -hi ? 0 : (lo >= 0 || hi <= 0) ? 1 : 2);
    vmml::Matrix<M, N, T> m;
    for (size_t i = 0; i < L; ++i)
    {
        switch (s.draw(6))
        {
        case 0:
            m.array[i] = lo;
            break;
        case 1:
            m.array[i] = hi;
            break;
        case 2:
            m.array[i] = lo + (hi - lo) / 2;
            break;
        default:
            m.array[i] = (T)(lo + (T)s.unit53() * (hi - lo));
            m.array[i] = std::min(hi, std::max(lo, m.array[i]));
        }
    }
    const bool own = L > 1 && s.coin();
    vmml::Matrix<M, N, Q> q;
    garbage(q.array, L);
    vmml::Matrix<M, N, T> in = m;
    bool outside = false;
    if (own)
    {
        m.array[0] = lo;
        m.array[L - 1] = hi;
        in = m;
        T a = hi, b = lo; // to be overwritten
        in.quantize(q, a, b);
        s.same(a, lo, "minimum that quantize() reports");
        s.same(b, hi, "maximum that quantize() reports");
        s.label(4);
    }
    else
    {
        if (L > 1 && s.chance(1, 3))
        {
            outside = true;
            // or far outside
            const int e = sizeof(T) < 8 ? 60 : 300;
            m.array[0] = hi + (hi - lo) * (T)(s.unit53() * (s.coin() ? 1 : std::ldexp(1., (int)s.draw(e))));
            m.array[1] = lo - (hi - lo) * (T)(s.unit53() * (s.coin() ? 1 : std::ldexp(1., (int)s.draw(e))));
            if (s.chance(1, 8))
            {
                m.array[0] = std::numeric_limits<T>::infinity();
                m.array[1] = -m.array[0];
            }
            in = m;
            s.label(3);
        }
        in.quantize_to(q, lo, hi);
    }
    s.show("m", m.array, L);
    s.show("min", lo);
    s.show("max", hi);
    s.show("quantized", q.array, L);
    s.expect(in == m, "the matrix is unchanged");
    const LD step = ((LD)hi - lo) / R;
    const LD eps = std::numeric_limits<T>::epsilon();
    const LD centre = sgn ? ((LD)lo + hi) / 2 : (LD)lo;
    size_t distinct = 0;
    for (size_t i = 0; i < L; ++i)
    {
        const LD v = std::min((LD)hi, std::max((LD)lo, (LD)m.array[i]));
        const LD exact = (v - centre) / step;
        const LD fp = 8 * eps * (fabsl(v) + fabsl(lo) + fabsl(hi)) / step;
        s.within(q.array[i], exact, (sgn ? 1.5L : 0.5L) + fp + 1e-6L, "quantized value", i);
        for (size_t j = 0; j < i; ++j)
        {
            if (m.array[i] > m.array[j])
                s.expect(q.array[i] >= q.array[j], "quantization keeps the order");
            if (m.array[i] == m.array[j])
                s.expect(q.array[i] == q.array[j], "equal values are quantized alike");
        }
        bool seen = false;
        for (size_t j = 0; j < i; ++j)
            seen = seen || m.array[j] == m.array[i];
        distinct += !seen;
    }
    vmml::Matrix<M, N, T> d;
    garbage(d.array, L);
    const vmml::Matrix<M, N, Q> q0 = q;
    q.dequantize(d, lo, hi);
    s.expect(q == q0, "the quantized matrix is unchanged");
    for (size_t i = 0; i < L; ++i)
    {
        const LD v = std::min((LD)hi, std::max((LD)lo, (LD)m.array[i]));
        const LD fp = 8 * eps * (fabsl(v) + fabsl(lo) + fabsl(hi));
        s.within(d.array[i], v, (sgn ? 1.5L : 0.5L) * step * (1 + 1e-6L) + 2 * fp,
                 "value after quantize and dequantize", i);
        s.expect(d.array[i] >= lo && d.array[i] <= hi, "a dequantized value is in the range");
        (void)outside;
    }
    // any quantized value maps back linearly
    vmml::Matrix<M, N, Q> any;
    for (size_t i = 0; i < L; ++i)
        any.array[i] = (Q)((long long)std::numeric_limits<Q>::min() +
                           (long long)s.draw((uint64_t)R + 1));
    s.show("any", any.array, L);
    any.dequantize(d, lo, hi);
    for (size_t i = 0; i < L; ++i)
    {
        const LD w = std::min((LD)hi, std::max((LD)lo, centre + any.array[i] * step));
        s.within(d.array[i], w, 8 * eps * (fabsl(lo) + fabsl(hi)), "dequantized value", i);
    }
    s.nontrivial(distinct >= 3);
}

#if PBT_PART == 0
PBT_REG("f_u8", (quant<3, 4, float, unsigned char>));
PBT_REG("f_i8", (quant<3, 4, float, signed char>));
PBT_REG("f_c", (quant<4, 3, float, char>));
PBT_REG("d_u8", (quant<2, 2, double, unsigned char>));
PBT_REG("d_i8", (quant<2, 3, double, signed char>));
PBT_REG("f_u16", (quant<3, 3, float, unsigned short>));
PBT_REG("f_i16", (quant<3, 3, float, short>));
PBT_REG("d_u16", (quant<1, 5, double, unsigned short>));
PBT_REG("d_i16", (quant<5, 1, double, short>));
PBT_REG("d_i32", (quant<2, 2, double, int>));
PBT_REG("d_u32", (quant<2, 2, double, unsigned int>));
#elif PBT_PART == 1 // further shapes and types
PBT_REG("quant_1_1_float_unsigned_char", (quant<1, 1, float, unsigned char>), 4);
PBT_REG("quant_4_4_float_unsigned_char", (quant<4, 4, float, unsigned char>), 4);
PBT_REG("quant_4_4_double_signed_char", (quant<4, 4, double, signed char>), 4);
PBT_REG("quant_7_5_float_unsigned_short", (quant<7, 5, float, unsigned short>), 4);
PBT_REG("quant_5_7_double_short", (quant<5, 7, double, short>), 4);
PBT_REG("quant_8_8_float_char", (quant<8, 8, float, char>), 4);
PBT_REG("quant_9_3_double_unsigned_char", (quant<9, 3, double, unsigned char>), 4);
PBT_REG("quant_3_17_float_short", (quant<3, 17, float, short>), 4);
#endif
