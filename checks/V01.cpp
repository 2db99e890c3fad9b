// V01: vector arithmetic is component-wise
#include <vmmlib/vector.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"self operand", "element of the target as operand",
                                   "division", "chained expression", "integer",
                                   0};
const char* const pbt::RULE =
    "Random vectors (profiles: exact small integers, dyadics, unit range, wide "
    "magnitudes, boundary and source-literal values, repeats) and one of the "
    "arithmetic operators in a random form; non-trivial = at least two operand "
    "components differ and the result is not all zero.";
#endif

template <size_t M, class T>
void ops(Src& s)
{
    typedef vmml::Vector<M, T> V;
    if (!std::is_floating_point<T>::value)
        s.label(4);
    const int op = (int)s.draw(4);
    // 0 binary, 1 compound, 2 scalar, 3 compound scalar, 4 T*v,
    // 5 compound with itself, 6 compound with an own element, 7 negation,
    // 8 chained expression, 9 binary with itself
    const int form = (int)s.draw(10);
    // as many bits as the operation leaves defined
    int bitsA = sumBits<T>(2), bitsB = bitsA;
    if (form == 8)
        productBits<T>(s, 4, bitsA, bitsB);
    else if (form == 4 || (op == 2 && form != 7))
    {
        productBits<T>(s, 1, bitsA, bitsB);
        if (form == 5 || form == 6 || form == 9)
            bitsA = bitsB = std::min(bitsA, bitsB);
    }
    else if ((op == 3 || form == 7) && !std::is_floating_point<T>::value)
        bitsA = bitsB = std::numeric_limits<T>::digits;
    Gen<T> g(s, bitsA, 2), h(s, bitsB, 2);
    T a[M], b[M], want[M];
    fill(g, a, M);
    for (size_t i = 0; i < M; ++i)
        b[i] = form == 8                                            ? g()
               : op == 3                                            ? h.nonzero()
               : std::is_floating_point<T>::value && s.chance(1, 2) ? g()
                                                                    : h();
    T k = op == 3 ? h.nonzero() : h();
    if (op == 3 && (form == 5 || form == 6 || form == 9))
        for (size_t i = 0; i < M; ++i)
            a[i] = a[i] == 0 ? T(1) : a[i];
    const size_t at = s.draw(M);
    s.show("M", M);
    s.show("form", form);
    s.show("op(+-*/)", op);
    s.show("a", a, M);
    s.show("b", b, M);
    s.show("k", k);
    V va, vb, r;
    garbage(r.array, M);
    for (size_t i = 0; i < M; ++i)
    {
        va.array[i] = a[i];
        vb.array[i] = b[i];
    }
    bool scalar = form == 2 || form == 3 || form == 4 || form == 6;
    if (form == 4)
    {
        r = k * va;
        for (size_t i = 0; i < M; ++i)
            want[i] = (T)(a[i] * k);
    }
    else if (form == 7)
    {
        const bool inPlace = s.coin();
        if (inPlace)
        {
            const V& ref = va.negate();
            s.expect(&ref == &va, "negate() returns its own vector");
            r = va;
            va = V();
            for (size_t i = 0; i < M; ++i)
                va.array[i] = a[i];
        }
        else
            r = -va;
        for (size_t i = 0; i < M; ++i)
            want[i] = (T)(-a[i]);
    }
    else if (form == 8)
    {
        s.label(3);
        // (a + b) * k - a, evaluated component-wise
        r = (va + vb) * k - va;
        for (size_t i = 0; i < M; ++i)
        {
            const T t = (T)(a[i] + b[i]);
            const T u = (T)(t * k);
            want[i] = (T)(u - a[i]);
            if (std::is_floating_point<T>::value)
            {
                const LD mag = (fabsl(a[i]) + fabsl(b[i])) * fabsl(k) + fabsl(a[i]);
                s.near(r.array[i], (LD)want[i], mag, 4, "(a + b) * k - a", i);
                want[i] = r.array[i];
            }
        }
    }
    else
    {
        if (form == 6)
        {
            k = a[at];
            s.label(1);
        }
        if (form == 5 || form == 9)
        {
            s.label(0);
            for (size_t i = 0; i < M; ++i)
                b[i] = a[i];
        }
        for (size_t i = 0; i < M; ++i)
        {
            const T y = scalar ? k : b[i];
            want[i] = op == 0   ? (T)(a[i] + y)
                      : op == 1 ? (T)(a[i] - y)
                      : op == 2 ? (T)(a[i] * y)
                                : (T)(a[i] / y);
        }
        if (op == 3)
            s.label(2);
        switch (form)
        {
        case 0:
            r = op == 0 ? va + vb : op == 1 ? va - vb : op == 2 ? va * vb : va / vb;
            break;
        case 9:
            r = op == 0 ? va + va : op == 1 ? va - va : op == 2 ? va * va : va / va;
            break;
        case 2:
            r = op == 0 ? va + k : op == 1 ? va - k : op == 2 ? va * k : va / k;
            break;
        default:
        {
            r = va;
            const V& y = form == 5 ? r : vb;
            if (form == 1 || form == 5)
            {
                if (op == 0)
                    r += y;
                else if (op == 1)
                    r -= y;
                else if (op == 2)
                    r *= y;
                else
                    r /= y;
            }
            else if (form == 3)
            {
                if (op == 0)
                    r += k;
                else if (op == 1)
                    r -= k;
                else if (op == 2)
                    r *= k;
                else
                    r /= k;
            }
            else
            {
                if (op == 0)
                    r += r.array[at];
                else if (op == 1)
                    r -= r.array[at];
                else if (op == 2)
                    r *= r.array[at];
                else
                    r /= r.array[at];
            }
        }
        }
    }
    bool differ = false, nz = false;
    for (size_t i = 0; i < M; ++i)
    {
        if (std::is_floating_point<T>::value)
            s.near(r.array[i], (LD)want[i], (LD)want[i], 2, "result component", i);
        else
            s.same(r.array[i], want[i], "result component", i);
        differ = differ || a[i] != a[0] || b[i] != b[0] || a[i] != b[i];
        nz = nz || want[i] != 0;
    }
    // the operands are left as they were
    for (size_t i = 0; i < M; ++i)
    {
        s.same(va.array[i], a[i], "left operand unchanged", i);
        if (form != 5 && form != 9)
            s.same(vb.array[i], b[i], "right operand unchanged", i);
    }
    s.nontrivial(differ && nz);
}

#if PBT_PART == 0
PBT_REG("float1", ops<1, float>, 4);
PBT_REG("float2", ops<2, float>);
PBT_REG("float3", ops<3, float>, 32);
PBT_REG("float4", ops<4, float>, 32);
PBT_REG("float7", ops<7, float>);
PBT_REG("double2", ops<2, double>);
PBT_REG("double3", ops<3, double>, 32);
PBT_REG("double4", ops<4, double>, 32);
PBT_REG("double5", ops<5, double>);
PBT_REG("int2", ops<2, int>);
PBT_REG("int3", ops<3, int>);
PBT_REG("int4", ops<4, int>);
PBT_REG("unsigned3", ops<3, unsigned>);
PBT_REG("uint8_3", ops<3, uint8_t>);
PBT_REG("uint8_4", ops<4, uint8_t>);
PBT_REG("int64_6", ops<6, int64_t>);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("ops_1_int", (ops<1, int>), 4);
PBT_REG("ops_2_unsigned", (ops<2, unsigned>), 4);
PBT_REG("ops_5_float", (ops<5, float>), 4);
PBT_REG("ops_6_float", (ops<6, float>), 4);
PBT_REG("ops_8_float", (ops<8, float>), 4);
PBT_REG("ops_9_double", (ops<9, double>), 4);
PBT_REG("ops_12_int", (ops<12, int>), 4);
PBT_REG("ops_16_float", (ops<16, float>), 4);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("ops_17_double", (ops<17, double>), 4);
PBT_REG("ops_33_float", (ops<33, float>), 4);
PBT_REG("ops_3_short", (ops<3, short>), 4);
PBT_REG("ops_4_int8_t", (ops<4, int8_t>), 4);
PBT_REG("ops_2_uint64_t", (ops<2, uint64_t>), 4);
PBT_REG("ops_6_uint16_t", (ops<6, uint16_t>), 4);
PBT_REG("ops_1_double", (ops<1, double>), 4);
PBT_REG("ops_7_double", (ops<7, double>), 4);
PBT_REG("ops_300_float", (ops<300, float>), 1);
PBT_REG("ops_260_int", (ops<260, int>), 1);
#endif
