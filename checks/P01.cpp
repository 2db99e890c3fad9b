// P01: operations are functions of their operands: neither what ran before, nor
// where operands live, nor what outputs held, nor anything else matters or changes
#include "program.hpp"

#include <cfenv>
#include <iostream>
#include <locale>
#include <memory>

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {
    "same operation on different operands", "operands differing in one number",
    "operands replaced in place", "same operands again", "long history", 0};
const char* const pbt::RULE =
    "Random histories of operations from a table over the whole library, on "
    "operand sets some of which differ in a single number, held in fresh objects or "
    "replaced in place; each result is compared bit by bit with the same operation "
    "on copies of the operands after another history, operands are compared with "
    "what they were, and the random sequence, standard streams, rounding mode and "
    "locale are watched; non-trivial = an operation runs on two operand sets.";
#endif

namespace
{
struct Silence
{
    std::ostringstream sink;
    std::streambuf *a, *b, *c;
    Silence() : a(std::cout.rdbuf()), b(std::cerr.rdbuf()), c(std::clog.rdbuf())
    {
        std::cout.rdbuf(sink.rdbuf());
        std::cerr.rdbuf(sink.rdbuf());
        std::clog.rdbuf(sink.rdbuf());
    }
    ~Silence()
    {
        std::cout.rdbuf(a);
        std::cerr.rdbuf(b);
        std::clog.rdbuf(c);
    }
};

template <class T>
typename Prog<T>::Out snapshot(const typename Prog<T>::Shared& s)
{
    typename Prog<T>::Out o;
    o.add(s.a);
    o.add(s.b);
    o.add(s.c);
    o.add(s.unit);
    o.add(s.v);
    o.add(s.w);
    o.add(s.m2);
    o.add(s.m3);
    o.add(s.n3);
    o.add(s.m4);
    o.add(s.n4);
    o.add(s.m23);
    o.add(s.m32);
    o.add(s.p);
    o.add(s.q);
    for (int i = 0; i < 6; ++i)
        o.add(s.f.array[i]);
    o.add(s.box.getMin());
    o.add(s.box.getMax());
    o.add(s.v6);
    o.add(s.m6);
    o.add(s.t);
    std::ostringstream os;
    os.precision(20);
    os << s.culler;
    o.add(os.str());
    return o;
}

// changes one number of one operand
template <class T>
void nudge(Src& s, typename Prog<T>::Shared& x)
{
    struct
    {
        T* p;
        size_t n;
    } const all[] = {{x.a.array, 3},   {x.b.array, 3},   {x.c.array, 3},  {x.v.array, 4},
                     {x.w.array, 4},   {x.m2.array, 4},  {x.m3.array, 9}, {x.n3.array, 9},
                     {x.m4.array, 16}, {x.n4.array, 16}, {x.p.array, 4},  {x.q.array, 4},
                     {x.v6.array, 6},  {x.m6.array, 36}, {&x.t, 1},       {x.m23.array, 6},
                     {x.m32.array, 6}, {x.f.array, 6}};
    const size_t k = s.draw(sizeof(all) / sizeof(all[0]));
    const size_t i = s.draw(all[k].n);
    T& v = all[k].p[i];
    switch (s.draw(4))
    {
    case 0:
        v = v + (T)(1 + s.draw(3));
        break;
    case 1:
        v = std::nextafter(v, (T)1e30);
        break;
    case 2:
        v = v == 0 ? (T)0.5 : -v;
        break;
    default:
        v = v + (T)0.001;
    }
    if (k == 17)
        x.culler.setup(x.f.compute_matrix());
    if (s.verbose)
        s.show("nudged operand", (long long)k);
}
}

template <class T>
void history(Src& s)
{
    typedef Prog<T> P;
    typedef typename P::Shared Shared;
    typedef typename P::Out Out;
    size_t nops;
    const typename P::Entry* const OPS = P::ops(nops);

    const size_t sets = 2 + s.draw(3);
    std::vector<std::unique_ptr<Shared> > set;
    set.push_back(std::unique_ptr<Shared>(new Shared));
    P::fillAll(s, *set[0]);
    for (size_t i = 1; i < sets; ++i)
    {
        switch (s.draw(3))
        {
        case 0:
            set.push_back(std::unique_ptr<Shared>(new Shared(*set[s.draw(i)])));
            nudge<T>(s, *set[i]);
            s.label(1);
            break;
        case 1:
            set.push_back(std::unique_ptr<Shared>(new Shared(P::own(*set[0], (int)i))));
            break;
        default:
            set.push_back(std::unique_ptr<Shared>(new Shared(*set[0])));
            P::fillAll(s, *set[i]);
        }
        set[i]->junk = (T)s.zigzag(1000);
    }
    std::vector<Out> was;
    for (size_t i = 0; i < sets; ++i)
        was.push_back(snapshot<T>(*set[i]));

    struct Step
    {
        size_t op, set;
        bool inPlace;
        Out out;
    };
    std::vector<Step> steps;
    std::unique_ptr<Shared> slot(new Shared(*set[0]));
    const size_t n = 2 + s.draw(s.chance(1, 4) ? 12 : 5);
    if (n > 7)
        s.label(4);
    bool twice = false;

    const unsigned seed = 1 + (unsigned)s.draw(1000);
    srand(seed);
    const int r0 = rand(), r1 = rand();
    const std::locale loc;
    const int round = fegetround();
    std::string printed;
    srand(seed);
    {
        Silence quiet;
        for (size_t i = 0; i < n; ++i)
        {
            Step st;
            st.op = i && !s.chance(1, 3) ? steps[s.draw(i)].op : s.draw(nops);
            st.set = s.draw(sets);
            st.inPlace = s.coin();
            for (size_t j = 0; j < i; ++j)
                if (steps[j].op == st.op)
                {
                    if (steps[j].set != st.set)
                    {
                        twice = true;
                        s.label(0);
                    }
                    else
                        s.label(3);
                }
            if (s.verbose)
            {
                s.show("operation", std::string(OPS[st.op].name));
                s.show("on operand set", (long long)st.set);
                s.show("in place", (long long)st.inPlace);
            }
            if (st.inPlace)
            {
                *slot = *set[st.set];
                s.label(2);
                OPS[st.op].op(*slot, st.out);
                if (snapshot<T>(*slot).bytes != was[st.set].bytes)
                    s.fail(std::string("\"") + OPS[st.op].name + "\" changed a constant operand");
            }
            else
                OPS[st.op].op(*set[st.set], st.out);
            if (snapshot<T>(*set[st.set]).bytes != was[st.set].bytes)
                s.fail(std::string("\"") + OPS[st.op].name + "\" changed a constant operand");
            steps.push_back(st);
        }
        printed = quiet.sink.str();
    }
    const int q0 = rand(), q1 = rand();
    s.expect(q0 == r0 && q1 == r1, "only random fills use the random sequence");
    s.expect(printed.empty(), "nothing is printed");
    s.expect(fegetround() == round, "the rounding mode is left alone");
    s.expect(std::locale() == loc, "the locale is left alone");

    // again, in another order, on copies elsewhere, with other things in the outputs
    std::vector<size_t> order;
    for (size_t i = 0; i < n; ++i)
        order.insert(order.begin() + s.draw(i + 1), i);
    for (size_t k = 0; k < n; ++k)
    {
        const Step& st = steps[order[k]];
        const std::unique_ptr<Shared> copy(new Shared(*set[st.set]));
        copy->junk = -copy->junk + 3;
        Out again;
        OPS[st.op].op(*copy, again);
        if (again.bytes != st.out.bytes)
            s.fail(std::string("result of \"") + OPS[st.op].name +
                   "\" depends on more than its operands");
        for (size_t b = 0; b < again.bytes.size(); ++b)
            s.observe(again.bytes[b]);
    }
    s.nontrivial(twice);
}

#if PBT_PART == 0
PBT_REG("history_double", history<double>, 4);
PBT_REG("history_float", history<float>, 4);
#endif
