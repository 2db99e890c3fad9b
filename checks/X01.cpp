// X01: concurrent use: const operations on shared objects, and any operation on
// a thread's own objects, neither race nor influence each other
#include "program.hpp"

#include <atomic>
#include <thread>

using namespace pbt;
const char* const pbt::LABELS[] = {"the same operation in two threads", "three threads", "a thread's own objects", 0};
const char* const pbt::RULE =
    "Random programs of 2-3 threads over shared constant objects and their own "
    "copies, from a table of operations; results are compared bit by bit with a "
    "sequential run, races are detected by ThreadSanitizer; non-trivial = two "
    "threads run the same operation.";

namespace
{
typedef double T;
typedef Prog<T> P;
typedef P::Shared Shared;
typedef P::Out Out;
size_t NOPS;
const P::Entry* const OPS = P::ops(NOPS);
}

void threads(Src& s)
{
    Shared sh;
    P::fillAll(s, sh);

    const int n = (int)s.range(2, 3);
    if (n == 3)
        s.label(1);
    // operations on the shared objects, and on a thread's own (+ NOPS)
    std::vector<Shared> mine;
    for (int i = 0; i < n; ++i)
        mine.push_back(P::own(sh, i));
    std::vector<std::vector<size_t> > prog(n);
    std::vector<int> users(NOPS);
    for (int i = 0; i < n; ++i)
    {
        const int k = (int)s.range(1, 6);
        for (int j = 0; j < k; ++j)
        {
            size_t op = s.draw(NOPS);
            if (i > 0 && s.coin())
                op = prog[0][s.draw(prog[0].size())] % NOPS;
            const bool o = s.coin();
            prog[i].push_back(op + (o ? NOPS : 0));
            s.show("thread", i);
            s.show(o ? "runs on its own" : "runs on shared", std::string(OPS[op].name));
            users[op] |= 1 << i;
            if (o)
                s.label(2);
        }
    }
    bool shared = false;
    for (size_t i = 0; i < NOPS; ++i)
        shared = shared || (users[i] & (users[i] - 1));
    if (shared)
        s.label(0);
    const Shared& c = sh;
    std::vector<std::vector<Out> > want(n);
    // a replayed case tries harder to reach the interleaving
    const int reps = s.mode == Src::REPLAY ? 200 : 2;
    for (int rep = 0; rep < reps; ++rep)
    {
        std::atomic<int> ready(0);
        // the threads run first, so that nothing is initialised before
        std::vector<std::vector<Out> > got(n);
        std::vector<std::thread> th;
        for (int i = 0; i < n; ++i)
            th.push_back(std::thread([&, i]() {
                ready.fetch_add(1, std::memory_order_relaxed);
                for (int spin = 0; spin < 20000 && ready.load(std::memory_order_relaxed) < n; ++spin)
                {
                }
                for (size_t j = 0; j < prog[i].size(); ++j)
                {
                    got[i].push_back(Out());
                    OPS[prog[i][j] % NOPS].op(prog[i][j] < NOPS ? c : mine[i],
                                              got[i].back());
                }
            }));
        for (int i = 0; i < n; ++i)
            th[i].join();
        for (int i = 0; i < n; ++i)
            for (size_t j = 0; j < prog[i].size(); ++j)
            {
                if (!rep)
                {
                    want[i].push_back(Out());
                    OPS[prog[i][j] % NOPS].op(prog[i][j] < NOPS ? c : mine[i],
                                              want[i].back());
                }
                if (got[i][j].bytes != want[i][j].bytes)
                    s.fail(std::string("result of \"") + OPS[prog[i][j] % NOPS].name +
                           "\" differs from the sequential run");
            }
    }
    s.nontrivial(shared);
}

PBT_REG("threads", threads, 16);
