// Driver of a check binary; see pbt.hpp.
#include "pbt.hpp"

#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_map>
#include <unordered_set>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt
{
std::vector<Sub>& registry()
{
    static std::vector<Sub> r;
    return r;
}
std::vector<double>& dictionary()
{
    static std::vector<double> d;
    return d;
}
}

using namespace pbt;

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
           "handle_abort=0:detect_stack_use_after_return=0";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:exitcode=99:print_stacktrace=0";
}
extern "C" const char* __tsan_default_options()
{
    return "exitcode=99:halt_on_error=1:report_signal_unsafe=0";
}

namespace
{
const int EXIT_FAILCASE = 77;
const int EXIT_HANG = 78;

struct Cur
{
    volatile uint64_t sub, idx, count;
};
Cur* cur;
Cur dummyCur;

double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

uint64_t caseSeed(uint64_t seed, uint64_t shard, uint64_t sub, uint64_t idx)
{
    // the sub-property's name, not its position, so that adding one does not
    // change the cases of the others
    uint64_t h = 1469598103934665603ull;
    const std::string& n = registry()[sub].name;
    for (size_t i = 0; i < n.size(); ++i)
        h = (h ^ (unsigned char)n[i]) * 0x100000001b3ull;
    return mix64(mix64(mix64(seed) ^ shard * 0x9e37ull) ^ mix64(h) ^
                 mix64(idx * 0x2545F4914F6CDD1Dull));
}

// 0 = passed; otherwise the message
bool runOne(size_t sub, Src& s, std::string& msg)
{
    try
    {
        registry()[sub].fn(s);
        return true;
    }
    catch (const Failure& f)
    {
        msg = f.what;
    }
    catch (const std::exception& e)
    {
        msg = std::string("unexpected exception: ") + e.what();
    }
    catch (...)
    {
        msg = "unexpected exception of unknown type";
    }
    return false;
}

// the case runs in a child process: 0 pass, 1 fail (message in msg)
int runIsolated(size_t sub, const std::vector<uint64_t>* choices, uint64_t seed,
                std::string& msg, std::vector<uint64_t>* rec, std::string* story,
                bool quiet)
{
    char path[] = "/tmp/pbt-iso-XXXXXX";
    int fd = mkstemp(path);
    if (fd < 0)
    {
        perror("mkstemp");
        exit(2);
    }
    const size_t CAP = 1 << 22;
    if (ftruncate(fd, CAP) != 0)
        exit(2);
    char* shm = (char*)mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    unlink(path);
    close(fd);
    uint64_t* head = (uint64_t*)shm; // [0] n choices, [1] msg len, [2] story len
    pid_t pid = fork();
    if (pid == 0)
    {
        if (quiet)
        {
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            dup2(n, 2);
        }
        signal(SIGALRM, SIG_DFL);
        alarm(10);
        // the choices are recorded straight into shared memory, so that they
        // survive a crash
        Src s;
        s.verbose = true;
        s.mirror = head;
        s.mirrorCap = (CAP / 2) / 8 - 16;
        if (choices)
            s.startReplay(*choices);
        else
            s.startRandom(seed);
        std::string m;
        const bool ok = runOne(sub, s, m);
        std::string st = s.log.str();
        if (m.size() > 100000)
            m.resize(100000);
        if (st.size() > 1000000)
            st.resize(1000000);
        head[1] = m.size();
        memcpy(shm + CAP / 2, m.data(), m.size());
        head[2] = st.size();
        memcpy(shm + CAP / 2 + 200000, st.data(), st.size());
        _exit(ok ? 0 : EXIT_FAILCASE);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    int r = 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        r = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILCASE)
        msg.assign(shm + CAP / 2, head[1]);
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
        msg = "the case did not finish within 10 s";
    else if (WIFSIGNALED(st))
        msg = std::string("crashed: ") + strsignal(WTERMSIG(st));
    else
        msg = "aborted by a sanitizer (memory error, undefined behaviour or race)";
    if (rec && (head[0] || r == 0))
        rec->assign((uint64_t*)(shm + 64), (uint64_t*)(shm + 64) + head[0]);
    if (story)
        story->assign(shm + CAP / 2 + 200000, head[2]);
    munmap(shm, CAP);
    return r;
}

void shrink(size_t sub, std::vector<uint64_t>& best, std::string& msg,
            double budget)
{
    const double t0 = now();
    int attempts = 0;
    std::string m;
    std::vector<uint64_t> rec;
    auto tryIt = [&](const std::vector<uint64_t>& c) -> bool {
        if (now() - t0 > budget || attempts > 6000)
            return false;
        ++attempts;
        rec.clear();
        if (runIsolated(sub, &c, 0, m, &rec, 0, true) == 0)
            return false;
        msg = m;
        best = (!rec.empty() && rec.size() <= c.size()) ? rec : c;
        return true;
    };
    bool progress = true;
    while (progress && now() - t0 < budget)
    {
        progress = false;
        // drop the tail
        for (size_t k = best.size(); k > 0; k /= 2)
        {
            if (k >= best.size())
                continue;
            std::vector<uint64_t> c(best.begin(), best.end() - k);
            if (tryIt(c))
                progress = true;
        }
        // delete blocks
        for (size_t len = std::min<size_t>(16, best.size()); len > 0; len /= 2)
            for (size_t i = 0; i + len <= best.size();)
            {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + len);
                if (tryIt(c))
                    progress = true;
                else
                    i += len;
                if (now() - t0 > budget)
                    break;
            }
        // zero blocks
        for (size_t len = std::min<size_t>(16, best.size()); len > 0; len /= 2)
            for (size_t i = 0; i + len <= best.size(); i += len)
            {
                bool any = false;
                std::vector<uint64_t> c(best);
                for (size_t j = i; j < i + len; ++j)
                {
                    any = any || c[j];
                    c[j] = 0;
                }
                if (any && tryIt(c))
                    progress = true;
            }
        // lower single choices
        for (size_t i = 0; i < best.size(); ++i)
        {
            uint64_t lo = 0, hi = best[i];
            while (lo < hi && i < best.size())
            {
                const uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c(best);
                c[i] = mid;
                if (tryIt(c))
                {
                    progress = true;
                    if (i >= best.size())
                        break;
                    hi = std::min(mid, best[i]);
                }
                else
                    lo = mid + 1;
                if (now() - t0 > budget)
                    break;
            }
        }
    }
}

std::string jsonEsc(const std::string& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        const unsigned char c = s[i];
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o;
}

void writeReplay(const std::string& path, size_t sub, const std::string& kind,
                 const std::vector<uint64_t>& c, uint64_t seed, uint64_t shard,
                 uint64_t idx, const std::string& msg, const std::string& story,
                 const std::string& extra)
{
    std::ofstream f(path.c_str());
    f << "kind " << kind << "\n";
    f << "sub " << registry()[sub].name << "\n";
    f << "seed " << seed << "\nshard " << shard << "\nidx " << idx << "\n";
    f << extra;
    f << "choices " << c.size();
    for (size_t i = 0; i < c.size(); ++i)
        f << ' ' << c[i];
    f << "\n# failure: ";
    for (size_t i = 0; i < msg.size(); ++i)
        f << (msg[i] == '\n' ? ' ' : msg[i]);
    f << "\n# case: ";
    for (size_t i = 0; i < story.size(); ++i)
        f << (story[i] == '\n' ? ' ' : story[i]);
    f << "\n";
}

size_t findSub(const std::string& n)
{
    for (size_t i = 0; i < registry().size(); ++i)
        if (registry()[i].name == n)
            return i;
    std::cerr << "no such sub-property: " << n << std::endl;
    exit(2);
}

uint64_t lastCount;
int stuck;
void onTick(int)
{
    if (cur->count == lastCount)
    {
        if (++stuck >= 4)
            _exit(EXIT_HANG);
    }
    else
        stuck = 0;
    lastCount = cur->count;
}

struct Args
{
    std::map<std::string, std::string> kv;
    std::string get(const std::string& k, const std::string& d = "") const
    {
        std::map<std::string, std::string>::const_iterator i = kv.find(k);
        return i == kv.end() ? d : i->second;
    }
    uint64_t num(const std::string& k, uint64_t d = 0) const
    {
        return kv.count(k) ? strtoull(get(k).c_str(), 0, 10) : d;
    }
};

void loadDict(const std::string& path)
{
    if (path.empty())
        return;
    std::ifstream f(path.c_str());
    double d;
    while (f >> d)
        dictionary().push_back(d);
}

// run the whole deterministic sequence up to (and including) a case; used when
// a case only fails after its predecessors (state kept inside the library)
int cmdRun(const Args& a)
{
    const uint64_t seed = a.num("seed", 1), shard = a.num("shard");
    const uint64_t rounds = a.num("rounds", 1);
    const double cap = (double)a.num("time-cap", 600);
    const std::string out = a.get("out");
    uint64_t* tapSum = 0;
    uint64_t tapValue = 0;
    std::vector<uint64_t> taps;
    if (a.kv.count("tap"))
        tapSum = &tapValue;

    cur = &dummyCur;
    if (a.kv.count("cur"))
    {
        int fd = open(a.get("cur").c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Cur)) == 0)
            cur = (Cur*)mmap(0, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED,
                             fd, 0);
    }
    signal(SIGALRM, onTick);
    itimerval tv;
    tv.it_interval.tv_sec = 5;
    tv.it_interval.tv_usec = 0;
    tv.it_value = tv.it_interval;
    setitimer(ITIMER_REAL, &tv, 0);

    const size_t S = registry().size();
    std::vector<uint64_t> evals(S), nts(S);
    std::vector<std::vector<uint64_t> > lab(S, std::vector<uint64_t>(32));
    std::vector<std::string> samples;
    std::vector<char> sampled(S);
    std::unordered_set<uint64_t> hashes;
    const size_t HCAP = 150000;
    uint64_t ntTotal = 0;
    const double t0 = now();
    bool capped = false;
    bool failed = false;
    std::string failMsg;
    size_t failSub = 0;
    uint64_t failIdx = 0;
    std::vector<uint64_t> failChoices;
    Src s;
    const size_t stopSub =
        a.kv.count("stop-sub") ? findSub(a.get("stop-sub")) : (size_t)-1;
    const uint64_t stopIdx = a.num("stop-idx");
    bool stop = false;

    for (uint64_t r = 0; r < rounds && !failed && !stop && !capped; ++r)
    {
        for (size_t k = 0; k < S && !failed && !stop; ++k)
        {
            const unsigned w = registry()[k].weight;
            for (unsigned j = 0; j < w; ++j)
            {
                const uint64_t idx = r * w + j;
                cur->sub = k;
                cur->idx = idx;
                cur->count = cur->count + 1;
                s.startRandom(caseSeed(seed, shard, k, idx));
                if (tapSum)
                {
                    tapValue = 0xcbf29ce484222325ull;
                    s.tap = tapSum;
                }
                std::string msg;
                if (!runOne(k, s, msg))
                {
                    if (tapSum)
                        tapValue = mix64(tapValue ^ 1);
                    else
                    {
                        failed = true;
                        failMsg = msg;
                        failSub = k;
                        failIdx = idx;
                        failChoices = s.choices;
                        break;
                    }
                }
                if (tapSum)
                    taps.push_back(tapValue);
                ++evals[k];
                if (s.nontriv)
                {
                    ++nts[k];
                    ++ntTotal;
                    if (hashes.size() < HCAP)
                    {
                        uint64_t h = mix64(k + 77);
                        for (size_t i = 0; i < s.choices.size(); ++i)
                            h = (h ^ s.choices[i]) * 0x9FB21C651E98DF25ull,
                            h ^= h >> 29;
                        hashes.insert(h);
                    }
                    if (!sampled[k] && r >= 3)
                    {
                        sampled[k] = 1;
                        std::vector<uint64_t> c(s.choices);
                        Src v;
                        v.verbose = true;
                        v.startReplay(c);
                        std::string m2;
                        runOne(k, v, m2);
                        std::string st = v.log.str();
                        if (st.size() > 600)
                            st = st.substr(0, 600) + "...";
                        samples.push_back(registry()[k].name + ": " + st);
                    }
                }
                uint32_t l = s.labels;
                while (l)
                {
                    const int b = __builtin_ctz(l);
                    ++lab[k][b];
                    l &= l - 1;
                }
                if (k == stopSub && idx == stopIdx)
                {
                    stop = true;
                    break;
                }
            }
        }
        if (now() - t0 > cap)
            capped = true;
    }
    itimerval off = itimerval();
    setitimer(ITIMER_REAL, &off, 0);

    if (a.kv.count("tap"))
    {
        std::ofstream f(a.get("tap").c_str(), std::ios::binary);
        f.write((const char*)taps.data(), taps.size() * 8);
    }
    if (!out.empty())
    {
        std::ofstream f(out.c_str());
        f << "{\"failed\": " << (failed ? "true" : "false");
        if (failed)
            f << ", \"fail_sub\": \"" << jsonEsc(registry()[failSub].name)
              << "\", \"fail_idx\": " << failIdx << ", \"fail_msg\": \""
              << jsonEsc(failMsg) << "\"";
        f << ", \"capped\": " << (capped ? "true" : "false");
        f << ", \"nontrivial\": " << ntTotal;
        f << ", \"wall\": " << now() - t0 << ", \"subs\": {";
        for (size_t k = 0; k < S; ++k)
        {
            f << (k ? ", " : "") << "\"" << jsonEsc(registry()[k].name)
              << "\": [" << evals[k] << ", " << nts[k] << "]";
        }
        f << "}, \"labels\": {";
        bool first = true;
        for (int b = 0; b < 32 && LABELS[b]; ++b)
        {
            uint64_t t = 0;
            for (size_t k = 0; k < S; ++k)
                t += lab[k][b];
            f << (first ? "" : ", ") << "\"" << jsonEsc(LABELS[b])
              << "\": " << t;
            first = false;
        }
        f << "}, \"rule\": \"" << jsonEsc(RULE) << "\", \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i)
            f << (i ? ", " : "") << "\"" << jsonEsc(samples[i]) << "\"";
        f << "]}\n";
        std::ofstream h((out + ".hash").c_str(), std::ios::binary);
        for (std::unordered_set<uint64_t>::iterator i = hashes.begin();
             i != hashes.end(); ++i)
        {
            const uint64_t v = *i;
            h.write((const char*)&v, 8);
        }
    }
    if (failed)
    {
        const std::string rp = a.get("replay");
        if (!rp.empty())
            writeReplay(rp, failSub, "choices", failChoices, seed, shard,
                        failIdx, failMsg, "", "");
        return EXIT_FAILCASE;
    }
    return 0;
}

struct ReplayFile
{
    std::string kind, sub;
    uint64_t seed, shard, idx, rounds;
    std::vector<uint64_t> choices;
};

ReplayFile readReplay(const std::string& path)
{
    ReplayFile r;
    r.seed = r.shard = r.idx = 0;
    r.rounds = 0;
    std::ifstream f(path.c_str());
    std::string line;
    while (std::getline(f, line))
    {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "kind")
            is >> r.kind;
        else if (k == "sub")
        {
            std::getline(is, r.sub);
            if (!r.sub.empty() && r.sub[0] == ' ')
                r.sub.erase(0, 1);
        }
        else if (k == "seed")
            is >> r.seed;
        else if (k == "shard")
            is >> r.shard;
        else if (k == "idx")
            is >> r.idx;
        else if (k == "choices")
        {
            size_t n;
            is >> n;
            uint64_t v;
            while (n-- && is >> v)
                r.choices.push_back(v);
        }
    }
    return r;
}

// exit 77 if the replay fails (again), 0 if it passes
int cmdReplay(const Args& a)
{
    const ReplayFile r = readReplay(a.get("replay"));
    const size_t sub = findSub(r.sub);
    if (r.kind == "history")
    {
        Args b;
        b.kv["seed"] = std::to_string(r.seed);
        b.kv["shard"] = std::to_string(r.shard);
        b.kv["rounds"] = "1000000000";
        b.kv["stop-sub"] = r.sub;
        b.kv["stop-idx"] = std::to_string(r.idx);
        b.kv["time-cap"] = "600";
        pid_t pid = fork();
        if (pid == 0)
            _exit(cmdRun(b));
        int st;
        waitpid(pid, &st, 0);
        const bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        std::cout << (ok ? "PASS" : "FAIL (after the preceding cases)")
                  << std::endl;
        return ok ? 0 : EXIT_FAILCASE;
    }
    std::string msg, story;
    const int rc =
        runIsolated(sub, r.kind == "seed" ? 0 : &r.choices,
                    caseSeed(r.seed, r.shard, sub, r.idx), msg, 0, &story,
                    a.kv.count("quiet") != 0);
    std::cout << (rc ? "FAIL " : "PASS ") << r.sub << "\n";
    if (rc)
        std::cout << msg << "\n";
    std::cout << story << std::endl;
    return rc ? EXIT_FAILCASE : 0;
}

// takes a failing (sub, idx) of a run, writes a shrunk, confirmed replay file
int cmdShrink(const Args& a)
{
    const std::string out = a.get("replay");
    size_t sub;
    uint64_t seed = a.num("seed", 1), shard = a.num("shard"), idx = 0;
    std::vector<uint64_t> c;
    std::string msg, story;
    bool have = false;
    if (a.kv.count("from"))
    {
        const ReplayFile r = readReplay(a.get("from"));
        sub = findSub(r.sub);
        seed = r.seed;
        shard = r.shard;
        idx = r.idx;
        c = r.choices;
        have = r.kind != "seed";
    }
    else
    {
        sub = a.num("sub-index");
        idx = a.num("idx");
    }
    if (sub >= registry().size())
        return 2;
    int rc = runIsolated(sub, have ? &c : 0, caseSeed(seed, shard, sub, idx),
                         msg, have ? 0 : &c, &story, true);
    if (rc == 0)
    {
        // only fails with its predecessors
        writeReplay(out, sub, "history", std::vector<uint64_t>(), seed, shard,
                    idx, "fails only after the preceding cases of this run", "",
                    "");
        return 3;
    }
    if (!have && c.empty())
        c.push_back(0);
    shrink(sub, c, msg, (double)a.num("budget", 40));
    runIsolated(sub, &c, 0, msg, 0, &story, true);
    writeReplay(out, sub, "choices", c, seed, shard, idx, msg, story, "");
    return 0;
}
}

#ifdef PBT_FUZZ
// libFuzzer entry: the first two bytes select the sub-property, the rest are
// its choices.  A failure is written as an ordinary replay file.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    static bool init = false;
    static size_t only = (size_t)-1;
    if (!init)
    {
        init = true;
        const char* d = getenv("PBT_DICT");
        if (d)
            loadDict(d);
        const char* o = getenv("PBT_SUB");
        if (o)
            only = findSub(o);
    }
    if (size < 2)
        return 0;
    const size_t sub = only != (size_t)-1
                           ? only
                           : (data[0] | data[1] << 8) % registry().size();
    static Src s;
    s.startBytes(data + 2, size - 2);
    std::string msg;
    if (!runOne(sub, s, msg))
    {
        const char* out = getenv("PBT_REPLAY");
        if (out)
            writeReplay(out, sub, "choices", s.choices, 0, 0, 0, msg, "", "");
        std::cerr << "PBT failure: " << registry()[sub].name << ": " << msg
                  << std::endl;
        _exit(EXIT_FAILCASE);
    }
    const char* cnt = 0;
    (void)cnt;
    return 0;
}
#else
int main(int argc, char** argv)
{
    Args a;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i < argc; ++i)
    {
        std::string k = argv[i];
        if (k.compare(0, 2, "--") == 0)
        {
            k = k.substr(2);
            if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0)
                a.kv[k] = argv[++i];
            else
                a.kv[k] = "1";
        }
    }
    cur = &dummyCur;
    loadDict(a.get("dict"));
    if (cmd == "run")
        return cmdRun(a);
    if (cmd == "replay")
        return cmdReplay(a);
    if (cmd == "shrink")
        return cmdShrink(a);
    if (cmd == "list")
    {
        for (size_t i = 0; i < registry().size(); ++i)
            std::cout << i << ' ' << registry()[i].name << "\n";
        return 0;
    }
    std::cerr << "usage: run|replay|shrink|list" << std::endl;
    return 2;
}
#endif
