#include "engine.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

#ifdef __SANITIZE_THREAD__
#define PBT_TSAN 1
#endif
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif

extern "C" const char* __asan_default_options()
{
    return "abort_on_error=0:exitcode=99:detect_leaks=0:handle_abort=1:handle_sigbus=1:"
           "detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=6000:"
           "quarantine_size_mb=48:malloc_context_size=12";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
extern "C" const char* __tsan_default_options()
{
    return "exitcode=98:halt_on_error=1:abort_on_error=0:detect_deadlocks=1:second_deadlock_stack=1:history_size=4";
}

namespace pbt {

uint64_t mix(uint64_t x)
{
    x ^= x >> 30;
    x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27;
    x *= 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t seed)
{
    const uint8_t* d = (const uint8_t*)p;
    uint64_t h = mix(seed + n);
    while (n >= 8) {
        uint64_t w;
        memcpy(&w, d, 8);
        h = mix(h ^ w) + 0x9e3779b97f4a7c15ull;
        d += 8;
        n -= 8;
    }
    uint64_t w = 0;
    memcpy(&w, d, n);
    return mix(h ^ w ^ (uint64_t(n) << 56));
}

// ---------------------------------------------------------------- shared state
struct Slot { // one per worker, in shared memory
    std::atomic<uint64_t> index;
    std::atomic<uint64_t> consumed;
    std::atomic<uint64_t> started; // nanoseconds, 0 when between cases
    std::atomic<uint64_t> cpu0; // process CPU nanoseconds at the start of the case
    std::atomic<uint64_t> done;
};
static Slot* g_slot = nullptr;

static uint64_t now_ns(clockid_t c = CLOCK_MONOTONIC)
{
    timespec t;
    clock_gettime(c, &t);
    return uint64_t(t.tv_sec) * 1000000000ull + t.tv_nsec;
}

// ---------------------------------------------------------------- Src
static const size_t MaxChoices = 1 << 20;

uint8_t Src::byte()
{
    uint8_t b = 0;
    if (m_random) {
        if (m_pos < MaxChoices) {
            if (m_blockIdx != m_pos / 8) {
                m_blockIdx = m_pos / 8;
                m_block = mix(hcomb(m_seed, m_blockIdx));
            }
            b = uint8_t(m_block >> (8 * (m_pos % 8)));
        }
    } else if (m_pos < m_data.size()) {
        b = m_data[m_pos];
    }
    ++m_pos;
    if (g_slot)
        g_slot->consumed.store(m_pos, std::memory_order_relaxed);
    return b;
}
uint64_t Src::raw(unsigned n)
{
    uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i)
        v |= uint64_t(byte()) << (8 * i);
    return v;
}
uint64_t Src::below(uint64_t n)
{
    if (n <= 1)
        return 0;
    unsigned bytes = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ull ? 4 : 8;
    return raw(bytes) % n;
}
size_t Src::weighted(std::initializer_list<unsigned> w)
{
    unsigned total = 0;
    for (unsigned x : w)
        total += x;
    uint64_t r = below(total);
    size_t i = 0;
    for (unsigned x : w) {
        if (r < x)
            return i;
        r -= x;
        ++i;
    }
    return 0;
}
bool Src::more(size_t done, double mean, size_t max)
{
    if (done >= max)
        return false;
    // continue with probability mean/(mean+1)
    uint64_t r = below(65536);
    return r >= 65536.0 / (mean + 1);
}
static const size_t g_bounds[] = { 0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2047,
    2048, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 262144, 1048576, 4194304 };
size_t Src::size(size_t max)
{
    size_t r;
    switch (weighted({ 8, 3, 2, 1 })) {
    case 0:
        r = below(6);
        break;
    case 1:
        r = below(40);
        break;
    case 2: { // a boundary, or next to one
        size_t n = 0;
        while (n < sizeof g_bounds / sizeof *g_bounds && g_bounds[n] <= max)
            ++n;
        r = g_bounds[below(n ? n : 1)] + below(3);
        if (r)
            --r;
        break;
    }
    default: // log uniform
        unsigned bits = 1 + below(max ? 64 - __builtin_clzll(max) : 1);
        r = raw(bits <= 8 ? 1 : bits <= 16 ? 2 : bits <= 32 ? 4 : 8) & ((bits >= 64 ? 0 : 1ull << bits) - 1);
    }
    return std::min(r, max);
}
uint64_t Src::interesting(unsigned bits)
{
    uint64_t mask = bits >= 64 ? ~0ull : (1ull << bits) - 1;
    switch (weighted({ 3, 4, 3 })) {
    case 0:
        return below(20) & mask;
    case 1: { // around a power of two, or near the maximum
        uint64_t p = 1ull << below(bits);
        return (p + below(5) - 2) & mask;
    }
    default:
        return raw(bits / 8 ? bits / 8 : 1) & mask;
    }
}

// ---------------------------------------------------------------- case context
struct Ctx {
    std::mutex m;
    bool nt = false;
    uint64_t key = 0;
    std::map<std::string, uint64_t> labels;
    bool note = false;
    std::string notes;
    std::string asyncFail;
};
static Ctx* g_ctx = new Ctx;
static bool g_thorough = false;
static std::atomic<uint64_t> g_scratch { 0 };
static std::vector<void (*)()>& start_fns()
{
    static std::vector<void (*)()> v;
    return v;
}

void nontrivial(uint64_t key)
{
    std::lock_guard<std::mutex> l(g_ctx->m);
    g_ctx->nt = true;
    g_ctx->key = hcomb(g_ctx->key, key);
}
void label(const std::string& s, uint64_t n)
{
    std::lock_guard<std::mutex> l(g_ctx->m);
    g_ctx->labels[s] += n;
}
bool noting() { return g_ctx->note; }
void note_raw(const std::string& s)
{
    std::lock_guard<std::mutex> l(g_ctx->m);
    if (g_ctx->notes.size() < 20000) {
        g_ctx->notes += s;
        g_ctx->notes += '\n';
    }
}
void async_fail(const std::string& s)
{
    std::lock_guard<std::mutex> l(g_ctx->m);
    if (g_ctx->asyncFail.empty())
        g_ctx->asyncFail = s;
}
void rethrow_async_fail()
{
    std::string s;
    {
        std::lock_guard<std::mutex> l(g_ctx->m);
        s = g_ctx->asyncFail;
    }
    if (!s.empty())
        throw Failure(s);
}
bool thorough() { return g_thorough; }
uint64_t scratch_id() { return (uint64_t(getpid()) << 24) + ++g_scratch; }
void on_worker_start(void (*fn)()) { start_fns().push_back(fn); }

std::string hexdump(const std::string& s, size_t max)
{
    static const char d[] = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        r += d[uint8_t(s[i]) >> 4];
        r += d[uint8_t(s[i]) & 15];
        if (i % 4 == 3)
            r += ' ';
    }
    if (s.size() > max)
        r += Cat() << "... (" << s.size() << " bytes)";
    return r;
}
std::string show(const std::string& s, size_t max)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '"' && c != '\\')
            r += c;
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    r += '"';
    if (s.size() > max)
        r += Cat() << "...(" << s.size() << ")";
    return r;
}

static std::vector<Options>& registry()
{
    static std::vector<Options> v;
    return v;
}
Register::Register(const Options& o) { registry().push_back(o); }

enum Outcome { PASS,
    DISCARD,
    FAILED };

static Outcome run_case(const Options& o, Src& src, std::string& msg)
{
    {
        std::lock_guard<std::mutex> l(g_ctx->m);
        g_ctx->nt = false;
        g_ctx->key = hash_str(o.name);
        g_ctx->labels.clear();
        g_ctx->notes.clear();
        g_ctx->asyncFail.clear();
    }
    try {
        o.fn(src);
        rethrow_async_fail();
        return PASS;
    } catch (const Discard&) {
        return DISCARD;
    } catch (const Failure& f) {
        msg = f.what();
    } catch (const std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        msg = "unexpected exception that is not a std::exception";
    }
    if (msg.empty())
        msg = "failed";
    return FAILED;
}

static uint64_t case_seed(uint64_t seed, const Options& o, uint64_t index)
{
    return hcomb(hcomb(mix(seed + 1), hash_str(std::string(o.id) + "/" + o.name)), index);
}

// ---------------------------------------------------------------- files
static bool write_file(const std::string& p, const std::string& s)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f)
        return false;
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
    return true;
}
static std::string read_file(const std::string& p)
{
    std::string s;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f)
        return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
        s.append(b, n);
    fclose(f);
    return s;
}
static std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}

struct Totals {
    uint64_t evaluations = 0, discards = 0, choices = 0;
    std::unordered_set<uint64_t> keys;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;

    void account(Outcome r, const Src& src)
    {
        std::lock_guard<std::mutex> l(g_ctx->m);
        if (r == DISCARD) {
            ++discards;
            return;
        }
        ++evaluations;
        choices += src.consumed();
        if (g_ctx->nt)
            keys.insert(g_ctx->key);
        for (auto& x : g_ctx->labels)
            labels[x.first] += x.second;
        if (g_ctx->note && g_ctx->nt && samples.size() < 3 && g_ctx->notes.size() < 3000 && !g_ctx->notes.empty())
            samples.push_back(g_ctx->notes);
    }
    std::string serialize() const
    {
        std::string s;
        s += Cat() << "E " << evaluations << " " << discards << " " << choices << "\n";
        for (auto& x : labels)
            s += Cat() << "L " << x.second << " " << x.first << "\n";
        for (auto& x : samples) {
            s += Cat() << "S " << x.size() << "\n" << x << "\n";
        }
        s += Cat() << "K " << keys.size() << "\n";
        for (auto k : keys)
            s.append((const char*)&k, 8);
        return s;
    }
    void merge(const std::string& s)
    {
        size_t p = 0;
        while (p < s.size()) {
            size_t e = s.find('\n', p);
            if (e == std::string::npos)
                break;
            std::string line = s.substr(p, e - p);
            p = e + 1;
            if (line[0] == 'E') {
                unsigned long a = 0, b = 0, c = 0;
                sscanf(line.c_str(), "E %lu %lu %lu", &a, &b, &c);
                evaluations += a;
                discards += b;
                choices += c;
            } else if (line[0] == 'L') {
                char* q;
                uint64_t n = strtoull(line.c_str() + 2, &q, 10);
                labels[q + 1] += n;
            } else if (line[0] == 'S') {
                size_t n = strtoull(line.c_str() + 2, nullptr, 10);
                if (samples.size() < 8)
                    samples.push_back(s.substr(p, n));
                p += n + 1;
            } else if (line[0] == 'K') {
                size_t n = strtoull(line.c_str() + 2, nullptr, 10);
                for (size_t i = 0; i < n && p + 8 <= s.size(); ++i, p += 8) {
                    uint64_t k;
                    memcpy(&k, s.data() + p, 8);
                    keys.insert(k);
                }
            }
        }
    }
};

// ---------------------------------------------------------------- isolated execution
struct Result {
    enum Kind { Pass,
        Fail,
        Crash,
        Hang } kind
        = Pass;
    std::string msg;
    std::string notes;
    std::string log;
};

// a verdict that rests on time alone
static bool is_slow(const Result& r) { return r.kind == Result::Hang || (r.kind == Result::Fail && r.msg.compare(0, 8, "timeout:") == 0); }

static std::string g_work; // scratch directory
static Slot* g_replaySlot = nullptr;

static std::string sanitizer_log(pid_t pid)
{
    std::string r;
    for (const char* k : { "asan", "tsan", "ubsan" })
        r += read_file(Cat() << g_work << "/" << k << "." << pid);
    for (const char* k : { "asan", "tsan", "ubsan" })
        unlink(std::string(Cat() << g_work << "/" << k << "." << pid).c_str());
    return r;
}

static void child_setup()
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_IGN);
    // core dumps are of no use here
    rlimit rl { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    for (auto f : start_fns())
        f();
}

static std::string describe_status(int st)
{
    if (WIFSIGNALED(st))
        return Cat() << "killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
    if (WEXITSTATUS(st) == 99)
        return "memory or undefined-behaviour error reported by the sanitizer";
    if (WEXITSTATUS(st) == 98)
        return "data race or lock-order inversion reported by ThreadSanitizer";
    return Cat() << "process exited with status " << WEXITSTATUS(st);
}
static std::string first_report_line(const std::string& log)
{
    std::istringstream i(log);
    std::string l;
    while (std::getline(i, l))
        for (const char* k : { "ERROR:", "runtime error:", "WARNING: ThreadSanitizer", "terminate called" })
            if (l.find(k) != std::string::npos)
                return l;
    return "";
}

// over the limits? cpu and wall are of the current case
static bool over_limits(const Options& o, Slot* s, pid_t pid, double scale, std::string& why)
{
    uint64_t st = s->started.load();
    if (!st)
        return false;
    double wall = (now_ns() - st) / 1e9;
    clockid_t c;
    double cpu = 0;
    if (clock_getcpuclockid(pid, &c) == 0) {
        uint64_t t = now_ns(c), t0 = s->cpu0.load();
        cpu = t > t0 ? (t - t0) / 1e9 : 0;
    }
    if (cpu > o.cpu_limit * scale) {
        why = Cat() << "does not terminate: " << cpu << " s of CPU time used";
        return true;
    }
    if (wall > o.wall_limit * scale) {
        why = Cat() << "does not terminate: nothing happened for " << wall << " s";
        return true;
    }
    return false;
}

static Result run_isolated(const Options& o, const std::string& bytes, double scale = 1)
{
    Result r;
    int p[2];
    if (pipe(p))
        abort();
    g_replaySlot->started = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        child_setup();
        g_slot = g_replaySlot;
        g_ctx->note = true;
        std::string msg;
        Src src((const uint8_t*)bytes.data(), bytes.size());
        g_slot->cpu0 = now_ns(CLOCK_PROCESS_CPUTIME_ID);
        g_slot->started = now_ns();
        Outcome out = run_case(o, src, msg);
        std::string s;
        {
            std::lock_guard<std::mutex> l(g_ctx->m);
            s = Cat() << int(out) << "\n" << msg.size() << "\n" << msg << g_ctx->notes;
        }
        size_t off = 0;
        while (off < s.size()) {
            ssize_t n = write(p[1], s.data() + off, s.size() - off);
            if (n <= 0)
                break;
            off += n;
        }
        _exit(out == FAILED ? 3 : 0);
    }
    close(p[1]);
    std::string data;
    bool killed = false;
    std::string why;
    while (true) {
        pollfd pf { p[0], POLLIN, 0 };
        int n = poll(&pf, 1, 200);
        if (n > 0) {
            char b[8192];
            ssize_t k = read(p[0], b, sizeof b);
            if (k <= 0)
                break;
            data.append(b, k);
        } else if (over_limits(o, g_replaySlot, pid, scale, why)) {
            kill(pid, SIGKILL);
            killed = true;
            break;
        }
    }
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    r.log = sanitizer_log(pid);
    if (killed) {
        r.kind = Result::Hang;
        r.msg = why;
        return r;
    }
    size_t e = data.find('\n');
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3) && e != std::string::npos) {
        int out = atoi(data.c_str());
        size_t e2 = data.find('\n', e + 1);
        size_t n = strtoull(data.c_str() + e + 1, nullptr, 10);
        r.msg = data.substr(e2 + 1, n);
        r.notes = data.substr(std::min(data.size(), e2 + 1 + n));
        r.kind = out == FAILED ? Result::Fail : Result::Pass;
    } else {
        r.kind = Result::Crash;
        r.msg = describe_status(st);
        std::string l = first_report_line(r.log);
        if (!l.empty())
            r.msg += ": " + l;
    }
    return r;
}

// ---------------------------------------------------------------- shrinking
static std::string shrink(const Options& o, std::string best, Result& bestRes, double seconds, uint64_t& tries)
{
    const uint64_t deadline = now_ns() + uint64_t(seconds * 1e9);
    auto out = [&] { return now_ns() > deadline || tries > 4000; };
    auto attempt = [&](const std::string& c) {
        ++tries;
        Result r = run_isolated(o, c, 0.5);
        if (r.kind == Result::Fail || r.kind == Result::Crash) {
            best = c;
            if (r.kind == Result::Fail || !r.msg.empty())
                bestRes = r;
            return true;
        }
        return false;
    };
    // trailing zeros mean nothing
    while (!best.empty() && best.back() == 0)
        best.pop_back();
    // truncate
    for (size_t cut = best.size() / 2; cut >= 1 && !out();) {
        if (best.size() >= cut && attempt(best.substr(0, best.size() - cut)))
            continue;
        cut /= 2;
    }
    bool improved = true;
    while (improved && !out()) {
        improved = false;
        for (size_t len : { 256, 64, 32, 16, 8, 4, 3, 2, 1 }) {
            for (size_t i = 0; i + len <= best.size() && !out();) {
                std::string c = best;
                c.erase(i, len);
                if (attempt(c))
                    improved = true;
                else
                    i += std::max<size_t>(1, len / 2);
            }
        }
        for (size_t len : { 16, 8, 4, 2, 1 }) {
            for (size_t i = 0; i + len <= best.size() && !out(); i += len) {
                std::string c = best;
                for (size_t k = 0; k < len; ++k)
                    c[i + k] = 0;
                if (c != best && attempt(c))
                    improved = true;
            }
        }
        for (size_t i = 0; i < best.size() && !out(); ++i) {
            uint8_t v = best[i];
            for (unsigned nv : { v / 2, v - 1 }) {
                if (!v || nv >= v)
                    continue;
                std::string c = best;
                c[i] = nv;
                if (attempt(c)) {
                    improved = true;
                    break;
                }
            }
        }
    }
    return best;
}

static std::string to_hex(const std::string& s)
{
    static const char d[] = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}
static std::string from_hex(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += char(strtoul(s.substr(i, 2).c_str(), nullptr, 16));
    return r;
}

// Reproduces, shrinks and writes the replay file; returns its path
static std::string report(const Options& o, std::string bytes, Result first, const std::string& dir, const std::string& origin,
    double shrink_s)
{
    unsigned reproduced = 0;
    Result res = first;
    for (int i = 0; i < 3; ++i) {
        Result r = run_isolated(o, bytes, 1);
        if (r.kind != Result::Pass) {
            ++reproduced;
            if (r.kind != Result::Hang || first.kind == Result::Hang)
                res = r;
        }
        if (is_slow(r))
            break; // costs too much time
    }
    uint64_t tries = 0;
    size_t before = bytes.size();
    if (reproduced && !is_slow(res))
        bytes = shrink(o, bytes, res, shrink_s, tries);
    mkdir(dir.c_str(), 0777);
    std::string name = o.name;
    for (auto& c : name)
        if (!isalnum((unsigned char)c))
            c = '_';
    std::string path = Cat() << dir << "/" << o.id << (name.empty() ? "" : "-") << name << "-" << std::hex << hash_str(bytes) << ".replay";
    std::string s = Cat() << "property: " << o.id << "\nname: " << o.name << "\nbytes: " << to_hex(bytes) << "\nfailure: " << res.msg
                          << "\norigin: " << origin << "\nreproduced: " << reproduced << " of 3 attempts before shrinking\nshrunk: from " << before
                          << " to " << bytes.size() << " choice bytes in " << tries << " attempts\n\n--- case\n"
                          << res.notes << "\n--- sanitizer log\n"
                          << res.log;
    write_file(path, s);
    printf("FAILED %s %s: %s\n", o.id, o.name, res.msg.substr(0, 1500).c_str());
    printf("%s\n", res.notes.substr(0, 1500).c_str());
    return path;
}

struct Args {
    std::string prop, out, replays, replay, name, bytesFile, corpus;
    uint64_t seed = 1;
    double scale = 1, max_s = 300, shrink_s = 25;
    unsigned workers = 8;
};

static std::string choices_of(uint64_t seed, const Options& o, uint64_t index, uint64_t n)
{
    Slot* keep = g_slot;
    g_slot = nullptr;
    std::string bytes;
    Src src(case_seed(seed, o, index));
    for (uint64_t i = 0; i < n; ++i)
        bytes += char(src.byte());
    g_slot = keep;
    return bytes;
}

static bool run_prop(const Options& o, const Args& a, Totals& tot, std::string& replayPath, bool& timedOut)
{
    uint64_t cases = uint64_t(std::ceil((g_thorough ? o.thorough : o.quick) * a.scale));
    unsigned W = o.workers ? std::min(o.workers, a.workers) : a.workers;
    W = std::max(1u, unsigned(std::min<uint64_t>(W, cases)));
    Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_replaySlot = slots + W;
    std::vector<pid_t> pids(W);
    const uint64_t t0 = now_ns();
    const uint64_t deadline = t0 + uint64_t(a.max_s * 1e9);
    fflush(nullptr);
    auto statFile = [&](unsigned w) { return std::string(Cat() << g_work << "/w" << w); };
    auto failFile = [&](unsigned w) { return std::string(Cat() << g_work << "/f" << w); };
    auto startWorker = [&](unsigned w, uint64_t from) {
        unlink(failFile(w).c_str());
        slots[w].started = 0;
        pids[w] = fork();
        if (pids[w] != 0)
            return;
        child_setup();
        g_slot = &slots[w];
        Totals t;
        t.merge(read_file(statFile(w)));
        for (uint64_t i = from; i < cases && now_ns() < deadline; i += W) {
            g_slot->index = i;
            g_slot->consumed = 0;
            g_slot->cpu0 = now_ns(CLOCK_PROCESS_CPUTIME_ID);
            g_slot->started = now_ns();
            g_ctx->note = t.samples.size() < 3 && t.evaluations % 16 == 5;
            Src src(case_seed(a.seed, o, i));
            std::string msg;
            Outcome r = run_case(o, src, msg);
            g_slot->started = 0;
            g_slot->done++;
            if (r == FAILED) {
                write_file(failFile(w), msg);
                write_file(statFile(w), t.serialize());
                _exit(3);
            }
            t.account(r, src);
        }
        write_file(statFile(w), t.serialize());
        _exit(0);
    };
    for (unsigned w = 0; w < W; ++w) {
        unlink(statFile(w).c_str());
        startWorker(w, w);
    }
    Result first;
    uint64_t failIndex = ~0ull, failConsumed = 0;
    unsigned alive = W, hangs = 0;
    bool failed = false;
    while (alive) {
        bool any = false;
        for (unsigned w = 0; w < W; ++w) {
            if (!pids[w])
                continue;
            int st;
            pid_t p = waitpid(pids[w], &st, WNOHANG);
            std::string why;
            bool hang = false;
            if (p == 0 && !failed && over_limits(o, &slots[w], pids[w], 1, why)) {
                kill(pids[w], SIGKILL);
                p = waitpid(pids[w], &st, 0);
                hang = true;
            }
            if (p == 0)
                continue;
            any = true;
            pid_t pid = pids[w];
            pids[w] = 0;
            --alive;
            bool bad = hang || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
            if (bad && !failed) {
                if (hang) {
                    first.kind = Result::Hang;
                    first.msg = why;
                } else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
                    first.kind = Result::Fail;
                    first.msg = read_file(failFile(w));
                } else {
                    first.kind = Result::Crash;
                    first.log = sanitizer_log(pid);
                    first.msg = describe_status(st);
                    std::string l = first_report_line(first.log);
                    if (!l.empty())
                        first.msg += ": " + l;
                }
                if (is_slow(first) && ++hangs < 2) {
                    // Time is a weak oracle: believe it when it happens again, here or in another case
                    std::string bytes = choices_of(a.seed, o, slots[w].index, slots[w].consumed);
                    bool again = false;
                    for (int i = 0; i < 2 && !again; ++i)
                        again = run_isolated(o, bytes, 1.5).kind != Result::Pass;
                    if (!again) {
                        printf("%s: not reproduced, continuing: %s\n", o.id, first.msg.substr(0, 300).c_str());
                        first = Result();
                        startWorker(w, slots[w].index + W);
                        ++alive;
                        continue;
                    }
                }
                failed = true;
                failIndex = slots[w].index;
                failConsumed = slots[w].consumed;
                for (unsigned k = 0; k < W; ++k)
                    if (pids[k])
                        kill(pids[k], SIGKILL);
            }
        }
        if (!any)
            usleep(20000);
    }
    uint64_t done = 0;
    Totals here;
    for (unsigned w = 0; w < W; ++w) {
        done += slots[w].done;
        here.merge(read_file(statFile(w)));
    }
    timedOut = done < cases;
    if (here.evaluations < done && failed)
        here.evaluations = done;
    tot.merge(here.serialize());
    printf("%s%s%s: %lu cases, %lu discarded, %zu distinct non-trivial, %.1f s%s\n", o.id, *o.name ? "/" : "", o.name, here.evaluations,
        here.discards, here.keys.size(), (now_ns() - t0) / 1e9, timedOut ? " (stopped by the time limit)" : "");
    if (failed) {
        // the choices of that case
        std::string bytes = choices_of(a.seed, o, failIndex, failConsumed);
        replayPath = report(o, bytes, first, a.replays, Cat() << "seed " << a.seed << ", case " << failIndex << ", first seen as: " << first.msg,
            a.shrink_s);
    }
    munmap(slots, sizeof(Slot) * (W + 1));
    return !failed;
}

static int do_replay(const Args& a)
{
    std::string s = read_file(a.replay);
    auto field = [&](const char* k) {
        std::string key = std::string(k) + ": ";
        size_t p = s.compare(0, key.size(), key) == 0 ? 0 : s.find("\n" + key);
        if (p == std::string::npos)
            return std::string();
        if (p)
            ++p;
        p += key.size();
        return s.substr(p, s.find('\n', p) - p);
    };
    g_replaySlot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto& o : registry())
        if (field("property") == o.id && field("name") == o.name) {
            int bad = 0;
            for (int i = 0; i < 3; ++i) {
                Result r = run_isolated(o, from_hex(field("bytes")));
                static const char* kinds[] = { "passes", "FAILS", "CRASHES", "HANGS" };
                printf("attempt %d: %s %s\n%s\n%s\n", i + 1, kinds[r.kind], r.msg.c_str(), i ? "" : r.notes.c_str(), i ? "" : r.log.c_str());
                bad += r.kind != Result::Pass;
            }
            return bad ? 1 : 0;
        }
    fprintf(stderr, "no such property\n");
    return 2;
}

#ifdef PBT_FUZZ
// Coverage-guided: libFuzzer supplies the bytes. PBT_PROP names the property.
static const Options* g_fuzz = nullptr;
static Totals* g_fuzzTotals = nullptr;
static void fuzz_exit()
{
    const char* f = getenv("PBT_FUZZ_STATS");
    if (f && g_fuzzTotals)
        write_file(f, g_fuzzTotals->serialize());
}
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    const char* p = getenv("PBT_PROP");
    for (auto& o : registry())
        if (p && std::string(p) == std::string(o.id) + "/" + o.name)
            g_fuzz = &o;
    if (!g_fuzz) {
        fprintf(stderr, "PBT_PROP names no property\n");
        _exit(2);
    }
    g_fuzzTotals = new Totals;
    for (auto f : start_fns())
        f();
    atexit(fuzz_exit);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    Src src(d, n);
    std::string msg;
    g_ctx->note = g_fuzzTotals->samples.size() < 2 && g_fuzzTotals->evaluations % 4096 == 4000;
    Outcome r = run_case(*g_fuzz, src, msg);
    g_fuzzTotals->account(r, src);
    if (r == FAILED) {
        fprintf(stderr, "PBT FAILURE: %s\n", msg.c_str());
        fuzz_exit();
        abort();
    }
    return 0;
}
#else
static int real_main(int argc, char** argv)
{
    Args a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (k == "--prop")
            a.prop = v();
        else if (k == "--name")
            a.name = v();
        else if (k == "--seed")
            a.seed = strtoull(v().c_str(), nullptr, 0);
        else if (k == "--scale")
            a.scale = atof(v().c_str());
        else if (k == "--max-s")
            a.max_s = atof(v().c_str());
        else if (k == "--shrink-s")
            a.shrink_s = atof(v().c_str());
        else if (k == "--workers")
            a.workers = atoi(v().c_str());
        else if (k == "--out")
            a.out = v();
        else if (k == "--work")
            g_work = v();
        else if (k == "--replays")
            a.replays = v();
        else if (k == "--replay")
            a.replay = v();
        else if (k == "--bytes")
            a.bytesFile = v(); // failing input found by the fuzzer
        else if (k == "--corpus")
            a.corpus = v(); // write seeds for the fuzzer
        else if (k == "--thorough")
            g_thorough = true;
        else if (k == "--list") {
            for (auto& o : registry())
                printf("%s %s\n", o.id, o.name);
            return 0;
        } else {
            fprintf(stderr, "unknown option %s\n", k.c_str());
            return 2;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    if (!a.replay.empty())
        return do_replay(a);

    if (!a.corpus.empty()) {
        for (auto& o : registry()) {
            if (a.prop != o.id || a.name != o.name)
                continue;
            for (auto f : start_fns())
                f();
            for (uint64_t i = 0; i < 400; ++i) {
                Src src(case_seed(a.seed, o, 1000000 + i));
                std::string msg;
                if (run_case(o, src, msg) == FAILED)
                    return 1;
                Src again(case_seed(a.seed, o, 1000000 + i));
                std::string b;
                for (size_t k = 0; k < src.consumed() && k < 4096; ++k)
                    b += char(again.byte());
                write_file(Cat() << a.corpus << "/s" << i, b);
            }
        }
        return 0;
    }

    Totals tot;
    std::string rules, replayPath;
    bool ok = true, timedOut = false;
    unsigned n = 0;
    for (auto& o : registry()) {
        if (a.prop != o.id || (!a.name.empty() && a.name != o.name))
            continue;
        ++n;
        if (*o.rule)
            rules += (rules.empty() ? "" : " | ") + (*o.name ? std::string(o.name) + ": " : "") + o.rule;
        if (!a.bytesFile.empty()) {
            g_replaySlot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            std::string b = read_file(a.bytesFile);
            Result r = run_isolated(o, b);
            if (r.kind == Result::Pass) {
                printf("input of the fuzzer does not fail outside of it\n");
                return 0;
            }
            ok = false;
            replayPath = report(o, b, r, a.replays, "found by coverage-guided fuzzing", a.shrink_s);
            break;
        }
        bool to = false;
        if (!run_prop(o, a, tot, replayPath, to)) {
            ok = false;
            break;
        }
        timedOut |= to;
    }
    if (!n) {
        fprintf(stderr, "no such property: %s\n", a.prop.c_str());
        return 2;
    }
    std::string j = "{";
    j += Cat() << "\"ok\": " << (ok ? "true" : "false") << ", \"replay\": " << json_str(replayPath) << ", \"evaluations\": " << tot.evaluations
               << ", \"discards\": " << tot.discards << ", \"choices\": " << tot.choices << ", \"distinct_nontrivial\": " << tot.keys.size()
               << ", \"time_limit_hit\": " << (timedOut ? "true" : "false") << ", \"rule\": " << json_str(rules);
    j += ", \"labels\": {";
    bool f = true;
    for (auto& x : tot.labels) {
        j += Cat() << (f ? "" : ", ") << json_str(x.first) << ": " << x.second;
        f = false;
    }
    j += "}, \"samples\": [";
    f = true;
    for (auto& x : tot.samples) {
        j += (f ? "" : ", ") + json_str(x);
        f = false;
    }
    j += "]}\n";
    if (!a.out.empty())
        write_file(a.out, j);
    return ok ? 0 : 1;
}
#endif
} // namespace pbt

#ifndef PBT_FUZZ
int main(int argc, char** argv) { return pbt::real_main(argc, argv); }
#endif
