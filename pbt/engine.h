// A small property-based testing engine.
//
// A case is a string of bytes ("choices"). A property draws numbers from it
// and builds its inputs, operation sequences, schedules and faults from them.
// Random cases, coverage-guided fuzzing, replay and shrinking all use the same
// property function; only the origin of the bytes differs.
#pragma once
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

uint64_t mix(uint64_t x);
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix(a * 0x9e3779b97f4a7c15ull + b + 0x1234567); }
uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 1);
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

// Thrown when a property does not hold
struct Failure : std::runtime_error {
    using std::runtime_error::runtime_error;
};
// Thrown to abandon a case that does not meet a precondition
struct Discard {
};

// A deterministic generator for bulk content, so that large data costs few choices
struct Fill {
    uint64_t s;
    explicit Fill(uint64_t seed) : s(mix(seed + 77)) {}
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        return mix(s);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

class Src {
public:
    // random: endless stream derived from a seed
    explicit Src(uint64_t seed) : m_random(true), m_seed(seed) {}
    // replay: the given bytes, then zeros
    Src(const uint8_t* d, size_t n) : m_random(false), m_data(d, d + n) {}

    uint8_t byte();
    uint64_t raw(unsigned nbytes);
    // uniform-ish in [0, n)
    uint64_t below(uint64_t n);
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    // true with probability num/den; simplest choice is false
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool flip() { return below(2); }
    // index by weight, the first alternative is the simplest
    size_t weighted(std::initializer_list<unsigned> w);
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T oneof(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    // loop condition: on average 'mean' iterations, at most 'max'
    bool more(size_t done, double mean, size_t max);
    // sizes biased to small ones and to boundaries, in [0, max]
    size_t size(size_t max);
    uint64_t interesting(unsigned bits);

    size_t consumed() const { return m_pos; }
    bool exhausted() const { return !m_random && m_pos >= m_data.size(); }
    bool random() const { return m_random; }

private:
    bool m_random;
    uint64_t m_seed = 0;
    std::vector<uint8_t> m_data;
    size_t m_pos = 0;
    uint64_t m_block = 0;
    size_t m_blockIdx = ~size_t(0);
};

// What is recorded about the case that is running. Safe to use from any thread.
void nontrivial(uint64_t key); // this case counts as non-trivial; key identifies it
void label(const std::string& l, uint64_t n = 1); // histogram for the evidence
bool noting(); // is the description of this case wanted?
void note_raw(const std::string& s);
void async_fail(const std::string& msg); // failure noticed where throwing does not work
void rethrow_async_fail();
bool thorough();
uint64_t scratch_id(); // unique per case execution, for names of sockets etc.

struct Cat {
    std::ostringstream o;
    template <class T> Cat& operator<<(const T& t)
    {
        o << t;
        return *this;
    }
    operator std::string() const { return o.str(); }
};
#define NOTE(x)                                        \
    do {                                               \
        if (pbt::noting())                             \
            pbt::note_raw(std::string(pbt::Cat() << x)); \
    } while (0)
#define FAIL(x) throw pbt::Failure(std::string(pbt::Cat() << x))
#define CHECK(c, x) \
    do {            \
        if (!(c))   \
            FAIL(x); \
    } while (0)

std::string hexdump(const std::string& s, size_t max = 400);
std::string show(const std::string& s, size_t max = 60); // quoted and shortened

typedef void (*PropFn)(Src&);
struct Options {
    const char* id;
    const char* name; // sub-property of the same id; "" if there is only one
    PropFn fn;
    uint64_t quick; // number of cases
    uint64_t thorough;
    double cpu_limit; // CPU seconds after which a case counts as looping
    double wall_limit; // seconds without an end after which a case counts as hanging
    unsigned workers; // 0: as many as there are cores
    const char* rule; // how cases are made and what makes one non-trivial
};
struct Register {
    Register(const Options& o);
};
// PROP(C01, "name", quick, thorough, cpu, wall, workers, "rule") { ... uses src ... }
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROP(ID, NAME, QUICK, THOROUGH, CPU, WALL, WORKERS, RULE)                                              \
    static void PBT_CAT(prop_, __LINE__)(pbt::Src & src);                                                      \
    static pbt::Register PBT_CAT(reg_, __LINE__)(                                                              \
        pbt::Options { #ID, NAME, PBT_CAT(prop_, __LINE__), QUICK, THOROUGH, CPU, WALL, WORKERS, RULE }); \
    static void PBT_CAT(prop_, __LINE__)(pbt::Src & src)

// Called in the process that runs cases, before the first one
void on_worker_start(void (*fn)());

} // namespace pbt
