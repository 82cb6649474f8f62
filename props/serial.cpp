// Serials: C13
#include "../pbt/msg.h"
#include <algorithm>
#include <atomic>
#include <thread>

using namespace pbt;
using namespace DBus;

static void quiet() { Log::setLevel(4); }
static int init = (on_worker_start(quiet), 0);

#ifndef NO_HOOK
namespace {
struct Hook : Message::Base {
    static void set(uint32_t s) { setNextSerialForVerification(s); }
};
}
#endif

namespace {
struct Plan {
    uint8_t kind; // which constructor
    bool marshal;
};
// creates a message; returns its serial as the accessor or the bytes tell it
uint32_t create(const Plan& p, uint32_t tag)
{
    static const Message::MethodCallIdentifier id("/a", "b.c", "D");
    auto fromBytes = [](const std::string& s) {
        uint32_t v = 0;
        memcpy(&v, s.data() + 8, 4);
        return v;
    };
    switch (p.kind) {
    case 0: {
        Message::MethodCall m(id);
        return p.marshal ? fromBytes(m.marshall("x.y")) : m.getSerial();
    }
    case 1: {
        Message::MethodCall m(id, Message::MethodCallParametersIn(std::string("p"), tag), 1);
        return p.marshal ? fromBytes(m.marshall("x.y")) : m.getSerial();
    }
    case 2: {
        Message::MethodReturn m(tag + 1);
        return p.marshal ? fromBytes(m.marshall("x.y")) : m.getSerial();
    }
    case 3: {
        Message::Error m(tag + 1, "a.b", "c");
        return p.marshal ? fromBytes(m.marshall("x.y")) : m.getSerial();
    }
    default: {
        Message::Signal m(id);
        return p.marshal ? fromBytes(m.marshall("")) : m.getSerial();
    }
    }
}

std::vector<uint32_t> createAll(const std::vector<std::vector<Plan>>& plans, unsigned repeat)
{
    std::vector<std::vector<uint32_t>> got(plans.size());
    std::atomic<unsigned> ready { 0 };
    auto run = [&](size_t t) {
        got[t].reserve(plans[t].size() * repeat);
        ++ready;
        while (ready < plans.size())
            ; // all at once
        for (unsigned r = 0; r < repeat; ++r)
            for (auto& p : plans[t])
                got[t].push_back(create(p, r));
    };
    std::vector<std::thread> th;
    for (size_t t = 1; t < plans.size(); ++t)
        th.emplace_back(run, t);
    run(0);
    for (auto& t : th)
        t.join();
    std::vector<uint32_t> all;
    for (auto& g : got)
        all.insert(all.end(), g.begin(), g.end());
    return all;
}

std::vector<std::vector<Plan>> genPlans(Src& src, size_t maxThreads)
{
    std::vector<std::vector<Plan>> plans(1 + src.below(maxThreads));
    for (auto& p : plans) {
        size_t n = 1 + src.below(12);
        for (size_t i = 0; i < n; ++i)
            p.push_back({ uint8_t(src.below(5)), src.chance(1, 4) });
    }
    return plans;
}

void judge(std::vector<uint32_t> all, const std::string& where)
{
    std::sort(all.begin(), all.end());
    if (!all.empty())
        CHECK(all[0] != 0, where << ": a message got serial 0");
    for (size_t i = 1; i < all.size(); ++i)
        CHECK(all[i] != all[i - 1], where << ": serial " << all[i] << " was given to two messages, of " << all.size());
}
}

PROP(C13, "threads", 600, 20000, 60, 120, 1,
    "1-8 threads start together and each creates a generated mixture of the four kinds of message many times; serials are read from the accessor "
    "or from the serialised header; all must be non-zero and different; non-trivial: more than one thread")
{
    auto plans = genPlans(src, 8);
    unsigned repeat = 1 + src.below(src.chance(1, 4) ? 400 : 60);
    NOTE(plans.size() << " threads, " << plans[0].size() << " messages each " << repeat << " times\n");
    judge(createAll(plans, repeat), "creating messages at the same time");
    label("threads", plans.size());
    if (plans.size() > 1)
        nontrivial(hcomb(plans.size(), hcomb(repeat, plans[0].size() * 31 + plans[1].size())));
}

PROP(C13, "rounds", 60, 2000, 60, 120, 1,
    "2-12 rounds in each of which 1-6 new threads create messages, and now and then end before the next round, so that up to 200000 messages are made; all serials of all rounds must be non-zero and different; "
    "non-trivial: all")
{
    std::vector<uint32_t> all;
    const size_t rounds = 2 + src.below(11);
    const unsigned most = src.chance(1, 3) ? 600 : 60;
    uint64_t key = rounds;
    for (size_t r = 0; r < rounds; ++r) {
        auto plans = genPlans(src, 6);
        const unsigned repeat = 1 + src.below(most);
        auto more = createAll(plans, repeat);
        all.insert(all.end(), more.begin(), more.end());
        key = hcomb(key, plans.size() * 1000 + repeat);
    }
    NOTE(rounds << " rounds, " << all.size() << " messages\n");
    if (all.size() > 65536)
        label("more than 65536 messages");
    judge(all, "creating messages over time");
    nontrivial(key);
}

#ifndef NO_HOOK
PROP(C13, "wrap-around", 2000, 60000, 60, 120, 1,
    "the counter is set to a few steps before its end, or before 2^8, 2^16, 2^24 or 2^31 (by the hook), and 1-6 threads create messages until well past it; non-trivial: the "
    "counter passes its end during the case")
{
    auto plans = genPlans(src, 6);
    unsigned repeat = 1 + src.below(6);
    uint64_t total = 0;
    for (auto& p : plans)
        total += p.size() * repeat;
    uint32_t before = src.below(2 * total);
    const uint32_t end = src.chance(2, 3) ? 0xffffffffu : src.oneof<uint32_t>({ 0x100, 0x10000, 0x1000000, 0x80000000 });
    before = std::min(before, end - 1);
    NOTE("counter " << before << " steps before " << end << ", " << total << " messages by " << plans.size() << " threads\n");
    Hook::set(end - before);
    judge(createAll(plans, repeat), "creating messages while the counter wraps around");
    if (before < total) {
        label("wraps");
        nontrivial(hcomb(before, total * 8 + plans.size()));
    }
}
#endif
