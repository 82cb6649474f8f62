// Several threads on one or two connections: C30. Built with ThreadSanitizer,
// and again without it and with delays at lock operations.
#include "../pbt/bus.h"
#include <cstring>
#include <deque>
#include <map>
#include <fcntl.h>
#include <thread>
#include <unistd.h>

using namespace pbt;
using namespace DBus;
using bus::Counter;
using bus::Fence;
using bus::Server;

static void start()
{
    Log::setLevel(4);
    int fd = open("/dev/null", O_WRONLY); // what is logged is looked at by C33
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
}
static int init = (on_worker_start(start), 0);

namespace {
// Replies to every call and sends traffic of its own
struct Peer {
    Server s;
    Fence f;
    std::unique_ptr<Native> n;
    std::thread th;
    std::atomic<bool> stop { false };
    std::string problem; // read after the thread has ended
    std::atomic<uint64_t> calls { 0 };
    uint64_t incoming[5] = {}; // what was sent, by type
    uint64_t seen[5] = {}; // what arrived, by type

    void run(uint64_t seed, bool fd, unsigned traffic, unsigned batch)
    {
        try {
            s.handshake(fd);
            Fill r(seed);
            std::deque<uint32_t> due;
            uint32_t serial = 0;
            std::string in;
            for (;;) {
                const bool last = stop;
                s.fill(last ? 0 : due.empty() && !traffic ? 0.01 : 0.0003);
                while (ref::messageSize(s.pending())) {
                    Msg m = s.msg();
                    ++seen[m.type];
                    if (m.type == 1 && !(m.flags & 1))
                        due.push_back(m.serial);
                }
                std::string out;
                if (due.size() >= batch || r.below(3) == 0 || last) {
                    while (!due.empty()) {
                        size_t k = r.below(due.size());
                        Msg a;
                        a.type = r.below(4) ? 2 : 3;
                        if (a.type == 3)
                            a.errname = "e.e";
                        a.hasReply = true;
                        a.reply = due[k];
                        a.serial = ++serial;
                        due.erase(due.begin() + k);
                        ++incoming[a.type];
                        out += ref::encode(a);
                    }
                }
                if (traffic && !last) {
                    --traffic;
                    Msg m;
                    m.serial = ++serial;
                    m.path = "/x";
                    m.type = r.below(3) ? 4 : 1;
                    m.iface = r.below(4) ? "a.b" : "a.c";
                    m.member = std::string(1, char('A' + r.below(5)));
                    m.flags = m.type == 1;
                    ++incoming[m.type];
                    if (r.below(2))
                        m.args.push_back(ref::text('s', std::string(r.below(1500), 'x')));
                    out += ref::encode(m);
                }
                if (!out.empty())
                    s.send(out);
                if (last)
                    return;
            }
        } catch (const std::exception& e) {
            problem = e.what();
            async_fail(problem);
        }
    }
    ~Peer()
    {
        stop = true;
        if (th.joinable())
            th.join();
    }
};
struct Op {
    uint8_t what;
    uint8_t arg;
    uint16_t size;
};
const char* Names[] = { "calls", "returns", "errors", "signals", "call handler added", "call handler removed", "signal handler added", "signal handler removed", "rule added", "rule removed", "statistics",
    "log level", "logging", "messages created" };
}

PROP(C30, "threads", 700, 16000, 90, 150, 0,
    "2-5 threads carry out 10-60 generated operations each (sending the four kinds of message, adding and removing handlers and rules, statistics, logging, creating messages) on one or two connections, starting "
    "during authentication or after it, while the peer answers every call in any order and sends calls and signals to the handlers, which send messages themselves; every call must get one reply and every message must have "
    "been sent once; without data races and deadlocks; non-trivial: at least three kinds of operation")
{
    bus::perturb(0, 0, 0);
    struct Off {
        ~Off()
        {
            bus::perturb(0, 0, 0);
            Log::setLevel(4);
        }
    } off;
    const size_t links = 1 + src.chance(1, 4), threads = 2 + src.below(4);
    struct State {
        std::atomic<uint64_t> replies { 0 }, calls { 0 }, sent[5] {};
        std::atomic<uint64_t> twice { 0 };
    };
    auto st = std::make_shared<State>();
    auto cnt = std::make_shared<Counter>();
    std::deque<Peer> peers(links);
    for (auto& p : peers) {
        p.n.reset(new Native(p.s.path()));
        p.s.accept();
        p.f.install(*p.n);
    }
    std::vector<std::vector<Op>> ops(threads);
    unsigned kinds = 0;
    uint64_t h = links;
    for (auto& o : ops) {
        size_t k = 10 + src.below(51);
        // some threads stick to one thing, others mix
        const unsigned favourite = src.chance(1, 3) ? src.below(14) : 99;
        while (k--) {
            unsigned w = favourite < 14 && src.below(4) ? favourite : src.below(14);
            o.push_back({ uint8_t(w), uint8_t(src.byte()), uint16_t(src.below(4) ? src.below(50) : src.below(5000)) });
            kinds |= 1u << w;
            label(Names[w]);
        }
        h = hcomb(h, hash_bytes(o.data(), o.size() * sizeof(Op)));
    }
    const bool during = src.flip(); // authentication
    const bool fd = src.flip();
    const unsigned traffic = src.below(200), batch = 1 + src.below(10);
    const uint64_t seed = src.raw(4);
    const bool chained = src.flip();
    if (src.flip()) {
        static const unsigned oneIn[] = { 3, 15, 60 };
        unsigned a = oneIn[src.below(3)], b = src.below(200);
        bus::perturb(1 + seed, a, b);
    }
    NOTE(links << " connections, " << threads << " threads with " << ops[0].size() << ".. operations, started " << (during ? "during" : "after") << " authentication, " << traffic << " incoming messages\n");

    // handlers and callbacks of a connection run one at a time
    struct Inside {
        std::atomic<int>& n;
        explicit Inside(std::atomic<int>& x)
            : n(x)
        {
            if (n++)
                async_fail("two handlers of one connection run at the same time");
        }
        ~Inside() { --n; }
    };
    auto inside = std::make_shared<std::map<Native*, std::atomic<int>>>();
    for (auto& p : peers)
        (*inside)[p.n.get()] = 0;
    auto call = [st, cnt, inside](Native* n, size_t size, bool expectReply) {
        Message::MethodCallParametersIn p(std::string(size, 'c'));
        Message::MethodCall m(Message::MethodCallIdentifier("/o", "i.f", "M"), p, expectReply ? 0 : uint32_t(Message::Header::FLAGS_NO_REPLY_EXPECTED));
        ++st->sent[1];
        if (!expectReply) {
            n->sendMethodCall("x.y", m);
            return;
        }
        ++st->calls;
        auto once = std::make_shared<std::atomic<unsigned>>(0);
        auto done = [st, cnt, once, inside, n] {
            Inside in(inside->at(n));
            if ((*once)++)
                ++st->twice;
            ++st->replies;
            cnt->add();
        };
        n->sendMethodCall("x.y", m, [done](const Message::MethodReturn&) { done(); }, [done](const Message::Error&) { done(); });
    };
    auto onCall = [st, call, chained, inside](Native* n) {
        return [st, call, chained, n, inside](const Message::MethodCall& m) {
            Inside in(inside->at(n));
            Message::MethodReturn r(m.getSerial());
            ++st->sent[2];
            n->sendMethodReturn(m.getHeaderSender(), r);
            if (chained)
                call(n, 3, true);
        };
    };
    auto onSignal = [st, chained, inside](Native* n) {
        return [st, n, chained, inside](const Message::Signal& s) {
            Inside in(inside->at(n));
            if (chained) {
                Message::Signal r(Message::MethodCallIdentifier("/o", "i.f", "S"));
                ++st->sent[4];
                n->broadcastSignal(r);
            }
        };
    };
    std::atomic<unsigned> ready { 0 };
    auto operations = [&](size_t t) {
        ++ready;
        while (ready < threads)
            ;
        for (size_t i = 0; i < ops[t].size(); ++i) {
            const Op& o = ops[t][i];
            Native* n = peers[(o.arg >> 7) % links].n.get();
            // some names are used by one thread, some by all
            const std::string member(1, char('A' + o.arg % 5)), name = "a.b." + member;
            const std::string rule = "type='signal',interface='a.b',member='" + member + "'" + (o.arg & 32 ? "" : o.arg & 64 ? ",path='/x'" : ",path_namespace='/'");
            switch (o.what) {
            case 0:
                call(n, o.size, (o.arg & 7) != 0);
                break;
            case 1: {
                Message::MethodReturn r(o.size + 1);
                r.addParameter(Type::String(std::string(o.size, 'r')));
                ++st->sent[2];
                n->sendMethodReturn("x.y", r);
                break;
            }
            case 2: {
                Message::Error r(o.size + 1, "e.r.R", std::string(o.size, 'e'));
                ++st->sent[3];
                n->sendError("x.y", r);
                break;
            }
            case 3: {
                Message::Signal s(Message::MethodCallIdentifier("/o", "i.f", "S"));
                s.addParameter(Type::String(std::string(o.size, 's')));
                ++st->sent[4];
                if (o.arg & 1)
                    n->sendSignal("x.y", s);
                else
                    n->broadcastSignal(s);
                break;
            }
            case 4:
                n->registerMethodCallHandler(name, onCall(n));
                break;
            case 5:
                n->unRegisterMethodCallHandler(name);
                break;
            case 6:
                n->registerSignalHandler(name, onSignal(n));
                break;
            case 7:
                n->unRegisterSignalHandler(name);
                break;
            case 8: {
                ++st->calls;
                ++st->sent[1];
                auto done = [st, cnt] {
                    ++st->replies;
                    cnt->add();
                };
                n->callAddMatch(rule, [done](const Message::MethodReturn&) { done(); }, [done](const Message::Error&) { done(); }, onSignal(n));
                break;
            }
            case 9:
                ++st->sent[1];
                n->callRemoveMatch(rule);
                break;
            case 10: {
                const std::string s = n->getStats();
                if (s.find("count_sent_signals: ") == std::string::npos || s.find("bytes_sent: ") == std::string::npos)
                    async_fail("the statistics are incomplete: " + s);
                break;
            }
            case 11:
                Log::setLevel(o.arg % 16 == 0 ? 0 : 1 + o.arg % 4);
                break;
            case 12:
                if (Log::isActive(o.arg % 4))
                    Log::write(o.arg % 4, "%u %s\n", o.size, name.c_str());
                Log::writeHex(o.arg % 4, "hex ", name);
                break;
            default: {
                Message::MethodCall m(Message::MethodCallIdentifier("/o", "i.f", "M"), Message::MethodCallParametersIn(name), 0);
                Message::Signal s(Message::MethodCallIdentifier("/o", "i.f", "M"));
                if (m.getSerial() == s.getSerial())
                    async_fail("two messages have the same serial");
            }
            }
            if (o.arg % 11 == 0)
                bus::nap(o.arg);
        }
    };
    auto run = [&](size_t t) {
        try {
            operations(t);
        } catch (const std::exception& e) {
            async_fail(std::string("an operation has thrown: ") + e.what());
        }
    };
    // asks for the statistics all the time, from before authentication
    std::atomic<bool> enough { false };
    std::thread hammer;
    struct Join {
        std::atomic<bool>& stop;
        std::thread& t;
        ~Join()
        {
            stop = true;
            if (t.joinable())
                t.join();
        }
    } join { enough, hammer };
    if (src.chance(1, 4))
        hammer = std::thread([&] {
            while (!enough)
                peers[0].n->getStats();
        });
    for (auto& p : peers) {
        p.n->BeginAuth(fd ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
        p.th = std::thread([&p, seed, fd, traffic, batch] { p.run(seed, fd, traffic, batch); });
    }
    auto answered = [&] {
        try {
            cnt->waitFor(st->calls, "calls were answered");
        } catch (const Failure&) {
            rethrow_async_fail();
            throw;
        }
    };
    if (!during) // the reply to a call means that authentication is over
        for (auto& p : peers) {
            call(p.n.get(), 1, true);
            answered();
        }
    std::vector<std::thread> th;
    for (size_t t = 1; t < threads; ++t)
        th.emplace_back(run, t);
    run(0);
    for (auto& t : th)
        t.join();
    enough = true;
    if (hammer.joinable())
        hammer.join();
    // Handlers make calls as well, as long as there is traffic. No reply may be missing in the end.
    Log::setLevel(4);
    for (int again = 0; again < 3; ++again) {
        if (again == 2) {
            for (auto& p : peers) {
                p.stop = true;
                p.th.join();
                if (!p.problem.empty())
                    FAIL(p.problem);
                p.f.pass(p.s); // the handlers have run
                // what they have sent at last
            }
        }
        if (again < 2)
            answered();
    }
    bus::perturb(0, 0, 0);
    // those calls that handlers made last are answered here
    for (auto& p : peers) {
        for (int round = 0; round < 50; ++round) {
            while (p.s.fill(0.001)) {
            }
            std::string out;
            while (ref::messageSize(p.s.pending())) {
                Msg m = p.s.msg();
                ++p.seen[m.type];
                if (m.type == 1 && !(m.flags & 1)) {
                    Msg a;
                    a.type = 2;
                    a.hasReply = true;
                    a.reply = m.serial;
                    a.serial = 1;
                    ++p.incoming[2];
                    out += ref::encode(a);
                }
            }
            uint64_t seen = 0, sent = 0;
            for (auto& q : peers)
                for (int i = 1; i < 5; ++i)
                    seen += q.seen[i];
            for (int i = 1; i < 5; ++i)
                sent += st->sent[i];
            if (!out.empty())
                p.s.send(out);
            else if (&p == &peers.back() ? seen == sent : round > 3)
                break;
            p.f.pass(p.s);
        }
    }
    for (auto& p : peers)
        p.f.pass(p.s);
    rethrow_async_fail();
    CHECK(st->twice == 0, "a call was answered twice");
    CHECK(st->replies == st->calls, st->replies << " of " << st->calls << " calls got a reply");
    uint64_t seen[5] = {};
    for (auto& p : peers) {
        const std::string s = p.n->getStats();
        static const char* kind[] = { "", "methodcalls", "methodreturns", "errors", "signals" };
        for (int i = 1; i < 5; ++i) {
            seen[i] += p.seen[i];
            uint64_t a = bus::stat(s, std::string("count_sent_") + kind[i]), b = bus::stat(s, std::string("count_receive_") + kind[i]);
            CHECK(a == p.seen[i], kind[i] << ": " << a << " were counted as sent, " << p.seen[i] << " arrived");
            uint64_t want = p.incoming[i] + (i == 1 ? p.f.sent() : 0);
            CHECK(b == want, kind[i] << ": " << b << " were counted as received, " << want << " were sent by the peer");
        }
    }
    for (int i = 1; i < 5; ++i)
        CHECK(seen[i] == st->sent[i], seen[i] << " messages of type " << i << " arrived, " << st->sent[i] << " were sent");
    for (auto& p : peers)
        p.n.reset();
    rethrow_async_fail();
    label("replies", st->replies);
    if (__builtin_popcount(kinds) >= 3)
        nontrivial(h);
}
