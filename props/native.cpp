// A connection with a scripted server at the other end: C10, C14-C16, C18-C22, C28, C34, C35
#include "link.h"
#include <unistd.h>

// ------------------------------------------------------------------ C10
namespace {
// Runs something in a thread of its own, and fails if it does not end. The
// connection is then left alone, as the thread still uses it.
template <class F> void inTime(Link& l, const char* what, F f)
{
    auto done = std::make_shared<Counter>();
    std::thread t([done, f] {
        f();
        done->add();
    });
    try {
        done->waitFor(1, what);
    } catch (...) {
        t.detach();
        l.n.release();
        throw;
    }
    t.join();
}
void throwOne(size_t which)
{
    switch (which % 5) {
    case 0:
        throw std::runtime_error("handler");
    case 1:
        throw std::out_of_range("handler");
    case 2:
        throw std::bad_function_call();
    case 3:
        throw std::bad_alloc();
    default:
        std::stoi("x");
    }
}
}
PROP(C10, "connection", 4000, 60000, 15, 110, 0,
    "1-5 rounds: method call handlers, signal handlers, rules and calls under way of which some throw, then a burst of messages for them mixed with undecodable ones; everything is invoked as if nothing had been thrown, "
    "and after each burst another thread can register, remove, call and ask for the statistics; non-trivial: a handler threw or a bad message came, and good messages followed")
{
    struct Rec {
        int id;
        Got got;
    };
    auto recs = std::make_shared<std::pair<std::mutex, std::vector<Rec>>>();
    auto take = [recs](int id, bool throws, const Got& g) {
        {
            std::lock_guard<std::mutex> lk(recs->first);
            recs->second.push_back({ id, g });
        }
        if (throws)
            throwOne(id);
    };
    Link l;
    l.up();
    l.f.asSignals(src.flip());
    maybePerturb(src);
    struct Target {
        int kind; // 0: method call handler, 1: signal handler, 2: rule, 3: call under way
        bool throws, live;
        uint32_t serial;
    };
    auto shared = std::make_shared<std::vector<Target>>();
    auto& targets = *shared;
    auto name = [](int id) { return "M" + std::to_string(id); };
    bool interesting = false;
    uint64_t h = 0;
    uint32_t serial = 0;
    for (size_t rounds = 1 + src.below(5); rounds--;) {
        const size_t from = targets.size();
        for (size_t k = 1 + src.below(4); k--;)
            targets.push_back({ int(src.below(4)), src.chance(1, 3), true, 0 });
        std::vector<size_t> gone;
        for (size_t i = 0; i < from; ++i)
            if (targets[i].live && targets[i].kind < 3 && src.chance(1, 4))
                gone.push_back(i);
        const bool stats = src.chance(1, 3);
        Native* n = l.n.get();
        inTime(l, "registering, removing and calling from another thread", [n, take, stats, gone, from, shared, name] {
            auto& targets = *shared;
            for (size_t i : gone) {
                const std::string m = name(i);
                if (targets[i].kind == 0)
                    n->unRegisterMethodCallHandler("c.d." + m);
                else if (targets[i].kind == 1)
                    n->unRegisterSignalHandler("c.d." + m);
                else
                    n->callRemoveMatch("type='signal',interface='c.d',member='" + m + "'");
                targets[i].live = false;
            }
            for (size_t i = from; i < targets.size(); ++i) {
                const int id = i;
                const bool throws = targets[i].throws;
                const std::string m = name(id);
                switch (targets[i].kind) {
                case 0:
                    n->registerMethodCallHandler("c.d." + m, [=](const Message::MethodCall& x) { take(id, throws, ref::got(x)); });
                    break;
                case 1:
                    n->registerSignalHandler("c.d." + m, [=](const Message::Signal& x) { take(id, throws, ref::got(x)); });
                    break;
                case 2:
                    n->callAddMatch(
                        "type='signal',interface='c.d',member='" + m + "'", [](const Message::MethodReturn&) {}, [](const Message::Error&) {},
                        [=](const Message::Signal& x) { take(id, throws, ref::got(x)); });
                    break;
                default: {
                    Message::MethodCall c(Message::MethodCallIdentifier("/o", "c.d", m));
                    targets[i].serial = c.getSerial();
                    n->sendMethodCall("x.y", c, [=](const Message::MethodReturn& x) { take(id, throws, ref::got(x)); }, [=](const Message::Error& x) { take(id, throws, ref::got(x)); });
                }
                }
            }
            if (stats)
                n->getStats();
        });
        for (size_t i : gone)
            NOTE("removed " << i << "\n");
        for (size_t i = from; i < targets.size(); ++i) {
            static const char* const what[] = { "method call handler ", "signal handler ", "rule ", "call under way " };
            NOTE(what[targets[i].kind] << i << (targets[i].throws ? " (throws)\n" : "\n"));
            h = hcomb(h, targets[i].kind * 2 + targets[i].throws);
        }
        std::vector<std::string> out;
        std::vector<std::pair<int, Msg>> want;
        bool fault = false;
        for (size_t k = src.below(10); k--;) {
            if (src.chance(1, 4)) {
                std::string why;
                out.push_back(ref::badMessage(src, why));
                NOTE("bad: " << why << "\n");
                label("bad messages");
                fault = true;
                h = hcomb(h, 99);
                continue;
            }
            const size_t i = src.below(targets.size());
            Target& t = targets[i];
            ref::MsgOpt o;
            o.budget = 60;
            o.maxArgs = 3;
            o.type = t.kind == 0 ? 1 : t.kind < 3 ? 4 : 2 + src.below(2);
            Msg m = ref::genMsg(src, o);
            m.serial = ++serial;
            m.iface = "c.d";
            m.member = name(i);
            if (t.kind == 3) {
                m.iface = m.member = "";
                m.reply = t.serial;
            }
            NOTE("for " << i << "\n");
            label(t.throws ? "messages for a handler that throws" : "messages for a handler");
            out.push_back(ref::encode(m));
            if (t.live)
                want.push_back({ int(i), m });
            interesting |= fault && t.live;
            fault |= t.throws && t.live;
            if (t.kind == 3)
                t.live = false;
            h = hcomb(h, i);
        }
        deliver(src, l.s, out);
        l.f.pass(l.s);
        std::lock_guard<std::mutex> lk(recs->first);
        auto& got = recs->second;
        for (size_t i = 0; i < std::max(want.size(), got.size()); ++i) {
            if (i >= got.size())
                FAIL("message " << want[i].second.serial << " for " << want[i].first << " has not been delivered");
            if (i >= want.size())
                FAIL(got[i].id << " was invoked with " << ref::describe(got[i].got) << ", which was not sent for it");
            CHECK(got[i].id == want[i].first, got[i].id << " was invoked with " << ref::describe(got[i].got) << " instead of " << want[i].first << " with " << ref::describe(want[i].second));
            ref::checkGot(got[i].got, want[i].second, "message");
        }
        got.clear();
    }
    l.end();
    if (interesting)
        nontrivial(h);
}

// ------------------------------------------------------------------ C14
PROP(C14, "replies", 9000, 120000, 15, 90, 0,
    "1-24 calls (some without a reply expected) from 1-3 threads in 1-4 rounds; between rounds the server sends returns and errors in any order, several for the same call, with unknown reply "
    "serials, for calls that expect none, among other traffic and in any cut; some callbacks throw; non-trivial: replies out of order, a duplicate, or a throwing callback")
{
    Link l;
    l.up();
    l.f.asSignals(src.flip());
    struct Rec {
        size_t call;
        bool success;
        Got got;
    };
    struct Call {
        uint32_t serial = 0;
        bool wants = true, throws = false;
        std::string to, iface;
        uint32_t flags = 0;
        bool answered = false;
        Msg first;
    };
    auto recs = std::make_shared<std::pair<std::mutex, std::vector<Rec>>>();
    std::vector<Call> calls;
    maybePerturb(src);
    size_t rounds = 1 + src.below(4);
    bool interesting = false;
    uint64_t h = 0;
    uint32_t serverSerial = 1;
    for (size_t r = 0; r < rounds; ++r) {
        // send
        size_t k = src.below(7), base = calls.size(), threads = 1 + src.below(3);
        for (size_t i = 0; i < k; ++i) {
            Call c;
            c.wants = !src.chance(1, 5);
            c.throws = src.chance(1, 5);
            c.to = src.oneof<std::string>({ "x.y", "org.freedesktop.DBus", ":1.5", "" });
            c.iface = src.oneof<std::string>({ "i.f", "" });
            c.flags = (c.wants ? 0 : 1) | (src.chance(1, 4) ? 2 : 0);
            calls.push_back(c);
        }
        auto sendSome = [&](size_t t) {
            for (size_t i = base + t; i < base + k; i += threads) {
                bool throws = calls[i].throws;
                auto cb = [recs, i, throws](bool success, const Got& g) {
                    {
                        std::lock_guard<std::mutex> lk(recs->first);
                        recs->second.push_back({ i, success, g });
                    }
                    if (throws)
                        throw std::runtime_error("callback");
                };
                Message::MethodCallParametersIn p;
                p.add(uint32_t(i));
                Message::MethodCall m(Message::MethodCallIdentifier("/o", calls[i].iface, "M"), p, calls[i].flags);
                l.n->sendMethodCall(calls[i].to, m, [cb](const Message::MethodReturn& m) { cb(true, ref::got(m)); }, [cb](const Message::Error& m) { cb(false, ref::got(m)); });
            }
        };
        std::vector<std::thread> th;
        for (size_t t = 1; t < threads; ++t)
            th.emplace_back(sendSome, t);
        sendSome(0);
        for (auto& t : th)
            t.join();
        for (size_t i = 0; i < k; ++i) {
            Msg m = l.s.msg();
            CHECK(m.type == 1 && m.args.size() == 1, "the server receives " << ref::describe(m) << " instead of a call");
            size_t id = m.args[0].u;
            CHECK(id >= base && id < base + k && !calls[id].serial, "the server receives call number " << id << " again or too early");
            calls[id].serial = m.serial;
        }
        // answer
        std::vector<std::string> out;
        size_t n = src.below(2 * calls.size() + 3);
        size_t last = 0;
        for (size_t i = 0; i < n; ++i) {
            size_t what = src.weighted({ 8, 1, 1 });
            if (what == 0 && !calls.empty()) {
                size_t c = src.below(calls.size());
                ref::MsgOpt o;
                o.type = 2 + src.below(2);
                o.budget = 60;
                o.maxArgs = 3;
                Msg m = ref::genMsg(src, o);
                m.reply = calls[c].serial;
                m.serial = ++serverSerial;
                interesting |= c < last || calls[c].answered || calls[c].throws;
                last = c;
                label(calls[c].answered ? "duplicate reply" : !calls[c].wants ? "reply to a call that expects none" : m.type == 2 ? "return" : "error");
                if (!calls[c].answered) {
                    calls[c].answered = true;
                    calls[c].first = m;
                }
                NOTE("  " << (m.type == 2 ? "return" : "error") << " for call " << c << (calls[c].wants ? "" : " (expects none)") << (calls[c].throws ? " (throws)" : "") << "\n");
                out.push_back(ref::encode(m));
                h = hcomb(h, c * 4 + m.type);
            } else if (what == 1) {
                Msg m = noise(src);
                out.push_back(ref::encode(m));
            } else {
                Msg m;
                m.type = 2 + src.below(2);
                m.hasReply = true;
                m.serial = ++serverSerial;
                m.reply = 0x60000000u + src.below(100);
                if (!calls.empty() && src.flip()) {
                    // Similar to that of a call
                    const uint32_t s = src.pick(calls).serial;
                    m.reply = src.oneof<uint32_t>({ s ^ 0x80000000u, s + 0x10000, s + 0x1000000, __builtin_bswap32(s), ~s, s & 0xffff ? s << 16 : s + 0x10000 });
                    for (auto& c : calls)
                        if (c.serial == m.reply)
                            m.reply = 0x60000000u;
                }
                if (m.type == 3)
                    m.errname = "a.b";
                out.push_back(ref::encode(m));
            }
        }
        deliver(src, l.s, out);
        if (src.flip())
            l.f.pass(l.s);
    }
    l.f.pass(l.s);
    bus::perturb(0, 0, 0);
    std::lock_guard<std::mutex> lk(recs->first);
    std::vector<unsigned> times(calls.size());
    for (auto& r : recs->second) {
        const Call& c = calls[r.call];
        CHECK(c.wants, "call " << r.call << " expects no reply, but its " << (r.success ? "success" : "failure") << " callback was invoked");
        CHECK(c.answered, "call " << r.call << " (serial " << c.serial << ") was not answered, but a callback was invoked with " << ref::describe(r.got));
        CHECK(++times[r.call] == 1, "callbacks of call " << r.call << " were invoked more than once");
        CHECK(r.success == (c.first.type == 2), "call " << r.call << ": the wrong one of the two callbacks was invoked");
        ref::checkGot(r.got, c.first, Cat() << "reply to call " << r.call);
    }
    for (size_t i = 0; i < calls.size(); ++i)
        CHECK(times[i] == (calls[i].wants && calls[i].answered), "call " << i << " (serial " << calls[i].serial << ") was answered, but no callback was invoked");
    l.end();
    label("calls", calls.size());
    if (interesting)
        nontrivial(h);
}

PROP(C14, "immediate", 1500, 25000, 15, 90, 0,
    "1-4 threads send 5-60 calls each while the server answers each one the moment it arrives, with delays at lock operations in some cases; every call must be answered exactly once; non-trivial: all")
{
    Link l;
    l.up();
    size_t threads = 1 + src.below(4), k = 5 + src.below(56);
    maybePerturb(src);
    unsigned errors = src.below(4);
    auto cnt = std::make_shared<Counter>();
    auto per = std::make_shared<std::vector<std::atomic<unsigned>>>(threads * k);
    std::string problem;
    std::thread echo([&] {
        try {
            for (size_t i = 0; i < threads * k; ++i) {
                Msg m = l.s.msg(), r;
                r.type = m.args.at(0).u % 4 < errors ? 3 : 2;
                if (r.type == 3)
                    r.errname = "e.e";
                r.hasReply = true;
                r.reply = m.serial;
                r.serial = i + 1;
                r.args.push_back(m.args[0]);
                l.s.send(ref::encode(r));
            }
        } catch (const std::exception& e) {
            problem = e.what();
        }
    });
    auto send = [&](size_t t) {
        for (size_t i = 0; i < k; ++i) {
            uint32_t id = t * k + i;
            auto cb = [cnt, per, id, errors](bool ok, const Got& g) {
                ++(*per)[id];
                if (ok != (id % 4 >= errors) || g.args.size() != 1 || Type::asUint32(g.args[0]) != id)
                    async_fail(Cat() << "call " << id << " got the reply " << ref::describe(g));
                cnt->add();
            };
            Message::MethodCallParametersIn p;
            p.add(id);
            Message::MethodCall m(Message::MethodCallIdentifier("/o", "i.f", "M"), p, 0);
            l.n->sendMethodCall("x.y", m, [cb](const Message::MethodReturn& m) { cb(true, ref::got(m)); }, [cb](const Message::Error& m) { cb(false, ref::got(m)); });
        }
    };
    std::vector<std::thread> th;
    for (size_t t = 1; t < threads; ++t)
        th.emplace_back(send, t);
    send(0);
    for (auto& t : th)
        t.join();
    echo.join();
    if (!problem.empty())
        FAIL(problem);
    l.f.pass(l.s); // all the replies have been processed
    bus::perturb(0, 0, 0);
    rethrow_async_fail();
    for (size_t i = 0; i < per->size(); ++i)
        CHECK((*per)[i] == 1, "call " << i % k << " of thread " << i / k << ", answered at once, had its callback invoked " << (*per)[i] << " times");
    l.end();
    NOTE(threads << " threads, " << k << " calls each, " << errors << " of 4 answered with an error\n");
    nontrivial(hcomb(threads * 1000 + k, errors));
}

// ------------------------------------------------------------------ C15
namespace {
const std::vector<std::string> Ifaces { "a.b", "a.bM", "vf.X" }, Members { "M", "N", "MM" };
struct HandlerLog {
    struct Rec {
        int handler;
        Got got;
    };
    std::mutex m;
    std::vector<Rec> recs;
    std::map<int, int> times;
    // state: how often the handler was invoked, as it counts itself
    void add(int h, const Got& g, int state = 0)
    {
        std::lock_guard<std::mutex> l(m);
        recs.push_back({ h, g });
        if (state && state != ++times[h])
            async_fail(Cat() << "invocation " << times[h] << " of handler " << h << " finds its own state as before invocation " << state);
    }
};
}
PROP(C15, "history", 9000, 120000, 15, 90, 0,
    "1-10 rounds of registering and removing handlers for a few interface.member names followed by a burst of calls (some without interface, to unregistered or nearly equal names), in any cut, "
    "some handlers throw; invocations compared with a model in order; non-trivial: a name was removed or registered again, and calls for it followed")
{
    Link l;
    l.up();
    l.f.asSignals(src.chance(2, 3));
    auto log = std::make_shared<HandlerLog>();
    std::map<std::string, int> reg; // name -> handler
    struct Want {
        int handler;
        Msg m;
    };
    std::vector<Want> want;
    int nextHandler = 1;
    uint32_t serial = 0;
    size_t rounds = 1 + src.below(10);
    std::set<std::string> changed;
    bool interesting = false;
    uint64_t h = 0;
    for (size_t r = 0; r < rounds; ++r) {
        size_t ops = src.below(4);
        while (ops--) {
            std::string name = src.pick(Ifaces) + "." + src.pick(Members);
            if (!reg.count(name) && !src.chance(1, 6)) {
                int id = nextHandler++;
                bool throws = src.chance(1, 8);
                l.n->registerMethodCallHandler(name, [log, id, throws, state = 0](const Message::MethodCall& m) mutable {
                    log->add(id, ref::got(m), ++state);
                    if (throws)
                        throw std::runtime_error("handler");
                });
                reg[name] = id;
                NOTE("register " << name << " as " << id << (throws ? " (throws)" : "") << "\n");
                h = hcomb(h, hash_str(name));
            } else {
                l.n->unRegisterMethodCallHandler(name);
                if (reg.erase(name))
                    changed.insert(name);
                NOTE("remove " << name << "\n");
                h = hcomb(h, hash_str(name) + 1);
            }
        }
        std::vector<std::string> out;
        size_t n = src.below(8);
        while (n--) {
            if (src.chance(1, 8)) {
                Msg m = noise(src);
                if (m.type != 1)
                    out.push_back(ref::encode(m));
                continue;
            }
            ref::MsgOpt o;
            o.type = 1;
            o.budget = 60;
            o.maxArgs = 3;
            Msg m = ref::genMsg(src, o);
            m.serial = ++serial;
            m.iface = src.chance(1, 12) ? "" : src.chance(1, 12) ? "b" : src.pick(Ifaces);
            m.member = src.chance(1, 12) ? "m" : src.pick(Members);
            auto it = reg.find(m.iface + "." + m.member);
            if (it != reg.end())
                want.push_back({ it->second, m });
            interesting |= changed.count(m.iface + "." + m.member) > 0;
            NOTE("call " << serial << " " << m.iface << "." << m.member << " -> " << (it == reg.end() ? 0 : it->second) << "\n");
            label(it == reg.end() ? "call without handler" : "call with handler");
            out.push_back(ref::encode(m));
            h = hcomb(h, hash_str(m.iface + "." + m.member));
        }
        deliver(src, l.s, out);
        l.f.pass(l.s);
        std::lock_guard<std::mutex> lk(log->m);
        for (size_t i = 0; i < std::max(want.size(), log->recs.size()); ++i) {
            if (i >= log->recs.size())
                FAIL("call " << want[i].m.serial << " to " << want[i].m.iface << "." << want[i].m.member << " invoked nothing instead of handler " << want[i].handler);
            if (i >= want.size())
                FAIL("handler " << log->recs[i].handler << " was invoked with " << ref::describe(log->recs[i].got) << ", which is not registered for it");
            CHECK(log->recs[i].handler == want[i].handler, "handler " << log->recs[i].handler << " was invoked with " << ref::describe(log->recs[i].got) << " instead of handler " << want[i].handler
                                                                      << " with " << ref::describe(want[i].m));
            ref::checkGot(log->recs[i].got, want[i].m, "call");
        }
        log->recs.clear();
        want.clear();
    }
    l.end();
    if (interesting)
        nontrivial(h);
}

PROP(C15, "during traffic", 1200, 20000, 15, 90, 0,
    "one thread sends 50-400 calls while another keeps removing and registering some of the names again; names that stay registered must get each of their calls exactly once and in order, the others each "
    "of theirs at most once and by one of their own handlers; non-trivial: all")
{
    Link l;
    l.up();
    struct State {
        std::mutex m;
        std::vector<uint32_t> stable[2], moving[2];
    };
    auto st = std::make_shared<State>();
    const std::string stable[2] = { "s.t.A", "s.t.B" }, moving[2] = { "m.v.A", "m.v.B" };
    auto handler = [st](bool stab, int i) {
        return [st, stab, i](const Message::MethodCall& m) {
            std::string name = std::string(stab ? "s.t." : "m.v.") + "AB"[i];
            if (m.getFullName() != name)
                async_fail("a handler for " + name + " was invoked for " + m.getFullName());
            std::lock_guard<std::mutex> lk(st->m);
            (stab ? st->stable : st->moving)[i].push_back(m.getSerial());
        };
    };
    for (int i = 0; i < 2; ++i)
        l.n->registerMethodCallHandler(stable[i], handler(true, i));
    size_t n = 50 + src.below(350);
    std::string d;
    std::vector<size_t> marks;
    std::vector<uint32_t> wantStable[2], sentMoving[2];
    for (uint32_t i = 1; i <= n; ++i) {
        size_t k = src.below(4);
        Msg m = simple(1, i, "/x", k < 2 ? "s.t" : "m.v", std::string(1, "AB"[k & 1]));
        m.flags = 1;
        (k < 2 ? wantStable : sentMoving)[k & 1].push_back(i);
        marks.push_back(d.size());
        d += ref::encode(m);
    }
    auto cuts = ref::genCuts(src, d.size(), marks);
    uint64_t toggles = src.raw(4);
    maybePerturb(src);
    std::atomic<bool> done { false };
    uint64_t changes = 0;
    std::thread th([&] {
        Fill f(toggles);
        bool on[2] = { false, false };
        while (!done) {
            int i = f.below(2);
            if (on[i])
                l.n->unRegisterMethodCallHandler(moving[i]);
            else
                l.n->registerMethodCallHandler(moving[i], handler(false, i));
            on[i] = !on[i];
            ++changes;
            if (f.below(3) == 0)
                bus::nap(f.below(100));
        }
    });
    std::string problem;
    try {
        l.s.sendCut(d, cuts, 0);
        l.f.pass(l.s);
    } catch (const std::exception& e) {
        problem = e.what();
    }
    done = true;
    th.join();
    if (!problem.empty())
        FAIL(problem);
    bus::perturb(0, 0, 0);
    std::lock_guard<std::mutex> lk(st->m);
    for (int i = 0; i < 2; ++i) {
        CHECK(st->stable[i] == wantStable[i], stable[i] << ", which stays registered, was invoked for " << st->stable[i].size() << " of " << wantStable[i].size() << " calls, or not in order");
        // a subsequence
        CHECK(std::includes(sentMoving[i].begin(), sentMoving[i].end(), st->moving[i].begin(), st->moving[i].end()) && std::is_sorted(st->moving[i].begin(), st->moving[i].end())
                && std::adjacent_find(st->moving[i].begin(), st->moving[i].end()) == st->moving[i].end(),
            moving[i] << " was invoked twice for a call, or out of order");
        label("calls to changing names", sentMoving[i].size());
        label("of them handled", st->moving[i].size());
    }
    l.end();
    NOTE(n << " calls during " << changes << " changes\n");
    nontrivial(hcomb(hash_str(d), toggles));
}

// ------------------------------------------------------------------ C16
namespace {
struct Rule {
    std::string sender, iface, member, path, ns, dest, text;
    bool signals = true; // or messages of another type
    bool matches(const Msg& m) const
    {
        if (!signals)
            return false;
        if (!sender.empty() && sender != m.sender)
            return false;
        if (!iface.empty() && iface != m.iface)
            return false;
        if (!member.empty() && member != m.member)
            return false;
        if (!path.empty() && path != m.path)
            return false;
        if (!dest.empty() && dest != m.dest)
            return false;
        if (ns.empty() || ns == "/" || ns == m.path)
            return true;
        return m.path.size() > ns.size() && m.path.compare(0, ns.size(), ns) == 0 && m.path[ns.size()] == '/';
    }
};
const std::vector<std::string> SIfaces { "a.b", "a.bM" }, SMembers { "M", "N" }, SPaths { "/", "/p", "/p/q", "/pq" }, SNames { ":1.1", ":1.2", "n.m" };
Rule genRule(Src& src)
{
    Rule r;
    std::vector<std::string> el;
    auto add = [&](std::string& f, const char* key, const std::vector<std::string>& pool) {
        f = src.pick(pool);
        el.push_back(std::string(key) + "='" + f + "'");
    };
    if (src.chance(1, 16)) {
        el.push_back("type='" + src.oneof<std::string>({ "method_call", "method_return", "error" }) + "'");
        r.signals = false;
    } else if (!src.chance(1, 4))
        el.push_back("type='signal'");
    if (src.chance(1, 4))
        add(r.sender, "sender", SNames);
    if (src.chance(1, 3))
        add(r.iface, "interface", SIfaces);
    if (src.chance(1, 3))
        add(r.member, "member", SMembers);
    if (src.chance(1, 5))
        add(r.path, "path", SPaths);
    else if (src.chance(1, 5))
        add(r.ns, "path_namespace", SPaths);
    if (src.chance(1, 8))
        add(r.dest, "destination", SNames);
    if (el.empty())
        el.push_back("type='signal'");
    shuffle(src, el);
    for (auto& e : el)
        r.text += (r.text.empty() ? "" : ",") + e;
    return r;
}
Msg genSignal(Src& src, uint32_t serial)
{
    ref::MsgOpt o;
    o.type = 4;
    o.budget = 50;
    o.maxArgs = 2;
    Msg m = ref::genMsg(src, o);
    m.serial = serial;
    m.path = src.pick(SPaths);
    m.iface = src.pick(SIfaces);
    m.member = src.pick(SMembers);
    m.sender = src.flip() ? src.pick(SNames) : "";
    m.dest = src.chance(1, 3) ? src.pick(SNames) : "";
    return m;
}
}
PROP(C16, "history", 9000, 120000, 15, 90, 0,
    "1-10 rounds of adding and removing match rules (over a small alphabet, several matching the same signals) and signal handlers followed by a burst of signals in any cut; the server checks and answers "
    "AddMatch and RemoveMatch; invocations per signal compared with a model; non-trivial: a signal with two or more invocations, or after a removal")
{
    Link l;
    l.up();
    auto log = std::make_shared<HandlerLog>();
    auto answers = std::make_shared<std::pair<std::mutex, std::map<int, int>>>(); // handler -> 1 success, 2 failure
    std::map<std::string, std::pair<Rule, int>> rules;
    std::map<std::string, int> names;
    int next = 1;
    uint32_t serial = 0;
    size_t rounds = 1 + src.below(10);
    bool removed = false, interesting = false;
    uint64_t h = 0;
    for (size_t r = 0; r < rounds; ++r) {
        size_t ops = src.below(5);
        while (ops--) {
            switch (src.weighted({ 6, 3, 2, 1 })) {
            case 0: { // add a rule
                Rule rule = genRule(src);
                if (rules.count(rule.text))
                    break;
                int id = next++;
                NOTE("add rule " << rule.text << " as " << id << "\n");
                l.n->callAddMatch(
                    rule.text,
                    [answers, id](const Message::MethodReturn&) {
                        std::lock_guard<std::mutex> lk(answers->first);
                        answers->second[id] += 1;
                    },
                    [answers, id](const Message::Error&) {
                        std::lock_guard<std::mutex> lk(answers->first);
                        answers->second[id] += 16;
                    },
                    [log, id, state = 0](const Message::Signal& s) mutable { log->add(id, ref::got(s), ++state); });
                rules[rule.text] = { rule, id };
                Msg m = l.s.msg();
                CHECK(m.type == 1 && m.iface == "org.freedesktop.DBus" && m.member == "AddMatch" && m.args.size() == 1 && m.args[0].t == 's' && m.args[0].s == rule.text,
                    "adding rule " << rule.text << " sends " << ref::describe(m));
                if (src.flip()) {
                    Msg a;
                    a.type = 2;
                    a.hasReply = true;
                    a.reply = m.serial;
                    a.serial = 50000 + id;
                    l.s.send(ref::encode(a));
                    l.f.pass(l.s);
                    std::lock_guard<std::mutex> lk(answers->first);
                    CHECK(answers->second[id] == 1, "the reply to AddMatch invokes its callbacks " << answers->second[id] << " (success: 1, failure: 16)");
                }
                h = hcomb(h, hash_str(rule.text));
                break;
            }
            case 1: { // remove one
                std::string text;
                if (src.chance(1, 5)) { // perhaps one that was not added, or was removed before
                    text = genRule(src).text;
                } else {
                    if (rules.empty())
                        break;
                    auto it = rules.begin();
                    std::advance(it, src.below(rules.size()));
                    text = it->first;
                }
                NOTE("remove rule " << text << (rules.count(text) ? "\n" : ", which is not there\n"));
                l.n->callRemoveMatch(text);
                removed |= rules.erase(text) > 0;
                Msg m = l.s.msg();
                CHECK(m.type == 1 && m.iface == "org.freedesktop.DBus" && m.member == "RemoveMatch" && m.args.size() == 1 && m.args[0].t == 's' && m.args[0].s == text,
                    "removing rule " << text << " sends " << ref::describe(m));
                h = hcomb(h, hash_str(text) + 1);
                break;
            }
            case 2: {
                std::string name = src.pick(SIfaces) + "." + src.pick(SMembers);
                if (names.count(name))
                    break;
                int id = next++;
                NOTE("register " << name << " as " << id << "\n");
                l.n->registerSignalHandler(name, [log, id, state = 0](const Message::Signal& s) mutable { log->add(id, ref::got(s), ++state); });
                names[name] = id;
                h = hcomb(h, hash_str(name));
                break;
            }
            default: {
                std::string name = src.pick(SIfaces) + "." + src.pick(SMembers);
                NOTE("unregister " << name << "\n");
                l.n->unRegisterSignalHandler(name);
                removed |= names.erase(name) > 0;
                h = hcomb(h, hash_str(name) + 1);
            }
            }
        }
        std::vector<std::string> out;
        std::vector<std::pair<Msg, std::vector<int>>> want;
        size_t n = src.below(7);
        while (n--) {
            if (src.chance(1, 8)) {
                Msg m = noise(src);
                if (m.type != 4)
                    out.push_back(ref::encode(m));
                continue;
            }
            Msg m = genSignal(src, ++serial);
            std::vector<int> ids;
            for (auto& x : rules)
                if (x.second.first.matches(m))
                    ids.push_back(x.second.second);
            auto it = names.find(m.iface + "." + m.member);
            if (it != names.end())
                ids.push_back(it->second);
            std::sort(ids.begin(), ids.end());
            std::string s;
            for (int i : ids)
                s += " " + std::to_string(i);
            NOTE("signal " << serial << " " << m.path << " " << m.iface << "." << m.member << " from " << m.sender << " to " << m.dest << " ->" << s << "\n");
            label(Cat() << "signals with " << std::min<size_t>(ids.size(), 4) << (ids.size() >= 4 ? " or more" : "") << " invocations");
            interesting |= ids.size() > 1 || removed;
            h = hcomb(h, hash_str(m.path + m.iface + m.member + m.sender + m.dest));
            want.push_back({ m, ids });
            out.push_back(ref::encode(m));
        }
        deliver(src, l.s, out);
        l.f.pass(l.s);
        std::lock_guard<std::mutex> lk(log->m);
        size_t at = 0;
        for (auto& w : want) {
            std::vector<int> ids;
            while (at < log->recs.size() && log->recs[at].got.serial == w.first.serial) {
                ids.push_back(log->recs[at].handler);
                ref::checkGot(log->recs[at].got, w.first, "signal");
                ++at;
            }
            std::sort(ids.begin(), ids.end());
            std::string a, b;
            for (int i : w.second)
                a += " " + std::to_string(i);
            for (int i : ids)
                b += " " + std::to_string(i);
            CHECK(ids == w.second, "signal " << ref::describe(w.first) << " invokes handlers:" << b << " instead of:" << a);
        }
        CHECK(at == log->recs.size(), "handler " << log->recs[at].handler << " was invoked unexpectedly, with " << ref::describe(log->recs[at].got));
        log->recs.clear();
    }
    l.end();
    if (interesting)
        nontrivial(h);
}

PROP(C16, "during traffic", 1000, 16000, 15, 90, 0,
    "one thread sends 30-300 signals while another keeps adding and removing other rules and handlers that match them as well; subscriptions that stay must get each of their signals exactly once and in order; "
    "non-trivial: all")
{
    Link l;
    l.up();
    struct State {
        std::mutex m;
        std::vector<uint32_t> rule, named, moving;
    };
    auto st = std::make_shared<State>();
    auto rec = [st](std::vector<uint32_t> State::*v) {
        return [st, v](const Message::Signal& s) {
            std::lock_guard<std::mutex> lk(st->m);
            ((*st).*v).push_back(s.getSerial());
        };
    };
    auto ok = [](const Message::MethodReturn&) {};
    auto bad = [](const Message::Error&) {};
    l.n->callAddMatch("type='signal',interface='a.b'", ok, bad, rec(&State::rule));
    l.n->registerSignalHandler("a.b.N", rec(&State::named));
    size_t n = 30 + src.below(270);
    std::string d;
    std::vector<size_t> marks;
    std::vector<uint32_t> wantRule, wantNamed;
    for (uint32_t i = 1; i <= n; ++i) {
        Msg m = simple(4, i, "/x", src.flip() ? "a.b" : "a.bM", src.flip() ? "M" : "N");
        if (m.iface == "a.b")
            wantRule.push_back(i);
        if (m.iface == "a.b" && m.member == "N")
            wantNamed.push_back(i);
        marks.push_back(d.size());
        d += ref::encode(m);
    }
    auto cuts = ref::genCuts(src, d.size(), marks);
    uint64_t toggles = src.raw(4);
    maybePerturb(src);
    std::atomic<bool> done { false };
    uint64_t changes = 0;
    std::thread th([&] {
        Fill f(toggles);
        static const char* rules[] = { "type='signal'", "interface='a.b'", "member='M',type='signal'", "type='signal',interface='zz.z'", "aa='x'" };
        bool on[6] = {};
        while (!done && changes < 3000) {
            int i = f.below(6);
            if (i == 5) {
                if (on[i])
                    l.n->unRegisterSignalHandler("a.b.M");
                else
                    l.n->registerSignalHandler("a.b.M", rec(&State::moving));
            } else if (on[i])
                l.n->callRemoveMatch(rules[i]);
            else
                l.n->callAddMatch(rules[i], ok, bad, rec(&State::moving));
            on[i] = !on[i];
            ++changes;
            if (f.below(3) == 0)
                bus::nap(f.below(100));
        }
    });
    std::string problem;
    try {
        l.s.sendCut(d, cuts, 0);
        l.f.pass(l.s);
    } catch (const std::exception& e) {
        problem = e.what();
    }
    done = true;
    th.join();
    if (!problem.empty())
        FAIL(problem);
    bus::perturb(0, 0, 0);
    std::lock_guard<std::mutex> lk(st->m);
    CHECK(st->rule == wantRule, "a rule that stays was invoked for " << st->rule.size() << " of " << wantRule.size() << " signals, or not in order");
    CHECK(st->named == wantNamed, "a handler that stays was invoked for " << st->named.size() << " of " << wantNamed.size() << " signals, or not in order");
    label("changes", changes);
    label("invocations of changing subscriptions", st->moving.size());
    NOTE(n << " signals during " << changes << " changes\n");
    l.end();
    nontrivial(hcomb(hash_str(d), toggles));
}

// ------------------------------------------------------------------ sending
namespace {
// something the application sends; its bytes are known beforehand
struct Item {
    int kind;
    std::string bytes;
    std::function<void(Native&)> send;
};
Item genItem(Src& src, uint32_t tag, const std::string& member, size_t size)
{
    Item it;
    it.kind = src.below(5);
    Fill f(tag + size);
    std::string payload(size, ' ');
    for (size_t i = 0; i < size; i += 1 + f.below(97))
        payload[i] = char(33 + f.below(90));
    Message::MethodCallIdentifier id("/o", "i.f", member);
    const std::string dest = "x.y";
    switch (it.kind) {
    case 0: {
        auto m = std::make_shared<Message::Signal>(id);
        m->addParameter(Type::Uint32(tag));
        m->addParameter(Type::String(payload));
        it.bytes = m->marshall(dest);
        it.send = [m, dest](Native& n) { n.sendSignal(dest, *m); };
        break;
    }
    case 1: {
        auto m = std::make_shared<Message::Signal>(id);
        m->addParameter(Type::Uint32(tag));
        m->addParameter(Type::String(payload));
        it.bytes = m->marshall("");
        it.send = [m](Native& n) { n.broadcastSignal(*m); };
        break;
    }
    case 2: {
        Message::MethodCallParametersIn p;
        p.add(tag);
        p.add(payload);
        auto m = std::make_shared<Message::MethodCall>(id, p, src.below(2));
        it.bytes = m->marshall(dest);
        it.send = [m, dest](Native& n) { n.sendMethodCall(dest, *m); };
        break;
    }
    case 3: {
        auto m = std::make_shared<Message::MethodReturn>(0x50000000u + tag);
        m->addParameter(Type::Uint32(tag));
        m->addParameter(Type::String(payload));
        it.bytes = m->marshall(dest);
        it.send = [m, dest](Native& n) { n.sendMethodReturn(dest, *m); };
        break;
    }
    default: {
        auto m = std::make_shared<Message::Error>(0x50000000u + tag, "e.r.R", payload);
        it.bytes = m->marshall(dest);
        it.send = [m, dest](Native& n) { n.sendError(dest, *m); };
    }
    }
    return it;
}
size_t itemSize(Src& src, size_t big)
{
    switch (src.weighted({ 8, 3, 2, 1 })) {
    case 0:
        return src.below(60);
    case 1:
        return src.below(3000);
    case 2:
        return src.below(std::min<size_t>(big, 70000));
    default:
        return src.below(big);
    }
}
}

// ------------------------------------------------------------------ C18
namespace {
std::string junkLine(Src& src, bool afterOk)
{
    static const std::vector<std::string> lines { "REJECTED EXTERNAL DBUS_COOKIE_SHA1", "REJECTED", "ERROR", "ERROR \"no\"", "OKAY 0123456789abcdef0123456789abcdef", "ok 0123456789abcdef0123456789abcdef",
        " OK 0123456789abcdef0123456789abcdef", "OK0123456789abcdef0123456789abcdef", "DATA", "DATA 00", "BEGIN", "CANCEL", "AUTH EXTERNAL", "NEGOTIATE_UNIX_FD", "", "REJECTED OK 00",
        "ERROR OK 0123456789abcdef0123456789abcdef", "NOT OK", "AGREE", "AGREE_UNIX_FDS", "agree_unix_fd", "AGREE_UNIX", "O", "K", "OK_UNIX_FD", "XAGREE_UNIX_FD", "ERROR AGREE_UNIX_FD", "\tOK x",
        "OK\t0123456789abcdef0123456789abcdef", std::string("OK\0", 3), std::string("OK\0 0123456789abcdef0123456789abcdef", 36), std::string("AGREE_UNIX_FD\0", 14), "AGREE_UNIX_FD\t", std::string("\0OK x", 6),
        "OK,0123456789abcdef0123456789abcdef", "OK\v", "OK=", "\"OK\"" };
    size_t i = src.below(lines.size() + 4);
    if (i < lines.size())
        return lines[i] + "\r\n";
    if (i == lines.size() && !afterOk)
        return "AGREE_UNIX_FD\r\n"; // not asked for
    if (i == lines.size() + 1)
        return "REJECTED " + std::string(src.below(2500), 'x') + "\r\n";
    if (i == lines.size() + 2)
        return "O" + std::string(1 + src.below(1200), 'O') + "K\r\n"; // not OK itself
    std::string r;
    size_t n = src.below(30);
    while (n--) {
        char c = char(src.byte());
        if (c != '\r' && c != '\n')
            r += c;
    }
    // it must not be one of the lines that count
    if (r.compare(0, 2, "OK") == 0 || r.compare(0, 13, "AGREE_UNIX_FD") == 0)
        r = "?" + r;
    return r + "\r\n";
}
}
PROP(C18, "transcript", 9000, 120000, 15, 90, 0,
    "handshakes of any user id, with 0-6 rejections, errors and unknown lines before the lines that count, in any cut, with and without file descriptor negotiation, begun again up to twice, completed or not, and application messages sent at any point; "
    "everything the client sends is compared byte by byte; non-trivial: lines that do not count, or messages held back")
{
    Link l;
    const bool completes = !src.chance(1, 4);
    bool fd = src.flip();
    struct Uid {
        explicit Uid(int64_t u) { bus::pretendUid(u); }
        ~Uid() { bus::pretendUid(-1); }
    } uid(src.flip() ? int64_t(src.interesting(32)) : -1);
    std::string want("\0", 1), held;
    size_t heldCount = 0, junk = 0, extra = 0;
    uint32_t tag = 0;
    bool open = false;
    auto app = [&] {
        size_t n = src.chance(1, 2) ? 0 : src.below(3);
        while (n--) {
            Item it = genItem(src, ++tag, "M", itemSize(src, 20000));
            it.send(*l.n);
            held += it.bytes;
            if (!open)
                ++heldCount;
            NOTE("application sends " << it.bytes.size() << " bytes\n");
        }
    };
    maybePerturb(src);
    app();
    l.n->BeginAuth(fd ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
    want += Server::authLine();
    app();
    // the server speaks when it has been spoken to
    std::string got = l.s.exactly(1) + l.s.line();
    CHECK(got == want, "the client starts with " << show(got, 200) << " instead of " << show(want, 200));
    want.clear();
    auto say = [&](const std::string& text) {
        NOTE("server sends " << show(text, 60) << "\n");
        auto cuts = ref::genCuts(src, text.size(), { 0, text.size() > 2 ? text.size() - 2 : 0, text.size() > 1 ? text.size() - 1 : 0 });
        size_t at = 0;
        for (size_t c : cuts) {
            l.s.send(text.substr(at, c - at));
            at = c;
            if (src.chance(1, 3))
                l.s.waitRead();
            if (src.chance(1, 4))
                app();
        }
    };
    auto saySome = [&](bool afterOk) {
        size_t n = src.below(4);
        std::string text;
        while (n--) {
            text += junkLine(src, afterOk);
            ++junk;
        }
        return text;
    };
    // the application tries again, perhaps in another way
    size_t again = src.chance(1, 4) ? 1 + src.below(2) : 0;
    for (size_t i = 0; i < again; ++i) {
        std::string t = saySome(false);
        if (src.chance(3, 4))
            t += "REJECTED EXTERNAL\r\n";
        if (!t.empty())
            say(t);
        fd = src.flip();
        NOTE("application begins again\n");
        l.n->BeginAuth(fd ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
        got = l.s.line();
        CHECK(got == Server::authLine(), "the client tries again with " << show(got, 200) << " instead of " << show(Server::authLine(), 200));
    }
    const std::string ok = bus::okLine(src.raw(4));
    bool agreed = false;
    // lines after the one that completes the handshake: they are not messages, but BEGIN must not be repeated either
    auto more = [&] {
        std::string text;
        if (src.chance(1, 5))
            for (size_t n = 1 + src.below(3); n--; ++extra)
                text += src.flip() ? ok : fd ? "AGREE_UNIX_FD\r\n" : junkLine(src, false);
        return text;
    };
    if (!completes && src.flip()) {
        std::string t = saySome(false) + (src.chance(1, 4) ? ok.substr(0, ok.size() - 1 - src.below(ok.size() - 1)) : "");
        if (!t.empty())
            say(t);
    } else if (!fd) {
        if (completes) {
            say(saySome(false) + ok + more());
            agreed = true;
        } else {
            std::string t = saySome(false);
            if (!t.empty())
                say(t);
        }
    } else {
        say(saySome(false) + ok);
        want += "NEGOTIATE_UNIX_FD\r\n";
        // read it before agreeing
        got = l.s.exactly(want.size());
        CHECK(got == want, "after OK the client sends " << show(got, 200) << " instead of NEGOTIATE_UNIX_FD");
        want.clear();
        std::string t = saySome(true);
        if (completes) {
            say(t + "AGREE_UNIX_FD\r\n" + more());
            agreed = true;
        } else if (!t.empty())
            say(t);
    }
    if (agreed) {
        got = l.s.exactly(7);
        CHECK(got == "BEGIN\r\n", "after the server has accepted the client sends " << show(got, 200) << " instead of BEGIN");
        open = true;
        app();
        got = l.s.exactly(held.size());
        CHECK(got == held, "what follows BEGIN is not what the application sent: " << got.size() << " bytes " << hexdump(got, 100) << " instead of " << hexdump(held, 100));
        // nothing else comes
        if (extra)
            l.s.waitRead();
        else
            l.f.pass(l.s);
        while (l.s.fill(0))
            ;
        CHECK(l.s.pending().empty(), "the client also sends " << show(l.s.pending(), 200));
        l.end();
        got = l.s.toEof();
        CHECK(got.empty(), "the client also sends " << show(got, 200));
    } else {
        l.s.waitRead();
        l.end();
        got = l.s.toEof();
        CHECK(got.empty(), "although the server has not accepted, the client sends " << show(got, 200));
    }
    label(agreed ? "completed" : "not completed");
    label("lines that do not count", junk);
    label("begun again", again);
    label("lines after the last", extra);
    label("messages held back", heldCount);
    if (junk || heldCount)
        nontrivial(hcomb(hcomb(junk, heldCount), hcomb(hash_str(held), fd * 2 + agreed)));
}

// ------------------------------------------------------------------ C19
PROP(C19, "sending", 1200, 15000, 40, 90, 0,
    "1-5 sending threads with 1-40 messages of all kinds and up to 600 kB, starting before or after authentication, while the server reads at a generated pace and incoming calls are answered from their handler; "
    "the bytes after BEGIN are compared with the messages; non-trivial: several threads, or more than the socket buffers hold")
{
    Link l;
    size_t threads = 1 + src.below(5);
    std::vector<std::vector<Item>> items(threads);
    size_t total = 0, count = 0;
    const size_t limit = src.chance(1, 4) ? 4000000 : 400000;
    uint32_t tag = 0;
    for (size_t t = 0; t < threads; ++t) {
        size_t n = 1 + src.below(src.chance(1, 3) ? 40 : 8);
        for (size_t i = 0; i < n && total < limit; ++i) {
            items[t].push_back(genItem(src, ++tag, "M", itemSize(src, 600000)));
            total += items[t].back().bytes.size();
            ++count;
        }
    }
    size_t incoming = src.chance(1, 2) ? src.below(30) : 0;
    unsigned when = src.below(3); // 0: before authentication, 1: together with it, 2: after it
    unsigned pace = src.below(4);
    uint64_t paceSeed = src.raw(4);
    bool fd = src.chance(1, 4);
    maybePerturb(src);
    NOTE(threads << " threads, " << count << " messages, " << total << " bytes, " << (when == 0 ? "before" : when == 1 ? "during" : "after") << " authentication, pace " << pace << ", " << incoming
                 << " incoming calls answered\n");
    // the expected message of each sender, in order; the handler is a sender as well
    std::vector<std::vector<std::string>> expect(threads + 1);
    for (size_t t = 0; t < threads; ++t)
        for (auto& i : items[t])
            expect[t].push_back(i.bytes);
    auto handled = std::make_shared<std::vector<std::string>>();
    Native* np = l.n.get();
    l.n->registerMethodCallHandler("q.q.Q", [handled, np](const Message::MethodCall& c) {
        Message::MethodReturn r(c.getSerial());
        r.addParameter(Type::String(std::string(c.getSerial() % 3000, 'r')));
        handled->push_back(r.marshall("z.z"));
        np->sendMethodReturn("z.z", r);
    });
    std::atomic<bool> go { false };
    auto run = [&](size_t t) {
        while (!go)
            ;
        for (auto& i : items[t])
            i.send(*np);
    };
    std::vector<std::thread> th;
    auto start = [&] {
        for (size_t t = 0; t < threads; ++t)
            th.emplace_back(run, t);
        go = true;
    };
    auto join = [&] {
        for (auto& t : th)
            t.join();
        th.clear();
    };
    std::string calls, got;
    for (size_t i = 1; i <= incoming; ++i)
        calls += ref::encode(simple(1, i * 37, "/x", "q.q", "Q"));
    try {
        if (when == 0) {
            start();
            join();
        }
        if (when == 1)
            start();
        l.up(fd);
        if (when == 2)
            start();
        if (incoming)
            l.s.send(calls);
        if (incoming)
            l.f.pass(l.s); // so that all the replies are known
        Fill f(paceSeed);
        if (pace == 3)
            join(); // nothing is read until all is sent
        size_t want = total;
        for (auto& h : *handled)
            want += h.size();
        while (got.size() < want) {
            size_t n = std::min<size_t>(want - got.size(), pace == 0 ? want : 1 + f.below(pace == 1 ? 200000 : 5000));
            got += l.s.exactly(n);
            if (pace && f.below(4) == 0)
                bus::nap(f.below(400));
        }
        join();
    } catch (...) {
        go = true;
        join();
        throw;
    }
    bus::perturb(0, 0, 0);
    l.f.pass(l.s);
    l.end();
    std::string rest = l.s.toEof();
    CHECK(rest.empty(), rest.size() << " bytes more than were sent: " << hexdump(rest, 100));
    expect[threads] = *handled;
    std::vector<size_t> next(threads + 1);
    size_t at = 0;
    while (at < got.size()) {
        bool found = false;
        for (size_t t = 0; t <= threads && !found; ++t)
            if (next[t] < expect[t].size() && got.compare(at, expect[t][next[t]].size(), expect[t][next[t]]) == 0) {
                at += expect[t][next[t]].size();
                ++next[t];
                found = true;
            }
        CHECK(found, "at byte " << at << " of " << got.size() << " comes none of the messages that are due: " << hexdump(got.substr(at, 120)));
    }
    label("bytes", total);
    label("incoming calls answered", incoming);
    if (threads > 1 || total > 300000)
        nontrivial(hcomb(hcomb(total, count), hcomb(threads * 16 + when * 4 + pace, incoming)));
}

// ------------------------------------------------------------------ many of everything
// C14, C15, C16, C18 and C19 again, with far more calls, handlers, rules and messages than in the histories
namespace {
std::vector<size_t> shuffled(size_t n, uint64_t seed)
{
    std::vector<size_t> r(n);
    for (size_t i = 0; i < n; ++i)
        r[i] = i;
    Fill f(seed);
    for (size_t i = n; i > 1; --i)
        std::swap(r[i - 1], r[f.below(i)]);
    return r;
}
size_t manyOf(Src& src, size_t max) { return std::max<size_t>(20, std::min<size_t>(max, src.flip() ? src.below(max) : src.size(max))); }
}
PROP(C14, "many", 100, 1500, 30, 90, 0,
    "20-6000 calls from 1-3 threads are under way at once, then most are answered in random order, some twice, and the others later; each callback must be invoked once, with the reply to its call; non-trivial: all")
{
    Link l;
    l.up();
    const size_t n = manyOf(src, 6000), threads = 1 + src.below(3);
    const unsigned errors = src.below(4), later = src.below(5), twice = src.below(3);
    const uint64_t order = src.raw(4);
    NOTE(n << " calls from " << threads << " threads\n");
    auto per = std::make_shared<std::vector<std::atomic<unsigned>>>(n);
    auto send = [&](size_t t) {
        for (size_t i = t; i < n; i += threads) {
            auto cb = [per, i, errors](bool ok, const Got& g) {
                ++(*per)[i];
                if (ok != (i % 4 >= errors) || g.args.size() != 1 || Type::asUint32(g.args[0]) != i)
                    async_fail(Cat() << "call " << i << " got the reply " << ref::describe(g));
            };
            Message::MethodCallParametersIn p;
            p.add(uint32_t(i));
            Message::MethodCall m(Message::MethodCallIdentifier("/o", "i.f", "M"), p, 0);
            l.n->sendMethodCall("x.y", m, [cb](const Message::MethodReturn& m) { cb(true, ref::got(m)); }, [cb](const Message::Error& m) { cb(false, ref::got(m)); });
        }
    };
    std::vector<std::thread> th;
    for (size_t t = 1; t < threads; ++t)
        th.emplace_back(send, t);
    send(0);
    for (auto& t : th)
        t.join();
    std::vector<uint32_t> serial(n);
    for (size_t i = 0; i < n; ++i) {
        Msg m = l.s.msg();
        serial.at(m.args.at(0).u) = m.serial;
    }
    auto answer = [&](size_t i) {
        Msg r;
        r.type = i % 4 < errors ? 3 : 2;
        if (r.type == 3)
            r.errname = "e.e";
        r.hasReply = true;
        r.reply = serial[i];
        r.serial = i + 1;
        r.args.push_back(ref::number('u', i));
        return ref::encode(r);
    };
    std::vector<bool> done(n);
    auto check = [&] {
        l.f.pass(l.s);
        rethrow_async_fail();
        for (size_t i = 0; i < n; ++i)
            CHECK((*per)[i] == done[i], "call " << i << " of " << n << " (serial " << serial[i] << ")" << (done[i] ? ", which was answered," : "") << " had its callback invoked " << (*per)[i] << " times");
    };
    std::string first, rest;
    for (size_t i : shuffled(n, order)) {
        if (i % 5 < later) {
            rest += answer(i);
            continue;
        }
        first += answer(i);
        if (i % 7 < twice)
            first += answer(i);
        done[i] = true;
    }
    l.s.send(first);
    check();
    l.s.send(rest);
    done.assign(n, true);
    check();
    l.end();
    label("calls", n);
    nontrivial(hcomb(hcomb(n, threads), hcomb(order, errors * 16 + later * 4 + twice)));
}

PROP(C15, "many", 60, 1000, 30, 90, 0, "20-3000 handlers are registered, a part is removed and some of that registered again, and each name is called once or twice in random order; non-trivial: all")
{
    Link l;
    l.up();
    l.f.asSignals(src.flip());
    const size_t n = manyOf(src, 3000);
    const unsigned gone = src.below(4), again = src.below(3);
    const uint64_t order = src.raw(4);
    NOTE(n << " handlers\n");
    struct Rec {
        uint32_t handler, serial;
    };
    auto recs = std::make_shared<std::pair<std::mutex, std::vector<Rec>>>();
    auto iface = [](size_t i) { return "i.f" + std::to_string(i % 17); };
    auto member = [](size_t i) { return "M" + std::to_string(i / 17); };
    auto add = [&](size_t i, uint32_t id) {
        l.n->registerMethodCallHandler(iface(i) + "." + member(i), [recs, id](const Message::MethodCall& m) {
            std::lock_guard<std::mutex> lk(recs->first);
            recs->second.push_back({ id, m.getSerial() });
        });
    };
    std::vector<int64_t> now(n);
    for (size_t i : shuffled(n, order)) {
        add(i, i);
        now[i] = i;
    }
    for (size_t i : shuffled(n, order + 1))
        if (i % 5 < gone) {
            l.n->unRegisterMethodCallHandler(iface(i) + "." + member(i));
            now[i] = -1;
        }
    for (size_t i : shuffled(n, order + 2))
        if (now[i] < 0 && i % 3 < again) {
            add(i, n + i);
            now[i] = n + i;
        }
    std::string d;
    std::vector<Rec> want;
    uint32_t serial = 0;
    auto todo = shuffled(n, order + 3);
    if (src.flip()) {
        auto more = shuffled(n, order + 4);
        todo.insert(todo.end(), more.begin(), more.end());
    }
    for (size_t i : todo) {
        d += ref::encode(simple(1, ++serial, "/x", iface(i), member(i)));
        if (now[i] >= 0)
            want.push_back({ uint32_t(now[i]), serial });
    }
    l.s.send(d);
    l.f.pass(l.s);
    std::lock_guard<std::mutex> lk(recs->first);
    for (size_t i = 0; i < std::max(want.size(), recs->second.size()); ++i) {
        CHECK(i < recs->second.size(), "call " << want[i].serial << " for handler " << want[i].handler << " of " << n << " was not delivered");
        CHECK(i < want.size() && want[i].handler == recs->second[i].handler && want[i].serial == recs->second[i].serial,
            "handler " << recs->second[i].handler << " is invoked by call " << recs->second[i].serial << ", which is not what is due");
    }
    l.end();
    label("handlers", n);
    nontrivial(hcomb(hcomb(n, gone), hcomb(order, again)));
}

PROP(C16, "many", 60, 1000, 30, 90, 0, "20-400 rules and 20-400 signal handlers are added and a part of them removed, and signals that satisfy one, several or many of them are sent; non-trivial: all")
{
    Link l;
    l.up();
    const size_t n = manyOf(src, 400), groups = 1 + src.below(n);
    const unsigned gone = src.below(4);
    const uint64_t order = src.raw(4);
    NOTE(n << " rules, " << groups << " groups\n");
    auto recs = std::make_shared<std::pair<std::mutex, std::map<uint32_t, std::vector<uint32_t>>>>(); // signal -> handlers
    auto take = [recs](uint32_t id) {
        return [recs, id](const Message::Signal& m) {
            std::lock_guard<std::mutex> lk(recs->first);
            recs->second[m.getSerial()].push_back(id);
        };
    };
    auto group = [&](size_t i) { return "M" + std::to_string(i % groups); };
    auto rule = [&](size_t i) { return "type='signal',interface='i.f',member='" + group(i) + "',path_namespace='/p" + std::to_string(i / groups) + "'"; };
    auto name = [&](size_t i) { return "N" + std::to_string(i); };
    std::vector<bool> on(2 * n);
    auto none = [](const Message::MethodReturn&) {};
    auto bad = [](const Message::Error&) {};
    auto skip = [&](const char* member) {
        Msg m = l.s.msg();
        CHECK(m.member == member, "the server receives " << ref::describe(m) << " instead of " << member);
    };
    for (size_t i : shuffled(2 * n, order)) {
        on[i] = true;
        if (i < n) {
            l.n->callAddMatch(rule(i), none, bad, take(i));
            skip("AddMatch");
        } else
            l.n->registerSignalHandler("i.f." + name(i), take(i));
    }
    for (size_t i : shuffled(2 * n, order + 1))
        if (i % 5 < gone) {
            on[i] = false;
            if (i < n) {
                l.n->callRemoveMatch(rule(i));
                skip("RemoveMatch");
            } else
                l.n->unRegisterSignalHandler("i.f." + name(i));
        }
    std::string d;
    std::map<uint32_t, std::vector<uint32_t>> want;
    uint32_t serial = 0;
    for (size_t i : shuffled(2 * n, order + 2)) {
        d += ref::encode(simple(4, ++serial, i < n ? "/p" + std::to_string(i / groups) + "/x" : "/q", "i.f", i < n ? group(i) : name(i)));
        if (on[i])
            want[serial].push_back(i);
    }
    const uint32_t all = ++serial;
    const bool shared = groups < n && src.flip(); // a signal for several
    if (shared) {
        l.n->callAddMatch("type='signal'", none, bad, take(2 * n));
        skip("AddMatch");
        l.n->callAddMatch("member='M0'", none, bad, take(2 * n + 1));
        skip("AddMatch");
        for (uint32_t i = 0; i + 1 < serial; ++i)
            want[i + 1].push_back(2 * n);
        size_t k = 0;
        for (size_t i : shuffled(2 * n, order + 2)) {
            ++k;
            if (i < n && i % groups == 0)
                want[k].push_back(2 * n + 1);
        }
        want[all] = { uint32_t(2 * n), uint32_t(2 * n + 1) };
        if (on[0])
            want[all].push_back(0);
        d += ref::encode(simple(4, all, "/p0", "i.f", "M0"));
    }
    l.s.send(d);
    if (shared)
        l.f.asSignals(false);
    l.f.pass(l.s);
    std::lock_guard<std::mutex> lk(recs->first);
    for (uint32_t i = 1; i <= serial; ++i) {
        auto a = recs->second[i], b = want[i];
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        CHECK(a == b, "signal " << i << " is delivered " << a.size() << " times instead of " << b.size() << ", or to other handlers, with " << n << " rules and " << n << " handlers");
    }
    l.end();
    label("rules", n);
    nontrivial(hcomb(hcomb(n, groups), hcomb(order, gone)));
}

PROP(C18, "many", 60, 1000, 30, 90, 0, "20-20000 small messages are sent before authentication has succeeded, from one thread; all must follow BEGIN in order; non-trivial: all")
{
    Link l;
    const bool fd = src.flip();
    const size_t n = manyOf(src, 20000);
    size_t started = src.below(n);
    NOTE(n << " messages held back\n");
    std::string want;
    for (size_t i = 0; i < n; ++i) {
        if (i == started)
            l.n->BeginAuth(fd ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
        Message::Signal s(Message::MethodCallIdentifier("/o", "i.f", "M"));
        s.addParameter(Type::Uint32(i));
        want += s.marshall("");
        l.n->broadcastSignal(s);
    }
    l.s.handshake(fd);
    std::string got = l.s.exactly(want.size());
    for (size_t at = 0; got != want && at < want.size(); ++at)
        CHECK(got[at] == want[at], "byte " << at << " of " << want.size() << " after BEGIN is not what was sent: " << hexdump(got.substr(at, 100)) << " instead of " << hexdump(want.substr(at, 100)));
    l.f.pass(l.s);
    l.end();
    got = l.s.toEof();
    CHECK(got.empty(), got.size() << " bytes more than were sent");
    label("messages held back", n);
    nontrivial(hcomb(n, fd));
}

PROP(C19, "many", 60, 1000, 30, 90, 0, "20-30000 small messages from 1-3 threads while the server reads nothing, little or all the time; compared as in the first part; non-trivial: all")
{
    Link l;
    const size_t n = manyOf(src, 30000), threads = 1 + src.below(3);
    const unsigned pace = src.below(3);
    const uint64_t seed = src.raw(4);
    NOTE(n << " messages from " << threads << " threads\n");
    l.up();
    std::vector<std::vector<std::string>> expect(threads);
    std::vector<std::vector<Message::Signal>> out(threads);
    size_t total = 0;
    for (size_t i = 0; i < n; ++i) {
        Message::Signal s(Message::MethodCallIdentifier("/o", "i.f", "M"));
        s.addParameter(Type::Uint32(i));
        out[i % threads].push_back(s);
        expect[i % threads].push_back(s.marshall(""));
        total += expect[i % threads].back().size();
    }
    auto run = [&](size_t t) {
        for (auto& s : out[t])
            l.n->broadcastSignal(s);
    };
    std::vector<std::thread> th;
    for (size_t t = 0; t < threads; ++t)
        th.emplace_back(run, t);
    std::string got;
    auto join = [&] {
        for (auto& t : th)
            t.join();
        th.clear();
    };
    try {
        if (pace == 0)
            join();
        Fill f(seed);
        while (got.size() < total)
            got += l.s.exactly(std::min<size_t>(total - got.size(), 1 + f.below(pace == 1 ? 300000 : 20000)));
    } catch (...) {
        join();
        throw;
    }
    join();
    l.f.pass(l.s);
    l.end();
    CHECK(l.s.toEof().empty(), "more bytes than were sent");
    std::vector<size_t> next(threads);
    for (size_t at = 0; at < got.size();) {
        bool found = false;
        for (size_t t = 0; t < threads && !found; ++t)
            if (next[t] < expect[t].size() && got.compare(at, expect[t][next[t]].size(), expect[t][next[t]]) == 0) {
                at += expect[t][next[t]].size();
                ++next[t];
                found = true;
            }
        CHECK(found, "at byte " << at << " of " << got.size() << " comes none of the messages that are due: " << hexdump(got.substr(at, 120)));
    }
    label("messages", n);
    nontrivial(hcomb(hcomb(n, threads), hcomb(seed, pace)));
}

// ------------------------------------------------------------------ C20
PROP(C20, "hand-over", 9000, 120000, 15, 90, 0,
    "a handshake (after rejections that move it to any place relative to the 1024-byte reads) followed at once by 1-12 messages, all cut in generated places and with generated waits for the client to read; "
    "non-trivial: bytes of a message arrive in the same read as the end of the handshake, or the final line is split")
{
    Link l;
    const bool fd = src.flip();
    auto log = std::make_shared<HandlerLog>();
    l.n->registerMethodCallHandler("a.b.M", [log](const Message::MethodCall& m) { log->add(1, ref::got(m)); });
    l.n->callAddMatch("type='signal'", [log](const Message::MethodReturn& m) { log->add(2, ref::got(m)); }, [log](const Message::Error& m) { log->add(3, ref::got(m)); },
        [log](const Message::Signal& m) { log->add(4, ref::got(m)); });
    maybePerturb(src);
    l.n->BeginAuth(fd ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
    std::string got = l.s.exactly(1) + l.s.line();
    CHECK(got == std::string(1, '\0') + Server::authLine(), "the client starts with " << show(got, 200));
    std::string last = fd ? "AGREE_UNIX_FD\r\n" : bus::okLine(src.raw(2));
    if (fd) {
        l.s.send(bus::okLine(2));
        got = l.s.line();
        CHECK(got == "NEGOTIATE_UNIX_FD\r\n", "after OK the client sends " << show(got, 200));
        l.s.waitRead();
    }
    std::string d;
    if (src.flip()) {
        // the final line ends around the end of a read
        size_t target = 1024 * (1 + src.below(2)) - 12 + src.below(60);
        size_t n = target - last.size() - 11;
        d = "REJECTED " + std::string(n, 'x') + "\r\n";
    }
    const size_t lineStart = d.size();
    d += last;
    const size_t lineEnd = d.size();
    // The first message cannot be a reply, nothing has been received by the server
    std::vector<Msg> want;
    std::vector<size_t> marks { lineStart, lineEnd - 2, lineEnd - 1, lineEnd, 1023, 1024, 1025, 2047, 2048, 2049 };
    size_t n = 1 + src.below(12);
    for (size_t i = 1; i <= n; ++i) {
        ref::MsgOpt o;
        o.type = src.flip() ? 1 : 4;
        o.budget = src.chance(1, 6) ? 3000 : 60;
        o.maxArgs = 3;
        Msg m = ref::genMsg(src, o);
        m.serial = i;
        if (m.type == 1) {
            m.iface = "a.b";
            m.member = "M";
        }
        want.push_back(m);
        marks.push_back(d.size());
        d += ref::encode(m);
    }
    auto cuts = ref::genCuts(src, d.size(), marks);
    // waits separate the reads; often at every cut
    uint64_t sync = src.chance(2, 3) ? ~0ull : src.raw(8);
    bool split = false, together = cuts.size() == 1 || sync == 0;
    size_t prev = 0;
    std::string cs;
    for (size_t c : cuts) {
        split |= c > lineStart && c < lineEnd;
        together |= prev < lineEnd && c > lineEnd;
        prev = c;
        if (cs.size() < 200)
            cs += " " + std::to_string(c);
    }
    NOTE((fd ? "with" : "without") << " negotiation, final line at " << lineStart << "-" << lineEnd << ", " << want.size() << " messages, " << d.size() << " bytes, cut at" << cs << ", waits "
                                   << std::hex << sync << std::dec << "\n");
    l.s.sendCut(d, cuts, sync);
    l.f.pass(l.s);
    bus::perturb(0, 0, 0);
    {
        std::lock_guard<std::mutex> lk(log->m);
        for (size_t i = 0; i < std::max(want.size(), log->recs.size()); ++i) {
            CHECK(i < log->recs.size(), "only " << log->recs.size() << " of " << want.size() << " messages after the handshake were delivered, in order");
            CHECK(i < want.size(), "delivered although it was not sent: " << ref::describe(log->recs[i].got));
            CHECK(log->recs[i].got.serial == want[i].serial, "after the handshake message " << want[i].serial << " was due, and " << ref::describe(log->recs[i].got) << " was delivered");
            ref::checkGot(log->recs[i].got, want[i], "message after the handshake");
        }
    }
    l.end();
    label(fd ? "with negotiation" : "without negotiation");
    if (split)
        label("final line split");
    if (together)
        label("messages in the same read");
    if (split || together)
        nontrivial(hcomb(hash_str(cs), hash_str(d)));
}

// ------------------------------------------------------------------ C21
PROP(C21, "statistics", 5000, 70000, 15, 90, 0,
    "1-4 threads send generated numbers of each kind of message before, during and after authentication, some more are refused as their signature is too long, and the server sends generated messages of each kind, some to throwing handlers; the statistics are compared "
    "with the counts; non-trivial: at least two kinds in either direction")
{
    Link l;
    unsigned sent[5] = {}, received[5] = {}, queued = 0;
    uint64_t bytes = 0, hsIn = 0, hsOut = 0, hsLines = 0, unqueued = 0;
    maybePerturb(src);
    bool thrower = src.flip();
    l.n->registerMethodCallHandler("a.b.M", [thrower](const Message::MethodCall&) {
        if (thrower)
            throw std::runtime_error("handler");
    });
    uint32_t tag = 0;
    size_t out = 0;
    auto send = [&](bool before) {
        size_t threads = 1 + src.below(4);
        std::vector<std::vector<Item>> items(threads);
        size_t n = src.below(12);
        for (size_t i = 0; i < n; ++i) {
            Item it = genItem(src, ++tag, "M", itemSize(src, 3000));
            static const int type[] = { 4, 4, 1, 2, 3 };
            ++sent[type[it.kind]];
            queued += before;
            unqueued += !before;
            items[src.below(threads)].push_back(it);
        }
        std::atomic<bool> go { false };
        auto run = [&](size_t t) {
            while (!go)
                ;
            for (auto& i : items[t])
                i.send(*l.n);
        };
        std::vector<std::thread> th;
        for (size_t t = 1; t < threads; ++t)
            th.emplace_back(run, t);
        go = true;
        run(0);
        for (auto& t : th)
            t.join();
        std::string d;
        for (auto& v : items)
            for (auto& i : v)
                d += i.bytes;
        return d.size();
    };
    auto check = [&](const char* where) {
        const std::string s = l.n->getStats();
        auto is = [&](const char* key, uint64_t v) {
            uint64_t g = bus::stat(s, key);
            CHECK(g == v, where << ": " << key << " is " << g << " instead of " << v);
        };
        is("count_sent_methodcalls", sent[1]);
        is("count_sent_methodreturns", sent[2]);
        is("count_sent_errors", sent[3]);
        is("count_sent_signals", sent[4]);
        is("count_receive_methodcalls", received[1] + l.f.sent());
        is("count_receive_methodreturns", received[2]);
        is("count_receive_errors", received[3]);
        is("count_receive_signals", received[4]);
        is("count_messages_queued", queued);
        is("bytes_message", bytes + l.f.bytes());
        is("bytes_auth", hsIn);
        is("bytes_read", l.s.total());
        is("count_messages_sent", hsLines + unqueued + (hsLines ? queued : 0));
        is("bytes_sent", hsOut + (hsLines ? out : 0));
    };
    // messages that cannot be sent, as their signature is too long
    auto refused = [&] {
        for (unsigned k = src.chance(1, 3) ? 1 + src.below(3) : 0; k--;) {
            const unsigned kind = src.below(5);
            Message::MethodCallParametersIn p;
            Message::MethodReturn ret(7);
            Message::Signal sig(Message::MethodCallIdentifier("/o", "i.f", "M"));
            for (int i = 0; i < 256; ++i) {
                p.add(uint8_t(i));
                ret.addParameter(Type::Byte(i));
                sig.addParameter(Type::Byte(i));
            }
            NOTE("a message that is refused\n");
            bool threw = false;
            try {
                switch (kind) {
                case 0:
                    l.n->sendMethodCall("x.y", Message::MethodCall(Message::MethodCallIdentifier("/o", "i.f", "M"), p, 0), [](const Message::MethodReturn&) {}, [](const Message::Error&) {});
                    break;
                case 1:
                    l.n->sendMethodCall("x.y", Message::MethodCall(Message::MethodCallIdentifier("/o", "i.f", "M"), p, 1));
                    break;
                case 2:
                    l.n->sendMethodReturn("x.y", ret);
                    break;
                case 3:
                    l.n->sendSignal("x.y", sig);
                    break;
                default:
                    l.n->broadcastSignal(sig);
                }
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw, "a message with a signature of 256 bytes is sent");
            label("refused messages");
        }
    };
    refused();
    out = send(true);
    check("before authentication");
    CHECK(bus::stat(l.n->getStats(), "count_messages_pumped") == 0, "messages were released before authentication");
    bool fd = src.flip();
    l.up(fd);
    hsIn = l.s.total();
    hsLines = fd ? 3 : 2;
    hsOut = Server::authLine().size() + (fd ? 19 : 0) + 7;
    l.f.pass(l.s);
    check("after authentication");
    CHECK(bus::stat(l.n->getStats(), "count_messages_pumped") == queued, bus::stat(l.n->getStats(), "count_messages_pumped") << " messages were released instead of " << queued);
    size_t rounds = src.below(4);
    uint64_t h = 0;
    for (size_t r = 0; r < rounds; ++r) {
        if (src.flip())
            out += send(false);
        refused();
        std::vector<std::string> in;
        size_t n = src.below(10);
        while (n--) {
            Msg m = noise(src);
            if (m.type == 1 && src.flip()) {
                m.iface = "a.b";
                m.member = "M";
            }
            ++received[m.type];
            in.push_back(ref::encode(m));
            bytes += in.back().size();
        }
        deliver(src, l.s, in);
        l.f.pass(l.s);
        check("during operation");
    }
    bus::perturb(0, 0, 0);
    std::string got = l.s.exactly(out); // they were really sent
    CHECK(bus::stat(l.n->getStats(), "count_messages_pumped") == queued, "messages were counted as released again");
    l.end();
    unsigned kinds = 0;
    for (int i = 1; i < 5; ++i) {
        kinds += (sent[i] > 0) + (received[i] > 0);
        h = hcomb(h, sent[i] * 100 + received[i]);
    }
    NOTE("sent " << sent[1] << "/" << sent[2] << "/" << sent[3] << "/" << sent[4] << " (calls/returns/errors/signals, " << queued << " of them queued), received " << received[1] << "/" << received[2] << "/"
                 << received[3] << "/" << received[4] << "\n");
    label("sent", tag);
    if (kinds > 1)
        nontrivial(hcomb(h, queued));
}
PROP(C21, "handshake bytes", 1500, 20000, 15, 90, 0,
    "messages right behind the final handshake line, in the same write or not: only they count as message bytes; non-trivial: all, not counted twice")
{
    Link l;
    l.n->BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    l.s.exactly(1);
    l.s.line();
    std::string d = src.flip() ? "REJECTED " + std::string(src.below(1500), 'x') + "\r\n" : "";
    d += bus::okLine(1);
    size_t line = d.size();
    uint64_t bytes = 0;
    unsigned n = src.below(20);
    for (unsigned i = 0; i < n; ++i) {
        Msg m = noise(src);
        m.type == 1 ? m.iface = "no.body" : "";
        std::string e = ref::encode(m);
        bytes += e.size();
        d += e;
    }
    auto cuts = ref::genCuts(src, d.size(), { line, line - 1, 1024, 2048 });
    NOTE("line ends at " << line << ", " << bytes << " message bytes, " << cuts.size() << " pieces\n");
    l.s.sendCut(d, cuts, src.flip() ? ~0ull : src.raw(8));
    l.f.pass(l.s);
    uint64_t g = bus::stat(l.n->getStats(), "bytes_message");
    CHECK(g == bytes + l.f.bytes(), "bytes_message is " << g << " instead of " << bytes + l.f.bytes());
    g = bus::stat(l.n->getStats(), "bytes_auth");
    CHECK(g == line, "bytes_auth is " << g << " instead of " << line);
    g = bus::stat(l.n->getStats(), "bytes_read");
    CHECK(g == l.s.total(), "bytes_read is " << g << " instead of " << l.s.total());
    l.end();
    nontrivial(hcomb(hash_str(d), cuts.size()));
}

// ------------------------------------------------------------------ C22
PROP(C22, "destroy", 4000, 60000, 40, 100, 0,
    "a connection is destroyed at a generated moment: before, during or after authentication, with calls outstanding, messages queued or more data than the socket takes, while the server floods, stalls, stops in the middle "
    "of a message or has disconnected, with slow handlers running; no callback may start afterwards; non-trivial: traffic or pending work at that moment")
{
    struct State {
        std::atomic<bool> gone { false };
        std::atomic<unsigned> running { 0 }, calls { 0 };
    };
    auto st = std::make_shared<State>();
    unsigned slow = src.chance(1, 4) ? src.below(3000) : 0;
    auto touched = [st, slow] {
        if (st->gone)
            async_fail("a handler or callback was invoked after the connection had been destroyed");
        ++st->running;
        ++st->calls;
        if (slow)
            bus::nap(slow);
        --st->running;
        if (st->gone)
            async_fail("a handler or callback was still running after the connection had been destroyed");
    };
    auto ok = [touched](const Message::MethodReturn&) { touched(); };
    auto bad = [touched](const Message::Error&) { touched(); };
    Server s;
    bus::perturb(0, 0, 0);
    struct Off {
        ~Off() { bus::perturb(0, 0, 0); }
    } off;
    std::unique_ptr<Native> n(new Native(s.path()));
    s.accept();
    maybePerturb(src);
    n->registerMethodCallHandler("a.b.M", [touched](const Message::MethodCall&) { touched(); });
    n->registerSignalHandler("a.b.S", [touched](const Message::Signal&) { touched(); });
    const bool auth = !src.chance(1, 6), fd = src.chance(1, 4);
    const unsigned stage = auth ? src.weighted({ 6, 1, 1, 1, 2 }) : 1; // 0: complete, 1: silent, 2: partly, 3: only OK, 4: many lines
    const bool early = src.flip();
    uint32_t tag = 0;
    size_t bytes = 0;
    auto app = [&](size_t big) {
        size_t k = src.below(8);
        while (k--) {
            if (src.flip()) {
                Message::MethodCallParametersIn p;
                p.add(++tag);
                p.add(std::string(itemSize(src, big), 'x'));
                n->sendMethodCall("x.y", Message::MethodCall(Message::MethodCallIdentifier("/o", "i.f", "M"), p, 0), ok, bad);
                bytes += 100;
            } else if (src.chance(1, 4)) {
                n->callAddMatch(Cat() << "type='signal',member='m" << ++tag << "'", ok, bad, [touched](const Message::Signal&) { touched(); });
            } else {
                Item it = genItem(src, ++tag, "M", itemSize(src, big));
                it.send(*n);
                bytes += it.bytes.size();
            }
        }
    };
    if (early)
        app(10000);
    if (auth)
        n->BeginAuth(fd ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
    static const char* stages[] = { "complete", "silent", "partial line", "OK only, or followed by traffic", "many lines" };
    std::thread flood;
    std::atomic<bool> stop { false };
    const unsigned peer = src.below(5); // 0: quiet 1: floods 2: stops in the middle 3: disconnects 4: disconnects having sent things
    size_t floodCalls = 0;
    if (stage == 0) {
        s.handshake(fd);
    } else if (stage >= 2) {
        s.exactly(1);
        s.line();
        const std::string okl = bus::okLine(1);
        if (stage < 4) {
            s.send(stage == 2 ? okl.substr(0, 1 + src.below(okl.size() - 1)) : okl);
        } else {
            std::string lines;
            for (size_t k = 1 + src.below(100); k--;)
                lines += fd && src.flip() ? okl : src.chance(1, 4) ? "ERROR " + std::string(src.below(300), 'e') + "\r\n" : junkLine(src, true);
            if (src.chance(1, 3))
                lines += src.flip() ? okl : okl.substr(0, src.below(okl.size()));
            s.send(lines);
        }
    }
    if (stage == 0 || stage == 3)
        app(src.chance(1, 3) ? 600000 : 3000);
    NOTE("handshake: " << (auth ? stages[stage] : "not begun") << ", peer " << peer << ", " << tag << " messages of about " << bytes << " bytes\n");
    std::string mix;
    if (stage == 0) {
        for (int i = 0; i < 20; ++i) {
            Msg m = i % 3 == 0 ? simple(4, i + 1, "/x", "a.b", "S") : i % 3 == 1 ? simple(1, i + 1, "/x", "a.b", "M") : simple(2, i + 1, "", "", "");
            if (m.type == 2) {
                m.hasReply = true;
                m.reply = src.below(200);
                m.reply += !m.reply;
            }
            mix += ref::encode(m);
        }
        // answers to what was sent so far
        if (src.flip()) {
            while (s.fill(0)) {
            }
            std::string in = s.pending();
            size_t at = 0;
            while (size_t k = ref::messageSize(in, at)) {
                if (in[at + 1] == 1) {
                    Msg r;
                    r.type = src.flip() ? 2 : 3;
                    r.hasReply = true;
                    r.serial = 99;
                    memcpy(&r.reply, in.data() + at + 8, 4);
                    if (r.type == 3)
                        r.errname = "e.e";
                    mix += ref::encode(r);
                }
                at += k;
            }
        }
    }
    size_t done = 0;
    switch (peer) {
    case 1:
        if (!mix.empty()) {
            flood = std::thread([&] {
                while (!stop) {
                    size_t d = 0;
                    while (!stop && s.trySend(mix, d) && d < mix.size())
                        bus::nap(20);
                    if (d < mix.size())
                        break;
                    ++floodCalls;
                }
            });
        }
        break;
    case 2:
        s.trySend(mix.substr(0, src.below(mix.size() + 1)), done);
        break;
    case 3:
        s.closeNow();
        break;
    case 4:
        s.trySend(mix.substr(0, src.below(mix.size() + 1)), done);
        s.closeNow();
        break;
    }
    // the moment
    if (src.flip())
        bus::nap(src.below(src.flip() ? 100 : 3000));
    const unsigned before = st->calls;
    n.reset();
    const unsigned during = st->calls - before;
    st->gone = true;
    bool busy = st->running != 0;
    stop = true;
    if (flood.joinable())
        flood.join();
    bus::perturb(0, 0, 0);
    CHECK(!busy, "a handler was still running when the destruction had returned");
    // what had been read may still be handled, but it does not go on for as long as more arrives
    CHECK(during <= 5000, during << " handlers and callbacks were started after the destruction had begun");
    bus::nap(slow ? slow + 50 : 50);
    rethrow_async_fail();
    label(Cat() << "handshake " << (auth ? stages[stage] : "not begun"));
    static const char* peers[] = { "peer quiet", "peer floods", "peer stops in the middle", "peer disconnects", "peer disconnects having sent" };
    label(peers[peer]);
    if (before)
        label("after callbacks had run");
    if (tag || peer)
        nontrivial(hcomb(hcomb(stage * 8 + peer, tag), hcomb(bytes, slow)));
}
PROP(C22, "slow handler", 2, 60, 40, 100, 0,
    "six connections are destroyed at once while a handler or callback of each takes 0 to 6 s longer, the bus sending more, closing, or not reading meanwhile; destruction must wait for it and complete; non-trivial: all")
{
    struct One {
        std::unique_ptr<Server> s { new Server };
        std::unique_ptr<Native> n;
        std::atomic<bool> started { false }, finished { false }, done { false };
        bool late = false;
        double seconds;
        unsigned kind, peer;
        std::thread th;
    };
    const unsigned N = 6;
    std::vector<std::unique_ptr<One>> all;
    uint64_t h = 0;
    auto none = [](const Message::MethodReturn&) {};
    auto no = [](const Message::Error&) {};
    for (unsigned i = 0; i < N; ++i) {
        all.emplace_back(new One);
        One& o = *all.back();
        o.seconds = src.below(1 + 6000 * (i + 1) / N) / 1000.;
        o.kind = src.below(3);
        o.peer = src.below(4);
        NOTE("handler kind " << o.kind << ", takes " << o.seconds << " s more, bus " << o.peer << "\n");
        h = hcomb(h, hcomb(uint64_t(o.seconds * 1000), o.kind * 4 + o.peer));
        o.n.reset(new Native(o.s->path()));
        o.s->accept();
        o.n->BeginAuth(AuthenticationProtocol::AUTH_BASIC);
        o.s->handshake(false);
        One* p = &o;
        auto slow = [p] {
            if (p->started.exchange(true))
                return;
            bus::nap(unsigned(p->seconds * 1e6) + 20000);
            p->finished = true;
        };
        std::string d;
        if (o.kind == 0) {
            o.n->registerMethodCallHandler("a.b.M", [slow](const Message::MethodCall&) { slow(); });
            d = ref::encode(simple(1, 5, "/x", "a.b", "M"));
        } else if (o.kind == 1) {
            o.n->registerSignalHandler("a.b.S", [slow](const Message::Signal&) { slow(); });
            d = ref::encode(simple(4, 5, "/x", "a.b", "S"));
        } else {
            o.n->callHello([slow](const Message::MethodReturn&) { slow(); }, no);
            Msg m = o.s->msg(), r;
            r.type = 2;
            r.hasReply = true;
            r.serial = 9;
            r.reply = m.serial;
            d = ref::encode(r);
        }
        o.s->send(d);
        for (int t = 0; t < 25000 && !o.started; ++t)
            bus::nap(1000);
        CHECK(o.started, "the handler is not invoked");
        if (o.peer == 1)
            for (int k = 0; k < 30; ++k)
                o.s->send(ref::encode(simple(4, 5, "/x", "a.b", "S")));
        if (o.peer == 2)
            o.s->closeNow();
        if (o.peer == 3)
            o.n->callNameHasOwner(std::string(2000000, 'x'), none, no);
    }
    for (auto& o : all) {
        One* p = o.get();
        o->th = std::thread([p] {
            p->n.reset();
            p->late = !p->finished;
            p->done = true;
        });
    }
    for (auto& o : all)
        o->th.join();
    for (auto& o : all)
        CHECK(!o->late, "a handler was still running when the destruction had returned");
    nontrivial(h);
}

// ------------------------------------------------------------------ C28
PROP(C28, "requests", 8000, 100000, 15, 90, 0,
    "1-6 (1/40: up to 80) convenience calls with generated arguments, rules with keys the library does not look at among them; the server checks each request and answers with a return, an error or nothing, in any order; non-trivial: all, not counted twice")
{
    Link l;
    l.up();
    struct Want {
        std::string member;
        std::vector<Val> args;
        bool reply;
        uint32_t serial = 0;
        int answered = 0;
        Msg answer;
    };
    struct Rec {
        size_t i;
        int kind;
        Got got;
    };
    auto recs = std::make_shared<std::pair<std::mutex, std::vector<Rec>>>();
    std::vector<Want> want;
    size_t n = 1 + src.below(src.chance(1, 40) ? 80 : 6);
    uint64_t h = 0;
    // rules are sent as they are, whether or not the library looks at all of their keys
    auto anyRule = [&] {
        std::string rule = genRule(src).text;
        if (src.chance(1, 4))
            rule += ",arg" + std::to_string(src.below(64)) + "='" + ref::genBusName(src) + "'";
        if (src.chance(1, 8))
            rule += ",eavesdrop='true'";
        if (src.chance(1, 8))
            rule += src.oneof<std::string>({ ",arg1='a=b'", ",arg2='='", ",arg63=x=y", ",arg0=''", ",arg0namespace='a.b'" });
        if (src.chance(1, 12))
            rule += ",arg0path='/" + std::string(src.size(3000), 'p') + "/'";
        return rule;
    };
    for (size_t i = 0; i < n; ++i) {
        auto ok = [recs, i](const Message::MethodReturn& m) {
            std::lock_guard<std::mutex> lk(recs->first);
            recs->second.push_back({ i, 2, ref::got(m) });
        };
        auto bad = [recs, i](const Message::Error& m) {
            std::lock_guard<std::mutex> lk(recs->first);
            recs->second.push_back({ i, 3, ref::got(m) });
        };
        Want w;
        w.reply = true;
        const std::string name = src.chance(1, 8) ? ref::genText(src, src.chance(1, 10) ? 20000 : 200) : ref::genBusName(src);
        const Val nameArg = ref::text('s', name);
        switch (src.below(11)) {
        case 0:
            w.member = "Hello";
            l.n->callHello(ok, bad);
            break;
        case 1:
            w.member = "GetConnectionUnixProcessID";
            w.args = { nameArg };
            l.n->callGetUnixProcessId(name, ok, bad);
            break;
        case 2:
            w.member = "GetConnectionUnixUser";
            w.args = { nameArg };
            l.n->callGetConnectionUnixUser(name, ok, bad);
            break;
        case 3: {
            uint32_t flags = src.flip() ? src.below(8) : src.interesting(32);
            w.member = "RequestName";
            w.args = { nameArg, u32(flags) };
            l.n->callRequestName(name, flags, ok, bad);
            break;
        }
        case 4:
            w.member = "ReleaseName";
            w.args = { nameArg };
            l.n->callReleaseName(name, ok, bad);
            break;
        case 5:
            w.member = "ListQueuedOwners";
            w.args = { nameArg };
            l.n->callListQueuedOwners(name, ok, bad);
            break;
        case 6:
            w.member = "ListNames";
            l.n->callListNames(ok, bad);
            break;
        case 7:
            w.member = "ListActivatableNames";
            l.n->callListActivatableNames(ok, bad);
            break;
        case 8:
            w.member = "NameHasOwner";
            w.args = { nameArg };
            l.n->callNameHasOwner(name, ok, bad);
            break;
        case 9: {
            const std::string rule = anyRule();
            w.member = "AddMatch";
            w.args = { ref::text('s', rule) };
            l.n->callAddMatch(rule, ok, bad, [](const Message::Signal&) {});
            break;
        }
        default: {
            const std::string rule = anyRule();
            w.member = "RemoveMatch";
            w.args = { ref::text('s', rule) };
            w.reply = false;
            l.n->callRemoveMatch(rule);
        }
        }
        NOTE(w.member << (w.args.empty() ? "" : " " + ref::describe(w.args[0])) << "\n");
        h = hcomb(h, hash_str(w.member + name));
        label(w.member);
        want.push_back(w);
    }
    for (auto& w : want) {
        Msg m = l.s.msg();
        CHECK(m.type == 1 && m.member == w.member && m.iface == "org.freedesktop.DBus" && m.path == "/org/freedesktop/DBus" && m.dest == "org.freedesktop.DBus",
            w.member << " sends " << ref::describe(m));
        CHECK(!(m.flags & 1) == w.reply, w.member << " is sent with" << (m.flags & 1 ? "out" : "") << " a reply expected");
        CHECK(m.args.size() == w.args.size(), w.member << " has arguments " << m.signature());
        for (size_t i = 0; i < m.args.size(); ++i)
            CHECK(ref::same(m.args[i], w.args[i]), w.member << ", argument " << i << ": " << ref::describe(m.args[i]) << " instead of " << ref::describe(w.args[i]));
        w.serial = m.serial;
    }
    std::vector<size_t> order;
    for (size_t i = 0; i < n; ++i)
        if (!src.chance(1, 6))
            order.push_back(i);
    shuffle(src, order);
    std::vector<std::string> out;
    for (size_t i : order) {
        ref::MsgOpt o;
        o.type = 2 + src.below(2);
        o.budget = src.chance(1, 30) ? 5000 : 50;
        o.maxArgs = 2;
        Msg m = ref::genMsg(src, o);
        m.reply = want[i].serial;
        if (want[i].reply) {
            want[i].answered = m.type;
            want[i].answer = m;
        }
        out.push_back(ref::encode(m));
    }
    deliver(src, l.s, out);
    l.f.pass(l.s);
    {
        std::lock_guard<std::mutex> lk(recs->first);
        for (auto& r : recs->second) {
            Want& w = want[r.i];
            CHECK(w.answered, "a callback of " << w.member << " was invoked without a reply, or twice");
            CHECK(w.answered == r.kind, "the wrong callback of " << w.member << " was invoked");
            ref::checkGot(r.got, w.answer, "reply to " + w.member);
            w.answered = 0;
        }
        for (auto& w : want)
            CHECK(!w.answered, "the reply to " << w.member << " invoked no callback");
    }
    while (l.s.fill(0))
        ;
    CHECK(l.s.pending().empty(), "more than one message per request was sent: " << hexdump(l.s.pending(), 100));
    l.end();
    nontrivial(h);
}

// ------------------------------------------------------------------ C34
namespace {
// Everything below runs on the io thread of the connection, apart from the
// initial set-up and the final comparison, which the fences separate from it.
struct World {
    Native* n = nullptr;
    uint64_t seed = 0;
    uint32_t actions = 0;
    int next = 1;
    std::map<std::string, int> calls, signals; // name -> handler
    std::map<std::string, std::pair<Rule, int>> rules;
    // since the current message: what was there at some time while it was dispatched
    uint32_t current = 0;
    std::set<int> maybe; // subscriptions that appeared or went while it was dispatched
    std::vector<std::pair<uint32_t, int>> invoked; // (message, handler)
    std::map<uint32_t, std::set<int>> optional; // per message
    unsigned started = 0, completed = 0;
    std::vector<std::string> sent; // bytes, in order
    unsigned replies = 0, replyCallbacks = 0;
    std::vector<std::pair<uint32_t, uint32_t>> order;
    uint64_t did[8] = {};
    Fill f { 1 };

    void perform(int self, const std::string& selfName, int selfKind);
    void entered(uint32_t message, int id)
    {
        if (message != current) {
            current = message;
        }
        invoked.push_back({ message, id });
    }
    void addCall(const std::string& name);
    void addSignal(const std::string& name);
    void addRule(const Rule& r);
    void removeRule(const std::string& text);
    void touchedDuring(int id)
    {
        if (current)
            optional[current].insert(id);
    }
};
void World::addCall(const std::string& name)
{
    int id = next++;
    calls[name] = id;
    n->registerMethodCallHandler(name, [this, id, name](const Message::MethodCall& m) {
        ++started;
        entered(m.getSerial(), id);
        // the captures live in the handler that may be removed below
        std::string mine = name;
        perform(id, mine, 0);
        if (mine != name)
            async_fail("the state of a handler changed while it was running");
        current = 0;
        ++completed;
    });
}
void World::addSignal(const std::string& name)
{
    int id = next++;
    signals[name] = id;
    touchedDuring(id);
    n->registerSignalHandler(name, [this, id, name](const Message::Signal& m) {
        ++started;
        entered(m.getSerial(), id);
        std::string mine = name;
        perform(id, mine, 1);
        if (mine != name)
            async_fail("the state of a handler changed while it was running");
        ++completed;
    });
}
void World::addRule(const Rule& r)
{
    int id = next++;
    rules[r.text] = { r, id };
    touchedDuring(id);
    const std::string text = r.text;
    n->callAddMatch(r.text, [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [this, id, text](const Message::Signal& m) {
        ++started;
        entered(m.getSerial(), id);
        std::string mine = text;
        perform(id, mine, 2);
        if (mine != text)
            async_fail("the state of a handler changed while it was running");
        ++completed;
    });
}
void World::removeRule(const std::string& text)
{
    auto it = rules.find(text);
    if (it == rules.end())
        return;
    touchedDuring(it->second.second);
    rules.erase(it);
    n->callRemoveMatch(text);
}
void World::perform(int self, const std::string& selfName, int selfKind)
{
    size_t k = f.below(4);
    while (k--) {
        ++actions;
        switch (f.below(10)) {
        case 0: { // send
            ++did[0];
            Message::Signal s(Message::MethodCallIdentifier("/o", "out.i", "Sig"));
            s.addParameter(Type::Uint32(actions));
            sent.push_back(s.marshall("x.y"));
            n->sendSignal("x.y", s);
            break;
        }
        case 1: { // a call whose callback does things as well
            ++did[1];
            Message::MethodCallParametersIn p;
            p.add(actions);
            Message::MethodCall m(Message::MethodCallIdentifier("/o", "out.i", "Call"), p, 0);
            sent.push_back(m.marshall("x.y"));
            ++replies;
            auto left = std::make_shared<int>(1);
            auto cb = [this, left] {
                ++replyCallbacks;
                current = 0;
                if (f.below(2))
                    perform(0, "", 3);
                if (!(*left)--)
                    async_fail("a reply callback ran twice");
            };
            n->sendMethodCall("x.y", m, [cb](const Message::MethodReturn&) { cb(); }, [cb](const Message::Error&) { cb(); });
            break;
        }
        case 2: // itself
            if (selfKind == 0 && calls.count(selfName) && calls[selfName] == self) {
                ++did[2];
                n->unRegisterMethodCallHandler(selfName);
                calls.erase(selfName);
            } else if (selfKind == 1 && signals.count(selfName) && signals[selfName] == self) {
                ++did[2];
                touchedDuring(self);
                n->unRegisterSignalHandler(selfName);
                signals.erase(selfName);
            } else if (selfKind == 2 && rules.count(selfName) && rules[selfName].second == self) {
                ++did[2];
                removeRule(selfName);
            }
            break;
        case 3: { // another method call handler
            std::string name = Ifaces[f.below(3)] + "." + Members[f.below(3)];
            ++did[3];
            if (calls.count(name)) {
                n->unRegisterMethodCallHandler(name);
                calls.erase(name);
            } else
                addCall(name);
            break;
        }
        case 4: {
            std::string name = SIfaces[f.below(2)] + "." + SMembers[f.below(2)];
            ++did[4];
            if (signals.count(name)) {
                touchedDuring(signals[name]);
                n->unRegisterSignalHandler(name);
                signals.erase(name);
            } else
                addSignal(name);
            break;
        }
        case 5:
        case 6: { // add a rule
            uint8_t bytes[40];
            for (auto& b : bytes)
                b = f.below(256);
            Src s(bytes, sizeof bytes);
            Rule r = genRule(s);
            if (rules.count(r.text) || rules.size() > 6)
                break;
            ++did[5];
            addRule(r);
            break;
        }
        case 7: // remove one
            if (!rules.empty()) {
                auto it = rules.begin();
                std::advance(it, f.below(rules.size()));
                ++did[6];
                removeRule(std::string(it->first));
            }
            break;
        case 8: // remove and register again: the new one is in charge afterwards
            if (selfKind == 0 && calls.count(selfName) && calls[selfName] == self) {
                ++did[7];
                n->unRegisterMethodCallHandler(selfName);
                addCall(selfName);
            }
            break;
        default:
            n->getStats();
        }
    }
}
}
PROP(C34, "re-entrance", 5000, 70000, 20, 90, 0,
    "handlers for calls, signals and rules, and reply callbacks, that while running send, call, add and remove rules and register and remove handlers, themselves included, over 1-12 (1/50: up to 200) rounds of generated traffic; a model "
    "tracks who must be invoked by each message; non-trivial: at least one handler removed itself or was replaced while running")
{
    Link l;
    l.up();
    auto w = std::make_shared<World>();
    w->n = l.n.get();
    w->f = Fill(src.raw(4));
    size_t k = 1 + src.below(4);
    while (k--) {
        std::string c = src.pick(Ifaces) + "." + src.pick(Members), s = src.pick(SIfaces) + "." + src.pick(SMembers);
        if (!w->calls.count(c))
            w->addCall(c);
        if (src.flip() && !w->signals.count(s))
            w->addSignal(s);
        Rule r = genRule(src);
        if (src.chance(2, 3) && !w->rules.count(r.text))
            w->addRule(r);
    }
    uint32_t serial = 0;
    size_t rounds = 1 + src.below(src.chance(1, 50) ? 200 : 12);
    uint64_t h = 0, messages = 0;
    std::string pendingOut; // what the client has sent that was not looked at
    for (size_t i = 0; i < rounds; ++i) {
        // one message at a time, so that the model knows who is registered when it arrives
        if (src.flip()) {
            Msg m = simple(1, ++serial, "/x", src.pick(Ifaces), src.pick(Members));
            m.flags = 1;
            int want = 0;
            auto it = w->calls.find(m.iface + "." + m.member);
            if (it != w->calls.end())
                want = it->second;
            w->invoked.clear();
            NOTE("call " << m.iface << "." << m.member << " -> " << want << "\n");
            deliver(src, l.s, { ref::encode(m) });
            l.f.pass(l.s);
            rethrow_async_fail();
            w->current = 0;
            std::vector<std::pair<uint32_t, int>> exp;
            if (want)
                exp.push_back({ serial, want });
            CHECK(w->invoked == exp, "call " << m.iface << "." << m.member << " invoked " << w->invoked.size() << " handlers"
                                             << (w->invoked.empty() ? "" : ", the first being " + std::to_string(w->invoked[0].second)) << " instead of " << want);
        } else {
            Msg m = genSignal(src, ++serial);
            std::set<int> want;
            for (auto& x : w->rules)
                if (x.second.first.matches(m))
                    want.insert(x.second.second);
            auto it = w->signals.find(m.iface + "." + m.member);
            if (it != w->signals.end())
                want.insert(it->second);
            w->invoked.clear();
            NOTE("signal " << m.path << " " << m.iface << "." << m.member << " -> " << want.size() << " handlers\n");
            deliver(src, l.s, { ref::encode(m) });
            l.f.pass(l.s);
            rethrow_async_fail();
            w->current = 0;
            std::set<int> seen;
            for (auto& x : w->invoked) {
                CHECK(x.first == serial, "a handler was invoked with another signal");
                CHECK(seen.insert(x.second).second, "handler " << x.second << " was invoked twice for one signal");
                CHECK(want.count(x.second) || w->optional[serial].count(x.second), "handler " << x.second << " was invoked for signal " << ref::describe(m) << ", which is not for it");
            }
            for (int x : want)
                CHECK(seen.count(x) || w->optional[serial].count(x), "handler " << x << " was not invoked for signal " << ref::describe(m));
        }
        CHECK(w->started == w->completed, "a handler that uses the connection did not run to its end");
        ++messages;
        // answer the calls made from handlers; read everything
        std::vector<std::string> out;
        while (l.s.fill(0))
            ;
        bool again = true;
        unsigned depth = 0;
        while (again && depth++ < 4) {
            again = false;
            out.clear();
            while (w->sent.size()) {
                // in order, between requests to the bus
                std::string b = l.s.message();
                Msg m = ref::parse(b);
                if (m.iface == "org.freedesktop.DBus")
                    continue;
                CHECK(b == w->sent.front(), "a message sent from a handler arrives differently or in another order: " << ref::describe(m));
                w->sent.erase(w->sent.begin());
                if (m.type == 1 && !src.chance(1, 6)) {
                    Msg r;
                    r.type = src.flip() ? 2 : 3;
                    if (r.type == 3)
                        r.errname = "e.e";
                    r.hasReply = true;
                    r.reply = m.serial;
                    r.serial = 100000 + m.serial;
                    out.push_back(ref::encode(r));
                }
            }
            if (!out.empty()) {
                unsigned before = w->replyCallbacks;
                deliver(src, l.s, out);
                l.f.pass(l.s);
                rethrow_async_fail();
                CHECK(w->replyCallbacks == before + out.size(), w->replyCallbacks - before << " of " << out.size() << " replies to calls made from handlers invoked a callback");
                again = true;
            }
        }
    }
    l.end();
    h = hcomb(w->actions, hcomb(w->next, messages));
    static const char* names[] = { "sends", "calls", "removed itself", "call handlers changed", "signal handlers changed", "rules added", "rules removed", "replaced itself" };
    for (int i = 0; i < 8; ++i)
        label(names[i], w->did[i]);
    if (w->did[2] || w->did[7])
        nontrivial(h);
}

// ------------------------------------------------------------------ C35
namespace {
// the header of a message that has to be rejected as soon as it is complete, and nothing after it
std::string badHeader(Src& src, std::string& why)
{
    const bool big = src.flip();
    ref::Enc fields(big);
    uint32_t body = 0, announced = 0;
    unsigned kind = src.below(4);
    if (kind == 0) { // fields that cannot be decoded
        static const std::vector<std::string> bad { "(", "a", "()", "", "uu", "a{vs}", "z", "((u)" };
        const std::string sig = src.pick(bad);
        fields.num(1 + src.below(9), 1);
        fields.signature(sig);
        fields.out += std::string(40 + src.below(40), '\0');
        fields.pad(8);
        announced = fields.out.size();
        why = "header field of signature '" + sig + "'";
    } else if (kind == 1) { // a text that is longer than the header
        fields.num(1, 1);
        fields.signature("s");
        fields.num(100 + src.interesting(24), 4);
        fields.out += std::string(16, 'x');
        fields.pad(8);
        announced = fields.out.size();
        why = "header field that is longer than the header";
    } else if (kind == 2) {
        announced = (64u << 20) + 1 + src.below(0xfbfffffe);
        why = "size of the header fields";
    } else {
        body = (128u << 20) + src.below(0xf7ffffff);
        why = "size of the body";
    }
    ref::Enc e(big);
    e.num(big ? 'B' : 'l', 1);
    e.num(1 + src.below(4), 1);
    e.num(0, 1);
    e.num(1, 1);
    e.num(body, 4);
    e.num(1 + src.below(1000), 4);
    e.num(announced, 4);
    return e.out + fields.out;
}
std::string garbage(Src& src)
{
    Fill f(src.raw(4));
    std::string d;
    switch (src.below(5)) {
    case 0: // anything
        for (size_t n = src.size(5000); n--;)
            d += char(f.next());
        break;
    case 1: // handshake again
        for (size_t n = src.below(5); n--;)
            d += junkLine(src, true);
        break;
    case 2: { // messages with some bytes changed, perhaps cut short
        for (size_t n = 1 + src.below(4); n--;)
            d += ref::encode(noise(src));
        for (size_t n = 1 + src.below(6); n-- && !d.empty();)
            d[src.below(d.size())] = char(src.byte());
        if (src.flip())
            d.resize(src.below(d.size() + 1));
        break;
    }
    case 3: { // plausible prologues
        for (size_t n = 1 + src.below(4); n--;) {
            ref::Enc e(src.flip());
            e.num(src.chance(1, 8) ? src.byte() : e.big ? 'B' : 'l', 1);
            e.num(src.below(6), 1);
            e.num(src.byte(), 1);
            e.num(1, 1);
            e.num(src.interesting(32), 4);
            e.num(src.interesting(32), 4);
            e.num(src.flip() ? src.below(200) : src.interesting(32), 4);
            d += e.out;
            for (size_t k = src.below(200); k--;)
                d += char(f.below(4) ? f.below(8) : f.next());
        }
        break;
    }
    default:
        d = std::string(src.below(70000), char(src.byte()));
    }
    return d;
}
}
PROP(C35, "hostile bus", 8000, 100000, 15, 90, 0,
    "lines that do not count, then 0-4 (1/100: up to 79) rounds of valid messages in any cut, some to throwing handlers, each round ended by a header that has to be rejected; what was complete before it, and the messages of the following "
    "rounds, must be delivered, in order; then any bytes, perhaps a disconnect, and more use of the connection by the application; non-trivial: a rejected header with messages around it, or garbage")
{
    Link l;
    const bool fd = src.chance(1, 4);
    auto log = std::make_shared<HandlerLog>();
    auto isBad = [](uint32_t serial) { return serial % 5 == 3; };
    auto handle = [log, isBad](int kind, const Got& g) {
        log->add(kind, g);
        if (isBad(g.serial)) {
            if (g.serial % 2)
                throw std::runtime_error("handler");
            throw std::logic_error("handler");
        }
    };
    l.n->registerMethodCallHandler("a.b.M", [handle](const Message::MethodCall& m) { handle(1, ref::got(m)); });
    l.n->registerSignalHandler("a.b.S", [handle](const Message::Signal& m) { handle(4, ref::got(m)); });
    maybePerturb(src);
    uint32_t tag = 0;
    auto app = [&] {
        for (size_t k = src.below(4); k--;)
            genItem(src, ++tag, "M", itemSize(src, 5000)).send(*l.n);
    };
    app();
    l.n->BeginAuth(fd ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
    l.s.exactly(1);
    l.s.line();
    const bool completes = !src.chance(1, 8);
    std::string junk;
    size_t odd = 0;
    for (size_t n = src.below(4); n--; ++odd) {
        if (src.chance(1, 5)) {
            Fill f(src.raw(2));
            std::string line = "x";
            for (size_t k = src.size(20000); k--;) {
                char c = char(f.next());
                line += c == '\n' ? '%' : c;
            }
            junk += line + "\r\n";
        } else
            junk += junkLine(src, fd);
    }
    if (!junk.empty())
        l.s.sendCut(junk, ref::genCuts(src, junk.size(), {}), src.raw(8));
    NOTE(odd << " lines that do not count, " << junk.size() << " bytes\n");
    uint64_t h = hash_str(junk);
    size_t rejected = 0;
    std::vector<Msg> want;
    uint32_t serial = 0;
    bool wild = false;
    if (completes) {
        l.s.send(bus::okLine(3));
        if (fd) {
            std::string got = l.s.line();
            CHECK(got == "NEGOTIATE_UNIX_FD\r\n", "after OK the client sends " << show(got, 200));
            l.s.send("AGREE_UNIX_FD\r\n");
        }
        std::string got = l.s.line();
        CHECK(got == "BEGIN\r\n", "the client sends " << show(got, 200) << " instead of BEGIN");
        size_t rounds = src.below(src.chance(1, 100) ? 80 : 5);
        for (size_t r = 0; r < rounds; ++r) {
            std::string d;
            std::vector<size_t> marks;
            for (size_t k = src.below(5); k--;) {
                Msg m = noise(src);
                m.serial = ++serial;
                if (m.type == 1 || m.type == 4) {
                    m.iface = "a.b";
                    m.member = m.type == 1 ? "M" : "S";
                    want.push_back(m);
                }
                marks.push_back(d.size());
                d += ref::encode(m);
            }
            std::string why;
            marks.push_back(d.size());
            const std::string b = badHeader(src, why);
            d += b;
            h = hcomb(h, hash_str(d));
            NOTE("round " << r << ": " << marks.size() - 1 << " messages, " << d.size() - b.size() << " bytes, then a header to be rejected: " << why << "\n");
            l.s.sendCut(d, ref::genCuts(src, d.size(), marks), src.chance(1, 2) ? 0 : src.raw(8));
            // what comes next is not in the same read
            l.s.waitRead();
            ++rejected;
            app();
        }
        l.f.pass(l.s);
        {
            std::lock_guard<std::mutex> lk(log->m);
            for (size_t i = 0; i < std::max(want.size(), log->recs.size()); ++i) {
                CHECK(i < log->recs.size(), "only " << log->recs.size() << " of " << want.size() << " messages around " << rejected << " rejected headers were delivered");
                CHECK(i < want.size(), "delivered although it was not sent: " << ref::describe(log->recs[i].got));
                CHECK(log->recs[i].got.serial == want[i].serial, "message " << want[i].serial << " was due, and " << ref::describe(log->recs[i].got) << " was delivered");
                ref::checkGot(log->recs[i].got, want[i], "message");
            }
        }
    }
    // anything
    for (size_t k = src.below(4); k--;) {
        const std::string g = garbage(src);
        h = hcomb(h, hash_str(g));
        NOTE("garbage of " << g.size() << " bytes: " << hexdump(g, 60) << "\n");
        if (g.empty())
            continue;
        wild = true;
        l.s.sendCut(g, ref::genCuts(src, g.size(), {}), src.raw(8));
        app();
    }
    l.s.waitRead();
    if (src.flip()) {
        NOTE("the server disconnects\n");
        l.s.closeNow();
        label("disconnects");
        wild = true;
    }
    for (size_t k = src.below(3); k--;)
        app();
    auto none = [](const Message::MethodReturn&) {};
    auto no = [](const Message::Error&) {};
    if (src.flip())
        l.n->callAddMatch("type='signal',member='X'", none, no, [](const Message::Signal&) {});
    l.n->callRemoveMatch("type='signal',member='X'");
    l.n->unRegisterMethodCallHandler("a.b.M");
    l.n->unRegisterSignalHandler("a.b.S");
    l.n->getStats();
    l.end();
    label("rejected headers", rejected);
    label("messages around them", want.size());
    if ((rejected && !want.empty()) || wild)
        nontrivial(hcomb(h, rejected * 100 + want.size()));
}

PROP(C35, "no bus", 2000, 20000, 15, 60, 1,
    "a connection to an address where nothing listens, that is too long for a socket address, or empty: must fail with a standard exception; non-trivial: all")
{
    std::string path;
    const unsigned kind = src.below(4);
    switch (kind) {
    case 0: // abstract, nobody there
        path = std::string(1, '\0') + "dbus-asio-verif-none-" + std::to_string(getpid()) + "-" + std::to_string(scratch_id());
        break;
    case 1:
        path = "/nonexistent-" + ref::genText(src, 40);
        path.erase(std::remove(path.begin(), path.end(), '\0'), path.end());
        break;
    case 2:
        path = std::string(src.flip() ? 1 : 0, '\0') + std::string(100 + src.size(5000), 'p');
        break;
    default:
        path = src.flip() ? "" : "/";
    }
    NOTE("path of " << path.size() << " bytes: " << show(path) << "\n");
    bool thrown = false;
    try {
        Native n(path);
    } catch (const std::exception& e) {
        thrown = true;
    }
    CHECK(thrown, "connecting to " << show(path) << " succeeds");
    label(kind == 0 ? "abstract" : kind == 1 ? "missing file" : kind == 2 ? "long" : "empty or a directory");
    nontrivial(hash_str(path));
}
