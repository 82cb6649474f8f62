// Several connections, decoders and threads at once: C40. Built with
// AddressSanitizer, and again with ThreadSanitizer.
#include "link.h"
#include <dbus_introspectable.h>
#include <dbus_matchrule.h>

// ------------------------------------------------------------------ connections
namespace {
struct Event {
    int conn;
    uint32_t serial; // of the message that led to it
    int target; // handler or call
    bool operator<(const Event& o) const { return std::tie(conn, serial, target) < std::tie(o.conn, o.serial, o.target); }
    bool operator==(const Event& o) const { return std::tie(conn, serial, target) == std::tie(o.conn, o.serial, o.target); }
};
struct Events {
    std::mutex m;
    std::vector<Event> v;
    void add(int conn, uint32_t serial, int target)
    {
        std::lock_guard<std::mutex> l(m);
        v.push_back({ conn, serial, target });
    }
};
std::string describe(const Event& e) { return Cat() << "target " << e.target << " of connection " << e.conn << ", by message " << e.serial; }

struct Conn {
    int id;
    std::unique_ptr<Link> l { new Link() };
    int state = 0; // 0: nothing sent yet, 1: half of the answer to AUTH is there, 2: authenticated, 3: the server has gone
    std::string rest; // of OK, or of a message
    std::map<std::string, int> methods, signals, rules; // name -> target
    std::map<uint32_t, int> open; // calls without an answer: serial -> target
    std::vector<int> queued; // calls made before authentication, by target
    uint64_t calls = 0, returns = 0, errors = 0, sig = 0, in = 0; // for the statistics
    bool queuedRead = false;
};
}
PROP(C40, "connections", 2500, 40000, 20, 90, 0,
    "2-5 connections, each with a server of its own, in all states: not authenticated yet, half way through the handshake, authenticated, half way through a message, abandoned by the server; 10-60 steps on any of them: calls, "
    "replies (also to the serials of calls of the other connections), handlers and rules of the same names, signals, calls, more connections, destruction; each connection must do what it would do alone, statistics included; "
    "non-trivial: two connections were authenticated and used, or a message or handshake was interrupted by the use of another connection")
{
    auto log = std::make_shared<Events>();
    std::vector<Event> want;
    std::vector<std::unique_ptr<Conn>> conns;
    int nextConn = 1, nextTarget = 1;
    uint32_t serial = 0;
    bool interesting = false;
    uint64_t h = 0;
    const std::vector<std::string> names { "M", "N", "MM" };
    auto open = [&] {
        conns.emplace_back(new Conn { nextConn++ });
        conns.back()->l->f.asSignals(src.flip());
        NOTE("connection " << conns.back()->id << "\n");
    };
    // reads the call that was made last, or those that were queued
    auto readCall = [&](Conn& c, int target) {
        Msg m = c.l->s.msg();
        CHECK(m.type == 1 && m.args.size() == 1 && int(m.args[0].u) == target,
            "the server of connection " << c.id << " receives " << ref::describe(m) << " instead of the call of target " << target);
        c.open[m.serial] = target;
    };
    auto ready = [&](Conn& c) {
        c.state = 2;
        for (int t : c.queued)
            readCall(c, t);
        c.queued.clear();
    };
    auto flush = [&](Conn& c) {
        if (c.rest.empty())
            return;
        c.l->s.send(c.rest);
        c.rest.clear();
        if (c.state == 1) {
            std::string line = c.l->s.line();
            CHECK(line == "BEGIN\r\n", "connection " << c.id << " sends " << show(line) << " instead of BEGIN");
            ready(c);
        }
    };
    auto fence = [&](Conn& c) {
        if (c.state == 2) {
            flush(c);
            c.l->f.pass(c.l->s);
        }
    };
    auto send = [&](Conn& c, const Msg& m) {
        std::string d = ref::encode(m);
        flush(c);
        if (src.chance(1, 3)) {
            const size_t cut = 1 + src.below(d.size() - 1);
            c.l->s.send(d.substr(0, cut));
            if (src.flip())
                c.l->s.waitRead();
            c.rest = d.substr(cut);
            label("messages interrupted");
            interesting = true;
        } else
            c.l->s.send(d);
    };
    auto stats = [&](Conn& c) {
        fence(c);
        const std::string s = c.l->n->getStats();
        const bool up = c.state == 2;
        auto is = [&](const char* key, uint64_t n) { CHECK(bus::stat(s, key) == n, "the statistics of connection " << c.id << " have " << key << " = " << bus::stat(s, key) << " instead of " << n); };
        is("count_sent_methodcalls", c.calls);
        is("count_sent_methodreturns", 0);
        if (!up)
            return;
        is("count_receive_methodreturns", c.returns);
        is("count_receive_errors", c.errors);
        const uint64_t both = bus::stat(s, "count_receive_methodcalls") + bus::stat(s, "count_receive_signals");
        CHECK(both == c.in + c.sig + c.l->f.sent(), "the statistics of connection " << c.id << " have " << both << " calls and signals received instead of " << c.in + c.sig + c.l->f.sent());
    };
    auto close = [&](size_t i) {
        Conn& c = *conns[i];
        NOTE("destroy connection " << c.id << "\n");
        fence(c);
        c.l->end();
        conns.erase(conns.begin() + i);
    };
    open();
    open();
    maybePerturb(src);
    std::set<int> used;
    for (size_t steps = 10 + src.below(50); steps--;) {
        if (conns.empty() || (conns.size() < 5 && src.chance(1, 12))) {
            open();
            continue;
        }
        const size_t k = src.below(conns.size());
        Conn& c = *conns[k];
        Link& l = *c.l;
        h = hcomb(h, c.id);
        if (c.state < 2 && src.chance(2, 3)) {
            if (c.state == 1) {
                NOTE("connection " << c.id << ": the rest of OK\n");
                flush(c);
            } else {
                const int how = src.below(3);
                NOTE("connection " << c.id << " authenticates, way " << how << "\n");
                if (how < 2) {
                    l.up(how);
                    ready(c);
                } else {
                    l.n->BeginAuth(AuthenticationProtocol::AUTH_BASIC);
                    CHECK(l.s.exactly(1)[0] == '\0', "the first byte is not NUL");
                    std::string line = l.s.line(), ok = bus::okLine(c.id);
                    CHECK(line == Server::authLine(), "connection " << c.id << " starts with " << show(line));
                    const size_t cut = 1 + src.below(ok.size() - 1);
                    l.s.send(ok.substr(0, cut));
                    if (src.flip())
                        l.s.waitRead();
                    c.rest = ok.substr(cut);
                    c.state = 1;
                    label("handshakes interrupted");
                    interesting = true;
                }
            }
            continue;
        }
        const int id = c.id;
        switch (src.weighted({ 6, 5, 4, 4, 4, 3, 2, 1, 1 })) {
        case 0: { // a call
            const int t = nextTarget++;
            Message::MethodCallParametersIn p;
            p.add(uint32_t(t));
            Message::MethodCall m(Message::MethodCallIdentifier("/o", "i.f", "M"), p);
            NOTE("connection " << id << ": call of target " << t << " (serial " << m.getSerial() << ")\n");
            l.n->sendMethodCall(
                "x.y", m, [=](const Message::MethodReturn& r) { log->add(id, r.getSerial(), t); }, [=](const Message::Error& e) { log->add(id, e.getSerial(), -t); });
            ++c.calls;
            if (c.state == 2)
                readCall(c, t);
            else if (c.state < 2)
                c.queued.push_back(t);
            break;
        }
        case 1: { // a reply
            if (c.state != 2)
                break;
            Msg m;
            m.type = 2 + src.below(2);
            m.serial = ++serial;
            m.hasReply = true;
            if (m.type == 3)
                m.errname = "a.b";
            std::vector<uint32_t> own, others;
            for (auto& x : conns)
                for (auto& o : x->open)
                    (x->id == id ? own : others).push_back(o.first);
            if (own.size() && !(others.size() && src.chance(1, 3))) {
                m.reply = src.pick(own);
                const int t = c.open[m.reply];
                want.push_back({ id, m.serial, m.type == 2 ? t : -t });
                c.open.erase(m.reply);
                used.insert(id);
            } else if (others.size()) {
                m.reply = src.pick(others);
                label("replies to calls of others");
            } else
                break;
            NOTE("connection " << id << ": reply " << m.serial << " to " << m.reply << "\n");
            ++(m.type == 2 ? c.returns : c.errors);
            send(c, m);
            break;
        }
        case 2: // a method call handler
        case 3: { // a signal handler
            const bool sig = src.flip();
            auto& map = sig ? c.signals : c.methods;
            const std::string name = src.pick(names), full = "c.d." + name;
            fence(c);
            if (map.count(name)) {
                NOTE("connection " << id << ": remove " << (sig ? "signal" : "call") << " handler " << name << "\n");
                if (sig)
                    l.n->unRegisterSignalHandler(full);
                else
                    l.n->unRegisterMethodCallHandler(full);
                map.erase(name);
                break;
            }
            const int t = nextTarget++;
            NOTE("connection " << id << ": " << (sig ? "signal" : "call") << " handler " << name << " is target " << t << "\n");
            if (sig)
                l.n->registerSignalHandler(full, [=](const Message::Signal& m) { log->add(id, m.getSerial(), t); });
            else
                l.n->registerMethodCallHandler(full, [=](const Message::MethodCall& m) { log->add(id, m.getSerial(), t); });
            map[name] = t;
            break;
        }
        case 4: { // a rule
            if (c.state != 2)
                break;
            const std::string name = src.pick(names), rule = "type='signal',member='" + name + "'";
            fence(c);
            if (c.rules.count(name)) {
                NOTE("connection " << id << ": remove the rule for " << name << "\n");
                l.n->callRemoveMatch(rule);
                c.rules.erase(name);
            } else {
                const int t = nextTarget++;
                NOTE("connection " << id << ": the rule for " << name << " is target " << t << "\n");
                l.n->callAddMatch(
                    rule, [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [=](const Message::Signal& m) { log->add(id, m.getSerial(), t); });
                c.rules[name] = t;
            }
            ++c.calls;
            Msg m = l.s.msg();
            CHECK(m.type == 1 && m.args.size() == 1 && m.args[0].s == rule, "the server of connection " << id << " receives " << ref::describe(m) << " instead of a request for " << rule);
            break;
        }
        case 5:
        case 6: { // a call or a signal
            if (c.state != 2)
                break;
            const bool sig = src.flip();
            const std::string name = src.pick(names);
            Msg m = simple(sig ? 4 : 1, ++serial, "/o", "c.d", name);
            m.big = src.flip();
            NOTE("connection " << id << ": " << (sig ? "signal " : "call ") << name << " (" << m.serial << ") arrives\n");
            auto add = [&](std::map<std::string, int>& map) {
                auto it = map.find(name);
                if (it != map.end()) {
                    want.push_back({ id, m.serial, it->second });
                    used.insert(id);
                }
            };
            if (sig) {
                add(c.signals);
                add(c.rules);
                ++c.sig;
            } else {
                add(c.methods);
                ++c.in;
            }
            send(c, m);
            break;
        }
        case 7:
            stats(c);
            break;
        default:
            if (src.flip() || c.state != 2)
                close(k);
            else {
                NOTE("the server of connection " << id << " goes\n");
                fence(c);
                l.s.closeNow();
                c.state = 3;
                c.open.clear();
            }
        }
        if (src.chance(1, 6) && !conns.empty())
            fence(*src.pick(std::vector<Conn*> { conns[src.below(conns.size())].get() }));
    }
    for (auto& c : conns)
        if (c->state == 1)
            flush(*c);
    for (auto& c : conns)
        if (c->state == 2)
            stats(*c);
    bus::perturb(0, 0, 0);
    while (!conns.empty())
        close(src.below(conns.size()));
    std::lock_guard<std::mutex> lk(log->m);
    std::sort(want.begin(), want.end());
    std::sort(log->v.begin(), log->v.end());
    std::vector<Event> missing, extra;
    std::set_difference(want.begin(), want.end(), log->v.begin(), log->v.end(), std::back_inserter(missing));
    std::set_difference(log->v.begin(), log->v.end(), want.begin(), want.end(), std::back_inserter(extra));
    if (!extra.empty())
        FAIL("invoked, but not due: " << describe(extra[0]));
    if (!missing.empty())
        FAIL("not invoked: " << describe(missing[0]));
    rethrow_async_fail();
    if (interesting || used.size() > 1)
        nontrivial(h);
}

// ------------------------------------------------------------------ decoders
namespace {
// what a test does with the library on the side
void otherUse(const Val& v, const std::string& encoding, bool big)
{
    Type::Generic g = ref::build(v);
    CHECK(ref::marshal(g) == ref::encode(v), "in between, " << ref::describe(v) << " is encoded as " << hexdump(ref::marshal(g)));
    Type::Generic d = Type::create(v.signature());
    MessageIStream is((uint8_t*)encoding.data(), encoding.size(), big);
    Type::unmarshallData(d, is);
    ref::checkGeneric(d, v, "decoded in between");
}
}
PROP(C40, "decoders", 12000, 200000, 20, 90, 0,
    "2-5 decoders, each with a stream of 1-6 messages in chunks; the chunks are given to them in any order, also to one from a handler of another, while values are encoded and decoded in between; every decoder must have delivered "
    "after each chunk what it would have alone; non-trivial: a chunk ended within a message and another decoder went on")
{
    struct One {
        ref::Receiver r;
        std::vector<Msg> sent;
        std::string d;
        std::vector<size_t> ends, cuts;
        size_t next = 0;
        bool busy = false;
    };
    std::vector<std::unique_ptr<One>> all;
    uint64_t h = 0;
    for (size_t n = 2 + src.below(4); n--;) {
        all.emplace_back(new One);
        One& o = *all.back();
        std::vector<size_t> marks;
        for (size_t k = 1 + src.below(6); k--;) {
            ref::MsgOpt mo;
            mo.budget = src.chance(1, 30) ? 5000 : 80;
            o.sent.push_back(ref::genMsg(src, mo));
            marks.push_back(o.d.size());
            o.d += ref::encode(o.sent.back());
            o.ends.push_back(o.d.size());
        }
        o.cuts = ref::genCuts(src, o.d.size(), marks);
        h = hcomb(h, hash_str(o.d));
        NOTE("decoder " << all.size() - 1 << ": " << o.sent.size() << " messages of " << o.d.size() << " bytes in " << o.cuts.size() << " chunks\n");
    }
    bool interesting = false;
    // gives the next chunk to decoder i
    std::function<void(size_t)> feed = [&](size_t i) {
        One& o = *all[i];
        if (o.next == o.cuts.size() || o.busy)
            return;
        const size_t from = o.next ? o.cuts[o.next - 1] : 0, to = o.cuts[o.next];
        ++o.next;
        NOTE("decoder " << i << " gets " << to - from << " bytes\n");
        o.busy = true;
        o.r.feed(o.d.substr(from, to - from));
        o.busy = false;
        const size_t due = std::upper_bound(o.ends.begin(), o.ends.end(), to) - o.ends.begin();
        CHECK(o.r.log.size() == due, "decoder " << i << " has delivered " << o.r.log.size() << " messages instead of " << due);
        interesting |= due < o.sent.size() && to != (due ? o.ends[due - 1] : 0);
    };
    for (size_t i = 0; i < all.size(); ++i) {
        const uint64_t seed = src.raw(2);
        if (seed & 1)
            all[i]->r.inHandler = [&, i, f = std::make_shared<Fill>(seed)](const Got&) {
                try {
                    if (i + 1 < all.size()) // each holds a lock, so only in one order
                        feed(i + 1 + f->below(all.size() - i - 1));
                } catch (const Failure& e) {
                    async_fail(e.what());
                }
            };
    }
    for (;;) {
        std::vector<size_t> left;
        for (size_t i = 0; i < all.size(); ++i)
            if (all[i]->next < all[i]->cuts.size())
                left.push_back(i);
        if (left.empty())
            break;
        feed(src.pick(left));
        if (src.chance(1, 5)) {
            ref::TypeOpt to;
            to.api = true;
            ref::ValOpt vo;
            vo.type = to;
            vo.budget = 60;
            Val v = ref::genValue(src, ref::genType(src, to, 0, 20), vo);
            const bool big = src.flip();
            otherUse(v, ref::encode(v, big), big);
        }
    }
    rethrow_async_fail();
    for (size_t i = 0; i < all.size(); ++i)
        for (size_t k = 0; k < all[i]->sent.size(); ++k)
            ref::checkGot(all[i]->r.log[k], all[i]->sent[k], Cat() << "decoder " << i << ", message " << k);
    if (interesting)
        nontrivial(h);
}

// ------------------------------------------------------------------ threads
PROP(C40, "threads", 1500, 25000, 30, 90, 2,
    "2-6 threads, which share nothing, each do 5-30 things with values, messages, decoders, rules and descriptions of their own at the same time: each result must be what it is when nothing else goes on, and no memory of the "
    "library is shared without a lock (ThreadSanitizer); non-trivial: all")
{
    struct Task {
        int kind;
        bool big;
        Val v;
        Msg m;
        std::string encoding, expect;
        std::vector<size_t> cuts;
    };
    const size_t threads = 2 + src.below(5);
    std::vector<std::vector<Task>> work(threads);
    uint64_t h = 0;
    for (auto& w : work)
        for (size_t n = 5 + src.below(26); n--;) {
            Task t;
            t.kind = src.below(7);
            t.big = src.flip();
            if (t.kind < 3) {
                ref::TypeOpt to;
                to.api = true;
                ref::ValOpt vo;
                vo.type = to;
                vo.budget = 100;
                t.v = ref::genValue(src, ref::genType(src, to, 0, 20), vo);
                t.encoding = ref::encode(t.v, t.big);
                if (t.kind == 2)
                    t.expect = Type::toString(ref::build(t.v), "  ");
            } else {
                ref::MsgOpt mo;
                mo.budget = 80;
                if (t.kind == 5)
                    mo.type = 4;
                t.m = ref::genMsg(src, mo);
                t.encoding = ref::encode(t.m);
                t.cuts = ref::genCuts(src, t.encoding.size(), {});
                Introspectable::Interface i(t.m.iface);
                i.addMethod(Introspectable::Method(t.m.member, t.m.signature(), "s"));
                i.addSignal(Introspectable::Signal(t.m.member, t.m.signature()));
                t.expect = i.serialize();
            }
            h = hcomb(h, hash_str(t.encoding));
            w.push_back(std::move(t));
        }
    const size_t times = 1 + src.below(4);
    std::atomic<size_t> waiting { threads };
    auto run = [&](const std::vector<Task>& w) {
        --waiting;
        while (waiting)
            std::this_thread::yield();
        for (size_t k = 0; k < times; ++k)
            for (auto& t : w)
                try {
                    switch (t.kind) {
                    case 0: {
                        const std::string s = ref::marshal(ref::build(t.v));
                        CHECK(s == ref::encode(t.v), ref::describe(t.v) << " is encoded as " << hexdump(s));
                        break;
                    }
                    case 1: {
                        Type::Generic d = Type::create(t.v.signature());
                        MessageIStream is((uint8_t*)t.encoding.data(), t.encoding.size(), t.big);
                        Type::unmarshallData(d, is);
                        ref::checkGeneric(d, t.v, "decoded");
                        break;
                    }
                    case 2: {
                        const std::string s = Type::toString(ref::build(t.v), "  ");
                        CHECK(s == t.expect, ref::describe(t.v) << " is described as " << s << " instead of " << t.expect);
                        break;
                    }
                    case 3:
                    case 4: {
                        ref::Receiver r;
                        size_t at = 0;
                        for (size_t c : t.cuts) {
                            r.feed(t.encoding.substr(at, c - at));
                            at = c;
                        }
                        CHECK(r.log.size() == 1, r.log.size() << " messages were delivered instead of one");
                        ref::checkGot(r.log[0], t.m, "message");
                        break;
                    }
                    case 5: {
                        MatchRule rule("type='signal',interface='" + t.m.iface + "',member='" + t.m.member + "'", [](const Message::Signal&) {});
                        MatchRule other("type='signal',interface='" + t.m.iface + "',member='" + t.m.member + "_'", [](const Message::Signal&) {});
                        int n = 0;
                        MessageProtocol p;
                        p.setSignalHandler([&](const Message::Signal& s) {
                            n += rule.isMatched(s);
                            n += 10 * other.isMatched(s);
                        });
                        OctetBuffer b((const uint8_t*)t.encoding.data(), t.encoding.size());
                        p.onReceiveData(b);
                        CHECK(n == 1, "the rules for a signal say " << n << " instead of 1");
                        break;
                    }
                    default: {
                        Introspectable::Interface i(t.m.iface);
                        i.addMethod(Introspectable::Method(t.m.member, t.m.signature(), "s"));
                        i.addSignal(Introspectable::Signal(t.m.member, t.m.signature()));
                        CHECK(i.serialize() == t.expect, "an interface is described as " << i.serialize() << " instead of " << t.expect);
                        Message::MethodCall c(Message::MethodCallIdentifier("/o", "i.f", "M"), Message::MethodCallParametersIn("text", 5));
                        Msg m = ref::parse(c.marshall("x.y"));
                        CHECK(m.serial == c.getSerial() && m.args.size() == 2 && m.args[0].s == "text" && m.args[1].u == 5, "a call is sent as " << ref::describe(m));
                    }
                    }
                } catch (const std::exception& e) {
                    async_fail(e.what());
                    return;
                }
    };
    std::vector<std::thread> th;
    for (size_t i = 1; i < threads; ++i)
        th.emplace_back(run, std::cref(work[i]));
    run(work[0]);
    for (auto& t : th)
        t.join();
    rethrow_async_fail();
    nontrivial(h);
}
