// What connections hold on to: C36
#include "link.h"
#include <dirent.h>
#include <sys/socket.h>
#include <time.h>
#include <sanitizer/allocator_interface.h>
#include <unistd.h>

namespace {
size_t entries(const char* dir)
{
    size_t n = 0;
    DIR* d = opendir(dir);
    if (!d)
        return 0;
    while (readdir(d))
        ++n;
    closedir(d);
    return n;
}
size_t heap()
{
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    return __sanitizer_get_current_allocated_bytes();
#endif
#elif defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
#endif
    return 0;
}

// Objects that callbacks hold on to
struct Tokens {
    struct Weak {
        std::weak_ptr<int> p;
        std::string what;
    };
    std::vector<Weak> all;
    std::shared_ptr<int> make(const std::string& what)
    {
        auto p = std::make_shared<int>(0);
        all.push_back({ p, what });
        return p;
    }
    // those of index i in [from, to) must be gone
    void gone(const std::set<size_t>& which, const std::string& when)
    {
        for (size_t i : which)
            CHECK(all[i].p.expired(), when << ", what " << all[i].what << " holds on to is not released");
    }
};
}

// ------------------------------------------------------------------ C36
PROP(C36, "callbacks", 4000, 60000, 20, 90, 0,
    "histories of calls (with and without a reply, some refused as their signature is too long), answers of both kinds, handlers and match rules added and removed, incoming traffic; every callback holds a token; tokens must be released once the reply has been "
    "delivered, the handler or rule removed, or the connection destroyed, and not before; non-trivial: something was released by a reply or removal")
{
    Tokens t;
    std::set<size_t> dead, live;
    size_t released = 0;
    uint64_t h = 0;
    {
        Link l;
        l.up();
        maybePerturb(src);
        struct Call {
            uint32_t serial;
            std::vector<size_t> tokens;
        };
        std::vector<Call> open;
        std::map<std::string, size_t> methods, signals, rules;
        std::vector<std::string> out;
        uint32_t serial = 100;
        auto flush = [&] {
            deliver(src, l.s, out);
            out.clear();
            l.f.pass(l.s);
            t.gone(dead, "later");
            for (size_t i : live)
                CHECK(!t.all[i].p.expired(), "what " << t.all[i].what << " holds on to has been released too early");
        };
        for (size_t ops = 3 + src.below(25); ops--;) {
            switch (src.weighted({ 6, 6, 2, 2, 2, 2, 2, 2, 3 })) {
            case 0: { // a call
                const bool wants = !src.chance(1, 4);
                size_t a = t.all.size();
                auto x = t.make(Cat() << "the success callback of call " << a), y = t.make(Cat() << "the failure callback of call " << a);
                const bool throws = src.chance(1, 6);
                Message::MethodCallParametersIn params;
                const bool refused = src.chance(1, 10); // because its signature is too long
                for (unsigned k = refused ? 256 : 0; k--;)
                    params.add(uint8_t(1));
                Message::MethodCall m(Message::MethodCallIdentifier("/o", "i.f", "M"), params, wants ? 0 : 1);
                auto act = [throws] {
                    if (throws)
                        throw std::runtime_error("callback");
                };
                bool sent = true;
                try {
                    l.n->sendMethodCall("x.y", m, [x, act](const Message::MethodReturn&) { act(); }, [y, act](const Message::Error&) { act(); });
                } catch (const std::exception&) {
                    sent = false;
                }
                CHECK(sent == !refused, "a call with a signature of " << (refused ? 256 : 0) << " bytes is " << (sent ? "sent" : "refused"));
                if (refused) {
                    dead.insert({ a, a + 1 });
                    NOTE("refused call " << a << "\n");
                    break;
                }
                Msg got = l.s.msg();
                if (wants) {
                    open.push_back({ got.serial, { a, a + 1 } });
                    live.insert({ a, a + 1 });
                } else
                    dead.insert({ a, a + 1 });
                NOTE("call " << a << (wants ? "" : " without reply") << "\n");
                h = hcomb(h, wants);
                break;
            }
            case 1: { // answers
                if (open.empty())
                    break;
                size_t i = src.below(open.size());
                Msg r;
                r.type = 2 + src.below(2);
                if (r.type == 3)
                    r.errname = "e.e";
                r.hasReply = true;
                r.reply = open[i].serial;
                r.serial = ++serial;
                out.push_back(ref::encode(r));
                for (size_t k : open[i].tokens) {
                    live.erase(k);
                    dead.insert(k);
                }
                NOTE("answer " << open[i].tokens[0] << "\n");
                h = hcomb(h, i * 4 + r.type);
                open.erase(open.begin() + i);
                ++released;
                if (src.flip())
                    flush();
                break;
            }
            case 2: { // handlers
                std::string name = "a.b.M" + std::to_string(src.below(4));
                if (methods.count(name))
                    break;
                methods[name] = t.all.size();
                live.insert(t.all.size());
                auto x = t.make("the handler of " + name);
                l.n->registerMethodCallHandler(name, [x](const Message::MethodCall&) {});
                h = hcomb(h, hash_str(name));
                break;
            }
            case 3: {
                std::string name = "a.b.S" + std::to_string(src.below(4));
                if (signals.count(name))
                    break;
                signals[name] = t.all.size();
                live.insert(t.all.size());
                auto x = t.make("the signal handler of " + name);
                l.n->registerSignalHandler(name, [x](const Message::Signal&) {});
                h = hcomb(h, hash_str(name));
                break;
            }
            case 4: {
                std::string rule = "type='signal',member='S" + std::to_string(src.below(4)) + "'";
                if (rules.count(rule))
                    break;
                size_t a = t.all.size();
                auto x = t.make("the handler of " + rule), y = t.make("the success callback of " + rule), z = t.make("the failure callback of " + rule);
                l.n->callAddMatch(rule, [y](const Message::MethodReturn&) {}, [z](const Message::Error&) {}, [x](const Message::Signal&) {});
                Msg got = l.s.msg();
                rules[rule] = a;
                open.push_back({ got.serial, { a + 1, a + 2 } });
                live.insert({ a, a + 1, a + 2 });
                h = hcomb(h, hash_str(rule));
                break;
            }
            case 5:
            case 6:
            case 7: { // removal
                unsigned which = src.below(3);
                auto& m = which == 0 ? methods : which == 1 ? signals : rules;
                if (m.empty())
                    break;
                auto it = m.begin();
                std::advance(it, src.below(m.size()));
                NOTE("remove " << it->first << "\n");
                flush(); // what has been sent to it is through
                if (which == 0)
                    l.n->unRegisterMethodCallHandler(it->first);
                else if (which == 1)
                    l.n->unRegisterSignalHandler(it->first);
                else {
                    l.n->callRemoveMatch(it->first);
                    l.s.msg();
                }
                live.erase(it->second);
                dead.insert(it->second);
                m.erase(it);
                ++released;
                h = hcomb(h, which + 100);
                break;
            }
            default: { // traffic
                Msg m = src.flip() ? noise(src) : simple(src.flip() ? 1 : 4, ++serial, "/x", "a.b", (src.flip() ? "M" : "S") + std::to_string(src.below(4)));
                out.push_back(ref::encode(m));
                if (src.flip())
                    flush();
            }
            }
        }
        flush();
        if (src.chance(1, 6))
            l.s.closeNow();
        l.end();
    }
    for (auto& w : t.all)
        CHECK(w.p.expired(), "after the connection is destroyed, what " << w.what << " holds on to is not released");
    label("released by a reply or removal", released);
    label("released with the connection", live.size());
    if (released)
        nontrivial(h);
}

PROP(C36, "growth", 250, 3000, 60, 120, 0,
    "a generated round of traffic (calls that are answered by returns or errors, incoming calls that are answered, signals, unexpected replies, changes of handlers and rules) is repeated 20 times, and then 120 times more; "
    "the memory in use must not grow with the number of rounds; non-trivial: all")
{
    Link l;
    l.up();
    struct Op {
        unsigned what;
        bool flag;
        std::string text;
        std::string bytes; // to the client
    };
    std::vector<Op> round;
    size_t traffic = 0;
    Native* np = l.n.get();
    l.n->registerMethodCallHandler("a.b.Q", [np](const Message::MethodCall& c) {
        Message::MethodReturn r(c.getSerial());
        for (size_t i = 0; i < c.getParameterCount(); ++i)
            r.addParameter(c.getParameter(i));
        np->sendMethodReturn("z.z", r);
    });
    l.n->registerSignalHandler("a.b.S", [](const Message::Signal&) {});
    l.n->registerMethodCallHandler("a.b.T", [](const Message::MethodCall&) { throw std::runtime_error("handler"); });
    for (size_t n = 2 + src.below(6); n--;) {
        Op o;
        o.what = src.weighted({ 4, 3, 2, 2, 2, 2, 2, 1, 1 });
        o.flag = src.flip();
        o.text = ref::genText(src, 300);
        if (o.what == 2) { // a signal, or a call that throws
            Msg m = simple(o.flag ? 4 : 1, 77, "/x", "a.b", o.flag ? "S" : "T");
            m.args.push_back(ref::text('s', o.text));
            o.bytes = ref::encode(m);
        } else if (o.what == 3)
            o.bytes = ref::encode(noise(src));
        else if (o.what == 7) { // a body that cannot be decoded
            Msg m = simple(1, 78, "/x", "a.b", "M");
            m.args.push_back(ref::text('s', "abc"));
            ref::RawMsg r = ref::raw(m);
            r.body.resize(5);
            o.bytes = ref::encode(r);
        } else if (o.what == 8) { // a header that is rejected
            std::string header("l\1\0\1\0\0\0\xff\1\0\0\0\0\0\0\0", 16);
            o.bytes = header;
        }
        NOTE("each round: operation " << o.what << (o.flag ? "+" : "") << " with a text of " << o.text.size() << " bytes\n");
        label(Cat() << "operation " << o.what);
        traffic += 1;
        round.push_back(o);
    }
    uint32_t serial = 1000;
    size_t replies = 0;
    auto play = [&] {
        for (auto& o : round) {
            switch (o.what) {
            case 0: { // a call, answered
                Message::MethodCall m(Message::MethodCallIdentifier("/o", "i.f", "M"), Message::MethodCallParametersIn(o.text), 0);
                l.n->sendMethodCall("x.y", m, [&replies](const Message::MethodReturn&) { ++replies; }, [&replies](const Message::Error&) { ++replies; });
                Msg got = l.s.msg(), r;
                r.type = o.flag ? 2 : 3;
                if (r.type == 3)
                    r.errname = "e.e";
                r.hasReply = true;
                r.reply = got.serial;
                r.serial = ++serial;
                r.args.push_back(ref::text('s', o.text));
                l.s.send(ref::encode(r));
                break;
            }
            case 1: { // an incoming call, answered
                Msg m = simple(1, ++serial, "/x", "a.b", "Q");
                m.args.push_back(ref::text('s', o.text));
                l.s.send(ref::encode(m));
                l.s.msg();
                break;
            }
            case 2:
            case 3:
            case 7:
                l.s.send(o.bytes);
                break;
            case 4: // a handler comes and goes
                if (o.flag) {
                    l.n->registerMethodCallHandler("x." + std::to_string(serial), [](const Message::MethodCall&) {});
                    l.n->unRegisterMethodCallHandler("x." + std::to_string(serial++));
                } else {
                    l.n->registerSignalHandler("x." + std::to_string(serial), [](const Message::Signal&) {});
                    l.n->unRegisterSignalHandler("x." + std::to_string(serial++));
                }
                break;
            case 5: { // a rule comes and goes
                std::string rule = "member='R" + std::to_string(serial++) + "'";
                l.n->callAddMatch(rule, [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [](const Message::Signal&) {});
                Msg got = l.s.msg(), r;
                r.type = 2;
                r.hasReply = true;
                r.reply = got.serial;
                r.serial = ++serial;
                l.s.send(ref::encode(r));
                l.n->callRemoveMatch(rule);
                l.s.msg();
                break;
            }
            case 6: { // a call without reply, a signal
                if (o.flag) {
                    Message::MethodCall m(Message::MethodCallIdentifier("/o", "i.f", "M"), Message::MethodCallParametersIn(o.text), 1);
                    l.n->sendMethodCall("x.y", m, [](const Message::MethodReturn&) {}, [](const Message::Error&) {});
                } else {
                    Message::Signal m(Message::MethodCallIdentifier("/o", "i.f", "M"));
                    m.addParameter(Type::String(o.text));
                    l.n->broadcastSignal(m);
                }
                l.s.msg();
                break;
            }
            default:
                l.s.waitRead();
                l.s.send(o.bytes);
                l.s.waitRead();
            }
        }
        l.f.pass(l.s);
        l.n->getStats();
    };
    for (int i = 0; i < 20; ++i)
        play();
    const size_t before = heap();
    for (int i = 0; i < 120; ++i)
        play();
    const size_t after = heap();
    l.end();
    // 120 rounds; one small object that is kept in each of them is more than this
    CHECK(after <= before + 120 * 24, "120 rounds of " << traffic << " operations leave " << after - before << " more bytes in use");
    label("operations", traffic * 140);
    uint64_t h = 0;
    for (auto& o : round)
        h = hcomb(h, hash_str(o.text + o.bytes) + o.what);
    nontrivial(h);
}

PROP(C36, "queued", 150, 2000, 30, 90, 0,
    "5-400 messages of 500 to 20000 bytes are sent before authentication, or faster than the bus reads; once they have been read the memory that they took must be free again, but for 64 bytes for each; non-trivial: all")
{
    Link l;
    const bool early = src.flip();
    if (!early) {
        l.up();
        l.f.pass(l.s);
    } else {
        l.n->getStats();
    }
    auto send = [&](size_t bytes) {
        Message::Signal m(Message::MethodCallIdentifier("/o", "i.f", "M"));
        m.addParameter(Type::String(std::string(bytes, 'x')));
        l.n->broadcastSignal(m);
    };
    const size_t before = heap(), n = 5 + src.below(src.chance(1, 4) ? 396 : 60), bytes = 500 + src.below(19501);
    NOTE(n << " messages of " << bytes << " bytes " << (early ? "before authentication\n" : "at once\n"));
    for (size_t i = 0; i < n; ++i)
        send(bytes);
    if (early)
        l.up();
    for (size_t i = 0; i < n; ++i)
        CHECK(l.s.msg().args.at(0).s.size() == bytes, "another message");
    l.s.forget();
    l.f.pass(l.s);
    const size_t after = heap();
    CHECK(after <= before + n * 64 + 30000, n << " messages of " << bytes << " bytes that have been sent leave " << after - before << " more bytes in use");
    l.end();
    label(early ? "before authentication" : "at once");
    nontrivial(hcomb(hcomb(n, bytes), early));
}

PROP(C36, "connections", 300, 4000, 60, 120, 1,
    "3-12 connections are made and destroyed one after the other - used, not authenticated, refused by the peer, abandoned by it, or to an address where nothing listens; "
    "afterwards there must be as many open descriptors and threads as before, and as much memory in use; non-trivial: all")
{
    size_t fds = 0, threads = 0, bytes = 0;
    uint64_t h = 0;
    const uint64_t mode = src.raw(4), used = src.raw(4);
    size_t n = 3 + src.below(10);
    auto one = [&](size_t i) {
        Fill f(mode + i % 3 * 1000); // three kinds
        unsigned kind = f.below(6);
        if (kind == 5) {
            bool thrown = false;
            try {
                Native x(std::string(1, '\0') + "dbus-asio-verif-none-" + std::to_string(getpid()));
            } catch (const std::exception&) {
                thrown = true;
            }
            CHECK(thrown, "connecting to nothing succeeds");
            return;
        }
        Link l;
        auto call = [&] {
            Message::MethodCall m(Message::MethodCallIdentifier("/o", "i.f", "M"), Message::MethodCallParametersIn(std::string(used % 3000, 'x')), 0);
            l.n->sendMethodCall("x.y", m, [](const Message::MethodReturn&) {}, [](const Message::Error&) {});
        };
        if (kind == 0) {
            l.end();
            return;
        }
        if (kind == 1) {
            call();
            l.n->BeginAuth(AuthenticationProtocol::AUTH_BASIC);
            l.s.exactly(1);
            l.s.line();
            l.s.send("REJECTED EXTERNAL\r\n");
            l.end();
            return;
        }
        l.up();
        call();
        if (kind == 2) {
            l.s.closeNow();
            call();
            l.end();
            return;
        }
        l.n->registerMethodCallHandler("a.b.M", [](const Message::MethodCall&) {});
        l.s.msg();
        l.s.send(ref::encode(simple(1, 5, "/x", "a.b", "M")));
        l.f.pass(l.s);
        if (kind == 4) { // part of a message
            std::string m = ref::encode(simple(1, 6, "/x", "a.b", "M"));
            l.s.send(m.substr(0, m.size() - 3));
            l.s.waitRead();
        }
        l.end();
    };
    for (size_t i = 0; i < 6; ++i)
        one(i);
    fds = entries("/proc/self/fd");
    threads = entries("/proc/self/task");
    bytes = heap();
    for (size_t i = 0; i < 3 * n; ++i)
        one(i);
    size_t fds2 = entries("/proc/self/fd"), threads2 = 0, bytes2 = heap();
    // a thread that has been joined may be listed a moment longer
    for (int i = 0; i < 2000 && (threads2 = entries("/proc/self/task")) > threads; ++i)
        bus::nap(1000);
    NOTE(3 * n << " connections: descriptors " << fds << " -> " << fds2 << ", threads " << threads << " -> " << threads2 << ", bytes " << bytes << " -> " << bytes2 << "\n");
    CHECK(fds2 <= fds, 3 * n << " connections leave " << fds2 - fds << " descriptors open");
    CHECK(threads2 <= threads, 3 * n << " connections leave " << threads2 - threads << " threads");
    CHECK(bytes2 <= bytes + 3 * n * 16, 3 * n << " connections leave " << bytes2 - bytes << " more bytes in use");
    h = hcomb(mode % 100000, hcomb(used % 3000, n));
    label("connections", 3 * n + 6);
    nontrivial(h);
}

static double processorTime()
{
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
PROP(C36, "idle", 300, 5000, 30, 110, 0,
    "a connection is brought into some state (not authenticated, in the middle of the handshake, authenticated, calls under way, part of a message received, more written than the bus reads) and left alone, with the bus silent, "
    "half closed, closed or closed with unread data; the process must then use no processor time to speak of; non-trivial: all")
{
    Link l;
    const unsigned state = src.below(6), end = src.below(4);
    const size_t size = src.size(3000), part = src.raw(2);
    static const char* const states[] = { "not authenticated", "within the handshake", "authenticated", "calls under way", "part of a message", "more written than is read" };
    static const char* const ends[] = { "silent", "half closed", "closed", "closed with unread data" };
    NOTE(states[state] << ", " << ends[end] << "\n");
    auto call = [&](size_t n) {
        Message::MethodCall m(Message::MethodCallIdentifier("/o", "i.f", "M"), Message::MethodCallParametersIn(std::string(n, 'x')), 0);
        l.n->sendMethodCall("x.y", m, [](const Message::MethodReturn&) {}, [](const Message::Error&) {});
    };
    if (state == 1) {
        l.n->BeginAuth(AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD);
        l.s.exactly(1);
        l.s.line();
        l.s.send(part % 2 ? "OK 12" : "OK 1234\r\nAGREE");
    } else if (state > 1) {
        l.up();
        l.n->registerMethodCallHandler("a.b.M", [](const Message::MethodCall&) {});
        l.f.pass(l.s);
        if (state == 3)
            for (size_t i = 0; i <= part % 5; ++i)
                call(size);
        if (state == 4) {
            Msg m = simple(1, 6, "/x", "a.b", "M");
            m.args.push_back(ref::text('s', std::string(size, 'y')));
            const std::string b = ref::encode(m);
            l.s.send(b.substr(0, 1 + part % (b.size() - 1)));
        }
        if (state == 5)
            for (size_t i = 0; i < 40; ++i)
                call(30000 + size);
    }
    if (end == 1)
        shutdown(l.s.fd(), SHUT_WR);
    else if (end == 2 && state != 5) {
        while (l.s.fill(0.002))
            ;
        l.s.closeNow();
    } else if (end >= 2) {
        if (state != 5)
            call(size);
        l.s.closeNow();
    }
    // it may take a moment to come to rest
    double worst = 0;
    for (int tries = 0; tries < 6; ++tries) {
        bus::nap(5000);
        const double before = processorTime();
        bus::nap(30000);
        const double used = (processorTime() - before) / 0.03;
        worst = tries ? std::min(worst, used) : used;
        if (worst < 0.2)
            break;
    }
    CHECK(worst < 0.2, "a connection that is left alone (" << states[state] << ", the bus is " << ends[end] << ") uses the processor for " << int(worst * 100) << "% of the time");
    l.end();
    label(Cat() << states[state] << ", " << ends[end]);
    nontrivial(hcomb(state * 4 + end, hcomb(size, part)));
}
