// How much the library does for how much there is to do: C41. The library is
// built so that it counts the branches it takes; the bytes that are copied,
// compared and searched for it are counted, too.
#include "link.h"
#include <dbus_introspectable.h>
#include <dbus_matchrule.h>
#include <dbus_platform.h>
#include <dbus_utils.h>

#define NOCOV __attribute__((no_sanitize("coverage")))

namespace {
std::atomic<uint64_t> g_work { 0 };
thread_local uint64_t t_work = 0; // not yet added
thread_local bool t_off = false; // a thread of the harness
NOCOV inline void count(uint64_t n)
{
    t_work += n;
    if (t_work >= 128) {
        if (!t_off)
            g_work.fetch_add(t_work, std::memory_order_relaxed);
        t_work = 0;
    }
}
}
extern "C" {
NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
    for (; a < b; ++a)
        *a = 1;
}
NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t*) { count(1); }
NOCOV void* memcpy(void* d, const void* s, size_t n)
{
    count(n / 16);
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
NOCOV void* memmove(void* d, const void* s, size_t n)
{
    count(n / 16);
    void* r = d;
    if (size_t((char*)d - (const char*)s) >= n) {
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    } else {
        void* de = (char*)d + n - 1;
        const void* se = (const char*)s + n - 1;
        asm volatile("std; rep movsb; cld" : "+D"(de), "+S"(se), "+c"(n) : : "memory");
    }
    return r;
}
NOCOV int memcmp(const void* a, const void* b, size_t n)
{
    size_t i = 0;
    const uint8_t *x = (const uint8_t*)a, *y = (const uint8_t*)b;
    while (i < n && x[i] == y[i]) {
        asm volatile("" : : : "memory");
        ++i;
    }
    count(i / 16);
    return i < n ? int(x[i]) - int(y[i]) : 0;
}
void* find_byte(const void* a, int c, size_t n) asm("memchr"); // declared in another way by <cstring>
NOCOV void* find_byte(const void* a, int c, size_t n)
{
    size_t i = 0;
    const uint8_t* x = (const uint8_t*)a;
    while (i < n && x[i] != uint8_t(c)) {
        asm volatile("" : : : "memory");
        ++i;
    }
    count(i / 16);
    return i < n ? (void*)(x + i) : nullptr;
}
}

namespace {
uint64_t work()
{
    if (!t_off)
        g_work.fetch_add(t_work, std::memory_order_relaxed);
    t_work = 0;
    return g_work.load();
}
// What is done by some calls; what is done in between does not count.
class Meter {
public:
    template <class F> void operator()(F f)
    {
        const uint64_t w = work();
        f();
        m_sum += work() - w;
    }
    uint64_t sum() const { return m_sum; }

private:
    uint64_t m_sum = 0;
};
// Four times as much must not take more than seven times the work: what is in
// proportion to the amount takes four times as much (a little more or less when
// memory grows by doubling), what goes with its square sixteen times.
struct Growth {
    uint64_t last = 0, lastN = 0;
    unsigned factor = 7;
    uint64_t allowance = 40000;
    void add(uint64_t n, uint64_t w, const std::string& what)
    {
        NOTE(what << ": " << n << " takes " << w);
        if (lastN) {
                const double r = double(w) / double(last + allowance / factor);
            label(r < 4 ? "grows less than 4 times" : r < 5 ? "grows 4 to 5 times" : r < 6 ? "grows 5 to 6 times" : "grows 6 to 7 times");
            CHECK(w <= last * factor + allowance, what << ": the work grows from " << last << " for a size of " << lastN << " to " << w << " for one of " << n);
        }
        last = w;
        lastN = n;
    }
};
Val container(char t)
{
    Val v;
    v.t = t;
    return v;
}
Val entry(Val k, Val x)
{
    Val v = container('{');
    v.c.push_back(std::move(k));
    v.c.push_back(std::move(x));
    return v;
}
Val variant(Val x)
{
    Val v = container('v');
    v.sig = x.signature();
    v.c.push_back(std::move(x));
    return v;
}
// a value of about n bytes
const int Shapes = 13;
Val shape(int kind, size_t n, uint64_t seed)
{
    Fill f(seed);
    Val a = container('a');
    auto text = [&](size_t l) { return ref::text('s', std::string(l, char('a' + f.below(26)))); };
    auto fill = [&](const std::string& sig, size_t each, std::function<Val(size_t)> one) {
        a.sig = sig;
        for (size_t i = 0; i < n / each + 1; ++i)
            a.c.push_back(one(i));
        return a;
    };
    switch (kind) {
    case 0: return text(n);
    case 1: return fill("s", 16, [&](size_t) { return text(1 + f.below(20)); });
    case 2: return fill("y", 1, [&](size_t) { return ref::number('y', f.below(256)); });
    case 3: return fill("u", 4, [&](size_t) { return ref::number('u', f.below(~0u)); });
    case 4: return fill("t", 8, [&](size_t) { return ref::number('t', f.next()); });
    case 5: return fill("(si)", 24, [&](size_t) {
        Val s = container('(');
        s.c.push_back(text(3));
        s.c.push_back(ref::number('i', f.below(~0u)));
        return s;
    });
    case 6: return fill("{sv}", 32, [&](size_t i) { return entry(ref::text('s', std::to_string(i)), variant(ref::number('u', f.below(1000)))); });
    case 7: return fill("v", 16, [&](size_t) { return variant(f.below(2) ? text(4) : ref::number('x', f.next())); });
    case 8: return fill("as", 24, [&](size_t) {
        Val x = container('a');
        x.sig = "s";
        for (size_t k = f.below(3); k--;)
            x.c.push_back(text(3));
        return x;
    });
    case 9: return fill("o", 16, [&](size_t) { return ref::text('o', "/a/b"); });
    case 10: return fill("g", 4, [&](size_t) { return ref::text('g', "a{sv}"); });
    case 11: { // few large ones
        a.sig = "s";
        for (int i = 0; i < 4; ++i)
            a.c.push_back(text(n / 4));
        return a;
    }
    default: return fill("{s(iv)}", 48, [&](size_t i) {
        Val s = container('(');
        s.c.push_back(ref::number('i', i));
        s.c.push_back(variant(text(5)));
        return entry(ref::text('s', std::to_string(i)), s);
    });
    }
}
bool dictShape(int kind) { return kind == 6 || kind == 12; }
Val wrap(Val v, const std::vector<int>& how)
{
    for (int k : how) {
        Val o = container(k == 1 ? '(' : 'a');
        if (k == 0) {
            v = variant(v);
            continue;
        }
        if (k == 2)
            o.sig = v.signature();
        o.c.push_back(v);
        v = o;
    }
    return v;
}
std::vector<int> genWrap(Src& src)
{
    std::vector<int> w;
    while (src.more(w.size(), 1.2, 5))
        w.push_back(src.below(3));
    return w;
}
// sizes, each four times the one before
std::vector<size_t> sizes(Src& src, size_t most)
{
    std::vector<size_t> r;
    size_t max = src.chance(1, 4) ? most : std::min<size_t>(most, 1 << 17);
    for (size_t n = 700 + src.below(600); n <= max; n *= 4)
        r.push_back(n);
    return r;
}
const char* names[] = { "a text", "as", "ay", "au", "at", "a(si)", "a{sv}", "av", "aas", "ao", "ag", "as with long texts", "a{s(iv)}" };
}

PROP(C41, "receiving", 1500, 20000, 60, 120, 0,
    "a stream of 1 KB to 4 MB - one message with a large argument of one of 13 shapes, one with many header fields, or many small messages, some of which are dropped, in either byte order - is given to a decoder in chunks of 1 byte to all of it, "
    "starting anywhere; each time it is four times as long; non-trivial: a distinct combination of content, order and chunks, of at least 3 sizes")
{
    const int what = src.weighted({ 5, 2, 3 });
    const int kind = src.below(Shapes);
    const bool big = src.flip();
    const auto w = genWrap(src);
    const uint64_t seed = src.raw(4);
    const size_t chunk = src.oneof<size_t>({ 0, 1024, 1, 3, 100, 4096, 1000, 65536, 17 }), first = src.below(40);
    const int drop = src.below(4);
    Growth g;
    for (size_t n : sizes(src, (what == 0 && (kind == 0 || kind == 11)) ? (chunk && chunk < 100 ? 1 << 19 : 1 << 22) : 1 << 19)) {
        Fill f(seed);
        std::string d;
        Msg m = simple(4, 7, "/a", "a.b", "S");
        m.big = big;
        if (what == 0) {
            m.args.push_back(wrap(shape(kind, n, seed), w));
            d = ref::encode(m);
        } else if (what == 1) {
            while (m.extra.size() < n / 24)
                m.extra.push_back({ uint8_t(10 + f.below(200)), f.below(2) ? ref::number('u', f.below(1000)) : ref::text('s', "some text") });
            d = ref::encode(m);
        } else {
            const std::string calls = [&] {
                Msg c = simple(1, 8, "/a", "a.b", "M");
                c.args.push_back(u32(1));
                return ref::encode(c);
            }();
            std::string one = ref::encode(m), bad = one;
            bad[1] = 77; // an unknown type
            while (d.size() < n)
                d += f.below(3) == 0 && drop ? drop == 1 ? bad : drop == 2 ? calls : one : one;
        }
        MessageProtocol p;
        uint64_t seen = 0;
        p.setSignalHandler([&](const Message::Signal& s) { seen += 1 + s.getParameterCount(); });
        p.setMethodCallHandler([&](const Message::MethodCall& s) {
            ++seen;
            throw std::runtime_error("on purpose");
        });
        Meter meter;
        for (size_t at = 0; at < d.size();) {
            const size_t k = std::min(d.size() - at, at || !first ? (chunk ? chunk : d.size()) : first);
            OctetBuffer b((const uint8_t*)d.data() + at, k);
            meter([&] { p.onReceiveData(b); });
            at += k;
        }
        CHECK(seen >= (what == 0 ? 2 : 1), "the stream of " << d.size() << " bytes was not delivered");
        g.add(d.size(), meter.sum(), Cat() << "receiving " << (what == 0 ? names[kind] : what == 1 ? "many header fields" : "many messages") << ", " << (big ? "big" : "little") << " endian, " << w.size() << " containers around, in chunks of " << chunk);
    }
    label(what == 0 ? "large argument" : what == 1 ? "many header fields" : "many messages");
    nontrivial(hcomb(hcomb(what, what ? 0 : kind), hcomb(hcomb(chunk, big), hcomb(w.size(), drop))));
}

PROP(C41, "values", 1200, 15000, 60, 120, 0,
    "values of 13 shapes, within up to 5 other containers, of 1 to 512 KB, are decoded, encoded, described, copied and sent as the argument of a message of each kind; each time there is four times as much; non-trivial: a distinct combination of shape and containers")
{
    const int kind = src.below(Shapes);
    const auto w = genWrap(src);
    const uint64_t seed = src.raw(4);
    const bool big = src.flip();
    uint64_t h = kind;
    for (int k : w)
        h = hcomb(h, k);
    Growth g[7];
    for (size_t n : sizes(src, 1 << 19)) {
        const Val v = wrap(shape(kind, n, seed), w);
        const std::string sig = v.signature(), d = ref::encode(v, big);
        const std::string where = Cat() << names[kind] << ", " << w.size() << " containers around";
        Type::Generic val = Type::create(sig);
        Meter m[7];
        m[0]([&] {
            MessageIStream s((const uint8_t*)d.data(), d.size(), big);
            Type::unmarshallData(val, s);
        });
        g[0].add(n, m[0].sum(), "decoding " + where);
        m[1]([&] {
            MessageOStream o;
            Type::marshallData(val, o);
            CHECK(o.size() >= n / 8, "only " << o.size() << " bytes for a value of " << n);
        });
        g[1].add(n, m[1].sum(), "encoding " + where);
        m[2]([&] { Type::toString(val); });
        g[2].add(n, m[2].sum(), "describing " + where);
        m[3]([&] { Type::asString(val); });
        g[3].add(n, m[3].sum(), "the text of " + where);
        m[4]([&] { Type::Generic copy(val); });
        g[4].add(n, m[4].sum(), "copying " + where);
        m[5]([&] { Type::getMarshallingSignature(val); });
        g[5].add(n, m[5].sum(), "the signature of " + where);
        m[6]([&] {
            Message::MethodCallParametersIn args;
            args.add(val);
            args.add(std::string("x"));
            Message::MethodCall c({ "/a", "a.b", "M" }, args);
            c.marshall("a.b");
            Message::MethodReturn r(3);
            r.addParameter(val);
            r.marshall("a.b");
            Message::Signal s({ "/a", "a.b", "M" });
            s.addParameter(val);
            s.marshall("");
        });
        g[6].add(n, m[6].sum(), "sending " + where);
    }
    nontrivial(h);
}

PROP(C41, "text", 600, 6000, 60, 120, 0,
    "hex conversions both ways, the padding of streams, addresses, match rules with many elements or long values and their matching, long signatures, introspection data with many or long parts, of 1 to 64 KB; each time there is four times as much; "
    "non-trivial: a distinct kind of work")
{
    const int what = src.below(11);
    const uint64_t seed = src.raw(4);
    const size_t cut = 1 + src.below(50);
    Growth g;
    static const char* kinds[] = { "to hex", "from hex", "an address", "an address with escapes", "a rule of many elements", "a rule with a long value", "a path in a namespace", "a long list of types", "an interface with many methods", "a method with many arguments", "many interfaces" };
    for (size_t n : sizes(src, 1 << 18)) {
        Fill f(seed);
        std::string d, out;
        while (d.size() < n)
            d += char(f.next());
        Meter m;
        Msg sig = simple(4, 5, "/a", "a.b", "S");
        auto rule = [&](const std::string& text, const std::string& path) {
            sig.path = path;
            const std::string bytes = ref::encode(sig);
            MessageProtocol p;
            std::unique_ptr<Message::Signal> s;
            p.setSignalHandler([&](const Message::Signal& x) { s.reset(new Message::Signal(x)); });
            OctetBuffer b((const uint8_t*)bytes.data(), bytes.size());
            p.onReceiveData(b);
            CHECK(s, "the signal was not delivered");
            m([&] {
                MatchRule r(text, [](const Message::Signal&) {});
                r.isMatched(*s);
            });
        };
        switch (what) {
        case 0: m([&] { Utils::ConvertBinaryToHexString(out, d); }); break;
        case 1: {
            static const char* digits = "0123456789abcdef";
            std::string h;
            for (unsigned char c : d) {
                h += digits[c >> 4];
                h += digits[c & 15];
            }
            m([&] { Utils::ConvertHexStringToBinary(out, h); });
            break;
        }
        case 2:
        case 3: {
            std::string a(f.below(2) ? "unix:path=" : "unix:abstract=");
            while (a.size() < n)
                a += what == 2 || f.below(3) ? "/some" : "%2f";
            a += ",guid=00";
            m([&] { Platform::getSessionBus(a.c_str()); });
            break;
        }
        case 4: {
            std::string r;
            while (r.size() < n)
                r += f.below(2) ? "type='signal'," : "member=S,";
            rule(r + "interface='a.b'", "/a");
            break;
        }
        case 5: rule("type='signal',interface='" + std::string(n, 'a') + ".b'", "/a"); break;
        case 6: {
            std::string p;
            while (p.size() < n)
                p += "/" + std::string(cut, 'p');
            rule("path_namespace='" + p.substr(0, p.size() / 2 / (cut + 1) * (cut + 1)) + "'", p);
            break;
        }
        case 7: {
            std::string s;
            while (s.size() < n / 8)
                s += f.below(2) ? "(si)" : "a{sv}";
            m([&] {
                for (size_t i = 0; i < s.size();)
                    i += Type::extractSignature(s, i).size();
            });
            break;
        }
        case 8:
        case 10: {
            m([&] {
                Introspectable::Introspection all;
                Introspectable::Interface face("a.b");
                for (size_t i = 0; i < n / 32; ++i) {
                    face.addMethod(Introspectable::Method("M", "s", "u"));
                    face.addProperty(Introspectable::Property("P", "s", Introspectable::Property::PROPERTY_READ));
                    face.addSignal(Introspectable::Signal("S", "s"));
                    if (what == 10) {
                        all.addInterface(face);
                        face = Introspectable::Interface("a.b");
                    }
                }
                all.addInterface(face);
                out = all.serialize();
            });
            break;
        }
        default:
            m([&] {
                std::string s;
                while (s.size() < n / 8)
                    s += f.below(2) ? "(si)" : "a{sv}";
                Introspectable::Interface face("a.b");
                face.addMethod(Introspectable::Method("M", s, s));
                face.addSignal(Introspectable::Signal("S", s));
                Introspectable::Introspection all;
                all.addInterface(face);
                out = all.serialize();
            });
        }
        g.add(n, m.sum(), kinds[what]);
    }
    label(kinds[what]);
    nontrivial(what * 50 + cut);
}

PROP(C41, "connections", 160, 2500, 60, 120, 0,
    "200 to 12800 messages that are sent before authentication or while the bus does not read, calls that are outstanding and answered in any order, handlers and rules that are registered and removed, signals that arrive, "
    "or lines and other bytes in the handshake, on one connection; each time there are four times as many; non-trivial: a distinct kind of traffic and number")
{
    const int what = src.below(9);
    const size_t start = 150 + src.below(100);
    const int order = src.below(3);
    const uint64_t seed = src.raw(4);
    static const char* kinds[] = { "messages queued before authentication", "messages to a bus that does not read", "calls that are answered", "method handlers", "signal handlers and rules", "signals", "lines of the handshake", "a long line of the handshake", "line feeds in the handshake" };
    Growth g;
    g.allowance = 400000;
    for (size_t n = start; n <= start * 64; n *= 4) {
        if (!thorough() && n > start * 16 && what != 1 && what != 2 && what != 7)
            break;
        Fill f(seed);
        Link l;
        auto signal = [&](size_t i) {
            Message::Signal s({ "/a", "a.b", "S" });
            s.addParameter(Type::String("number " + std::to_string(i)));
            return s;
        };
        std::set<uint64_t> mine;
        uint64_t w0 = 0;
        auto begin = [&] { w0 = work(); };
        auto received = [&](size_t count) {
            for (size_t k = 0; k < count; ++k) {
                Msg m = l.s.msg();
                CHECK(m.type == 4 && m.args.size() == 1 && m.args[0].s == "number " + std::to_string(k), "message " << k << " arrives as " << ref::describe(m));
            }
        };
        // what this thread does as the bus does not count
        auto asBus = [&](std::function<void()> fn) {
            work();
            t_off = true;
            fn();
            t_work = 0;
            t_off = false;
        };
        switch (what) {
        case 0:
            begin();
            for (size_t i = 0; i < n; ++i)
                l.n->broadcastSignal(signal(i));
            l.n->BeginAuth(AuthenticationProtocol::AUTH_BASIC);
            asBus([&] {
                l.s.handshake();
                received(n);
            });
            break;
        case 1:
            l.up();
            begin();
            for (size_t i = 0; i < n; ++i)
                l.n->broadcastSignal(signal(i));
            asBus([&] { received(n); });
            break;
        case 2: {
            l.up();
            Counter done;
            std::vector<uint32_t> serials;
            begin();
            for (size_t i = 0; i < n; ++i) {
                Message::MethodCall c({ "/a", "a.b", "M" });
                l.n->sendMethodCall("a.b", c, [&](const Message::MethodReturn&) { done.add(); });
            }
            asBus([&] {
                for (size_t i = 0; i < n; ++i)
                    serials.push_back(l.s.msg().serial);
                if (order == 1)
                    std::reverse(serials.begin(), serials.end());
                if (order == 2)
                    for (size_t i = n; i > 1; --i)
                        std::swap(serials[i - 1], serials[f.below(i)]);
                std::string d;
                for (uint32_t s : serials) {
                    Msg r = simple(2, 9, "", "", "");
                    r.hasReply = true;
                    r.reply = s;
                    d += ref::encode(r);
                }
                l.s.send(d);
                done.waitFor(n, "the callback");
            });
            break;
        }
        case 3:
        case 4:
            l.up();
            begin();
            for (int round = 0; round < 2; ++round) {
                const bool add = !round;
                for (size_t i = 0; i < n; ++i) {
                    const size_t k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7919) % n;
                    const std::string name = "a.b.M" + std::to_string(k);
                    if (what == 3)
                        add ? l.n->registerMethodCallHandler(name, [](const Message::MethodCall&) {}) : l.n->unRegisterMethodCallHandler(name);
                    else if (i % 2)
                        add ? l.n->registerSignalHandler(name, [](const Message::Signal&) {}) : l.n->unRegisterSignalHandler(name);
                    else if (add)
                        l.n->callAddMatch("type='signal',member='" + name + "'", [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [](const Message::Signal&) {});
                    else
                        l.n->callRemoveMatch("type='signal',member='" + name + "'");
                }
                if (what == 4)
                    asBus([&] {
                        for (size_t i = 0; i < (n + 1) / 2; ++i)
                            l.s.msg();
                    });
            }
            break;
        case 5: {
            l.up();
            Counter seen;
            l.n->registerSignalHandler("a.b.S", [&](const Message::Signal&) { seen.add(); });
            begin();
            asBus([&] {
                std::string d;
                Msg m = simple(4, 9, "/a", "a.b", "S");
                m.args.push_back(u32(5));
                for (size_t i = 0; i < n; ++i)
                    d += ref::encode(m);
                l.s.send(d);
                seen.waitFor(n, "the handler");
            });
            break;
        }
        default: {
            l.n->BeginAuth(AuthenticationProtocol::AUTH_BASIC);
            begin();
            asBus([&] {
                l.s.exactly(1);
                CHECK(l.s.line() == Server::authLine(), "AUTH is missing");
                std::string d;
                while (d.size() < n * 16)
                    d += what == 6 ? "HELLO some text\r\n" : what == 7 ? "some more text, " : order ? "\n" : "\r";
                if (what != 6)
                    d += "\r\n";
                l.s.send(d + bus::okLine(1));
                CHECK(l.s.line() == "BEGIN\r\n", "BEGIN is missing");
            });
        }
        }
        asBus([&] { l.s.forget(); });
        if (what > 5)
            asBus([&] { l.f.pass(l.s); });
        const uint64_t w = work() - w0;
        if (what <= 5)
            asBus([&] {
                l.f.pass(l.s);
            });
        l.end();
        g.add(n, w, kinds[what]);
    }
    label(kinds[what]);
    nontrivial(hcomb(what, start));
}
