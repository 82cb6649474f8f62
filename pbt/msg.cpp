#include "msg.h"
#include <algorithm>
#include <cstring>
#include <memory>

using namespace pbt;
using namespace DBus;

std::string Msg::signature() const
{
    std::string s;
    for (auto& a : args)
        s += a.signature();
    return s;
}

namespace ref {
Val text(char code, const std::string& s)
{
    Val v;
    v.t = code;
    v.s = s;
    return v;
}
Val number(char code, uint64_t u)
{
    Val v;
    v.t = code;
    v.u = u;
    return v;
}
std::string encode(const RawMsg& m)
{
    Enc e(m.big);
    e.num(m.big ? 'B' : 'l', 1);
    e.num(m.type, 1);
    e.num(m.flags, 1);
    e.num(m.version, 1);
    e.num(m.bodyLen == ~0ull ? m.body.size() : m.bodyLen, 4);
    e.num(m.serial, 4);
    e.num(0, 4);
    size_t start = e.out.size();
    for (auto& f : m.fields) {
        e.pad(8);
        e.num(f.first, 1);
        e.signature(f.second.signature());
        e.val(f.second);
    }
    e.put(start - 4, e.out.size() - start, 4);
    e.pad(8);
    return e.out + m.body;
}
RawMsg raw(const Msg& m)
{
    RawMsg r;
    r.big = m.big;
    r.type = m.type;
    r.flags = m.flags;
    r.serial = m.serial;
    if (!m.path.empty())
        r.fields.push_back({ 1, text('o', m.path) });
    if (!m.iface.empty())
        r.fields.push_back({ 2, text('s', m.iface) });
    if (!m.member.empty())
        r.fields.push_back({ 3, text('s', m.member) });
    if (!m.errname.empty())
        r.fields.push_back({ 4, text('s', m.errname) });
    if (m.hasReply)
        r.fields.push_back({ 5, number('u', m.reply) });
    if (!m.dest.empty())
        r.fields.push_back({ 6, text('s', m.dest) });
    if (!m.sender.empty())
        r.fields.push_back({ 7, text('s', m.sender) });
    if (!m.args.empty())
        r.fields.push_back({ 8, text('g', m.signature()) });
    for (auto& x : m.extra)
        r.fields.push_back(x);
    if (m.order) {
        Fill f(m.order);
        for (size_t i = r.fields.size(); i > 1; --i)
            std::swap(r.fields[i - 1], r.fields[f.below(i)]);
    }
    Enc b(m.big);
    for (auto& a : m.args)
        b.val(a);
    r.body = b.out;
    return r;
}
std::string encode(const Msg& m) { return encode(raw(m)); }

size_t messageSize(const std::string& d, size_t at)
{
    if (d.size() < at + 16)
        return 0;
    auto u32 = [&](size_t i) {
        uint64_t v = 0;
        for (int k = 0; k < 4; ++k)
            v |= uint64_t(uint8_t(d[at + i + k])) << (8 * (d[at] == 'B' ? 3 - k : k));
        return v;
    };
    uint64_t n = (16 + u32(12) + 7) / 8 * 8 + u32(4);
    return d.size() - at >= n ? n : 0;
}

Msg parse(const std::string& d)
{
    Msg m;
    CHECK(d.size() >= 16, "message of only " << d.size() << " bytes");
    CHECK(d[0] == 'l' || d[0] == 'B', "byte order mark is " << int(uint8_t(d[0])));
    m.big = d[0] == 'B';
    m.type = d[1];
    m.flags = d[2];
    CHECK(d[3] == 1, "protocol version is " << int(uint8_t(d[3])));
    Dec h(d, m.big, 4);
    uint64_t bodyLen = h.num(4);
    m.serial = h.num(4);
    CHECK(m.serial, "serial is 0");
    Val fields = h.val("a(yv)");
    h.pad(8);
    CHECK(d.size() - h.pos == bodyLen, "body length is " << bodyLen << ", but " << d.size() - h.pos << " bytes follow the header");
    std::string sig;
    bool seen[256] = {};
    for (auto& f : fields.c) {
        uint8_t code = f.c[0].u;
        const Val& v = f.c[1].c[0];
        static const char types[] = " osssussgu";
        CHECK(code, "header field 0");
        CHECK(!seen[code], "header field " << int(code) << " is there twice");
        seen[code] = true;
        if (code > 9) {
            m.extra.push_back({ code, v });
            continue;
        }
        CHECK(f.c[1].sig == std::string(1, types[code]), "header field " << int(code) << " has type " << f.c[1].sig << " instead of " << types[code]);
        switch (code) {
        case 1:
            m.path = v.s;
            break;
        case 2:
            m.iface = v.s;
            break;
        case 3:
            m.member = v.s;
            break;
        case 4:
            m.errname = v.s;
            break;
        case 5:
            m.hasReply = true;
            m.reply = v.u;
            CHECK(m.reply, "reply serial is 0");
            break;
        case 6:
            m.dest = v.s;
            break;
        case 7:
            m.sender = v.s;
            break;
        case 8:
            sig = v.s;
            break;
        }
        if (v.t != 'u' && code != 8)
            CHECK(!v.s.empty(), "header field " << int(code) << " is empty");
    }
    CHECK(validSignature(sig), "invalid signature " << show(sig, 255));
    std::string body = d.substr(h.pos);
    Dec b(body, m.big);
    for (auto& s : split(sig))
        m.args.push_back(b.val(s));
    CHECK(b.pos == body.size(), "the body has " << body.size() - b.pos << " bytes more than its signature " << sig << " says");
    switch (m.type) {
    case 1:
        CHECK(!m.path.empty() && !m.member.empty(), "method call lacks path or member");
        break;
    case 2:
        CHECK(m.hasReply, "method return lacks a reply serial");
        break;
    case 3:
        CHECK(m.hasReply && !m.errname.empty(), "error lacks a reply serial or a name");
        break;
    case 4:
        CHECK(!m.path.empty() && !m.member.empty() && !m.iface.empty(), "signal lacks path, interface or member");
        break;
    default:
        FAIL("message type " << int(m.type));
    }
    return m;
}

Msg genMsg(Src& src, const MsgOpt& o)
{
    Msg m;
    m.big = o.bigEndian && src.flip();
    m.type = o.type ? o.type : 1 + src.below(4);
    m.flags = o.unusual ? (src.chance(1, 4) ? src.byte() : src.below(8)) : src.below(2);
    do
        m.serial = src.interesting(32);
    while (!m.serial && !src.exhausted());
    if (!m.serial)
        m.serial = 1;
    auto maybe = [&](bool required) { return required || src.chance(1, 3); };
    if (maybe(m.type == 1 || m.type == 4))
        m.path = genPath(src, src.chance(1, 20) ? 1000 : 60);
    if (m.type == 4 || (m.type == 1 ? src.chance(5, 6) : maybe(false)))
        m.iface = genInterface(src, src.chance(1, 20) ? 250 : 40);
    if (maybe(m.type == 1 || m.type == 4))
        m.member = genMember(src, src.chance(1, 20) ? 250 : 20);
    if (m.type == 3)
        m.errname = genInterface(src);
    if (m.type == 2 || m.type == 3) {
        m.hasReply = true;
        m.reply = src.interesting(32);
        if (!m.reply)
            m.reply = 1;
    }
    if (src.flip())
        m.dest = genBusName(src);
    if (src.flip())
        m.sender = genBusName(src);
    TypeOpt to;
    to.maxDepth = o.maxDepth;
    std::string sig;
    if (m.type == 3 && src.chance(2, 3))
        sig = "s";
    size_t room = src.chance(1, 12) ? 255 : 20;
    sig += genSignature(src, to, room - sig.size(), room > 20 && src.flip() ? 255 : o.maxArgs);
    ValOpt vo;
    vo.budget = o.budget;
    if (vo.budget >= 10000 && src.flip())
        vo.maxText = vo.budget - 20;
    for (auto& s : split(sig))
        m.args.push_back(genValue(src, s, vo));
    if (o.unusual) {
        const size_t most = src.chance(1, 60) ? 200 : 4;
        while ((most > 4 ? src.chance(60, 61) : src.chance(1, 4)) && m.extra.size() < most) {
            uint8_t code = 11 + src.below(245); // 10 is not unknown to libdbus
            bool dup = false;
            for (auto& x : m.extra)
                dup |= x.first == code;
            if (dup && most > 4)
                continue;
            if (dup)
                break;
            ValOpt eo;
            eo.budget = most > 4 ? 10 : 60;
            m.extra.push_back({ code, genValue(src, genType(src, to, 0, 12), eo) });
        }
        m.order = src.flip() ? src.raw(2) : 0;
    }
    return m;
}
std::string describe(const Msg& m)
{
    static const char* kinds[] = { "?", "call", "return", "error", "signal" };
    std::string r = Cat() << (m.big ? "B " : "l ") << (m.type <= 4 ? kinds[m.type] : "unknown type ") << " flags " << int(m.flags) << " serial " << m.serial;
    if (m.hasReply)
        r += Cat() << " reply to " << m.reply;
    for (auto& x : { std::make_pair("path", &m.path), std::make_pair("interface", &m.iface), std::make_pair("member", &m.member), std::make_pair("error", &m.errname),
             std::make_pair("dest", &m.dest), std::make_pair("sender", &m.sender) })
        if (!x.second->empty())
            r += std::string(" ") + x.first + " " + x.second->substr(0, 60);
    if (!m.extra.empty())
        r += Cat() << " +" << m.extra.size() << " unknown header fields";
    r += " (" + m.signature() + ")";
    for (auto& a : m.args)
        if (r.size() < 500)
            r += " " + describe(a, 150);
    return r;
}
uint64_t hashMsg(const Msg& m) { return hash_str(encode(m)); }

// ------------------------------------------------------------ delivered
static void common(Got& g, const Message::Base& m)
{
    g.serial = m.getSerial();
    g.reply = g.reply2 = m.getReplySerial();
    g.path = m.getHeaderPath();
    g.iface = m.getHeaderInterface();
    g.member = m.getHeaderMember();
    g.dest = m.getHeaderDestination();
    g.sender = m.getHeaderSender();
    g.replyExpected = m.isReplyExpected();
    for (size_t i = 0; i < m.getParameterCount(); ++i)
        g.args.push_back(m.getParameter(i));
}
Got got(const Message::MethodCall& m)
{
    Got g;
    g.type = 1;
    common(g, m);
    g.object = m.getObject();
    g.interface = m.getInterface();
    g.method = m.getMethod();
    g.fullName = m.getFullName();
    return g;
}
Got got(const Message::MethodReturn& m)
{
    Got g;
    g.type = 2;
    common(g, m);
    g.reply2 = m.m_SerialReplyingTo;
    return g;
}
Got got(const Message::Error& m)
{
    Got g;
    g.type = 3;
    common(g, m);
    g.reply2 = m.getSerialOfReply();
    g.error = m.getMessage();
    return g;
}
Got got(const Message::Signal& m)
{
    Got g;
    g.type = 4;
    common(g, m);
    return g;
}
std::string describe(const Got& g)
{
    static const char* kinds[] = { "?", "call", "return", "error", "signal" };
    return Cat() << kinds[g.type] << " serial " << g.serial << " reply to " << g.reply << " path " << g.path << " interface " << g.iface << " member " << g.member << " dest "
                 << g.dest << " sender " << g.sender << " with " << g.args.size() << " arguments";
}
void checkGot(const Got& g, const Msg& m, const std::string& where)
{
#define SAME(a, b, what) CHECK((a) == (b), where << ": " << what << " is " << (a) << " instead of " << (b) << " in " << describe(m))
    SAME(g.type, int(m.type), "type");
    SAME(g.serial, m.serial, "serial");
    uint32_t reply = m.hasReply ? m.reply : 0;
    SAME(g.reply, reply, "reply serial");
    SAME(g.reply2, reply, "reply serial (second accessor)");
    SAME(g.path, m.path, "path");
    SAME(g.iface, m.iface, "interface");
    SAME(g.member, m.member, "member");
    SAME(g.dest, m.dest, "destination");
    SAME(g.sender, m.sender, "sender");
    SAME(g.replyExpected, !(m.flags & 1), "reply expected");
    if (g.type == 1) {
        SAME(g.object, m.path, "object");
        SAME(g.interface, m.iface, "interface of the call");
        SAME(g.method, m.member, "method");
        SAME(g.fullName, m.iface + "." + m.member, "full name");
    }
    if (g.type == 3) {
        std::string want = !m.args.empty() && m.args[0].t == 's' ? m.args[0].s : "";
        SAME(show(g.error, 200), show(want, 200), "error message");
    }
    SAME(g.args.size(), m.args.size(), "number of arguments");
    for (size_t i = 0; i < m.args.size(); ++i)
        checkGeneric(g.args[i], m.args[i], where + ": argument " + std::to_string(i), false);
#undef SAME
}

Receiver::Receiver()
{
    auto record = [this](const auto& m) {
        Got g = got(m);
        log.push_back(g);
        if (inHandler)
            inHandler(g);
    };
    p.setMethodCallHandler(record);
    p.setMethodReturnHandler(record);
    p.setErrorHandler(record);
    p.setSignalHandler(record);
}
void Receiver::feed(const std::string& chunk)
{
    std::unique_ptr<uint8_t[]> d(new uint8_t[chunk.size()]);
    memcpy(d.get(), chunk.data(), chunk.size());
    OctetBuffer b(d.get(), chunk.size());
    p.onReceiveData(b);
    CHECK(b.empty(), b.size() << " of " << chunk.size() << " bytes supplied were left unconsumed");
}

std::vector<size_t> genCuts(Src& src, size_t n, const std::vector<size_t>& marks)
{
    std::vector<size_t> cuts;
    switch (src.weighted({ 2, 2, 3, 3, 2, 1 })) {
    case 0: // all at once
        break;
    case 1: // byte by byte (parts of long streams only)
        for (size_t i = 1; i < n; ++i)
            if (i < 600 || i + 300 > n || i % 64 == 0)
                cuts.push_back(i);
        break;
    case 2: // anywhere
        while (src.more(cuts.size(), 5, 60))
            cuts.push_back(src.below(n + 1));
        break;
    case 3: // at and around the marks
        for (size_t m : marks)
            if (src.flip()) {
                int64_t c = int64_t(m) + int64_t(src.below(5)) - 2;
                if (src.chance(1, 3))
                    c = m;
                if (c > 0)
                    cuts.push_back(c);
            }
        break;
    case 4: { // chunks of one size
        size_t step = 1 + (src.flip() ? src.below(40) : src.below(1100));
        for (size_t i = step; i < n; i += step)
            cuts.push_back(i);
        break;
    }
    default: // the first 16 bytes of each message in pieces
        for (size_t m : marks) {
            size_t c = m;
            for (int i = 0; i < 4; ++i)
                cuts.push_back(c += 1 + src.below(6));
        }
    }
    std::sort(cuts.begin(), cuts.end());
    std::vector<size_t> r;
    for (size_t c : cuts)
        if (c > (r.empty() ? 0 : r.back()) && c < n)
            r.push_back(c);
    r.push_back(n);
    return r;
}
// A message that is complete but must not be delivered. 'why' says how.
std::string badMessage(Src& src, std::string& why)
{
    MsgOpt o;
    o.budget = 100;
    while (true) {
        Msg m = genMsg(src, o);
        switch (src.below(4)) {
        case 0: { // unknown type
            RawMsg r = raw(m);
            r.type = 5 + src.below(251);
            why = "unknown type";
            return encode(r);
        }
        case 1: { // the body ends too early for its signature
            RawMsg r = raw(m);
            if (r.body.size() < 2) {
                m.args.push_back(text('s', "abc"));
                r = raw(m);
                if (m.signature().size() > 255)
                    break;
            }
            r.body.resize(src.below(r.body.size()));
            why = r.body.empty() ? "no body" : "truncated body";
            return encode(r);
        }
        case 2: { // malformed signature
            RawMsg r = raw(m);
            static const std::vector<std::string> bad = { "(", "a", "()", "{sv}x}", "a{vs}", "a{s}", "(u", "z", "uuz", "a{suu}", ")", "s)", "a(", "aaa", "((u)" };
            for (auto& f : r.fields)
                if (f.first == 8)
                    f.first = 0;
            std::vector<std::pair<uint8_t, Val>> keep;
            for (auto& f : r.fields)
                if (f.first)
                    keep.push_back(f);
            r.fields = keep;
            std::string sig = src.pick(bad);
            if (sig[0] == '{') // an entry may be tolerated there
                sig = "(" + sig;
            r.fields.push_back({ 8, text('g', sig) });
            r.body = std::string(64 + src.below(100), '\0');
            why = "malformed signature " + sig;
            return encode(r);
        }
        default: { // a variant in the body that cannot be decoded
            m.args.clear();
            RawMsg r = raw(m);
            Enc e(m.big);
            static const std::vector<std::string> bad = { "(", "a", "()", "", "uu", "a{vs}", "z", "((u)" };
            std::string sig = src.pick(bad);
            if (src.chance(1, 4)) { // nested far too deeply
                for (int i = 0; i < 80; ++i)
                    e.signature("v");
                e.signature("y");
                e.num(1, 1);
                why = "variants nested too deeply";
            } else {
                e.signature(sig);
                e.out += std::string(80, '\0');
                why = "variant of signature " + sig;
            }
            r.body = e.out;
            r.fields.push_back({ 8, text('g', "v") });
            return encode(r);
        }
        }
    }
}
} // namespace ref
