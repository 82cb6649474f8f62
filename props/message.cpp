// Messages: C05 (streams), C06-C12, C31 and C32 (bodies)
#include "../pbt/ldbus.h"
#include "../pbt/msg.h"
#include <algorithm>
#include <cstring>
#include <memory>

using namespace pbt;
using namespace DBus;
using ref::Enc;
using ref::Got;
using ref::RawMsg;
using ref::Receiver;

static void quiet() { Log::setLevel(4); }
static int init = (on_worker_start(quiet), 0);

// ------------------------------------------------------------------ messages made with the library
struct Made {
    Msg m; // what it should be
    std::string bytes;
    std::string again; // serialised a second time
};
// values that can be an argument of a message of the application
static Type::Generic makeArg(Src& src, Val& v, long budget, size_t sigRoom)
{
    bool api = src.chance(2, 3);
    ref::TypeOpt to;
    to.api = api;
    ref::ValOpt vo;
    vo.type = to;
    vo.budget = budget;
    if (budget >= 10000 && src.flip())
        vo.maxText = budget - 20;
    vo.truths = api;
    std::string sig = ref::genType(src, to, 0, std::min<size_t>(sigRoom, src.chance(1, 10) ? 200 : 16));
    v = ref::genValue(src, sig, vo);
    return api ? ref::build(v) : ref::decode(v, src.flip());
}
static Made make(Src& src, bool withOversize = false)
{
    Made r;
    Msg& m = r.m;
    m.type = 1 + src.below(4);
    long budget = src.chance(1, 40) ? 200000 : 300;
    std::vector<Type::Generic> args;
    size_t n = 0, sigLen = 0;
    if (withOversize) {
        size_t total = 250 + src.below(12);
        while (sigLen < total) {
            Val v;
            Type::Generic g;
            if (sigLen + 20 < total && src.chance(1, 3))
                g = makeArg(src, v, 20, 20);
            else {
                v = ref::number('y', src.byte());
                g = ref::build(v);
            }
            if (sigLen + v.signature().size() > total)
                continue;
            sigLen += v.signature().size();
            m.args.push_back(v);
            args.push_back(g);
        }
    } else
        while (sigLen < 230 && src.more(n++, 1.7, 12)) {
            Val v;
            args.push_back(makeArg(src, v, budget, 255 - sigLen));
            sigLen += v.signature().size();
            if (sigLen > 255) {
                args.pop_back();
                break;
            }
            m.args.push_back(v);
        }
    m.path = ref::genPath(src, src.chance(1, 20) ? 1000 : 30);
    m.iface = ref::genInterface(src, src.chance(1, 20) ? 255 : 30);
    m.member = ref::genMember(src, src.chance(1, 20) ? 255 : 15);
    m.dest = src.chance(1, 6) ? "" : ref::genBusName(src); // empty: none
    if (m.type == 1 && src.chance(1, 8))
        m.iface = "";
    Message::MethodCallIdentifier id(m.path, m.iface, m.member);
    uint32_t replyTo = 0;
    if (m.type == 2 || m.type == 3) {
        replyTo = src.interesting(32);
        if (!replyTo)
            replyTo = 1;
    }
    switch (m.type) {
    case 1: {
        uint32_t flags = src.below(4);
        m.flags = flags;
        if (src.chance(1, 6))
            flags |= src.raw(4) << 3; // not flags
        if (src.chance(1, 6))
            flags |= 4; // interactive authorisation, which is not supported
        if (src.chance(1, 4) && args.empty()) {
            // the constructors for common cases
            switch (src.below(4)) {
            case 3: {
                Val v;
                size_t budget = 500;
                Type::Generic g = makeArg(src, v, budget, 255);
                Message::MethodCall c(id, Message::MethodCallParametersIn(g), flags);
                m.args.push_back(v);
                r.bytes = c.marshall(m.dest);
                r.again = c.marshall(m.dest);
                m.serial = c.getSerial();
                break;
            }
            case 0: {
                Message::MethodCall c(id, Message::MethodCallParametersIn(std::string("text")), flags);
                m.args.push_back(ref::text('s', "text"));
                r.bytes = c.marshall(m.dest);
                r.again = c.marshall(m.dest);
                m.serial = c.getSerial();
                break;
            }
            case 1: {
                std::string s = ref::genText(src, 50);
                uint32_t u = src.interesting(32);
                Message::MethodCall c(id, Message::MethodCallParametersIn(s, u), flags);
                m.args.push_back(ref::text('s', s));
                m.args.push_back(ref::number('u', u));
                r.bytes = c.marshall(m.dest);
                r.again = c.marshall(m.dest);
                m.serial = c.getSerial();
                break;
            }
            default: {
                Message::MethodCallParametersIn p;
                uint8_t y = src.byte();
                uint32_t u = src.interesting(32);
                std::string s = ref::genText(src, 50);
                p.add(y);
                p.add(u);
                p.add(s);
                m.args = { ref::number('y', y), ref::number('u', u), ref::text('s', s) };
                Message::MethodCall c(id, p, flags);
                r.bytes = c.marshall(m.dest);
                r.again = c.marshall(m.dest);
                m.serial = c.getSerial();
            }
            }
            break;
        }
        Message::MethodCallParametersIn p;
        for (auto& a : args)
            p.add(a);
        Message::MethodCall c(id, p, flags);
        m.serial = c.getSerial();
        r.bytes = c.marshall(m.dest);
        r.again = c.marshall(m.dest);
        break;
    }
    case 2: {
        m.path = m.iface = m.member = "";
        m.hasReply = true;
        m.reply = replyTo;
        Message::MethodReturn c(replyTo);
        for (auto& a : args)
            c.addParameter(a);
        m.serial = c.getSerial();
        r.bytes = c.marshall(m.dest);
        r.again = c.marshall(m.dest);
        break;
    }
    case 3: {
        m.path = m.member = "";
        m.errname = m.iface;
        m.iface = "";
        m.hasReply = true;
        m.reply = replyTo;
        std::string s = ref::genText(src, src.chance(1, 20) ? 200000 : 200);
        m.args = { ref::text('s', s) };
        Message::Error c(replyTo, m.errname, s);
        CHECK(c.getMessage() == s, "getMessage() of an error that was made is " << show(c.getMessage()));
        CHECK(c.getSerialOfReply() == replyTo, "getSerialOfReply() of an error that was made is " << c.getSerialOfReply());
        m.serial = c.getSerial();
        r.bytes = c.marshall(m.dest);
        r.again = c.marshall(m.dest);
        break;
    }
    default: {
        if (src.chance(1, 3))
            m.dest = "";
        Message::Signal c(id);
        for (auto& a : args)
            c.addParameter(a);
        m.serial = c.getSerial();
        r.bytes = c.marshall(m.dest);
        r.again = c.marshall(m.dest);
    }
    }
    label(m.type == 1 ? "calls" : m.type == 2 ? "returns" : m.type == 3 ? "errors" : "signals");
    NOTE(ref::describe(m));
    return r;
}
// its identity, without the serial, which depends on how many there were before
static uint64_t keyOf(Msg m)
{
    m.serial = 1;
    return ref::hashMsg(m);
}

static void sameMessage(const Msg& got, const Msg& want)
{
#define SAME(f) CHECK(got.f == want.f, #f " is " << got.f << " instead of " << want.f << " in " << ref::describe(want))
    SAME(big);
    CHECK(got.type == want.type, "type is " << int(got.type) << " instead of " << int(want.type));
    CHECK(got.flags == want.flags, "flags are " << int(got.flags) << " instead of " << int(want.flags));
    SAME(serial);
    SAME(hasReply);
    SAME(reply);
    SAME(path);
    SAME(iface);
    SAME(member);
    SAME(errname);
    SAME(dest);
    SAME(sender);
#undef SAME
    CHECK(got.extra.empty(), "there are unknown header fields");
    CHECK(got.signature() == want.signature(), "signature is " << got.signature() << " instead of " << want.signature());
    for (size_t i = 0; i < want.args.size(); ++i)
        CHECK(ref::same(got.args[i], want.args[i]), "argument " << i << " is " << ref::describe(got.args[i]) << " instead of " << ref::describe(want.args[i]));
}

PROP(C06, "outgoing", 80000, 1500000, 20, 90, 0,
    "messages of all four kinds with generated names, destinations, flags and arguments, serialised and read by the strict reference parser "
    "and by libdbus; non-trivial: all, not counted twice apart from their serial")
{
    Made x = make(src);
    CHECK(x.bytes == x.again, "serialising a message twice gives different bytes");
    Msg got = ref::parse(x.bytes);
    sameMessage(got, x.m);
    std::string err;
    auto lm = ldbus::demarshal(x.bytes, &err);
    CHECK(lm, "libdbus refuses the message: " << err << ": " << ref::describe(x.m) << "\n" << hexdump(x.bytes));
    auto eq = [&](const char* a, const std::string& b, const char* what) { CHECK(b == (a ? a : ""), what << " read by libdbus is " << (a ? a : "absent")); };
    eq(dbus_message_get_path(lm.get()), x.m.path, "path");
    eq(dbus_message_get_interface(lm.get()), x.m.iface, "interface");
    eq(dbus_message_get_member(lm.get()), x.m.member, "member");
    eq(dbus_message_get_error_name(lm.get()), x.m.errname, "error name");
    eq(dbus_message_get_destination(lm.get()), x.m.dest, "destination");
    eq(dbus_message_get_signature(lm.get()), x.m.signature(), "signature");
    CHECK(dbus_message_get_serial(lm.get()) == x.m.serial, "serial read by libdbus");
    CHECK(dbus_message_get_reply_serial(lm.get()) == x.m.reply, "reply serial read by libdbus");
    CHECK(bool(dbus_message_get_no_reply(lm.get())) == bool(x.m.flags & 1), "no-reply flag read by libdbus");
    CHECK(bool(dbus_message_get_auto_start(lm.get())) == !(x.m.flags & 2), "no-auto-start flag read by libdbus");
    ldbus::check_args(lm.get(), x.m.args, "read by libdbus");
    nontrivial(keyOf(x.m));
}
PROP(C06, "long signature", 8000, 100000, 20, 90, 0,
    "calls, returns and signals whose argument signature has 250-261 bytes: up to 255 they must be valid, beyond they must be refused; non-trivial: all")
{
    bool threw = false;
    Made x;
    Src before = src; // the same choices again for what was expected
    try {
        x = make(src, true);
    } catch (const Failure&) {
        throw;
    } catch (const std::exception&) {
        threw = true;
    }
    size_t total = 250 + [&] { before.below(4); before.chance(1, 40); return before.below(12); }();
    if (!threw && x.m.type == 3)
        throw Discard(); // errors always have one argument
    NOTE("signature of " << total << " bytes");
    label(total > 255 ? "too long" : total == 255 ? "255" : "fits");
    CHECK(threw == (total > 255), "a message with a signature of " << total << " bytes is " << (threw ? "refused" : "accepted"));
    if (!threw) {
        sameMessage(ref::parse(x.bytes), x.m);
        CHECK(ldbus::demarshal(x.bytes), "libdbus refuses the message");
    }
    nontrivial(hcomb(total, x.bytes.empty() ? 0 : keyOf(x.m)));
}

PROP(C06, "largest", 6, 40, 60, 120, 2,
    "messages of all kinds of exactly 128 MiB, or with an array or header fields of exactly 64 MiB, must be valid; with one byte or more in excess they must be refused; non-trivial: all")
{
    const size_t MaxArray = 64 << 20, MaxMessage = 128 << 20;
    const unsigned kind = src.below(4);
    const bool array = kind != 3 && src.flip();
    const bool path = !array && kind == 0 && src.flip(); // the header fields are an array as well
    const size_t over = src.flip() ? src.chance(1, 3) ? 1 + src.below(1 << 20) : 1 : 0;
    const std::string dest = src.flip() ? "" : ref::genBusName(src), name = ref::genMember(src);
    auto bytes = [&](size_t text) {
        const Message::MethodCallIdentifier id("/o" + (path ? std::string(text, 'p') : ""), "i.f", name);
        Type::Generic g;
        if (path) {
            Message::MethodCallParametersIn two;
            two.add(uint8_t(1));
            two.add(uint8_t(2));
            return Message::MethodCall(id, two, 0).marshall(dest);
        }
        if (array) {
            Type::Array a;
            a.add(Type::String(std::string(text, 'a')));
            g = a;
        } else
            g = Type::String(std::string(text, 's'));
        switch (kind) {
        case 0:
            return Message::MethodCall(id, Message::MethodCallParametersIn(g), 0).marshall(dest);
        case 1: {
            Message::MethodReturn m(5);
            m.addParameter(g);
            return m.marshall(dest);
        }
        case 2: {
            Message::Signal m(id);
            m.addParameter(g);
            return m.marshall(dest);
        }
        default:
            return Message::Error(5, "e.e", std::string(text, 's')).marshall(dest);
        }
    };
    const std::string small = bytes(0);
    // what is not the text: its length and the NUL after it, and in a message everything else
    size_t text = array ? MaxArray - 5 + over : MaxMessage - small.size() + over;
    if (path) {
        // the other fields follow it, at a multiple of 8, and end at one
        uint32_t fields;
        memcpy(&fields, small.data() + 12, 4);
        CHECK(fields % 8 == 0, "the header fields of a message with two bytes have " << fields << " bytes");
        text = MaxArray - fields + 16 - 11 + over;
    }
    NOTE("message of kind " << kind << (array ? " with an array" : path ? " with a path" : "") << (over ? ", too large" : " at the limit") << "\n");
    std::string d;
    bool threw = false;
    try {
        d = bytes(text);
    } catch (const std::exception&) {
        threw = true;
    }
    CHECK(threw == (over > 0), (array ? "an array" : path ? "an array of header fields" : "a message") << " of " << (array || path ? MaxArray : MaxMessage) << " bytes and " << over << " is " << (threw ? "refused" : "sent"));
    if (!threw) {
        Msg m = ref::parse(d);
        CHECK(m.args.size() == (path ? 2u : 1u), "the message has " << m.args.size() << " arguments");
        const Val& v = array ? m.args[0].c[0] : m.args[0];
        CHECK((path ? m.path.size() - 2 : v.s.size()) == text, "the text has " << v.s.size() << " instead of " << text << " bytes");
    }
    nontrivial(hcomb(kind * 4 + array * 2 + path, over));
}

// ------------------------------------------------------------------ C07
PROP(C07, "round trip", 60000, 1200000, 20, 90, 0,
    "messages of all kinds made with the library, serialised, cut into chunks and decoded by it; non-trivial: all, not counted twice apart from serial")
{
    Receiver rx;
    size_t n = 1 + (src.chance(1, 4) ? src.below(4) : 0);
    std::string all;
    std::vector<Msg> sent;
    std::vector<size_t> marks;
    uint64_t key = 0;
    for (size_t i = 0; i < n; ++i) {
        Made x = make(src);
        marks.push_back(all.size());
        all += x.bytes;
        sent.push_back(x.m);
        key = hcomb(key, keyOf(x.m));
    }
    size_t at = 0;
    for (size_t c : ref::genCuts(src, all.size(), marks)) {
        rx.feed(all.substr(at, c - at));
        at = c;
    }
    CHECK(rx.log.size() == n, rx.log.size() << " messages were delivered instead of " << n << ", the first of which is " << ref::describe(sent[0]));
    for (size_t i = 0; i < n; ++i)
        ref::checkGot(rx.log[i], sent[i], "message " + std::to_string(i));
    nontrivial(key);
}

// ------------------------------------------------------------------ C08
PROP(C08, "any valid", 60000, 1200000, 20, 90, 0,
    "valid messages made by the reference encoder: both byte orders, all optional and unknown fields and flags, any field order; non-trivial: all, not counted twice")
{
    ref::MsgOpt o;
    o.budget = src.chance(1, 40) ? 200000 : 300;
    Msg m = ref::genMsg(src, o);
    std::string d = ref::encode(m);
    NOTE(ref::describe(m));
    label(m.big ? "big endian" : "little endian");
    label(m.type == 1 ? "calls" : m.type == 2 ? "returns" : m.type == 3 ? "errors" : "signals");
    if (!m.extra.empty())
        label("unknown header fields");
    if (src.chance(1, 8)) {
        // is the generator right?
        std::string err;
        label(ldbus::demarshal(d, &err) ? "accepted by libdbus too" : "refused by libdbus: " + err);
    }
    Receiver rx;
    rx.feed(d);
    CHECK(rx.log.size() == 1, rx.log.size() << " messages were delivered instead of 1: " << ref::describe(m));
    ref::checkGot(rx.log[0], m, "message");
    nontrivial(ref::hashMsg(m));
}
PROP(C08, "libdbus", 25000, 500000, 20, 90, 0, "messages made by libdbus, in native byte order; non-trivial: all, not counted twice")
{
    ref::MsgOpt o;
    o.unusual = false;
    o.bigEndian = false;
    Msg m = ref::genMsg(src, o);
    m.flags &= 1;
    ldbus::MsgPtr lm(dbus_message_new(m.type));
    auto set = [&](dbus_bool_t (*f)(::DBusMessage*, const char*), const std::string& s) {
        if (!s.empty() && !f(lm.get(), s.c_str()))
            throw std::logic_error("harness: libdbus refuses " + s);
    };
    set(dbus_message_set_path, m.path);
    set(dbus_message_set_interface, m.iface);
    set(dbus_message_set_member, m.member);
    set(dbus_message_set_error_name, m.errname);
    set(dbus_message_set_destination, m.dest);
    set(dbus_message_set_sender, m.sender);
    dbus_message_set_serial(lm.get(), m.serial);
    if (m.hasReply)
        dbus_message_set_reply_serial(lm.get(), m.reply);
    dbus_message_set_no_reply(lm.get(), m.flags & 1);
    DBusMessageIter it;
    dbus_message_iter_init_append(lm.get(), &it);
    for (auto& a : m.args)
        ldbus::append(&it, a);
    char* p = nullptr;
    int n = 0;
    if (!dbus_message_marshal(lm.get(), &p, &n))
        throw std::logic_error("harness: dbus_message_marshal");
    std::string d(p, n);
    dbus_free(p);
    NOTE(ref::describe(m));
    Receiver rx;
    rx.feed(d);
    CHECK(rx.log.size() == 1, rx.log.size() << " messages were delivered instead of 1: " << ref::describe(m));
    ref::checkGot(rx.log[0], m, "message of libdbus");
    nontrivial(ref::hashMsg(m));
}

// ------------------------------------------------------------------ streams
struct Stream {
    std::string data;
    std::vector<Msg> msgs;
    std::vector<size_t> ends;
    std::vector<size_t> marks; // starts and ends of headers and bodies
    uint64_t key = 0;
    void add(const std::string& d)
    {
        marks.push_back(data.size() + 16);
        size_t h = 0;
        if (d.size() >= 16) {
            uint32_t n = 0;
            for (int k = 0; k < 4; ++k)
                n |= uint32_t(uint8_t(d[12 + k])) << (8 * (d[0] == 'B' ? 3 - k : k));
            h = (16 + size_t(n) + 7) / 8 * 8;
            if (h < d.size())
                marks.push_back(data.size() + h);
        }
        data += d;
        marks.push_back(data.size());
        key = hcomb(key, hash_str(d));
    }
    void add(const Msg& m)
    {
        add(ref::encode(m));
        msgs.push_back(m);
        ends.push_back(data.size());
    }
};
static Msg smallOrBig(Src& src)
{
    ref::MsgOpt o;
    switch (src.weighted({ 6, 2, 1 })) {
    case 0:
        o.budget = 60;
        break;
    case 1:
        o.budget = 3000;
        break;
    default:
        o.budget = src.chance(1, 10) ? 300000 : 10000;
    }
    return ref::genMsg(src, o);
}
PROP(C09, "many", 60, 1000, 30, 90, 0, "streams of 20-5000 small messages in one chunk, in two, or in chunks of equal size; after every chunk exactly the complete messages must have been delivered; non-trivial: all")
{
    const size_t n = 20 + (src.flip() ? src.below(4980) : src.size(4980));
    Stream s;
    for (size_t i = 1; i <= n; ++i) {
        Msg m;
        m.big = i % 3 == 0;
        m.type = 1 + i % 4;
        m.serial = i;
        if (m.type == 1 || m.type == 4)
            m.path = "/x";
        if (m.type == 1 || m.type == 4)
            m.member = "M";
        if (m.type == 4)
            m.iface = "i.f";
        if (m.type == 3)
            m.errname = "e.r";
        if (m.type == 2 || m.type == 3) {
            m.hasReply = true;
            m.reply = i;
        }
        if (i % 5)
            m.args.push_back(ref::number('u', i));
        s.add(m);
    }
    const size_t total = s.data.size();
    size_t piece = src.chance(1, 3) ? total : src.flip() ? 1 + src.below(total) : 1 + src.below(3000);
    NOTE(n << " messages, " << total << " bytes, in pieces of " << piece << "\n");
    Receiver rx;
    size_t done = 0;
    for (size_t at = 0; at < total; at += piece) {
        rx.feed(s.data.substr(at, piece));
        const size_t end = std::min(total, at + piece);
        while (done < n && s.ends[done] <= end)
            ++done;
        CHECK(rx.log.size() == done, "after " << end << " of " << total << " bytes " << rx.log.size() << " messages have been delivered instead of " << done);
    }
    for (size_t i = 0; i < n; ++i)
        ref::checkGot(rx.log[i], s.msgs[i], Cat() << "message " << i << " of " << n);
    nontrivial(hcomb(n, piece));
}
PROP(C09, "chunks", 25000, 400000, 20, 90, 0,
    "streams of 1-10 valid messages of mixed kinds, sizes and byte orders cut into chunks (whole, byte by byte, at and around header and "
    "body boundaries, equal sizes, anywhere, empty chunks); after every chunk exactly the complete messages must have been delivered; non-trivial: at least one cut inside the stream")
{
    Stream s;
    size_t n = 1 + src.below(10);
    for (size_t i = 0; i < n; ++i) {
        s.add(smallOrBig(src));
        NOTE("ends at " << s.data.size() << ": " << ref::describe(s.msgs.back()));
    }
    auto cuts = ref::genCuts(src, s.data.size(), s.marks);
    Receiver rx;
    size_t at = 0, complete = 0, checked = 0;
    for (size_t c : cuts) {
        if (src.chance(1, 30))
            rx.feed("");
        NOTE("chunk of " << c - at);
        rx.feed(s.data.substr(at, c - at));
        at = c;
        while (complete < n && s.ends[complete] <= at)
            ++complete;
        CHECK(rx.log.size() == complete, "after " << at << " bytes " << rx.log.size() << " messages were delivered instead of " << complete);
        for (; checked < complete; ++checked) {
            ref::checkGot(rx.log[checked], s.msgs[checked], "message " + std::to_string(checked));
            rx.log[checked].args.clear();
        }
        s.key = hcomb(s.key, c);
    }
    label(cuts.size() == 1 ? "one chunk" : cuts.size() < 10 ? "2-9 chunks" : "10 or more chunks");
    label("chunks", cuts.size());
    if (cuts.size() > 1)
        nontrivial(s.key);
}

// ------------------------------------------------------------------ C10
PROP(C10, "bad messages", 30000, 500000, 20, 90, 0,
    "streams of valid messages, undecodable bodies, unknown types, missing handlers and throwing handlers in any order and chunking; "
    "non-trivial: at least one of the faults, and a good message")
{
    Stream s;
    size_t n = 2 + src.below(10), faults = 0;
    std::vector<bool> throws;
    std::vector<size_t> goodEnds;
    // which kinds have no handler in this case
    unsigned missing = src.chance(1, 3) ? src.below(16) : 0;
    std::vector<Msg> expect;
    for (size_t i = 0; i < n; ++i) {
        if (src.chance(2, 5)) {
            std::string why;
            std::string d = ref::badMessage(src, why);
            s.add(d);
            NOTE("bad: " << why);
            label("bad messages");
            ++faults;
        } else {
            ref::MsgOpt o;
            o.budget = 100;
            Msg m = ref::genMsg(src, o);
            s.add(m);
            if (missing & (1 << (m.type - 1))) {
                NOTE("no handler: " << ref::describe(m));
                label("messages without a handler");
                ++faults;
                continue;
            }
            expect.push_back(m);
            goodEnds.push_back(s.data.size());
            bool t = src.chance(1, 4);
            throws.push_back(t);
            if (t) {
                ++faults;
                label("throwing handlers");
            }
            NOTE((t ? "handler throws: " : "good: ") << ref::describe(m));
        }
    }
    Receiver rx;
    size_t calls = 0;
    rx.inHandler = [&](const Got&) {
        size_t i = calls++;
        if (i < throws.size() && throws[i]) {
            switch (i % 3) {
            case 0:
                throw std::runtime_error("handler");
            case 1:
                throw std::out_of_range("handler");
            default:
                throw std::bad_function_call();
            }
        }
    };
    if (missing & 1)
        rx.p.setMethodCallHandler(nullptr);
    if (missing & 2)
        rx.p.setMethodReturnHandler(nullptr);
    if (missing & 4)
        rx.p.setErrorHandler(nullptr);
    if (missing & 8)
        rx.p.setSignalHandler(nullptr);
    size_t at = 0, complete = 0;
    for (size_t c : ref::genCuts(src, s.data.size(), s.marks)) {
        try {
            rx.feed(s.data.substr(at, c - at));
        } catch (const Failure&) {
            throw;
        } catch (const std::exception& e) {
            FAIL("an exception escapes: " << e.what());
        }
        at = c;
        while (complete < expect.size() && goodEnds[complete] <= at)
            ++complete;
        CHECK(rx.log.size() == complete, "after " << at << " of " << s.data.size() << " bytes " << rx.log.size() << " messages were delivered instead of " << complete);
        s.key = hcomb(s.key, c);
    }
    for (size_t i = 0; i < expect.size(); ++i)
        ref::checkGot(rx.log[i], expect[i], "message " + std::to_string(i));
    if (faults && !expect.empty())
        nontrivial(hcomb(s.key, missing));
}

// ------------------------------------------------------------------ C11
static const uint64_t MaxFields = 64ull << 20, MaxMessage = 128ull << 20;
static std::string prologue(bool big, uint8_t type, uint32_t body, uint32_t fields)
{
    Enc e(big);
    e.num(big ? 'B' : 'l', 1);
    e.num(type, 1);
    e.num(0, 1);
    e.num(1, 1);
    e.num(body, 4);
    e.num(1, 4);
    e.num(fields, 4);
    return e.out;
}
static uint64_t near(Src& src, uint64_t limit, uint64_t max)
{
    switch (src.weighted({ 4, 2, 2, 1 })) {
    case 0:
        return std::min(max, limit + src.below(17) - 8);
    case 1:
        return std::min<uint64_t>(max, limit + src.below(2));
    case 2:
        return std::min(max, src.interesting(32));
    default:
        return max - src.below(20);
    }
}
// feeds pieces; returns the number of bytes supplied when an exception came, or npos
static size_t feedUntilThrow(Src& src, Receiver& rx, const std::string& d, size_t from)
{
    size_t at = from;
    auto cuts = ref::genCuts(src, d.size() - from, { 0, 4, 8, 12, 15, 16, 17 });
    for (size_t c : cuts) {
        try {
            rx.feed(d.substr(at, from + c - at));
        } catch (const Failure&) {
            throw;
        } catch (const std::exception&) {
            return from + c;
        }
        at = from + c;
    }
    return std::string::npos;
}
PROP(C11, "header fields", 50000, 500000, 20, 90, 0,
    "announced sizes of the header fields around 64 MiB and up to 2^32-1, in both byte orders and any chunking, alone or after valid messages; non-trivial: all, not counted twice")
{
    Receiver rx;
    std::string pre;
    size_t before = 0;
    if (src.chance(1, 3)) {
        ref::MsgOpt o;
        o.budget = 60;
        pre = ref::encode(ref::genMsg(src, o));
        before = 1;
    }
    bool big = src.flip();
    uint64_t fields = near(src, MaxFields, 0xffffffff);
    uint32_t body = src.chance(1, 2) ? src.below(1000) : src.interesting(32);
    if (fields + 23 + body > MaxMessage && fields <= MaxFields)
        body = 0; // refused for another reason, maybe early
    if (fields < 2000)
        fields += 2000; // not complete in what is fed here
    std::string d = pre + prologue(big, 1 + src.below(4), body, fields);
    size_t announced = d.size();
    d += std::string(src.below(200), '\0');
    NOTE((big ? "big endian, " : "little endian, ") << fields << " bytes of header fields and a body of " << body << " announced");
    size_t at = 0;
    bool refused = false;
    for (size_t c : ref::genCuts(src, d.size(), { pre.size(), pre.size() + 12, announced, pre.size() + 15, pre.size() + 17 })) {
        try {
            rx.feed(d.substr(at, c - at));
        } catch (const Failure&) {
            throw;
        } catch (const std::exception&) {
            refused = true;
        }
        at = c;
        if (refused)
            break;
        CHECK(at < announced || fields <= MaxFields, "not refused after the first 16 bytes, although " << fields << " bytes of header fields are announced");
    }
    CHECK(refused == (fields > MaxFields), fields << " bytes of header fields are " << (refused ? "refused" : "accepted"));
    if (refused)
        CHECK(at >= announced || fields > MaxFields, "refused too early");
    CHECK(rx.log.size() == (at >= pre.size() ? before : 0), "the message before was delivered " << rx.log.size() << " times");
    label(refused ? "refused" : "accepted");
    nontrivial(hcomb(hcomb(fields, body), hcomb(big, hash_str(pre))));
}
PROP(C11, "total size", 40000, 400000, 20, 90, 0,
    "messages with generated header fields announcing total sizes around 128 MiB and up to 2^32-1; non-trivial: all, not counted twice")
{
    ref::MsgOpt o;
    o.budget = 0;
    o.maxArgs = 0;
    Msg m = ref::genMsg(src, o);
    m.args.clear();
    RawMsg r = ref::raw(m);
    r.fields.push_back({ 8, ref::text('g', "ay") });
    r.body = "";
    r.bodyLen = 0;
    std::string h = ref::encode(r); // header alone, padded
    uint64_t total = near(src, MaxMessage, 0xffffffff);
    if (total < h.size() + 2000)
        total = h.size() + 2000;
    r.bodyLen = std::min<uint64_t>(total - h.size(), 0xffffffff);
    if (src.chance(1, 10)) {
        r.bodyLen = 0xffffffff - src.below(20);
    }
    total = h.size() + r.bodyLen;
    std::string d = ref::encode(r);
    size_t headerEnd = d.size();
    d += std::string(src.below(1000), '\0');
    NOTE((m.big ? "big endian, header of " : "little endian, header of ") << h.size() << " and body of " << r.bodyLen << " announced, total " << (int64_t(total) - int64_t(MaxMessage))
                                                                         << " above the limit");
    Receiver rx;
    size_t at = 0;
    bool refused = false;
    for (size_t c : ref::genCuts(src, d.size(), { 8, 16, headerEnd, headerEnd - 8, headerEnd })) {
        try {
            rx.feed(d.substr(at, c - at));
        } catch (const Failure&) {
            throw;
        } catch (const std::exception&) {
            refused = true;
        }
        at = c;
        if (refused)
            break;
        CHECK(at < headerEnd || total <= MaxMessage, "not refused when the header was complete, although a message of " << total << " bytes is announced");
    }
    CHECK(refused == (total > MaxMessage), "a message of " << total << " bytes is " << (refused ? "refused" : "accepted"));
    CHECK(rx.log.empty(), "something was delivered");
    label(refused ? "refused" : "accepted");
    nontrivial(hcomb(hash_str(h), total));
}
PROP(C11, "largest", 4, 24, 60, 120, 2,
    "complete messages of exactly the largest sizes: 64 MiB of header fields, and 128 MiB in total, must be delivered; one byte more must be refused; non-trivial: all")
{
    bool big = src.flip(), fields = src.flip();
    int over = src.below(2);
    RawMsg r;
    r.big = big;
    r.type = 4;
    r.fields = { { 1, ref::text('o', "/a") }, { 2, ref::text('s', "a.b") }, { 3, ref::text('s', "c") } };
    if (fields) {
        // an unknown field makes up the size
        r.fields.push_back({ 100, ref::text('s', "") });
        size_t have = 0;
        {
            std::string e = ref::encode(r);
            for (int k = 0; k < 4; ++k)
                have |= size_t(uint8_t(e[12 + k])) << (8 * (big ? 3 - k : k));
        }
        r.fields.back().second.s.assign(MaxFields - have + over, 'x');
    } else {
        r.fields.push_back({ 8, ref::text('g', "s") });
        std::string e = ref::encode(r);
        Enc b(big);
        b.str(std::string(MaxMessage - e.size() - 5 + over, 'y'));
        r.body = b.out;
    }
    std::string d = ref::encode(r);
    NOTE("message of " << d.size() << " bytes, " << (fields ? "header fields" : "total") << (over ? " one byte above the limit" : " at the limit"));
    Receiver rx;
    size_t at = 0;
    bool threw = false;
    while (at < d.size() && !threw) {
        size_t n = std::min<size_t>(d.size() - at, at == 0 && src.flip() ? 16 : (50 << 20));
        try {
            rx.feed(d.substr(at, n));
        } catch (const Failure&) {
            throw;
        } catch (const std::exception&) {
            threw = true;
        }
        at += n;
    }
    CHECK(threw == bool(over), "a message of " << d.size() << " bytes with large " << (fields ? "header fields" : "body") << " is " << (threw ? "refused" : "accepted"));
    CHECK(rx.log.size() == (over ? 0u : 1u), rx.log.size() << " messages delivered");
    if (!over && !fields)
        CHECK(rx.log[0].args.size() == 1 && Type::asString(rx.log[0].args[0]).size() == MaxMessage - (d.size() - r.body.size()) - 5, "the argument has another size");
    nontrivial(hcomb(fields, over * 2 + big));
}

// ------------------------------------------------------------------ C12
// Bytes that make the decoder fail when the last one is supplied
static std::string poison(Src& src, std::string& why)
{
    bool big = src.flip();
    switch (src.below(4)) {
    case 0:
        why = "too large header fields";
        return prologue(big, 1, 0, MaxFields + 1 + src.below(1 << 20));
    case 1: {
        ref::MsgOpt o;
        o.budget = 0;
        Msg m = ref::genMsg(src, o);
        RawMsg r = ref::raw(m);
        r.bodyLen = MaxMessage + src.below(1 << 20);
        r.body = "";
        why = "too large body";
        return ref::encode(r);
    }
    case 2: { // header fields that cannot be decoded
        static const std::vector<std::string> bad = { "(", "a", "()", "uu", "z", "" };
        Enc e(big);
        e.out = prologue(big, 1 + src.below(4), src.below(50), 0);
        size_t start = e.out.size();
        e.num(200, 1);
        e.signature(src.pick(bad));
        e.out += std::string(64, '\0');
        e.put(12, e.out.size() - start, 4);
        e.pad(8);
        why = "undecodable header fields";
        return e.out;
    }
    default: { // a string in the header reaches beyond it
        Enc e(big);
        e.out = prologue(big, 1 + src.below(4), src.below(50), 0);
        size_t start = e.out.size();
        e.num(1, 1);
        e.signature("o");
        e.num(100 + src.below(1000000), 4);
        e.out += "/a/b";
        e.num(0, 1);
        e.put(12, e.out.size() - start, 4);
        e.pad(8);
        why = "header field beyond the header";
        return e.out;
    }
    }
}
PROP(C12, "reset", 25000, 400000, 20, 90, 0,
    "1-4 rounds of valid messages, then rejected input or a partial message, with more bytes behind it, then reset; a stream of valid messages after the last reset must be delivered "
    "as by a new decoder, and nothing from before; non-trivial: at least one reset with input buffered or rejected")
{
    Receiver rx;
    size_t rounds = 1 + src.below(4);
    uint64_t key = 0;
    for (size_t r = 0; r < rounds; ++r) {
        Stream s;
        size_t n = src.below(4);
        for (size_t i = 0; i < n; ++i) {
            ref::MsgOpt o;
            o.budget = src.chance(1, 10) ? 3000 : 60;
            s.add(src.chance(1, 20) ? smallOrBig(src) : ref::genMsg(src, o));
        }
        std::string why = "partial message";
        std::string d = s.data;
        size_t good = d.size();
        bool mustThrow = src.chance(2, 3);
        size_t boom = 0; // where the decoder must have noticed
        if (mustThrow) {
            d += poison(src, why);
            boom = d.size();
            ref::MsgOpt o;
            o.budget = 60;
            if (src.flip())
                d += ref::encode(ref::genMsg(src, o)); // must never be delivered
        } else {
            ref::MsgOpt o;
            o.budget = 60;
            std::string m = ref::encode(ref::genMsg(src, o));
            d += m.substr(0, src.below(m.size()));
        }
        NOTE("round of " << n << " messages (" << good << " bytes), then " << why << ", " << d.size() - good << " bytes");
        label(why);
        size_t base = rx.log.size(), at = 0;
        bool threw = false;
        for (size_t c : ref::genCuts(src, d.size(), s.marks)) {
            try {
                rx.feed(d.substr(at, c - at));
            } catch (const Failure&) {
                throw;
            } catch (const std::exception&) {
                threw = true;
            }
            at = c;
            if (threw)
                break;
            CHECK(!mustThrow || at < boom, "not rejected: " << why);
        }
        CHECK(threw == mustThrow, (threw ? "rejected: " : "not rejected: ") << why);
        CHECK(rx.log.size() - base == n, rx.log.size() - base << " messages delivered before the error instead of " << n);
        for (size_t i = 0; i < n; ++i)
            ref::checkGot(rx.log[base + i], s.msgs[i], "message before the error");
        rx.p.reset();
        if (src.chance(1, 5))
            rx.p.reset();
        CHECK(rx.log.size() - base == n, "reset delivers something");
        key = hcomb(key, hash_str(d));
    }
    Stream s;
    size_t n = 1 + src.below(4);
    for (size_t i = 0; i < n; ++i)
        s.add(smallOrBig(src));
    NOTE("after the reset: " << n << " messages, " << s.data.size() << " bytes");
    size_t base = rx.log.size(), at = 0, complete = 0;
    for (size_t c : ref::genCuts(src, s.data.size(), s.marks)) {
        try {
            rx.feed(s.data.substr(at, c - at));
        } catch (const Failure&) {
            throw;
        } catch (const std::exception& e) {
            FAIL("valid input after the reset is rejected: " << e.what());
        }
        at = c;
        while (complete < n && s.ends[complete] <= at)
            ++complete;
        CHECK(rx.log.size() - base == complete, "after the reset and " << at << " bytes, " << rx.log.size() - base << " messages were delivered instead of " << complete);
    }
    for (size_t i = 0; i < n; ++i)
        ref::checkGot(rx.log[base + i], s.msgs[i], "message after the reset");
    nontrivial(hcomb(key, s.key));
}

// ------------------------------------------------------------------ C05 (streams)
static void useAll(const Got& g)
{
    for (auto& a : g.args)
        try {
            Type::asString(a);
            Type::toString(a);
            Type::getMarshallingSignature(a);
            MessageOStream os;
            Type::marshallData(a, os);
        } catch (const std::exception&) {
        }
}
PROP(C05, "streams", 60000, 1500000, 20, 90, 0,
    "message streams with 0-12 random edits, or arbitrary bytes behind a plausible prologue, in any chunking, with handlers that read everything; after an exception or at the end the decoder is reset and must "
    "deliver a valid message; non-trivial: edited or arbitrary input")
{
    std::string d;
    std::vector<size_t> marks;
    size_t n = 1 + src.below(3);
    for (size_t i = 0; i < n; ++i) {
        marks.push_back(d.size());
        if (src.chance(3, 4)) {
            ref::MsgOpt o;
            o.budget = 150;
            Msg m = ref::genMsg(src, o);
            if (src.chance(1, 3)) { // hostile signature with a matching or random body
                RawMsg r = ref::raw(m);
                std::string sig = m.signature();
                size_t edits = 1 + src.below(3);
                while (edits--) {
                    static const char codes[] = "ybnqiuxtdsogv(){}ah";
                    size_t p = src.below(sig.size() + 1);
                    switch (src.below(3)) {
                    case 0:
                        sig.insert(p, 1, codes[src.below(19)]);
                        break;
                    case 1:
                        sig = sig.substr(0, p) + (p < sig.size() ? sig.substr(p + 1) : "");
                        break;
                    default:
                        if (p < sig.size())
                            sig[p] = codes[src.below(19)];
                    }
                }
                if (sig.size() > 255)
                    sig.resize(255);
                std::vector<std::pair<uint8_t, Val>> keep;
                for (auto& f : r.fields)
                    if (f.first != 8)
                        keep.push_back(f);
                keep.push_back({ 8, ref::text('g', sig) });
                r.fields = keep;
                if (src.flip())
                    r.body += std::string(src.below(40), char(src.byte()));
                d += ref::encode(r);
            } else
                d += ref::encode(m);
        } else {
            d += prologue(src.flip(), src.below(7), src.chance(1, 3) ? src.interesting(32) : src.below(100), src.chance(1, 3) ? src.interesting(32) : src.below(100));
            size_t k = src.below(120);
            while (k--)
                d += char(src.chance(1, 2) ? 0 : src.byte());
        }
    }
    size_t edits = src.below(13);
    while (edits-- && !d.empty()) {
        size_t i = src.below(d.size());
        switch (src.below(6)) {
        case 0:
            d[i] = src.byte();
            break;
        case 1:
            d.erase(i, 1 + src.below(8));
            break;
        case 2:
            d.insert(i, 1 + src.below(8), char(src.byte()));
            break;
        case 3: // a length, maybe
            for (size_t k = 0; k < 4 && (i & ~size_t(3)) + k < d.size(); ++k)
                d[(i & ~size_t(3)) + k] = char(k ? 0 : src.byte());
            break;
        case 4:
            d[i] ^= 1 << src.below(8);
            break;
        default:
            d[i] = "ybnqiuxtdsogv(){}a"[src.below(18)];
        }
    }
    NOTE("stream " << hexdump(d, 200));
    Receiver rx;
    rx.inHandler = useAll;
    size_t at = 0;
    bool threw = false;
    for (size_t c : ref::genCuts(src, d.size(), marks)) {
        try {
            rx.feed(d.substr(at, c - at));
        } catch (const Failure&) {
            throw;
        } catch (const std::exception&) {
            threw = true;
            rx.p.reset();
        }
        at = c;
    }
    label(threw ? "rejected at least once" : rx.log.empty() ? "nothing delivered" : "delivered");
    rx.p.reset();
    size_t base = rx.log.size();
    ref::MsgOpt o;
    o.budget = 50;
    Msg m = ref::genMsg(src, o);
    rx.feed(ref::encode(m));
    CHECK(rx.log.size() == base + 1, "after hostile input and a reset a valid message is delivered " << rx.log.size() - base << " times");
    ref::checkGot(rx.log.back(), m, "message after hostile input");
    nontrivial(hash_str(d));
}

// ------------------------------------------------------------------ C31 (bodies)
PROP(C31, "body", 30000, 400000, 20, 90, 0,
    "messages whose signature field is malformed (one to three random edits of a valid one) with a non-empty body must not be delivered, and the next message must be; non-trivial: all, not counted twice")
{
    ref::TypeOpt to;
    std::string sig = ref::genSignature(src, to, src.chance(1, 8) ? 250 : 20, 5);
    size_t edits = 1 + src.below(3);
    while (edits--) {
        static const char codes[] = "yus(){}avzr%";
        size_t p = src.below(sig.size() + 1);
        switch (src.below(4)) {
        case 0:
            sig.insert(p, 1, codes[src.below(12)]);
            break;
        case 1:
            if (p < sig.size())
                sig.erase(p, 1);
            break;
        case 2:
            if (p < sig.size())
                sig[p] = codes[src.below(12)];
            break;
        default:
            sig = sig.substr(0, p);
        }
    }
    // malformed under the most lenient reading?
    auto lenient = [&](auto&& self, size_t i) -> size_t {
        const size_t npos = std::string::npos;
        if (i >= sig.size())
            return npos;
        char c = sig[i];
        if (ref::isBasic(c) || c == 'v')
            return i + 1;
        if (c == 'a')
            return self(self, i + 1);
        if (c == '(') {
            if (i + 1 < sig.size() && sig[i + 1] == ')')
                return npos;
            for (++i; i < sig.size() && sig[i] != ')';)
                if ((i = self(self, i)) == npos)
                    return npos;
            return i < sig.size() ? i + 1 : npos;
        }
        if (c == '{') {
            if (i + 1 >= sig.size() || !ref::isBasic(sig[i + 1]))
                return npos;
            i = self(self, i + 2);
            return i != npos && i < sig.size() && sig[i] == '}' ? i + 1 : npos;
        }
        return npos;
    };
    bool ok = true;
    for (size_t i = 0; ok && i < sig.size();) {
        i = lenient(lenient, i);
        ok = i != std::string::npos;
    }
    if (ok || sig.size() > 255 || sig.empty())
        throw Discard();
    RawMsg r;
    r.big = src.flip();
    r.type = 1 + src.below(4);
    r.serial = 7;
    r.fields = { { 1, ref::text('o', "/a") }, { 2, ref::text('s', "a.b") }, { 3, ref::text('s', "c") }, { 4, ref::text('s', "d.e") }, { 5, ref::number('u', 3) } };
    r.fields.push_back({ 8, ref::text('g', sig) });
    r.body = std::string(1 + src.below(600), '\0');
    NOTE("signature " << show(sig, 255) << " body of " << r.body.size());
    Receiver rx;
    rx.feed(ref::encode(r));
    CHECK(rx.log.empty(), "a message with the malformed signature " << show(sig, 255) << " was delivered");
    Msg m;
    m.serial = 9;
    m.path = "/x";
    m.member = "y";
    rx.feed(ref::encode(m));
    CHECK(rx.log.size() == 1, "the message after one with a malformed signature is delivered " << rx.log.size() << " times");
    nontrivial(hcomb(hash_str(sig), r.type));
}

// ------------------------------------------------------------------ C32 (bodies)
PROP(C32, "messages", 6000, 80000, 20, 90, 0,
    "messages with an argument of 1-64 nested containers must be delivered, with 66 or more dropped without harm to the next message; non-trivial: all, not counted twice")
{
    size_t depth = src.weighted({ 2, 1 }) ? 66 + src.below(120) : 1 + src.below(64);
    if (src.chance(1, 3))
        depth = 64;
    // 0: variants, else containers inside and variants outside
    size_t inner = src.below(3) ? src.below(65) : 0;
    Val v = ref::number('y', 9);
    size_t arrays = 0, structs = 0, d = 0;
    while (d < depth) {
        Val w;
        bool a = src.flip();
        if (d < inner && (arrays < 32 || structs < 32)) {
            if (a ? arrays >= 32 : structs >= 32)
                a = !a;
            if (a) {
                w.t = 'a';
                w.sig = v.signature();
                ++arrays;
            } else {
                w.t = '(';
                ++structs;
            }
        } else {
            w.t = 'v';
            w.sig = v.signature();
        }
        w.c.push_back(v);
        v = w;
        ++d;
    }
    Msg m;
    m.big = src.flip();
    m.type = 4;
    m.path = "/a";
    m.iface = "a.b";
    m.member = "c";
    m.args = { v };
    NOTE("depth " << d << ", " << arrays << " arrays, " << structs << " structs, signature " << m.signature());
    label(d == 64 ? "depth 64" : d < 64 ? "less" : "deeper");
    Receiver rx;
    rx.feed(ref::encode(m));
    CHECK(rx.log.size() == (d <= 64 ? 1u : 0u), "a message with " << d << " nested containers was delivered " << rx.log.size() << " times");
    if (d <= 64)
        ref::checkGot(rx.log[0], m, "message");
    size_t base = rx.log.size();
    Msg next;
    next.serial = 5;
    next.path = "/n";
    next.member = "m";
    rx.feed(ref::encode(next));
    CHECK(rx.log.size() == base + 1, "the next message was delivered " << rx.log.size() - base << " times");
    nontrivial(hash_str(v.signature() + std::to_string(d)));
}

// ------------------------------------------------------------------ C37
namespace {
// copies of everything a decoder delivers, kept beyond the end of the handlers
struct Keeper {
    std::vector<std::shared_ptr<Message::MethodCall>> calls;
    std::vector<std::shared_ptr<Message::MethodReturn>> returns;
    std::vector<std::shared_ptr<Message::Error>> errors;
    std::vector<std::shared_ptr<Message::Signal>> signals;
    std::vector<std::pair<int, size_t>> order;
    void install(MessageProtocol& p)
    {
        p.setMethodCallHandler([this](const Message::MethodCall& m) { keep(1, calls, m); });
        p.setMethodReturnHandler([this](const Message::MethodReturn& m) { keep(2, returns, m); });
        p.setErrorHandler([this](const Message::Error& m) { keep(3, errors, m); });
        p.setSignalHandler([this](const Message::Signal& m) { keep(4, signals, m); });
    }
    template <class T> void keep(int kind, std::vector<std::shared_ptr<T>>& v, const T& m)
    {
        order.push_back({ kind, v.size() });
        v.push_back(std::make_shared<T>(m));
    }
    Got got(size_t i)
    {
        size_t k = order[i].second;
        switch (order[i].first) {
        case 1:
            return ref::got(*calls[k]);
        case 2:
            return ref::got(*returns[k]);
        case 3:
            return ref::got(*errors[k]);
        default:
            return ref::got(*signals[k]);
        }
    }
};
}
PROP(C37, "messages", 15000, 400000, 20, 90, 0,
    "a stream of messages; every delivered message is copied and kept; the memory of each chunk is overwritten after it has been supplied, the decoder is reset or destroyed, and then all copies (and copies of those, "
    "after the first were destroyed) must still say what was sent; non-trivial: at least two messages")
{
    std::vector<Msg> want;
    std::string d;
    std::vector<size_t> marks;
    for (size_t n = 1 + src.below(6); n--;) {
        ref::MsgOpt o;
        if (src.chance(1, 100))
            o.budget = 20000;
        want.push_back(ref::genMsg(src, o));
        marks.push_back(d.size());
        d += ref::encode(want.back());
        NOTE(ref::describe(want.back()) << "\n");
    }
    auto cuts = ref::genCuts(src, d.size(), marks);
    cuts.push_back(d.size());
    Keeper k;
    std::unique_ptr<MessageProtocol> p(new MessageProtocol);
    k.install(*p);
    std::vector<uint8_t> shared(d.size() + 1);
    size_t at = 0;
    for (size_t c : cuts) {
        if (c < at)
            continue;
        // always the same place
        memset(shared.data(), 0x5A, shared.size());
        memcpy(shared.data(), d.data() + at, c - at);
        OctetBuffer b(shared.data(), c - at);
        p->onReceiveData(b);
        at = c;
    }
    memset(shared.data(), 0xA5, shared.size());
    if (src.flip())
        p->reset();
    auto check = [&](const char* when) {
        CHECK(k.order.size() == want.size(), k.order.size() << " of " << want.size() << " messages were delivered");
        for (size_t i = 0; i < want.size(); ++i)
            ref::checkGot(k.got(i), want[i], when);
    };
    check("kept message");
    if (src.flip())
        p.reset();
    std::vector<uint8_t>().swap(shared);
    Keeper second(k);
    for (auto& x : second.calls)
        x = std::make_shared<Message::MethodCall>(*x);
    for (auto& x : second.returns)
        x = std::make_shared<Message::MethodReturn>(*x);
    for (auto& x : second.errors)
        x = std::make_shared<Message::Error>(*x);
    for (auto& x : second.signals)
        x = std::make_shared<Message::Signal>(*x);
    // what can be added to does not share it
    for (auto& x : k.returns)
        x->addParameter(Type::Uint32(1));
    for (auto& x : k.signals)
        x->addParameter(Type::Uint32(1));
    k = second;
    check("copy of a kept message");
    if (want.size() > 1)
        nontrivial(hash_str(d));
}
PROP(C37, "sending", 10000, 200000, 20, 90, 0,
    "an outgoing message is made, copied, and serialised several times to the same and to different destinations, with arguments added to it and to its copies in between, in any order; every serialisation must say exactly what its message says then; non-trivial: all")
{
    Made x = make(src); // serialised twice already
    CHECK(x.bytes == x.again, "serialising a message twice gives different bytes");
    const std::string name = ref::genMember(src), other = ref::genBusName(src), dest = ref::genBusName(src);
    Message::MethodCallIdentifier id("/o", "i.f", name);
    Val v;
    Type::Generic g = makeArg(src, v, 200, 100);
    // what a serialisation has to say now
    auto says = [&](const std::string& bytes, const std::string& to, const std::vector<Val>& args) {
        Msg m = ref::parse(bytes);
        CHECK(m.dest == to, "serialised for " << to << ", the destination is " << m.dest);
        CHECK(m.args.size() == args.size(), "serialised with " << m.args.size() << " instead of " << args.size() << " arguments");
        for (size_t i = 0; i < args.size(); ++i)
            CHECK(ref::same(m.args[i], args[i]), "argument " << i << " is " << ref::describe(m.args[i]) << " instead of " << ref::describe(args[i]));
    };
    const Val eight = ref::number('u', 8);
    auto differ = [&](const std::string& a, const std::string& b, const char* what) { CHECK(a == b, what << ": " << hexdump(a, 200) << " became " << hexdump(b, 200)); };
    // a history over the message and its copies, each with the arguments it should have
    auto history = [&](auto first) {
        typedef decltype(first) M;
        std::vector<std::pair<std::unique_ptr<M>, std::vector<Val>>> all;
        all.emplace_back(std::unique_ptr<M>(new M(first)), std::vector<Val>());
        for (size_t n = 2 + src.below(12); n--;) {
            const size_t i = src.below(all.size());
            auto& m = *all[i].first;
            auto& args = all[i].second;
            switch (src.below(6)) {
            case 0:
                m.addParameter(g);
                args.push_back(v);
                NOTE("add to " << i << "\n");
                break;
            case 1:
                m.addParameter(Type::Uint32(8));
                args.push_back(eight);
                NOTE("add a number to " << i << "\n");
                break;
            case 2:
                if (all.size() < 4) {
                    NOTE("copy " << i << "\n");
                    std::unique_ptr<M> c(new M(m));
                    std::vector<Val> same(args);
                    all.emplace_back(std::move(c), same);
                }
                break;
            case 3:
                if (all.size() > 1) {
                    NOTE("assign " << i << " to " << 0 << "\n");
                    *all[0].first = m;
                    all[0].second = std::vector<Val>(args);
                }
                break;
            default: {
                const std::string to = src.below(3) ? dest : src.flip() ? other : "";
                NOTE("serialise " << i << " for '" << to << "'\n");
                const std::string bytes = m.marshall(to);
                says(bytes, to, args);
            }
            }
        }
        for (auto& a : all)
            says(a.first->marshall(dest), dest, a.second);
    };
    switch (src.below(3)) {
    case 0: {
        Message::MethodCallParametersIn p(g);
        Message::MethodCall m(id, p, 0);
        const std::string a = m.marshall(dest);
        p.add(uint32_t(5));
        differ(a, m.marshall(dest), "the argument list was added to after the message was made");
        Message::MethodCall c(m);
        if (src.flip())
            says(m.marshall(other), other, { v });
        differ(a, m.marshall(dest), "serialised for another destination in between");
        differ(a, c.marshall(dest), "the copy serialises differently");
        Message::MethodCallParametersIn q(p);
        q.add(uint32_t(8));
        Message::MethodCall d(id, p, 0), e(id, q, 0);
        says(d.marshall(dest), dest, { v, ref::number('u', 5) });
        says(e.marshall(dest), dest, { v, ref::number('u', 5), eight });
        break;
    }
    case 1:
        history(Message::MethodReturn(7));
        break;
    default:
        history(Message::Signal(id));
    }
    nontrivial(hcomb(keyOf(x.m), hash_str(name)));
}

// ------------------------------------------------------------------ C38
PROP(C38, "sent on", 30000, 600000, 20, 90, 0,
    "valid messages of all kinds, by the reference encoder in both byte orders, with unknown fields and flags; each is delivered, serialised again (in the handler, afterwards from a copy, or both) for the same, another or no destination, "
    "returns and signals sometimes with a further argument; the bytes, read by the strict parser, must say the same; sometimes they go through a second decoder and are sent on once more; non-trivial: all, not counted twice")
{
    ref::MsgOpt o;
    o.budget = src.chance(1, 60) ? 100000 : 300;
    Msg m = ref::genMsg(src, o);
    NOTE(ref::describe(m) << "\n");
    Msg want;
    want.type = m.type;
    want.serial = m.serial;
    want.flags = m.flags & 7;
    want.args = m.args;
    if (m.type == 1 || m.type == 4) {
        want.path = m.path;
        want.iface = m.iface;
        want.member = m.member;
    } else {
        want.hasReply = true;
        want.reply = m.reply;
        want.errname = m.errname;
    }
    const bool again = src.chance(1, 4), add = m.type != 1 && m.type != 3 && src.chance(1, 3);
    const std::string dests[] = { src.chance(1, 3) ? "" : src.chance(1, 3) ? m.dest : ref::genBusName(src), ref::genBusName(src) };
    Val extra;
    Type::Generic g;
    if (add) {
        ref::ValOpt vo;
        extra = ref::number('u', src.interesting(32));
        g = ref::build(extra);
        if (want.signature().size() < 254)
            want.args.push_back(extra);
        else
            g = Type::Generic();
    }
    std::string d = ref::encode(m);
    for (int round = 0; round < 1 + again; ++round) {
        Keeper k;
        MessageProtocol p;
        k.install(p);
        std::vector<uint8_t> mem(d.begin(), d.end());
        OctetBuffer b(mem.data(), mem.size());
        p.onReceiveData(b);
        CHECK(k.order.size() == 1, k.order.size() << " messages were delivered instead of one");
        if (round == 0 && !g.empty()) {
            if (m.type == 2)
                k.returns[0]->addParameter(g);
            else
                k.signals[0]->addParameter(g);
        }
        const std::string& dest = dests[round];
        d = m.type == 1 ? k.calls[0]->marshall(dest) : m.type == 2 ? k.returns[0]->marshall(dest) : m.type == 3 ? k.errors[0]->marshall(dest) : k.signals[0]->marshall(dest);
        Msg r;
        try {
            r = ref::parse(d);
        } catch (const Failure& e) {
            throw Failure(Cat() << "sent on, the message is not valid: " << e.what() << "\n" << hexdump(d, 400));
        }
        const std::string how = round ? "sent on twice" : "sent on";
        auto same = [&](const char* what, const std::string& a, const std::string& b) { CHECK(a == b, how << ", the " << what << " is '" << a << "' instead of '" << b << "'"); };
        same("type", std::to_string(r.type), std::to_string(want.type));
        same("flags (those that are known)", std::to_string(r.flags & 7), std::to_string(want.flags));
        same("serial", std::to_string(r.serial), std::to_string(want.serial));
        same("path", r.path, want.path);
        same("interface", r.iface, want.iface);
        same("member", r.member, want.member);
        same("name of the error", r.errname, want.errname);
        same("destination", r.dest, dest);
        same("reply serial", r.hasReply ? std::to_string(r.reply) : "none", want.hasReply ? std::to_string(want.reply) : "none");
        same("signature", r.signature(), want.signature());
        for (size_t i = 0; i < want.args.size(); ++i)
            CHECK(ref::same(r.args[i], want.args[i]), how << ", argument " << i << " is " << ref::describe(r.args[i]) << " instead of " << ref::describe(want.args[i]));
    }
    nontrivial(ref::hashMsg(m));
}

// ------------------------------------------------------------------ C39
namespace {
// the outcome of an access: a text, or that it has thrown
template <class F> std::string outcome(F f)
{
    try {
        return "returned " + f();
    } catch (const std::exception&) {
        return "thrown";
    }
}
void accessValue(Src& src, const Type::Generic& g, const Val& v, int depth)
{
    const std::string what = ref::describe(v, 100);
    const bool container = v.t == 'a' || v.t == '(' || v.t == '{';
    auto expect = [&](const char* access, const std::string& got, bool ok) {
        CHECK((got == "thrown") == !ok, access << " of " << what << " has " << got << (ok ? "" : " instead of throwing"));
    };
    for (size_t n = 1 + src.below(3); n--;)
        switch (src.below(8)) {
        case 0:
            expect("refArray", outcome([&] { return std::to_string(Type::refArray(g).size()); }), v.t == 'a');
            break;
        case 1:
            expect("refStruct", outcome([&] { return std::to_string(Type::refStruct(g).getEntries()); }), v.t == '(');
            break;
        case 2:
            expect("refSignature", outcome([&] { return Type::refSignature(g).getValue(); }), v.t == 'g');
            break;
        case 3:
            expect("refVariant", outcome([&] { return Type::toString(Type::refVariant(g).getValue()); }), v.t == 'v');
            break;
        case 4:
        case 5: {
            const bool wide = src.flip();
            const std::string r = outcome([&] { return std::to_string(wide ? Type::asUint32(g) : uint32_t(Type::asByte(g))); });
            const Val* c = &v;
            while (c->t == 'v')
                c = &c->c[0];
            const char* access = wide ? "asUint32" : "asByte";
            if (c->t == 'a' || c->t == '(' || c->t == '{' || ((c->t == 's' || c->t == 'o' || c->t == 'g') && (c->s.empty() || strchr("abcxyz/(_", c->s[0]))))
                expect(access, r, false);
            else if (c->t == 'y' || (wide && (c->t == 'u' || c->t == 'q')))
                CHECK(r == "returned " + std::to_string(c->u), access << " of " << what << " has " << r);
            // otherwise it is a number, or not
            break;
        }
        case 6:
            if (v.t == '(') {
                const Type::Struct& s = Type::refStruct(g);
                const size_t i = src.flip() ? v.c.size() + src.below(3) : src.interesting(40);
                expect(("member " + std::to_string(i)).c_str(), outcome([&] { return Type::toString(s[i]); }), i < v.c.size());
            }
            break;
        default:
            // describing is always possible
            expect("toString", outcome([&] { return Type::toString(g, "  "); }), true);
            expect("asString", outcome([&] { return Type::asString(g); }), true);
            expect("the signature", outcome([&] { return Type::getMarshallingSignature(g); }), true);
        }
    if (depth > 4 || !src.flip())
        return;
    if (v.t == 'v')
        accessValue(src, Type::refVariant(g).getValue(), v.c[0], depth + 1);
    else if (container && v.t != '{' && !v.c.empty()) {
        const size_t i = src.below(v.c.size());
        accessValue(src, v.t == 'a' ? Type::refArray(g).getContents()[i] : Type::refStruct(g)[i], v.c[i], depth + 1);
    }
}
}
PROP(C39, "arguments", 40000, 800000, 20, 90, 0,
    "valid messages of all kinds with 0-5 arguments; 1-6 accesses to arguments that are or are not there (just behind the last, far behind), in the handler or to a kept copy, and to what is in them, by functions for the right and for wrong types; "
    "what is there is returned, anything else throws; non-trivial: an argument or a type that is not there was asked for, not counted twice")
{
    ref::MsgOpt o;
    o.budget = 120;
    o.maxArgs = src.chance(1, 4) ? 0 : 5;
    Msg m = ref::genMsg(src, o);
    if (src.chance(1, 4))
        m.args.clear();
    NOTE(ref::describe(m) << "\n");
    bool strange = false;
    auto access = [&](const Message::Base& x) {
        CHECK(x.getParameterCount() == m.args.size(), "the message has " << x.getParameterCount() << " arguments instead of " << m.args.size());
        for (size_t n = 1 + src.below(6); n--;) {
            const size_t i = src.weighted({ 4, 2, 1 }) == 0 && !m.args.empty() ? src.below(m.args.size()) : src.flip() ? m.args.size() + src.below(4) : src.interesting(48);
            if (i < m.args.size()) {
                accessValue(src, x.getParameter(i), m.args[i], 0);
                continue;
            }
            strange = true;
            NOTE("argument " << i << "\n");
            const std::string r = outcome([&] { return Type::asString(x.getParameter(i)); });
            CHECK(r == "thrown", "argument " << i << " of " << m.args.size() << " was asked for, which has " << r << " instead of throwing");
        }
    };
    Keeper k;
    MessageProtocol p;
    k.install(p);
    const std::string d = ref::encode(m);
    OctetBuffer b((const uint8_t*)d.data(), d.size());
    p.onReceiveData(b);
    CHECK(k.order.size() == 1, k.order.size() << " messages were delivered instead of one");
    if (m.type == 1)
        access(*k.calls[0]);
    else if (m.type == 2)
        access(*k.returns[0]);
    else if (m.type == 3)
        access(*k.errors[0]);
    else
        access(*k.signals[0]);
    if (strange || !m.args.empty())
        nontrivial(ref::hashMsg(m));
}
PROP(C39, "handlers", 20000, 400000, 20, 90, 0,
    "streams of 2-6 messages whose handlers ask for arguments without looking whether they are there, and as types they may not have; those that are not there make the handler throw, and all following messages are still delivered; non-trivial: a handler has thrown and a message followed")
{
    std::vector<Msg> sent;
    std::string d;
    std::vector<size_t> marks;
    for (size_t n = 2 + src.below(5); n--;) {
        ref::MsgOpt o;
        o.budget = 60;
        o.maxArgs = src.below(3);
        sent.push_back(ref::genMsg(src, o));
        if (src.flip())
            sent.back().args.clear();
        d += ref::encode(sent.back());
        marks.push_back(d.size());
        NOTE(ref::describe(sent.back()) << "\n");
    }
    const size_t which = src.below(3), how = src.below(4);
    size_t delivered = 0, threw = 0, firstThrow = 0;
    auto handler = [&](const Message::Base& m) {
        const size_t i = delivered++;
        if (i >= sent.size())
            return;
        const auto& args = sent[i].args;
        bool ok = which < args.size();
        if (ok && how)
            ok = args[which].t == " a(v"[how];
        std::string r;
        try {
            const Type::Generic& g = m.getParameter(which);
            if (how == 1)
                r = std::to_string(Type::refArray(g).size());
            else if (how == 2)
                r = std::to_string(Type::refStruct(g).getEntries());
            else if (how == 3)
                r = Type::toString(Type::refVariant(g).getValue());
            else
                r = Type::asString(g);
        } catch (const std::exception&) {
            if (!threw++)
                firstThrow = i;
            if (ok)
                async_fail(Cat() << "argument " << which << " of message " << i << " is there, but asking for it throws");
            throw;
        }
        if (!ok)
            async_fail(Cat() << "argument " << which << " of message " << i << " is not there, or is of another type, but asking for it gives " << r);
    };
    MessageProtocol p;
    p.setMethodCallHandler([&](const Message::MethodCall& m) { handler(m); });
    p.setMethodReturnHandler([&](const Message::MethodReturn& m) { handler(m); });
    p.setErrorHandler([&](const Message::Error& m) { handler(m); });
    p.setSignalHandler([&](const Message::Signal& m) { handler(m); });
    size_t at = 0;
    for (size_t c : ref::genCuts(src, d.size(), marks)) {
        std::vector<uint8_t> mem(d.begin() + at, d.begin() + c);
        OctetBuffer b(mem.data(), mem.size());
        p.onReceiveData(b);
        at = c;
    }
    CHECK(delivered == sent.size(), delivered << " of " << sent.size() << " messages were delivered");
    if (threw && firstThrow + 1 < sent.size())
        nontrivial(hash_str(d));
}
