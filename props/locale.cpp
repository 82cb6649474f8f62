// Whatever locale the process uses: C42.
#include "link.h"
#include <clocale>
#include <dbus_introspectable.h>
#include <dbus_matchrule.h>
#include <dbus_platform.h>
#include <dbus_utils.h>
#include <locale>

// ------------------------------------------------------------------ locales
namespace {
// what locales of languages differ in, with the values of real ones
struct Numbers : std::numpunct<char> {
    char sep, point;
    std::string groups;
    Numbers(char s, char p, const std::string& g) : sep(s), point(p), groups(g) {}
    char do_thousands_sep() const override { return sep; }
    char do_decimal_point() const override { return point; }
    std::string do_grouping() const override { return groups; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
// the letters of Latin-1, and its space
const std::ctype_base::mask* latin1()
{
    static std::ctype_base::mask table[std::ctype<char>::table_size];
    for (size_t i = 0; i < std::ctype<char>::table_size; ++i) {
        table[i] = std::ctype<char>::classic_table()[i];
        if (i == 0xa0)
            table[i] = std::ctype_base::space;
        else if (i >= 0xc0 && i != 0xd7 && i != 0xf7)
            table[i] = std::ctype_base::alpha | std::ctype_base::print | (i < 0xdf ? std::ctype_base::upper : std::ctype_base::lower);
        else if (i > 0xa0 && i < 256)
            table[i] = std::ctype_base::punct | std::ctype_base::print;
    }
    return table;
}
struct Latin1 : std::ctype<char> {
    Latin1() : std::ctype<char>(latin1()) {}
};
// the locale of the process, while this exists
class Foreign {
    std::locale m_old;

public:
    Foreign() : m_old(std::locale()) {}
    explicit Foreign(Src& src) : Foreign() { set(src); }
    void set(Src& src)
    {
        static const char seps[] = { ',', '.', ' ', '\'', char(0xa0) };
        static const std::string groups[] = { "\3", "\3\2", "\4", "" };
        const char sep = seps[src.below(5)], point = sep == '.' || src.flip() ? ',' : '.';
        const std::string g = groups[src.weighted({ 5, 2, 1, 1 })];
        std::locale l(std::locale::classic(), new Numbers(sep, point, g));
        if (src.flip())
            l = std::locale(l, new Latin1);
        NOTE("numbers like " << 1000000.5 << " have '" << point << "' for the point, and " << (g.empty() ? std::string("nothing") : std::string("'") + sep + "'") << " between groups of " << (g.empty() ? 0 : int(g[0])) << "\n");
        label(g.empty() ? "without groups" : "groups of digits");
        std::locale::global(l);
        if (src.flip())
            setlocale(LC_ALL, "C.utf8");
    }
    ~Foreign()
    {
        std::locale::global(m_old);
        setlocale(LC_ALL, "C");
    }
};
struct Uid {
    explicit Uid(int64_t u) { bus::pretendUid(u); }
    ~Uid() { bus::pretendUid(-1); }
};
std::string accessors(const Type::Generic& g, const Val& v)
{
    std::string r = Type::asString(g);
    if (v.t == 'y')
        r += " byte " + std::to_string(Type::asByte(g));
    if (v.t == 'u' || v.t == 'q' || v.t == 'y' || v.t == 'b')
        r += " uint32 " + std::to_string(Type::asUint32(g));
    return r;
}
}
PROP(C42, "values", 40000, 800000, 20, 90, 0,
    "a value of any type, built or decoded, under a generated locale (separators and sizes of groups of digits, decimal point, names of truth values, letters of Latin-1), in force before or after it was made: its encoding, what is decoded "
    "from that, its text and its number must be what they are in the classic locale; non-trivial: a number of more than one group of digits, a fraction or a container")
{
    ref::TypeOpt to;
    to.api = true;
    ref::ValOpt vo;
    vo.type = to;
    vo.budget = 200;
    const bool basic = src.chance(2, 3), built = src.flip(), big = src.flip(), early = src.flip();
    Val v = basic ? ref::genBasic(src, ref::genBasicCode(src), vo) : ref::genValue(src, ref::genType(src, to, 0, 20), vo);
    NOTE((built ? "built " : "decoded ") << ref::describe(v) << "\n");
    std::string want, have, bytes, again;
    {
        Type::Generic g = built ? ref::build(v) : ref::decode(v, big);
        want = accessors(g, v);
    }
    const std::string expect = ref::encode(v);
    {
        Foreign f;
        if (early)
            f.set(src);
        Type::Generic g = built ? ref::build(v) : ref::decode(v, big);
        if (!early)
            f.set(src);
        have = accessors(g, v);
        bytes = ref::marshal(g);
        Type::Generic d = ref::decode(v, !big);
        ref::checkGeneric(d, v, "decoded in the locale");
        again = accessors(d, v);
    }
    CHECK(have == want, "the text and numbers of " << ref::describe(v) << " are " << show(have) << " instead of " << show(want));
    CHECK(again == want, "decoded in the locale, the text and numbers of " << ref::describe(v) << " are " << show(again) << " instead of " << show(want));
    CHECK(bytes == expect, ref::describe(v) << " is encoded as " << hexdump(bytes) << " instead of " << hexdump(expect));
    if (!basic || v.t == 'd' || (v.s.empty() && v.u > 999))
        nontrivial(ref::hashVal(v));
}

PROP(C42, "messages", 20000, 400000, 20, 90, 0,
    "1-3 valid messages of all kinds, bodies of up to 20000 bytes, any serials, delivered in generated chunks under a generated locale, and calls, returns, errors and signals sent under it; non-trivial: more than 999 bytes of arguments, or a serial above 999")
{
    std::string all;
    std::vector<Msg> sent;
    std::vector<size_t> marks;
    bool nt = false;
    uint64_t h = 0;
    for (size_t n = 1 + src.below(3); n--;) {
        ref::MsgOpt o;
        o.budget = src.chance(1, 20) ? 20000 : src.chance(1, 2) ? 3000 : 100;
        Msg m = ref::genMsg(src, o);
        if (src.chance(1, 4))
            m.args.push_back(ref::text('s', std::string(1000 + src.below(3000), 'l')));
        if (m.signature().size() > 255)
            m.args.pop_back();
        marks.push_back(all.size());
        const std::string d = ref::encode(m);
        nt = nt || d.size() > 1300 || m.serial > 999 || m.reply > 999;
        h = hcomb(h, ref::hashMsg(m));
        all += d;
        sent.push_back(m);
    }
    const std::vector<size_t> cuts = ref::genCuts(src, all.size(), marks);
    Foreign f(src);
    ref::Receiver rx;
    size_t at = 0;
    for (size_t c : cuts) {
        rx.feed(all.substr(at, c - at));
        at = c;
    }
    CHECK(rx.log.size() == sent.size(), rx.log.size() << " messages were delivered instead of " << sent.size() << ", the first of which is " << ref::describe(sent[0]));
    for (size_t i = 0; i < sent.size(); ++i)
        ref::checkGot(rx.log[i], sent[i], Cat() << "message " << i);

    const uint32_t to = std::max<uint64_t>(1, src.interesting(32)), number = src.interesting(32);
    const std::string text(src.chance(1, 3) ? 1000 + src.below(2000) : src.below(50), 't');
    auto out = [&](const std::string& bytes, int type, uint32_t serial, bool reply) {
        Msg m = ref::parse(bytes);
        CHECK(m.type == type && m.serial == serial && m.hasReply == reply && (!reply || m.reply == to), "a message of type " << type << " and serial " << serial << (reply ? ", a reply to " + std::to_string(to) : "") << " is sent as " << ref::describe(m));
        CHECK(m.args.size() == (type == 3 ? 1u : 2u) && m.args[0].s == text && (type == 3 || m.args[1].u == number), "a text of " << text.size() << " bytes and the number " << number << " are sent as " << ref::describe(m));
    };
    const Message::MethodCallIdentifier id("/o", "i.f", "M");
    Message::MethodCall c(id, Message::MethodCallParametersIn(text, number));
    out(c.marshall("x.y"), 1, c.getSerial(), false);
    Message::MethodReturn r(to);
    r.addParameter(Type::String(text));
    r.addParameter(Type::Uint32(number));
    out(r.marshall("x.y"), 2, r.getSerial(), true);
    Message::Error e(to, "e.e", text);
    out(e.marshall("x.y"), 3, e.getSerial(), true);
    Message::Signal s(id);
    s.addParameter(Type::String(text));
    s.addParameter(Type::Uint32(number));
    out(s.marshall(""), 4, s.getSerial(), false);
    if (nt)
        nontrivial(h);
}

PROP(C42, "connection", 1200, 20000, 30, 90, 0,
    "a connection under a generated locale, with a generated user id: handshake, 1-20 calls with serials of more than one group of digits, answered in any order, calls and signals for handlers and a rule, with up to 5000 bytes; non-trivial: all")
{
    Uid uid(src.chance(1, 3) ? -1 : int64_t(src.chance(1, 2) ? 1000 + src.below(100000) : src.interesting(32)));
    Foreign f(src);
    const Message::MethodCallIdentifier id("/o", "c.d", "M");
    for (;;) // serials above 999
        if (Message::Signal(id).getSerial() > 1000)
            break;
    auto log = std::make_shared<std::pair<std::mutex, std::vector<uint32_t>>>();
    auto add = [log](uint32_t x) {
        std::lock_guard<std::mutex> l(log->first);
        log->second.push_back(x);
    };
    std::vector<uint32_t> want;
    {
        Link l;
        l.f.asSignals(src.flip());
        l.up(src.flip());
        std::map<uint32_t, uint32_t> call; // serial -> number
        const size_t calls = 1 + src.below(20);
        for (size_t i = 0; i < calls; ++i) {
            Message::MethodCall c(id, Message::MethodCallParametersIn(Type::Uint32(i)));
            l.n->sendMethodCall(
                "c.d", c, [=](const Message::MethodReturn& m) { add(10000 * (i + 1) + Type::asUint32(m.getParameter(0))); }, [=](const Message::Error&) { add(20000000 + i); });
            Msg m = l.s.msg();
            CHECK(m.args.size() == 1 && m.args[0].u == i, "call " << i << " is sent as " << ref::describe(m));
            call[m.serial] = i;
        }
        const std::string rule = "type='signal',member='Sig'";
        l.n->callAddMatch(
            rule, [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [=](const Message::Signal& s) { add(30000000 + s.getSerial()); });
        Msg m = l.s.msg();
        CHECK(m.args.size() == 1 && m.args[0].s == rule, "a rule is sent as " << ref::describe(m));
        l.n->registerSignalHandler("c.d.Sig", [=](const Message::Signal& s) { add(40000000 + s.getSerial()); });
        l.n->registerMethodCallHandler("c.d.Sig", [=](const Message::MethodCall& s) { add(50000000 + s.getSerial()); });
        std::vector<std::string> out;
        std::vector<std::pair<uint32_t, uint32_t>> order(call.begin(), call.end());
        shuffle(src, order);
        for (auto& o : order) {
            if (src.chance(1, 3)) {
                const bool sig = src.flip();
                Msg x = simple(sig ? 4 : 1, 900 + src.below(5000), "/o", "c.d", "Sig");
                x.big = src.flip();
                x.args = { ref::text('s', std::string(src.chance(1, 2) ? 1000 + src.below(4000) : 3, 'l')) };
                if (sig)
                    want.push_back(30000000 + x.serial);
                want.push_back((sig ? 40000000 : 50000000) + x.serial);
                out.push_back(ref::encode(x));
            }
            Msg x;
            x.type = src.chance(1, 4) ? 3 : 2;
            x.serial = 1 + src.below(5000);
            x.big = src.flip();
            x.hasReply = true;
            x.reply = o.first;
            if (x.type == 3) {
                x.errname = "a.b";
                want.push_back(20000000 + o.second);
            } else {
                const uint32_t n = 990 + src.below(2000);
                x.args = { ref::number('u', n) };
                want.push_back(10000 * (o.second + 1) + n);
            }
            out.push_back(ref::encode(x));
        }
        deliver(src, l.s, out);
        l.f.pass(l.s);
        l.end();
    }
    std::lock_guard<std::mutex> lk(log->first);
    // those of a rule and of a handler for the same signal in any order
    std::sort(log->second.begin(), log->second.end());
    std::sort(want.begin(), want.end());
    auto list = [](const std::vector<uint32_t>& v) {
        std::string r;
        for (uint32_t x : v)
            r += " " + std::to_string(x);
        return r;
    };
    CHECK(log->second == want, "the invocations are" << list(log->second) << " instead of" << list(want));
    uint64_t h = 0;
    for (uint32_t w : want)
        h = hcomb(h, w);
    nontrivial(h);
}

PROP(C42, "text", 15000, 300000, 20, 90, 0,
    "hexadecimal text of any bytes in both directions, descriptions of interfaces, addresses and match rules with letters of Latin-1 and digits in them, under a generated locale: all as in the classic one; non-trivial: more than 4 bytes")
{
    std::string bytes, arg, name = ref::genInterface(src);
    for (size_t n = src.below(40); n--;)
        bytes += char(src.raw(1));
    for (size_t n = src.below(12); n--;)
        arg += src.chance(1, 4) ? char(src.oneof<uint8_t>({ 0xa0, 0xe9, 0xc0 })) : char('0' + src.below(70));
    ref::TypeOpt to;
    to.api = true;
    const std::string sig = ref::genSignature(src, to, 40, 4), path = ref::genPath(src), member = ref::genMember(src);
    Msg m = simple(4, 1000 + src.below(5000), path, name, member);
    const std::string signal = ref::encode(m);
    auto all = [&] {
        std::vector<std::string> r(7);
        Utils::ConvertBinaryToHexString(r[0], bytes);
        Utils::ConvertHexStringToBinary(r[1], r[0]);
        Introspectable::Interface i(name);
        i.addMethod(Introspectable::Method(member, sig, "t"));
        i.addSignal(Introspectable::Signal(member, sig));
        r[2] = i.serialize();
        // constructors and accessors: refused, or what
        auto tried = [](const std::function<std::string()>& f) {
            try {
                return "accepted: " + f();
            } catch (const std::exception& e) {
                return std::string("refused");
            }
        };
        r[3] = tried([&] { return Platform::getSystemBus(("unix:path=/" + arg).c_str()); });
        r[4] = tried([&] { return Type::asString(Type::ObjectPath("/" + arg)); });
        r[5] = tried([&] { return Message::MethodCall(Message::MethodCallIdentifier(path, name, member + arg)).marshall("a.b" + arg).substr(12); });
        r[6] = tried([&] {
            MatchRule rule("type='signal',interface='" + name + "',member='" + member + "',path='" + path + "'", [](const Message::Signal&) {});
            int n = 0;
            MessageProtocol p;
            p.setSignalHandler([&](const Message::Signal& s) { n += rule.isMatched(s); });
            OctetBuffer b((const uint8_t*)signal.data(), signal.size());
            p.onReceiveData(b);
            return std::to_string(n);
        });
        return r;
    };
    NOTE("bytes " << hexdump(bytes) << ", names " << name << " " << path << " " << member << ", text " << show(arg) << ", signature " << sig << "\n");
    const std::vector<std::string> want = all();
    std::vector<std::string> have;
    {
        Foreign f(src);
        have = all();
    }
    for (size_t i = 0; i < want.size(); ++i)
        CHECK(have[i] == want[i], "result " << i << " is " << show(have[i]) << " instead of " << show(want[i]));
    CHECK(have[1] == bytes, "hexadecimal and back, " << hexdump(bytes) << " is " << hexdump(have[1]));
    if (bytes.size() > 4)
        nontrivial(hash_str(bytes + arg));
}
