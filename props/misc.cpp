// Match rules, addresses, introspection, logging: C17, C23, C24, C33
#include "../pbt/msg.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <dbus_introspectable.h>
#include <dbus_log.h>
#include <dbus_matchrule.h>
#include <dbus_platform.h>
#include <expat.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace pbt;
using namespace DBus;
using ref::Receiver;

static void quiet() { Log::setLevel(4); }
static int init = (on_worker_start(quiet), 0);

// ------------------------------------------------------------------ C17
namespace {
std::string smallName(Src& src, const char* sep, size_t maxElements)
{
    static const std::vector<std::string> el { "a", "b", "ab", "foo", "foobar", "fo", "Foo", "a_" };
    std::string r;
    size_t n = 1 + src.below(maxElements);
    for (size_t i = 0; i < n; ++i)
        r += (i ? sep : "") + src.pick(el);
    return r;
}
std::string smallPath(Src& src)
{
    if (src.chance(1, 10))
        return "/";
    return "/" + smallName(src, "/", 4);
}
std::string smallBus(Src& src)
{
    return src.flip() ? ":1." + std::to_string(src.below(30)) : smallName(src, ".", 3) + ".x";
}
// a value a key could have: mostly related to the signal's
std::string related(Src& src, const std::string& of, char sep, const std::string& other)
{
    switch (src.weighted({ 8, 1, 1, 1, 1, 1, 1 })) {
    case 0:
        return of.empty() ? other : of;
    case 1: { // ancestor
        size_t p = of.rfind(sep);
        return p == std::string::npos || p == 0 ? (sep == '/' ? "/" : other) : of.substr(0, p);
    }
    case 2: // below
        return (of == "/" || of.empty() ? (sep == '/' ? "" : "a") : of) + sep + "foo";
    case 3: // shares a prefix, but is not on a boundary
        return of.size() > 1 && of.back() != sep ? of + "b" : other;
    case 4: { // a prefix that does not end on a boundary
        std::string s = of.size() > 2 ? of.substr(0, of.size() - 1) : other;
        while (s.size() > 1 && (s.back() == sep || s.back() == ':'))
            s.pop_back();
        return s.empty() || s == ":" ? other : s;
    }
    case 5: { // another letter case
        std::string s = of.empty() ? other : of;
        for (auto& c : s)
            if (islower(c)) {
                c = toupper(c);
                break;
            }
        return s;
    }
    default:
        return other;
    }
}
std::string quoteRule(Src& src, const std::string& k, const std::string& v)
{
    return src.chance(3, 4) ? k + "='" + v + "'" : k + "=" + v;
}
bool inNamespace(const std::string& path, const std::string& ns)
{
    if (ns == "/" || path == ns)
        return true;
    return path.size() > ns.size() && path.compare(0, ns.size(), ns) == 0 && path[ns.size()] == '/';
}
}

namespace {
// names that agree in a long beginning (names may have 255 characters, paths any length)
std::string longBeginning(Src& src, const char* sep, size_t max)
{
    std::string r;
    size_t n = src.size(max);
    Fill f(src.raw(2));
    while (r.size() < n) {
        for (size_t k = 1 + f.below(20); k--;)
            r += char('a' + f.below(26));
        r += sep;
    }
    while (r.size() > max)
        r.pop_back();
    while (*sep && !r.empty() && r.back() == *sep)
        r.pop_back();
    return r.empty() ? r : r + sep;
}
Msg ruledSignal(Src& src)
{
    Msg m;
    m.type = 4;
    m.big = src.flip();
    m.serial = 7;
    m.path = smallPath(src);
    m.iface = smallName(src, ".", 3) + ".x";
    m.member = smallName(src, "", 2);
    if (src.flip())
        m.dest = smallBus(src);
    if (src.chance(3, 4))
        m.sender = smallBus(src);
    if (src.chance(1, 20)) {
        if (m.path != "/")
            m.path = "/" + longBeginning(src, "/", 2500) + m.path.substr(1);
        m.iface = longBeginning(src, ".", 190) + m.iface;
        m.member = longBeginning(src, "", 190) + m.member;
        if (!m.dest.empty() && m.dest[0] != ':')
            m.dest = longBeginning(src, ".", 190) + m.dest;
        if (!m.sender.empty() && m.sender[0] != ':')
            m.sender = longBeginning(src, ".", 190) + m.sender;
    }
    return m;
}
bool selected(const std::vector<std::pair<std::string, std::string>>& keys, const Msg& m)
{
    bool expected = true;
    for (auto& k : keys) {
        const std::string& v = k.second;
        if (k.first == "type")
            expected &= v == "signal";
        else if (k.first == "sender")
            expected &= v == m.sender;
        else if (k.first == "interface")
            expected &= v == m.iface;
        else if (k.first == "member")
            expected &= v == m.member;
        else if (k.first == "path")
            expected &= v == m.path;
        else if (k.first == "path_namespace")
            expected &= inNamespace(m.path, v);
        else if (k.first == "destination")
            expected &= v == m.dest;
    }
    return expected;
}
}

PROP(C17, "matching", 150000, 3000000, 20, 90, 0,
    "a signal with names from a small alphabet (1/20 with a long beginning too, up to the longest names and paths of 2500 characters) and a rule of any subset of the keys in any order, values mostly equal to the signal's or off by one element, one "
    "character or letter case, quoted or not; 1/4 with up to 4 more signals, similar to it or not, before it or after; decided by an independent matcher for each signal; non-trivial: at least one key besides type")
{
    Msg m = ruledSignal(src);
    std::vector<std::pair<std::string, std::string>> keys;
    if (src.chance(3, 4))
        keys.push_back({ "type", src.chance(1, 12) ? src.oneof<std::string>({ "method_call", "method_return", "error", "signals", "signa", "Signal", "xsignal", "s", "signal ", "sig" }) : "signal" });
    if (src.chance(1, 3))
        keys.push_back({ "sender", related(src, m.sender, '.', smallBus(src)) });
    if (src.flip())
        keys.push_back({ "interface", related(src, m.iface, '.', smallName(src, ".", 3) + ".x") });
    if (src.flip())
        keys.push_back({ "member", related(src, m.member, '_', smallName(src, "", 2)) });
    switch (src.below(3)) {
    case 1:
        keys.push_back({ "path", related(src, m.path, '/', smallPath(src)) });
        break;
    case 2:
        keys.push_back({ "path_namespace", src.chance(1, 8) ? "/" : related(src, m.path, '/', smallPath(src)) });
    }
    if (src.chance(1, 4))
        keys.push_back({ "destination", related(src, m.dest, '.', smallBus(src)) });
    for (size_t i = keys.size(); i > 1; --i)
        std::swap(keys[i - 1], keys[src.below(i)]);

    std::string rule;
    for (auto& k : keys)
        rule += (rule.empty() ? "" : ",") + quoteRule(src, k.first, k.second);

    std::vector<Msg> signals { m };
    if (src.chance(1, 4)) {
        size_t more = 1 + src.below(4);
        while (more--) {
            Msg o = src.chance(1, 4) ? ruledSignal(src) : m;
            switch (src.below(6)) {
            case 0:
                o.path = related(src, m.path, '/', smallPath(src));
                break;
            case 1:
                o.iface = smallName(src, ".", 3) + ".x";
                break;
            case 2:
                o.member = smallName(src, "", 2);
                break;
            case 3:
                o.sender = src.flip() ? "" : smallBus(src);
                break;
            case 4:
                o.dest = src.flip() ? "" : smallBus(src);
            }
            signals.insert(signals.begin() + src.below(signals.size() + 1), o);
        }
    }
    NOTE("rule " << rule << "\n");

    unsigned invoked = 0;
    MatchRule r(rule, [&](const Message::Signal&) { ++invoked; });
    for (auto& sg : signals) {
        const bool expected = selected(keys, sg);
        NOTE("signal " << ref::describe(sg) << "\nexpected " << (expected ? "match" : "no match") << "\n");
        int result = -1;
        invoked = 0;
        MessageProtocol p;
        p.setSignalHandler([&](const Message::Signal& s) {
            result = r.isMatched(s);
            if (result)
                r.invoke(s);
        });
        std::string d = ref::encode(sg);
        OctetBuffer b((const uint8_t*)d.data(), d.size());
        p.onReceiveData(b);
        CHECK(result >= 0, "the signal was not delivered, or the rule could not be evaluated");
        CHECK(bool(result) == expected, "rule \"" << rule << "\" " << (result ? "matches" : "does not match") << " a signal " << ref::describe(sg));
        CHECK(invoked == unsigned(expected), "handler invoked " << invoked << " times");
        label(expected ? "matches" : "does not match");
    }
    for (auto& k : keys)
        label("key " + k.first);
    if (keys.size() > (keys.empty() ? 0u : 1u) || (keys.size() == 1 && keys[0].first != "type"))
        nontrivial(hash_str(rule + "|" + m.path + "|" + m.iface + "|" + m.member + "|" + m.sender + "|" + m.dest));
}

PROP(C17, "refused", 40000, 600000, 20, 90, 0,
    "rules made invalid: both path and path_namespace, an element without '=' or without a key, or an unterminated quote, anywhere among valid elements; must throw, and must not "
    "when the defect is removed; non-trivial: all, not counted twice")
{
    std::vector<std::string> el;
    static const std::vector<std::string> keys { "sender", "interface", "member", "destination" };
    if (src.flip())
        el.push_back("type='signal'");
    for (auto& k : keys)
        if (src.flip())
            el.push_back(quoteRule(src, k, smallName(src, ".", 2) + ".x"));
    unsigned pathKind = src.below(3);
    size_t kind = src.below(3);
    std::string good, bad;
    std::string path = smallPath(src), ns = smallPath(src);
    auto join = [&](std::vector<std::string> v, uint64_t seed) {
        Fill f(seed);
        for (size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[f.below(i)]);
        std::string r;
        for (auto& x : v)
            r += (r.empty() ? "" : ",") + x;
        return r;
    };
    uint64_t order = src.raw(2);
    std::vector<std::string> g = el, b = el;
    if (kind == 0) {
        std::string a = quoteRule(src, "path", path), c = quoteRule(src, "path_namespace", ns);
        b.push_back(a);
        b.push_back(c);
        g.push_back(src.flip() ? a : c);
    } else {
        if (pathKind)
            el.push_back(quoteRule(src, pathKind == 1 ? "path" : "path_namespace", path));
        g = b = el;
        static const std::vector<std::string> defects { "member", "x", "'signal'", "interfacea.b", "path/a", "='x'", "=x", "='a.b'", "=" };
        if (kind == 1)
            b.push_back(src.pick(defects));
        else {
            std::string k = src.chance(1, 4) ? src.oneof<std::string>({ "type", "path", "path_namespace" }) : src.pick(keys);
            std::string v = src.chance(1, 6) ? "" : k == "type" ? "signal" : k[0] == 'p' ? path : smallName(src, ".", 2);
            // the key must not be there twice
            std::vector<std::string> rest;
            for (auto& x : el)
                if (x.compare(0, k.size() + 1, k + "=") != 0 && (k[0] != 'p' || x.compare(0, 4, "path") != 0))
                    rest.push_back(x);
            g = b = rest;
            b.push_back(src.flip() ? k + "='" + v : k + "=" + v + "'");
        }
    }
    good = join(g, order);
    bad = join(b, order);
    NOTE("good " << good << "\nbad " << bad << "\n");
    try {
        MatchRule r(good, [](const Message::Signal&) {});
    } catch (const std::exception& e) {
        FAIL("valid rule \"" << good << "\" is refused: " << e.what());
    }
    bool threw = false;
    try {
        MatchRule r(bad, [](const Message::Signal&) {});
    } catch (const std::exception&) {
        threw = true;
    }
    CHECK(threw, "invalid rule \"" << bad << "\" is accepted");
    static const char* kinds[] = { "path and path_namespace", "no =", "unterminated quote" };
    label(kinds[kind]);
    nontrivial(hash_str(bad));
}

// ------------------------------------------------------------------ C23
PROP(C23, "", 150000, 2000000, 20, 90, 0,
    "addresses unix:path=P and unix:abstract=P with P over the characters an address may carry unescaped, some more, and (1/4) any byte but NUL written as %xx, with and without ,guid=G, and plain paths; given as an argument or through "
    "the environment, for both buses; non-trivial: not a plain path")
{
    static const char chars[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_/.*\\";
    // what some programs put there without escaping it
    static const char unusual[] = "=:@~+ &#!\t\xc3\xa9";
    const bool odd = src.chance(1, 4);
    auto text = [&](size_t max) {
        std::string r;
        size_t n = 1 + src.size(max - 1);
        static const std::vector<std::string> words { "guid", "unix", "path", "abstract", "/", "tmp", "dbus-", "bus", "run", "user" };
        while (r.size() < n)
            if (src.chance(1, 5))
                r += src.pick(words);
            else if (odd && src.chance(1, 3))
                r += unusual[src.below(sizeof unusual - 1)];
            else
                r += chars[src.below(sizeof chars - 1)];
        return r;
    };
    std::string p = text(src.chance(1, 10) ? 300 : 40), address, expected;
    size_t kind = src.below(4);
    std::string guid;
    if (src.flip() && kind != 0) {
        guid = ",guid=";
        Fill f(src.raw(4));
        for (int i = 0; i < 32; ++i)
            guid += "0123456789abcdef"[f.below(16)];
    }
    switch (kind) {
    case 0: // none
    case 1:
        p = "/" + p;
        address = expected = p;
        guid = "";
        break;
    case 2:
        if (src.chance(4, 5))
            p = "/" + p;
        address = "unix:path=" + p + guid;
        expected = p;
        break;
    default:
        if (src.flip())
            p = "/" + p;
        address = "unix:abstract=" + p + guid;
        expected = std::string(1, '\0') + p;
    }
    if (kind >= 2 && src.chance(1, 4)) {
        // any bytes, escaped
        std::string escaped, meant;
        bool all = src.chance(1, 4);
        auto escape = [&](uint8_t c) {
            static const char lower[] = "0123456789abcdef", upper[] = "0123456789ABCDEF";
            escaped += '%';
            for (int i : { c >> 4, c & 15 })
                escaped += (src.flip() ? lower : upper)[i];
            meant += char(c);
            label("escaped byte");
        };
        for (size_t i = 0; i < p.size(); ++i) {
            if (src.chance(1, 6)) {
                uint8_t c = src.chance(1, 4) ? src.oneof<uint8_t>({ '%', ',', '=', ';', ' ', '/' }) : src.byte();
                escape(c ? c : 'x');
            }
            if (all || src.chance(1, 20))
                escape(p[i]);
            else {
                escaped += p[i];
                meant += p[i];
            }
        }
        address = (kind == 2 ? "unix:path=" : "unix:abstract=") + escaped + guid;
        expected = kind == 2 ? meant : std::string(1, '\0') + meant;
    }
    const bool none = kind == 0 && src.chance(1, 4);
    NOTE((none ? std::string("no address") : "address " + address) << "\n");
    const std::string sys = none ? "/var/run/dbus/system_bus_socket" : expected, ses = none ? "" : expected;
    auto same = [&](const std::string& got, const std::string& want, const char* how) {
        CHECK(got == want, how << ": address " << (none ? "none" : show(address, 400)) << " gives " << show(got, 400) << " instead of " << show(want, 400));
    };
    const char* arg = none ? nullptr : address.c_str();
    same(Platform::getSystemBus(arg), sys, "system bus, argument");
    same(Platform::getSessionBus(arg), ses, "session bus, argument");
    if (src.flip()) {
        // the two variables must not be mixed up
        const std::string other = "unix:path=/other/" + text(5);
        const bool system = src.flip();
        const char* mine = system ? "DBUS_SYSTEM_BUS_ADDRESS" : "DBUS_SESSION_BUS_ADDRESS";
        const char* theirs = system ? "DBUS_SESSION_BUS_ADDRESS" : "DBUS_SYSTEM_BUS_ADDRESS";
        if (none)
            unsetenv(mine);
        else
            setenv(mine, address.c_str(), 1);
        if (src.flip())
            setenv(theirs, other.c_str(), 1);
        else
            unsetenv(theirs);
        same(system ? Platform::getSystemBus() : Platform::getSessionBus(), system ? sys : ses, "environment");
        label("environment");
    }
    if (!none && kind >= 2)
        nontrivial(hash_str(address));
    static const char* kinds[] = { "plain", "plain", "path", "abstract" };
    label(none ? "none" : kinds[kind]);
    if (!guid.empty())
        label("with guid");
}

// ------------------------------------------------------------------ C24
namespace {
struct Node {
    std::string name;
    std::vector<std::pair<std::string, std::string>> attrs;
    std::vector<Node> kids;
    std::string attr(const char* k) const
    {
        for (auto& a : attrs)
            if (a.first == k)
                return a.second;
        return "";
    }
    bool has(const char* k) const
    {
        for (auto& a : attrs)
            if (a.first == k)
                return true;
        return false;
    }
    std::vector<const Node*> all(const char* n) const
    {
        std::vector<const Node*> r;
        for (auto& k : kids)
            if (k.name == n)
                r.push_back(&k);
        return r;
    }
};
struct Doc {
    std::vector<Node> stack;
    Node root;
    std::string text, dtName, dtPublic, dtSystem;
    static void start(void* u, const XML_Char* n, const XML_Char** a)
    {
        Node x;
        x.name = n;
        for (; *a; a += 2)
            x.attrs.push_back({ a[0], a[1] });
        ((Doc*)u)->stack.push_back(x);
    }
    static void end(void* u, const XML_Char*)
    {
        Doc* d = (Doc*)u;
        Node x = d->stack.back();
        d->stack.pop_back();
        (d->stack.empty() ? d->root : (d->stack.back().kids.push_back(x), d->stack.back().kids.back())) = x;
    }
    static void chars(void* u, const XML_Char* s, int n) { ((Doc*)u)->text.append(s, n); }
    static void doctype(void* u, const XML_Char* n, const XML_Char* sys, const XML_Char* pub, int)
    {
        Doc* d = (Doc*)u;
        d->dtName = n;
        d->dtSystem = sys ? sys : "";
        d->dtPublic = pub ? pub : "";
    }
    explicit Doc(const std::string& xml)
    {
        XML_Parser p = XML_ParserCreate(nullptr);
        XML_SetUserData(p, this);
        XML_SetElementHandler(p, start, end);
        XML_SetCharacterDataHandler(p, chars);
        XML_SetStartDoctypeDeclHandler(p, doctype);
        bool ok = XML_Parse(p, xml.data(), xml.size(), 1) == XML_STATUS_OK;
        std::string err = ok ? "" : std::string(Cat() << XML_ErrorString(XML_GetErrorCode(p)) << " at byte " << XML_GetCurrentByteIndex(p));
        XML_ParserFree(p);
        CHECK(ok, "not well-formed XML: " << err << "\n" << xml.substr(0, 2000));
    }
};
struct MMethod {
    std::string name, in, out;
};
struct MProp {
    std::string name, type;
    int access;
};
struct MSignal {
    std::string name, sig;
};
struct MFace {
    std::string name;
    std::vector<MMethod> methods;
    std::vector<MProp> props;
    std::vector<MSignal> signals;
};
void checkArgs(const std::vector<const Node*>& args, const std::string& sig, const std::string& where)
{
    auto types = ref::split(sig);
    CHECK(args.size() == types.size(), where << " has " << args.size() << " arguments instead of " << types.size() << " (" << sig << ")");
    for (size_t i = 0; i < types.size(); ++i)
        CHECK(args[i]->attr("type") == types[i], where << ", argument " << i << ": type " << args[i]->attr("type") << " instead of " << types[i]);
}
}

PROP(C24, "", 20000, 300000, 20, 90, 0,
    "introspection descriptions with 0-4 (1/40: up to 59) interfaces, each with 0-11 (1/60: up to 119) methods, properties and signals added in a generated interleaving, with names up to the longest, some of them there already, and arbitrary valid signatures, serialised or copied in between or not; the XML is read by "
    "expat and compared with the description; non-trivial: an argument list with two or more types")
{
    using namespace DBus::Introspectable;
    std::vector<MFace> model;
    Introspection doc;
    size_t faces = src.chance(1, 40) ? src.below(60) : src.below(5);
    const bool many = src.chance(1, 60), longNames = src.chance(1, 30);
    bool interesting = false;
    ref::TypeOpt to;
    to.maxDepth = 8;
    auto sig = [&] {
        std::string s = ref::genSignature(src, to, src.chance(1, 20) ? 255 : 30, 5);
        interesting |= ref::split(s).size() > 1;
        return s;
    };
    uint64_t h = 0;
    for (size_t i = 0; i < faces; ++i) {
        MFace f;
        f.name = i && src.chance(1, 12) ? src.pick(model).name : ref::genInterface(src, longNames ? 255 : 40);
        if (i && src.chance(1, 30)) { // the same again
            f = src.pick(model);
            Interface face(f.name);
            for (auto& m : f.methods)
                face.addMethod(Method(m.name, m.in, m.out));
            for (auto& p : f.props)
                face.addProperty(Property(p.name, p.type, p.access == 0 ? Property::PROPERTY_READ : p.access == 1 ? Property::PROPERTY_WRITE : Property::PROPERTY_READWRITE));
            for (auto& g : f.signals)
                face.addSignal(Introspectable::Signal(g.name, g.sig));
            model.push_back(f);
            doc.addInterface(face);
            label("an interface twice");
            continue;
        }
        Interface face(f.name);
        std::vector<std::string> names;
        size_t n = many ? src.below(120) : src.below(12);
        while (n--) {
            std::string name = names.size() && src.chance(1, 10) ? src.pick(names) : ref::genMember(src, longNames ? 255 : 20);
            names.push_back(name);
            if (src.chance(1, 20))
                face.serialize();
            switch (src.below(3)) {
            case 0: {
                std::string in = sig(), out = src.chance(1, 10) ? in : sig();
                f.methods.push_back({ name, in, out });
                face.addMethod(Method(name, in, out));
                h = hcomb(h, hash_str(name + "|" + in + "|" + out));
                break;
            }
            case 1: {
                std::string t = ref::genType(src, to, 0, 30);
                int access = src.below(4); // the default in one case
                f.props.push_back({ name, t, access % 3 });
                if (access == 3)
                    face.addProperty(Property(name, t));
                else
                    face.addProperty(Property(name, t, access == 0 ? (src.chance(1, 10) ? size_t(3 + src.byte()) : size_t(Property::PROPERTY_READ)) /* anything else means read */ : access == 1 ? Property::PROPERTY_WRITE : Property::PROPERTY_READWRITE));
                h = hcomb(h, hash_str(name + "|" + t) + access);
                break;
            }
            default: {
                std::string s = sig();
                f.signals.push_back({ name, s });
                face.addSignal(Introspectable::Signal(name, s));
                h = hcomb(h, hash_str(name + "|" + s + "|"));
            }
            }
        }
        NOTE("interface " << f.name << ": " << f.methods.size() << " methods, " << f.props.size() << " properties, " << f.signals.size() << " signals\n");
        model.push_back(f);
        doc.addInterface(face);
        if (src.chance(1, 4))
            doc.serialize();
        if (src.chance(1, 10))
            doc = Introspection(doc);
    }
    const std::string xml = doc.serialize();
    NOTE(xml.substr(0, 800) << "\n");
    CHECK(xml == doc.serialize(), "serialising again gives something else");
    Doc d(xml);
    CHECK(d.dtName == "node" && d.dtPublic == "-//freedesktop//DTD D-BUS Object Introspection 1.0//EN" && d.dtSystem == "http://www.freedesktop.org/standards/dbus/1.0/introspect.dtd",
        "document type is " << d.dtName << " " << d.dtPublic << " " << d.dtSystem);
    CHECK(d.text.find_first_not_of(" \t\r\n") == std::string::npos, "unexpected text: " << show(d.text));
    CHECK(d.root.name == "node", "the root is " << d.root.name);
    auto got = d.root.all("interface");
    CHECK(got.size() == model.size() && d.root.kids.size() == model.size(), got.size() << " interfaces instead of " << model.size());
    static const char* access[] = { "read", "write", "readwrite" };
    for (size_t i = 0; i < model.size(); ++i) {
        const Node& n = *got[i];
        const MFace& f = model[i];
        CHECK(n.attr("name") == f.name, "interface " << n.attr("name") << " instead of " << f.name);
        auto ms = n.all("method"), ps = n.all("property"), ss = n.all("signal");
        CHECK(ms.size() == f.methods.size(), ms.size() << " methods instead of " << f.methods.size());
        CHECK(ps.size() == f.props.size(), ps.size() << " properties instead of " << f.props.size());
        CHECK(ss.size() == f.signals.size(), ss.size() << " signals instead of " << f.signals.size());
        CHECK(ms.size() + ps.size() + ss.size() == n.kids.size(), "unexpected elements in interface " << f.name);
        for (size_t k = 0; k < ms.size(); ++k) {
            const std::string where = "method " + f.methods[k].name;
            CHECK(ms[k]->attr("name") == f.methods[k].name, "method " << ms[k]->attr("name") << " instead of " << f.methods[k].name);
            std::vector<const Node*> in, out;
            for (auto& a : ms[k]->kids) {
                CHECK(a.name == "arg", where << ": unexpected " << a.name);
                std::string dir = a.attr("direction");
                CHECK(dir == "out" || dir == "in" || !a.has("direction"), where << ": direction " << dir);
                (dir == "out" ? out : in).push_back(&a); // "in" is the default
            }
            checkArgs(in, f.methods[k].in, where + " (in)");
            checkArgs(out, f.methods[k].out, where + " (out)");
        }
        for (size_t k = 0; k < ps.size(); ++k) {
            CHECK(ps[k]->attr("name") == f.props[k].name, "property " << ps[k]->attr("name") << " instead of " << f.props[k].name);
            CHECK(ps[k]->attr("type") == f.props[k].type, "property type " << ps[k]->attr("type") << " instead of " << f.props[k].type);
            CHECK(ps[k]->attr("access") == access[f.props[k].access], "property access " << ps[k]->attr("access") << " instead of " << access[f.props[k].access]);
        }
        for (size_t k = 0; k < ss.size(); ++k) {
            const std::string where = "signal " + f.signals[k].name;
            CHECK(ss[k]->attr("name") == f.signals[k].name, "signal " << ss[k]->attr("name") << " instead of " << f.signals[k].name);
            for (auto& a : ss[k]->kids)
                CHECK(a.name == "arg" && (!a.has("direction") || a.attr("direction") == "out"), where << ": unexpected " << a.name << " " << a.attr("direction"));
            checkArgs(ss[k]->all("arg"), f.signals[k].sig, where);
        }
    }
    label("interfaces", faces);
    if (interesting)
        nontrivial(h);
}

// ------------------------------------------------------------------ C33
namespace {
// what goes to stderr while it exists
struct Capture {
    int saved, fd;
    size_t seen = 0;
    Capture()
    {
        fflush(stderr);
        saved = dup(2);
        fd = memfd_create("log", 0);
        if (saved < 0 || fd < 0 || dup2(fd, 2) < 0)
            throw Discard();
    }
    ~Capture()
    {
        fflush(stderr);
        dup2(saved, 2);
        close(saved);
        close(fd);
    }
    std::string more()
    {
        fflush(stderr);
        std::string r;
        char buf[65536];
        ssize_t n;
        while ((n = pread(fd, buf, sizeof buf, seen)) > 0) {
            r.append(buf, n);
            seen += n;
        }
        return r;
    }
};
struct DevNull {
    int saved;
    DevNull()
    {
        fflush(stderr);
        saved = dup(2);
        int n = open("/dev/null", O_WRONLY);
        if (saved < 0 || n < 0)
            throw Discard();
        dup2(n, 2);
        close(n);
    }
    ~DevNull()
    {
        fflush(stderr);
        dup2(saved, 2);
        close(saved);
    }
};
std::string logText(Src& src)
{
    size_t n = src.chance(1, 12) ? src.below(src.chance(1, 20) ? 300000 : 20000) : src.below(80);
    std::string r;
    Fill f(src.raw(4));
    while (r.size() < n) {
        switch (f.below(8)) {
        case 0:
            r += '%';
            break;
        case 1:
            r += "%s%n%d"[f.below(6)];
            break;
        case 2:
            r += '\n';
            break;
        case 3:
            r += char(128 + f.below(128));
            break;
        default:
            r += char(' ' + f.below(95));
        }
    }
    return r;
}
}

PROP(C33, "output", 20000, 250000, 20, 90, 0,
    "1-12 operations: setting the level, writing with several formats and texts up to 20000 bytes, now and then 300000 (percent signs included), hex dumps of 0-3000 bytes, now and then 150000; all output is captured and compared; "
    "non-trivial: at least one message that must be written and one that must not")
{
    Capture cap;
    size_t level = src.below(5);
    Log::setLevel(level);
    size_t n = 1 + src.below(12);
    bool yes = false, no = false;
    uint64_t h = level;
    std::string problem;
    for (size_t i = 0; i < n && problem.empty(); ++i) {
        size_t type = src.below(4);
        bool out = type >= level;
        std::string want;
        size_t op = src.below(8);
        h = hcomb(h, op * 8 + type);
        if (op == 0) {
            level = src.below(5);
            Log::setLevel(level);
        } else if (op == 1) {
            if (Log::isActive(type) != out)
                problem = Cat() << "level " << type << " is reported as " << (out ? "not " : "") << "active at " << level;
        } else if (op == 2 || op == 3) {
            std::string prefix = src.chance(1, 4) ? "" : src.flip() ? "DBus :: DATA: " : "x%s%d % : ";
            std::string data;
            size_t k = src.chance(1, 8) ? src.below(src.chance(1, 20) ? 150000 : 3000) : src.below(100);
            Fill f(src.raw(4));
            while (k--)
                data += char(f.next());
            Log::writeHex(type, prefix, data);
            std::string got = cap.more(), orig = got;
            h = hcomb(h, hash_str(data));
            if (!out) {
                no = true;
                if (!got.empty())
                    problem = "a hex dump below the level was written: " + show(got);
                continue;
            }
            yes = true;
            if (got.compare(0, prefix.size(), prefix) != 0) {
                problem = "a hex dump begins with " + show(got) + " instead of " + show(prefix);
                continue;
            }
            std::istringstream is(got.substr(prefix.size()));
            std::string tok, bytes;
            while (is >> tok) {
                if (tok.size() != 2 || !isxdigit((unsigned char)tok[0]) || !isxdigit((unsigned char)tok[1])) {
                    problem = "unexpected text in a hex dump: " + show(tok);
                    break;
                }
                bytes += char(strtoul(tok.c_str(), nullptr, 16));
            }
            if (problem.empty() && bytes != data)
                problem = Cat() << "a hex dump of " << data.size() << " bytes shows " << bytes.size() << " bytes, which differ\n" << show(orig, 2000) << "\n" << hexdump(data);
            continue;
        } else {
            std::string t = logText(src);
            int num = int(src.interesting(32));
            char buf[64];
            h = hcomb(h, hash_str(t));
            switch (src.below(5)) {
            case 0:
                Log::write(type, "%s", t.c_str());
                want = t;
                break;
            case 1:
                Log::write(type, "DBus :: %s (%d) 100%%\n", t.c_str(), num);
                snprintf(buf, sizeof buf, " (%d) 100%%\n", num);
                want = "DBus :: " + t + buf;
                break;
            case 2:
                Log::write(type, "%.2x %u %zu %c %s|%s\n", num & 255, unsigned(num), t.size(), 'x', t.c_str(), "end");
                snprintf(buf, sizeof buf, "%.2x %u %zu %c ", num & 255, unsigned(num), t.size(), 'x');
                want = buf + t + "|end\n";
                break;
            case 3:
                Log::write(type, "plain text\n");
                want = "plain text\n";
                break;
            default:
                Log::write(type, "%s", "");
            }
            if (out)
                yes = true;
            else {
                no = true;
                want.clear();
            }
        }
        std::string got = cap.more();
        if (problem.empty() && got != want)
            problem = Cat() << "at level " << level << " a message of level " << type << " gives " << got.size() << " bytes " << show(got, 200) << " instead of " << want.size() << " bytes "
                            << show(want, 200);
    }
    Log::setLevel(4);
    if (!problem.empty())
        FAIL(problem);
    if (yes && no)
        nontrivial(h);
}

PROP(C33, "no influence", 8000, 150000, 20, 90, 0,
    "a stream of 1-5 messages, a third of them edited at random, decoded once with logging off and once at each of two generated levels, and messages serialised at both: deliveries, "
    "exceptions and bytes must be equal; non-trivial: level TRACE or INFO was used")
{
    std::string d;
    size_t n = 1 + src.below(5);
    std::vector<size_t> marks;
    for (size_t i = 0; i < n; ++i) {
        ref::MsgOpt o;
        o.budget = 120;
        std::string b = ref::encode(ref::genMsg(src, o));
        if (src.chance(1, 3)) {
            size_t edits = 1 + src.below(3);
            while (edits--)
                b[src.below(b.size())] = src.flip() ? '%' : char(src.byte());
        }
        marks.push_back(d.size());
        d += b;
    }
    auto cuts = ref::genCuts(src, d.size(), marks);
    size_t level = src.below(4);
    NOTE("level " << level << " stream " << hexdump(d, 200) << "\n");
    auto run = [&](size_t lvl) {
        Log::setLevel(lvl);
        std::string r;
        {
            DevNull dn;
            Receiver rx;
            size_t at = 0;
            for (size_t c : cuts) {
                std::string chunk = d.substr(at, c - at);
                OctetBuffer b((const uint8_t*)chunk.data(), chunk.size());
                try {
                    rx.p.onReceiveData(b);
                } catch (const std::exception&) {
                    r += "exception\n";
                    rx.p.reset();
                }
                r += Cat() << "left " << b.size() << "\n";
                at = c;
            }
            for (auto& g : rx.log) {
                r += ref::describe(g) + "\n";
                MessageOStream os;
                for (auto& a : g.args)
                    r += Type::toString(a) + hexdump(ref::marshal(a), 200);
            }
        }
        Log::setLevel(4);
        return r;
    };
    std::string off = run(4), on = run(level);
    CHECK(off == on, "with log level " << level << " the stream gives\n" << on << "\nand without logging\n" << off);
    label("level", 0);
    if (level < 2)
        nontrivial(hash_str(d) + level);
}
