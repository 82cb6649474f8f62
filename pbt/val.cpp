#include "val.h"
#include <cmath>
#include <cstring>

using namespace pbt;

std::string Val::signature() const
{
    if (t == 'a')
        return "a" + sig;
    if (t == '(' || t == '{') {
        std::string r(1, t);
        for (auto& x : c)
            r += x.signature();
        return r + (t == '(' ? ')' : '}');
    }
    return std::string(1, t);
}

namespace ref {

bool isBasic(char c) { return c && strchr("ybnqiuxtdsogh", c); }
size_t alignOf(char c)
{
    switch (c) {
    case 'n':
    case 'q':
        return 2;
    case 'b':
    case 'i':
    case 'u':
    case 's':
    case 'o':
    case 'a':
    case 'h':
        return 4;
    case 'x':
    case 't':
    case 'd':
    case '(':
    case '{':
        return 8;
    default:
        return 1; // y g v
    }
}
size_t typeEnd(const std::string& s, size_t i, int arrays, int structs)
{
    const size_t npos = std::string::npos;
    if (i >= s.size() || arrays > 32 || structs > 32)
        return npos;
    char c = s[i];
    if (isBasic(c) || c == 'v')
        return i + 1;
    if (c == 'a') {
        if (arrays + 1 > 32)
            return npos;
        if (i + 1 < s.size() && s[i + 1] == '{') {
            if (structs + 1 > 32)
                return npos;
            size_t p = i + 2;
            if (p >= s.size() || !isBasic(s[p]))
                return npos;
            p = typeEnd(s, p + 1, arrays + 1, structs + 1);
            if (p == npos || p >= s.size() || s[p] != '}')
                return npos;
            return p + 1;
        }
        return typeEnd(s, i + 1, arrays + 1, structs);
    }
    if (c == '(') {
        if (structs + 1 > 32)
            return npos;
        size_t p = i + 1;
        if (p < s.size() && s[p] == ')')
            return npos;
        while (p < s.size() && s[p] != ')') {
            p = typeEnd(s, p, arrays, structs + 1);
            if (p == npos)
                return npos;
        }
        return p < s.size() ? p + 1 : npos;
    }
    return npos;
}
bool validSignature(const std::string& s)
{
    if (s.size() > 255)
        return false;
    for (size_t i = 0; i < s.size();) {
        i = typeEnd(s, i);
        if (i == std::string::npos)
            return false;
    }
    return true;
}
std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size();) {
        size_t e;
        if (s[i] == '{') { // an entry on its own, which only the API allows
            size_t k = i + 1, d = 1;
            while (d) {
                d += s[k] == '{' || s[k] == '(';
                d -= s[k] == '}' || s[k] == ')';
                ++k;
            }
            e = k;
        } else
            e = typeEnd(s, i);
        if (e == std::string::npos)
            throw std::logic_error("harness: split of invalid signature " + s);
        r.push_back(s.substr(i, e - i));
        i = e;
    }
    return r;
}
size_t depth(const std::string& s)
{
    // of a single complete type
    size_t best = 0, d = 0, arr = 0;
    std::vector<size_t> st;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (c == 'a') {
            ++arr;
            best = std::max(best, d + arr);
            continue;
        }
        if (c == '(' || c == '{') {
            st.push_back(arr);
            d += arr + 1;
            arr = 0;
            best = std::max(best, d);
            continue;
        }
        if (c == ')' || c == '}') {
            d -= st.back() + 1;
            st.pop_back();
        }
        if (c == 'v')
            best = std::max(best, d + arr + 1);
        arr = 0;
    }
    return best;
}

void Enc::val(const Val& v)
{
    switch (v.t) {
    case 'y':
        num(v.u, 1);
        break;
    case 'n':
    case 'q':
        num(v.u, 2);
        break;
    case 'b':
    case 'i':
    case 'u':
        num(v.u, 4);
        break;
    case 'x':
    case 't':
    case 'd':
        num(v.u, 8);
        break;
    case 's':
    case 'o':
        str(v.s);
        break;
    case 'g':
        signature(v.s);
        break;
    case 'v':
        signature(v.sig);
        val(v.c[0]);
        break;
    case '(':
    case '{':
        pad(8);
        for (auto& x : v.c)
            val(x);
        break;
    case 'a': {
        num(0, 4);
        size_t at = out.size() - 4;
        pad(alignOf(v.sig[0]));
        size_t start = out.size();
        size_t li = lens.size();
        lens.push_back({ at, 4, start, 0, 0 });
        for (auto& x : v.c)
            val(x);
        put(at, out.size() - start, 4);
        lens[li].len = out.size() - start;
        break;
    }
    default:
        throw std::logic_error("harness: encode of unknown type");
    }
}
std::string encode(const Val& v, bool big, size_t offset)
{
    Enc e(big);
    e.out.assign(offset, '\0');
    e.val(v);
    return e.out.substr(offset);
}
bool same(const Val& a, const Val& b) { return a.signature() == b.signature() && encode(a) == encode(b); }

void Dec::need(size_t n)
{
    if (end - pos < n)
        FAIL("encoding ends too early: " << n << " bytes needed at " << pos << " of " << end);
}
void Dec::pad(size_t a)
{
    while (pos % a) {
        need(1);
        if (d[pos])
            FAIL("padding byte at " << pos << " is not zero");
        ++pos;
    }
}
uint64_t Dec::num(size_t n)
{
    pad(n);
    need(n);
    uint64_t v = 0;
    for (size_t i = 0; i < n; ++i)
        v |= uint64_t(uint8_t(d[pos + i])) << (8 * (big ? n - 1 - i : i));
    pos += n;
    return v;
}
Val Dec::val(const std::string& sig)
{
    Val v;
    v.t = sig.at(0);
    switch (v.t) {
    case 'y':
        v.u = num(1);
        break;
    case 'n':
    case 'q':
        v.u = num(2);
        break;
    case 'b':
        v.u = num(4);
        CHECK(v.u <= 1, "boolean is " << v.u);
        break;
    case 'i':
    case 'u':
        v.u = num(4);
        break;
    case 'x':
    case 't':
    case 'd':
        v.u = num(8);
        break;
    case 's':
    case 'o':
    case 'g': {
        size_t n = num(v.t == 'g' ? 1 : 4);
        need(n + 1);
        v.s = d.substr(pos, n);
        pos += n;
        CHECK(d[pos] == 0, "text at " << pos - n << " is not terminated by NUL");
        CHECK(v.s.find('\0') == std::string::npos, "text contains NUL");
        ++pos;
        break;
    }
    case 'v': {
        size_t n = num(1);
        need(n + 1);
        v.sig = d.substr(pos, n);
        pos += n;
        CHECK(d[pos] == 0, "signature is not terminated by NUL");
        ++pos;
        CHECK(typeEnd(v.sig, 0) == v.sig.size(), "variant has signature " << show(v.sig));
        v.c.push_back(val(v.sig));
        break;
    }
    case '(':
    case '{':
        pad(8);
        for (auto& x : split(sig.substr(1, sig.size() - 2)))
            v.c.push_back(val(x));
        break;
    case 'a': {
        v.sig = sig.substr(1);
        size_t n = num(4);
        pad(alignOf(v.sig[0]));
        need(n);
        size_t stop = pos + n;
        Dec sub(d, big, pos, stop);
        while (sub.pos < stop)
            v.c.push_back(sub.val(v.sig));
        pos = stop;
        break;
    }
    default:
        FAIL("unknown type code in signature " << show(sig));
    }
    return v;
}

// ------------------------------------------------------------ generators
static const char Basics[] = "yubsqixtdnog";
char genBasicCode(Src& src) { return Basics[src.below(12)]; }

// appends small types up to a length that is anywhere within what is allowed
static void fillSignature(Src& src, const TypeOpt& o, int depth, std::string& sig, size_t maxLen)
{
    const size_t target = sig.size() + src.below(maxLen - sig.size() + 1);
    while (sig.size() < target) {
        std::string x = genType(src, o, depth, std::min<size_t>(target - sig.size(), 12));
        if ((o.api && depth && x[0] == 'a') || x.size() > target - sig.size())
            x = "q";
        sig += x;
    }
}
std::string genType(Src& src, const TypeOpt& o, int depth, size_t maxLen)
{
    if (maxLen > 100 && depth < o.maxDepth && src.chance(1, 3)) { // a long struct
        std::string e = "(y";
        fillSignature(src, o, depth + 1, e, maxLen - 1);
        return e + ")";
    }
    if (maxLen < 4 || depth >= o.maxDepth || src.weighted({ 5, 5 }) == 0)
        return std::string(1, genBasicCode(src));
    switch (src.weighted({ 3, o.variants ? 3u : 0u, 3, 2 })) {
    case 0: { // array
        if (!o.api)
            return "a" + genType(src, o, depth + 1, maxLen - 1);
        // the classes have no array of arrays
        std::string e;
        switch (src.weighted({ 3, o.variants ? 1u : 0u, 2 })) {
        case 0:
            e = std::string(1, genBasicCode(src));
            break;
        case 1:
            e = "v";
            break;
        default:
            e = "(";
            {
                size_t n = 0;
                do {
                    std::string x = genType(src, o, depth + 2, (maxLen - 4 - (e.size() < maxLen - 4 ? e.size() : maxLen - 4)));
                    if (x[0] == 'a')
                        x = "u";
                    e += x;
                } while (e.size() + 6 < maxLen && src.more(++n, 1.5, 6));
            }
            e += ")";
        }
        return "a" + e;
    }
    case 1:
        return "v";
    case 2: { // struct
        std::string e = "(";
        size_t n = 0;
        do {
            std::string x = genType(src, o, depth + 1, maxLen - 2 > e.size() ? maxLen - 2 - e.size() : 1);
            if (o.api && x[0] == 'a') // not with the public add()
                x = std::string(1, genBasicCode(src));
            e += x;
        } while (e.size() + 3 < maxLen && src.more(++n, 1.7, 8));
        return e + ")";
    }
    default: { // dict
        std::string e = "a{";
        e += genBasicCode(src);
        e += genType(src, o, depth + 2, maxLen - 4);
        return e + "}";
    }
    }
}
std::string genSignature(Src& src, const TypeOpt& o, size_t maxLen, size_t maxTypes)
{
    std::string r;
    size_t n = 0;
    if (maxLen > 100 && maxTypes > 100 && src.flip()) {
        fillSignature(src, o, 0, r, maxLen);
        return r;
    }
    while (r.size() < maxLen && src.more(n, 2, maxTypes)) {
        std::string t = genType(src, o, 0, maxLen - r.size());
        if (r.size() + t.size() > maxLen)
            break;
        r += t;
        ++n;
    }
    return r;
}

std::string genText(Src& src, size_t maxLen)
{
    size_t n = src.size(maxLen);
    std::string r;
    if (!n)
        return r;
    unsigned kind = src.weighted({ 4, 2, 1 });
    Fill f(src.below(256));
    r.reserve(n);
    while (r.size() < n) {
        size_t left = n - r.size();
        if (kind == 0)
            r += char('a' + f.below(26));
        else if (kind == 1)
            r += char(1 + f.below(127)); // any ASCII but NUL
        else {
            switch (f.below(left >= 4 ? 4 : left)) {
            case 0:
                r += char(1 + f.below(127));
                break;
            case 1: {
                unsigned c = 0x80 + f.below(0x780);
                r += char(0xc0 | c >> 6);
                r += char(0x80 | (c & 63));
                break;
            }
            case 2: {
                unsigned c = 0x800 + f.below(0xd800 - 0x800);
                r += char(0xe0 | c >> 12);
                r += char(0x80 | (c >> 6 & 63));
                r += char(0x80 | (c & 63));
                break;
            }
            default: {
                unsigned c = 0x10000 + f.below(0x100000);
                r += char(0xf0 | c >> 18);
                r += char(0x80 | (c >> 12 & 63));
                r += char(0x80 | (c >> 6 & 63));
                r += char(0x80 | (c & 63));
            }
            }
        }
    }
    return r;
}
static std::string word(Src& src, size_t max, bool digitFirst)
{
    static const char first[] = "abcdexyzABZ_";
    static const char rest[] = "abcdexyzABZ_0123456789";
    size_t n = 1 + (src.weighted({ 6, 1 }) ? src.below(max ? max : 1) : src.below(4));
    if (n > max)
        n = max ? max : 1;
    Fill f(src.below(256));
    std::string r;
    r += digitFirst ? rest[f.below(22)] : first[f.below(12)];
    while (r.size() < n)
        r += rest[f.below(22)];
    return r;
}
std::string genPath(Src& src, size_t maxLen)
{
    if (src.chance(1, 8))
        return "/";
    std::string r;
    size_t n = 0;
    do {
        r += "/" + word(src, maxLen > r.size() + 1 ? maxLen - r.size() - 1 : 1, true);
        ++n;
    } while (r.size() + 2 < maxLen && src.more(n, 1.5, 20));
    return r;
}
std::string genInterface(Src& src, size_t maxLen)
{
    std::string r = word(src, maxLen / 3, false);
    size_t n = 0;
    do {
        r += "." + word(src, maxLen > r.size() + 1 ? maxLen - r.size() - 1 : 1, false);
    } while (r.size() + 2 < maxLen && src.more(++n, 1, 20));
    return r;
}
std::string genMember(Src& src, size_t maxLen) { return word(src, maxLen, false); }
std::string genBusName(Src& src)
{
    if (src.flip())
        return genInterface(src, src.chance(1, 20) ? 250 : 40);
    if (src.chance(1, 8))
        return "org.freedesktop.DBus";
    return Cat() << ":1." << src.below(10000);
}

Val genBasic(Src& src, char code, ValOpt& o)
{
    Val v;
    v.t = code;
    switch (code) {
    case 'y':
        v.u = src.interesting(8);
        break;
    case 'b':
        v.u = src.below(2);
        if (v.u && o.truths && src.chance(1, 3))
            v.truth = uint32_t(2 + src.interesting(32) % 0xfffffffe);
        break;
    case 'n':
    case 'q':
        v.u = src.interesting(16);
        break;
    case 'i':
    case 'u':
        v.u = src.interesting(32);
        break;
    case 'x':
    case 't':
        v.u = src.interesting(64);
        break;
    case 'd': {
        double d;
        switch (src.weighted({ 3, 2, 2, 1 })) {
        case 0:
            d = double(int64_t(src.below(2000)) - 1000) / 8;
            break;
        case 1:
            d = (double(src.raw(4)) - 2147483648.0) * std::pow(10.0, double(src.below(40)) - 20);
            break;
        case 2: {
            uint64_t b = src.raw(8);
            memcpy(&d, &b, 8);
            break;
        }
        default:
            d = src.oneof<double>({ 0.0, -0.0, INFINITY, -INFINITY, 1e308, 5e-324, 0.1 });
        }
        memcpy(&v.u, &d, 8);
        break;
    }
    case 's':
        v.s = genText(src, o.budget > 16 ? std::min<size_t>(o.maxText, o.budget) : 4);
        break;
    case 'o':
        v.s = genPath(src, src.chance(1, 10) ? std::min<size_t>(o.maxText, 300) : 20);
        break;
    case 'g': {
        TypeOpt t;
        t.maxDepth = 4;
        v.s = genSignature(src, t, src.chance(1, 8) ? 255 : 12, 255);
        break;
    }
    }
    return v;
}

Val genValue(Src& src, const std::string& sig, ValOpt& o, int depth)
{
    Val v;
    v.t = sig.at(0);
    if (isBasic(v.t)) {
        v = genBasic(src, v.t, o);
        o.budget -= 8 + long(v.s.size());
        return v;
    }
    o.budget -= 8;
    switch (v.t) {
    case 'v':
        if (o.type.api)
            v.sig = src.oneof<std::string>({ "u", "s", "o", "g" });
        else if (o.budget < 0 || depth > 20)
            v.sig = "y";
        else {
            TypeOpt t = o.type;
            t.maxDepth = std::max(1, t.maxDepth - 2);
            v.sig = genType(src, t, 0, src.chance(1, 10) ? 255 : 20);
        }
        v.c.push_back(genValue(src, v.sig, o, depth + 1));
        break;
    case '(':
    case '{':
        for (auto& x : split(sig.substr(1, sig.size() - 2)))
            v.c.push_back(genValue(src, x, o, depth + 1));
        break;
    case 'a': {
        v.sig = sig.substr(1);
        if (o.budget <= 0)
            break;
        char e = v.sig[0];
        if (strchr("ybnqiuxtd", e) && src.chance(1, 6)) {
            // many elements from little input
            size_t n = src.size(std::min<size_t>(o.budget / alignOf(e), 70000));
            Fill f(src.below(256));
            uint64_t mask = e == 'b' ? 1 : alignOf(e) == 8 ? ~0ull : (1ull << (8 * alignOf(e))) - 1;
            for (size_t i = 0; i < n; ++i) {
                Val x;
                x.t = e;
                x.u = f.next() & mask;
                v.c.push_back(x);
            }
            o.budget -= n * alignOf(e);
        } else if (o.budget > 400 && src.chance(1, 8)) {
            // many elements, of a few kinds
            const long before = o.budget;
            std::vector<Val> kinds;
            std::vector<size_t> sizes;
            do {
                kinds.push_back(genValue(src, v.sig, o, depth + 1));
                sizes.push_back(encode(kinds.back()).size() + 7);
            } while (o.budget > 0 && src.more(kinds.size(), 1, 3));
            size_t n = src.size(std::max<long>(o.budget, 0) / 8);
            Fill f(src.below(256));
            for (size_t i = 0; i < n && o.budget > 0; ++i) {
                size_t k = f.below(kinds.size());
                v.c.push_back(kinds[k]);
                o.budget -= sizes[k];
            }
            if (v.c.empty() && before > 0)
                v.c.push_back(kinds[0]);
        } else {
            while (o.budget > 0 && src.more(v.c.size(), 2, 200))
                v.c.push_back(genValue(src, v.sig, o, depth + 1));
        }
        break;
    }
    default:
        throw std::logic_error("harness: genValue of " + sig);
    }
    return v;
}

// ------------------------------------------------------------ library types
using namespace DBus;
static double asDouble(uint64_t u)
{
    double d;
    memcpy(&d, &u, 8);
    return d;
}

// adds through the overload for the type of the value
template <class C> static void addTo(C& c, const Type::Generic& g)
{
#define ADD(T)                                       \
    if (auto p = boost::any_cast<Type::T>(&g)) {     \
        c.add(*p);                                   \
        return;                                      \
    }
    ADD(Byte)
    ADD(Boolean)
    ADD(Int16)
    ADD(Uint16)
    ADD(Int32)
    ADD(Uint32)
    ADD(Int64)
    ADD(Uint64)
    ADD(Double)
    ADD(String)
    ADD(ObjectPath)
    ADD(Signature)
    ADD(Variant)
    ADD(Struct)
    ADD(DictEntry)
#undef ADD
    throw std::logic_error("harness: the API has no such member");
}
Type::Generic build(const Val& v)
{
    switch (v.t) {
    case 'y':
        return Type::Byte(v.u);
    case 'b':
        return Type::Boolean(v.u ? v.truth : 0);
    case 'n':
        return Type::Int16(int16_t(v.u));
    case 'q':
        return Type::Uint16(uint16_t(v.u));
    case 'i':
        return Type::Int32(int32_t(v.u));
    case 'u':
        return Type::Uint32(uint32_t(v.u));
    case 'x':
        return Type::Int64(int64_t(v.u));
    case 't':
        return Type::Uint64(v.u);
    case 'd':
        return Type::Double(asDouble(v.u));
    case 's':
        return Type::String(v.s);
    case 'o':
        return Type::ObjectPath(v.s);
    case 'g':
        return Type::Signature(v.s);
    case 'v':
        switch (v.sig.at(0)) {
        case 'u':
            return Type::Variant(Type::Uint32(uint32_t(v.c[0].u)));
        case 's':
            return Type::Variant(Type::String(v.c[0].s));
        case 'o':
            return Type::Variant(Type::ObjectPath(v.c[0].s));
        case 'g':
            return Type::Variant(Type::Signature(v.c[0].s));
        }
        throw std::logic_error("harness: the API has no such variant");
    case '(': {
        Type::Struct s;
        for (auto& x : v.c)
            addTo(s, build(x));
        return s;
    }
    case '{':
        if (v.c[0].t == 's' && v.c[1].t == 'u' && v.c[1].u % 2)
            return Type::DictEntry(v.c[0].s, uint32_t(v.c[1].u)); // there are two more constructors
        if (v.c[0].t == 's' && v.c[1].t == 's' && v.c[1].s.size() % 2) {
            std::string text = v.c[1].s;
            return Type::DictEntry(v.c[0].s, text);
        }
        if (v.c[0].t == 's' && v.c[0].s.size() % 2) {
            Type::DictEntry e;
            e.set(build(v.c[0]), build(v.c[1]));
            return e;
        }
        return Type::DictEntry(build(v.c[0]), build(v.c[1]));
    case 'a': {
        Type::Array a;
        if (v.c.empty())
            a.setSignature("a" + v.sig);
        for (auto& x : v.c)
            addTo(a, build(x));
        return a;
    }
    }
    throw std::logic_error("harness: build");
}
Type::Generic decode(const Val& v, bool big)
{
    std::string e = encode(v, big);
    Type::Generic g = Type::create(v.signature());
    MessageIStream is((const uint8_t*)e.data(), e.size(), big);
    Type::unmarshallData(g, is);
    return g;
}
std::string marshal(const Type::Generic& g, size_t offset, std::string* prefix)
{
    MessageOStream os;
    for (size_t i = 0; i < offset; ++i)
        os.writeByte(uint8_t(0xA0 + i));
    Type::marshallData(g, os);
    if (prefix)
        *prefix = os.data.substr(0, offset);
    return os.data.substr(offset);
}

static std::string dec(uint64_t u) { return std::to_string(u); }
static std::string sdec(int64_t u) { return std::to_string(u); }

static void leaf(const Type::Generic& g, const std::type_info& ti, const std::string& text, const std::string& where)
{
    CHECK(g.type() == ti, where << ": value has another type (" << g.type().name() << " instead of " << ti.name() << ")");
    std::string s = Type::asString(g);
    CHECK(s == text, where << ": value is " << show(s, 200) << " instead of " << show(text, 200));
}
static void structure(const Type::Generic& g, const Val& v, const std::string& where)
{
    switch (v.t) {
    case 'y':
        return leaf(g, typeid(Type::Byte), dec(uint8_t(v.u)), where);
    case 'b':
        return leaf(g, typeid(Type::Boolean), dec(v.u), where);
    case 'n':
        return leaf(g, typeid(Type::Int16), sdec(int16_t(v.u)), where);
    case 'q':
        return leaf(g, typeid(Type::Uint16), dec(uint16_t(v.u)), where);
    case 'i':
        return leaf(g, typeid(Type::Int32), sdec(int32_t(v.u)), where);
    case 'u':
        return leaf(g, typeid(Type::Uint32), dec(uint32_t(v.u)), where);
    case 'x':
        return leaf(g, typeid(Type::Int64), sdec(int64_t(v.u)), where);
    case 't':
        return leaf(g, typeid(Type::Uint64), dec(v.u), where);
    case 'd': {
        CHECK(g.type() == typeid(Type::Double), where << ": value is not a double");
        // the text has six digits only: compare the bits
        MessageOStream os;
        boost::any_cast<const Type::Double&>(g).marshall(os);
        uint64_t u = 0;
        CHECK(os.data.size() == 8, where << ": double encodes to " << os.data.size() << " bytes");
        memcpy(&u, os.data.data(), 8);
        CHECK(u == v.u, where << ": double has bits " << std::hex << u << " instead of " << v.u);
        return;
    }
    case 's':
        return leaf(g, typeid(Type::String), v.s, where);
    case 'o':
        return leaf(g, typeid(Type::ObjectPath), v.s, where);
    case 'g':
        leaf(g, typeid(Type::Signature), v.s, where);
        CHECK(Type::refSignature(g).getValue() == v.s, where << ": signature value");
        return;
    case 'v':
        CHECK(g.type() == typeid(Type::Variant), where << ": value is not a variant");
        return structure(Type::refVariant(g).getValue(), v.c[0], where + ".v");
    case '(': {
        CHECK(g.type() == typeid(Type::Struct), where << ": value is not a struct");
        const Type::Struct& s = Type::refStruct(g);
        CHECK(s.getEntries() == v.c.size(), where << ": struct has " << s.getEntries() << " members instead of " << v.c.size());
        for (size_t i = 0; i < v.c.size(); ++i)
            structure(s[i], v.c[i], where + "." + std::to_string(i));
        return;
    }
    case 'a': {
        CHECK(g.type() == typeid(Type::Array), where << ": value is not an array");
        auto& c = Type::refArray(g).getContents();
        CHECK(c.size() == v.c.size(), where << ": array has " << c.size() << " elements instead of " << v.c.size());
        for (size_t i = 0; i < v.c.size(); ++i)
            structure(c[i], v.c[i], where + "[" + std::to_string(i) + "]");
        return;
    }
    case '{':
        CHECK(g.type() == typeid(Type::DictEntry), where << ": value is not a dict entry");
        return;
    }
}
static bool hasEntry(const Val& v)
{
    if (v.t == '{')
        return true;
    for (auto& x : v.c)
        if (hasEntry(x))
            return true;
    return false;
}
void checkGeneric(const Type::Generic& g, const Val& v, const std::string& where, bool exact)
{
    structure(g, v, where);
    // dict entries cannot be looked into except by encoding them
    if (exact || hasEntry(v)) {
        std::string a = marshal(g), b = encode(v);
        CHECK(a == b, where << ": value encodes to\n  " << hexdump(a) << "\ninstead of\n  " << hexdump(b));
    }
}

static void desc(const Val& v, std::string& r, size_t max)
{
    if (r.size() > max)
        return;
    switch (v.t) {
    case 'd':
        r += Cat() << "d:" << asDouble(v.u);
        break;
    case 's':
    case 'o':
    case 'g':
        r += v.t;
        r += show(v.s, 30);
        break;
    case 'v':
        r += "v<" + v.sig + ":";
        desc(v.c[0], r, max);
        r += ">";
        break;
    case '(':
    case '{':
    case 'a': {
        if (v.t == 'a')
            r += "a" + v.sig + "(" + std::to_string(v.c.size()) + ")[";
        else
            r += v.t;
        bool f = true;
        for (auto& x : v.c) {
            if (!f)
                r += ", ";
            f = false;
            desc(x, r, max);
            if (r.size() > max)
                break;
        }
        r += v.t == '(' ? ')' : v.t == '{' ? '}' : ']';
        break;
    }
    default:
        r += v.t;
        r += ':';
        r += v.t == 'n' ? sdec(int16_t(v.u)) : v.t == 'i' ? sdec(int32_t(v.u)) : v.t == 'x' ? sdec(int64_t(v.u)) : dec(v.u);
    }
}
std::string describe(const Val& v, size_t max)
{
    std::string r;
    desc(v, r, max);
    if (r.size() > max)
        r = r.substr(0, max) + "...";
    return r;
}
uint64_t hashVal(const Val& v) { return hcomb(hash_str(v.signature()), hash_str(encode(v))); }
size_t depthOf(const Val& v)
{
    size_t d = 0;
    for (auto& x : v.c)
        d = std::max(d, depthOf(x));
    return d + (v.t == 'v' || v.t == '(' || v.t == '{' || v.t == 'a');
}
} // namespace ref
