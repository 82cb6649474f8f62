// Values: C01-C05 (values), C25-C27, C31, C32
#include "../pbt/val.h"
#include <cmath>
#include <cstring>
#include <dbus_type.h>
#include <dbus_utils.h>
#include <map>
#include <memory>

using namespace pbt;
using namespace DBus;
using ref::Dec;
using ref::Enc;

static void quiet() { Log::setLevel(4); }
static int init = (on_worker_start(quiet), 0);

// an allocation of exactly the size of the data, so that ASan sees any read beyond it
struct Exact {
    std::unique_ptr<uint8_t[]> p;
    size_t n;
    explicit Exact(const std::string& s) : p(new uint8_t[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
};

static void labelVal(const Val& v)
{
    label("depth", 0);
    size_t d = ref::depthOf(v);
    label(d == 0 ? "basic" : d == 1 ? "depth 1" : d <= 3 ? "depth 2-3" : d <= 8 ? "depth 4-8" : "deeper");
    label(std::string("outermost ") + v.t);
}
static bool simple(const Val& v) { return ref::isBasic(v.t) && !v.u && v.s.empty(); }

// ------------------------------------------------------------------ C01
PROP(C01, "encode", 60000, 1500000, 20, 90, 0,
    "a stream of 1-4 values built through the public classes, encoded one after the other from a random offset and compared with the "
    "reference encoder byte for byte, with the signature; non-trivial: a container, or a non-zero value, not counted twice")
{
    size_t offset = src.weighted({ 2, 3, 1 }) == 1 ? src.below(17) : src.chance(1, 8) ? src.size(5000) : 0;
    MessageOStream os;
    std::string expect;
    Fill f(src.below(256));
    for (size_t i = 0; i < offset; ++i) {
        uint8_t b = 1 + f.below(255);
        os.writeByte(b);
        expect += char(b);
    }
    Enc enc;
    enc.out = expect;
    size_t n = 1 + (src.chance(1, 3) ? src.below(4) : 0);
    uint64_t key = offset;
    bool nt = false;
    for (size_t i = 0; i < n; ++i) {
        ref::TypeOpt to;
        to.api = true;
        ref::ValOpt vo;
        vo.type = to;
        vo.maybeLarge(src, 30, 1000);
        vo.truths = true;
        std::string sig = ref::genType(src, to, 0, src.chance(1, 10) ? 200 : 30);
        Val v = ref::genValue(src, sig, vo);
        NOTE("offset " << enc.out.size() << " " << sig << " = " << ref::describe(v));
        labelVal(v);
        Type::Generic g = ref::build(v);
        std::string s = Type::getMarshallingSignature(g);
        CHECK(s == sig, "signature is " << show(s, 255) << " instead of " << show(sig, 255));
        size_t before = enc.out.size();
        enc.val(v);
        Type::marshallData(g, os);
        CHECK(os.data == enc.out, "at offset " << before << ", " << sig << " is encoded as\n  " << hexdump(os.data.substr(std::min(before, os.data.size()))) << "\ninstead of\n  "
                                               << hexdump(enc.out.substr(before)) << "\nfor " << ref::describe(v));
        if (src.chance(1, 4)) { // encoding leaves the value as it was, and copies are equal
            Type::Generic copy = g;
            CHECK(ref::marshal(copy) == ref::encode(v), "a copy of the value is encoded differently");
            CHECK(Type::getMarshallingSignature(copy) == sig, "a copy of the value has signature " << Type::getMarshallingSignature(copy));
        }
        nt |= !simple(v);
        key = hcomb(key, ref::hashVal(v));
    }
    if (nt)
        nontrivial(key);
}

// the signature of a list of values is the concatenation
PROP(C01, "list", 10000, 200000, 20, 90, 0, "lists of 0-8 values built through the public classes; non-trivial: at least two values")
{
    std::vector<Type::Generic> l;
    std::string expect;
    uint64_t key = 0;
    while (src.more(l.size(), 3, 8)) {
        ref::TypeOpt to;
        to.api = true;
        ref::ValOpt vo;
        vo.type = to;
        vo.budget = 100;
        Val v = ref::genValue(src, ref::genType(src, to, 0, 20), vo);
        l.push_back(ref::build(v));
        expect += v.signature();
        key = hcomb(key, ref::hashVal(v));
    }
    std::string s = Type::getMarshallingSignature(l);
    NOTE("list of signature " << expect);
    CHECK(s == expect, "signature of the list is " << s << " instead of " << expect);
    if (l.size() > 1)
        nontrivial(key);
}

// ------------------------------------------------------------------ C02, C03
static std::string genAnyType(Src& src)
{
    ref::TypeOpt to;
    to.maxDepth = src.chance(1, 6) ? 20 : 6;
    return ref::genType(src, to, 0, src.chance(1, 10) ? 255 : src.chance(1, 3) ? 60 : 16);
}
static Val genAny(Src& src, const std::string& sig, long budget = 0)
{
    ref::ValOpt vo;
    if (budget)
        vo.budget = budget;
    else
        vo.maybeLarge(src, 40, 800);
    return ref::genValue(src, sig, vo);
}
static void skipBytes(MessageIStream& is, const std::string& junk)
{
    for (size_t i = 0; i < junk.size(); ++i) {
        uint8_t b = is.read();
        CHECK(b == uint8_t(junk[i]), "byte " << i << " before the value is read as " << int(b));
    }
}

PROP(C02, "decode", 50000, 1200000, 20, 90, 0,
    "1-4 values of random valid signatures, encoded by the reference encoder in either byte order from a random offset, followed by "
    "sentinel bytes; non-trivial: a container or a non-zero value, not counted twice")
{
    bool big = src.flip();
    std::string junk;
    Fill f(src.below(256));
    size_t offset = src.weighted({ 2, 3 }) ? src.below(17) : 0;
    while (junk.size() < offset)
        junk += char(f.below(256));
    Enc e(big);
    e.out = junk;
    std::vector<Val> vs;
    std::vector<std::string> sigs;
    size_t n = 1 + (src.chance(1, 3) ? src.below(4) : 0);
    bool nt = false;
    uint64_t key = hcomb(offset, big);
    for (size_t i = 0; i < n; ++i) {
        sigs.push_back(genAnyType(src));
        vs.push_back(genAny(src, sigs.back()));
        NOTE((big ? "big endian, offset " : "little endian, offset ") << e.out.size() << " " << sigs.back() << " = " << ref::describe(vs.back()));
        if (ref::depthOf(vs.back()) > 60)
            throw Discard();
        labelVal(vs.back());
        e.val(vs.back());
        nt |= !simple(vs.back());
        key = hcomb(key, ref::hashVal(vs.back()));
    }
    label(big ? "big endian" : "little endian");
    std::string sentinel;
    while (sentinel.size() < 9)
        sentinel += char(f.below(256));
    std::string data = e.out + sentinel;
    Exact buf(data);
    MessageIStream is(buf.p.get(), buf.n, big);
    skipBytes(is, junk);
    std::vector<Type::Generic> got;
    for (size_t i = 0; i < n; ++i) {
        got.push_back(Type::create(sigs[i]));
        Type::unmarshallData(got.back(), is);
    }
    for (size_t i = 0; i < sentinel.size(); ++i) {
        CHECK(!is.empty(), "more bytes were consumed than the values have");
        uint8_t b = is.read();
        CHECK(b == uint8_t(sentinel[i]), "the byte that follows the values is not read correctly: another number of bytes was consumed");
    }
    CHECK(is.empty(), "bytes are left");
    for (size_t i = 0; i < n; ++i)
        ref::checkGeneric(got[i], vs[i], "value " + std::to_string(i) + " (" + sigs[i] + ")", false);
    if (nt)
        nontrivial(key);
}

PROP(C03, "reencode", 50000, 1200000, 20, 90, 0,
    "values of random valid signatures decoded from either byte order and encoded again, at random offsets; non-trivial: a container")
{
    bool big = src.flip();
    std::string sig = genAnyType(src);
    Val v = genAny(src, sig);
    if (ref::depthOf(v) > 60)
        throw Discard();
    NOTE((big ? "big endian " : "little endian ") << sig << " = " << ref::describe(v));
    labelVal(v);
    std::string e = ref::encode(v, big);
    Exact buf(e);
    Type::Generic g = Type::create(sig);
    MessageIStream is(buf.p.get(), buf.n, big);
    Type::unmarshallData(g, is);
    std::string s = Type::getMarshallingSignature(g);
    CHECK(s == sig, "decoded value reports signature " << show(s, 255) << " instead of " << show(sig, 255));
    size_t offset = src.flip() ? src.below(16) : 0;
    auto compare = [&](const Type::Generic& x, size_t off, const char* what) {
        std::string a = ref::marshal(x, off), b = ref::encode(v, false, off);
        CHECK(a == b, what << " encodes at offset " << off << " to\n  " << hexdump(a) << "\ninstead of\n  " << hexdump(b) << "\nfor " << sig << " = " << ref::describe(v));
    };
    compare(g, offset, "decoded value");
    if (src.chance(1, 3)) {
        Type::Generic copy = g;
        compare(copy, 0, "copy of the decoded value");
        CHECK(Type::getMarshallingSignature(copy) == sig, "copy of the decoded value reports another signature");
    }
    if (src.chance(1, 3)) { // and once more around
        std::string again = ref::marshal(g);
        Type::Generic h = Type::create(sig);
        MessageIStream is2((const uint8_t*)again.data(), again.size(), false);
        Type::unmarshallData(h, is2);
        CHECK(is2.empty(), "bytes left after decoding what was encoded");
        compare(h, offset, "value decoded twice");
    }
    if (!ref::isBasic(v.t))
        nontrivial(hcomb(ref::hashVal(v), hcomb(big, offset)));
}

// ------------------------------------------------------------------ C04
// Does decoding fail? Any result but a std::exception is reported.
static bool decodeFails(const std::string& data, size_t skip, const std::vector<std::string>& sigs, bool big, std::string* what = nullptr)
{
    Exact buf(data);
    MessageIStream is(buf.p.get(), buf.n, big);
    try {
        for (size_t i = 0; i < skip; ++i)
            is.read();
        for (auto& s : sigs) {
            Type::Generic g = Type::create(s);
            Type::unmarshallData(g, is);
        }
    } catch (const std::exception& e) {
        if (what)
            *what = e.what();
        return true;
    }
    return false;
}
PROP(C04, "truncated", 10000, 250000, 20, 90, 0,
    "encodings of 1-3 values; every cut point for encodings up to 220 bytes, 40 cut points otherwise, and every length field raised "
    "beyond what remains, in either byte order and from random offsets; non-trivial: at least one cut or inflated length")
{
    bool big = src.flip();
    size_t skip = src.chance(1, 2) ? src.below(9) : 0;
    Enc e(big);
    e.out.assign(skip, '\x55');
    std::vector<std::string> sigs;
    size_t n = 1 + src.weighted({ 5, 1, 1 });
    std::string desc;
    uint64_t key = skip;
    for (size_t i = 0; i < n; ++i) {
        sigs.push_back(genAnyType(src));
        Val v = genAny(src, sigs.back(), src.chance(1, 12) ? 2000 : 80);
        if (ref::depthOf(v) > 60)
            throw Discard();
        desc += sigs.back() + " = " + ref::describe(v) + "; ";
        key = hcomb(key, ref::hashVal(v));
        e.val(v);
    }
    NOTE((big ? "big endian, offset " : "little endian, offset ") << skip << " " << desc);
    const std::string& d = e.out;
    std::string err;
    CHECK(!decodeFails(d, skip, sigs, big, &err), "the complete encoding is refused (" << err << "): " << desc);
    size_t cuts = d.size() - skip;
    if (cuts <= 220) {
        for (size_t len = skip; len < d.size(); ++len)
            CHECK(decodeFails(d.substr(0, len), skip, sigs, big), "only " << len - skip << " of " << cuts << " bytes are enough for " << desc);
        label("cuts", cuts);
    } else {
        for (int i = 0; i < 40; ++i) {
            size_t len = i < 10 ? d.size() - 1 - i : skip + src.below(cuts);
            CHECK(decodeFails(d.substr(0, len), skip, sigs, big), "only " << len - skip << " of " << cuts << " bytes are enough for " << desc);
        }
        label("cuts", 40);
    }
    size_t stepFrom = 0, step = 1;
    if (e.lens.size() > 60) {
        step = e.lens.size() / 30;
        stepFrom = src.below(step);
    }
    for (size_t i = stepFrom; i < e.lens.size(); i += step) {
        auto& l = e.lens[i];
        const uint64_t remain = d.size() - l.start; // what could be content, and the NUL
        const uint64_t max = l.width == 1 ? 255 : 0xffffffffull;
        const uint64_t least = remain - l.extra + 1; // smallest length that does not fit
        for (uint64_t len : { least, least + 1, least + src.below(100), uint64_t(0x7fffffff), uint64_t(0x80000000), uint64_t(0xfffffffe), uint64_t(0xffffffff), uint64_t(255),
                 uint64_t(0x0100 + l.len), uint64_t(1) << 16 | l.len, uint64_t(1) << 26 }) {
            if (len < least || len > max)
                continue;
            Enc bad(big);
            bad.out = d;
            bad.put(l.pos, len, l.width);
            label("inflated lengths");
            CHECK(decodeFails(bad.out, skip, sigs, big), "the length at " << l.pos << " raised from " << l.len << " to " << len << " (" << remain << " bytes remain) is accepted in " << desc);
        }
    }
    nontrivial(key);
}

// ------------------------------------------------------------------ C05 (values)
static const char SigChars[] = "ybnqiuxtdsogv(){}ah";
static std::string mutateSig(Src& src, std::string s)
{
    size_t n = 1 + src.below(3);
    while (n--) {
        size_t i = s.empty() ? 0 : src.below(s.size() + 1);
        char c = src.chance(1, 6) ? char(src.byte()) : SigChars[src.below(19)];
        switch (src.below(5)) {
        case 0:
            s.insert(i, 1, c);
            break;
        case 1:
            if (i < s.size())
                s.erase(i, 1);
            break;
        case 2:
            if (i < s.size())
                s[i] = c;
            break;
        case 3:
            s = s.substr(0, i);
            break;
        default:
            s += s.substr(i);
        }
    }
    if (s.size() > 300)
        s.resize(300);
    return s;
}
static std::string hostileSig(Src& src)
{
    switch (src.weighted({ 4, 4, 2, 1 })) {
    case 0:
        return genAnyType(src);
    case 1:
        return mutateSig(src, genAnyType(src));
    case 2: {
        std::string r;
        while (src.more(r.size(), 5, 60))
            r += SigChars[src.below(19)];
        return r;
    }
    default: {
        std::string r;
        char c = SigChars[src.below(19)];
        r.assign(src.size(300), c);
        if (src.flip())
            r += SigChars[src.below(19)];
        return r;
    }
    }
}
static void mutateBytes(Src& src, std::string& d, const std::vector<ref::LenField>& lens, bool big)
{
    size_t n = src.below(5);
    while (n--) {
        if (d.empty()) {
            d += char(src.byte());
            continue;
        }
        size_t i = src.below(d.size());
        switch (src.below(6)) {
        case 0:
            d[i] = src.byte();
            break;
        case 1:
            d.erase(i, 1 + src.below(8));
            break;
        case 2:
            d.insert(i, 1 + src.below(8), char(src.byte()));
            break;
        case 3:
            d.resize(i);
            break;
        case 4:
            d[i] = SigChars[src.below(19)];
            break;
        default:
            if (!lens.empty()) {
                auto& l = lens[src.below(lens.size())];
                uint64_t v = src.interesting(32);
                for (unsigned k = 0; k < l.width; ++k)
                    if (l.pos + k < d.size())
                        d[l.pos + k] = char(uint8_t(v >> (8 * (big ? l.width - 1 - k : k))));
            }
        }
    }
}
// everything an application can do with a value it received
static void useAll(const Type::Generic& g)
{
    auto attempt = [](auto f) {
        try {
            f();
        } catch (const std::exception&) {
        }
    };
    attempt([&] { Type::asString(g); });
    attempt([&] { Type::toString(g); });
    attempt([&] { Type::getMarshallingSignature(g); });
    attempt([&] { Type::asByte(g); });
    attempt([&] { Type::asUint32(g); });
    attempt([&] {
        MessageOStream os;
        Type::marshallData(g, os);
    });
}

PROP(C05, "values", 80000, 2000000, 20, 90, 0,
    "arbitrary, mutated and valid signatures decoded from arbitrary bytes and mutated encodings; non-trivial: something was decoded or "
    "refused with a non-empty signature and data")
{
    std::string sig = hostileSig(src);
    bool big = src.flip();
    std::string data;
    Enc e(big);
    if (src.chance(2, 3)) {
        // encoding of a value of a similar signature
        std::string good = ref::validSignature(sig) && !sig.empty() && sig.find('h') == std::string::npos ? ref::split(sig)[0] : genAnyType(src);
        Val v = genAny(src, good, 200);
        e.val(v);
        data = e.out;
        mutateBytes(src, data, e.lens, big);
    } else {
        while (src.more(data.size(), 40, 1000))
            data += src.chance(1, 3) ? char(0) : char(src.byte());
    }
    NOTE("signature " << show(sig, 100) << " data " << hexdump(data, 100));
    Exact buf(data);
    MessageIStream is(buf.p.get(), buf.n, big);
    bool ok = false;
    try {
        Type::Generic g = Type::create(sig);
        try {
            Type::unmarshallData(g, is);
            ok = true;
        } catch (const std::exception&) {
        }
        useAll(g);
    } catch (const std::exception&) {
    }
    label(ok ? "decoded" : "refused");
    if (!sig.empty() && !data.empty())
        nontrivial(hcomb(hash_str(sig), hash_str(data)));
}

// ------------------------------------------------------------------ C25
static std::string charsOf(const Val& v) { return v.s; }
static void collectText(const Val& v, std::vector<std::string>& out)
{
    if (v.t == 's' || v.t == 'o' || v.t == 'g')
        out.push_back(charsOf(v));
    for (auto& x : v.c)
        collectText(x, out);
}
// the decimal text of an integer, or nothing
static std::string decimalOf(const Val& v)
{
    switch (v.t) {
    case 'y':
        return std::to_string(uint8_t(v.u));
    case 'q':
        return std::to_string(uint16_t(v.u));
    case 'u':
        return std::to_string(uint32_t(v.u));
    case 't':
        return std::to_string(v.u);
    case 'n':
        return std::to_string(int16_t(v.u));
    case 'i':
        return std::to_string(int32_t(v.u));
    case 'x':
        return std::to_string(int64_t(v.u));
    }
    return "";
}
static void collectNumbers(const Val& v, std::vector<std::string>& out)
{
    std::string s = decimalOf(v);
    if (!s.empty())
        out.push_back(s);
    for (auto& x : v.c)
        collectNumbers(x, out);
}
// what the descriptive dump of a number says
static void checkNumberDump(const Type::Generic& g, const Val& v)
{
    const std::string d = Type::toString(g);
    std::string low;
    for (unsigned char c : d)
        low += tolower(c);
    if (v.t == 'b') {
        const bool t = low.find("true") != std::string::npos, f = low.find("false") != std::string::npos;
        CHECK(t == (v.u != 0) && f == !v.u, "the dump of boolean " << v.u << " is " << show(d));
        return;
    }
    if (v.t == 'd') {
        double x;
        memcpy(&x, &v.u, 8);
        if (!std::isfinite(x) || std::fabs(x) > 1.7e308 || std::fabs(x) < 1e-300)
            return;
        bool found = false;
        for (size_t i = 0; i < d.size() && !found; ++i) {
            char* end;
            const double y = strtod(d.c_str() + i, &end);
            found = end != d.c_str() + i && std::fabs(x - y) <= std::fabs(x) * 1e-5;
        }
        CHECK(found, "the dump of " << x << " is " << show(d));
        return;
    }
    const std::string n = decimalOf(v);
    if (n.empty())
        return;
    bool found = false;
    for (size_t at = d.find(n); at != std::string::npos && !found; at = d.find(n, at + 1))
        found = (!at || (!isalnum((unsigned char)d[at - 1]) && d[at - 1] != '-')) && (at + n.size() >= d.size() || !isalnum((unsigned char)d[at + n.size()]));
    CHECK(found, "the dump of " << v.t << " " << n << " is " << show(d));
    const size_t hex = d.find("0x");
    if (hex != std::string::npos) {
        const size_t bits = v.t == 'y' ? 8 : v.t == 'n' || v.t == 'q' ? 16 : v.t == 'i' || v.t == 'u' ? 32 : 64;
        const uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
        CHECK(strtoull(d.c_str() + hex, nullptr, 16) == (v.u & mask), "the dump of " << v.t << " " << n << " is " << show(d));
    }
}
static void checkAccessors(const Type::Generic& g, const Val& v)
{
    checkNumberDump(g, v);
    std::string s;
    switch (v.t) {
    case 'y':
        s = std::to_string(uint8_t(v.u));
        CHECK(Type::asByte(g) == uint8_t(v.u), "asByte of " << v.u << " is " << int(Type::asByte(g)));
        CHECK(Type::asUint32(g) == uint8_t(v.u), "asUint32 of byte " << v.u << " is " << Type::asUint32(g));
        break;
    case 'u':
        s = std::to_string(uint32_t(v.u));
        CHECK(Type::asUint32(g) == uint32_t(v.u), "asUint32 of " << v.u << " is " << Type::asUint32(g));
        break;
    case 'q':
        s = std::to_string(uint16_t(v.u));
        CHECK(Type::asUint32(g) == uint16_t(v.u), "asUint32 of uint16 " << v.u << " is " << Type::asUint32(g));
        break;
    case 'b':
        s = v.u ? "1" : "0";
        break;
    case 'n':
        s = std::to_string(int16_t(v.u));
        break;
    case 'i':
        s = std::to_string(int32_t(v.u));
        break;
    case 'x':
        s = std::to_string(int64_t(v.u));
        break;
    case 't':
        s = std::to_string(v.u);
        break;
    case 'd': {
        double d, back;
        memcpy(&d, &v.u, 8);
        std::string t = Type::asString(g);
        char* end;
        back = strtod(t.c_str(), &end);
        CHECK(!t.empty() && !*end, "double " << d << " has text " << show(t));
        if (std::isnan(d))
            CHECK(std::isnan(back), "NaN has text " << show(t));
        else if (std::isinf(d) || d == 0)
            CHECK(back == d, "double " << d << " has text " << show(t));
        else
            // %f-like texts are exact to 1e-6 absolute, %g-like ones to six digits
            CHECK(std::fabs(back - d) <= std::fabs(d) * 1e-5 || std::fabs(d) > 1.7e308 || std::fabs(d) < 1e-300, "double " << d << " has text " << show(t));
        return;
    }
    case 's':
    case 'o':
    case 'g':
        s = v.s;
        break;
    case 'v':
        if (ref::isBasic(v.c[0].t) && v.c[0].t != 'd')
            checkAccessors(Type::refVariant(g).getValue(), v.c[0]);
        if (strchr("sog", v.c[0].t)) {
            s = v.c[0].s;
            break;
        }
        return;
    default:
        return;
    }
    std::string t = Type::asString(g);
    CHECK(t == s, v.t << " has text " << show(t, 200) << " instead of " << show(s, 200));
}
PROP(C25, "basic", 60000, 1500000, 20, 90, 0, "basic values and variants of them, built through the classes or decoded; non-trivial: not zero and not empty")
{
    ref::ValOpt vo;
    vo.maxText = src.chance(1, 20) ? 70000 : 300;
    vo.budget = 100000;
    bool variant = src.chance(1, 4), built = src.flip();
    char code = variant && built ? src.oneof<char>({ 's', 'o', 'g', 'u' }) : ref::genBasicCode(src);
    Val v = ref::genBasic(src, code, vo);
    if (variant) {
        Val w;
        w.t = 'v';
        w.sig = std::string(1, v.t);
        w.c.push_back(v);
        v = w;
    }
    NOTE((built ? "built " : "decoded ") << ref::describe(v));
    label(v.signature());
    Type::Generic g = built ? ref::build(v) : ref::decode(v, src.flip());
    checkAccessors(g, v);
    if (!simple(v) && !(v.t == 'v' && simple(v.c[0])))
        nontrivial(hcomb(ref::hashVal(v), built));
}
PROP(C25, "dump", 20000, 500000, 20, 90, 0, "the descriptive dump of built and decoded values must contain every text and every integer in them; non-trivial: a container with a text")
{
    bool built = src.flip();
    ref::TypeOpt to;
    to.api = built;
    ref::ValOpt vo;
    vo.type = to;
    vo.budget = src.chance(1, 20) ? 10000 : 500;
    vo.maxText = vo.budget / 2;
    std::string sig = ref::genType(src, to, 0, src.chance(1, 6) ? 255 : 25);
    Val v = ref::genValue(src, sig, vo);
    if (ref::depthOf(v) > 60)
        throw Discard();
    NOTE((built ? "built " : "decoded ") << sig << " = " << ref::describe(v));
    Type::Generic g = built ? ref::build(v) : ref::decode(v, src.flip());
    std::string prefix = src.chance(1, 3) ? "> " : "";
    std::string d = Type::toString(g, prefix);
    // each as often as it is in the value
    std::vector<std::string> texts, numbers;
    collectText(v, texts);
    collectNumbers(v, numbers);
    auto check = [&](const std::vector<std::string>& all) {
        std::map<std::string, size_t> times;
        for (auto& t : all)
            if (!t.empty())
                ++times[t];
        for (auto& t : times) {
            size_t n = 0;
            for (size_t at = 0; n < t.second && (at = d.find(t.first, at)) != std::string::npos; at += t.first.size())
                ++n;
            CHECK(n == t.second, "the dump contains " << show(t.first, 200) << " " << n << " instead of " << t.second << " times:\n" << d.substr(0, 2000));
        }
    };
    check(texts);
    check(numbers);
    Type::asString(g);
    if (!ref::isBasic(v.t) && !texts.empty())
        nontrivial(hcomb(ref::hashVal(v), built));
}

// ------------------------------------------------------------------ C26
PROP(C26, "hex", 50000, 1000000, 20, 90, 0, "byte strings of length 0-5000 (1/300: up to 200000), all contents; non-trivial: not empty")
{
    std::string in;
    size_t n = src.chance(1, 300) ? src.below(200000) : src.size(src.chance(1, 10) ? 5000 : 100);
    if (n < 20)
        for (size_t i = 0; i < n; ++i)
            in += char(src.byte());
    else {
        Fill f(src.raw(2));
        for (size_t i = 0; i < n; ++i)
            in += char(f.below(256));
    }
    std::string before = src.flip() ? "" : ref::genText(src, 10);
    std::string hex = before;
    NOTE("bytes " << hexdump(in, 60));
    Utils::ConvertBinaryToHexString(hex, in);
    static const char d[] = "0123456789abcdef";
    std::string want = before;
    for (unsigned char c : in) {
        want += d[c >> 4];
        want += d[c & 15];
    }
    CHECK(hex == want, "hex text is " << show(hex, 200) << " instead of " << show(want, 200));
    std::string text = want.substr(before.size());
    unsigned mode = src.below(3);
    if (mode)
        for (size_t i = 0; i < text.size(); ++i)
            if (mode == 1 || src.chance(1, 2))
                text[i] = toupper(text[i]);
    std::string back = before;
    Utils::ConvertHexStringToBinary(back, text);
    CHECK(back == before + in, "hex " << show(text, 200) << " becomes " << hexdump(back) << " instead of " << hexdump(before + in));
    label(mode == 0 ? "lower case" : mode == 1 ? "upper case" : "mixed case");
    if (n)
        nontrivial(hash_str(in));
}
PROP(C26, "padding", 50000, 500000, 20, 90, 0, "sizes up to 2^63 and alignments 1 to 4096; non-trivial: size is not a multiple of the alignment")
{
    uint64_t size = src.interesting(63), a = src.weighted({ 3, 1 }) ? 1 + src.below(4096) : 1ull << src.below(8);
    NOTE("size " << size << " alignment " << a);
    uint64_t p = Utils::getPadding(a, size);
    CHECK(p < a && (size + p) % a == 0, "padding of " << size << " to " << a << " is " << p);
    CHECK(Utils::isAlignedTo(a, size) == (p == 0), "isAlignedTo(" << a << ", " << size << ") is wrong");
    CHECK(Utils::isAlignedTo8(size) == (size % 8 == 0), "isAlignedTo8(" << size << ") is wrong");
    CHECK(Utils::getPadding(0, size) == 0, "padding to 0 is not 0");
    if (p)
        nontrivial(hcomb(size, a));
}

// ------------------------------------------------------------------ C27
static std::string genBytes(Src& src, size_t max)
{
    size_t n = src.size(max);
    std::string r;
    if (n <= 24)
        while (r.size() < n)
            r += char(src.byte());
    else {
        Fill f(src.raw(2));
        while (r.size() < n)
            r += char(f.below(256));
    }
    return r;
}
static std::string someBytes(Src& src)
{
    if (!src.chance(1, 300))
        return genBytes(src, 200);
    std::string r;
    Fill f(src.raw(2));
    for (size_t n = src.below(150000); n--;)
        r += char(f.below(256));
    return r;
}
PROP(C27, "buffer", 50000, 1000000, 20, 90, 0, "1-30 operations on an input buffer of 0-200 (1/300: up to 150000) bytes against a string; non-trivial: an operation past the end, or a removed prefix")
{
    std::string model = someBytes(src);
    Exact buf(model);
    OctetBuffer b(buf.p.get(), buf.n);
    NOTE("buffer " << hexdump(model, 60));
    size_t n = 1 + src.below(30);
    uint64_t key = hash_str(model);
    bool nt = false;
    auto arg = [&]() -> size_t {
        switch (src.weighted({ 3, 2, 2, 1 })) {
        case 0:
            return src.below(model.size() + 1);
        case 1:
            return model.size();
        case 2:
            return model.size() + 1 + src.below(3);
        default:
            return src.interesting(64);
        }
    };
    for (size_t i = 0; i < n; ++i) {
        CHECK(b.size() == model.size(), "size is " << b.size() << " instead of " << model.size());
        CHECK(b.empty() == model.empty(), "empty() is wrong");
        CHECK(model.empty() || !memcmp(b.data(), model.data(), model.size()), "data() differs");
        size_t k = arg();
        bool threw = false;
        switch (src.below(5)) {
        case 0:
            NOTE("remove_prefix " << k);
            if (k <= model.size() && src.chance(2, 3))
                k = std::min<size_t>(k, 3);
            try {
                b.remove_prefix(k);
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (k > model.size()), "remove_prefix(" << k << ") of " << model.size() << (threw ? " throws" : " does not throw"));
            if (!threw)
                model.erase(0, k);
            nt = true;
            break;
        case 1: {
            NOTE("copy " << k);
            std::unique_ptr<uint8_t[]> out(new uint8_t[std::min<size_t>(k, model.size())]);
            try {
                b.copy(out.get(), k);
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (k > model.size()), "copy of " << k << " out of " << model.size() << (threw ? " throws" : " does not throw"));
            if (!threw && k)
                CHECK(!memcmp(out.get(), model.data(), k), "copied bytes differ");
            break;
        }
        case 2: {
            NOTE("index " << k);
            uint8_t v = 0;
            try {
                v = b[k];
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (k >= model.size()), "index " << k << " of " << model.size() << (threw ? " throws" : " does not throw"));
            if (!threw)
                CHECK(v == uint8_t(model[k]), "byte " << k << " is " << int(v));
            break;
        }
        default: {
            uint8_t v = model.empty() || src.flip() ? src.byte() : uint8_t(model[src.below(model.size())]);
            NOTE("find " << int(v));
            CHECK(b.find(v) == model.find(char(v)), "find(" << int(v) << ") is " << b.find(v) << " instead of " << model.find(char(v)));
        }
        }
        nt |= threw;
        key = hcomb(key, hcomb(k, threw));
    }
    if (nt)
        nontrivial(key);
}
template <class T> static void readNum(MessageIStream& is, const std::string& model, size_t& pos, bool big, bool& dead)
{
    T v = 0;
    size_t at = (pos + sizeof(T) - 1) / sizeof(T) * sizeof(T);
    bool fits = at + sizeof(T) <= model.size(), threw = false;
    try {
        is.read(&v);
    } catch (const std::exception&) {
        threw = true;
    }
    CHECK(threw == !fits, "reading " << sizeof(T) << " bytes at " << pos << " of " << model.size() << (threw ? " throws" : " does not throw"));
    if (threw) {
        dead = true;
        return;
    }
    uint64_t want = 0, got = 0;
    for (size_t i = 0; i < sizeof(T); ++i)
        want |= uint64_t(uint8_t(model[at + (big ? sizeof(T) - 1 - i : i)])) << (8 * i);
    memcpy(&got, &v, sizeof(T));
    CHECK(got == want, "number of " << sizeof(T) << " bytes at " << at << " is " << std::hex << got << " instead of " << want);
    pos = at + sizeof(T);
}
PROP(C27, "istream", 50000, 1000000, 20, 90, 0,
    "1-40 aligned reads of every width, strings and sub-streams from 0-200 (1/300: up to 150000) bytes in either byte order against an index model; "
    "non-trivial: at least two reads")
{
    std::string data = someBytes(src);
    bool big = src.flip();
    Exact buf(data);
    MessageIStream top(buf.p.get(), buf.n, big);
    MessageIStream* is = &top;
    std::unique_ptr<MessageIStream> sub;
    std::string model = data; // what the current stream may read, as a prefix of the data
    size_t pos = 0, topPos = 0;
    bool dead = false;
    size_t n = 1 + src.below(40);
    uint64_t key = hcomb(hash_str(data), big), reads = 0;
    NOTE((big ? "swapped " : "native ") << hexdump(data, 60));
    for (size_t i = 0; i < n && !dead; ++i) {
        CHECK(is->empty() == (pos >= model.size()), "empty() is wrong at " << pos << " of " << model.size());
        ++reads;
        size_t op = src.below(10);
        NOTE("op " << op << " at " << pos);
        key = hcomb(key, op);
        switch (op) {
        case 0: {
            bool threw = false;
            uint8_t b = 0;
            try {
                b = is->read();
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (pos >= model.size()), "reading a byte at " << pos << " of " << model.size() << (threw ? " throws" : " does not throw"));
            if (threw)
                dead = true;
            else {
                CHECK(b == uint8_t(model[pos]), "byte at " << pos << " is " << int(b));
                ++pos;
            }
            break;
        }
        case 1:
            readNum<uint16_t>(*is, model, pos, big, dead);
            break;
        case 2:
            readNum<uint32_t>(*is, model, pos, big, dead);
            break;
        case 3:
            readNum<uint64_t>(*is, model, pos, big, dead);
            break;
        case 4:
            readNum<double>(*is, model, pos, big, dead);
            break;
        case 5:
            readNum<int16_t>(*is, model, pos, big, dead);
            break;
        case 6:
            if (src.flip())
                readNum<int32_t>(*is, model, pos, big, dead);
            else
                readNum<int64_t>(*is, model, pos, big, dead);
            break;
        case 7: {
            size_t k = src.chance(1, 5) ? src.interesting(64) : src.below(model.size() - std::min(pos, model.size()) + 3);
            bool threw = false;
            std::string s = "x";
            try {
                is->read(s, k);
            } catch (const std::exception&) {
                threw = true;
            }
            bool fits = k <= model.size() - pos;
            CHECK(threw == !fits, "reading a string of " << k << " at " << pos << " of " << model.size() << (threw ? " throws" : " does not throw"));
            if (threw)
                dead = true;
            else {
                CHECK(s == model.substr(pos, k), "string at " << pos << " is " << show(s));
                pos += k;
            }
            break;
        }
        case 8: {
            size_t a = size_t(1) << src.below(4), at = (pos + a - 1) / a * a;
            bool threw = false;
            try {
                is->align(a);
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (at > model.size()), "aligning to " << a << " at " << pos << " of " << model.size() << (threw ? " throws" : " does not throw"));
            if (threw)
                dead = true;
            else
                pos = at;
            break;
        }
        default:
            if (!sub) { // a part of the stream; both keep their alignment
                size_t k = src.below(model.size() - pos + 1);
                if (src.chance(1, 6)) {
                    k = model.size() - pos + 1 + (src.flip() ? 0 : src.interesting(40));
                    bool threw = false;
                    try {
                        MessageIStream s(*is, k);
                        uint8_t b;
                        while (!s.empty())
                            b = s.read();
                        (void)b;
                    } catch (const std::exception&) {
                        threw = true;
                    }
                    CHECK(threw, "a part of " << k << " bytes at " << pos << " of " << model.size() << " is accepted");
                    dead = true;
                    break;
                }
                sub.reset(new MessageIStream(top, k));
                topPos = pos + k;
                model = data.substr(0, pos + k);
                is = sub.get();
            } else {
                sub.reset();
                is = &top;
                model = data;
                pos = topPos;
            }
        }
    }
    if (dead) {
        label("past the end");
        // whatever is asked now must not touch memory outside
        for (int i = 0; i < 3; ++i)
            try {
                uint64_t v;
                is->read(&v);
            } catch (const std::exception&) {
            }
    }
    if (reads > 1)
        nontrivial(key);
}
PROP(C27, "ostream", 30000, 600000, 20, 90, 0, "1-30 write operations against a reference encoder; non-trivial: at least two writes")
{
    MessageOStream os;
    Enc e;
    size_t n = 1 + src.below(30);
    uint64_t key = 0;
    for (size_t i = 0; i < n; ++i) {
        uint64_t v = src.interesting(64);
        size_t op = src.below(14);
        key = hcomb(key, hcomb(op, v));
        NOTE("op " << op << " value " << v << " at " << os.size());
        switch (op) {
        case 0:
            os.writeByte(v);
            e.num(v & 0xff, 1);
            break;
        case 1:
            os.writeBoolean(v & 1);
            e.num(v & 1, 4);
            break;
        case 2:
            os.writeInt16(v);
            e.num(v & 0xffff, 2);
            break;
        case 3:
            os.writeUint16(v);
            e.num(v & 0xffff, 2);
            break;
        case 4:
            os.writeInt32(v);
            e.num(v & 0xffffffff, 4);
            break;
        case 5:
            os.writeUint32(v);
            e.num(v & 0xffffffff, 4);
            break;
        case 6:
            os.writeInt64(v);
            e.num(v, 8);
            break;
        case 7:
            os.writeUint64(v);
            e.num(v, 8);
            break;
        case 8: {
            double d;
            memcpy(&d, &v, 8);
            os.writeDouble(d);
            e.num(v, 8);
            break;
        }
        case 9: {
            std::string s = src.chance(1, 500) ? std::string(src.below(200000), 'x') : ref::genText(src, 300);
            os.writeString(s);
            e.str(s);
            break;
        }
        case 10: {
            std::string s = ref::genText(src, 255);
            os.writeSignature(s);
            e.signature(s);
            break;
        }
        case 11: {
            std::string s = src.chance(1, 5) ? someBytes(src) : genBytes(src, 100);
            os.write(s);
            e.out += s;
            break;
        }
        case 12: {
            std::string s = genBytes(src, 100);
            MessageOStream o2;
            o2.data = s;
            os.write(o2);
            e.out += s;
            break;
        }
        default: {
            size_t a = size_t(1) << src.below(4);
            switch (a) {
            case 1:
                os.pad(1);
                break;
            case 2:
                os.pad2();
                break;
            case 4:
                os.pad4();
                break;
            default:
                os.pad8();
            }
            e.pad(a);
        }
        }
        CHECK(os.size() == os.data.size(), "size() is wrong");
        CHECK(os.data == e.out, "after operation " << op << " the stream is\n  " << hexdump(os.data) << "\ninstead of\n  " << hexdump(e.out));
    }
    if (n > 1)
        nontrivial(key);
}

// ------------------------------------------------------------------ C31
PROP(C31, "split", 60000, 1000000, 20, 90, 0, "valid signatures of up to 255 bytes; non-trivial: two or more types, or a container")
{
    ref::TypeOpt to;
    to.maxDepth = src.chance(1, 5) ? 25 : 6;
    std::string sig = ref::genSignature(src, to, src.chance(1, 4) ? 255 : 30, 40);
    std::vector<std::string> want = ref::split(sig);
    NOTE("signature " << sig);
    std::string left = sig;
    size_t i = 0;
    for (auto& w : want) {
        std::string a = Type::extractSignature(sig, i);
        CHECK(a == w, "the type at " << i << " of " << sig << " is " << a << " instead of " << w);
        i += w.size();
    }
    if (want.size() > 1 || (want.size() == 1 && want[0].size() > 1))
        nontrivial(hash_str(sig));
}
// Some bytes that decode as anything: zeros never name a type or end too early
static std::string encodeLike(Src& src, const std::string& sig)
{
    // encode what can be encoded of a valid prefix type, then zeros
    std::string r;
    if (src.flip()) {
        Enc e;
        for (size_t i = 0; i < sig.size(); ++i)
            switch (sig[i]) {
            case 'v':
                e.signature("y");
                e.num(src.byte(), 1);
                break;
            case 'a': {
                e.num(src.flip() ? 0 : 8 * (1 + src.below(3)), 4);
                break;
            }
            case '(':
            case '{':
                e.pad(8);
                break;
            case 's':
            case 'o':
                e.str("ab");
                break;
            case 'g':
                e.signature("u");
                break;
            default:
                if (ref::isBasic(sig[i]))
                    e.num(1, ref::alignOf(sig[i]));
            }
        r = e.out;
    }
    r.append(600, '\0');
    return r;
}
// spec-valid but for tolerated things: 'h', dict entries outside arrays, and depths between 32 and 64
static bool malformed(const std::string& sig)
{
    // a lenient reading: is there any way in which the library may accept it?
    struct P {
        const std::string& s;
        size_t end(size_t i, int d)
        {
            const size_t npos = std::string::npos;
            if (i >= s.size() || d > 200)
                return npos;
            char c = s[i];
            if (ref::isBasic(c) || c == 'v')
                return i + 1;
            if (c == 'a')
                return end(i + 1, d + 1);
            if (c == '(') {
                ++i;
                if (i < s.size() && s[i] == ')')
                    return npos;
                while (i < s.size() && s[i] != ')') {
                    i = end(i, d + 1);
                    if (i == npos)
                        return npos;
                }
                return i < s.size() ? i + 1 : npos;
            }
            if (c == '{') {
                ++i;
                if (i >= s.size() || !ref::isBasic(s[i]))
                    return npos;
                i = end(i + 1, d + 1);
                return i != npos && i < s.size() && s[i] == '}' ? i + 1 : npos;
            }
            return npos;
        }
    } p { sig };
    return p.end(0, 0) != sig.size();
}
PROP(C31, "malformed", 60000, 1000000, 20, 90, 0,
    "signatures with one to three random edits that no longer are one complete type, used to decode a value directly, in a variant, in an "
    "array, or as the body of a message; non-trivial: all of them, not counted twice")
{
    std::string sig = src.chance(4, 5) ? mutateSig(src, genAnyType(src)) : hostileSig(src);
    unsigned where = src.below(3);
    if (sig.find('\0') != std::string::npos || sig.size() > 200)
        throw Discard();
    std::string data;
    std::string outer;
    size_t skip = 0;
    switch (where) {
    case 0: // directly; a value of a basic type ignores what follows its code
        if (sig.empty() || !strchr("a({", sig[0]) || !malformed(sig))
            throw Discard();
        outer = sig;
        data = encodeLike(src, sig);
        break;
    case 1: // in a variant
        if (!malformed(sig))
            throw Discard();
        {
            Enc e;
            e.signature(sig);
            outer = "v";
            data = e.out;
            std::string c = encodeLike(src, sig);
            data += c;
        }
        break;
    default: // in a variant in a struct, or an array of variants
        if (!malformed(sig))
            throw Discard();
        {
            Enc e;
            if (src.flip()) {
                outer = "(yv)";
                e.num(3, 1);
                e.signature(sig);
                data = e.out + encodeLike(src, sig);
            } else {
                outer = "av";
                e.num(700, 4);
                e.signature(sig);
                data = e.out;
                data += encodeLike(src, sig);
                data.resize(704);
            }
        }
    }
    NOTE("signature " << show(sig, 200) << (where == 0 ? "" : " in a variant in ") << (where ? outer : "") << " data " << hexdump(data, 40));
    label(where == 0 ? "direct" : "in a variant");
    CHECK(decodeFails(data, skip, { outer }, false), "data was decoded with the malformed signature " << show(sig, 255) << (where ? " in a variant" : ""));
    nontrivial(hcomb(hash_str(sig), where));
}

// ------------------------------------------------------------------ C32
// a value whose containers nest as told; returns its type's signature and bytes
static Val nest(Src& src, size_t depth, std::string& shape, unsigned mix)
{
    Val v;
    v.t = 'y';
    v.u = 7;
    size_t run = 1; // length of the signature since the last variant
    size_t arrays = 0, structs = 0;
    for (size_t i = 0; i < depth; ++i) {
        // built from the inside: what goes around the value so far?
        unsigned k;
        switch (mix) {
        case 0:
            k = 0;
            break;
        case 1:
            k = 1;
            break;
        case 2:
            k = 2;
            break;
        case 3:
            k = i % 2 ? 3 : 2;
            break;
        default:
            k = src.below(4);
        }
        bool left2 = i + 2 <= depth;
        if (k == 3 && !left2)
            k = 2;
        // within the limits of a signature
        if ((k == 1 && arrays >= 32) || (k == 2 && structs >= 32) || (k == 3 && (structs >= 32 || arrays >= 32)) || run > 230)
            k = 0;
        Val w;
        switch (k) {
        case 0: // variant
            w.t = 'v';
            w.sig = v.signature();
            w.c.push_back(v);
            run = 1;
            arrays = structs = 0;
            break;
        case 1:
            w.t = 'a';
            w.sig = v.signature();
            w.c.push_back(v);
            run += 1;
            ++arrays;
            break;
        case 2:
            w.t = '(';
            w.c.push_back(v);
            run += 2;
            ++structs;
            break;
        default: { // dict entry and its array
            Val e;
            e.t = '{';
            Val key;
            key.t = 'y';
            key.u = 1;
            e.c.push_back(key);
            e.c.push_back(v);
            w.t = 'a';
            w.sig = e.signature();
            w.c.push_back(e);
            run += 4;
            ++arrays;
            ++structs;
            ++i;
        }
        }
        shape += "vaSD"[k];
        v = w;
    }
    return v;
}
PROP(C32, "accepted", 4000, 60000, 20, 90, 0, "values with 1-64 nested containers in every mixture; non-trivial: all, not counted twice")
{
    size_t depth = src.chance(1, 2) ? 64 - src.below(4) : 1 + src.below(64);
    std::string shape;
    Val v = nest(src, depth, shape, src.below(6));
    bool big = src.flip();
    std::string sig = v.signature(), e = ref::encode(v, big);
    size_t d = ref::depthOf(v);
    NOTE("depth " << d << " " << shape);
    if (d > 64)
        throw Discard();
    label(d == 64 ? "depth 64" : d >= 60 ? "depth 60-63" : "less");
    Type::Generic g = Type::create(sig);
    MessageIStream is((const uint8_t*)e.data(), e.size(), big);
    try {
        Type::unmarshallData(g, is);
    } catch (const std::exception& x) {
        FAIL("a value with " << d << " nested containers is refused: " << x.what());
    }
    CHECK(is.empty(), "bytes are left");
    ref::checkGeneric(g, v, "value");
    nontrivial(hash_str(shape));
}
PROP(C32, "refused", 3000, 40000, 20, 90, 0,
    "variants, arrays, structs and dict entries nested 65 to 100000 deep (deep ones by chains of variants in every mixture); non-trivial: all, not counted twice")
{
    // The outermost part is a chain of variants with short contents, written
    // directly so that the depth is only limited by the size of a message
    size_t depth = src.weighted({ 3, 1 }) ? (src.chance(1, 5) ? 1000 + src.below(100000) : 100 + src.below(900)) : 65 + src.below(8);
    std::string outer = "v", shape;
    Enc e(src.flip());
    size_t d = 0;
    Fill f(src.raw(2));
    unsigned mode = src.below(5);
    std::vector<std::string> links = { "v", "(v)", "av", "a{yv}", "((v))", "a(v)", "aav" };
    size_t inner = src.below(64);
    std::vector<size_t> open;
    // each link: signature of a container holding one variant
    std::string sig;
    std::vector<size_t> pend; // array length fields to be set at the end, with starts
    std::vector<size_t> starts;
    auto array = [&](size_t elementAlign) {
        e.num(0, 4);
        pend.push_back(e.out.size() - 4);
        e.pad(elementAlign);
        starts.push_back(e.out.size());
        ++d;
    };
    ++d; // the outermost variant
    while (d < depth) {
        size_t k = mode == 4 ? f.below(links.size()) : mode == 0 ? 0 : 1 + (mode + 3) % 6;
        if (d + 4 < depth || k == 0)
            ;
        else
            k = 0;
        const std::string& l = links[k];
        e.signature(l);
        if (shape.size() < 40)
            shape += l + " ";
        switch (k) {
        case 0:
            break;
        case 1:
            e.pad(8);
            ++d;
            break;
        case 2:
            array(1);
            break;
        case 3:
            array(8);
            e.pad(8);
            ++d;
            e.num(1, 1);
            break;
        case 4:
            e.pad(8);
            d += 2;
            break;
        case 5:
            array(8);
            e.pad(8);
            ++d;
            break;
        default:
            array(4);
            array(1);
        }
        ++d; // the variant inside
    }
    e.signature("y");
    e.num(7, 1);
    for (size_t i = 0; i < pend.size(); ++i)
        e.put(pend[i], e.out.size() - starts[i], 4);
    (void)inner;
    if (e.out.size() > (1 << 26))
        throw Discard();
    NOTE("depth " << d << " " << shape);
    label(d <= 70 ? "depth 65-70" : d < 1000 ? "depth < 1000" : "deeper");
    bool threw = false;
    Exact buf(e.out);
    MessageIStream is(buf.p.get(), buf.n, e.big);
    try {
        Type::Generic g = Type::create(outer);
        Type::unmarshallData(g, is);
    } catch (const std::exception&) {
        threw = true;
    }
    CHECK(threw, d << " nested containers are accepted: " << shape);
    nontrivial(hcomb(d, hash_str(shape)));
}
// from 65 nested containers on, with long signatures
PROP(C32, "refused signatures", 3000, 40000, 20, 90, 0,
    "values with 65-200 nested containers, most of them in long signatures; non-trivial: all, not counted twice")
{
    size_t depth = src.flip() ? 65 + src.below(3) : 65 + src.below(136);
    std::string shape;
    Val v = nest(src, depth, shape, src.below(6));
    size_t d = ref::depthOf(v);
    if (d < 65)
        throw Discard();
    std::string sig = v.signature();
    bool big = src.flip();
    NOTE("depth " << d << " " << shape);
    label(d == 65 ? "depth 65" : d == 66 ? "depth 66" : "deeper");
    CHECK(decodeFails(ref::encode(v, big), 0, { sig }, big), d << " nested containers are accepted: " << shape);
    nontrivial(hash_str(shape));
}

// ------------------------------------------------------------------ C37
namespace {
template <class C> bool tryAdd(Type::Generic& g, Src& src)
{
    C* c = boost::any_cast<C>(&g);
    if (!c)
        return false;
    switch (src.below(3)) {
    case 0:
        c->add(Type::Uint32(uint32_t(src.below(1000))));
        break;
    case 1:
        c->add(Type::String("added"));
        break;
    default:
        c->add(Type::Byte(7));
    }
    return true;
}
// changes a value in some way its class offers
void alter(Src& src, Type::Generic& g)
{
    switch (src.below(4)) {
    case 0: // decode something else of the same type into it
        try {
            ref::ValOpt vo;
            vo.budget = 100;
            std::string sig = Type::getMarshallingSignature(g);
            if (sig == "a" || sig.empty())
                break;
            Val v = ref::genValue(src, sig, vo);
            std::string e = ref::encode(v);
            MessageIStream is((const uint8_t*)e.data(), e.size(), false);
            Type::unmarshallData(g, is);
            return;
        } catch (const std::exception&) {
            return;
        }
    case 1:
        if (Type::DictEntry* d = boost::any_cast<Type::DictEntry>(&g)) {
            d->set(Type::String("other"), Type::Uint32(5));
            return;
        }
        if (tryAdd<Type::Array>(g, src) || tryAdd<Type::Struct>(g, src))
            return;
        break;
    case 2:
        if (tryAdd<Type::Array>(g, src) || tryAdd<Type::Struct>(g, src))
            return;
        break;
    }
    if (src.flip())
        g = Type::String("something else");
    else
        g = Type::Generic();
}
}
PROP(C37, "values", 20000, 500000, 20, 90, 0,
    "a value is built through the public classes or decoded, copied, put into containers and variants, and then altered, decoded into again, destroyed, or the memory it was decoded from overwritten, in a generated order; "
    "the copies and the containers must still say the same; non-trivial: a container or a text")
{
    ref::TypeOpt to;
    to.api = src.flip();
    ref::ValOpt vo;
    vo.type = to;
    vo.budget = src.chance(1, 100) ? 20000 : 300;
    Val v = ref::genValue(src, ref::genType(src, to, 0, 20), vo);
    NOTE(ref::describe(v) << "\n");
    std::unique_ptr<Type::Generic> g;
    std::string e = ref::encode(v);
    std::unique_ptr<Exact> mem(new Exact(e));
    if (to.api && src.flip())
        g.reset(new Type::Generic(ref::build(v)));
    else {
        g.reset(new Type::Generic(Type::create(v.signature())));
        MessageIStream is(mem->p.get(), mem->n, false);
        Type::unmarshallData(*g, is);
        // decoding refers to nothing in the input
        memset(mem->p.get(), 0xA5, mem->n);
        if (src.flip())
            mem.reset();
    }
    const std::string sig = v.signature();
    std::vector<Type::Generic> copies;
    copies.push_back(*g);
    // inside others
    Type::Struct st;
    bool inStruct = true;
#define ADD(T)                                                 \
    if (auto p = boost::any_cast<Type::T>(g.get()))            \
        st.add(*p);                                            \
    else
    ADD(Byte) ADD(Boolean) ADD(ObjectPath) ADD(Int16) ADD(Uint16) ADD(Int32) ADD(Uint32) ADD(Int64) ADD(Uint64) ADD(Double) ADD(String) ADD(Variant) ADD(Signature) ADD(Struct) inStruct = false;
#undef ADD
    std::unique_ptr<Type::DictEntry> entry;
    entry.reset(new Type::DictEntry(Type::Generic(Type::String("key")), *g));
    Message::MethodCallParametersIn params;
    params.add(*g);
    Message::MethodCallParametersIn params2(params);
    Type::Generic structCopy = st;
    for (size_t n = 1 + src.below(4); n--;) {
        switch (src.below(4)) {
        case 0:
            if (g) {
                alter(src, *g);
                NOTE("the original is altered\n");
            }
            break;
        case 1:
            g.reset();
            NOTE("the original is destroyed\n");
            break;
        case 2: { // a copy of a copy is altered
            Type::Generic c = copies[src.below(copies.size())];
            alter(src, c);
            NOTE("a copy of a copy is altered\n");
            break;
        }
        default:
            copies.push_back(copies[src.below(copies.size())]);
            params2.add(Type::Generic(Type::Uint32(1)));
            st.add(Type::Byte(1));
        }
        for (auto& c : copies)
            ref::checkGeneric(c, v, "copy");
        ref::checkGeneric(params.getParameter(0), v, "argument");
        CHECK(params.getParameterCount() == 1, "a list of arguments changes with its copy");
        ref::checkGeneric(params2.getParameter(0), v, "argument of a copy");
        if (inStruct) {
            const Type::Struct* s = boost::any_cast<Type::Struct>(&structCopy);
            CHECK(s->getEntries() == 1, "a struct changes with what it was copied from");
            ref::checkGeneric((*s)[0], v, "member of a struct");
            ref::checkGeneric(st[0], v, "member of a struct that grows");
        }
        Val k = v, d;
        d.t = '{';
        Val key;
        key.t = 's';
        key.s = "key";
        d.c = { key, k };
        ref::checkGeneric(*entry, d, "dict entry");
    }
    label(ref::isBasic(v.t) ? "basic" : "container");
    if (!ref::isBasic(v.t) || !v.s.empty())
        nontrivial(ref::hashVal(v));
}
