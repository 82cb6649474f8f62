// An independent model of D-Bus values: generator, encoder, decoder, and the
// mapping to and from the library's types. Written from the specification.
#pragma once
#include "engine.h"
#include <dbus.h>
#include <dbus_messageistream.h>
#include <dbus_messageostream.h>
#include <dbus_octetbuffer.h>
#include <string>
#include <vector>

struct Val {
    char t = 0; // type code: y b n q i u x t d s o g, v, ( { a
    uint64_t u = 0; // fixed-size values: the bits
    uint32_t truth = 1; // b: what build() constructs true from
    std::string s; // s o g: the text
    std::string sig; // v: signature of the content, a: signature of an element
    std::vector<Val> c; // children
    std::string signature() const;
};

namespace ref {

// ------------------------------------------------------------ signatures
bool isBasic(char c);
size_t alignOf(char c);
// end of the single complete type at i, or npos if there is no valid one
size_t typeEnd(const std::string& sig, size_t i, int arrays = 0, int structs = 0);
// is it a valid signature (zero or more single complete types)?
bool validSignature(const std::string& sig);
std::vector<std::string> split(const std::string& sig);
size_t depth(const std::string& sig);

// ------------------------------------------------------------ encoding
struct LenField {
    size_t pos; // where the length is
    unsigned width; // 4 or 1
    size_t start; // where the content starts
    size_t len;
    size_t extra; // 1 if a NUL follows the content
};
struct Enc {
    bool big = false;
    std::string out;
    std::vector<LenField> lens;
    explicit Enc(bool b = false) : big(b) {}
    void pad(size_t a)
    {
        while (out.size() % a)
            out += '\0';
    }
    void num(uint64_t v, size_t n)
    {
        pad(n);
        for (size_t i = 0; i < n; ++i)
            out += char(uint8_t(v >> (8 * (big ? n - 1 - i : i))));
    }
    void put(size_t pos, uint64_t v, size_t n)
    {
        for (size_t i = 0; i < n; ++i)
            out[pos + i] = char(uint8_t(v >> (8 * (big ? n - 1 - i : i))));
    }
    void str(const std::string& s)
    {
        num(s.size(), 4);
        lens.push_back({ out.size() - 4, 4, out.size(), s.size(), 1 });
        out += s;
        out += '\0';
    }
    void signature(const std::string& s)
    {
        out += char(uint8_t(s.size()));
        lens.push_back({ out.size() - 1, 1, out.size(), s.size(), 1 });
        out += s;
        out += '\0';
    }
    void val(const Val& v);
};
// encoded as if it started at the given offset; the padding at the front is not included
std::string encode(const Val& v, bool big = false, size_t offset = 0);
// equal as values (same signature and leaves)?
bool same(const Val& a, const Val& b);

// ------------------------------------------------------------ decoding (strict)
struct Dec {
    const std::string& d;
    size_t pos;
    size_t end;
    bool big;
    Dec(const std::string& data, bool b, size_t p = 0, size_t e = std::string::npos)
        : d(data), pos(p), end(e == std::string::npos ? data.size() : e), big(b) {}
    void need(size_t n);
    void pad(size_t a);
    uint64_t num(size_t n);
    Val val(const std::string& sig);
};

// ------------------------------------------------------------ generators
struct TypeOpt {
    bool api = false; // only what the public classes can build
    bool variants = true;
    int maxDepth = 6;
};
char genBasicCode(pbt::Src& src);
std::string genType(pbt::Src& src, const TypeOpt& o, int depth, size_t maxLen);
std::string genSignature(pbt::Src& src, const TypeOpt& o, size_t maxLen = 255, size_t maxTypes = 6);
std::string genText(pbt::Src& src, size_t maxLen);
std::string genPath(pbt::Src& src, size_t maxLen = 60);
std::string genInterface(pbt::Src& src, size_t maxLen = 60);
std::string genMember(pbt::Src& src, size_t maxLen = 30);
std::string genBusName(pbt::Src& src);
struct ValOpt {
    TypeOpt type; // for the contents of variants
    long budget = 2000; // bytes, roughly
    size_t maxText = 300;
    bool truths = false; // true is also constructed from numbers other than 1
    // large values now and then: more than 64 KB in one text or array
    void maybeLarge(pbt::Src& src, unsigned oneIn, long normal)
    {
        budget = normal;
        if (src.chance(1, oneIn)) {
            budget = 300000;
            if (src.flip())
                maxText = 280000;
        }
    }
};
Val genValue(pbt::Src& src, const std::string& sig, ValOpt& o, int depth = 0);
Val genBasic(pbt::Src& src, char code, ValOpt& o);

// ------------------------------------------------------------ the library's types
DBus::Type::Generic build(const Val& v); // through the public constructors and add()
DBus::Type::Generic decode(const Val& v, bool big = false); // by decoding an encoding of it
std::string marshal(const DBus::Type::Generic& g, size_t offset = 0, std::string* prefix = nullptr);
// throws pbt::Failure unless g is exactly v; exact: also compares by encoding again
void checkGeneric(const DBus::Type::Generic& g, const Val& v, const std::string& where, bool exact = true);

std::string describe(const Val& v, size_t max = 400);
uint64_t hashVal(const Val& v);
// the number of containers around the deepest value
size_t depthOf(const Val& v);
} // namespace ref
