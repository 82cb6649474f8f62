// An independent model of D-Bus messages: generator, encoder, strict parser,
// and what the library's handlers were given.
#pragma once
#include "val.h"
#include <dbus_messageprotocol.h>
#include <functional>

struct Msg {
    bool big = false;
    uint8_t type = 1;
    uint8_t flags = 0;
    uint32_t serial = 1;
    bool hasReply = false;
    uint32_t reply = 0;
    // absent when empty
    std::string path, iface, member, errname, dest, sender;
    std::vector<Val> args;
    std::vector<std::pair<uint8_t, Val>> extra; // unknown header fields
    uint64_t order = 0; // order of the header fields; 0: by code
    std::string signature() const;
};

namespace ref {
// a header and body as told, without looking at what they mean
struct RawMsg {
    bool big = false;
    uint8_t type = 1, flags = 0, version = 1;
    uint32_t serial = 1;
    std::vector<std::pair<uint8_t, Val>> fields;
    std::string body;
    uint64_t bodyLen = ~0ull; // announced; default: the size of the body
};
std::string encode(const RawMsg& m);
std::string encode(const Msg& m);
RawMsg raw(const Msg& m);
Val text(char code, const std::string& s);
Val number(char code, uint64_t u);
// strict; throws pbt::Failure. The message must end where the data ends.
Msg parse(const std::string& data);
// the size of the message at the start of the data, 0 if it is not complete yet
size_t messageSize(const std::string& data, size_t at = 0);

struct MsgOpt {
    bool conforming = true; // required fields present
    bool unusual = true; // unknown header fields and flags, fields in any order
    int type = 0; // 0: any
    long budget = 300; // bytes of arguments, roughly
    size_t maxArgs = 5;
    bool bigEndian = true;
    int maxDepth = 5;
};
Msg genMsg(pbt::Src& src, const MsgOpt& o);
// a message that is complete but must not be delivered; why says how
std::string badMessage(pbt::Src& src, std::string& why);
std::string describe(const Msg& m);
uint64_t hashMsg(const Msg& m);

// ------------------------------------------------------------ what was delivered
struct Got {
    int type = 0;
    uint32_t serial = 0, reply = 0, reply2 = 0;
    std::string path, iface, member, dest, sender;
    std::string object, interface, method, fullName; // method calls
    std::string error; // errors
    bool replyExpected = false;
    std::vector<DBus::Type::Generic> args;
};
Got got(const DBus::Message::MethodCall& m);
Got got(const DBus::Message::MethodReturn& m);
Got got(const DBus::Message::Error& m);
Got got(const DBus::Message::Signal& m);
// throws pbt::Failure unless g is what m says
void checkGot(const Got& g, const Msg& m, const std::string& where);
std::string describe(const Got& g);

// A decoder that records what it delivers
struct Receiver {
    DBus::MessageProtocol p;
    std::vector<Got> log;
    std::function<void(const Got&)> inHandler; // may throw
    Receiver();
    // feeds one chunk from memory of exactly its size; checks that all of it is consumed
    void feed(const std::string& chunk);
};
// cuts [0, n) into chunks; returns the ends of the chunks. 'marks' are interesting places.
std::vector<size_t> genCuts(pbt::Src& src, size_t n, const std::vector<size_t>& marks);
} // namespace ref
