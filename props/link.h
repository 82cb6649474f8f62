// A connection with a scripted server at the other end, and what several harnesses need for it.
#pragma once
#include "../pbt/bus.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include <thread>

using namespace pbt;
using namespace DBus;
using bus::Counter;
using bus::Fence;
using bus::Server;
using ref::Got;

static void quiet() { Log::setLevel(4); }
static int init = (on_worker_start(quiet), 0);

namespace {
struct Link {
    Server s;
    Fence f;
    std::unique_ptr<Native> n;
    Link()
    {
        bus::perturb(0, 0, 0);
        n.reset(new Native(s.path()));
        s.accept();
        f.install(*n);
    }
    void up(bool fd = false)
    {
        n->BeginAuth(fd ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
        s.handshake(fd);
    }
    void end()
    {
        bus::perturb(0, 0, 0);
        n.reset();
        rethrow_async_fail();
    }
    ~Link() { bus::perturb(0, 0, 0); }
};
void maybePerturb(Src& src)
{
    if (src.chance(1, 3)) {
        static const unsigned oneIn[] = { 5, 20, 100 };
        static const unsigned us[] = { 0, 30, 300 };
        unsigned a = oneIn[src.below(3)], b = us[src.below(3)];
        bus::perturb(1 + src.raw(4), a, b);
        label("with delays at locks");
        NOTE("delays at one in " << a << " lock operations, up to " << b << " us\n");
    }
}
template <class T> void shuffle(Src& src, std::vector<T>& v)
{
    for (size_t i = v.size(); i > 1; --i)
        std::swap(v[i - 1], v[src.below(i)]);
}
// sends a number of messages cut in generated places
void deliver(Src& src, Server& s, const std::vector<std::string>& msgs)
{
    std::string d;
    std::vector<size_t> marks;
    for (auto& m : msgs) {
        marks.push_back(d.size());
        d += m;
    }
    if (d.empty())
        return;
    auto cuts = ref::genCuts(src, d.size(), marks);
    s.sendCut(d, cuts, src.chance(1, 2) ? 0 : src.raw(8));
}
Msg simple(int type, uint32_t serial, const std::string& path, const std::string& iface, const std::string& member)
{
    Msg m;
    m.type = type;
    m.serial = serial;
    m.path = path;
    m.iface = iface;
    m.member = member;
    return m;
}
Val u32(uint32_t v) { return ref::number('u', v); }

// messages nobody asked for
Msg noise(Src& src)
{
    ref::MsgOpt o;
    o.budget = 80;
    o.maxArgs = 3;
    Msg m = ref::genMsg(src, o);
    if (m.hasReply)
        m.reply = 0x60000000u + (m.reply & 0xffff); // nothing that was sent
    return m;
}
}
