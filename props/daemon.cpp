// A real dbus-daemon with two connections of the library and one of libdbus: C29
#include "../pbt/bus.h"
#include "../pbt/ldbus.h"
#include <algorithm>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace pbt;
using namespace DBus;
using ref::Got;

static void quiet() { Log::setLevel(4); }
static int init = (on_worker_start(quiet), 0);

namespace {
// One daemon for each worker process; it ends with it
struct Daemon {
    std::string socket; // as the library wants it
    std::string address; // as libdbus wants it
    pid_t pid = 0;
    bool start()
    {
        char dir[] = "/tmp/dbus-asio-verif-XXXXXX";
        if (!mkdtemp(dir))
            return false;
        char name[80];
        snprintf(name, sizeof name, "dbus-asio-verif-bus-%d-%llu", int(getpid()), (unsigned long long)scratch_id());
        const std::string conf = std::string(dir) + "/conf";
        FILE* f = fopen(conf.c_str(), "w");
        if (!f)
            return false;
        fprintf(f, "<!DOCTYPE busconfig PUBLIC \"-//freedesktop//DTD D-Bus Bus Configuration 1.0//EN\" \"http://www.freedesktop.org/standards/dbus/1.0/busconfig.dtd\">\n"
                   "<busconfig><type>session</type><listen>unix:abstract=%s</listen><auth>EXTERNAL</auth>"
                   "<policy context=\"default\"><allow send_destination=\"*\" eavesdrop=\"false\"/><allow receive_sender=\"*\"/><allow own=\"*\"/></policy>"
                   "<limit name=\"max_incoming_bytes\">1000000000</limit><limit name=\"max_outgoing_bytes\">1000000000</limit>"
                   "<limit name=\"max_replies_per_connection\">100000</limit><limit name=\"max_match_rules_per_connection\">100000</limit>"
                   "<limit name=\"reply_timeout\">600000</limit></busconfig>\n",
            name);
        fclose(f);
        int p[2];
        if (pipe(p))
            return false;
        pid_t me = getpid();
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != me)
                _exit(1);
            int null = open("/dev/null", O_RDWR);
            dup2(null, 0);
            dup2(null, 1);
            dup2(null, 2);
            if (p[1] != 3)
                dup2(p[1], 3);
            for (int fd = 4; fd < 1000; ++fd)
                close(fd);
            const std::string c = "--config-file=" + conf;
            execlp("dbus-daemon", "dbus-daemon", c.c_str(), "--nofork", "--nopidfile", "--nosyslog", "--print-address=3", (char*)nullptr);
            _exit(1);
        }
        close(p[1]);
        pollfd q { p[0], POLLIN, 0 };
        char c;
        bool ok = pid > 0 && poll(&q, 1, 20000) > 0 && read(p[0], &c, 1) == 1; // the address, once it listens
        close(p[0]);
        unlink(conf.c_str());
        rmdir(dir);
        if (!ok) {
            if (pid > 0) {
                kill(pid, SIGKILL);
                waitpid(pid, nullptr, 0);
            }
            return false;
        }
        socket = std::string(1, '\0') + name;
        address = std::string("unix:abstract=") + name;
        return true;
    }
};
Daemon* theDaemon()
{
    static Daemon* d = nullptr;
    if (d && waitpid(d->pid, nullptr, WNOHANG) != 0) {
        delete d;
        d = nullptr;
    }
    for (int i = 0; !d && i < 3; ++i) {
        Daemon* n = new Daemon;
        if (n->start())
            d = n;
        else
            delete n;
    }
    if (!d)
        throw Discard();
    return d;
}
double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// What is due at one of the participants: 0 and 1 use the library, 2 uses libdbus
struct Due {
    int kind; // of the message: 1 call, 2 return, 3 error, 4 signal
    uint32_t tag; // identifies the exchange
    std::vector<Val> args; // after the tag
    std::string member, errname;
    int from;
    size_t count; // how often it must arrive
};
struct Arrived {
    int kind;
    uint32_t tag;
    std::vector<Type::Generic> gargs; // library
    std::vector<Val> vargs; // libdbus
    std::string member, errname, errtext, sender, path, iface;
};
// how a call is to be answered
struct Answer {
    int kind; // 2 or 3, 0: not at all
    std::vector<Val> args;
};
struct World {
    std::mutex m;
    std::condition_variable cv;
    std::vector<Arrived> at[3];
    std::map<uint32_t, Answer> answers;
    unsigned pending = 0; // acknowledgements that are due
    std::vector<std::string> problems;
};
typedef std::shared_ptr<World> W;

std::vector<Val> genArgs(Src& src, bool api, long budget)
{
    std::vector<Val> r;
    size_t n = 0, len = 1;
    while (src.more(n++, 1.6, 8)) {
        ref::TypeOpt to;
        to.api = api;
        ref::ValOpt vo;
        vo.type = to;
        vo.budget = budget;
        vo.truths = true;
        std::string sig = ref::genType(src, to, 0, src.chance(1, 10) ? 60 : 12);
        if (len + sig.size() > 255)
            break;
        len += sig.size();
        r.push_back(ref::genValue(src, sig, vo));
    }
    return r;
}
uint32_t tagOf(const std::vector<Type::Generic>& p)
{
    return p.empty() ? 0 : Type::asUint32(p[0]);
}
template <class M> void record(const W& w, int who, int kind, const M& m, uint32_t tag, const Got& g)
{
    Arrived a;
    a.kind = kind;
    a.tag = tag;
    a.gargs = g.args;
    a.member = g.member;
    a.errtext = g.error;
    a.sender = g.sender;
    a.path = g.path;
    a.iface = g.iface;
    std::lock_guard<std::mutex> lk(w->m);
    w->at[who].push_back(a);
    w->cv.notify_all();
}
}

PROP(C29, "exchange", 1500, 30000, 60, 120, 0,
    "two connections of the library and one of libdbus on a dbus-daemon exchange 1-24 generated calls, replies, errors, broadcast and unicast signals in all directions, in rounds, with generated arguments and "
    "subscriptions and names; every message must arrive once with its contents where it is addressed or subscribed to; non-trivial: the three participants, or two kinds of message, are involved")
{
    bus::perturb(0, 0, 0);
    Daemon* d = theDaemon();
    auto w = std::make_shared<World>();
    struct Close {
        DBusConnection* c = nullptr;
        ~Close()
        {
            if (c) {
                dbus_connection_close(c);
                dbus_connection_unref(c);
            }
        }
    } peer;
    std::string unique[3];
    DBusError err;
    dbus_error_init(&err);
    peer.c = dbus_connection_open_private(d->address.c_str(), &err);
    if (!peer.c || !dbus_bus_register(peer.c, &err)) {
        dbus_error_free(&err);
        if (waitpid(d->pid, nullptr, WNOHANG) == 0)
            kill(d->pid, SIGKILL); // another one next time
        throw Discard();
    }
    dbus_connection_set_exit_on_disconnect(peer.c, false);
    unique[2] = dbus_bus_get_unique_name(peer.c);
    std::unique_ptr<Native> lib[2];
    auto fail = [w](const std::string& s) {
        std::lock_guard<std::mutex> lk(w->m);
        w->problems.push_back(s);
        w->cv.notify_all();
    };
    auto problem = [&] {
        std::lock_guard<std::mutex> lk(w->m);
        if (!w->problems.empty())
            FAIL(w->problems[0]);
    };
    const bool early = src.flip(), fd = src.flip();
    struct Name {
        std::mutex m;
        std::string s[2];
    };
    auto names = std::make_shared<Name>();
    auto settle = [w](int n) {
        std::lock_guard<std::mutex> lk(w->m);
        w->pending += n;
        w->cv.notify_all();
    };
    for (int i = 0; i < 2; ++i) {
        lib[i].reset(new Native(d->socket));
        auto hello = [&] {
            settle(1);
            lib[i]->callHello(
                [names, i, settle](const Message::MethodReturn& m) {
                    {
                        std::lock_guard<std::mutex> lk(names->m);
                        Got g = ref::got(m);
                        names->s[i] = g.args.empty() ? "" : Type::asString(g.args[0]);
                    }
                    settle(-1);
                },
                [fail](const Message::Error& e) { fail("Hello failed: " + e.getMessage()); });
        };
        if (early)
            hello();
        lib[i]->BeginAuth(fd ? AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : AuthenticationProtocol::AUTH_BASIC);
        if (!early)
            hello();
    }
    // moves on what libdbus receives; sends the answers that are due
    auto pump = [&](int ms) {
        bool any = false;
        dbus_connection_read_write(peer.c, ms);
        while (::DBusMessage* raw = dbus_connection_pop_message(peer.c)) {
            ldbus::MsgPtr m(raw);
            any = true;
            const char* sender = dbus_message_get_sender(raw);
            if (sender && std::string(sender) == "org.freedesktop.DBus")
                continue;
            if (dbus_message_is_signal(raw, DBUS_INTERFACE_LOCAL, "Disconnected"))
                FAIL("the connection of libdbus was closed");
            Arrived a;
            a.kind = dbus_message_get_type(raw);
            a.vargs = ldbus::args(raw);
            auto str = [](const char* s) { return std::string(s ? s : ""); };
            a.member = str(dbus_message_get_member(raw));
            a.errname = str(dbus_message_get_error_name(raw));
            a.path = str(dbus_message_get_path(raw));
            a.iface = str(dbus_message_get_interface(raw));
            a.sender = str(sender);
            a.tag = 0;
            if (!a.vargs.empty() && a.vargs[0].t == 'u')
                a.tag = a.vargs[0].u;
            else if (!a.vargs.empty() && a.vargs[0].t == 's')
                a.tag = strtoul(a.vargs[0].s.c_str(), nullptr, 10);
            if (a.kind == 1) {
                Answer ans { 0, {} };
                {
                    std::lock_guard<std::mutex> lk(w->m);
                    auto it = w->answers.find(a.tag);
                    if (it != w->answers.end())
                        ans = it->second;
                }
                if (ans.kind) {
                    ldbus::MsgPtr r(ans.kind == 2 ? dbus_message_new_method_return(raw) : dbus_message_new_error(raw, "vf.T.Error", (std::to_string(a.tag) + " went wrong").c_str()));
                    DBusMessageIter it;
                    dbus_message_iter_init_append(r.get(), &it);
                    if (ans.kind == 2)
                        ldbus::append(&it, ref::number('u', a.tag));
                    for (auto& v : ans.args)
                        ldbus::append(&it, v);
                    dbus_connection_send(peer.c, r.get(), nullptr);
                }
            }
            std::lock_guard<std::mutex> lk(w->m);
            w->at[2].push_back(a);
        }
        return any;
    };
    auto waitFor = [&](const std::string& what, std::function<bool()> ready) {
        double end = now() + bus::Patience;
        for (;;) {
            problem();
            {
                std::unique_lock<std::mutex> lk(w->m);
                if (ready())
                    break;
            }
            if (!pump(0)) {
                std::unique_lock<std::mutex> lk(w->m);
                if (!ready())
                    w->cv.wait_for(lk, std::chrono::microseconds(300));
            }
            if (now() > end) {
                std::string s;
                {
                    std::lock_guard<std::mutex> lk(w->m);
                    for (int i = 0; i < 3; ++i)
                        s += " " + std::to_string(w->at[i].size());
                }
                FAIL("timeout: " << what << "; arrived at the participants:" << s);
            }
        }
        problem();
    };
    auto settled = [&](const std::string& what) {
        waitFor(what, [&] { return w->pending == 0; });
    };
    settled("no answer to Hello");
    {
        std::lock_guard<std::mutex> lk(names->m);
        for (int i = 0; i < 2; ++i) {
            unique[i] = names->s[i];
            CHECK(unique[i].size() > 1 && unique[i][0] == ':', "Hello returned " << show(unique[i]));
        }
        CHECK(unique[0] != unique[1] && unique[0] != unique[2], "two connections have the same unique name");
    }
    // well-known names
    std::string known[3];
    const std::string base = "vf.N" + std::to_string(scratch_id() % 1000000) + ".x";
    for (int i = 0; i < 3; ++i) {
        if (!src.chance(1, 3))
            continue;
        known[i] = base + char('a' + i);
        if (i == 2) {
            dbus_bus_request_name(peer.c, known[i].c_str(), 0, nullptr);
            continue;
        }
        settle(1);
        lib[i]->callRequestName(
            known[i], DBUS_NAME_FLAG_DO_NOT_QUEUE,
            [settle, fail](const Message::MethodReturn& m) {
                Got g = ref::got(m);
                if (g.args.size() != 1 || Type::asUint32(g.args[0]) != DBUS_REQUEST_NAME_REPLY_PRIMARY_OWNER)
                    fail("RequestName did not return that the name is owned");
                settle(-1);
            },
            [fail](const Message::Error& e) { fail("RequestName failed: " + e.getMessage()); });
    }
    settled("no answer to RequestName");
    // handlers
    const std::string Iface = "vf.T", SIface = "vf.S";
    for (int i = 0; i < 2; ++i) {
        Native* n = lib[i].get();
        for (const char* member : { "M0", "M1" })
            n->registerMethodCallHandler(Iface + "." + member, [w, i, n, fail](const Message::MethodCall& m) {
                Got g = ref::got(m);
                const uint32_t tag = tagOf(g.args);
                record(w, i, 1, m, tag, g);
                Answer a { 0, {} };
                {
                    std::lock_guard<std::mutex> lk(w->m);
                    auto it = w->answers.find(tag);
                    if (it != w->answers.end())
                        a = it->second;
                }
                if (bool(a.kind) != g.replyExpected)
                    fail("isReplyExpected() of a call that expects a reply or not is " + std::to_string(g.replyExpected));
                if (a.kind == 2) {
                    Message::MethodReturn r(m.getSerial());
                    r.addParameter(Type::Uint32(tag));
                    for (auto& v : a.args)
                        r.addParameter(ref::build(v));
                    n->sendMethodReturn(m.getHeaderSender(), r);
                } else if (a.kind == 3)
                    n->sendError(m.getHeaderSender(), Message::Error(m.getSerial(), "vf.T.Error", std::to_string(tag) + " went wrong"));
            });
    }
    // subscriptions to broadcast signals
    std::map<int, size_t> subs[3]; // member -> handlers invoked
    bool named[2] = {};
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k) {
            if (!src.flip())
                continue;
            std::string rule = "type='signal',interface='" + SIface + "',member='S" + std::to_string(k) + "'";
            if (src.chance(1, 3))
                rule += src.flip() ? ",path='/a/b'" : ",path_namespace='/a'";
            subs[i][k] = 1;
            if (i == 2) {
                dbus_bus_add_match(peer.c, rule.c_str(), &err);
                CHECK(!dbus_error_is_set(&err), "harness: libdbus refuses " << rule);
                continue;
            }
            settle(1);
            lib[i]->callAddMatch(
                rule, [settle](const Message::MethodReturn&) { settle(-1); }, [fail](const Message::Error& e) { fail("AddMatch failed: " + e.getMessage()); },
                [w, i](const Message::Signal& m) {
                    Got g = ref::got(m);
                    record(w, i, 4, m, tagOf(g.args), g);
                });
            if (src.chance(1, 5)) {
                // taken back at once
                lib[i]->callRemoveMatch(rule);
                subs[i][k] = 0;
            }
        }
    for (int i = 0; i < 2; ++i)
        if (src.chance(1, 3)) { // for unicast signals no rule is needed
            named[i] = true;
            lib[i]->registerSignalHandler(SIface + ".U", [w, i](const Message::Signal& m) {
                Got g = ref::got(m);
                record(w, i, 4, m, tagOf(g.args), g);
            });
        }
    settled("no answer to AddMatch");

    uint32_t tag = 0;
    uint64_t h = 0;
    unsigned kinds = 0, who = 0, total = 0;
    const size_t rounds = 1 + src.below(3);
    for (size_t round = 0; round < rounds; ++round) {
        std::vector<Due> due[3];
        const size_t n = 1 + src.below(8);
        std::vector<std::function<void()>> acts;
        for (size_t i = 0; i < n; ++i) {
            const int from = src.below(3);
            const uint32_t t = ++tag;
            const long budget = src.chance(1, 30) ? 200000 : 200;
            std::vector<Val> args = genArgs(src, from != 2, budget);
            for (auto& a : args)
                h = hcomb(h, ref::hashVal(a));
            std::vector<Val> all { ref::number('u', t) };
            all.insert(all.end(), args.begin(), args.end());
            ++total;
            who |= 1u << from;
            if (src.below(5) < 3) { // a call
                int to = src.below(4); // 3: nobody
                if (to == from)
                    to = (to + 1) % 3;
                const std::string dest = to == 3 ? base + "nobody" : !known[to].empty() && src.flip() ? known[to] : unique[to], member = src.flip() ? "M0" : "M1";
                const bool reply = to == 3 || !src.chance(1, 6);
                Answer a { reply ? src.chance(1, 4) ? 3 : 2 : 0, {} };
                kinds |= 2;
                if (to < 3) {
                    who |= 1u << to;
                    if (a.kind == 2 || (a.kind == 3 && to == 2)) // errors of the library have their text only
                        a.args = genArgs(src, to != 2, src.chance(1, 30) ? 200000 : 200);
                    kinds |= 1u << a.kind;
                    {
                        std::lock_guard<std::mutex> lk(w->m);
                        w->answers[t] = a;
                    }
                    due[to].push_back({ 1, t, all, member, "", from, 1 });
                    if (a.kind) {
                        Due r { a.kind, t, {}, "", a.kind == 3 ? "vf.T.Error" : "", to, 1 };
                        r.args.push_back(a.kind == 2 ? ref::number('u', t) : ref::text('s', std::to_string(t) + " went wrong"));
                        r.args.insert(r.args.end(), a.args.begin(), a.args.end());
                        due[from].push_back(r);
                    }
                } else if (from < 2)
                    due[from].push_back({ 3, t, {}, "", "org.freedesktop.DBus.Error.ServiceUnknown", -1, 1 });
                NOTE(t << ": call from " << from << " to " << dest << ", answer of kind " << a.kind << "\n");
                acts.push_back([&, from, dest, member, all, reply, t] {
                    if (from == 2) {
                        ldbus::MsgPtr m(dbus_message_new_method_call(dest.c_str(), "/a/b", "vf.T", member.c_str()));
                        dbus_message_set_no_reply(m.get(), !reply);
                        DBusMessageIter it;
                        dbus_message_iter_init_append(m.get(), &it);
                        for (auto& v : all)
                            ldbus::append(&it, v);
                        dbus_connection_send(peer.c, m.get(), nullptr);
                        return;
                    }
                    Message::MethodCallParametersIn p;
                    for (auto& v : all)
                        p.add(ref::build(v));
                    Message::MethodCall m(Message::MethodCallIdentifier("/a/b", "vf.T", member), p, reply ? 0 : uint32_t(Message::Header::FLAGS_NO_REPLY_EXPECTED));
                    lib[from]->sendMethodCall(
                        dest, m, [w, from, t](const Message::MethodReturn& m) { record(w, from, 2, m, t, ref::got(m)); },
                        [w, from, t](const Message::Error& m) { record(w, from, 3, m, t, ref::got(m)); });
                });
            } else {
                kinds |= 16;
                int to = src.chance(2, 3) ? -1 : int(src.below(3)); // -1: broadcast
                int k = src.below(4);
                const std::string member = k == 3 ? "U" : "S" + std::to_string(k);
                for (int x = 0; x < 3; ++x) {
                    if (to >= 0 && to != x)
                        continue;
                    size_t c = k < 3 && subs[x].count(k) ? subs[x][k] : 0;
                    if (to == x && x == 2)
                        c = 1; // libdbus reports all that it gets
                    if (to == x && x < 2 && k == 3)
                        c = named[x];
                    // The peers of the library get their own ones as well; those of libdbus are not read back here when unicast
                    if (c)
                        due[x].push_back({ 4, t, all, member, "", from, c });
                }
                NOTE(t << ": signal " << member << " from " << from << " to " << to << "\n");
                acts.push_back([&, from, to, member, all] {
                    if (from == 2) {
                        ldbus::MsgPtr m(dbus_message_new_signal("/a/b", "vf.S", member.c_str()));
                        if (to >= 0)
                            dbus_message_set_destination(m.get(), unique[to].c_str());
                        DBusMessageIter it;
                        dbus_message_iter_init_append(m.get(), &it);
                        for (auto& v : all)
                            ldbus::append(&it, v);
                        dbus_connection_send(peer.c, m.get(), nullptr);
                        return;
                    }
                    Message::Signal m(Message::MethodCallIdentifier("/a/b", "vf.S", member));
                    for (auto& v : all)
                        m.addParameter(ref::build(v));
                    if (to >= 0)
                        lib[from]->sendSignal(unique[to], m);
                    else
                        lib[from]->broadcastSignal(m);
                });
            }
        }
        size_t want[3] = {};
        for (int i = 0; i < 3; ++i)
            for (auto& x : due[i])
                want[i] += x.count;
        // calls from libdbus to nobody are answered by the bus, which is not looked at
        for (auto& a : acts)
            a();
        dbus_connection_flush(peer.c);
        waitFor(Cat() << "not everything arrives (due " << want[0] << " " << want[1] << " " << want[2] << ")",
            [&] { return w->at[0].size() >= want[0] && w->at[1].size() >= want[1] && w->at[2].size() >= want[2]; });
        // Nothing else is on its way once the bus has answered everybody
        for (int i = 0; i < 2; ++i) {
            settle(1);
            lib[i]->callNameHasOwner(
                unique[i],
                [settle, fail](const Message::MethodReturn& m) {
                    Got g = ref::got(m);
                    if (g.args.size() != 1 || Type::toString(g.args[0]).find("True") == std::string::npos)
                        fail("NameHasOwner returned " + (g.args.empty() ? "nothing" : Type::toString(g.args[0])));
                    settle(-1);
                },
                [fail](const Message::Error& e) { fail("NameHasOwner failed: " + e.getMessage()); });
        }
        settled("no answer to NameHasOwner");
        dbus_bus_name_has_owner(peer.c, unique[2].c_str(), &err);
        dbus_error_free(&err);
        pump(0);
        problem();
        rethrow_async_fail();
        std::lock_guard<std::mutex> lk(w->m);
        for (int i = 0; i < 3; ++i) {
            for (auto& x : due[i]) {
                size_t seen = 0;
                for (auto& a : w->at[i]) {
                    if (a.tag != x.tag || a.kind != x.kind)
                        continue;
                    ++seen;
                    const std::string where = Cat() << "exchange " << x.tag << ", kind " << x.kind << " at " << i;
                    if (i == 2)
                        CHECK(a.errname == x.errname, where << ": error name " << show(a.errname) << " instead of " << show(x.errname));
                    else if (x.kind == 3 && x.from >= 0) // the library has no accessor for the name
                        CHECK(a.errtext == x.args[0].s, where << ": error message " << show(a.errtext) << " instead of " << show(x.args[0].s));
                    else if (x.kind == 3)
                        CHECK(a.errtext.find("nobody") != std::string::npos, where << ": error message " << show(a.errtext));
                    CHECK(a.member == x.member, where << ": member " << show(a.member) << " instead of " << show(x.member));
                    const std::string sender = x.from < 0 ? "org.freedesktop.DBus" : unique[x.from];
                    CHECK(a.sender == sender, where << ": sender " << show(a.sender) << " instead of " << show(sender));
                    if (x.kind == 1 || x.kind == 4) {
                        CHECK(a.path == "/a/b", where << ": path " << show(a.path));
                        CHECK(a.iface == (x.kind == 1 ? Iface : SIface), where << ": interface " << show(a.iface));
                    }
                    if (x.from < 0)
                        continue;
                    size_t got = i == 2 ? a.vargs.size() : a.gargs.size();
                    CHECK(got == x.args.size(), where << ": " << got << " arguments instead of " << x.args.size());
                    for (size_t k = 0; k < got; ++k)
                        if (i == 2)
                            CHECK(ref::same(a.vargs[k], x.args[k]), where << ": argument " << k << " is " << ref::describe(a.vargs[k]) << " instead of " << ref::describe(x.args[k]));
                        else
                            ref::checkGeneric(a.gargs[k], x.args[k], Cat() << where << ": argument " << k);
                }
                CHECK(seen == x.count, "exchange " << x.tag << ", kind " << x.kind << " arrived " << seen << " times at " << i << " instead of " << x.count);
            }
            CHECK(w->at[i].size() == want[i], w->at[i].size() << " messages arrived at " << i << " instead of " << want[i] << "; the last one is of kind " << w->at[i].back().kind << " with tag "
                                                               << w->at[i].back().tag);
            w->at[i].clear();
        }
    }
    // The bus knows both, and they go away when destroyed
    const int gone = src.below(2);
    lib[gone].reset();
    double end = now() + bus::Patience;
    while (dbus_bus_name_has_owner(peer.c, unique[gone].c_str(), nullptr)) {
        CHECK(now() < end, "timeout: the bus still knows a connection that was destroyed");
        bus::nap(200);
    }
    CHECK(dbus_bus_name_has_owner(peer.c, unique[1 - gone].c_str(), nullptr), "the bus has dropped a connection");
    lib[1 - gone].reset();
    rethrow_async_fail();
    label("exchanges", total);
    if (who == 7 || __builtin_popcount(kinds) > 1)
        nontrivial(hcomb(h, hcomb(total, who)));
}
