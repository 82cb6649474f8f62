#include "bus.h"
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/sockios.h>
#include <poll.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

using namespace pbt;

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define BUS_TSAN 1
#endif
#endif

// ------------------------------------------------------------------ delays
// The user id the process seems to have. Without this all cases would be about one of a single digit.
static std::atomic<int64_t> g_uid { -1 };
void bus::pretendUid(int64_t uid) { g_uid = uid; }
extern "C" uid_t getuid() noexcept { return g_uid >= 0 ? uid_t(g_uid) : uid_t(syscall(SYS_getuid)); }
extern "C" uid_t geteuid() noexcept { return g_uid >= 0 ? uid_t(g_uid) : uid_t(syscall(SYS_geteuid)); }

static std::atomic<uint64_t> g_perturbSeed { 0 };
static std::atomic<unsigned> g_oneIn { 0 }, g_maxUs { 0 };
namespace bus {
void nap(unsigned us)
{
    timespec t { time_t(us / 1000000), long(us % 1000000) * 1000 };
    nanosleep(&t, nullptr);
}
void perturb(uint64_t seed, unsigned oneIn, unsigned maxUs)
{
    g_perturbSeed = seed;
    g_maxUs = maxUs;
    g_oneIn = oneIn;
}
static void maybeDelay()
{
    unsigned n = g_oneIn.load(std::memory_order_relaxed);
    if (!n)
        return;
    static std::atomic<uint64_t> threads { 0 };
    static thread_local uint64_t mine = 0, seed = 0;
    uint64_t s = g_perturbSeed.load(std::memory_order_relaxed);
    if (!mine || seed != s) {
        seed = s;
        mine = mix(s + 0x9e3779b97f4a7c15ull * ++threads) | 1;
    }
    mine = mine * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t r = mix(mine);
    if (r % n)
        return;
    unsigned us = (r >> 32) % (g_maxUs + 1);
    if (us)
        nap(us);
    else
        sched_yield();
}
}
#ifndef BUS_TSAN
typedef int (*LockFn)(pthread_mutex_t*);
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    static LockFn real = (LockFn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    bus::maybeDelay();
    return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static LockFn real = (LockFn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    bus::maybeDelay();
    return r;
}
#endif

namespace bus {
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ server
Server::Server()
{
    char name[80];
    snprintf(name, sizeof name, "dbus-asio-verif-%d-%llu", int(getpid()), (unsigned long long)scratch_id());
    m_path = std::string(1, '\0') + name;
    m_listen = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_un a {};
    a.sun_family = AF_UNIX;
    memcpy(a.sun_path, m_path.data(), m_path.size());
    if (m_listen < 0 || bind(m_listen, (sockaddr*)&a, offsetof(sockaddr_un, sun_path) + m_path.size()) || listen(m_listen, 4)) {
        perror("listen");
        throw Discard();
    }
}
Server::~Server()
{
    closeNow();
    if (m_listen >= 0)
        close(m_listen);
}
void Server::closeNow()
{
    if (m_fd >= 0)
        close(m_fd);
    m_fd = -1;
    m_eof = true;
}
void Server::accept()
{
    pollfd p { m_listen, POLLIN, 0 };
    if (poll(&p, 1, int(Patience * 1000)) <= 0)
        FAIL("timeout: the client does not connect");
    m_fd = accept4(m_listen, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
    CHECK(m_fd >= 0, "accept: " << strerror(errno));
}
void Server::stopReading(int rcvbuf)
{
    // for unix sockets the sender's buffer counts, so this only documents intent
    setsockopt(m_fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
}
bool Server::trySend(const std::string& s, size_t& done)
{
    while (done < s.size()) {
        ssize_t n = ::send(m_fd, s.data() + done, s.size() - done, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (n > 0) {
            done += n;
            m_total += n;
        }
        else if (n < 0 && errno == EINTR)
            continue;
        else
            return n < 0 && (errno == EAGAIN || errno == EWOULDBLOCK);
    }
    return true;
}
void Server::send(const std::string& s)
{
    size_t done = 0;
    double end = now() + Patience;
    while (true) {
        size_t before = done;
        if (!trySend(s, done))
            FAIL("the client closed the connection while it was being sent to");
        if (done == s.size())
            return;
        if (done > before)
            end = now() + Patience;
        if (now() > end)
            FAIL("timeout: the client reads nothing more, " << s.size() - done << " bytes left to send");
        // the client may be waiting for us to read as well
        fill(0);
        pollfd p { m_fd, POLLOUT, 0 };
        poll(&p, 1, 20);
    }
}
void Server::waitRead()
{
    double end = now() + Patience;
    for (unsigned i = 0;; ++i) {
        int left = 0;
        if (ioctl(m_fd, SIOCOUTQ, &left) < 0 || left == 0)
            return;
        if (now() > end)
            FAIL("timeout: the client does not read what it was sent");
        nap(i < 50 ? 5 : 100);
    }
}
void Server::sendCut(const std::string& s, const std::vector<size_t>& ends, uint64_t sync)
{
    size_t at = 0, i = 0;
    for (size_t e : ends) {
        send(s.substr(at, e - at));
        if (sync >> (i++ % 64) & 1)
            waitRead();
        at = e;
    }
}
size_t Server::fill(double seconds)
{
    if (m_fd < 0 || m_eof)
        return 0;
    pollfd p { m_fd, POLLIN, 0 };
    if (poll(&p, 1, int(seconds * 1000)) <= 0)
        return 0;
    static thread_local char buf[1 << 16];
    ssize_t n = recv(m_fd, buf, sizeof buf, MSG_DONTWAIT);
    if (n > 0) {
        m_in.append(buf, n);
        return n;
    }
    if (n == 0 || (errno != EAGAIN && errno != EINTR))
        m_eof = true;
    return 0;
}
std::string Server::exactly(size_t n)
{
    double end = now() + Patience;
    while (m_in.size() < n) {
        if (fill(0.2))
            end = now() + Patience;
        else if (m_eof)
            FAIL("the client closed the connection after " << m_in.size() << " of " << n << " bytes that were due: " << show(m_in, 200));
        else if (now() > end)
            FAIL("timeout: the client sent only " << m_in.size() << " of " << n << " bytes that were due: " << show(m_in, 200));
    }
    std::string r = m_in.substr(0, n);
    m_in.erase(0, n);
    return r;
}
std::string Server::line()
{
    double end = now() + Patience;
    while (true) {
        size_t p = m_in.find("\r\n");
        if (p != std::string::npos)
            return exactly(p + 2);
        if (!fill(0.2)) {
            if (m_eof)
                FAIL("the client closed the connection during the handshake, after " << show(m_in, 200));
            if (now() > end)
                FAIL("timeout: the client does not complete a handshake line: " << show(m_in, 200));
        }
    }
}
std::string Server::message()
{
    double end = now() + Patience;
    while (true) {
        size_t n = ref::messageSize(m_in);
        if (n && m_in.size() >= n) {
            std::string r = m_in.substr(0, n);
            m_in.erase(0, n);
            return r;
        }
        if (fill(0.2))
            end = now() + Patience;
        else if (m_eof)
            FAIL("the client closed the connection; a message was due, and there is " << show(m_in, 200));
        else if (now() > end)
            FAIL("timeout: no complete message from the client; there is " << m_in.size() << " bytes: " << show(m_in, 200));
    }
}
std::string Server::toEof()
{
    double end = now() + Patience;
    while (!m_eof && m_fd >= 0) {
        if (!fill(0.2) && now() > end)
            FAIL("timeout: the client does not close the connection");
    }
    std::string r;
    r.swap(m_in);
    return r;
}
std::string okLine(uint64_t seed)
{
    Fill f(seed);
    std::string r = "OK ";
    for (int i = 0; i < 32; ++i)
        r += "0123456789abcdef"[f.below(16)];
    return r + "\r\n";
}
std::string Server::authLine()
{
    std::string r = "AUTH EXTERNAL ";
    for (char c : std::to_string(getuid())) {
        static const char d[] = "0123456789abcdef";
        r += d[uint8_t(c) >> 4];
        r += d[c & 15];
    }
    return r + "\r\n";
}
void Server::handshake(bool unixFd)
{
    std::string nul = exactly(1);
    CHECK(nul[0] == '\0', "the first byte is " << show(nul));
    std::string l = line();
    CHECK(l == authLine(), "the client starts with " << show(l) << " instead of " << show(authLine()));
    send(okLine(1));
    if (unixFd) {
        l = line();
        CHECK(l == "NEGOTIATE_UNIX_FD\r\n", "the client sends " << show(l) << " instead of NEGOTIATE_UNIX_FD");
        send("AGREE_UNIX_FD\r\n");
    }
    l = line();
    CHECK(l == "BEGIN\r\n", "the client sends " << show(l) << " instead of BEGIN");
}

// ------------------------------------------------------------------ fences
Fence::Fence()
    : m_state(std::make_shared<State>())
{
}
void Fence::install(DBus::Native& n)
{
    auto st = m_state;
    auto seen = [st] {
        std::lock_guard<std::mutex> l(st->m);
        ++st->seen;
        st->cv.notify_all();
    };
    n.registerMethodCallHandler("vf.Fence.F", [seen](const DBus::Message::MethodCall&) { seen(); });
    n.registerSignalHandler("vf.Fence.S", [seen](const DBus::Message::Signal&) { seen(); });
}
std::string Fence::next()
{
    Msg m;
    m.type = m_signals ? 4 : 1;
    m.flags = 1;
    m.serial = 0x70000000 + ++m_sent;
    m.path = "/f";
    m.iface = "vf.Fence";
    m.member = m_signals ? "S" : "F";
    std::string s = ref::encode(m);
    m_bytes += s.size();
    return s;
}
void Fence::wait()
{
    std::unique_lock<std::mutex> l(m_state->m);
    if (!m_state->cv.wait_for(l, std::chrono::duration<double>(Patience), [&] { return m_state->seen >= m_sent; }))
        FAIL("timeout: a " << (m_signals ? "signal" : "method call") << " sent after everything else does not reach its handler (" << m_state->seen << " of " << m_sent << " did)");
    CHECK(m_state->seen == m_sent, "a message was delivered more than once");
}
void Fence::pass(Server& s)
{
    s.send(next());
    wait();
}

void Counter::add(uint64_t n)
{
    std::lock_guard<std::mutex> l(m_m);
    m_n += n;
    m_cv.notify_all();
}
uint64_t Counter::get()
{
    std::lock_guard<std::mutex> l(m_m);
    return m_n;
}
void Counter::waitFor(uint64_t n, const std::string& what)
{
    std::unique_lock<std::mutex> l(m_m);
    if (!m_cv.wait_for(l, std::chrono::duration<double>(Patience), [&] { return m_n >= n; }))
        FAIL("timeout: " << m_n << " of " << n << " " << what);
}

uint64_t stat(const std::string& stats, const std::string& key)
{
    size_t p = stats.find(" " + key + ":");
    CHECK(p != std::string::npos, "the statistics have no " << key << ":\n" << stats);
    return strtoull(stats.c_str() + p + key.size() + 2, nullptr, 10);
}
} // namespace bus
