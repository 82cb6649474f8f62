// The other end of a connection: a scripted server on an abstract socket, in
// this process, plus what is needed to observe a DBus::Native without waiting
// for time to pass.
#pragma once
#include "msg.h"
#include <atomic>
#include <condition_variable>
#include <dbus_native.h>
#include <memory>
#include <mutex>

namespace bus {

// Waits longer than this mean that what is waited for never comes
const double Patience = 25;

class Server {
public:
    Server(); // listens on a fresh abstract address
    ~Server();
    std::string path() const { return m_path; } // for DBus::Native
    void accept();

    void send(const std::string& s); // all of it, waiting for room
    bool trySend(const std::string& s, size_t& done); // what fits; false if the client is gone
    void sendCut(const std::string& s, const std::vector<size_t>& ends, uint64_t sync); // in pieces; bit i of sync: wait for piece i to be read
    void waitRead(); // until the client has read all that was sent
    // reading
    size_t fill(double seconds); // reads what is there, waiting at most so long; 0: nothing
    std::string exactly(size_t n);
    std::string line(); // up to and including \r\n
    std::string message(); // the bytes of one message
    Msg msg() { return ref::parse(message()); }
    std::string toEof();
    bool eof() const { return m_eof; }
    const std::string& pending() const { return m_in; }

    // the handshake up to and including BEGIN
    void handshake(bool unixFd = false);
    static std::string authLine(); // what the client has to send first, after the NUL
    void stopReading(int rcvbuf);
    void closeNow();
    int fd() const { return m_fd; }
    uint64_t total() const { return m_total; } // bytes sent
    void forget() { std::string(m_in).swap(m_in); } // memory that is not needed any more

private:
    std::string m_path;
    int m_listen = -1, m_fd = -1;
    bool m_eof = false;
    uint64_t m_total = 0;
    std::string m_in;
};
std::string okLine(uint64_t seed);

// Counts what the io thread of a connection has processed
class Fence {
public:
    Fence();
    void install(DBus::Native& n); // registers the handlers
    void asSignals(bool yes) { m_signals = yes; } // send signals instead of calls
    // sends a call or a signal and waits until the client has processed everything before it
    void pass(Server& s);
    std::string next(); // the call to send, if it is sent in another way
    void wait(); // for the last one
    uint64_t sent() const { return m_sent; }
    uint64_t bytes() const { return m_bytes; } // of all the calls made so far

private:
    struct State {
        std::mutex m;
        std::condition_variable cv;
        uint64_t seen = 0;
    };
    std::shared_ptr<State> m_state;
    uint64_t m_sent = 0, m_bytes = 0;
    bool m_signals = false;
};

// A count that can be waited for
class Counter {
public:
    void add(uint64_t n = 1);
    uint64_t get();
    void waitFor(uint64_t n, const std::string& what);

private:
    std::mutex m_m;
    std::condition_variable m_cv;
    uint64_t m_n = 0;
};

void pretendUid(int64_t uid); // what getuid() returns; -1: the real one
// Delays at lock operations, so that threads meet in unusual places. 0: none.
void perturb(uint64_t seed, unsigned oneIn, unsigned maxMicroseconds);
void nap(unsigned microseconds);

uint64_t stat(const std::string& stats, const std::string& key); // throws Failure if it is missing
} // namespace bus
