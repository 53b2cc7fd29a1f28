// N02: what is sent over a connection arrives complete and in order, or both sides are told
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cerrno>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include "common.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/TCPHandle.h"
#include "eckit/io/TCPSocketHandle.h"
#include "eckit/net/Endpoint.h"
#include "eckit/net/IPAddress.h"
#include "eckit/net/MultiSocket.h"
#include "eckit/net/NetMask.h"
#include "eckit/net/TCPClient.h"
#include "eckit/net/TCPServer.h"
#include "eckit/net/TCPSocket.h"
#include "eckit/net/TCPStream.h"
#include "eckit/serialisation/MemoryStream.h"

using namespace eckit;
using namespace eckit::net;

// What the system does with a read or write on a connection: all that is asked, part of it, nothing, or an error
namespace {
thread_local std::function<ssize_t(bool, size_t)> plan;  // bytes to allow, or minus the error
int slept = 0;
std::vector<int> dying;  // closed, but kept until the end: otherwise the system would run out of ports
std::mutex dyingLock;
void bury(int fd) {
    struct linger l = {1, 0};
    ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    ::syscall(SYS_close, fd);
}
bool isSocket(int fd) {
    struct stat s;
    return ::fstat(fd, &s) == 0 && S_ISSOCK(s.st_mode);
}
ssize_t act(bool w, int fd, void* buf, size_t n) {
    long nr = w ? SYS_write : SYS_read;
    if (plan && n > 0 && isSocket(fd)) {
        ssize_t k = plan(w, n);
        if (k < 0) {
            errno = int(-k);
            return -1;
        }
        if (k == 0) return 0;
        n = std::min(n, size_t(k));
    }
    return ::syscall(nr, fd, buf, n);
}
}  // namespace
extern "C" ssize_t read(int fd, void* buf, size_t n) {
    return act(false, fd, buf, n);
}
extern "C" ssize_t write(int fd, const void* buf, size_t n) {
    return act(true, fd, const_cast<void*>(buf), n);
}
extern "C" int close(int fd) {
    struct sockaddr_in a;
    socklen_t l = sizeof a;
    std::lock_guard<std::mutex> lock(dyingLock);
    for (int d : dying) {
        if (d == fd) {
            errno = EBADF;
            return -1;
        }
    }
    if (fd >= 0 && isSocket(fd) && ::getpeername(fd, (sockaddr*)&a, &l) == 0 && a.sin_family == AF_INET) {
        for (size_t i = 0; i < dying.size(); ++i) {
            struct sockaddr_in b;
            l = sizeof b;
            if (::getsockname(dying[i], (sockaddr*)&b, &l) == 0 && b.sin_port == a.sin_port) {  // both ends are
                bury(dying[i]);
                bury(fd);
                dying.erase(dying.begin() + i);
                return 0;
            }
        }
        ::shutdown(fd, SHUT_WR);
        dying.push_back(fd);
        return 0;
    }
    return ::syscall(SYS_close, fd);
}
extern "C" unsigned sleep(unsigned) {
    ++slept;
    ::usleep(500);
    return 0;
}

namespace {

struct Sock : TCPSocket {
    explicit Sock(int fd) { socket_ = fd; }
};
struct Pair {
    std::unique_ptr<TCPSocket> end[2];
    Pair() {
        int fd[2];
        if (::socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) abort();
        end[0].reset(new Sock(fd[0]));
        end[1].reset(new Sock(fd[1]));
    }
};

// The adversary: up to `budget` calls do less than asked
struct Adversary {
    mc::Ctx& c;
    int budget;
    bool errors;
    bool failedRead = false, failedWrite = false;
    Adversary(mc::Ctx& c, int budget, bool errors) : c(c), budget(budget), errors(errors) {
        plan = [this](bool w, size_t n) -> ssize_t { return next(w, n); };
    }
    ~Adversary() { plan = nullptr; }
    ssize_t next(bool w, size_t n) {
        if (budget <= 0) return n;
        int k = c.choose(n > 2 ? 4 + errors : n > 1 ? 3 + errors : 2 + errors, w ? "write" : "read");
        if (k == 0) return n;
        --budget;
        if (errors && k == 1) {
            (w ? failedWrite : failedRead) = true;
            return -ECONNRESET;
        }
        k -= errors;
        // a write may take nothing at first; a read may not, this would be the end
        if (k == 1) return w ? 0 : n > 1 ? 1 : ssize_t(n);
        if (k == 2) return n - 1;
        return n / 2;
    }
};

unsigned char nth(int who, size_t i) {
    return (unsigned char)(i * 7 + who * 101 + 1);
}

int openFiles() {
    for (int fd : dying) bury(fd);
    dying.clear();
    int n = 0;
    for (int i = 0; i < 256; ++i) n += ::fcntl(i, F_GETFD) != -1;
    return n;
}
}  // namespace

// all sequences of operations at the two ends
MC_SECTION("ends", [](mc::Ctx& c) {
    int depth = c.tier() ? 4 : 3;
    int before         = openFiles();
    {
        Pair p;
        size_t sent[2] = {0, 0}, got[2] = {0, 0};  // by this end
        bool shut[2] = {false, false}, gone[2] = {false, false};
        Adversary adv(c, c.tier() ? 2 : 1, true);
        for (int step = 0; step < depth; ++step) {
            int who = c.choose(2, "end"), other = 1 - who;
            if (gone[who]) {
                who = other, other = 1 - who;
                if (gone[who]) break;
            }
            switch (c.choose(4, "what")) {
                case 0: {  // write
                    size_t n = c.pick(std::vector<size_t>{2, 5}, "bytes");
                    if (shut[who] || gone[other]) c.reject();
                    std::vector<unsigned char> b(n);
                    for (size_t i = 0; i < n; ++i) b[i] = nth(who, sent[who] + i);
                    long k = p.end[who]->write(b.data(), n);
                    MC_LOG(c, "end ", who, " writes ", n, ": ", k);
                    if (adv.failedWrite) {
                        MC_CHECK(c, k < 0, "a write which failed says ", k, " of ", n);
                        c.outcome("write failed");
                        return;
                    }
                    MC_CHECK(c, k == long(n), "a write of ", n, " says ", k);
                    sent[who] += n;
                    break;
                }
                case 1: {  // read, not more than will ever come
                    size_t n     = c.pick(std::vector<size_t>{1, 4, 6}, "bytes");
                    size_t there = sent[other] - got[who];
                    bool ends    = shut[other] || gone[other];
                    if (n > there && !ends) c.reject();
                    std::vector<unsigned char> b(n + 2, 0xEE);
                    long k = p.end[who]->read(b.data() + 1, n);
                    MC_LOG(c, "end ", who, " reads ", n, ": ", k);
                    if (adv.failedRead) {
                        MC_CHECK(c, k < 0, "a read which failed says ", k, " of ", n);
                        c.outcome("read failed");
                        return;
                    }
                    size_t want = std::min(n, there);
                    MC_CHECK(c, k == long(want), "a read of ", n, " says ", k, " with ", there, " bytes to come");
                    for (size_t i = 0; i < want; ++i) MC_CHECK(c, b[1 + i] == nth(other, got[who] + i), "byte ", got[who] + i, " of end ", other, " is ", int(b[1 + i]));
                    MC_CHECK(c, b[0] == 0xEE, "the byte before the buffer");
                    for (size_t i = want; i < n + 1; ++i) MC_CHECK(c, b[1 + i] == 0xEE, "a byte beyond those read");
                    got[who] += want;
                    break;
                }
                case 2:  // nothing more to be written
                    if (shut[who] || gone[other]) c.reject();
                    p.end[who]->closeOutput();
                    shut[who] = true;
                    break;
                case 3:  // another object takes the connection over, or it is closed
                    if (c.flag("closed")) {
                        if (sent[other] != got[who]) c.reject();  // the rest would be lost
                        p.end[who]->close();
                        gone[who] = true;
                        MC_CHECK(c, p.end[who]->socket() == -1, "it is closed");
                    }
                    else if (c.flag("assigned")) {
                        std::unique_ptr<TCPSocket> t(new TCPSocket());
                        *t = *p.end[who];
                        MC_CHECK(c, p.end[who]->socket() == -1, "both have it");
                        p.end[who] = std::move(t);
                    }
                    else {
                        std::unique_ptr<TCPSocket> t(new TCPSocket(*p.end[who]));
                        MC_CHECK(c, p.end[who]->socket() == -1, "both have it");
                        p.end[who] = std::move(t);
                    }
                    break;
            }
            c.step();
        }
        // the rest arrives, and then the end
        adv.budget = 0;
        for (int who = 0; who < 2; ++who) {
            int other = 1 - who;
            if (gone[who]) continue;
            if (!gone[other] && !shut[other]) p.end[other]->closeOutput();
            std::vector<unsigned char> b(100);
            long k = p.end[who]->read(b.data(), b.size());
            MC_CHECK(c, k == long(sent[other] - got[who]), "the rest for end ", who, " is ", k, " instead of ", sent[other] - got[who]);
            for (long i = 0; i < k; ++i) MC_CHECK(c, b[i] == nth(other, got[who] + i), "the rest of end ", other);
            MC_CHECK(c, p.end[who]->read(b.data(), 1) == 0, "something after the end");
        }
        c.nontrivial();
    }
    MC_CHECK(c, openFiles() == before, "connections stay open");
}, opts(4));

// one connection replaced by another
MC_SECTION("replaced", [](mc::Ctx& c) {
    int before = openFiles();
    {
        Pair p, q;
        unsigned char b = 0, x = 77;
        int how = c.choose(3, "how");
        TCPSocket* s = p.end[0].get();
        if (how == 0) *s = *q.end[0];
        else if (how == 1) *s = *s;
        else {
            TCPSocket t;
            t  = *s;
            *s = t;
        }
        TCPSocket& peer = how == 0 ? *q.end[1] : *p.end[1];
        MC_CHECK(c, s->socket() >= 0, "it has no connection any more");
        MC_CHECK(c, s->write(&x, 1) == 1 && peer.read(&b, 1) == 1 && b == x, "it is not connected");
        if (how == 0) MC_CHECK(c, p.end[1]->read(&b, 1) == 0, "the other connection is not closed");
        c.nontrivial();
    }
    MC_CHECK(c, openFiles() == before, "connections stay open");
}, opts(0));

// values through a stream over a connection, cut at any byte
namespace {
struct Values {
    int i;
    std::string s;
    double d;
    unsigned long long u;
    std::vector<std::string> l;
};
void put(Stream& s, const Values& v, bool blob) {
    s << v.i << v.s << v.d << v.u << v.l;
    if (blob) s.writeBlob(v.s.data(), v.s.size());
}
}  // namespace
MC_SECTION("streams", [](mc::Ctx& c) {
    Values v{c.pick(std::vector<int>{0, -5}, "int"), c.pick(std::vector<std::string>{"", "some text"}, "text"), 0.1, 1ull << 40, {"a", "", "bcd"}};
    bool blob = c.flag("blob");
    Buffer ref(2048);
    size_t size;
    {
        MemoryStream m(ref);
        put(m, v, blob);
        size = m.position();
    }
    size_t cut = c.flag("cut") ? size_t(c.choose(int(size), "cut at")) : size;
    Pair p;
    {
        Adversary adv(c, 1, false);
        TCPStream out(*p.end[0]);
        if (cut == size) {
            put(out, v, blob);
            MC_CHECK(c, out.bytesWritten() == size, "bytes written: ", out.bytesWritten());
        }
        else MC_CHECK(c, out.write(ref.data(), cut) == long(cut), "a write of part of it");
        MC_CHECK(c, p.end[0]->socket() == -1, "the stream does not own the connection");
    }  // and so it is closed
    Values w{};
    std::vector<char> bl(v.s.size() + 1, 'x');
    bool failed = false;
    Adversary adv(c, 1, false);
    InstantTCPStream in(*p.end[1]);
    try {
        in >> w.i >> w.s >> w.d >> w.u >> w.l;
        if (blob) in.readBlob(bl.data(), v.s.size());
    }
    catch (Exception& e) { failed = true; }
    MC_CHECK(c, failed == (cut < size), failed ? "it fails, complete" : "it is cut and does not fail");
    if (!failed) {
        MC_CHECK(c, w.i == v.i && w.s == v.s && w.d == v.d && w.u == v.u && w.l == v.l, "a value is not what was sent");
        if (blob) MC_CHECK(c, std::string(bl.data(), v.s.size()) == v.s && bl.back() == 'x', "the blob is not what was sent");
        int more;
        bool end = false;
        try { in >> more; }
        catch (Exception&) { end = true; }
        MC_CHECK(c, end, "there is more than was sent");
    }
    c.nontrivial();
}, opts(3));

// data handles over a connection
MC_SECTION("handles", [](mc::Ctx& c) {
    static const std::string text = [] { std::string s; for (int i = 0; i < 25000; ++i) s += char(nth(1, i)); return s; }();
    Pair p;
    size_t size = c.pick(std::vector<size_t>{0, 1, 9, 12000}, "size");
    bool owned  = c.flag("owned");
    {
        std::unique_ptr<DataHandle> h(owned ? new TCPSocketHandle(*p.end[0]) : new InstantTCPSocketHandle(*p.end[0]));
        h->openForWrite(size);
        Adversary adv(c, 1, false);
        size_t at = 0;
        while (at < size) {
            size_t n = std::min(size - at, c.pick(std::vector<size_t>{4, 20000}, "write"));
            if (n < 20 && size > 100) n = size - at;
            MC_CHECK(c, h->write(text.data() + at, n) == long(n), "a write");
            at += n;
        }
        h->close();
        MC_CHECK(c, owned || p.end[0]->socket() >= 0, "the connection is not there any more");
        if (!owned) p.end[0]->close();
    }
    std::unique_ptr<DataHandle> h(owned ? new TCPSocketHandle(*p.end[1]) : new InstantTCPSocketHandle(*p.end[1]));
    h->openForRead();
    Adversary adv(c, 1, false);
    size_t at = 0;
    std::string b(30000, ' ');
    for (int step = 0; step < 3; ++step) {
        if (c.flag("seek")) {
            size_t by = c.pick(std::vector<size_t>{0, 1, 5, 11000}, "by");
            bool failed = false;
            try { h->seek(Offset(at + by)); }
            catch (Exception&) { failed = true; }
            MC_CHECK(c, failed == (at + by > size), failed ? "a seek fails" : "a seek beyond the end does not fail");
            if (failed) return;
            at += by;
        }
        else {
            size_t n = c.pick(std::vector<size_t>{1, 4, 20000}, "read");
            long k   = h->read(&b[0], n);
            size_t w = std::min(n, size - at);
            MC_CHECK(c, k == long(w), "a read of ", n, " says ", k, " with ", size - at, " to come");
            MC_CHECK(c, b.compare(0, w, text, at, w) == 0, "other bytes are read at ", at);
            at += w;
        }
        c.step();
    }
    h->close();
    c.nontrivial();
}, opts(4));

// a connection is made, whoever comes first, or refused
namespace {
// a port that nobody else takes meanwhile
struct Port {
    int fd, number = 0;
    Port() : fd(::socket(AF_INET, SOCK_STREAM, 0)) {
        int one = 1;
        ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        socklen_t l  = sizeof a;
        if (::bind(fd, (sockaddr*)&a, l) || ::getsockname(fd, (sockaddr*)&a, &l)) abort();
        number = ntohs(a.sin_port);
    }
    ~Port() { ::close(fd); }
};
void exchange(mc::Ctx& c, TCPSocket& a, TCPSocket& b) {
    char x[8] = {};
    MC_CHECK(c, a.write("hello", 5) == 5 && b.read(x, 5) == 5 && !memcmp(x, "hello", 5), "what is sent one way");
    MC_CHECK(c, b.write("abc", 3) == 3 && a.read(x, 3) == 3 && !memcmp(x, "abc", 3), "what is sent the other way");
    a.closeOutput();
    MC_CHECK(c, b.read(x, 1) == 0, "something after the end");
    MC_CHECK(c, b.write("z", 1) == 1 && a.read(x, 1) == 1 && x[0] == 'z', "what is sent back after the end");
}
}  // namespace
MC_SECTION("connections", [](mc::Ctx& c) {
    int before = openFiles();
    {
        int how = c.choose(4, "how");
        if (how == 0) {  // nobody is there
            Port port;
            TCPClient client;
            int tries = 1 + c.choose(3, "tries");
            slept     = 0;
            bool refused = false;
            try { client.connect("127.0.0.1", port.number, tries, 0); }
            catch (Exception&) { refused = true; }
            MC_CHECK(c, refused, "connected to nobody");
            MC_CHECK(c, slept == tries - 1, "retried ", slept, " times instead of ", tries - 1);
        }
        else if (how == 1) {  // one after the other on a server
            EphemeralTCPServer server;
            int port = server.localPort();
            for (int i = 0, n = 1 + c.choose(3, "times"); i < n; ++i) {
                TCPClient client;
                if (c.flag("endpoint")) client.connect(Endpoint("localhost", port), 1, 0);
                else client.connect("127.0.0.1", port, 1, 0);
                TCPSocket s(server.accept());
                MC_CHECK(c, server.localPort() == port, "the server has moved");
                MC_CHECK(c, client.remotePort() == port, "the client is connected to another port");
                MC_CHECK(c, s.remotePort() == client.localPort(), "the server is connected to another port");
                MC_CHECK(c, client.stillConnected() && s.stillConnected(), "it is not said to be connected");
                if (c.flag("from the server")) exchange(c, s, client);
                else exchange(c, client, s);
                s.close();
                MC_CHECK(c, !s.stillConnected() && !client.stillConnected(), "it is said to be connected still");
                if (c.flag("again")) {  // the same client
                    client.close();
                    client.connect("127.0.0.1", port, 1, 0);
                    TCPSocket t(server.accept());
                    exchange(c, client, t);
                }
            }
        }
        else if (how == 2) {  // several at once: each has its own
            EphemeralTCPServer server;
            int port = server.localPort();
            int n    = 2 + c.choose(2, "clients");
            std::vector<std::unique_ptr<TCPClient>> client;
            std::vector<std::unique_ptr<TCPSocket>> s;
            for (int i = 0; i < n; ++i) {
                client.emplace_back(new TCPClient);
                client[i]->connect("127.0.0.1", port, 1, 0);
            }
            for (int i = 0; i < n; ++i) s.emplace_back(new TCPSocket(server.accept()));
            if (c.flag("the server is closed")) server.close();
            for (int i = 0; i < n; ++i) {
                int k = c.choose(n, "which");
                for (auto& x : s) {
                    if (x && client[k] && x->remotePort() == client[k]->localPort()) {
                        exchange(c, *client[k], *x);
                        x.reset();
                        client[k].reset();
                        break;
                    }
                }
                MC_CHECK(c, !client[k] || i > n, "a client has no connection of its own");
            }
        }
        else {  // a data handle, to a server
            EphemeralTCPServer server;
            TCPHandle h("127.0.0.1", server.localPort());
            std::string text = "some text to be sent";
            if (c.flag("write")) {
                h.openForWrite(text.size());
                TCPSocket s(server.accept());
                MC_CHECK(c, h.write(text.data(), text.size()) == long(text.size()), "a write");
                h.close();
                std::string b(100, ' ');
                MC_CHECK(c, s.read(&b[0], 100) == long(text.size()) && b.substr(0, text.size()) == text, "other bytes arrive");
            }
            else {
                // the other side has to be there before
                h.openForRead();
                TCPSocket s(server.accept());
                MC_CHECK(c, s.write(text.data(), text.size()) == long(text.size()), "a write");
                s.close();
                std::string b(100, ' ');
                size_t first = c.choose(5, "first");
                MC_CHECK(c, h.read(&b[0], first) == long(first), "a read");
                MC_CHECK(c, h.read(&b[first], 100 - first) == long(text.size() - first) && b.substr(0, text.size()) == text, "other bytes arrive");
                h.close();
            }
        }
        c.nontrivial();
    }
    MC_CHECK(c, openFiles() == before, "connections stay open");
}, opts(2));

// one connection made of several
MC_SECTION("several", [](mc::Ctx& c) {
    size_t streams = 1 + c.choose(3, "streams"), message = 1 + 2 * c.choose(c.tier() ? 3 : 2, "message size");
    int before = openFiles();
    {
        Port port;
        MultiSocket server(port.number), client(streams, message);
        std::exception_ptr e;
        std::thread t([&] { try { server.accept(); } catch (...) { e = std::current_exception(); } });
        client.connect("127.0.0.1", port.number, 1000, 0);
        t.join();
        if (e) std::rethrow_exception(e);
        std::unique_ptr<MultiSocket> taken(c.flag("taken over") ? new MultiSocket(server) : nullptr);
        MultiSocket* end[2] = {&client, taken ? taken.get() : &server};
        Adversary adv(c, 1, false);
        size_t sent[2] = {0, 0}, got[2] = {0, 0};
        for (int step = 0; step < (c.tier() ? 4 : 3); ++step) {
            int who = c.choose(2, "end"), other = 1 - who;
            size_t n = c.pick(std::vector<size_t>{3, 10}, "bytes");
            std::vector<unsigned char> b(n + 2, 0xEE);
            if (c.flag("read")) {
                if (n > sent[other] - got[who]) c.reject();
                MC_CHECK(c, end[who]->read(b.data() + 1, n) == long(n), "a read");
                for (size_t i = 0; i < n; ++i) MC_CHECK(c, b[1 + i] == nth(other, got[who] + i), "byte ", got[who] + i, " of end ", other, " is another");
                MC_CHECK(c, b[0] == 0xEE && b[n + 1] == 0xEE, "a byte outside of the buffer");
                got[who] += n;
            }
            else {
                for (size_t i = 0; i < n; ++i) b[i] = nth(who, sent[who] + i);
                MC_CHECK(c, end[who]->write(b.data(), n) == long(n), "a write");
                sent[who] += n;
            }
            c.step();
        }
        // what is left, and the end
        adv.budget = 0;
        size_t left = sent[0] - got[1];
        std::vector<unsigned char> r(sent[1] - got[0] + 1);  // or the connection would be reset
        MC_CHECK(c, client.read(r.data(), r.size() - 1) == long(r.size()) - 1, "the rest for the client");
        for (size_t i = 0; i + 1 < r.size(); ++i) MC_CHECK(c, r[i] == nth(1, got[0] + i), "the rest for the client is other bytes");
        client.close();
        std::vector<unsigned char> b(left + 5);
        MC_CHECK(c, end[1]->read(b.data(), b.size()) == long(left), "the rest");
        for (size_t i = 0; i < left; ++i) MC_CHECK(c, b[i] == nth(0, got[1] + i), "the rest is other bytes");
        c.nontrivial();
    }
    MC_CHECK(c, openFiles() == before, "connections stay open");
}, opts(2));

// addresses, networks and ends of connections
MC_SECTION("addresses", [](mc::Ctx& c) {
    static const std::vector<uint32_t> some{0, 1, 0x7f000001, 0x0a0000ff, 0x0a000100, 0x7fffffff, 0x80000000, 0xc0a80101, 0xfffffffe, 0xffffffff, 0xaaaaaaaa, 0x55555555};
    uint32_t net = c.pick(some, "network");
    auto text    = [](uint32_t a) { return mc::cat(a >> 24, ".", (a >> 16) & 255, ".", (a >> 8) & 255, ".", a & 255); };
    IPAddress n(text(net));
    MC_CHECK(c, n.asString() == text(net) && n == IPAddress(text(net).c_str()), "an address is written as another");
    for (int bits = 1; bits < 32; ++bits) {
        NetMask m(mc::cat(text(net), "/", bits));
        for (int flip = -1; flip < 32; ++flip) {
            for (uint32_t base : {net, uint32_t(net & (0xffffffffu << (32 - bits))), uint32_t(net | ~(0xffffffffu << (32 - bits)))}) {
                uint32_t a = flip < 0 ? base : base ^ (1u << flip);
                bool in    = (a >> (32 - bits)) == (net >> (32 - bits));
                MC_CHECK(c, m.contains(IPAddress(text(a))) == in, text(a), in ? " is not in " : " is in ", text(net), "/", bits);
                MC_CHECK(c, (IPAddress(text(a)) == n) == (a == net), "equality of addresses");
                c.evals();
            }
        }
    }
    c.nontrivial();
}, opts(1));
MC_SECTION("endpoints", [](mc::Ctx& c) {
    std::string host = c.pick(std::vector<std::string>{"a", "host.example.int", "127.0.0.1", ""}, "host");
    long port        = c.pick(std::vector<long>{0, 1, 80, 65535, 65536, -1, 70000}, "port");
    bool ok          = port >= 0 && port <= 65535, failed = false;
    try {
        Endpoint e(host, port);
        MC_CHECK(c, e.host() == host && e.port() == port && std::string(e) == host + ":" + std::to_string(port), "it is another");
        Buffer b(1000);
        MemoryStream out(b);
        out << e;
        MemoryStream in(b);
        Endpoint f(in);
        MC_CHECK(c, f == e && f.host() == host && f.port() == port, "it is another when streamed");
        if (!host.empty()) {
            Endpoint g{std::string(e)};
            MC_CHECK(c, g == e && !(g != e) && g.port() == port, "it is another when read");
            MC_CHECK(c, Endpoint(host, (port + 1) % 65536) != e && Endpoint(host + "x", port) != e, "different ones are equal");
        }
    }
    catch (Exception&) { failed = true; }
    MC_CHECK(c, failed != ok, failed ? "it is refused" : "it is not refused");
    if (!host.empty()) {
        failed = false;
        try { Endpoint e(mc::cat(host, ":", port)); }
        catch (Exception&) { failed = true; }
        MC_CHECK(c, failed != ok, failed ? "its text is refused" : "its text is not refused");
    }
    for (const char* t : {"", "a", "a:", ":5", "a:5:6", "a:-1", "a:99999999999"}) {
        failed = false;
        try { Endpoint e{std::string(t)}; }
        catch (Exception&) { failed = true; }
        MC_CHECK(c, failed, "\"", t, "\" is not refused");
    }
    c.nontrivial();
}, opts(0));
