// P31: the event loop and the sockets of the system, over the loopback network in real time
#include "media_gen.h"
#include "pbt.h"
#include "sim.h"

#include "srtc/event_loop.h"
#include "srtc/socket.h"

#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstring>
#include <deque>
#include <memory>
#include <set>
#include <thread>

using namespace pbt;
using gen::Bytes;
using gen::toBuffer;

namespace
{

using Clock = std::chrono::steady_clock;

// Someone to talk to
struct Remote {
    int fd = -1;
    srtc::anyaddr addr = {};
    bool v6;
    explicit Remote(bool v6)
        : v6(v6)
    {
        fd = ::socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
        socklen_t len;
        if (v6) {
            addr.sin_ipv6.sin6_family = AF_INET6;
            addr.sin_ipv6.sin6_addr = in6addr_loopback;
            len = sizeof(addr.sin_ipv6);
        } else {
            addr.sin_ipv4.sin_family = AF_INET;
            addr.sin_ipv4.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            len = sizeof(addr.sin_ipv4);
        }
        if (fd < 0 || ::bind(fd, reinterpret_cast<sockaddr*>(&addr), len) != 0) {
            if (fd >= 0)
                ::close(fd);
            fd = -1;
            return;
        }
        ::getsockname(fd, reinterpret_cast<sockaddr*>(&addr), &len);
        const int size = 1 << 20;
        ::setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &size, sizeof(size));
    }
    ~Remote()
    {
        if (fd >= 0)
            ::close(fd);
    }
    Remote(const Remote&) = delete;

    bool sendTo(const srtc::anyaddr& to, const Bytes& data)
    {
        return ::sendto(fd, data.data(), data.size(), 0, reinterpret_cast<const sockaddr*>(&to), v6 ? sizeof(to.sin_ipv6) : sizeof(to.sin_ipv4)) == static_cast<ssize_t>(data.size());
    }
    bool receive(Bytes& data, srtc::anyaddr& from, int millis = 2000)
    {
        pollfd p = { fd, POLLIN, 0 };
        if (::poll(&p, 1, millis) != 1)
            return false;
        data.resize(70000);
        socklen_t len = sizeof(from);
        std::memset(&from, 0, sizeof(from));
        const auto r = ::recvfrom(fd, data.data(), data.size(), 0, reinterpret_cast<sockaddr*>(&from), &len);
        if (r < 0)
            return false;
        data.resize(static_cast<size_t>(r));
        return true;
    }
};

int64_t millisSince(Clock::time_point t)
{
    return std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - t).count();
}

void network(Src& src, Ctx& ctx)
{
    sim::gRealTime = true;
    struct One {
        std::unique_ptr<Remote> remote, stranger;
        std::shared_ptr<srtc::Socket> socket;
        srtc::anyaddr local = {};
        bool known = false, registered = false;
        int tag = 0; // its address is the user data
        std::deque<Bytes> pending;
        bool waiting = false; // there is something to read, if only of a stranger
    };
    std::deque<One> all;
    const auto loop = srtc::EventLoop::factory();
    const auto count = src.oneOf<size_t>({ 1, src.size(1, 4), src.size(8, 24) });
    for (size_t i = 0; i < count; i += 1) {
        all.emplace_back();
        auto& o = all.back();
        auto v6 = src.chance(1, 4);
        o.remote = std::make_unique<Remote>(v6);
        if (v6 && o.remote->fd < 0) {
            v6 = false; // Not here
            o.remote = std::make_unique<Remote>(v6);
        }
        o.stranger = std::make_unique<Remote>(v6);
        if (o.remote->fd < 0 || o.stranger->fd < 0)
            throw Discard();
        if (v6)
            ctx.tag("IPv6");
        o.socket = std::make_shared<srtc::Socket>(o.remote->addr);
        o.tag = static_cast<int>(i);
        PBT_CHECK(ctx, o.socket->handle() >= 0, "socket", "%d", o.socket->handle());
    }
    bool interrupted = false;
    size_t received = 0, wakes = 0, fullWaits = 0, strangers = 0;

    const auto read = [&](One& o) {
        auto list = o.socket->receive();
        // All there is, in order, except an empty datagram may end it
        for (auto& item : list) {
            PBT_CHECK(ctx, !o.pending.empty(), "datagram nobody sent", "%zu bytes", item.buf.size());
            const Bytes got(item.buf.data(), item.buf.data() + item.buf.size());
            PBT_CHECK(ctx, got == o.pending.front(), "datagram", "%zu bytes %s, sent were %zu bytes %s", got.size(), hex(got, 40).c_str(), o.pending.front().size(), hex(o.pending.front(), 40).c_str());
            PBT_CHECK(ctx, o.remote->v6 ? item.addr.sin_ipv6.sin6_port == o.remote->addr.sin_ipv6.sin6_port : item.addr.sin_ipv4.sin_port == o.remote->addr.sin_ipv4.sin_port, "address of a datagram", "%s", srtc::to_string(item.addr).c_str());
            o.pending.pop_front();
            received += 1;
        }
        return list.size();
    };

    const auto wait = [&](int timeout, bool expectWake) {
        std::set<void*> ready;
        for (auto& o : all)
            if (o.registered && o.waiting)
                ready.insert(&o.tag);
        const auto start = Clock::now();
        int stale = 0;
        std::vector<void*> list(1, &stale); // Left over from before
        loop->wait(list, timeout);
        const auto took = millisSince(start);
        std::set<void*> got;
        for (const auto p : list) {
            PBT_CHECK(ctx, p != nullptr, "event without data", "of %zu", list.size());
            PBT_CHECK(ctx, got.insert(p).second, "event twice", "of %zu", list.size());
            PBT_CHECK(ctx, ready.count(p), "event of a socket with nothing to read, or not registered", "%zu events", list.size());
        }
        ctx.note("wait %d: %zu events of %zu after %lld ms%s", timeout, list.size(), ready.size(), static_cast<long long>(took), interrupted ? ", interrupted" : "");
        if (!ready.empty() && !interrupted)
            PBT_CHECK(ctx, !got.empty(), "a readable socket doesn't end the wait", "%zu are readable", ready.size());
        const auto full = std::clamp(timeout, 0, 100);
        if (ready.empty() && !interrupted && !expectWake) {
            PBT_CHECK(ctx, took >= full - 2, "wait ended early", "after %lld of %d ms", static_cast<long long>(took), full);
            fullWaits += 1;
        }
        PBT_CHECK(ctx, took < full + 3000, "wait is too long", "%lld ms, for %d", static_cast<long long>(took), timeout);
        if (interrupted || !ready.empty()) {
            // Timers aren't exact here, but a wait of 100 ms should be seen
            if (full == 100 && took >= 95)
                ctx.fail("the wait didn't end", "%zu readable, interrupted %d, after %lld ms", ready.size(), interrupted, static_cast<long long>(took));
            wakes += 1;
        }
        return got;
    };

    const auto steps = src.size(3, 40);
    for (size_t step = 0; step < steps; step += 1) {
        auto& o = all[src.size(0, all.size() - 1)];
        switch (src.pick({ 3, 4, 5, 2, 1, 1, 1 })) {
        case 0: {
            // Send: it comes to the other side as it is, and tells our address
            const auto data = src.blob(src.oneOf<size_t>({ src.size(1, 100), 1200, src.size(1, 9000) }));
            const auto r = src.chance(1, 2) ? o.socket->send(data.data(), data.size()) : o.socket->send(toBuffer(data));
            PBT_CHECK(ctx, r == static_cast<ssize_t>(data.size()), "send", "%zd of %zu", r, data.size());
            Bytes got;
            PBT_CHECK(ctx, o.remote->receive(got, o.local), "datagram isn't received", "%zu bytes", data.size());
            PBT_CHECK(ctx, got == data, "datagram sent", "%zu bytes, received are %zu", data.size(), got.size());
            o.known = true;
            break;
        }
        case 1: {
            if (!o.known)
                break;
            for (size_t n = src.size(1, 8); n > 0; n -= 1) {
                if (src.chance(1, 5)) {
                    if (o.stranger->sendTo(o.local, src.blob(src.size(1, 300)))) {
                        strangers += 1;
                        o.waiting = true;
                    }
                    continue;
                }
                const auto data = src.blob(src.oneOf<size_t>({ src.size(1, 100), 1500, src.size(1, 9000) }));
                size_t held = 0;
                for (const auto& x : o.pending)
                    held += x.size() + 1000;
                if (held + data.size() > 60000)
                    break; // More than the system may keep
                if (o.remote->sendTo(o.local, data)) {
                    o.pending.push_back(data);
                    o.waiting = true;
                }
            }
            // The loopback network delivers within the call
            break;
        }
        case 2: {
            Clock::time_point when = {};
            std::thread helper;
            const auto timeout = src.oneOf<int>({ 0, static_cast<int>(src.range(1, 30)), 100, static_cast<int>(src.range(-5, 300)) });
            const auto other = src.chance(1, 4);
            if (other) {
                // Interrupted by another thread, before it waits or while
                const auto us = src.oneOf<int64_t>({ 0, src.range(0, 300), src.range(0, 5000) });
                helper = std::thread([&loop, us, &when] {
                    if (us)
                        ::usleep(static_cast<useconds_t>(us));
                    when = Clock::now();
                    loop->interrupt();
                });
                ctx.tag("interrupted by a thread");
            }
            const auto got = wait(timeout, other);
            const auto ended = Clock::now();
            if (helper.joinable()) {
                helper.join();
                const auto after = std::chrono::duration_cast<std::chrono::milliseconds>(ended - when).count();
                PBT_CHECK(ctx, after < 90, "an interrupt doesn't end the wait", "%lld ms later", static_cast<long long>(after));
                // If it came too late for this wait it's for the next one; with more than ten sockets it can take several
                for (int i = 0; i < 4; i += 1)
                    wait(0, true);
            }
            for (auto& x : all)
                if (got.count(&x.tag) && src.chance(5, 6)) {
                    read(x);
                    PBT_CHECK(ctx, x.pending.empty(), "datagrams are left behind", "%zu", x.pending.size());
                    x.waiting = false;
                }
            break;
        }
        case 3:
            if (!o.registered) {
                loop->registerSocket(o.socket, &o.tag);
                o.registered = true;
            } else if (src.chance(1, 3)) {
                loop->unregisterSocket(o.socket);
                o.registered = false;
            }
            break;
        case 4: {
            // Several interrupts are as good as one
            for (size_t n = src.size(1, 3); n > 0; n -= 1)
                loop->interrupt();
            interrupted = true;
            wait(100, true);
            // With more than ten sockets ready the wake-up itself can be for later
            for (int i = 0; i < 4; i += 1)
                wait(0, true);
            interrupted = false;
            break;
        }
        case 5:
            // Without the loop
            if (o.waiting) {
                read(o);
                PBT_CHECK(ctx, o.pending.empty(), "datagrams are left behind", "%zu", o.pending.size());
                o.waiting = false;
            } else
                PBT_CHECK(ctx, o.socket->receive().empty(), "datagram nobody sent", "socket %d", o.tag);
            break;
        default: {
            // None of many starves: each readable one comes up within a few waits
            std::set<void*> due, seen;
            for (auto& x : all)
                if (x.registered && x.waiting)
                    due.insert(&x.tag);
            for (size_t i = 0; i < 2 + 2 * (due.size() / 10) && seen.size() < due.size(); i += 1)
                for (const auto p : wait(100, false))
                    seen.insert(p);
            PBT_CHECK(ctx, seen == due, "a readable socket is never reported", "%zu of %zu were", seen.size(), due.size());
            for (auto& x : all)
                if (x.registered && x.waiting) {
                    read(x);
                    PBT_CHECK(ctx, x.pending.empty(), "datagrams are left behind", "%zu", x.pending.size());
                    x.waiting = false;
                }
            if (due.size() > 10)
                ctx.tag("more than ten sockets");
            break;
        }
        }
    }
    ctx.tagN("datagrams received", received);
    ctx.tagN("full waits", fullWaits);
    ctx.tagN("datagrams of strangers", strangers);
    if (received && wakes)
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P31",
            "datagrams were received, and waits were ended by them or by an interrupt",
            { "the loopback network delivers datagrams in order, at once, and loses none of these few", "a wait of 100 ms isn't delayed by 3 s" },
            { { "network", 1, network } } });
}
