// P33: the programs srtc_publish and srtc_subscribe, as processes of their own, against a server of WHIP and WHEP here, over the
// loopback network in real time
#include "media_gen.h"
#include "pbt.h"
#include "rig.h"
#include "sim.h"
#include "tool_files.h"

#include <arpa/inet.h>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>

using namespace pbt;
using namespace gen;

namespace
{

double nowSeconds()
{
    return sim::realSeconds();
}

void pause(unsigned millis)
{
    ::poll(nullptr, 0, static_cast<int>(millis));
}

std::string slurp(const std::string& path)
{
    std::string r;
    if (const auto f = fopen(path.c_str(), "rb")) {
        char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof(buf), f)) > 0)
            r.append(buf, n);
        fclose(f);
    }
    return r;
}

// A directory of the case, in the working directory, which is a scratch one
struct Folder {
    std::string path;
    std::vector<std::string> files;
    Folder()
        : path("./p33-" + std::to_string(getpid()))
    {
        ::mkdir(path.c_str(), 0700);
    }
    std::string file(const std::string& name)
    {
        files.push_back(path + "/" + name);
        ::unlink(files.back().c_str());
        return files.back();
    }
    ~Folder()
    {
        for (const auto& f : files)
            ::unlink(f.c_str());
        ::rmdir(path.c_str());
    }
};

struct Program {
    pid_t pid = -1;
    std::string log;
    int status = 0;
    bool ended = false;

    Program(Folder& folder, const char* which, const std::vector<std::string>& args)
        : log(folder.file(std::string(which) + ".log"))
    {
        const auto path = ::getenv(which);
        if (!path) {
            fprintf(stderr, "%s is not set\n", which);
            abort();
        }
        std::vector<char*> argv = { path };
        for (const auto& a : args)
            argv.push_back(const_cast<char*>(a.c_str()));
        argv.push_back(nullptr);
        const auto out = ::open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        const auto null = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
        const auto parent = getpid();
        pid = ::fork();
        if (pid == 0) {
            ::prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != parent)
                _exit(99);
            ::dup2(null, 0);
            ::dup2(out, 1);
            ::dup2(out, 2);
            ::execv(path, argv.data());
            _exit(98);
        }
        ::close(out);
        ::close(null);
        if (pid < 0)
            throw Discard();
    }
    ~Program()
    {
        if (!ended) {
            ::kill(pid, SIGKILL);
            ::waitpid(pid, &status, 0);
        }
    }
    bool over()
    {
        if (!ended && ::waitpid(pid, &status, WNOHANG) == pid)
            ended = true;
        return ended;
    }
    bool wait(double seconds)
    {
        for (const auto until = nowSeconds() + seconds; !over();) {
            if (nowSeconds() > until)
                return false;
            pause(3);
        }
        return true;
    }
    void signal(int s)
    {
        if (!over())
            ::kill(pid, s);
    }
    std::string said() const
    {
        return slurp(log);
    }
    bool crashed() const
    {
        return ended && (!WIFEXITED(status) || WEXITSTATUS(status) > 1);
    }
    int code() const
    {
        return WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
    }
    std::string tail() const
    {
        const auto s = said();
        const auto at = s.find("ERROR: AddressSanitizer");
        const auto other = s.find("runtime error:");
        const auto from = std::min(at, other);
        if (from != std::string::npos)
            return s.substr(from > 200 ? from - 200 : 0, 1500);
        return s.size() > 700 ? s.substr(s.size() - 700) : s;
    }
};

void soundEnd(Ctx& ctx, const Program& p, const char* name)
{
    PBT_CHECK(ctx, !p.crashed(), "a program crashes", "%s ended with %d: %s", name, p.code(), p.tail().c_str());
}

// ----- HTTP

struct Request {
    std::string method, path, body, error;
    std::multimap<std::string, std::string> headers; // names in lower case
    const std::string* header(const std::string& n) const
    {
        const auto i = headers.find(n);
        return headers.count(n) == 1 ? &i->second : nullptr;
    }
};

struct Reply {
    unsigned status = 201;
    std::string reason = "Created";
    std::vector<std::pair<std::string, std::string>> headers;
    std::string body;
    int framing = 0; // By length, chunked, until the end of the connection, nothing at all
    size_t cut = SIZE_MAX; // So many bytes of the reply are sent only
    std::vector<size_t> pieces; // Sizes of what is sent at once, repeated
    unsigned pauses = 0; // Between the first ones of them, in milliseconds
    bool interim = true; // 100 Continue is sent when it's asked for
    bool extraInterim = false;
    unsigned delay = 0;
};

// Listens on a port of its own. What it replies to a request is asked of the case.
class Server
{
public:
    unsigned port = 0;

    using Handler = std::function<Reply(const Request&)>; // On threads of the server

    explicit Server(Handler handler)
        : mHandler(std::move(handler))
    {
        mFd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        sockaddr_in a = {};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t len = sizeof(a);
        if (mFd < 0 || ::bind(mFd, reinterpret_cast<sockaddr*>(&a), len) != 0 || ::listen(mFd, 10) != 0 || ::getsockname(mFd, reinterpret_cast<sockaddr*>(&a), &len) != 0)
            throw Discard();
        port = ntohs(a.sin_port);
        mThread = std::thread([this] { accept(); });
    }
    ~Server()
    {
        mQuit = true;
        mThread.join();
        for (auto& t : mTalks)
            t.join();
        ::close(mFd);
    }
    std::vector<Request> requests()
    {
        std::lock_guard lock(mMutex);
        return mRequests;
    }
    bool quits() const
    {
        return mQuit;
    }

private:
    const Handler mHandler;
    int mFd = -1;
    std::atomic<bool> mQuit{ false };
    std::thread mThread;
    std::vector<std::thread> mTalks;
    std::mutex mMutex;
    std::vector<Request> mRequests;

    void accept()
    {
        while (!mQuit) {
            pollfd p = { mFd, POLLIN, 0 };
            if (::poll(&p, 1, 10) <= 0)
                continue;
            const auto fd = ::accept4(mFd, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
            if (fd >= 0)
                mTalks.emplace_back([this, fd] {
                    talk(fd);
                    ::close(fd);
                });
        }
    }
    bool more(int fd, std::string& in)
    {
        while (!mQuit) {
            pollfd p = { fd, POLLIN, 0 };
            if (::poll(&p, 1, 10) <= 0)
                continue;
            char buf[16384];
            const auto n = ::recv(fd, buf, sizeof(buf), 0);
            if (n <= 0)
                return false;
            in.append(buf, static_cast<size_t>(n));
            return true;
        }
        return false;
    }
    bool put(int fd, const char* s, size_t n)
    {
        while (n && !mQuit) {
            const auto r = ::send(fd, s, n, MSG_NOSIGNAL);
            if (r < 0 && errno != EAGAIN)
                return false;
            if (r <= 0) {
                pollfd p = { fd, POLLOUT, 0 };
                ::poll(&p, 1, 10);
                continue;
            }
            s += r;
            n -= static_cast<size_t>(r);
        }
        return true;
    }
    void talk(int fd)
    {
        std::string in;
        while (!mQuit) {
            size_t end;
            while ((end = in.find("\r\n\r\n")) == std::string::npos)
                if (!more(fd, in))
                    return;
            Request q;
            size_t at = in.find("\r\n");
            const auto line = in.substr(0, at);
            const auto a = line.find(' '), b = line.rfind(' ');
            if (a == std::string::npos || a == b || line.compare(b, 6, " HTTP/") != 0)
                q.error = line;
            else {
                q.method = line.substr(0, a);
                q.path = line.substr(a + 1, b - a - 1);
            }
            while (at < end) {
                const auto next = in.find("\r\n", at + 2);
                const auto h = in.substr(at + 2, next - at - 2);
                const auto c = h.find(':');
                auto n = h.substr(0, c);
                for (auto& ch : n)
                    ch = static_cast<char>(tolower(ch));
                const auto v = c == std::string::npos ? c : h.find_first_not_of(' ', c + 1);
                q.headers.emplace(n, v == std::string::npos ? "" : h.substr(v));
                at = next;
            }
            in.erase(0, end + 4);
            // What the reply is doesn't depend on the body, except in its content
            const auto length = q.header("content-length");
            const auto size = length ? strtoul(length->c_str(), nullptr, 10) : 0;
            if (const auto e = q.header("expect"); e && in.empty()) {
                static const char interim[] = "HTTP/1.1 100 Continue\r\n\r\n";
                put(fd, interim, sizeof(interim) - 1);
            }
            while (in.size() < size)
                if (!more(fd, in))
                    return;
            q.body = in.substr(0, size);
            in.erase(0, size);
            {
                std::lock_guard lock(mMutex);
                mRequests.push_back(q);
            }
            const auto r = mHandler(q);
            if (mQuit || !reply(fd, r))
                return;
        }
    }
    // False when the connection ends with it
    bool reply(int fd, const Reply& r)
    {
        pause(r.delay);
        if (r.framing == 3)
            return false;
        std::string out;
        if (r.extraInterim)
            out += "HTTP/1.1 102 Processing\r\nX-Interim: 1\r\n\r\n";
        out += "HTTP/1.1 " + std::to_string(r.status) + " " + r.reason + "\r\n";
        for (const auto& h : r.headers)
            out += h.first + ": " + h.second + "\r\n";
        if (r.framing == 0) {
            out += "Content-Length: " + std::to_string(r.body.size()) + "\r\n\r\n" + r.body;
        } else if (r.framing == 1) {
            out += "Transfer-Encoding: chunked\r\n\r\n";
            for (size_t at = 0, k = 0; at < r.body.size(); k += 1) {
                const auto n = std::min(r.body.size() - at, 1 + (k * 97 + 31) % 400);
                char buf[16];
                snprintf(buf, sizeof(buf), "%zx\r\n", n);
                out += buf + r.body.substr(at, n) + "\r\n";
                at += n;
            }
            out += "0\r\n\r\n";
        } else {
            out += "Connection: close\r\n\r\n" + r.body;
        }
        const auto whole = r.cut >= out.size();
        out.resize(std::min(out.size(), r.cut));
        for (size_t at = 0, k = 0; at < out.size(); k += 1) {
            const auto n = r.pieces.empty() || k > 20 ? out.size() - at : std::min(out.size() - at, r.pieces[k % r.pieces.size()]);
            if (!put(fd, out.data() + at, n))
                return false;
            at += n;
            if (r.pauses && k < 8)
                pause(r.pauses);
        }
        return whole && r.framing != 2;
    }
};

// How an answer of a server comes, apart from what it is
void drawManner(Src& src, Reply& r, bool crlf)
{
    r.status = src.chance(1, 3) ? 200 : 201;
    r.reason = r.status == 200 ? "OK" : src.chance(1, 4) ? "" : "Created";
    r.framing = static_cast<int>(src.pick({ 3, 2, 2 }));
    if (src.chance(1, 3))
        for (size_t n = src.size(1, 3); n > 0; n -= 1)
            r.pieces.push_back(src.size(1, 300));
    r.pauses = src.chance(1, 6) ? 3 : 0;
    r.extraInterim = src.chance(1, 12);
    r.delay = src.chance(1, 6) ? static_cast<unsigned>(src.size(1, 60)) : 0;
    r.headers.emplace_back("Content-Type", "application/sdp");
    if (r.status == 201)
        r.headers.emplace_back(src.chance(1, 2) ? "Location" : "location", "/resource/1");
    if (src.chance(1, 4))
        r.headers.emplace_back("ETag", "\"xyz\"");
    if (src.chance(1, 4))
        r.headers.emplace_back("Link", "<stun:stun.example.net>; rel=\"ice-server\"");
    if (!crlf) {
        std::string s;
        for (const auto c : r.body)
            if (c != '\r')
                s += c;
        r.body = s;
    }
}

// Where requests go: to the first path, and from there by redirects
struct Route {
    std::string token, base;
    std::vector<std::string> paths;
    std::vector<unsigned> statuses;
    std::vector<bool> absolute;
    unsigned port = 0;
    size_t find(const std::string& path) const
    {
        for (size_t i = 0; i < paths.size(); i += 1)
            if (paths[i] == path)
                return i;
        return SIZE_MAX;
    }
    std::string url() const
    {
        return "http://127.0.0.1:" + std::to_string(port) + paths[0];
    }
    Reply redirect(size_t i) const
    {
        Reply r;
        r.status = statuses[i];
        r.reason = "Elsewhere";
        r.headers.emplace_back("Location", (absolute[i] ? "http://127.0.0.1:" + std::to_string(port) : "") + paths[i + 1]);
        r.body = "moved";
        return r;
    }
};

Route drawRoute(Src& src, const std::string& base)
{
    Route r;
    r.base = base;
    r.token = src.pick({ 4, 1 }) ? "T" + std::to_string(src.u32()) + ".-_~+/=" : "secret";
    const auto hops = src.pick({ 5, 2, 1 });
    for (size_t i = 0; i <= hops; i += 1) {
        auto path = "/" + base + std::to_string(i);
        if (src.chance(1, 3))
            path += "/stream?key=" + std::to_string(src.u16()) + "&x=%20y";
        r.paths.push_back(path);
        r.statuses.push_back(src.chance(1, 2) ? 307 : 308);
        r.absolute.push_back(src.chance(1, 2));
    }
    return r;
}

void checkRequest(Ctx& ctx, const Request& q, const Route& route)
{
    PBT_CHECK(ctx, q.error.empty(), "not a request of HTTP", "%s", q.error.c_str());
    PBT_CHECK(ctx, q.method == "POST", "an offer is not posted", "%s %s", q.method.c_str(), q.path.c_str());
    PBT_CHECK(ctx, route.find(q.path) != SIZE_MAX, "the request is for another path", "%s", q.path.c_str());
    const auto t = q.header("content-type");
    PBT_CHECK(ctx, t && *t == "application/sdp", "the type of the content is wrong", "%s", t ? t->c_str() : "none");
    const auto a = q.header("authorization");
    PBT_CHECK(ctx, a && *a == "Bearer " + route.token, "the token is not sent", "%s, expected %s", a ? a->c_str() : "none", route.token.c_str());
    PBT_CHECK(ctx, q.header("content-length"), "no length of the content", "%s", "");
}

// Each request is one the route leads to, in order, and all have the same offer
void checkRequests(Ctx& ctx, const std::vector<Request>& list, const Route& route, size_t expected, const std::string& said)
{
    size_t i = 0;
    const Request* first = nullptr;
    for (const auto& q : list) {
        if (route.find(q.path) == SIZE_MAX && q.path.compare(1, route.base.size(), route.base) != 0)
            continue; // The other program's
        checkRequest(ctx, q, route);
        PBT_CHECK(ctx, i < expected && q.path == route.paths[i], "a request too many, or out of order", "%s is number %zu", q.path.c_str(), i);
        if (!first)
            first = &q;
        PBT_CHECK(ctx, q.body == first->body && !q.body.empty(), "the offer is lost on the way", "%zu bytes, then %zu", first->body.size(), q.body.size());
        i += 1;
    }
    PBT_CHECK(ctx, i == expected, "no request was made", "%zu of %zu: %s", i, expected, said.c_str());
}

// ----- Input files

struct Input {
    Codec codec;
    std::string ending;
    Bytes bytes;
    std::vector<Frame> frames;
    std::vector<int64_t> millis;
};

Input drawInput(Src& src, Codec codec, size_t least, size_t most)
{
    Input in;
    in.codec = codec;
    FrameGen g(src, codec, 3, 1150);
    const auto n = src.size(least, most);
    int64_t t = src.chance(1, 3) ? src.range(0, 100) : 0;
    for (size_t i = 0; i < n; i += 1) {
        auto f = g.next(i == 0 || src.chance(1, 5));
        in.frames.push_back(std::move(f));
        in.millis.push_back(t);
        t += src.pick({ 4, 1 }) ? src.range(5, 60) : src.oneOf<int64_t>({ 20, 33, 40 });
    }
    if (codec == Codec::H264 || codec == Codec::H265) {
        in.ending = codec == Codec::H264 ? ".h264" : ".h265";
        for (size_t i = 0; i < n; i += 1) {
            in.bytes.insert(in.bytes.end(), in.frames[i].expected.begin(), in.frames[i].expected.end());
            in.millis[i] = static_cast<int64_t>(i) * 40;
        }
        return in;
    }
    in.ending = codec == Codec::VP8 ? "-vp8.webm" : codec == Codec::VP9 ? "-vp9.webm" : "-av1.webm";
    Bytes head;
    ebml(src, head, 0x4286, { 1 });
    ebml(src, head, 0x4282, { 'w', 'e', 'b', 'm' });
    ebml(src, in.bytes, 0x1A45DFA3, head);
    Bytes segment, info;
    ebml(src, info, 0x2AD7B1, uintBytes(src, 1000000));
    ebml(src, segment, 0x1549A966, info);
    const std::string id = codec == Codec::VP8 ? "V_VP8" : codec == Codec::VP9 ? "V_VP9" : "V_AV1";
    Bytes entry, tracks;
    ebml(src, entry, 0xD7, { 1 });
    ebml(src, entry, 0x83, { 1 });
    ebml(src, entry, 0x86, Bytes(id.begin(), id.end()));
    ebml(src, tracks, 0xAE, entry);
    ebml(src, segment, 0x1654AE6B, tracks);
    for (size_t i = 0; i < n;) {
        Bytes cluster;
        const auto base = in.millis[i];
        ebml(src, cluster, 0xE7, uintBytes(src, static_cast<uint64_t>(base)));
        for (size_t k = src.size(1, 8); k > 0 && i < n; k -= 1) {
            const auto offset = in.millis[i] - base;
            Bytes block = { 0x81, static_cast<uint8_t>(offset >> 8), static_cast<uint8_t>(offset), static_cast<uint8_t>(in.frames[i].key ? 0x80 : 0) };
            block.insert(block.end(), in.frames[i].input.begin(), in.frames[i].input.end());
            ebml(src, cluster, 0xA3, block);
            i += 1;
        }
        ebml(src, segment, 0x1F43B675, cluster);
    }
    ebml(src, in.bytes, 0x18538067, segment);
    return in;
}

// ----- The network in between

class Relay
{
public:
    unsigned port[2];
    std::function<bool(const uint8_t* data, size_t size, int from)> drop; // Media only

    Relay()
    {
        for (int k = 0; k < 2; k += 1) {
            mFd[k] = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
            sockaddr_in a = {};
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            socklen_t len = sizeof(a);
            if (mFd[k] < 0 || ::bind(mFd[k], reinterpret_cast<sockaddr*>(&a), len) != 0 || ::getsockname(mFd[k], reinterpret_cast<sockaddr*>(&a), &len) != 0)
                throw Discard();
            const int size = 1 << 20;
            ::setsockopt(mFd[k], SOL_SOCKET, SO_RCVBUF, &size, sizeof(size));
            port[k] = ntohs(a.sin_port);
        }
        mThread = std::thread([this] { work(); });
    }
    ~Relay()
    {
        mQuit = true;
        mThread.join();
        ::close(mFd[0]);
        ::close(mFd[1]);
    }

private:
    int mFd[2] = { -1, -1 };
    std::atomic<bool> mQuit{ false };
    std::thread mThread;

    void work()
    {
        sockaddr_in who[2] = {};
        bool known[2] = {};
        std::vector<uint8_t> buf(66000);
        while (!mQuit) {
            pollfd p[2] = { { mFd[0], POLLIN, 0 }, { mFd[1], POLLIN, 0 } };
            ::poll(p, 2, 10);
            for (int k = 0; k < 2; k += 1)
                for (int n = 0; n < 50; n += 1) {
                    sockaddr_in from = {};
                    socklen_t len = sizeof(from);
                    const auto r = ::recvfrom(mFd[k], buf.data(), buf.size(), 0, reinterpret_cast<sockaddr*>(&from), &len);
                    if (r <= 0)
                        break;
                    who[k] = from;
                    known[k] = true;
                    if (drop && r > 12 && buf[0] >> 6 == 2 && !(buf[1] >= 192 && buf[1] < 224) && drop(buf.data(), static_cast<size_t>(r), k))
                        continue;
                    if (known[1 - k])
                        ::sendto(mFd[1 - k], buf.data(), static_cast<size_t>(r), 0, reinterpret_cast<sockaddr*>(&who[1 - k]), sizeof(from));
                }
        }
    }
};

std::string joined(const std::vector<std::string>& v)
{
    std::string s;
    for (const auto& a : v)
        s += " " + a;
    return s;
}

// ----- From a file to a file

void carry(Src& src, Ctx& ctx)
{
    sim::gRealTime = true;
    Folder folder;
    const auto codec = src.oneOf<Codec>({ Codec::H264, Codec::VP8, Codec::H265, Codec::VP9, Codec::AV1 });
    const auto in = drawInput(src, codec, 2, 14);
    const auto input = folder.file("in" + in.ending);
    {
        const auto f = fopen(input.c_str(), "wb");
        if (!f || fwrite(in.bytes.data(), 1, in.bytes.size(), f) != in.bytes.size())
            throw Discard();
        fclose(f);
    }
    const auto output = folder.file("out" + in.ending);

    auto whip = drawRoute(src, "whip"), whep = drawRoute(src, "whep");
    const auto active = src.size(0, 1);
    const auto crlf = src.chance(2, 3);
    Reply manner[2];
    for (auto& m : manner)
        drawManner(src, m, true);
    const auto bwe = src.chance(1, 3), capture = src.chance(1, 3), data = src.chance(1, 4);
    const auto interrupted = src.chance(1, 6);
    const auto interruptAfter = static_cast<unsigned>(src.size(0, 400));
    const auto how = src.chance(1, 2) ? SIGTERM : SIGINT;
    const auto loop = interrupted && src.chance(1, 2);
    std::set<Bytes> distinct;
    size_t units = 0;
    for (const auto& f : in.frames)
        for (const auto& u : f.units) {
            distinct.insert(u);
            units += 1;
        }
    const auto lossy = distinct.size() == units && !interrupted && in.frames.size() >= 8 && src.chance(1, 3);
    const auto lossSeed = src.u32();

    Relay relay;
    std::mutex mutex;
    std::condition_variable cond;
    rig::OfferInfo info[2];
    std::string offers[2], answers[2], wrong;
    Server* server = nullptr;

    const auto prepare = [&] {
        // Both offers are there. The answer to the subscriber states what the publisher sends.
        for (size_t k = 0; k < 2; k += 1) {
            info[k] = rig::readOffer(offers[k]);
            if (!info[k].error.empty())
                wrong = info[k].error;
        }
        const rig::MediaInfo* sent = nullptr;
        for (const auto& m : info[0].media)
            if (m.type == "video")
                sent = &m;
        if (!sent || sent->payloads.empty()) {
            wrong = "no video in the offer of the publisher";
            return;
        }
        for (size_t k = 0; k < 2 && wrong.empty(); k += 1) {
            rig::Ident ident;
            ident.ufrag = info[1 - k].ufrag;
            ident.pwd = info[1 - k].pwd;
            ident.fingerprint = info[1 - k].fingerprint;
            ident.active = k == active;
            ident.hosts.push_back({ 77, relay.port[k] });
            rig::AnswerOptions o;
            auto view = info[k];
            if (k == 1) {
                o.sender = &info[0];
                view.media.clear();
                for (auto m : info[1].media) {
                    if (m.type != "video")
                        continue;
                    auto found = false;
                    for (const auto& p : m.payloads)
                        found = found || p.codec == sent->payloads[0].codec;
                    if (!found)
                        wrong = "the codec is not in the offer of the subscriber";
                    m.list = sent->list;
                    m.payloads = sent->payloads;
                    m.extensions = sent->extensions;
                    view.media.push_back(m);
                }
            }
            auto text = rig::writeAnswer(view, ident, o);
            for (size_t at; (at = text.find("10.0.0.77")) != std::string::npos;)
                text.replace(at, 9, "127.0.0.1");
            answers[k] = text;
        }
    };
    Server http([&](const Request& q) {
        const size_t k = q.path.compare(0, 5, "/whip") == 0 ? 0 : 1;
        const auto& route = k == 0 ? whip : whep;
        const auto i = route.find(q.path);
        Reply r;
        if (i == SIZE_MAX) {
            r.status = 404;
            return r;
        }
        if (i + 1 < route.paths.size())
            return route.redirect(i);
        std::unique_lock lock(mutex);
        offers[k] = q.body;
        if (!offers[1 - k].empty()) {
            prepare();
            cond.notify_all();
        }
        while (answers[k].empty() && wrong.empty() && !server->quits())
            cond.wait_for(lock, std::chrono::milliseconds(20));
        r = manner[k];
        r.body = answers[k];
        if (!crlf) {
            std::string s;
            for (const auto c : r.body)
                if (c != '\r')
                    s += c;
            r.body = s;
        }
        return r;
    });
    server = &http;
    whip.port = whep.port = http.port;

    // Packets of the first half of the frames, except the very first one. In which frames, is told by their time.
    std::vector<uint32_t> times;
    std::set<size_t> damaged;
    std::optional<uint32_t> main;
    std::atomic<size_t> dropped{ 0 };
    const auto lossFrames = in.frames.size() / 2;
    if (lossy)
        relay.drop = [&](const uint8_t* p, size_t, int from) {
            if (from != 0)
                return false;
            const auto ssrc = rig::be32(p + 8);
            if (!main)
                main = ssrc;
            if (ssrc != *main)
                return false; // What is sent again
            const auto seq = rig::be16(p + 2);
            const auto time = rig::be32(p + 4);
            if (times.empty() || times.back() != time)
                times.push_back(time);
            if (times.size() > lossFrames || times.size() < 2)
                return false;
            if ((seq * 2654435761u ^ lossSeed) % 7 != 0)
                return false;
            std::lock_guard lock(mutex);
            damaged.insert(times.size() - 1);
            dropped += 1;
            return true;
        };

    std::vector<std::string> publish = { "-f", input, "--url", whip.url(), "-t", whip.token };
    std::vector<std::string> subscribe = { "--ov", output, "-u", whep.url(), "--token", whep.token };
    if (bwe)
        publish.push_back(src.chance(1, 2) ? "-b" : "--bwe");
    if (data)
        publish.push_back(src.chance(1, 2) ? "-c" : "--datachannels");
    if (loop)
        publish.push_back(src.chance(1, 2) ? "-l" : "--loop");
    if (capture) {
        publish.push_back("-a");
        subscribe.push_back(src.chance(1, 2) ? "-a" : "--abs-capture-time");
    }
    for (size_t k = 0; k < 2; k += 1) {
        auto& list = k == 0 ? publish : subscribe;
        if (src.chance(1, 3))
            list.push_back("-q");
        if (src.chance(1, 3))
            list.push_back(src.chance(1, 2) ? "-s" : "--sdp");
        if (src.chance(1, 4))
            list.push_back("-v");
    }
    if (src.chance(1, 3))
        publish.push_back("-i");
    if (src.chance(1, 3))
        subscribe.push_back("-r");
    ctx.note("%s: %zu frames in %lld ms%s%s; publish%s; subscribe%s", name(codec), in.frames.size(), static_cast<long long>(in.millis.back()), lossy ? ", losses" : "", interrupted ? ", interrupted" : "", joined(publish).c_str(), joined(subscribe).c_str());
    for (const auto& f : in.frames)
        ctx.note("  %s", f.describe.c_str());

    const auto subscriberFirst = src.chance(1, 2);
    std::unique_ptr<Program> pub, sub;
    for (int k = 0; k < 2; k += 1)
        if ((k == 0) == subscriberFirst)
            sub = std::make_unique<Program>(folder, "VERIF_SRTC_SUBSCRIBE", subscribe);
        else
            pub = std::make_unique<Program>(folder, "VERIF_SRTC_PUBLISH", publish);

    if (interrupted) {
        // Once it plays
        const auto until = nowSeconds() + 20;
        while (sub->said().find("connected in") == std::string::npos && !sub->over() && !pub->over() && nowSeconds() < until)
            pause(5);
        pause(interruptAfter);
        sub->signal(how);
    }
    // The publisher ends with its file, then the subscriber with the connection
    const auto pubEnded = pub->wait(25);
    const auto subEnded = sub->wait(12);
    {
        std::lock_guard lock(mutex);
        PBT_CHECK(ctx, wrong.empty(), "the offers don't lead to an answer", "%s", wrong.c_str());
    }
    if (pubEnded)
        soundEnd(ctx, *pub, "srtc_publish");
    if (subEnded)
        soundEnd(ctx, *sub, "srtc_subscribe");
    PBT_CHECK(ctx, pubEnded, "the publisher doesn't end", "%s", pub->tail().c_str());
    PBT_CHECK(ctx, subEnded, "the subscriber doesn't end", "%s", sub->tail().c_str());
    PBT_CHECK(ctx, pub->code() == 0, "the publisher fails", "%d: %s", pub->code(), pub->tail().c_str());
    if (!interrupted)
        PBT_CHECK(ctx, sub->code() == 0, "the subscriber fails", "%d: %s", sub->code(), sub->tail().c_str());

    const auto requests = http.requests();
    checkRequests(ctx, requests, whip, whip.paths.size(), pub->tail());
    checkRequests(ctx, requests, whep, whep.paths.size(), sub->tail());

    // What was recorded is what was in the file. Where packets were lost, a frame may be missing, for what is sent again may
    // come too late.
    std::set<size_t> lost;
    {
        std::lock_guard lock(mutex);
        lost = damaged;
    }
    const auto text = slurp(output);
    const auto out = Bytes(text.begin(), text.end());
    size_t count = 0, next = 0, passes = 0;
    if (codec == Codec::H264 || codec == Codec::H265) {
        struct Slice {
            size_t frame;
            bool first;
            Bytes data;
        };
        std::vector<Slice> slices;
        std::vector<std::vector<Bytes>> params(in.frames.size());
        for (size_t i = 0; i < in.frames.size(); i += 1) {
            auto first = true;
            for (const auto& u : in.frames[i].units) {
                if (isParams(codec, u))
                    params[i].push_back(u);
                else if (isSlice(codec, u)) {
                    slices.push_back({ i, first, u });
                    first = false;
                }
            }
        }
        std::vector<Bytes> before;
        size_t at = 0;
        for (const auto& u : nalus(out)) {
            PBT_CHECK(ctx, !u.empty(), "an empty unit is recorded", "after %zu slices", at);
            if (isParams(codec, u)) {
                before.push_back(u);
                continue;
            }
            if (!isSlice(codec, u))
                continue;
            while (at < slices.size() && slices[at].data != u && lost.count(slices[at].frame))
                at += 1;
            if (loop && at == slices.size()) {
                at = 0;
                passes += 1;
            }
            PBT_CHECK(ctx, at < slices.size(), "more is recorded than was in the file", "%zu slices", at);
            const auto& s = slices[at];
            PBT_CHECK(ctx, u == s.data, "what is recorded is not what was in the file", "frame %zu: %zu bytes, was %zu", s.frame, u.size(), s.data.size());
            if (s.first && in.frames[s.frame].key && !lost.count(s.frame) && (s.frame == 0 || !lost.count(s.frame - 1)))
                PBT_CHECK(ctx, before == params[s.frame], "a key frame is recorded without its parameters", "frame %zu: %zu instead of %zu", s.frame, before.size(), params[s.frame].size());
            before.clear();
            at += 1;
        }
        while (at < slices.size() && lost.count(slices[at].frame))
            at += 1;
        next = at < slices.size() ? slices[at].frame : in.frames.size();
        count = next;
    } else if (!out.empty()) {
        const auto top = elements(ctx, "file", out.data(), out.size());
        const Element* segment = find(top, 0x18538067);
        PBT_CHECK(ctx, segment, "what is recorded is not Matroska", "%zu bytes", out.size());
        int64_t first = 0, last = 0;
        for (const auto& c : elements(ctx, "segment", segment->data, segment->size)) {
            if (c.id != 0x1F43B675)
                continue;
            const auto list = elements(ctx, "cluster", c.data, c.size);
            const auto& tc = need(ctx, list, 0xE7, "Timestamp");
            for (const auto& b : list) {
                if (b.id != 0xA3)
                    continue;
                PBT_CHECK(ctx, b.size >= 4, "a block is too short", "%zu", count);
                const Bytes data(b.data + 4, b.data + b.size);
                const auto fits = [&](size_t i) {
                    const auto& e = in.frames[i].expected;
                    return data == e || (codec == Codec::AV1 && lost.count(i) && data.size() < e.size() && std::equal(data.rbegin(), data.rend(), e.rbegin()));
                };
                while (next < in.frames.size() && !fits(next) && lost.count(next))
                    next += 1;
                if (loop && next == in.frames.size()) {
                    next = 0;
                    passes += 1;
                }
                PBT_CHECK(ctx, next < in.frames.size(), "more is recorded than was in the file", "%zu frames", count);
                PBT_CHECK(ctx, fits(next), "what is recorded is not what was in the file", "frame %zu: %zu bytes, was %zu", next, data.size(), in.frames[next].expected.size());
                const auto t = static_cast<int64_t>(number(tc.data, tc.size)) + static_cast<int16_t>(number(b.data + 1, 2));
                if (next == 0 && count > 0)
                    PBT_CHECK(ctx, t > last && t < last + 1000, "the time is wrong when the file begins again", "%lld ms, then %lld", static_cast<long long>(last), static_cast<long long>(t));
                if (next == 0)
                    first = t;
                last = t;
                const auto d = (t - first) - (in.millis[next] - in.millis[0]);
                PBT_CHECK(ctx, d >= -1 && d <= 1, "the time of a frame is not the one in the file", "frame %zu: %lld ms, was %lld", next, static_cast<long long>(t - first), static_cast<long long>(in.millis[next] - in.millis[0]));
                count += 1;
                next += 1;
            }
        }
        while (next < in.frames.size() && lost.count(next))
            next += 1;
    }
    if (!interrupted)
        PBT_CHECK(ctx, next == in.frames.size(), "frames of the file are not recorded", "from %zu of %zu, %zu packets lost; publisher: %s subscriber: %s", next, in.frames.size(), dropped.load(), pub->tail().c_str(), sub->tail().c_str());
    if (count >= 2)
        ctx.nontrivial();
    ctx.tag(name(codec));
    ctx.tagN("frames carried", count);
    if (interrupted)
        ctx.tag("interrupted");
    if (loop)
        ctx.tagN("passes of a looped file", passes);
    if (dropped)
        ctx.tagN("packets lost", dropped);
    if (whip.paths.size() + whep.paths.size() > 2)
        ctx.tag("redirected");
}

// ----- What a server says

void exchange(Src& src, Ctx& ctx)
{
    sim::gRealTime = true;
    Folder folder;
    const auto isPublish = src.chance(1, 2);
    const auto codec = src.oneOf<Codec>({ Codec::H264, Codec::VP8, Codec::H265, Codec::VP9, Codec::AV1 });
    auto route = drawRoute(src, isPublish ? "whip" : "whep");
    const auto bwe = src.chance(1, 3), capture = src.chance(1, 3), data = src.chance(1, 3), print = src.chance(1, 2);
    enum { kStatus, kCut, kNothing, kGarbage, kDamaged, kNoAudio, kRefused };
    const auto what = src.pick({ 4, 2, 1, 2, 3, 1, 1 });
    Reply manner;
    drawManner(src, manner, true);
    const auto status = src.oneOf<unsigned>({ 202, 204, 300, 304, 400, 401, 403, 404, 405, 409, 415, 422, 429, 500, 502, 503, 599 });
    const auto empty = src.chance(1, 3);
    const auto cut = src.u32();
    const auto garbage = src.blob(src.size(0, 300));
    struct Damage {
        uint32_t at;
        unsigned how;
        uint8_t byte;
        uint32_t other;
    };
    std::vector<Damage> damage;
    for (size_t n = src.size(1, 6); n > 0; n -= 1)
        damage.push_back({ src.u32(), static_cast<unsigned>(src.draw(4)), static_cast<uint8_t>(src.chance(1, 2) ? src.u8() : src.oneOf<int>({ ' ', ':', '/', '0', '9', '-', '\n', 'a', '=', ';' })), src.u32() });

    std::string answer;
    bool complete = true;
    std::mutex mutex;
    Server http([&](const Request& q) {
        const auto i = route.find(q.path);
        Reply r;
        if (i == SIZE_MAX) {
            r.status = 404;
            return r;
        }
        if (i + 1 < route.paths.size())
            return route.redirect(i);
        r = manner;
        const auto info = rig::readOffer(q.body);
        rig::Ident ident;
        ident.ufrag = "abcd";
        ident.pwd = "abcdefghijklmnopqrstuvwxyz";
        ident.fingerprint = info.fingerprint;
        ident.hosts.push_back({ 77, 9 });
        rig::OfferInfo sender;
        rig::AnswerOptions o;
        auto view = info;
        if (!isPublish) {
            if (what == kNoAudio)
                for (size_t k = 0; k < view.media.size(); k += 1)
                    if (view.media[k].type == "audio") {
                        view.media.erase(view.media.begin() + static_cast<long>(k));
                        break;
                    }
            sender = view;
            for (size_t k = 0; k < sender.media.size(); k += 1)
                sender.media[k].ssrcs = { static_cast<uint32_t>(1000 + k) };
            o.sender = &sender;
        }
        auto text = rig::writeAnswer(view, ident, o);
        for (size_t at; (at = text.find("10.0.0.77")) != std::string::npos;)
            text.replace(at, 9, "127.0.0.1");
        r.body = text;
        switch (what) {
        case kStatus:
            r.status = status;
            r.reason = "No";
            if (empty || status == 204 || status == 304) {
                r.body.clear();
                r.framing = 0;
                if (status == 204 || status == 304) {
                    r.framing = 2;
                }
            }
            break;
        case kCut:
            r.framing = r.framing == 2 ? 0 : r.framing;
            r.pieces.clear();
            r.cut = 1 + cut % (r.body.size() + 80);
            break;
        case kNothing:
            r.framing = 3;
            break;
        case kGarbage:
            r.body.assign(garbage.begin(), garbage.end());
            break;
        case kDamaged:
            for (const auto& d : damage) {
                if (r.body.empty())
                    break;
                const auto at = d.at % r.body.size();
                const auto other = d.other % r.body.size();
                switch (d.how) {
                case 0:
                    r.body[at] = static_cast<char>(d.byte);
                    break;
                case 1:
                    r.body.erase(at, 1 + d.other % 30);
                    break;
                case 2:
                    r.body.insert(at, r.body.substr(other, 1 + d.byte % 60));
                    break;
                case 3: { // A line goes
                    const auto a = r.body.rfind('\n', at);
                    const auto b = r.body.find('\n', at);
                    if (a != std::string::npos && b != std::string::npos && b > a)
                        r.body.erase(a, b - a);
                    break;
                }
                default:
                    r.body.insert(at, 1, static_cast<char>(d.byte));
                    break;
                }
            }
            break;
        default:
            break;
        }
        std::lock_guard lock(mutex);
        answer = r.body;
        return r;
    });
    route.port = http.port;
    if (what == kRefused) {
        // A port where nobody listens
        Server gone([](const Request&) { return Reply(); });
        route.port = gone.port;
    }

    std::vector<std::string> args = { "-u", route.url(), "-t", route.token };
    if (isPublish) {
        const auto in = drawInput(src, codec, 1, 3);
        const auto input = folder.file("in" + in.ending);
        const auto f = fopen(input.c_str(), "wb");
        if (!f || fwrite(in.bytes.data(), 1, in.bytes.size(), f) != in.bytes.size())
            throw Discard();
        fclose(f);
        args.insert(args.end(), { "-f", input });
        if (bwe)
            args.push_back("-b");
        if (data)
            args.push_back("-c");
    } else if (what == kNoAudio) {
        args.insert(args.end(), { "--oa", folder.file("out.ogg") });
    } else {
        if (src.chance(1, 2))
            args.insert(args.end(), { "--oa", folder.file("out.ogg") });
        if (src.chance(1, 2))
            args.insert(args.end(), { "--ov", folder.file("out.webm") });
    }
    if (capture)
        args.push_back("-a");
    if (print)
        args.push_back("-s");
    static const char* const names[] = { "another status", "cut short", "no reply", "not an answer", "a damaged answer", "no audio", "refused" };
    ctx.note("%s%s, %s (%u)", isPublish ? "publish" : "subscribe", joined(args).c_str(), names[what], status);

    Program p(folder, isPublish ? "VERIF_SRTC_PUBLISH" : "VERIF_SRTC_SUBSCRIBE", args);
    const auto mayGoOn = what == kGarbage || what == kDamaged || (what == kNoAudio && isPublish);
    const auto ended = p.wait(mayGoOn ? 0.8 : 15);
    if (ended)
        soundEnd(ctx, p, isPublish ? "srtc_publish" : "srtc_subscribe");
    if (!mayGoOn) {
        PBT_CHECK(ctx, ended, "a program goes on without an answer", "%s", p.tail().c_str());
        PBT_CHECK(ctx, p.code() == 1, "a program doesn't fail without an answer", "%d: %s", p.code(), p.tail().c_str());
    }
    p.signal(SIGKILL);
    p.wait(5);
    const auto requests = http.requests();
    // A reply without any byte may be asked for again
    if (what != kRefused && (what != kNothing && what != kCut))
        checkRequests(ctx, requests, route, route.paths.size(), p.tail());
    if (!requests.empty()) {
        const auto offer = rig::readOffer(requests.front().body);
        PBT_CHECK(ctx, offer.error.empty(), "what is posted is not an offer", "%s", offer.error.c_str());
        size_t video = 0, audio = 0, application = 0;
        for (const auto& m : offer.media) {
            (m.type == "video" ? video : m.type == "audio" ? audio : application) += 1;
            if (m.type == "application")
                continue;
            PBT_CHECK(ctx, m.direction == (isPublish ? "sendonly" : "recvonly"), "the direction offered is wrong", "%s", m.direction.c_str());
            bool hasCapture = false, hasTwcc = false;
            for (const auto& e : m.extensions) {
                hasCapture = hasCapture || e.second.find("abs-capture-time") != std::string::npos;
                hasTwcc = hasTwcc || e.second.find("transport-wide-cc") != std::string::npos;
            }
            PBT_CHECK(ctx, hasCapture == capture, "the time of capture is not offered as asked for", "%d, %d", hasCapture, capture);
            if (isPublish)
                PBT_CHECK(ctx, hasTwcc == bwe, "congestion control is not offered as asked for", "%d, %d", hasTwcc, bwe);
            std::set<std::string> codecs;
            for (const auto& c : m.payloads)
                if (c.codec != "rtx")
                    codecs.insert(c.codec);
            const std::map<Codec, std::string> rtp = { { Codec::H264, "H264" }, { Codec::H265, "H265" }, { Codec::VP8, "VP8" }, { Codec::VP9, "VP9" }, { Codec::AV1, "AV1" } };
            if (isPublish)
                PBT_CHECK(ctx, codecs == std::set<std::string>{ rtp.at(codec) }, "the codec offered is not the one of the file", "%s", codecs.empty() ? "" : codecs.begin()->c_str());
            else if (m.type == "video")
                PBT_CHECK(ctx, codecs.size() == 5, "not all codecs are offered", "%zu", codecs.size());
        }
        PBT_CHECK(ctx, video == 1 && audio == (isPublish ? 0 : 1) && application == (isPublish && data ? 1 : 0), "the media offered are others", "%zu, %zu, %zu", video, audio, application);
        if (print) {
            auto lines = requests.front().body;
            PBT_CHECK(ctx, p.said().find(lines) != std::string::npos, "the offer is not printed", "%s", p.tail().c_str());
        }
    }
    ctx.nontrivial();
    ctx.tag(names[what]);
    if (ended)
        ctx.tagN("exit code", static_cast<uint64_t>(p.code()));
}

// ----- Options

void options(Src& src, Ctx& ctx)
{
    sim::gRealTime = true;
    Folder folder;
    const auto isPublish = src.chance(1, 2);
    Server http([](const Request&) { return Reply(); });
    const auto url = "http://127.0.0.1:" + std::to_string(http.port) + "/whip0";
    static const std::vector<std::string> flags[2] = { { "-l", "--loop", "-v", "--verbose", "-q", "--quiet", "-s", "--sdp", "-i", "--info", "-b", "--bwe", "-c", "--datachannels", "-a", "--abs-capture-time" },
                                                       { "-v", "--verbose", "-q", "--quiet", "-r", "--sr", "-s", "--sdp", "-a", "--abs-capture-time" } };
    static const std::vector<std::string> values[2] = { { "-f", "--file", "-u", "--url", "-t", "--token" }, { "-u", "--url", "-t", "--token", "--oa", "--ov" } };
    const auto& mine = flags[isPublish ? 0 : 1];
    const auto& valued = values[isPublish ? 0 : 1];
    std::vector<std::string> args = { "-u", url };
    for (size_t n = src.size(0, 4); n > 0; n -= 1) {
        if (src.chance(2, 3)) {
            args.push_back(src.elem(mine));
        } else {
            args.push_back(src.elem(valued));
            args.push_back(args.back() == "-u" || args.back() == "--url" ? url : "value");
        }
    }
    const auto what = src.pick({ 2, 2, 2, 2 });
    int code = 1;
    if (what == 0) {
        args.push_back(src.chance(1, 2) ? "-h" : "--help");
        if (src.chance(1, 2))
            args.push_back("-nonsense");
        code = 0;
    } else if (what == 1) {
        args.insert(args.end(), { src.oneOf<std::string>({ "--nonsense", "-x", "file", "--", "", "-ff", "-H", "--file=x" }), "-h" });
    } else if (what == 2) {
        args.push_back(src.elem(valued));
    } else {
        if (!isPublish)
            throw Discard();
        // A file which isn't there, or isn't one of media
        auto name = src.oneOf<std::string>({ "/nothing.h264", "/nothing.webm", "/nothing.h265", "/nothing.txt", "/nothing", "" });
        args.insert(args.end(), { "-f", name.empty() ? name : folder.path + name });
        if (src.chance(1, 2) && !name.empty()) {
            const auto f = fopen(folder.file(name.substr(1)).c_str(), "wb");
            if (f) {
                const auto b = src.blob(src.size(0, 200));
                fwrite(b.data(), 1, b.size(), f);
                fclose(f);
            }
            code = -1;
        }
    }
    ctx.note("%s%s", isPublish ? "publish" : "subscribe", joined(args).c_str());
    Program p(folder, isPublish ? "VERIF_SRTC_PUBLISH" : "VERIF_SRTC_SUBSCRIBE", args);
    PBT_CHECK(ctx, p.wait(15), "a program goes on with options it should refuse", "%s", p.tail().c_str());
    soundEnd(ctx, p, isPublish ? "srtc_publish" : "srtc_subscribe");
    PBT_CHECK(ctx, code < 0 || p.code() == code, "the exit code is wrong", "%d, expected %d: %s", p.code(), code, p.tail().c_str());
    PBT_CHECK(ctx, code < 0 || http.requests().empty(), "a request is made with options it should refuse", "%zu", http.requests().size());
    PBT_CHECK(ctx, !p.said().empty(), "nothing is said", "%s", "");
    if (what < 2)
        PBT_CHECK(ctx, p.said().find("Usage:") != std::string::npos, "the options are not explained", "%s", p.tail().c_str());
    ctx.nontrivial();
    ctx.tag(what == 0 ? "help" : what == 1 ? "unknown option" : what == 2 ? "no value" : "no media");
}

} // namespace

int main(int argc, char** argv)
{
    Property p = { "P33",
                   "two frames or more went from the file published to the file recorded; a program was told something by a server, or refused its options",
                   { "the loopback network loses nothing", "libcurl speaks HTTP" },
                   { { "carry", 4, carry }, { "exchange", 4, exchange }, { "options", 1, options } } };
    return run(argc, argv, p);
}
