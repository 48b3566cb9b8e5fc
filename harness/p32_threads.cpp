// P32: the interface used by any threads at any time. Two connections over the loopback network in real time, under ThreadSanitizer.
#include "media_gen.h"
#include "pbt.h"
#include "rig.h"
#include "rig_setup.h"
#include "sim.h"

#include "srtc/logging.h"

#include <arpa/inet.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <cstring>
#include <iostream>
#include <memory>
#include <thread>

using namespace pbt;
using gen::Bytes;
using gen::toBuffer;
using rig::State;

// What isn't instrumented (OpenSSL) orders its threads in ways which aren't seen
extern "C" const char* __tsan_default_suppressions()
{
    return "called_from_lib:libcrypto\ncalled_from_lib:libssl\nrace:libcrypto\nrace:libssl\n";
}

namespace
{

int64_t realMicros()
{
    return static_cast<int64_t>(sim::realSeconds() * 1e6);
}

// What happened wrongly, from any thread
struct Trouble {
    std::mutex mutex;
    std::string label, text;
    void report(const std::string& l, const std::string& t = "")
    {
        std::lock_guard lock(mutex);
        if (label.empty()) {
            label = l;
            text = t;
        }
    }
    bool any()
    {
        std::lock_guard lock(mutex);
        return !label.empty();
    }
};

// Both sides talk to it, and it passes on what the other side sends
class Relay
{
public:
    unsigned port[2];
    std::atomic<size_t> passed{ 0 };

    Relay()
    {
        for (int k = 0; k < 2; k += 1) {
            mFd[k] = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
            sockaddr_in a = {};
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            socklen_t len = sizeof(a);
            if (mFd[k] < 0 || ::bind(mFd[k], reinterpret_cast<sockaddr*>(&a), len) != 0 || ::getsockname(mFd[k], reinterpret_cast<sockaddr*>(&a), &len) != 0)
                throw Discard();
            const int size = 1 << 20;
            ::setsockopt(mFd[k], SOL_SOCKET, SO_RCVBUF, &size, sizeof(size));
            port[k] = ntohs(a.sin_port);
        }
        mThread = std::thread([this] { work(); });
    }
    ~Relay()
    {
        mQuit = true;
        mThread.join();
        ::close(mFd[0]);
        ::close(mFd[1]);
    }

private:
    int mFd[2] = { -1, -1 };
    std::atomic<bool> mQuit{ false };
    std::thread mThread;

    void work()
    {
        sockaddr_in who[2] = {};
        bool known[2] = {};
        std::vector<uint8_t> buf(66000);
        while (!mQuit) {
            pollfd p[2] = { { mFd[0], POLLIN, 0 }, { mFd[1], POLLIN, 0 } };
            ::poll(p, 2, 5);
            for (int k = 0; k < 2; k += 1)
                for (int n = 0; n < 50; n += 1) {
                    sockaddr_in from = {};
                    socklen_t len = sizeof(from);
                    const auto r = ::recvfrom(mFd[k], buf.data(), buf.size(), 0, reinterpret_cast<sockaddr*>(&from), &len);
                    if (r <= 0)
                        break;
                    who[k] = from;
                    known[k] = true;
                    if (known[1 - k] && ::sendto(mFd[1 - k], buf.data(), static_cast<size_t>(r), 0, reinterpret_cast<sockaddr*>(&who[1 - k]), sizeof(from)) == r)
                        passed += 1;
                }
        }
    }
};

// Something which is called until it's replaced, or the connection is closed
struct Slot {
    Trouble& trouble;
    const char* what;
    std::atomic<bool> retired{ false };
    std::atomic<bool>& closed; // close() has returned
    size_t calls = 0;          // One at a time, so there is no race, whoever reads it after replacing it
    std::atomic<bool> running{ false };
    static inline unsigned dwellMicros = 0, dwellEvery = 1; // A listener which takes its time
    Slot(Trouble& t, const char* w, std::atomic<bool>& c)
        : trouble(t)
        , what(w)
        , closed(c)
    {
    }
    void call()
    {
        if (retired)
            trouble.report("a listener which was replaced is called", what);
        if (closed)
            trouble.report("a listener is called after close() has returned", what);
        calls += 1;
        if (dwellMicros && calls % dwellEvery == 0) {
            running = true;
            ::usleep(dwellMicros);
            if (retired)
                trouble.report("a listener is still being called after it was replaced", what);
            if (closed)
                trouble.report("a listener is still being called after close() has returned", what);
            running = false;
        }
    }
    // Another one has taken its place
    void retire()
    {
        if (running)
            trouble.report("a listener is still being called after it was replaced", what);
        retired = true;
        calls += 1; // A race, if it's running
    }
};

struct Logger : srtc::CustomLogger {
    Trouble& trouble;
    std::thread::id thread; // The first one to write
    size_t lines = 0;       // Of one thread only
    explicit Logger(Trouble& t)
        : trouble(t)
    {
    }
    void log_v(int, const char* tag, const char* format, va_list ap) override
    {
        char buf[3000];
        if (::vsnprintf(buf, sizeof(buf), format, ap) < 0 || !tag || !*tag)
            trouble.report("a line of the log can't be formatted", format);
        if (lines == 0)
            thread = std::this_thread::get_id();
        else if (thread != std::this_thread::get_id())
            trouble.report("lines of the log come from two threads");
        lines += 1;
    }
};

struct Data : srtc::PeerConnection::DataChannelListener {
    Slot slot;
    std::vector<std::pair<std::string, std::string>>& got; // label and message; shared by all which follow one another
    std::vector<std::string>& opened;
    std::atomic<size_t>& count;
    Data(Trouble& t, std::atomic<bool>& c, std::vector<std::pair<std::string, std::string>>& got, std::vector<std::string>& opened, std::atomic<size_t>& count)
        : slot(t, "data channel", c)
        , got(got)
        , opened(opened)
        , count(count)
    {
    }
    void onDataChannelOpened(const std::string& label) override
    {
        slot.call();
        opened.push_back(label);
    }
    void onDataChannelClosed(const std::string&) override { slot.call(); }
    void onDataChannelReceivedText(const std::string& label, const std::string& data) override
    {
        slot.call();
        got.emplace_back(label, data);
        count += 1;
    }
    void onDataChannelReceivedBinary(const std::string& label, const srtc::ByteBuffer& data) override
    {
        slot.call();
        got.emplace_back(label, std::string(reinterpret_cast<const char*>(data.data()), data.size()));
        count += 1;
    }
};

enum What {
    kFrame,
    kCodecData,
    kLayer,
    kText,
    kBinary,
    kKeyFrame,
    kLists,
    kSetState,
    kSetStats,
    kSetFrames,
    kSetReports,
    kSetKeyFrame,
    kSetData,
    kDescriptions,
    kMaxSize,
    kSleep,
    kClose,
};

struct Op {
    int what;
    size_t side, a;
    Bytes data;
    int64_t micros;
};

struct Side {
    std::unique_ptr<srtc::PeerConnection> pc;
    std::unique_ptr<Logger> logger;
    std::vector<std::string> channels;
    std::vector<std::shared_ptr<srtc::Track>> tracks;
    size_t mediaCount = 0;
    std::atomic<bool> closed{ false };
    std::atomic<bool> closing{ false };
    std::atomic<State> state{ State::Inactive };
    std::vector<State> states; // By the state listeners, one at a time
    std::vector<std::pair<std::string, std::string>> messages;
    std::vector<std::string> opened;
    std::atomic<size_t> messageCount{ 0 };
    std::vector<std::pair<uint32_t, Bytes>> frames;
    std::atomic<size_t> frameCount{ 0 };
    // Who replaces a listener does that one after another, so that it's known which one is replaced
    std::mutex setting;
    std::shared_ptr<Slot> slots[6];
    std::shared_ptr<Data> data;
    std::atomic<size_t> replacedInCall{ 0 };
};

struct Case {
    Trouble trouble;
    Side side[2];

    void setListener(Side& s, int what, bool none)
    {
        std::lock_guard lock(s.setting);
        auto& pc = *s.pc;
        const auto index = what - kSetState;
        const auto fresh = [&](const char* name) { return std::make_shared<Slot>(trouble, name, s.closed); };
        if (what == kSetData ? s.data && s.data->slot.running : s.slots[index] && s.slots[index]->running)
            s.replacedInCall += 1;
        std::shared_ptr<Slot> old, slot;
        switch (what) {
        case kSetState:
            slot = fresh("connection state");
            pc.setConnectionStateListener([slot, &s](State state) {
                slot->call();
                s.states.push_back(state);
                s.state = state;
            });
            break;
        case kSetStats:
            slot = fresh("statistics");
            if (none) {
                pc.setPublishConnectionStatsListener(nullptr);
                pc.setSubscribeConnectionStatsListener(nullptr);
            } else {
                pc.setPublishConnectionStatsListener([slot](const srtc::PublishConnectionStats&) { slot->call(); });
                pc.setSubscribeConnectionStatsListener([slot](const srtc::SubscribeConnectionStats&) { slot->call(); });
            }
            break;
        case kSetFrames:
            slot = fresh("frames");
            if (none)
                pc.setSubscribeEncodedFrameListener(nullptr);
            else
                pc.setSubscribeEncodedFrameListener([slot, &s](const std::shared_ptr<srtc::EncodedFrame>& f) {
                    slot->call();
                    s.frames.emplace_back(f->track->getSSRC(), Bytes(f->data.data(), f->data.data() + f->data.size()));
                    s.frameCount += 1;
                });
            break;
        case kSetReports:
            slot = fresh("reports");
            if (none)
                pc.setSubscribeSenderReportsListener(nullptr);
            else
                pc.setSubscribeSenderReportsListener([slot](const std::shared_ptr<srtc::Track>&, const srtc::SenderReport&) { slot->call(); });
            break;
        case kSetKeyFrame:
            slot = fresh("key frame requests");
            if (none)
                pc.setPublishKeyFrameRequestedListener(nullptr);
            else
                pc.setPublishKeyFrameRequestedListener([slot] { slot->call(); });
            break;
        default: {
            const auto fresh2 = std::make_shared<Data>(trouble, s.closed, s.messages, s.opened, s.messageCount);
            pc.setDataChannelListener(fresh2);
            if (s.data)
                s.data->slot.retire();
            s.data = fresh2;
            return;
        }
        }
        old = s.slots[index];
        s.slots[index] = slot;
        if (old)
            old->retire();
    }
};

void threads(Src& src, Ctx& ctx)
{
    sim::gRealTime = true;
    srtc::setLogLevel(SRTC_LOG_V);
    struct Quiet {
        ~Quiet() { srtc::setLogLevel(1000000); }
    } quiet;
    auto c = std::make_unique<Case>();
    Logger mainLogger(c->trouble);
    srtc::setThreadSpecificCustomLogger(&mainLogger);
    Relay relay;

    Slot::dwellMicros = static_cast<unsigned>(src.oneOf<int64_t>({ 0, src.range(20, 300), src.range(300, 6000) }));
    Slot::dwellEvery = static_cast<unsigned>(src.size(1, 3));

    rig::Spec spec[2];
    const auto kinds = src.pick({ 3, 2, 1 });
    const auto codec = src.oneOf<srtc::Codec>({ srtc::Codec::VP8, srtc::Codec::H264, srtc::Codec::AV1 });
    const auto jitter = static_cast<uint16_t>(src.oneOf<int>({ 60, 0, 25 }));
    for (int k = 0; k < 2; k += 1) {
        spec[k].direction = k == 0 ? srtc::Direction::Publish : srtc::Direction::Subscribe;
        spec[k].video = kinds != 1;
        spec[k].audio = kinds != 2;
        spec[k].videoCodecs = { codec };
        spec[k].pliMillis = 500;
        spec[k].jitterMillis = jitter;
    }
    spec[0].bwe = src.chance(1, 2);
    const auto withData = src.chance(3, 4);
    rig::Made made[2];
    rig::Ident ident[2];
    const auto active = src.size(0, 1);
    for (size_t k = 0; k < 2; k += 1) {
        auto& s = c->side[k];
        if (withData)
            for (size_t i = 0, n = src.size(1, 2); i < n; i += 1)
                s.channels.push_back((k ? "sub-" : "pub-") + std::to_string(i));
        spec[k].channels = s.channels;
        s.pc = std::make_unique<srtc::PeerConnection>(spec[k].direction);
        if (src.chance(2, 3)) {
            s.logger = std::make_unique<Logger>(c->trouble);
            s.pc->setCustomLogger(s.logger.get());
        } else
            srtc::setLogLevel(1000000);
        made[k] = rig::makeOffer(*s.pc, spec[k]);
        PBT_CHECK(ctx, made[k].offer && made[k].info.error.empty(), "offer", "%s", made[k].info.error.c_str());
        ident[k].ufrag = made[k].info.ufrag;
        ident[k].pwd = made[k].info.pwd;
        ident[k].fingerprint = made[k].info.fingerprint;
        ident[k].active = k == active;
        ident[k].hosts.push_back({ 77, relay.port[1 - k] });
        for (int w = kSetState; w <= kSetData; w += 1)
            c->setListener(s, w, false);
    }
    std::shared_ptr<srtc::SdpAnswer> answer[2];
    for (size_t k = 0; k < 2; k += 1) {
        rig::AnswerOptions o;
        if (k == 1)
            o.sender = &made[0].info;
        auto text = rig::writeAnswer(made[k].info, ident[1 - k], o);
        for (size_t at; (at = text.find("10.0.0.77")) != std::string::npos;)
            text.replace(at, 9, "127.0.0.1");
        auto& pc = *c->side[k].pc;
        auto r = k == 0 ? pc.parsePublishAnswer(made[k].offer, text, nullptr) : pc.parseSubscribeAnswer(made[k].offer, text, nullptr);
        PBT_CHECK(ctx, !r.second.isError(), "answer", "%s", r.second.message.c_str());
        answer[k] = r.first;
        c->side[k].tracks = r.first->getTrackList();
        c->side[k].mediaCount = r.first->getMediaList().size();
        PBT_CHECK(ctx, !pc.setOffer(made[k].offer).isError(), "setting the offer", "side %zu", k);
    }
    // What the threads do
    const auto workers = src.size(1, 4);
    std::vector<std::vector<Op>> scripts(workers);
    gen::FrameGen video(src, codec == srtc::Codec::VP8 ? gen::Codec::VP8 : codec == srtc::Codec::H264 ? gen::Codec::H264 : gen::Codec::AV1, 2, 1150);
    gen::FrameGen audio(src, gen::Codec::Opus, 2, 1150);
    std::vector<Bytes> expectedFrames;
    const auto begin = src.pick({ 4, 1, 1 }); // When it's connected, at once, before the answers are set
    const auto waitFirst = begin == 0;
    std::atomic<bool> started{ false };
    const auto quickEnd = begin != 2 && src.chance(2, 5); // close() while the others still go on
    const auto closer = src.size(0, workers - 1);
    bool first = true;
    // At leisure, so that what's sent arrives in between
    const auto leisure = src.oneOf<int64_t>({ 0, 0, 3000, 12000 });
    // One listener is replaced often
    const auto focus = src.oneOf<int>({ 0, static_cast<int>(kSetState + src.size(0, kSetData - kSetState)), kSetFrames, kSetData });
    const auto focusSide = focus == kSetFrames || focus == kSetReports ? size_t(1) : focus == kSetKeyFrame ? size_t(0) : src.size(0, 1);
    for (size_t w = 0; w < workers; w += 1) {
        for (size_t n = src.size(3, 30); n > 0; n -= 1) {
            Op op = {};
            if (leisure) {
                op.what = kSleep;
                op.micros = src.range(0, leisure);
                scripts[w].push_back(op);
            }
            op.what = static_cast<int>(src.pick({ 8, 1, 0, 4, 4, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 4, focus ? 12u : 0u }));
            op.side = src.size(0, 1);
            if (op.what == kClose) {
                op.what = focus;
                op.side = focusSide;
            }
            op.a = src.size(0, 7);
            switch (op.what) {
            case kFrame: {
                const auto wantAudio = !spec[0].video || (spec[0].audio && src.chance(1, 2));
                auto f = wantAudio ? audio.next(true) : video.next(first || src.chance(1, 3));
                if (!wantAudio)
                    first = false;
                op.data = f.input;
                op.a = wantAudio;
                expectedFrames.push_back(f.expected);
                break;
            }
            case kText:
            case kBinary:
                op.data = src.blob(src.oneOf<size_t>({ src.size(0, 40), src.size(0, 3000) }));
                for (auto& b : op.data)
                    b = static_cast<uint8_t>('a' + b % 26);
                break;
            case kSleep:
                op.micros = src.oneOf<int64_t>({ 0, src.range(0, 200), src.range(0, 3000) });
                break;
            default:
                break;
            }
            scripts[w].push_back(std::move(op));
        }
        if (quickEnd && w == closer) {
            Op op = {};
            op.what = kClose;
            op.side = src.size(0, 1);
            scripts[w].insert(scripts[w].begin() + static_cast<long>(src.size(0, scripts[w].size())), op);
        }
    }
    ctx.note("%s%s%s, %zu + %zu channels, %zu threads%s%s", spec[0].video ? gen::name(codec == srtc::Codec::VP8 ? gen::Codec::VP8 : codec == srtc::Codec::H264 ? gen::Codec::H264 : gen::Codec::AV1) : "", spec[0].audio ? " audio" : "", spec[0].bwe ? " bwe" : "", c->side[0].channels.size(), c->side[1].channels.size(), workers,
        waitFirst ? "" : begin == 1 ? ", from the start" : ", before the start", quickEnd ? ", closed in between" : "");

    // What was sent on a channel, by whom
    struct SentMessage {
        size_t worker, serial, side;
        std::string label, data;
    };
    std::vector<std::vector<SentMessage>> sent(workers);
    std::atomic<size_t> errors{ 0 };
    std::atomic<unsigned> ready{ 0 };
    std::atomic<bool> go{ false };

    const auto closeSide = [&](Side& s) {
        const auto firstOne = !s.closing.exchange(true);
        s.pc->close();
        if (firstOne)
            s.closed = true;
    };
    const auto work = [&](size_t w) {
        Logger none(c->trouble);
        srtc::setThreadSpecificCustomLogger(&none);
        ready += 1;
        while (!go)
            std::this_thread::yield();
        size_t serial = 0;
        for (const auto& op : scripts[w]) {
            auto& s = c->side[op.side];
            const bool wasStarted = started;
            switch (op.what) {
            case kFrame: {
                auto& p = c->side[0];
                const auto type = op.a ? srtc::MediaType::Audio : srtc::MediaType::Video;
                for (const auto& t : p.tracks)
                    if (t->getMediaType() == type) {
                        const auto e = op.a ? p.pc->publishAudioFrame(t, realMicros(), toBuffer(op.data)) : p.pc->publishVideoFrame(t, realMicros(), toBuffer(op.data));
                        if (e.isError() && !p.closing)
                            c->trouble.report("a frame is refused", e.message);
                    }
                break;
            }
            case kCodecData:
                for (const auto& t : c->side[0].tracks)
                    if (t->getMediaType() == srtc::MediaType::Video) {
                        const auto e = c->side[0].pc->setVideoCodecSpecificData(t, {});
                        if (e.isError() && !c->side[0].closing)
                            c->trouble.report("codec data is refused", e.message);
                    }
                break;
            case kText:
            case kBinary: {
                if (c->side[0].channels.empty())
                    break;
                SentMessage m;
                m.worker = w;
                m.side = op.side;
                m.serial = serial++;
                m.label = s.channels[op.a % s.channels.size()];
                m.data = std::to_string(w) + "." + std::to_string(m.serial) + " " + std::string(op.data.begin(), op.data.end());
                const auto e = op.what == kText ? s.pc->sendDataChannelText(m.label, std::string(m.data)) : s.pc->sendDataChannelBinary(m.label, srtc::ByteBuffer(reinterpret_cast<const uint8_t*>(m.data.data()), m.data.size()));
                if (!e.isError())
                    sent[w].push_back(std::move(m));
                else if (wasStarted)
                    c->trouble.report("a message is refused", e.message);
                break;
            }
            case kKeyFrame:
                for (const auto& t : c->side[1].tracks)
                    if (t->getMediaType() == srtc::MediaType::Video)
                        errors += c->side[1].pc->requestPictureLossIndicator(t).isError();
                break;
            case kLists: {
                const auto wasOpen = [&] { return !s.closing && s.state != State::Failed && s.state != State::Closed && !c->side[0].closing && !c->side[1].closing; };
                const auto tracks = s.pc->getTrackList();
                const auto media = s.pc->getMediaList();
                // All of them, or none when it's over
                if (wasStarted && (tracks.size() != s.tracks.size() || media.size() != s.mediaCount) && wasOpen())
                    c->trouble.report("lists of media and tracks", std::to_string(media.size()) + " media, " + std::to_string(tracks.size()) + " tracks");
                if (!tracks.empty() && tracks != s.tracks)
                    c->trouble.report("a list of tracks in between", std::to_string(tracks.size()) + " of " + std::to_string(s.tracks.size()));
                if (!media.empty() && media.size() != s.mediaCount)
                    c->trouble.report("a list of media in between", std::to_string(media.size()) + " of " + std::to_string(s.mediaCount));
                break;
            }
            case kDescriptions:
                if (s.pc->getOffer() != made[op.side].offer)
                    c->trouble.report("offer");
                if (const auto a = s.pc->getAnswer(); a != answer[op.side] && (a || wasStarted))
                    c->trouble.report("answer");
                break;
            case kMaxSize:
                if (const auto n = s.pc->getDataChannelMaxMessageSize(); n != (withData ? 262144u : 0u) && (n || wasStarted))
                    c->trouble.report("largest message", std::to_string(n));
                break;
            case kSleep:
                if (op.micros)
                    ::usleep(static_cast<useconds_t>(op.micros));
                else
                    std::this_thread::yield();
                break;
            case kClose:
                closeSide(s);
                break;
            case kLayer:
                break;
            default:
                c->setListener(s, op.what, op.what != kSetState && op.what != kSetData && op.a == 0);
                break;
            }
        }
        srtc::setThreadSpecificCustomLogger(nullptr);
    };

    const auto startBoth = [&] {
        for (size_t k = 0; k < 2; k += 1) {
            const auto e = c->side[k].pc->setAnswer(answer[k]);
            if (e.isError())
                c->trouble.report("setting the answer", e.message);
        }
        started = true;
    };
    const auto both = [&](State s) { return c->side[0].state == s && c->side[1].state == s; };
    const auto await = [&](double seconds, const std::function<bool()>& cond) {
        const auto until = sim::realSeconds() + seconds;
        while (!cond()) {
            if (sim::realSeconds() > until || c->trouble.any())
                return false;
            ::usleep(500);
        }
        return true;
    };
    std::vector<std::thread> list;
    bool connected = false;
    if (begin != 2)
        startBoth();
    if (waitFirst)
        connected = await(6, [&] { return both(State::Connected); });
    for (size_t w = 0; w < workers; w += 1)
        list.emplace_back(work, w);
    while (ready < workers)
        std::this_thread::yield();
    go = true;
    if (begin == 2) {
        if (const auto us = src.range(0, 300))
            ::usleep(static_cast<useconds_t>(us));
        startBoth();
    }
    for (auto& t : list)
        t.join();
    const auto calm = !quickEnd;
    if (calm && !waitFirst)
        connected = await(6, [&] { return both(State::Connected); });
    size_t due[2] = {};
    for (const auto& v : sent)
        for (const auto& m : v)
            due[1 - m.side] += 1;
    bool arrived = false;
    if (calm && connected)
        // They come, if not at once: chunks can get lost where the system has no room for them
        arrived = await(12, [&] { return c->side[0].messageCount >= due[0] && c->side[1].messageCount >= due[1]; });
    // While the frames come
    const auto linger = focus && calm && connected ? src.size(0, 60) : 0;
    const auto step = src.range(0, 4000);
    for (size_t i = 0; i < linger; i += 1) {
        ::usleep(static_cast<useconds_t>(step));
        c->setListener(c->side[focusSide], focus, false);
    }
    // The end
    const auto closeOrder = src.size(0, 1);
    const auto together = src.chance(1, 3);
    std::atomic<bool> over{ false };
    std::thread busy;
    const auto busyOps = src.pick({ 1, 2 });
    const auto busyKinds = src.size(1, 7);
    if (busyOps)
        // Somebody who doesn't know that it's the end
        busy = std::thread([&] {
            Logger none(c->trouble);
            srtc::setThreadSpecificCustomLogger(&none);
            while (!over)
                for (auto& s : c->side) {
                    if (busyKinds & 1 && s.pc->getTrackList().size() % s.tracks.size())
                        c->trouble.report("a list of tracks in between");
                    if (busyKinds & 2 && s.pc->getMediaList().size() % s.mediaCount)
                        c->trouble.report("a list of media in between");
                    if (busyKinds & 4)
                        for (const auto& t : s.tracks) {
                            (void)s.pc->requestPictureLossIndicator(t);
                            if (t->getMediaType() == srtc::MediaType::Audio)
                                (void)s.pc->publishAudioFrame(t, realMicros(), toBuffer(Bytes(10)));
                        }
                    ::usleep(10);
                }
            srtc::setThreadSpecificCustomLogger(nullptr);
        });
    if (together) {
        std::thread other([&] { closeSide(c->side[1 - closeOrder]); });
        closeSide(c->side[closeOrder]);
        other.join();
    } else {
        closeSide(c->side[closeOrder]);
        closeSide(c->side[1 - closeOrder]);
    }
    over = true;
    if (busy.joinable())
        busy.join();
    // Late calls would be seen here
    ::usleep(static_cast<useconds_t>(src.range(0, 2000)));
    const auto wasState = [&](size_t k, State s) { return std::find(c->side[k].states.begin(), c->side[k].states.end(), s) != c->side[k].states.end(); };
    for (size_t k = 0; k < 2; k += 1) {
        auto& s = c->side[k];
        // Whatever was asked for after the end is harmless
        for (const auto& t : s.tracks) {
            (void)s.pc->requestPictureLossIndicator(t);
            (void)s.pc->publishVideoFrame(t, 0, toBuffer(Bytes(10)));
        }
        PBT_CHECK(ctx, s.pc->getOffer() == made[k].offer && s.pc->getAnswer() == answer[k], "descriptions after the end", "side %zu", k);
        s.pc->close();
        std::string text;
        for (const auto x : s.states)
            text += " " + std::to_string(static_cast<int>(x));
        ctx.note("side %zu:%s", k, text.c_str());
        PBT_CHECK(ctx, !s.states.empty(), "no state is reported", "side %zu", k);
        PBT_CHECK(ctx, s.states.back() == State::Closed || s.states.back() == State::Failed, "the last state", "side %zu:%s", k, text.c_str());
        for (size_t i = 0; i + 1 < s.states.size(); i += 1)
            PBT_CHECK(ctx, s.states[i] != s.states[i + 1] && s.states[i] != State::Closed && s.states[i] != State::Failed, "states", "side %zu:%s", k, text.c_str());
        for (const auto& l : s.slots)
            if (l)
                l->calls += 1;
    }
    for (size_t k = 0; k < 2; k += 1)
        c->side[k].pc.reset();
    srtc::setThreadSpecificCustomLogger(nullptr);
    {
        std::lock_guard lock(c->trouble.mutex);
        if (!c->trouble.label.empty())
            ctx.fail(c->trouble.label.c_str(), "%s", c->trouble.text.c_str());
    }
    // Messages: each thread's in order on each channel, whole, once
    size_t messages = 0;
    for (size_t k = 0; k < 2; k += 1) {
        std::map<std::pair<std::string, size_t>, std::vector<const SentMessage*>> expected;
        for (const auto& v : sent)
            for (const auto& m : v)
                if (m.side != k)
                    expected[{ m.label, m.worker }].push_back(&m);
        std::map<std::pair<std::string, size_t>, size_t> at;
        for (const auto& g : c->side[k].messages) {
            const auto worker = static_cast<size_t>(std::strtoul(g.second.c_str(), nullptr, 10));
            auto& l = expected[{ g.first, worker }];
            auto& i = at[{ g.first, worker }];
            PBT_CHECK(ctx, i < l.size() && l[i]->data == g.second, "messages of a thread", "on %s, got %.60s, next was to be %.60s", g.first.c_str(), g.second.c_str(), i < l.size() ? l[i]->data.c_str() : "none");
            i += 1;
            messages += 1;
        }
        if (calm && connected) {
            ctx.tag(arrived ? "all messages arrived" : "messages are late");
            PBT_CHECK(ctx, c->side[k].messages.size() == due[k], "messages are missing", "%zu of %zu", c->side[k].messages.size(), due[k]);
        }
    }
    if (busyKinds & 4)
        expectedFrames.push_back(Bytes(10));
    for (const auto& f : c->side[1].frames)
        PBT_CHECK(ctx, std::find(expectedFrames.begin(), expectedFrames.end(), f.second) != expectedFrames.end(), "a frame nobody sent", "%zu bytes %s", f.second.size(), hex(f.second, 40).c_str());
    if (calm || waitFirst) {
        ctx.tag(connected ? "connected" : "not connected");
        if (!connected)
            throw Discard(); // Too slow here, or lost
    }
    if (wasState(0, State::Connected) && wasState(1, State::Connected)) {
        ctx.nontrivial();
        ctx.tagN("messages", messages);
        ctx.tagN("frames", c->side[1].frames.size());
        if (workers > 1)
            ctx.tag("several threads");
        if (quickEnd)
            ctx.tag("closed in between");
        if (c->side[0].replacedInCall + c->side[1].replacedInCall)
            ctx.tag("a listener replaced while it was called");
    }
}

// ----- Lines of the log

void logging(Src& src, Ctx& ctx)
{
    sim::gRealTime = true;
    struct File {
        FILE* f = std::tmpfile();
        int saved = ::dup(1);
        File()
        {
            if (!f || saved < 0)
                throw Discard();
            std::fflush(stdout);
            ::dup2(::fileno(f), 1);
        }
        void restore()
        {
            if (saved >= 0) {
                std::cout.flush();
                ::dup2(saved, 1);
                ::close(saved);
                saved = -1;
            }
        }
        ~File()
        {
            restore();
            std::fclose(f);
        }
    } file;
    const auto level = src.oneOf<int>({ SRTC_LOG_V, SRTC_LOG_I, SRTC_LOG_W, SRTC_LOG_E });
    srtc::setLogLevel(level);
    struct Quiet {
        ~Quiet() { srtc::setLogLevel(1000000); }
    } quiet;
    const auto n = src.size(1, 4);
    std::vector<std::vector<std::pair<int, std::string>>> lines(n);
    for (size_t w = 0; w < n; w += 1)
        for (size_t k = src.size(1, 60); k > 0; k -= 1) {
            auto text = std::to_string(lines[w].size()) + " " + std::string(src.oneOf<size_t>({ 0, src.size(0, 60), src.size(0, 1500) }), static_cast<char>('a' + w));
            lines[w].emplace_back(src.oneOf<int>({ SRTC_LOG_V, SRTC_LOG_I, SRTC_LOG_W, SRTC_LOG_E }), text);
        }
    const auto before = ::time(nullptr);
    std::vector<std::thread> threads;
    for (size_t w = 0; w < n; w += 1)
        threads.emplace_back([&, w] {
            const auto tag = "Tag" + std::to_string(w);
            for (const auto& l : lines[w])
                srtc::log(l.first, tag.c_str(), "%s", l.second.c_str());
        });
    for (auto& t : threads)
        t.join();
    const auto after = ::time(nullptr);
    file.restore();
    std::rewind(file.f);
    std::string all;
    char buf[4096];
    for (size_t r; (r = std::fread(buf, 1, sizeof(buf), file.f)) > 0;)
        all.append(buf, r);
    // Each thread's lines, whole and in order
    std::vector<size_t> at(n);
    size_t pos = 0, count = 0;
    const auto letter = [](int l) { return l == SRTC_LOG_V ? 'V' : l == SRTC_LOG_I ? 'I' : l == SRTC_LOG_W ? 'W' : 'E'; };
    while (pos < all.size()) {
        auto end = all.find('\n', pos);
        if (end == std::string::npos)
            end = all.size();
        const auto line = all.substr(pos, end - pos);
        pos = end + 1;
        struct tm t = {};
        int milli = -1, used = -1;
        char kind = 0;
        unsigned w = 0;
        PBT_CHECK(ctx, std::sscanf(line.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%3d [%c] Tag%u: %n", &t.tm_year, &t.tm_mon, &t.tm_mday, &t.tm_hour, &t.tm_min, &t.tm_sec, &milli, &kind, &w, &used) == 9 && used == 34 && w < n, "a line of the log", "%.100s", line.c_str());
        t.tm_year -= 1900;
        t.tm_mon -= 1;
        t.tm_isdst = -1;
        const auto when = ::mktime(&t);
        PBT_CHECK(ctx, when >= before && when <= after + 1, "time of a line", "%.60s", line.c_str());
        auto& i = at[w];
        while (i < lines[w].size() && lines[w][i].first < level)
            i += 1;
        PBT_CHECK(ctx, i < lines[w].size() && kind == letter(lines[w][i].first) && line.substr(34) == lines[w][i].second, "a line of a thread", "%.100s", line.c_str());
        i += 1;
        count += 1;
    }
    size_t due = 0;
    for (const auto& v : lines)
        for (const auto& l : v)
            due += l.first >= level;
    PBT_CHECK(ctx, count == due, "lines are missing", "%zu of %zu", count, due);
    ctx.note("%zu threads, %zu lines", n, count);
    if (n > 1 && count > 4)
        ctx.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    Property p = { "P32",
        "two connections were connected, and threads used them; several threads wrote lines of the log",
        { "the loopback network loses nothing for long", "OpenSSL keeps its own threads in order" },
        { { "threads", 6, threads }, { "logging", 1, logging } } };
    p.confirmTries = 30;
    p.confirmNeeded = 2;
    return run(argc, argv, p);
}
