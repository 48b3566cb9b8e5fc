// P17: data channel messages arrive complete, once, and in order on a bad network
#include "sctp_scenarios.h"

using namespace pbt;
using namespace ss;

namespace
{

void sessions(Src& src, Ctx& ctx)
{
    pairScenario(src, ctx, { false, true, false });
}

void peer(Src& src, Ctx& ctx)
{
    peerScenario(src, ctx, { false, true, false });
}

// More messages than there are sequence numbers
void many(Src& src, Ctx& ctx)
{
    World w(src, ctx);
    sim::seedRandom(src.u64());
    RefEnd::Conf conf;
    conf.tsn = static_cast<uint32_t>(src.draw(0xffffffff));
    conf.rwnd = 200000;
    conf.bundle = true;
    conf.frag = 1000;
    conf.ackDelay = 10;
    conf.ackEvery = 8;
    drawNumbers(src);
    LibEnd lib(w, 0, 5000, 5000, 0, true, { "mine" }, false);
    RefEnd ref(w, 1, conf);
    const size_t count = 65536 + src.size(1, 300);
    const bool fromLib = src.chance(1, 2), unordered = !fromLib && src.chance(1, 3);
    size_t got = 0;
    bool open = false;
    const auto check = [&](const Bytes& d) {
        PBT_CHECK(ctx, d.size() >= 4, "wrong message", "%zu bytes", d.size());
        PBT_CHECK(ctx, get32(d, 0) == got, "wrong message", "message %u instead of %zu", get32(d, 0), got);
        got += 1;
    };
    lib.onEvent = [&](const Event& e) {
        if (e.kind == Event::Open)
            open = true;
        else if (e.kind != Event::Close)
            check(e.data);
    };
    ref.onOpen = [&](RefEnd::Channel& c) { ref.acknowledgeOpen(c); };
    ref.onMessage = [&](RefEnd::Channel&, bool, const Bytes& d, bool) { check(d); };
    lib.session->start();
    PBT_CHECK(ctx, w.until([&] { return open && ref.idle(); }, 5000), "not opened", "no channel");
    auto* c = &ref.channels.front();
    if (!fromLib) {
        c = &ref.open("theirs", 0, unordered, false, "");
        w.runTo(w.now() + 1000);
    }
    ctx.note("%zu messages %s%s", count, fromLib ? "to the peer" : "from the peer", unordered ? ", unordered" : "");
    for (size_t i = 0; i < count; i += 1) {
        Bytes d;
        put32(d, static_cast<uint32_t>(i));
        if (fromLib)
            lib.send("mine", false, d);
        else
            ref.send(*c, false, d);
        if (i % 100 == 99)
            w.runTo(w.now() + 12);
    }
    w.until([&] { return got == count; }, 60000);
    PBT_CHECK(ctx, got == count, "message lost", "%zu of %zu messages have arrived", got, count);
    ctx.nontrivial();
    ctx.tagN("messages delivered", got);
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P17",
                 "at least 2 messages were delivered (sessions: and a datagram was lost, repeated or out of order)",
                 { "the network becomes good in the end", "a label has fewer than 1000 bytes" },
                 { { "sessions", 100, sessions }, { "peer", 150, peer }, { "many", 1, many } } });
}
