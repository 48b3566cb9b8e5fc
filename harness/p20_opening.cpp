// P20: channels open on both sides, with the same settings, despite loss
#include "sctp_scenarios.h"

using namespace pbt;
using namespace ss;

namespace
{

void sessions(Src& src, Ctx& ctx)
{
    pairScenario(src, ctx, { false, false, true });
}

void peer(Src& src, Ctx& ctx)
{
    peerScenario(src, ctx, { false, false, true });
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P20",
                 "at least 2 messages were delivered (sessions: and a datagram was lost, repeated or out of order)",
                 { "the network becomes good in the end", "a label has fewer than 1000 bytes" },
                 { { "sessions", 2, sessions }, { "peer", 3, peer } } });
}
