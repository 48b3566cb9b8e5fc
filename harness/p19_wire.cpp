// P19: data channel packets on the wire follow the protocol
#include "sctp_scenarios.h"

using namespace pbt;
using namespace ss;

namespace
{

void sessions(Src& src, Ctx& ctx)
{
    pairScenario(src, ctx, { true, false, false });
}

void peer(Src& src, Ctx& ctx)
{
    peerScenario(src, ctx, { true, false, false });
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
               { "P19",
                 "at least 2 messages were delivered (sessions: and a datagram was lost, repeated or out of order)",
                 { "a label has fewer than 1000 bytes" },
                 { { "sessions", 2, sessions }, { "peer", 3, peer } } });
}
