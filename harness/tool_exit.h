// Included before each source of the tools: where a tool would end the process, its reader or writer is left instead
#pragma once

#include <cstdlib>

struct ToolExit {
    int code;
};

[[noreturn]] void toolExit(int code);

namespace std
{
using ::toolExit;
}

#define exit(code) toolExit(code)
