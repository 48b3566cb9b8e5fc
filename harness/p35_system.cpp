// P35: the system's own sockets and event loop, which the others replace
#include "leaks.h"

int main_p31(int argc, char** argv);

int main(int argc, char** argv)
{
    leaks::collect("p31", main_p31);
    return pbt::run(argc, argv, leaks::property({}));
}
