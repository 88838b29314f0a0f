// Linked after the library, to see that static objects are constructed in the
// order of the objects files.
#include <cstdlib>
bool probe_constructed = std::getenv("PATH") != nullptr || std::abs(1) == 1;
