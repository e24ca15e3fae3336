// A clock that only the harness advances, for the Python extension module.
#include <chrono>
static long long g_now = 1000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point{duration{g_now += 1000}}; }
} } }
extern "C" int p31_advance(long long ns) { g_now += ns; return 0; }
