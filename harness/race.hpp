// The runtime behind code compiled with -fsanitize=thread but not linked with libtsan:
// threads take turns, switch where a schedule says, and every access and
// synchronisation is recorded.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace race {
struct Schedule {
    std::string kind;                   // rand | hist
    uint64_t seed = 1;
    unsigned data = 0, sync = 500;      // chance (per mille) of a switch at shared data / synchronisation
    std::vector<int> hist;              // who takes the next step, by synchronisation steps
};
// runs the bodies as threads 1, 2, ...; false if they got stuck
bool run(const std::vector<std::function<void()>> & bodies, const Schedule & s);
// conflicting accesses and synchronisation as JSON lines
std::string report(long & accesses, long & shared);
}  // namespace race
