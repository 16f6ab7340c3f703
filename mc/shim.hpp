// Force-included (-include) in every translation unit built by the checks.
//
// It replaces the simulator's only source of nondeterminism, the global
// std::mt19937 engine `soil_simulator::rng`, by an engine whose every draw is
// an explicit choice point decided by the explorer.  The simulator sources are
// compiled unmodified: they still say `std::mt19937` and
// `std::uniform_int_distribution<int>`.
#pragma once
#ifdef __cplusplus
#include <cstdint>
#include <random>

namespace mc {
// Decided by the explorer: returns a value in [0, n).
int choose(int n);
// Raw 32 bit draw (only used if the code draws from the engine directly).
std::uint32_t raw_draw();
// Called whenever a generator is seeded or created.
void on_seed();

struct Engine {
    using result_type = std::uint32_t;
    Engine() { on_seed(); }
    explicit Engine(std::uint64_t) { on_seed(); }
    Engine(const Engine&) { on_seed(); }
    template <typename S, typename = typename S::result_type>
    explicit Engine(S&) { on_seed(); }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    void seed(std::uint64_t = 0) { on_seed(); }
    template <typename S, typename = typename S::result_type>
    void seed(S&) { on_seed(); }
    result_type operator()() { return raw_draw(); }
    void discard(unsigned long long) {}
};
}  // namespace mc

namespace std {
using mc_mt19937 = mc::Engine;

#define MC_UNIFORM(T) \
template <> template <> \
inline T uniform_int_distribution<T>::operator()<mc::Engine>( \
    mc::Engine&, const param_type& p \
) { \
    return static_cast<T>(p.a() + mc::choose( \
        static_cast<int>(p.b() - p.a() + 1))); \
}
MC_UNIFORM(int)
MC_UNIFORM(long)
MC_UNIFORM(long long)
MC_UNIFORM(short)
MC_UNIFORM(unsigned int)
MC_UNIFORM(unsigned long)
MC_UNIFORM(unsigned long long)
MC_UNIFORM(unsigned short)
#undef MC_UNIFORM
}  // namespace std

#define mt19937 mc_mt19937
#endif
