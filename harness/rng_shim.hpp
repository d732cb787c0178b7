// Included before everything else: an engine whose step is a visible read-modify-write, so that two unprotected
// steps interleave.  Same sequence as std::mt19937.
#ifndef VP_RNG_SHIM_HPP
#define VP_RNG_SHIM_HPP
#include <atomic>
#include <mutex>
#include <random>
#include <sched.h>
#include <thread>
namespace std
{
inline std::atomic<unsigned> vp_delay{0u};
class vp_mt19937 : public mt19937
{
    static void pause()
    {
        unsigned d = vp_delay.load(std::memory_order_relaxed);
        for (unsigned i = 0; i < d; ++i) sched_yield();
    }

public:
    using mt19937::mt19937;
    vp_mt19937() = default;
    result_type operator()()
    {
        mt19937 copy(*this);
        pause();
        auto r = copy();
        pause();
        static_cast<mt19937 &>(*this) = copy;
        return r;
    }
    template <typename S>
    void seed(S &&s)
    {
        pause();
        mt19937 copy(std::forward<S>(s));
        static_cast<mt19937 &>(*this) = copy;
        pause();
    }
    void seed() { mt19937::seed(); }
    void discard(unsigned long long z)
    {
        for (; z != 0ull; --z) (*this)();
    }
};
} // namespace std
#define mt19937 vp_mt19937
#endif
