// Replaces include/srtc/random_generator.h: every draw is an arbitrary value of the documented range.
#pragma once
#include <cstdint>
#include <random>
extern "C" uint64_t vp_env_random(uint64_t lo, uint64_t hi);
namespace srtc
{
template <class Value> class RandomGenerator
{
public:
    RandomGenerator(Value min, Value max) : mMin(min), mMax(max) {}
    Value next() { return (Value)vp_env_random(mMin, mMax); }
private:
    Value mMin, mMax;
};
} // namespace srtc
