#pragma once
#include <cstdint>
namespace noise
{
//! Set up schedule perturbation for one case. mode 0..4, see noise.cpp.
void configure(uint64_t seed, int mode, long budgetUs = 60000);
void off();
uint64_t injected();
uint64_t sleeps();
uint32_t edgesTotal();
bool edgeHit(uint32_t i);
} // namespace noise
