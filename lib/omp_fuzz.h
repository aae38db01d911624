// See omp_fuzz.cpp. In builds with the real OpenMP runtime only the weak fallbacks are there.
#pragma once
#include <cstdint>
namespace omp_fuzz {
void begin(uint64_t seed, unsigned period);
void end();
const char* race();       // description of the first data race since begin, or null
long regions();           // parallel regions with more than one thread since begin
long switches();
bool available();
}
