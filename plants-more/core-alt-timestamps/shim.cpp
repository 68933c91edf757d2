// what world.cpp expects from the simulator, for a plain program: real clock, real files, no DNS
#include "kernel.h"
#include "harness.h"
namespace sim { std::function<bool(const std::string&, std::vector<std::string>&)> dnsTxt; NoSched::NoSched() {} NoSched::~NoSched() {} }
namespace hs { std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string r; for (size_t i = 0; i < n; ++i) { uint8_t b = ((const uint8_t*)p)[i]; r += d[b >> 4]; r += d[b & 15]; } return r; } }
