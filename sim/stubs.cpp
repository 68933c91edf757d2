// Stand-ins for the pieces the simulation replaces: proof-of-work hashes (cheap, same interface and
// per-version domain), DNS TXT lookups and UPnP discovery. Everything else is the product's code.
#include "kernel.h"
#include <string>
#include <vector>
#include <crypto/hash.h>
#include <Common/DnsTools.h>
namespace sim { std::function<void(const void*, size_t, const void*)> powHook; }
namespace crypto {
static void cheap(uint8_t tag, const void* d, size_t n, Hash& h) {
  std::vector<uint8_t> b((const uint8_t*)d, (const uint8_t*)d + n); b.push_back(tag); b.push_back(0x5A); cn_fast_hash(b.data(), b.size(), h); if (sim::powHook) sim::powHook(d, n, &h);
}
void cn_slow_hash_v0(cn_context&, const void* d, size_t n, Hash& h) { cheap(1, d, n, h); }
void cn_fast_slow_hash_v1(cn_context&, const void* d, size_t n, Hash& h) { cheap(2, d, n, h); }
void cn_conceal_slow_hash_v0(cn_context&, const void* d, size_t n, Hash& h) { cheap(3, d, n, h); }
void cn_gpu_hash_v0(cn_context&, const void* d, size_t n, Hash& h) { cheap(4, d, n, h); }
}
namespace common {
bool fetch_dns_txt(const std::string d, std::vector<std::string>& r) { return sim::dnsTxt ? sim::dnsTxt(d, r) : false; }
}
