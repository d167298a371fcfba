// P25: bit and byte helpers, and the memory figures.
#include "common.hpp"
#include <gtl/bits.hpp>
#include <gtl/meminfo.hpp>
#include <sys/mman.h>
#include <sys/sysinfo.h>
#include <unistd.h>
using namespace vf;
template<class T> T ref_swap(T v) { T o = 0; for (size_t i = 0; i < sizeof(T); ++i) o = T(o | T(T((v >> (8 * i)) & 0xff) << (8 * (sizeof(T) - 1 - i)))); return o; }
template<class T> void ref_bytes(T v, bool big, unsigned char* b) { for (size_t i = 0; i < sizeof(T); ++i) b[big ? sizeof(T) - 1 - i : i] = (unsigned char)((v >> (8 * i)) & 0xff); }
inline unsigned ref_clz(uint64_t n, unsigned w) { unsigned c = 0; for (unsigned i = w; i-- > 0 && !((n >> i) & 1);) ++c; return c; }
inline unsigned ref_ctz(uint64_t n) { unsigned c = 0; while (!((n >> c) & 1)) ++c; return c; }
// values: all the shapes that matter to a bit function
uint64_t val(Rng& r) {
    switch (r.below(7)) {
    case 0: return uint64_t(1) << r.below(64);
    case 1: return (uint64_t(1) << r.below(64)) - 1;
    case 2: return ~((uint64_t(1) << r.below(64)) - 1);
    case 3: return (uint64_t(1) << r.below(64)) | (uint64_t(1) << r.below(64));
    case 4: return r.next() >> r.below(64);
    case 5: return r.next() << r.below(64);
    default: return r.next(); }
}
#define EQ(fn, got, want, in) VCHECK(uint64_t(got) == uint64_t(want), fn, fn "(%llx) is %llx, expected %llx", (unsigned long long)(in), (unsigned long long)(got), (unsigned long long)(want))
void c_one(uint64_t n) {
    uint32_t m = uint32_t(n); uint16_t h = uint16_t(n);
    EQ("CountLeadingZeros64", gtl::CountLeadingZeros64(n), ref_clz(n, 64), n); EQ("CountLeadingZeros32", gtl::CountLeadingZeros32(m), ref_clz(m, 32), m);
    EQ("CountLeadingZeros64Slow", gtl::CountLeadingZeros64Slow(n), ref_clz(n, 64), n); EQ("CountLeadingZeros32Slow", gtl::CountLeadingZeros32Slow(m), ref_clz(m, 32), m);
    if (n) { EQ("CountTrailingZerosNonZero64", gtl::CountTrailingZerosNonZero64(n), ref_ctz(n), n); EQ("CountTrailingZerosNonZero64Slow", gtl::CountTrailingZerosNonZero64Slow(n), ref_ctz(n), n); }
    if (m) { EQ("CountTrailingZerosNonZero32", gtl::CountTrailingZerosNonZero32(m), ref_ctz(m), m); EQ("CountTrailingZerosNonZero32Slow", gtl::CountTrailingZerosNonZero32Slow(m), ref_ctz(m), m); }
    EQ("gbswap_64", gtl::gbswap_64(n), ref_swap(n), n); EQ("gbswap_32", gtl::gbswap_32(m), ref_swap(m), m); EQ("gbswap_16", gtl::gbswap_16(h), ref_swap(h), h);
    { unsigned char b[8]; uint16_t a16; uint32_t a32; uint64_t a64; // network order is big endian
      ref_bytes(h, true, b); memcpy(&a16, b, 2); EQ("ghtons", gtl::ghtons(h), a16, h); EQ("gntohs", gtl::gntohs(a16), h, a16);
      ref_bytes(m, true, b); memcpy(&a32, b, 4); EQ("ghtonl", gtl::ghtonl(m), a32, m); EQ("gntohl", gtl::gntohl(a32), m, a32);
      ref_bytes(n, true, b); memcpy(&a64, b, 8); EQ("ghtonll", gtl::ghtonll(n), a64, n); EQ("gntohll", gtl::gntohll(a64), n, a64); }
    cnt("values")++;
}
template<class T, class S, class L> void mem(Rng& r, const char* nm, T v, bool big, S st, L ld) {
    // at any address, without touching its neighbours: an exact allocation, and one with room around
    unsigned char want[8]; ref_bytes(v, big, want); size_t off = r.below(16);
    { std::unique_ptr<unsigned char[]> b(new unsigned char[off + sizeof(T)]); memset(b.get(), 0x5a, off + sizeof(T)); st(b.get() + off, v); VCHECK(!memcmp(b.get() + off, want, sizeof(T)), nm, "%s of %llx stores other bytes", nm, (unsigned long long)v); for (size_t i = 0; i < off; ++i) VCHECK(b[i] == 0x5a, nm, "%s writes before its address", nm);
      T back = ld(b.get() + off); VCHECK(back == v, nm, "%s: %llx comes back as %llx", nm, (unsigned long long)v, (unsigned long long)back); }
    { unsigned char b[40]; memset(b, 0xa5, sizeof b); st(b + off, v); for (size_t i = 0; i < sizeof b; ++i) VCHECK(i >= off && i < off + sizeof(T) ? b[i] == want[i - off] : b[i] == 0xa5, nm, "%s changes byte %zu of a store of %zu at %zu", nm, i, sizeof(T), off); }
    cnt("stores")++;
}
void c_bits(Rng& r, uint64_t idx) {
    for (int k = 0; k < 200; ++k) { uint64_t v = val(r); if (k < 4) oplog().add("value", v); c_one(v); }
    for (int k = 0; k < 64; ++k) c_one((idx % 1024) * 64 + uint64_t(k)); // all 16-bit values in 1024 cases
    oplog().add("values", r.next(), idx); c_one(0);
    for (int k = 0; k < 10; ++k) {
        uint64_t v = val(r);
        const bool le = gtl::little_endian::IsLittleEndian(); uint16_t one = 1; VCHECK(le == (*reinterpret_cast<unsigned char*>(&one) == 1) && gtl::big_endian::IsLittleEndian() == le, "endian", "IsLittleEndian is wrong");
        namespace B = gtl::bits; namespace LE = gtl::little_endian; namespace BE = gtl::big_endian;
        mem<uint16_t>(r, "UnalignedStore16", uint16_t(v), !le, B::UnalignedStore16, B::UnalignedLoad16); mem<uint32_t>(r, "UnalignedStore32", uint32_t(v), !le, B::UnalignedStore32, B::UnalignedLoad32); mem<uint64_t>(r, "UnalignedStore64", v, !le, B::UnalignedStore64, B::UnalignedLoad64);
        mem<uint16_t>(r, "little_endian::Store16", uint16_t(v), false, LE::Store16, LE::Load16); mem<uint32_t>(r, "little_endian::Store32", uint32_t(v), false, LE::Store32, LE::Load32); mem<uint64_t>(r, "little_endian::Store64", v, false, LE::Store64, LE::Load64);
        mem<uint16_t>(r, "big_endian::Store16", uint16_t(v), true, BE::Store16, BE::Load16); mem<uint32_t>(r, "big_endian::Store32", uint32_t(v), true, BE::Store32, BE::Load32); mem<uint64_t>(r, "big_endian::Store64", v, true, BE::Store64, BE::Load64);
        mem<uint16_t>(r, "little_endian::FromHost16", uint16_t(v), false, [](void* p, uint16_t x) { uint16_t y = LE::FromHost16(x); memcpy(p, &y, 2); }, [](void* p) { uint16_t y; memcpy(&y, p, 2); return LE::ToHost16(y); });
        mem<uint32_t>(r, "little_endian::FromHost32", uint32_t(v), false, [](void* p, uint32_t x) { uint32_t y = LE::FromHost32(x); memcpy(p, &y, 4); }, [](void* p) { uint32_t y; memcpy(&y, p, 4); return LE::ToHost32(y); });
        mem<uint64_t>(r, "little_endian::FromHost64", v, false, [](void* p, uint64_t x) { uint64_t y = LE::FromHost64(x); memcpy(p, &y, 8); }, [](void* p) { uint64_t y; memcpy(&y, p, 8); return LE::ToHost64(y); });
        mem<uint16_t>(r, "big_endian::FromHost16", uint16_t(v), true, [](void* p, uint16_t x) { uint16_t y = BE::FromHost16(x); memcpy(p, &y, 2); }, [](void* p) { uint16_t y; memcpy(&y, p, 2); return BE::ToHost16(y); });
        mem<uint32_t>(r, "big_endian::FromHost32", uint32_t(v), true, [](void* p, uint32_t x) { uint32_t y = BE::FromHost32(x); memcpy(p, &y, 4); }, [](void* p) { uint32_t y; memcpy(&y, p, 4); return BE::ToHost32(y); });
        mem<uint64_t>(r, "big_endian::FromHost64", v, true, [](void* p, uint64_t x) { uint64_t y = BE::FromHost64(x); memcpy(p, &y, 8); }, [](void* p) { uint64_t y; memcpy(&y, p, 8); return BE::ToHost64(y); });
#ifdef GTL_HAS_UMUL128
        { uint64_t a = v, b = val(r), hi = 7, lo = umul128(a, b, &hi); // by halves
          uint64_t a0 = uint32_t(a), a1 = a >> 32, b0 = uint32_t(b), b1 = b >> 32, p00 = a0 * b0, p01 = a0 * b1, p10 = a1 * b0, p11 = a1 * b1, mid = (p00 >> 32) + uint32_t(p01) + uint32_t(p10);
          VCHECK(lo == ((mid << 32) | uint32_t(p00)) && hi == p11 + (p01 >> 32) + (p10 >> 32) + (mid >> 32), "umul128", "umul128(%llx, %llx) is %llx:%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)hi, (unsigned long long)lo); }
#endif
    }
}
uint64_t statm() { FILE* f = fopen("/proc/self/statm", "r"); unsigned long long p = 0; if (f) { if (fscanf(f, "%llu", &p) != 1) p = 0; fclose(f); } return uint64_t(p) * uint64_t(sysconf(_SC_PAGESIZE)); }
void c_mem(Rng& r, uint64_t) {
    struct sysinfo si; if (sysinfo(&si)) return; // before and after, as others use memory, too
    uint64_t u = si.mem_unit, ram = uint64_t(si.totalram) * u, swap = uint64_t(si.totalswap) * u;
    EQ("GetPhysicalMemory", gtl::GetPhysicalMemory(), ram, 0); EQ("GetSystemMemory", gtl::GetSystemMemory(), ram + swap, 0);
    bool near = false; uint64_t got = 0, want = 0; for (int t = 0; t < 200 && !near; ++t) { if (sysinfo(&si)) return; want = (uint64_t(si.totalram) - si.freeram + si.totalswap - si.freeswap) * u; got = gtl::GetTotalMemoryUsed(); near = (got > want ? got - want : want - got) < (uint64_t(64) << 20); }
    VCHECK(near, "GetTotalMemoryUsed", "GetTotalMemoryUsed is %llu, the system says %llu", (unsigned long long)got, (unsigned long long)want);
    // this process, at sizes from what it is now to many terabytes of address space
    size_t sz = size_t(1) << r.range(20, 44); sz += r.below(sz); void* p = mmap(nullptr, sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); oplog().add("physical and system memory"); oplog().add("memory used"); oplog().add("reserve", sz, p != MAP_FAILED);
    uint64_t a = statm(), x = gtl::GetProcessMemoryUsed(), b = statm();
    if (a && b) { uint64_t lo = std::min(a, b), hi = std::max(a, b), slack = uint64_t(4) << 20; VCHECK(x + slack >= lo && x <= hi + slack, "GetProcessMemoryUsed", "GetProcessMemoryUsed is %llu, the process has %llu to %llu bytes", (unsigned long long)x, (unsigned long long)lo, (unsigned long long)hi); stat_max("max_process_gb", hi >> 30); cnt("sizes")++; }
    if (p != MAP_FAILED) munmap(p, sz);
}
int main(int argc, char** argv) { return run_main(argc, argv, { { "bits", c_bits }, { "mem", c_mem } }); }
