property = "P01"
needs = "a field wider than 32 bits with bits set above bit 31 (such as a 33-bit PCR base)"
what = "BitContext::write_bits narrows the value to 32 bits before it shifts, so the upper bits of wide fields are lost"
edits = [("src/io/sps_io_bits.cpp", "        nr_value = masks[nr-1] & (value >> (n-nr));",
          "        uint32_t high = value;\n        nr_value = masks[nr-1] & (n - nr < 32 ? high >> (n-nr) : 0);")]
demo = r'''
#include <sps_io_bits.hpp>
#include <cstring>
using namespace sps;
int main() {
    uint8_t b[5] = {0, 0, 0, 0, 0};
    BitContext bc(b, 5);
    bc.write_bits(0x1A2B3C4D5ULL, 33);
    bc.write_bits(0x7f, 7);
    const uint8_t want[5] = {0xD1, 0x59, 0xE2, 0x6A, 0xFF};
    return memcmp(b, want, 5) ? 1 : 0;
}
'''
