property = "P07"
needs = "an RTP packet with more than 7 contributing sources (CSRC count with its top bit set)"
what = "the CSRC list is skipped from a signed 4-bit count, so with 8 or more sources its words leak into the payload"
edits = [("src/avformat/sps_avformat_rtp.cpp", "    for (int i = 0; i < fix_header.cc; ++i) {", "    for (int i = 0; i < (fix_header.cc & 0x07); ++i) {")]
demo = r'''
#include <sps_avformat_rtp.hpp>
#include <cstring>
using namespace sps;
int main() {
    uint8_t p[12 + 36 + 4]; memset(p, 0, sizeof p);
    p[0] = 0x80 | 9; p[1] = 96; memcpy(p + 48, "\x41\x01\x02\x03", 4);
    BitContext bc(p, sizeof p); RtpPayloadHeader h;
    if (h.decode(bc) != SUCCESS) return 1;
    return bc.size() == 4 && bc.pos()[0] == 0x41 ? 0 : 1;
}
'''
