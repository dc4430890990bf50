property = "P06"
needs = "a PES packet with a DTS of 2^32 ticks or more (33-bit clock past 13.3 hours)"
what = "the top bit of the 33-bit decoding time stamp is lost when it is assembled"
edits = [("src/avformat/sps_avformat_ts.cpp", "            tmp_dts |= (((uint64_t) dts.dts1) << 30) & 0x1c0000000LL;",
          "            tmp_dts |= (((uint64_t) dts.dts1) << 30) & 0x0c0000000LL;")]
demo = r'''
#include <sps_avformat_ts.hpp>
#include <cstring>
#include <vector>
using namespace sps;
struct H : public IPesHandler {
    std::vector<int64_t> dts;
    error_t on_pes_complete(TsPesContext* c) override { dts.push_back(c->dts); return SUCCESS; }
};
static void ts(std::vector<uint8_t>& p, int v) { p.push_back(v); }
static void stamp(uint8_t* o, int tag, uint64_t t) {
    o[0] = tag << 4 | ((t >> 30) & 7) << 1 | 1; o[1] = t >> 22; o[2] = ((t >> 15) & 0x7f) << 1 | 1; o[3] = t >> 7; o[4] = (t & 0x7f) << 1 | 1;
}
int main() {
    H h; TsContext c(&h);
    uint8_t p[188];
    memset(p, 0xff, 188);
    const uint8_t pat[] = {0x47,0x40,0x00,0x10, 0, 0x00,0xb0,0x0d,0x00,0x01,0xc1,0,0, 0,1,0xe1,0x00, 0,0,0,0};
    memcpy(p, pat, sizeof pat); if (c.decode(p, 188) != SUCCESS) return 1;
    memset(p, 0xff, 188);
    const uint8_t pmt[] = {0x47,0x41,0x00,0x10, 0, 0x02,0xb0,0x12,0x00,0x01,0xc1,0,0, 0xe1,0x01,0xf0,0, 0x1b,0xe1,0x01,0xf0,0, 0,0,0,0};
    memcpy(p, pmt, sizeof pmt); if (c.decode(p, 188) != SUCCESS) return 1;
    uint64_t d = 0x1C0001234ULL;
    for (int i = 0; i < 2; ++i) {
        memset(p, 0x11, 188);
        uint8_t pes[] = {0x47,0x41,0x01,(uint8_t) (0x10 + i), 0,0,1,0xe0, 0,0, 0x80,0xc0,10};
        memcpy(p, pes, sizeof pes); stamp(p + 13, 3, d + 900); stamp(p + 18, 1, d);
        if (c.decode(p, 188) != SUCCESS) return 1;
    }
    return h.dts.size() == 1 && h.dts[0] == (int64_t) d ? 0 : 1;
}
'''
