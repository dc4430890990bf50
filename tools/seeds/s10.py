property = "P10"
needs = "an access unit whose PPS is larger than 255 bytes"
what = "the PPS length in the decoder configuration record is written as if it were at most 255 bytes"
edits = [("src/avcodec/sps_avcodec_h264_parser.cpp", "            bc.write_int16(pps->nalu_size);", "            bc.write_int8(0);\n            bc.write_int8(pps->nalu_size);")]
demo = r'''
#include <sps_avcodec_h264_parser.hpp>
#include <cstring>
#include <string>
using namespace sps;
int main() {
    std::string s("\0\0\0\1\x67\x64\x11\x22\x33", 9), pps(300, 'p'); pps[0] = 0x68;
    s += std::string("\0\0\0\1", 4) + pps + std::string("\0\0\0\1\x65\x01\x02\x03", 8);
    H264AVCodecParser p; AVCodecContext ctx(90, 90, 90); std::list<PAVPacket> o;
    if (p.encode_avc(&ctx, (uint8_t*) &s[0], s.size(), o) != SUCCESS || o.size() != 2) return 1;
    uint8_t* b = o.front()->buffer();
    return b[14] == (300 >> 8) && b[15] == (300 & 255) ? 0 : 1;
}
'''
