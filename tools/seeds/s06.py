property = "P09"
needs = "an AAC stream whose configuration changes while it runs"
what = "after a configuration change the parser goes on announcing the first configuration instead of the new one"
edits = [("src/avcodec/sps_avcodec_aac_parser.cpp", '''                header = std::make_unique<AdtsFixedHeader>();
            }

            *header = tmp_header;
''', '''                header = std::make_unique<AdtsFixedHeader>(tmp_header);
            }
''')]
demo = r'''
#include <sps_avcodec_aac_parser.hpp>
#include <cstring>
using namespace sps;
static void frame(uint8_t* p, int srate, int ch) {
    int len = 7 + 4;
    p[0] = 0xff; p[1] = 0xf1; p[2] = 1 << 6 | srate << 2 | ch >> 2; p[3] = (ch & 3) << 6 | len >> 11; p[4] = len >> 3; p[5] = (len & 7) << 5 | 0x1f; p[6] = 0xfc;
    memset(p + 7, 0x33, 4);
}
int main() {
    AacAVCodecParser a; AVCodecContext ctx(90, 90, 90);
    uint8_t b[22]; frame(b, 4, 2); frame(b + 11, 3, 2);
    std::list<PAVPacket> o;
    if (a.encode_avc(&ctx, b, 22, o) != SUCCESS) return 1;
    int n = 0; uint8_t last[2] = {0, 0};
    for (auto& p : o) if (p->is_audio_sequence_header()) { ++n; memcpy(last, p->buffer(), 2); }
    return n == 2 && last[0] == 0x11 && last[1] == 0x90 ? 0 : 1;
}
'''
