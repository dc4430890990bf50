property = "P04"
needs = "a stream whose 32-bit FLV timestamp has its top bit set (a stream running for more than 24.8 days)"
what = "the FLV demuxer assembles the extended timestamp byte in a signed int, so timestamps from 2^31 on come out negative"
edits = [("src/avformat/sps_avformat_flvdec.cpp", "    dts          |= ((uint32_t) rd->read_int8() << 24u);  // high 8 bit",
          "    dts          |= (int32_t) (rd->read_int8() << 24);    // high 8 bit")]
demo = r'''
#include <sps_avformat_flvdec.hpp>
#include <cstring>
using namespace sps;
struct Rd : public IReader {
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t read_fully(void*, size_t, ssize_t*) override { return ERROR_IO_EOF; }
    std::string s; size_t o = 0;
    error_t read(void* b, size_t n, size_t& got) override {
        got = std::min(n, s.size() - o); if (!got) return ERROR_IO_EOF;
        memcpy(b, s.data() + o, got); o += got; return SUCCESS;
    }
};
int main() {
    auto r = std::make_shared<Rd>();
    const uint8_t h[] = {'F','L','V',1,5,0,0,0,9, 0,0,0,0, 8, 0,0,3, 0x34,0x56,0x78,0x92, 0,0,0, 0xaf,1,0x55};
    r->s.assign((const char*) h, sizeof h);
    FlvDemuxer d(r); PAVPacket p;
    if (d.read_header(p) != SUCCESS || d.read_packet(p) != SUCCESS) return 1;
    return p->dts == 0x92345678LL ? 0 : 1;
}
'''
