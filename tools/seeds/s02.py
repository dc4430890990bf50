property = "P03"
needs = "a muxer with an audio/video/metadata filter set (a player that asked for video only) and a packet of the filtered kind between two others"
what = "the FLV muxer counts a packet it filtered out in the next previous-tag-size"
edits = [("src/avformat/sps_avformat_flvenc.cpp", '''    if (buffer->stream_type == AV_STREAM_TYPE_AUDIO && filter_audio) {
        return ret;''', '''    if (buffer->stream_type == AV_STREAM_TYPE_AUDIO && filter_audio) {
        previous_size = 11 + 2 + data_size;
        return ret;''')]
demo = r'''
#include <sps_avformat_flvenc.hpp>
#include <string>
using namespace sps;
struct Wr : public IWriter {
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
    std::string s;
    error_t write(void* b, size_t n) override { s.append((char*) b, n); return SUCCESS; }
};
int main() {
    auto w = std::make_shared<Wr>();
    FlvAVMuxer m(w);
    m.filter_audio = true;
    PAVPacket none; m.write_header(none);
    uint8_t d[8] = {1,2,3,4,5,6,7,8};
    auto v = [&](int f) { return AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_VIDEO, AVPacketType{1}, d, 8, 10, 10, f, 7); };
    auto a = AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_AUDIO, AVPacketType{1}, d, 3, 10, 10, 0xaf, 10);
    auto x = v(0x17), y = v(0x27);
    m.write_packet(x); m.write_packet(a); m.write_packet(y);
    const uint8_t* p = (const uint8_t*) w->s.data() + 9 + 4 + 11 + 13;
    unsigned prev = p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3];
    return prev == 11 + 13 ? 0 : 1;
}
'''
