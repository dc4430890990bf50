property = "P11"
needs = "a publisher that repeats its video sequence header in the middle of a group of pictures, and a player that joins before the next key frame"
what = "the cached group of pictures is thrown away when a video sequence header arrives, so a player that joins then starts without the packets since the last key frame"
edits = [("src/avformat/sps_avformat_cache.cpp", '''        video_sequence_header = pb;
''', '''        video_sequence_header = pb;
        pbs.clear();  // belongs to the old header
''')]
demo = r'''
#include <sps_avformat_cache.hpp>
#include <sps_sys_co.hpp>
using namespace sps;
int main() {
    ICoFactory::get_instance().init();
    AVGopCacheStream c;
    uint8_t d[4] = {1, 2, 3, 4};
    auto v = [&](int f, int t) { return AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_VIDEO, AVPacketType{t}, d, 4, 10, 10, f, 7); };
    c.put(v(0x17, 0)); c.put(v(0x17, 1)); c.put(v(0x27, 1)); c.put(v(0x17, 0)); c.put(v(0x27, 1));
    std::list<PAVPacket> o; c.dump(o, false);
    return o.size() == 4 ? 0 : 1;
}
'''
