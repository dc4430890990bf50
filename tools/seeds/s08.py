property = "P12"
needs = "a player that vanished without cancelling its subscription, next to another player in the subscriber set"
what = "when publish finds an expired subscriber it removes it and skips the one after it, so that player misses this packet"
edits = [("src/sys/sps_sys_sync.hpp", '''            if (!s) {
                subs.erase(it++);
            } else {
                s->on_event(o);
                ++it;
            }''', '''            if (!s) {
                it = subs.erase(it);
            } else {
                s->on_event(o);
            }
            if (it != subs.end()) {
                ++it;
            }''')]
demo = r'''
#include <sps_avformat_cache.hpp>
#include <sps_sys_co.hpp>
#include <vector>
using namespace sps;
int main() {
    ICoFactory::get_instance().init();
    AVGopCacheStream c;
    std::vector<std::shared_ptr<AVDumpCacheStream>> s;
    for (int i = 0; i < 6; ++i) { s.push_back(std::make_shared<AVDumpCacheStream>(1000)); c.sub(s.back()); }
    s[0].reset(); s[2].reset(); s[4].reset();
    uint8_t d[4] = {1, 2, 3, 4};
    c.put(AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_VIDEO, AVPacketType{1}, d, 4, 10, 10, 0x27, 7));
    for (int i = 1; i < 6; i += 2) if (s[i]->size() != 1) return 1;
    return 0;
}
'''
