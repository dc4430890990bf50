property = "P13"
needs = "a player that waits for the next packet while its publisher stays silent for longer than the timeout"
what = "the player goes back to waiting after its timeout instead of giving up, so it never leaves while the publisher is silent"
edits = [("src/avformat/sps_avformat_cache.cpp", '''    if (size() == 0) {
        wait(recv_timeout);
    }
''', '''    while (size() == 0) {
        wait(recv_timeout);
    }
''')]
demo = r'''
#include <sps_avformat_cache.hpp>
#include <sps_sys_co.hpp>
#include <unistd.h>
using namespace sps;
int main() {
    ICoFactory::get_instance().init();
    alarm(10);
    AVDumpCacheStream c(50 * 1000);
    std::list<PAVPacket> o;
    return c.dump(o, true) == 0 && o.empty() ? 0 : 1;
}
'''
