property = "P32"
needs = "a command whose name begins with the name of a known one, such as play2"
what = "names are compared by their beginning only, so a command the server does not know is taken for another one"
edits = [("src/avformat/sps_avformat_librtmp_packet.cpp", '''    return strlen(c) == src->av_len && memcmp(src->av_val, c, src->av_len) == 0;
''', '''    return strlen(c) <= src->av_len && memcmp(src->av_val, c, strlen(c)) == 0;
''')]
demo = r'''
#include <sps_avformat_librtmp_packet.hpp>
#include <cstring>
using namespace sps;
static bool known(const char *name) {
    char b[128], *p = b, *e = b + sizeof(b);
    AVal n = {(char *) name, (int) strlen(name)}, s = {(char *) "cam", 3};
    p = AMF_EncodeString(p, e, &n);
    p = AMF_EncodeNumber(p, e, 4);
    *p++ = 0x05;
    p = AMF_EncodeString(p, e, &s);
    AMFObject o{};
    AMF_Decode(&o, b, (int) (p - b), 0);
    AmfRtmpPacket a;
    a.amf_object = o;
    PIRTMPPacket r;
    a.convert_self(r);
    return (bool) r;
}
int main() { return !known("play2") && !known("publishX") ? 0 : 1; }
'''
