property = "P02"
needs = "a transport read that fails (timeout) while part of the requested bytes is already buffered, and a caller that goes on afterwards"
what = "BytesReader::acquire drops the bytes already buffered when the transport reports an error, so a retry after a timeout resumes in the middle of the stream"
edits = [("src/io/sps_io_bytes.cpp", '''            sp_error("fail increase buffer read ret: %d", ret);
            return ret;''', '''            sp_error("fail increase buffer read ret: %d", ret);
            // do not keep a partial unit around
            buf->clear();
            return ret;''')]
demo = r'''
#include <sps_io_bytes.hpp>
#include <cstdio>
#include <cstring>
using namespace sps;
struct Rd : public IReader {
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t read_fully(void*, size_t, ssize_t*) override { return ERROR_IO_EOF; }
    int step = 0;
    error_t read(void* b, size_t s, size_t& n) override {
        uint8_t* p = (uint8_t*) b; n = 0;
        if (step == 0) { ++step; p[0] = 1; p[1] = 2; p[2] = 3; n = 3; return SUCCESS; }
        if (step == 1) { ++step; return ERROR_IO_NOT_ENOUGH; }       // times out once
        ++step; p[0] = 4; p[1] = 5; n = 2; return SUCCESS;
    }
};
int main() {
    BytesReader r(std::make_shared<Rd>(), std::make_shared<AVBuffer>(64, true));
    if (r.acquire(4) == SUCCESS) return 1;
    if (r.acquire(4) != SUCCESS) return 1;
    return r.read_int32() == 0x01020304 ? 0 : 1;
}
'''
