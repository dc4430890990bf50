// A transport stand-in that hands out a byte string in pieces of the schedule's choosing.
#ifndef IO_SCHED_HPP
#define IO_SCHED_HPP
#include "vh.hpp"
#include <sps_io.hpp>

namespace vh {

// how a transport cuts the byte stream up
struct Cutter {
    int mode;      // 0 everything, 1 one byte, 2 random small, 3 random large, 4 fixed cut list then rest
    Rng rng;
    std::vector<size_t> cuts;
    size_t ci = 0;
    explicit Cutter(int m = 0, uint64_t seed = 1) : mode(m), rng(seed) {}
    size_t piece(size_t want) {
        size_t k = want;
        switch (mode) {
            case 1: k = 1; break;
            case 2: k = 1 + rng.next() % 7; break;
            case 3: k = 1 + rng.next() % 1500; break;
            case 4: if (ci < cuts.size()) k = cuts[ci++]; break;
            default: break;
        }
        return std::max<size_t>(1, std::min(k, want));
    }
};

class SchedReader : public sps::IReaderWriter {
 public:
    Bytes data;
    size_t pos = 0;
    Cutter cut;
    uint64_t reads = 0;
    size_t max_request = 0;
    int end_error = ERROR_SOCKET_CLOSED;  // what the transport reports at the end
    Bytes written;
    std::vector<size_t> write_sizes;
    int fail_write_after = -1;
    utime_t rtm = -1, stm = -1;

    SchedReader(Bytes d, Cutter c) : data(std::move(d)), cut(c) {}
    void set_recv_timeout(utime_t t) override { rtm = t; }
    utime_t get_recv_timeout() override { return rtm; }
    void set_send_timeout(utime_t t) override { stm = t; }
    utime_t get_send_timeout() override { return stm; }
    error_t read(void* buf, size_t size, size_t& nread) override {
        ++reads;
        max_request = std::max(max_request, size);
        if (size == 0) return ERROR_IO_BUFFER_FULL;   // as the TCP socket does
        if (pos >= data.size()) return end_error;
        size_t k = cut.piece(std::min(size, data.size() - pos));
        memcpy(buf, &data[pos], k);
        pos += k;
        nread = k;
        return SUCCESS;
    }
    error_t read_fully(void* buf, size_t size, ssize_t* nread) override {
        ++reads;
        size_t k = std::min(size, data.size() - pos);
        if (k) memcpy(buf, &data[pos], k);
        pos += k;
        if (nread) *nread = k;
        return k == size ? SUCCESS : ERROR_SOCKET_READ_FULLY;
    }
    error_t write(void* buf, size_t size) override {
        if (size == 0) return ERROR_SOCKET_WRITE;     // as the TCP socket does
        if (fail_write_after >= 0 && (int) write_sizes.size() >= fail_write_after) return ERROR_SOCKET_WRITE;
        written.insert(written.end(), (uint8_t*) buf, (uint8_t*) buf + size);
        write_sizes.push_back(size);
        return SUCCESS;
    }
};
typedef std::shared_ptr<SchedReader> PSchedReader;

}  // namespace vh
#endif
