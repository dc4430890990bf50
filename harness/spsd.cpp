// The server binary under observation: the repository's own main, modules and handlers, with the formats and
// protocols that need no patched librtmp (what a build without FFmpeg registers, minus RTMP).
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "regs.hpp"

extern "C" size_t __sanitizer_get_current_allocated_bytes();

// answers "how much heap is in use" on a pipe, from a thread of its own
static void* control(void*) {
    int in = atoi(getenv("SPSD_IN")), out = atoi(getenv("SPSD_OUT"));
    char c;
    while (read(in, &c, 1) == 1) {
        char b[64];
        int n = snprintf(b, sizeof(b), "%zu\n", __sanitizer_get_current_allocated_bytes());
        if (write(out, b, n) != n) break;
    }
    _exit(0);  // whoever drove us is gone
    return nullptr;
}

// libavformat brings a second libsrt (libsrt-gnutls) into the process whose globals are those of the first: the destructors of
// the two libraries crash on each other. The server's own destructors have run when this is called, the libraries' have not.
static void leave(int status, void*) {
    fflush(stdout);
    _exit(status);
}
__attribute__((constructor(101))) static void first() { on_exit(leave, nullptr); }

__attribute__((constructor)) static void spsd_init() {
    setvbuf(stdout, nullptr, getenv("SPSD_LOG") ? _IOLBF : _IOFBF, 1 << 16);
    pthread_t t;
    if (getenv("SPSD_IN")) pthread_create(&t, nullptr, control, nullptr);
}
