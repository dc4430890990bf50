// Makes the media the FFmpeg checks publish, and reads what players get. Nothing of the repository is used here.
//   ffgen gen OUTDIR SEED N    clips encoded with libavcodec, each muxed into OUTDIR/K.{flv,ts,mkv,mp4,aac,h264}
//                              (xmp4: mp4 whose first track is of a kind nobody knows; xmkv: Matroska with two attachments, the second a picture)
//   ffgen dump FORMAT FILE...  per file the packets a player of FORMAT finds, one line each: v|a key pts-us dts-us pos hash
//                              (hash: of the NAL units without parameter sets and delimiters, of the AAC frame without ADTS), then "."
extern "C" {
#include <libavcodec/avcodec.h>
#include <libavformat/avformat.h>
#include <libavutil/opt.h>
}
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <string>
#include <vector>

static uint64_t S;
static uint64_t rnd() { S += 0x9e3779b97f4a7c15ull; uint64_t z = S; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
#define OK(x) do { int r_ = (x); if (r_ < 0) { fprintf(stderr, "ffgen: %s: %d\n", #x, r_); exit(1); } } while (0)

struct Pkt { int st; bool key; int64_t pts, dts; std::vector<uint8_t> b; };
static void drain(AVCodecContext* c, AVFrame* f, int st, std::vector<Pkt>& out) {
    OK(avcodec_send_frame(c, f));
    ::AVPacket* p = av_packet_alloc();
    while (avcodec_receive_packet(c, p) >= 0) {
        out.push_back({st, (p->flags & AV_PKT_FLAG_KEY) != 0, av_rescale_q(p->pts, c->time_base, {1, 1000}), av_rescale_q(p->dts, c->time_base, {1, 1000}),
                       std::vector<uint8_t>(p->data, p->data + p->size)});
        av_packet_unref(p);
    }
    av_packet_free(&p);
}

// annex B (as x264 writes it) to units of 4-byte length
static std::vector<uint8_t> units(const std::vector<uint8_t>& b) {
    std::vector<uint8_t> o;
    std::vector<std::pair<size_t, size_t>> us;
    size_t i = 0, n = b.size(), at = n;
    while (i + 3 <= n) {
        if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 1) {
            if (at < n) { size_t e = i; if (e > at && b[e - 1] == 0) --e; us.push_back({at, e}); }
            at = i + 3;
            i += 3;
        } else ++i;
    }
    if (at < n) us.push_back({at, n});
    for (auto& u : us) {
        uint32_t l = u.second - u.first;
        o.push_back(l >> 24); o.push_back(l >> 16); o.push_back(l >> 8); o.push_back(l);
        o.insert(o.end(), b.begin() + u.first, b.begin() + u.second);
    }
    return o;
}

static std::vector<uint8_t> jpeg() {
    AVCodecContext* c = avcodec_alloc_context3(avcodec_find_encoder(AV_CODEC_ID_MJPEG));
    c->width = c->height = 32; c->pix_fmt = AV_PIX_FMT_YUVJ420P; c->time_base = {1, 25};
    OK(avcodec_open2(c, c->codec, nullptr));
    AVFrame* f = av_frame_alloc();
    f->width = f->height = 32; f->format = c->pix_fmt;
    OK(av_frame_get_buffer(f, 0));
    for (int p = 0; p < 3; ++p) for (int i = 0; i < f->linesize[p] * (p ? 16 : 32); ++i) f->data[p][i] = rnd();
    f->pts = 0;
    std::vector<Pkt> o;
    drain(c, f, 0, o);
    drain(c, nullptr, 0, o);
    av_frame_free(&f);
    avcodec_free_context(&c);
    return o.at(0).b;
}
static uint64_t fnv(const uint8_t* p, size_t n, uint64_t h = 1469598103934665603ull) { while (n--) h = (h ^ *p++) * 1099511628211ull; return h; }
static uint64_t nals(const std::vector<uint8_t>& u) {
    uint64_t h = 7;
    for (size_t q = 0; q + 4 <= u.size();) {
        size_t l = (size_t) u[q] << 24 | u[q + 1] << 16 | u[q + 2] << 8 | u[q + 3];
        if (l > u.size() - q - 4) return 1;      // a damaged access unit is its own kind
        int t = l ? u[q + 4] & 31 : 9;
        if (t != 7 && t != 8 && t != 9) { h = fnv(&u[q + 4], l, h * 31 + l); }
        q += 4 + l;
    }
    return h;
}
static int dump(const char* fmt, const char* file) {
    AVFormatContext* c = avformat_alloc_context();
    c->probesize = 1 << 30;
    if (avformat_open_input(&c, file, av_find_input_format(fmt), nullptr) < 0) { printf("!\n"); return 0; }
    if (avformat_find_stream_info(c, nullptr) < 0) { printf("!\n"); return 0; }
    ::AVPacket* p = av_packet_alloc();
    while (av_read_frame(c, p) >= 0) {
        AVStream* s = c->streams[p->stream_index];
        auto us = [&](int64_t t) { return t == AV_NOPTS_VALUE ? (long long) -1 : (long long) av_rescale_q(t, s->time_base, {1, 1000000}); };
        std::vector<uint8_t> b(p->data, p->data + p->size);
        bool v = s->codecpar->codec_type == AVMEDIA_TYPE_VIDEO;
        uint64_t h = 0;
        if (v) {
            bool annexb = s->codecpar->extradata_size == 0 || s->codecpar->extradata[0] != 1;
            h = nals(annexb ? units(b) : b);
        } else {
            size_t o = b.size() >= 7 && b[0] == 0xff && (b[1] & 0xf6) == 0xf0 ? (b[1] & 1 ? 7 : 9) : 0;
            h = fnv(b.data() + o, b.size() - o);
        }
        printf("%c %d %lld %lld %lld %016llx\n", v ? 'v' : s->codecpar->codec_type == AVMEDIA_TYPE_AUDIO ? 'a' : 'd', (p->flags & AV_PKT_FLAG_KEY) != 0, us(p->pts), us(p->dts),
               (long long) p->pos, (unsigned long long) h);
        av_packet_unref(p);
    }
    av_packet_free(&p);
    avformat_close_input(&c);
    return 0;
}

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    if (!strcmp(argv[1], "dump")) {
        av_log_set_level(AV_LOG_QUIET);
        for (int i = 3; i < argc; ++i) { dump(argv[2], argv[i]); printf(".\n"); }
        return 0;
    }
    if (argc < 5) return 2;
    std::string dir = argv[2];
    av_log_set_level(AV_LOG_ERROR);
    for (int k = 0; k < atoi(argv[4]); ++k) {
        S = strtoull(argv[3], 0, 10) * 1000 + k;
        int kind = k % 6;                                   // 0..3 both, 4 video only, 5 audio only
        bool video = kind != 5, audio = kind != 4;
        int bframes = k % 3 == 1 ? 2 : 0, gop = 4 + rnd() % 12, frames = 60 + rnd() % 90;
        bool big = k % 8 == 3;
        int w = big ? 192 : 96, h = big ? 128 : 64;
        int64_t start = k % 4 == 2 ? (int64_t) (rnd() % 100000000) : 0;      // ms
        std::vector<Pkt> v, a;
        AVCodecContext *vc = nullptr, *ac = nullptr;
        if (video) {
            const AVCodec* c = avcodec_find_encoder_by_name("libx264");
            if (!c) return 3;
            vc = avcodec_alloc_context3(c);
            vc->width = w; vc->height = h; vc->pix_fmt = AV_PIX_FMT_YUV420P;
            vc->time_base = {1, 25}; vc->framerate = {25, 1};
            vc->gop_size = gop; vc->max_b_frames = bframes; vc->thread_count = 1;
            vc->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
            av_opt_set(vc->priv_data, "preset", "ultrafast", 0);
            av_opt_set(vc->priv_data, "x264-params", ("scenecut=0:sliced-threads=0:bframes=" + std::to_string(bframes) + ":keyint=" + std::to_string(gop) + (big ? ":qp=10" : "")).c_str(), 0);
            OK(avcodec_open2(vc, c, nullptr));
            AVFrame* f = av_frame_alloc();
            f->width = w; f->height = h; f->format = AV_PIX_FMT_YUV420P;
            OK(av_frame_get_buffer(f, 0));
            for (int i = 0; i < frames; ++i) {
                OK(av_frame_make_writable(f));
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) f->data[0][y * f->linesize[0] + x] = big ? rnd() : (x * 3 + y * 5 + i * 7 + (rnd() % 8));
                for (int p = 1; p < 3; ++p) for (int y = 0; y < h / 2; ++y) memset(f->data[p] + y * f->linesize[p], 64 + (i * p * 3 + y) % 128, w / 2);
                f->pts = i;
                drain(vc, f, 0, v);
            }
            drain(vc, nullptr, 0, v);
            av_frame_free(&f);
            for (auto& p : v) p.b = units(p.b);
        }
        if (audio) {
            const AVCodec* c = avcodec_find_encoder_by_name("aac");
            ac = avcodec_alloc_context3(c);
            ac->sample_rate = 44100; ac->sample_fmt = AV_SAMPLE_FMT_FLTP; ac->bit_rate = 48000;
            av_channel_layout_default(&ac->ch_layout, 1 + k % 2);
            ac->time_base = {1, 44100}; ac->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
            OK(avcodec_open2(ac, c, nullptr));
            AVFrame* f = av_frame_alloc();
            f->nb_samples = ac->frame_size; f->format = ac->sample_fmt; f->sample_rate = 44100;
            av_channel_layout_copy(&f->ch_layout, &ac->ch_layout);
            OK(av_frame_get_buffer(f, 0));
            int n = frames * 44100 / 25 / ac->frame_size;
            for (int i = 0; i < n; ++i) {
                OK(av_frame_make_writable(f));
                for (int ch = 0; ch < ac->ch_layout.nb_channels; ++ch) for (int s = 0; s < f->nb_samples; ++s) ((float*) f->data[ch])[s] = ((int) (rnd() % 2000) - 1000) / 4000.f;
                f->pts = (int64_t) i * ac->frame_size;
                drain(ac, f, 1, a);
            }
            drain(ac, nullptr, 1, a);
            av_frame_free(&f);
        }
        // no time below zero: B-frames and the priming of AAC begin there
        int64_t lo = 0;
        for (auto& p : v) lo = std::min(lo, p.dts);
        for (auto& p : a) lo = std::min(lo, p.dts);
        std::vector<Pkt> all;
        for (auto* l : {&v, &a}) for (auto& p : *l) { p.pts += start - lo; p.dts += start - lo; all.push_back(p); }
        std::stable_sort(all.begin(), all.end(), [](const Pkt& x, const Pkt& y) { return x.dts < y.dts; });
        std::string base = dir + "/" + std::to_string(k);
        for (const char* ext : {"flv", "ts", "mkv", "mp4", "xmp4", "xmkv", "aac", "h264"}) {
            std::string e = ext;
            bool alien = e == "xmp4", attach = e == "xmkv";
            if (alien) e = "mp4";
            if (attach) e = "mkv";
            if (alien && !audio) continue;
            if ((e == "aac" && video) || (e == "h264" && audio)) continue;
            AVFormatContext* o = nullptr;
            std::string name = base + "." + ext;
            OK(avformat_alloc_output_context2(&o, nullptr, e == "ts" ? "mpegts" : e == "mkv" ? "matroska" : e == "aac" ? "adts" : e.c_str(), name.c_str()));
            int idx[2] = {-1, -1}, idx2 = -1;
            if (alien) {
                AVStream* s = avformat_new_stream(o, nullptr);
                OK(avcodec_parameters_from_context(s->codecpar, ac));
                s->codecpar->codec_tag = 0;
                s->time_base = {1, 1000};
                idx2 = s->index;
            }
            for (int i = 0; i < 2; ++i) {
                AVCodecContext* c = i ? ac : vc;
                if (!c) continue;
                AVStream* s = avformat_new_stream(o, nullptr);
                OK(avcodec_parameters_from_context(s->codecpar, c));
                if (i == 0) {
                    // as the packets have it: units of 4-byte length, and an avcC
                    std::vector<uint8_t> x(c->extradata, c->extradata + c->extradata_size), u = units(x), avcc;
                    std::vector<std::vector<uint8_t>> sps, pps;
                    for (size_t q = 0; q + 4 <= u.size();) {
                        size_t l = u[q] << 24 | u[q + 1] << 16 | u[q + 2] << 8 | u[q + 3];
                        std::vector<uint8_t> n(u.begin() + q + 4, u.begin() + q + 4 + l);
                        if ((n[0] & 31) == 7) sps.push_back(n);
                        if ((n[0] & 31) == 8) pps.push_back(n);
                        q += 4 + l;
                    }
                    if (sps.empty() || pps.empty()) return 4;
                    avcc = {1, sps[0][1], sps[0][2], sps[0][3], 0xff, (uint8_t) (0xe0 | 1)};
                    auto put = [&](const std::vector<uint8_t>& n) { avcc.push_back(n.size() >> 8); avcc.push_back(n.size()); avcc.insert(avcc.end(), n.begin(), n.end()); };
                    put(sps[0]);
                    avcc.push_back(1);
                    put(pps[0]);
                    av_freep(&s->codecpar->extradata);
                    s->codecpar->extradata = (uint8_t*) av_mallocz(avcc.size() + AV_INPUT_BUFFER_PADDING_SIZE);
                    memcpy(s->codecpar->extradata, avcc.data(), avcc.size());
                    s->codecpar->extradata_size = avcc.size();
                }
                s->codecpar->codec_tag = 0;
                s->time_base = {1, 1000};
                idx[i] = s->index;
            }
            if (attach) for (int i = 0; i < 2; ++i) {
                AVStream* s = avformat_new_stream(o, nullptr);
                s->codecpar->codec_type = AVMEDIA_TYPE_ATTACHMENT;
                s->codecpar->codec_id = i ? AV_CODEC_ID_MJPEG : AV_CODEC_ID_TTF;
                std::vector<uint8_t> b = i ? jpeg() : std::vector<uint8_t>(300, 1);
                s->codecpar->extradata_size = b.size();
                s->codecpar->extradata = (uint8_t*) av_mallocz(b.size() + AV_INPUT_BUFFER_PADDING_SIZE);
                memcpy(s->codecpar->extradata, b.data(), b.size());
                av_dict_set(&s->metadata, "filename", i ? "cover.jpg" : "font.ttf", 0);
                av_dict_set(&s->metadata, "mimetype", i ? "image/jpeg" : "application/x-truetype-font", 0);
            }
            o->flags |= AVFMT_FLAG_BITEXACT;
            OK(avio_open(&o->pb, name.c_str(), AVIO_FLAG_WRITE));
            AVDictionary* d = nullptr;
            if (e == "mp4") { av_dict_set(&d, "movflags", "empty_moov+default_base_moof", 0); av_dict_set(&d, "frag_duration", "200000", 0); }
            if (e == "mkv") av_dict_set(&d, "live", "1", 0);
            if (e == "flv") av_dict_set(&d, "flvflags", "no_duration_filesize", 0);
            OK(avformat_write_header(o, &d));
            av_dict_free(&d);
            std::vector<Pkt> in;
            for (auto& p : all) {
                in.push_back(p);
                if (alien && p.st == 1) { in.push_back(p); in.back().st = 2; for (auto& c : in.back().b) c ^= 0x5a; }
            }
            for (auto& p : in) {
                ::AVPacket* q = av_packet_alloc();
                OK(av_new_packet(q, p.b.size()));
                memcpy(q->data, p.b.data(), p.b.size());
                q->stream_index = p.st == 2 ? idx2 : idx[p.st];
                q->pts = p.pts; q->dts = p.dts;
                q->flags = p.key ? AV_PKT_FLAG_KEY : 0;
                av_packet_rescale_ts(q, {1, 1000}, o->streams[q->stream_index]->time_base);
                OK(av_interleaved_write_frame(o, q));
                av_packet_free(&q);
            }
            OK(av_write_trailer(o));
            avio_closep(&o->pb);
            avformat_free_context(o);
            if (alien) {
                FILE* f = fopen(name.c_str(), "r+b");
                std::vector<char> b(2000);
                size_t n = fread(b.data(), 1, b.size(), f);
                for (const char* w : {"soun", "mp4a"}) {
                    auto at = std::search(b.begin(), b.begin() + n, w, w + 4);
                    if (at == b.begin() + n) return 5;
                    fseek(f, at - b.begin(), SEEK_SET);
                    fwrite("zzzz", 1, 4, f);
                }
                fclose(f);
            }
        }
        avcodec_free_context(&vc);
        avcodec_free_context(&ac);
    }
    return 0;
}
