// What a build without FFmpeg (or, with REGS_FFMPEG, one with it) registers, minus RTMP (which needs a patched librtmp
// that is not here).
#ifndef REGS_HPP
#define REGS_HPP
#include <sps_avformat_dec.hpp>
#include <sps_avformat_enc.hpp>
#include <sps_avformat_ffmpeg_dec.hpp>
#include <sps_avformat_ffmpeg_enc.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_io_url_protocol.hpp>
#include <sps_rtmp_module.hpp>

namespace sps {

PIURLProtocolFactory sps_url_protocols[] = {
    std::make_shared<HttpURLProtocolFactory>(), std::make_shared<FileURLProtocolFactory>(), nullptr};
#ifdef REGS_FFMPEG
PIAVInputFormat av_input_formats[] = {std::make_shared<FFmpegAVInputFormat>(), nullptr};
PIAVOutputFormat av_output_formats[] = {std::make_shared<FFmpegAVOutputFormat>(), nullptr};
#else
PIAVInputFormat av_input_formats[] = {
    std::make_shared<FlvAVInputFormat>(), std::make_shared<TsAVInputFormat>(), nullptr};
PIAVOutputFormat av_output_formats[] = {std::make_shared<FlvAVOutputFormat>(), nullptr};
#endif

error_t RtmpModule::post_sub_module(PIModule sub) {
    auto s = std::dynamic_pointer_cast<ServerModule>(sub);
    if (!s) exit(-1);
    rtmp_servers.push_back(s);
    return SUCCESS;
}
error_t RtmpModule::merge(PIModule& m) { for (auto& s : rtmp_servers) s->merge(m); return SUCCESS; }
error_t RtmpModule::install() { return SUCCESS; }

}  // namespace sps
#endif
