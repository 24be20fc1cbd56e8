// analysis only: declarations of FFmpeg 2.x API the repository uses and newer releases removed
#ifndef OLDFFMPEG_H
#define OLDFFMPEG_H
#include <string>
extern "C" {
#include <libavcodec/avcodec.h>
#include <libavcodec/codec_desc.h>
#include <libavformat/avformat.h>
void avcodec_register_all(void); void av_register_all(void);
int avcodec_decode_audio4(AVCodecContext*, AVFrame*, int*, const AVPacket*);
int avcodec_decode_video2(AVCodecContext*, AVFrame*, int*, const AVPacket*);
int avcodec_encode_audio2(AVCodecContext*, AVPacket*, const AVFrame*, int*);
typedef struct AVBitStreamFilterContext { int dummy; } AVBitStreamFilterContext;
AVBitStreamFilterContext *av_bitstream_filter_init(const char*); void av_bitstream_filter_close(AVBitStreamFilterContext*);
int av_bitstream_filter_filter(AVBitStreamFilterContext*, AVCodecContext*, const char*, uint8_t**, int*, const uint8_t*, int, int);
}
// pre-5.0 lookups returned pointers to non-const
static inline AVCodec* stub_find_decoder(enum AVCodecID); static inline AVCodec* stub_find_encoder(enum AVCodecID);
AVCodec* lms_avcodec_find_decoder(enum AVCodecID); AVCodec* lms_avcodec_find_encoder(enum AVCodecID);
#define avcodec_find_decoder lms_avcodec_find_decoder
#define avcodec_find_encoder lms_avcodec_find_encoder
#define CODEC_CAP_TRUNCATED 8
#define CODEC_FLAG_TRUNCATED 0x10000
#define CODEC_CAP_SLICE_THREADS 0x2000
#define CODEC_FLAG2_CHUNKS 0x8000
#define CODEC_CAP_FRAME_THREADS 0x1000
#endif
