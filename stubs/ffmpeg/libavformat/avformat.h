// analysis only: restores the removed AVStream::codec member
#define attached_pic attached_pic; struct AVCodecContext *codec
#include_next <libavformat/avformat.h>
#undef attached_pic
