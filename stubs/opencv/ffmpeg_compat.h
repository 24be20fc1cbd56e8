// unitTests/FilterFunctionalMockup.hh calls av_register_all(), which did nothing
// from FFmpeg 4.0 on and was removed in 5.0.
static inline void av_register_all(void) {}
