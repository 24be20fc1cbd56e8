#include "../liveMedia.hh"
