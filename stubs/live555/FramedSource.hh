#include "liveMedia.hh"
