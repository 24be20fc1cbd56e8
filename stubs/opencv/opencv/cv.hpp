// OpenCV 4 no longer installs <opencv/cv.hpp>; this forwards to what it contained.
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
