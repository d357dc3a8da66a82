// Force-included in every C++ file of the build (see /opt/vp/support/configure.sh).
// The project was written for OpenCV 3.x and only OpenCV 4.6 is available. This
// bridges the API differences it meets; it holds no code of the project.
#pragma once

#include <opencv2/core.hpp>

// C constants that OpenCV 3 had in its default headers, with the values of
// OpenCV 4's own legacy headers.
#ifndef CV_TERMCRIT_ITER
#define CV_TERMCRIT_ITER 1
#endif
#ifndef CV_GRAY2BGR
#define CV_GRAY2BGR 8
#endif
#ifndef CV_BGR2BGRA
#define CV_BGR2BGRA 0
#endif
#ifndef CV_CAP_PROP_POS_FRAMES
#define CV_CAP_PROP_POS_FRAMES 1
#endif
#ifndef CV_CAP_PROP_FRAME_COUNT
#define CV_CAP_PROP_FRAME_COUNT 7
#endif

// In OpenCV 3 the access flags of MatAllocator's virtual functions are ints; in
// OpenCV 4 they are an enum. Classes derived from cv::MatAllocator get a base
// that has the old signatures and forwards the new ones to them.
namespace cv {
class MatAllocatorIntFlags : public MatAllocator {
public:
    virtual UMatData* allocate(int dims, const int* sizes, int type, void* data, size_t* step, int flags, UMatUsageFlags usageFlags) const = 0;
    virtual bool allocate(UMatData* data, int accessflags, UMatUsageFlags usageFlags) const = 0;
    UMatData* allocate(int dims, const int* sizes, int type, void* data, size_t* step, AccessFlag flags, UMatUsageFlags usageFlags) const final {
        return this->allocate(dims,sizes,type,data,step,static_cast<int>(flags),usageFlags);
    }
    bool allocate(UMatData* data, AccessFlag accessflags, UMatUsageFlags usageFlags) const final {
        return this->allocate(data,static_cast<int>(accessflags),usageFlags);
    }
};
} // namespace cv
#define MatAllocator MatAllocatorIntFlags
