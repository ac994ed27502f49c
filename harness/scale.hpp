// Sizes beyond the small alphabets: powers of two and their neighbours, common
// buffer and cache sizes, odd and round values.
#pragma once
#include "mc.hpp"
namespace scale {
inline int frames() {
    static const int F[] = {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 440, 441, 480, 500, 511, 512, 513, 1000, 1023, 1024, 1025,
                            2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 32769, 44100, 48000, 65535, 65536, 65537, 100003, 131072};
    return F[mc::choose(sizeof F / sizeof *F)];
}
inline int channels() {
    static const int C[] = {1, 2, 3, 5, 6, 8, 16, 24, 33, 64, 255, 256, 257, 300};
    return C[mc::choose(sizeof C / sizeof *C)];
}
inline double rate() {
    static const double R[] = {1, 8000, 11025, 22050, 44100, 48000, 96000, 192000, 384000, 2822400};
    return R[mc::choose(sizeof R / sizeof *R)];
}
struct Shape { int frames, chans; };
// every shape of at most `cap` samples, and every length with `full` channels or fewer
inline Shape shape(long cap, int full = 1) {
    Shape s{frames(), channels()};
    if ((long)s.frames * s.chans > cap && s.chans > full) mc::prune();
    return s;
}
}
