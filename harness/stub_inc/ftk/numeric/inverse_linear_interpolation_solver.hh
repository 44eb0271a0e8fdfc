// Stand-in for the FTK header (not installed here): an arbitrary result.
#ifndef VP_FTK_STUB
#define VP_FTK_STUB
#include <cstddef>
extern "C" int vp_i32(const char *, int, int);
namespace ftk {
template <typename T> inline bool inverse_lerp_s3v3(const T V[4][3], T mu[4], T *cond = 0, const T eps = 0) { return vp_i32("ftk", 0, 1); }
}
#endif
