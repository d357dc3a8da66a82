// Contracts of the pixel sampling and clamping helpers (modules/utils/include/litiv/utils/opencv.hpp).
#include "vccv.h"
#include "litiv/utils/opencv.hpp"
// vc:assume callers pass a non-negative random index, border >= 0, an image larger than twice the border (at most 46340x46340) and coordinates within +-2^30
struct Geo { int ox, oy, b, w, h; };
static Geo geo(bool second = false) {
    Geo g; g.ox = vc_range<int>(second ? "ox2" : "ox", -(1l << 30), 1l << 30); g.oy = vc_range<int>(second ? "oy2" : "oy", -(1l << 30), 1l << 30);
    g.b = vc_range<int>(second ? "border2" : "border", 0, 20000); g.w = vc_range<int>(second ? "w2" : "w", 1, 46340); g.h = vc_range<int>(second ? "h2" : "h", 1, 46340);
    vc_assume(g.w > 2 * g.b && g.h > 2 * g.b);
    return g;
}
static int clamp(int v, int b, int n) { return v < b ? b : v > n - b - 1 ? n - b - 1 : v; }
VC_CONTRACT(clamp_coords) {
    Geo g = geo(); int x = g.ox, y = g.oy;
    lv::clampImageCoords(x, y, g.b, cv::Size(g.w, g.h));
    vc_assert(x == clamp(g.ox, g.b, g.w) && y == clamp(g.oy, g.b, g.h), "the coordinates are moved to the nearest pixel inside the border");
    vc_assert(x >= g.b && x < g.w - g.b && y >= g.b && y < g.h - g.b, "the coordinates are inside the border");
}
static const int W3[3][3] = {{19, 32, 19}, {32, 52, 32}, {19, 32, 19}};
static const int W7[7][7] = {{2, 4, 6, 7, 6, 4, 2}, {4, 8, 12, 14, 12, 8, 4}, {6, 12, 21, 25, 21, 12, 6}, {7, 14, 25, 28, 25, 14, 7}, {6, 12, 21, 25, 21, 12, 6}, {4, 8, 12, 14, 12, 8, 4}, {2, 4, 6, 7, 6, 4, 2}};
template<int K, int TOT> static void c_sample(const int (&wt)[K][K], void (*fn)(int, int&, int&, int, int, int, const cv::Size&)) {
    Geo g = geo(); int rnd = vc_range<int>("rnd", 0, INT32_MAX), x, y;
    fn(rnd, x, y, g.ox, g.oy, g.b, cv::Size(g.w, g.h));
    vc_assert(x >= g.b && x < g.w - g.b && y >= g.b && y < g.h - g.b, "the sample is inside the border");
    int idx = rnd % TOT, cum = 0, cx = -1, cy = -1;
    for(int i = 0; i < K; ++i) for(int j = 0; j < K; ++j) {
        if(idx >= cum && idx < cum + wt[i][j]) { cx = j; cy = i; }
        cum += wt[i][j];
    }
    vc_assert(cum == TOT, "the weights add up to the pattern total");
    vc_assert(x == clamp(g.ox + cx - K / 2, g.b, g.w) && y == clamp(g.oy + cy - K / 2, g.b, g.h), "each kernel cell is chosen for as many random values as its weight");
}
VC_CONTRACT(sample_3x3) { c_sample<3, 256>(W3, lv::getSamplePosition_3x3_std1); }
VC_CONTRACT(sample_7x7) { c_sample<7, 512>(W7, lv::getSamplePosition_7x7_std2); }
template<int R, int N> static void c_neighbor(void (*fn)(int, int&, int&, int, int, int, const cv::Size&)) {
    Geo g = geo(); int rnd = vc_range<int>("rnd", 0, INT32_MAX), x, y;
    fn(rnd, x, y, g.ox, g.oy, g.b, cv::Size(g.w, g.h));
    vc_assert(x >= g.b && x < g.w - g.b && y >= g.b && y < g.h - g.b, "the neighbour is inside the border");
    // away from the border: a real neighbour, and distinct random residues give distinct neighbours
    Geo f = geo(true); vc_assume(f.ox - R >= f.b && f.ox + R < f.w - f.b && f.oy - R >= f.b && f.oy + R < f.h - f.b);
    int r1 = vc_range<int>("r1", 0, INT32_MAX), r2 = vc_range<int>("r2", 0, INT32_MAX), x1, y1, x2, y2;
    fn(r1, x1, y1, f.ox, f.oy, f.b, cv::Size(f.w, f.h)); fn(r2, x2, y2, f.ox, f.oy, f.b, cv::Size(f.w, f.h));
    vc_assert(x1 >= f.ox - R && x1 <= f.ox + R && y1 >= f.oy - R && y1 <= f.oy + R, "the neighbour is in the neighbourhood");
    vc_assert(x1 != f.ox || y1 != f.oy, "the neighbour is not the pixel itself");
    vc_assert((r1 % N == r2 % N) == (x1 == x2 && y1 == y2), "every neighbour is chosen for exactly one residue of the random value");
    // near the border: the same choice, clamped
    int x3, y3; fn(r1, x3, y3, g.ox, g.oy, g.b, cv::Size(g.w, g.h));
    vc_assert(x3 == clamp(g.ox + (x1 - f.ox), g.b, g.w) && y3 == clamp(g.oy + (y1 - f.oy), g.b, g.h), "near the border the chosen neighbour is clamped");
}
VC_CONTRACT(neighbor_3x3) { c_neighbor<1, 8>(lv::getNeighborPosition_3x3); }
VC_CONTRACT(neighbor_5x5) { c_neighbor<2, 24>(lv::getNeighborPosition_5x5); }
