U = 'modules/utils/include/litiv/utils/'
P('P01', 'Scalar and fixed-size pixel distances equal their mathematical definitions',
  'For all operands, the absolute (L1), squared (L2), Hamming, popcount and gradient-count distances of single integer values and of fixed-size vectors equal the exact mathematical value (no wrap-around of intermediates), are independent of whether the operands are given as pointers, arrays or vectors, and are symmetric where the definition is. '
  'For all float and double operands the L1/squared-L2 distances equal |a-b| and (a-b)^2 in IEEE arithmetic; the colour distortion of 8-bit colours equals sqrt(|x|^2-(x.y)^2/|y|^2) truncated, and is zero for equal colours and for pairs of greys.',
  ['inputs'], 'all pairs of operand values of every supported width, and all vectors of 1 to 4 channels',
  'the tests sample a few thousand random pairs of a few types; the extremes of the 8/16/32-bit ranges, where intermediates overflow, are not sampled',
  [U + 'math.hpp'], [('scalar distances', U + 'math.hpp: L1dist, L2sqrdist, hdist, gdist, popcount'), ('vector distances', U + 'math.hpp: templates over the channel count'), ('colour distortion', U + 'math.hpp: cdist, cmixdist')])
P('P10', 'Binary classification counters count every pixel exactly once, by definition',
  'For every classification, groundtruth and region-of-interest image of equal size, accumulating them adds to each counter exactly the number of pixels of that class: out-of-scope, unknown and outside-ROI pixels are don\'t-cares, the others are split into true/false positives/negatives by "is 255" of both images, and shadow errors are the positives on shadow pixels; without groundtruth all pixels are don\'t-cares. '
  'Images of different sizes are rejected, merging two counters adds each of them, and the colour mask shows each pixel with the colour of its classification.',
  ['inputs', 'histories'], 'all image sizes, all pixel values, all previous counter values',
  'no test exercises these counters; a sampled image cannot cover every pixel value pair, ROI value or image size',
  ['modules/datasets/src/metrics.cpp', 'modules/datasets/include/litiv/datasets/metrics.hpp'], [('counting', 'modules/datasets/src/metrics.cpp: BinClassif::accumulate'), ('colour mask', 'modules/datasets/src/metrics.cpp: BinClassif::getColoredMask')])
P('P02', 'Array distances are the sum of per-element distances over the unmasked elements',
  'For every pair of arrays of any length, every channel count (1 to 4) and every mask, the L1, squared-L2 and colour-distortion array distances equal the left-to-right sum of the fixed-size distances of exactly those elements whose mask byte is non-zero (all, if there is no mask), and the L2 array distance is the square root of the summed squared distances. '
  'The template and the run-time-channel-count variants agree, and neither reads outside the given arrays.',
  ['inputs'], 'all array lengths up to 2^24, all contents, all masks, channel counts 1 to 4, integer and float element types',
  'tests use a few fixed lengths and no mask patterns; a missed last element, a mask read at the wrong index or an overflow shows only for particular lengths and contents',
  [U + 'math.hpp'], [('array distances', U + 'math.hpp: L1dist/L2sqrdist/L2dist/cdist taking (a, b, nElements, mask)')])
P('P03', 'SIMD helpers compute exactly their scalar meaning',
  'For every content of the 128-bit registers, the SSE helpers agree with the obvious scalar code: zero and equality tests, horizontal sums, minimum and maximum, byte-to-word unpacking, lane-wise byte and 32-bit products, lane extraction. '
  'The block stores write the given byte to exactly the requested 16-byte blocks and to nothing else.',
  ['inputs'], 'all 2^128 contents of each operand register, all block counts up to 2^20',
  'tests sample random registers; a saturation, sign or lane-order mistake shows only for particular lane values',
  [U + 'simd.hpp'], [('SSE helpers', U + 'simd.hpp')])
P('P04', 'Power-of-two, bit-field and pseudo-random helpers follow their definitions',
  'For all inputs: ispow2 of a positive value is true exactly when one bit is set; get_next_pow2 gives the smallest power of two not below the value (0 for 0); extend_bits of a field to at most twice its width keeps it in the upper bits, is strictly increasing, stays within one unit of linear scaling and maps zero and maximum to zero and maximum; expand_bits<W> moves bit i to bit i*W and leaves all other bits zero. '
  'fastrand and its vector form advance each seed by its linear congruential step modulo 2^32 and return bits 16 to 30 of the new seed (or the full lane), and sfastrand_vec seeds the lanes with seed+1, seed, seed+1, seed.',
  ['inputs', 'histories'], 'all values of every width, all seeds',
  'tests sample some values; carries at the top bits and seed wrap-around are not sampled',
  [U + 'math.hpp'], [('bit helpers', U + 'math.hpp: ispow2, get_next_pow2, extend_bits, expand_bits'), ('random', U + 'math.hpp: fastrand, fastrand_vec, sfastrand_vec')])
P('P05', 'Sampling and neighbour positions are inside the image and follow their pattern',
  'For every image larger than twice the border, coordinates are clamped to the nearest pixel inside the border; for every non-negative random value, the 3x3 and 7x7 sample positions lie inside the border and are the clamped kernel cell whose weight interval (row-major, weights adding up to 256 and 512) contains the value modulo the total. '
  'The 3x3 and 5x5 neighbour positions lie inside the border; away from it they are never the pixel itself, always inside the neighbourhood, and each neighbour is chosen for exactly one residue of the random value; near it the same neighbour is clamped.',
  ['inputs'], 'all image sizes up to 46340x46340, borders, origins within +-2^30 and non-negative random values',
  'tests sample random values around the image centre; a kernel cell with a wrong weight, a duplicate neighbour or a clamping error at a border shows only for particular values',
  [U + 'opencv.hpp'], [('sampling', U + 'opencv.hpp: getSamplePosition*, getNeighborPosition*'), ('clamping', U + 'opencv.hpp: clampImageCoords')])
F = 'modules/features2d/'
P('P06', 'LBSP descriptors are the thresholded double-cross pattern, for all entry points',
  'For every 8-bit image (1 or 3 channels), every pixel at least 2 pixels from the edge, and every reference and threshold, bit n of the descriptor is set exactly when neighbour n of the 16-point double-cross pattern differs from the reference by more than the threshold; dense maps, keypoint lists, absolute and relative thresholds, with or without reference image, all give this value, and the gradient is that of the channel with most differing neighbours. '
  'Descriptor distances and difference images equal the Hamming distances of the pixels, reshaping puts each descriptor at its keypoint\'s pixel (zero elsewhere), and validating a region of interest clears exactly the border.',
  ['inputs'], 'all image sizes up to 46340x46340, all contents, references, thresholds, keypoints inside the border',
  'tests compare one stored image with an absolute threshold; relative thresholds, reference images, single channel, difference images, reshaping and gradients are not tested at all',
  [F + 'src/LBSP.cpp', F + 'include/litiv/features2d/LBSP.hpp'], [('descriptors', F + 'include/litiv/features2d/LBSP.hpp: computeDescriptor*'), ('dense, keypoints, distances, ROI', F + 'src/LBSP.cpp')])
M = 'modules/datasets/'
P('P11', 'Derived evaluation metrics equal their definitions and average by weight',
  'For all counter values, recall, specificity, FPR, FNR, precision, F-measure, percentage of bad classifications and MCC are the textbook quotients of the counters (0 where undefined); the stereo metrics are the share above each margin, the mean and the root mean square of all errors in the list. '
  'Accumulating two counter sets (or arrays of them, stream by stream) adds every counter, accumulating two calculators gives the average of every metric weighted by their weights, which add up, and reducing an array gives the sum of counters or the mean of metrics over all its streams.',
  ['inputs', 'histories'], 'all counters up to 2^60, weights up to 2^40, any number of streams, error lists of any length',
  'no test exercises the metrics; a swapped counter, a wrong weight or a skipped stream shows only for particular counters, weights or stream numbers',
  [M + 'include/litiv/datasets/metrics.hpp', M + 'src/metrics.cpp'], [('metrics', M + 'include/litiv/datasets/metrics.hpp: BinClassifMetrics, StereoDispErrorMetrics'), ('accumulation and reduction', M + 'src/metrics.cpp: accumulate, reduce')])
I = 'modules/imgproc/src/imgproc.cpp'
P('P12', 'Histogram bins, totals and medians count exactly the unmasked pixels',
  'For every continuous 8- or 16-bit single-channel image and mask, bin v of the histogram is the number of unmasked pixels of value v and the reported total is the number of unmasked pixels. '
  'The median value is the smallest value such that more than half (rounded down) of the unmasked pixels are not above it, and asking for it is rejected when no pixel is unmasked.',
  ['inputs'], 'all image sizes with fewer than 2^31 pixels, all contents and masks',
  'tests use a few small unmasked images; masked images, 16-bit values and empty masks are not tested',
  [I], [('histogram', I + ': calcHistCounts'), ('median', I + ': calcMedianValue')])
P('P13', 'Binary median and consensus filters decide each pixel by its clipped window',
  'For every 8-bit single-channel image, odd kernel size and mask, a pixel of the binary median blur is 255 if more than half (rounded down) of the unmasked pixels in its window, clipped to the image, are non-zero and 0 if not, and the default value if the window has no unmasked pixel. '
  'A pixel of the binary consensus is 255 exactly when its clipped window holds at least as many non-zero pixels as the count map requires there; without count map, consensus is the unmasked binary median.',
  ['inputs'], 'all images of up to 32768 (masked) and 16384 (integral image) pixels a side, all contents, masks, count maps and kernel sizes up to 32767',
  'tests use a few small images; a window clipped wrongly at one border, an even-count tie or a fully masked window shows only for particular kernels and contents',
  [I], [('binary filters', I + ': binaryMedianBlur, binaryConsensus, binaryIntegral, integral')])
V = 'modules/video/'
P('P17', 'ViBe classifies by its samples and learns only from nearby background pixels',
  'For every frame, sample model, threshold and required count (gray model with gray frames, colour model with colour frames, default learning rate): when no update is drawn, a pixel is foreground (255) exactly when fewer samples than required are closer to it than the threshold, else 0, and the model stays as it is; whatever is drawn, each model sample is afterwards either its old value or the current value of a pixel at most one row and column away that this frame classified as background. '
  'After initialization every sample of every pixel is the value of a pixel of the first frame at most 3 rows and columns away.',
  ['inputs', 'histories'], 'all frame sizes up to 32768x32768, all contents, 1 to 1000 samples per pixel, thresholds up to 1000, all random draws',
  'no test exercises ViBe; its draws are random, so a test can neither pin the model update nor see a sample taken from a foreground pixel except by luck',
  [V + 'src/BackgroundSubtractorViBe.cpp'], [('classification and update', V + 'src/BackgroundSubtractorViBe.cpp: apply'), ('initialization', V + 'src/BackgroundSubtractorViBe.cpp: initialize')])
