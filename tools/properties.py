prop("P01", "String helpers never overrun their buffer and produce the exact text",
     "Copying a string or a substring, extracting a base name and expanding wildcards write at most the given number of bytes, always leave a terminated result when there is room for one byte, write exactly the leading part of the specified text, and return the length of the untruncated text. The base name is the part after the last path separator with at most the requested number of extensions removed, and a wildcard character is replaced unless it is escaped. Searching a character from the end, case-insensitive comparison and looking up a table of named values by name or value return the last, respectively first, match and nothing when there is none.",
     ["inputs"], "all strings, buffer sizes (including 0 and a null buffer), strip counts, wildcard and escape characters and all tables of named values",
     "test_stringop samples a handful of strings and one buffer size per case; truncation at every length, escapes at the end, absent characters and negative character codes are not reached",
     ["vl/stringop.c", "vl/stringop.h"], [("vl_string_copy, vl_string_copy_sub", "vl/stringop.c"), ("vl_string_basename", "vl/stringop.c"), ("vl_string_replace_wildcard", "vl/stringop.c"), ("vl_string_find_char_rev, vl_string_length, vl_string_casei_cmp", "vl/stringop.c"), ("vl_enumeration_get*", "vl/stringop.c")],
     note="Strings fit the address space; tolower is the C locale's.")

prop("P02", "Every heap operation keeps the heap order and the multiset of elements",
     "After any sequence of pushes, pops and key updates a heap's first element is a minimum of its contents, a pop returns such a minimum and shrinks the heap by one, and no element is lost, duplicated or altered. This holds for the generic heap and for the three heaps the kd-tree search and construction use (nearest cell first, smallest variance first, farthest neighbour first).",
     ["inputs", "histories"], "all heaps, element values (finite keys), positions updated and lengths",
     "test_heap-def pushes and pops one random sequence of distinct keys; ties, updates in the middle and arbitrary shapes are sampled only",
     ["vl/heap-def.h", "vl/kdtree.c"], [("sift up / sift down", "vl/heap-def.h"), ("push, pop, update", "vl/heap-def.h"), ("search, split and neighbour heaps", "vl/kdtree.c")])

prop("P03", "Sorting orders the array and only permutes it",
     "After sorting, every element is no greater than its successor under the comparison in use and the array holds exactly the elements it held before. This holds for the generic quicksort template and for the instances that order intensity patches, neighbourhoods and k-means coordinates.",
     ["inputs"], "all arrays of finite elements and all lengths, including 0, 1, all-equal and already sorted ones",
     "test_qsort-def sorts a few random arrays; pathological pivot sequences and duplicated keys are not enumerable",
     ["vl/qsort-def.h", "vl/liop.c", "vl/kmeans.c"], [("recursive partition", "vl/qsort-def.h"), ("patch and neighbourhood sorts", "vl/liop.c"), ("coordinate sort", "vl/kmeans.c")])

prop("P04", "The generator is the Mersenne Twister and derived draws stay in range",
     "Seeding by a number or an array and then drawing reproduces the published MT19937 stream for every seed and position; a uniform index drawn below a limit is always below that limit, and real, 31, 53, 63 and 64 bit draws are the published conversions of the stream and fall in their documented intervals. Generating a random permutation returns each index exactly once and shuffling only rearranges the data.",
     ["inputs", "histories"], "all seeds, seed arrays, states, limits and array lengths",
     "test_rand prints a stream for one seed; state wrap-around, arbitrary keys and every range limit are unreachable by sampling",
     ["vl/random.c", "vl/random.h", "vl/shuffle-def.h"], [("state refill and tempering", "vl/random.c"), ("seeding", "vl/random.c"), ("uniform index", "vl/random.h"), ("permutation and shuffle", "vl/random.c, vl/shuffle-def.h")])

prop("P05", "Every vector distance and kernel is the documented sum over all coordinates",
     "For every dimension, the comparison of two vectors equals the sum over all coordinates of the term documented for the selected distance or kernel (L1, L2, chi2, Hellinger, Jensen-Shannon, histogram intersection, and the Mahalanobis and signed/weighted variants), with zero arguments handled as documented. Selecting a comparison by type returns the function of that type, and the all-pairs computation stores exactly the comparison of pair (i,j) in entry (i,j), including the single-set case.",
     ["inputs", "configurations"], "all dimensions, vectors, comparison types, both precisions, and all set sizes",
     "test_vec_comp compares SIMD with scalar code on fixed sizes; it has no independent definition of each distance and only sampled dimensions",
     ["vl/mathop.c", "vl/mathop.h"], [("scalar comparison functions", "vl/mathop.c"), ("type dispatch", "vl/mathop.c"), ("all-pairs evaluation", "vl/mathop.c")])

prop("P06", "Vectorised code paths compute the same function as the scalar ones",
     "The SSE2 and AVX versions of the vector comparisons and of the weighted sums return the scalar result over the reals for every dimension, every tail length and every alignment of their arguments.",
     ["inputs", "configurations"], "all dimensions, alignments and vectors",
     "tests compare the two at a few lengths with aligned buffers; unaligned starts and every tail length are not covered",
     ["vl/mathop_sse2.c", "vl/mathop_avx.c"], [("SSE2 loops and tails", "vl/mathop_sse2.c"), ("AVX loops and tails", "vl/mathop_avx.c")])

prop("P07", "Integer and bit-level math helpers are exact on their whole domain",
     "Integer square roots of 8, 16 and 32 bit numbers, floor and ceiling of a real, absolute values, the power-of-two and byte-order helpers return the mathematically exact result for every argument in their documented range; the fast inverse square root and arctangent stay within their documented error.",
     ["inputs"], "every bit pattern in the documented range",
     "test_sqrti and test_mathop sample a subset of arguments",
     ["vl/mathop.h", "vl/host.h", "vl/generic.h"], [("fast integer square roots", "vl/mathop.h"), ("floor, ceil, modulo 2 pi, abs", "vl/mathop.h"), ("byte swaps", "vl/host.h")])

prop("P08", "Integral images, triangular smoothing and gradients match their definition",
     "An integral image entry is the sum of all pixels above and to the left of it; column smoothing with a triangular kernel equals convolution with that kernel under the chosen padding; the gradient is the central difference inside and one-sided on the border, for every image size and stride.",
     ["inputs", "configurations"], "all image sizes, strides, filter radii, padding and transposition options",
     "test_imopv checks one size against a slow version; strides, tiny images and border positions are not covered",
     ["vl/imopv.c"], [("integral image", "vl/imopv.c"), ("triangular convolution", "vl/imopv.c"), ("gradient", "vl/imopv.c")])

prop("P09", "Column convolution equals its definition for every option",
     "Convolving the columns of an image with a filter gives, at each sampled row, the sum of filter taps times image values with the zero or continuity padding outside the image, for every filter support, sampling step, stride and transposition; nothing outside the destination is written.",
     ["inputs", "configurations"], "all image and filter sizes, filter supports (also one-sided), steps, strides, paddings and transposition",
     "tests run symmetric filters on one image",
     ["vl/imopv.c"], [("column convolution", "vl/imopv.c")])

prop("P10", "The distance transform is the exact lower envelope",
     "For each pixel the one-dimensional image distance transform returns the minimum over all source pixels of value plus the parabola of the given curvature and offset, and the index it reports attains that minimum.",
     ["inputs", "configurations"], "all images, strides, curvatures and offsets",
     "tests check two images with unit curvature",
     ["vl/imopv.c"], [("lower envelope of parabolas", "vl/imopv.c")])

prop("P11", "Small linear solvers return a solution or report failure",
     "Solving a 2x2 or 3x3 linear system and Gaussian elimination return a vector satisfying the equations whenever they report success, and report failure only for (numerically) singular systems; the 2x2 singular value decomposition returns orthogonal factors, with singular values ordered by modulus, that multiply back to the matrix.",
     ["inputs"], "all real matrices of the supported sizes",
     "tests solve a few random systems; pivoting on every column order and singular cases are not enumerable",
     ["vl/mathop.c"], [("linear system solvers", "vl/mathop.c"), ("elimination with pivoting", "vl/mathop.c")])

prop("P12", "K-means assigns each point to a nearest centre and centres to cluster means",
     "Quantising data by exhaustive search assigns each point a centre at minimum distance and returns that distance; the centre update places each non-empty cluster's centre at the mean (or median) of its points.",
     ["inputs", "configurations"], "all data, centres, dimensions, counts and both precisions",
     "test_kmeans checks that the energy is plausible on one random set",
     ["vl/kmeans.c"], [("quantisation", "vl/kmeans.c"), ("centre update", "vl/kmeans.c")])

prop("P13", "Integer k-means and its tree push each point to the nearest centre",
     "Projecting integer points on a set of centres returns the index of a centre with the smallest squared distance (the first one for a single point) and the hierarchical tree records, level by level, the nearest child of the node reached so far.",
     ["inputs", "configurations"], "all centres, points, dimensions and tree shapes",
     "the tests check a handful of points on one trained clustering",
     ["vl/ikmeans.c", "vl/hikmeans.c"], [("push", "vl/ikmeans.c"), ("tree push", "vl/hikmeans.c")])

prop("P14", "Kd-tree search with no comparison limit returns the exact nearest neighbours",
     "A forest search without a limit on comparisons returns the requested number of points of smallest distance, without repetition and in order of distance, with each distance the true one; building the tree keeps every point in exactly one leaf inside its bounds.",
     ["inputs", "configurations"], "all data sets, queries, tree counts, neighbour counts and threshold methods",
     "tests compare with brute force on one random set",
     ["vl/kdtree.c"], [("tree construction", "vl/kdtree.c"), ("best-bin-first search", "vl/kdtree.c")])

prop("P15", "Mixture posteriors are normalised and follow the model density",
     "The posterior of each component for each point equals its weighted Gaussian density divided by the sum over the components, so posteriors are non-negative and sum to one; the log-likelihood is the sum of the log of these sums.",
     ["inputs", "configurations"], "all means, positive covariances, weights, data and both precisions",
     "test_gmm fits one random data set and does not look at the posteriors",
     ["vl/gmm.c"], [("posterior evaluation", "vl/gmm.c")])

prop("P16", "VLAD encodes the sum of residuals under the requested normalisation",
     "The encoding holds, per cluster, the assignment-weighted sum of data minus centre, divided by the cluster mass, square-rooted with sign, and normalised per cluster and globally exactly as requested by the flags.",
     ["inputs", "configurations"], "all centres, data, assignments, sizes and flag combinations",
     "tests check a fixed set of flags on one random input",
     ["vl/vlad.c"], [("encoder", "vl/vlad.c")])

prop("P17", "Fisher vectors follow the gradient formula and normalisation flags",
     "The encoding holds, per component, the posterior-weighted first and second order statistics scaled as documented, omitting only components below the weight threshold, with the square-root and normalisation flags applied as requested.",
     ["inputs", "configurations"], "all mixture parameters, data, sizes and flag combinations",
     "tests compare with a reference implementation on one random mixture",
     ["vl/fisher.c"], [("encoder", "vl/fisher.c")])

prop("P18", "Local binary patterns are counted, binned and normalised as defined",
     "Each pixel's uniform pattern index follows from comparing its eight neighbours with it, each cell accumulates the bilinearly weighted votes of its pixels and is normalised; the quantisation maps every uniform pattern to its own bin and every other pattern to one shared bin.",
     ["inputs", "configurations"], "all images, cell sizes and all 256 patterns",
     "tests look at one image",
     ["vl/lbp.c"], [("pattern quantisation", "vl/lbp.c"), ("cell accumulation", "vl/lbp.c")])

prop("P19", "LIOP maps intensity orderings to unique bins of a normalised descriptor",
     "Neighbour orderings map one-to-one to permutation indexes, each pixel votes with its weight into the bin of its intensity rank and ordering, and the descriptor is L2 normalised.",
     ["inputs", "configurations"], "all patches, neighbour counts, bin counts and thresholds",
     "test_liop computes one descriptor",
     ["vl/liop.c"], [("permutation index", "vl/liop.c"), ("descriptor", "vl/liop.c")])

prop("P20", "HOG cells, orientations and normalisation follow the definition",
     "Each pixel's gradient votes into the orientation closest to it (or bilinearly into the two closest) and bilinearly into its four cells; feature extraction scales, truncates and averages the four block normalisations as defined, and flipping permutes orientations to match the mirrored image.",
     ["inputs", "configurations"], "all images, cell sizes, orientation counts and variants",
     "tests compare variants on one image",
     ["vl/hog.c"], [("voting", "vl/hog.c"), ("feature extraction", "vl/hog.c"), ("flip permutation", "vl/hog.c")])

prop("P21", "SVM losses, inner products and bias follow their definition",
     "For each loss the primal value, the conjugate value and the dual coordinate update agree with the documented formula and the update maximises the dual objective along that coordinate; data sets return the exact inner product and accumulate exactly the scaled vector, with weighted data scaled by their weights.",
     ["inputs", "configurations"], "all margins, labels, step sizes, dimensions and both precisions",
     "tests train one small problem and look at convergence",
     ["vl/svm.c", "vl/svmdataset.c"], [("losses and dual updates", "vl/svm.c"), ("inner product and accumulation", "vl/svmdataset.c")])

prop("P22", "Option parsing, enumerations and library services behave as documented",
     "Long options are matched exactly by name, arguments are taken from the option or the next word as its kind requires, and unknown or malformed options are reported without reading beyond the argument list.",
     ["inputs", "histories"], "all argument lists and option tables",
     "test_getopt_long parses one command line",
     ["vl/getopt_long.c"], [("option scanner", "vl/getopt_long.c")],
     na="argv and the option table are arrays of pointers to strings which getopt_long permutes in place; the verifier's memory model gives a pointer stored in an array of pointers to characters no region of its own, so no contract within reach expresses which string is read")

prop("P23", "PGM images are written and read back unchanged",
     "Header parsing accepts comments and white space, rejects malformed or out-of-range headers and reads exactly the declared number of pixels in the declared depth, and pixel data of either depth survives a write followed by a read.",
     ["inputs"], "all byte streams, sizes and depths",
     "no test parses a malformed or 16-bit stream",
     ["vl/pgm.c"], [("header extraction", "vl/pgm.c"), ("pixel read and write", "vl/pgm.c")])

prop("P24", "Scale space geometry is consistent across octaves and levels",
     "Each octave's width, height, sampling step and level scales follow from the base geometry, buffers have the size of their octave, and up- and down-sampling copy or interpolate exactly the pixels defined.",
     ["inputs", "configurations"], "all geometries and image sizes",
     "tests look at one image size",
     ["vl/scalespace.c"], [("octave geometry", "vl/scalespace.c"), ("resampling", "vl/scalespace.c")])

prop("P25", "Dense SIFT keypoints and descriptors cover exactly the requested grid",
     "The number of keypoints, their positions and the descriptor size follow from the image size, bounds, steps and bin geometry, and each descriptor is the window-weighted, normalised and clamped histogram of its bins.",
     ["inputs", "configurations"], "all image sizes, bounds, steps and geometries",
     "tests compare with SIFT at a few positions of one image",
     ["vl/dsift.c", "vl/dsift.h"], [("buffer and frame layout", "vl/dsift.c"), ("normalisation", "vl/dsift.c")])

prop("P26", "SIFT keypoints are local extrema and descriptors are normalised",
     "Detection reports only samples that are extrema of their 3x3x3 neighbourhood above the thresholds, refined positions stay within the octave, and descriptors are normalised, clamped at 0.2 and renormalised.",
     ["inputs", "configurations"], "all images and thresholds",
     "tests compare with stored keypoints of one image",
     ["vl/sift.c"], [("detection", "vl/sift.c"), ("descriptor normalisation", "vl/sift.c")])

prop("P27", "MSER regions are nested components grown in order of intensity",
     "Union-find with path compression always returns the root of a pixel's region and the region areas add up to the number of pixels processed.",
     ["inputs"], "all images and connectivity dimensions",
     "tests run one image",
     ["vl/mser.c"], [("region forest", "vl/mser.c")])

prop("P28", "Quick shift links each pixel to its nearest neighbour of higher density",
     "Each pixel's parent is, among the pixels within the window and the maximum distance whose density is higher, one at the smallest distance, or the pixel itself if there is none; the density is the Parzen sum over the window.",
     ["inputs", "configurations"], "all images, kernel sizes and maximum distances",
     "tests run one image",
     ["vl/quickshift.c"], [("density and linking", "vl/quickshift.c")])

prop("P29", "SLIC labels every pixel with a nearby cluster and enforces region size",
     "Every pixel receives the label of a region, regions smaller than the minimum size are merged into a neighbour, and nothing outside the label image is written.",
     ["inputs", "configurations"], "all images and parameters",
     "tests run one image",
     ["vl/slic.c"], [("assignment and connectivity", "vl/slic.c")],
     na="vl_slic_segment is a single function of twenty nested loops over buffers it allocates; its loop invariants were not brought through the verifier, and a bounded check alone would not be contract-based verification")

prop("P30", "Agglomerative information bottleneck merges the least costly pair",
     "At each step the pair of nodes with the smallest loss of information is merged, the probabilities are conserved and the recorded parents form a tree.",
     ["inputs"], "all joint probability tables",
     "tests run one small table",
     ["vl/aib.c"], [("merging", "vl/aib.c")])

prop("P31", "Rotation vectors and matrices convert exactly",
     "Converting a rotation vector gives an orthogonal matrix equal to the Rodrigues formula, and the inverse conversion recovers a vector of the same rotation.",
     ["inputs"], "all rotation vectors",
     "no test exists",
     ["vl/rodrigues.c"], [("conversion", "vl/rodrigues.c")])

prop("P32", "Homogeneous kernel maps have the documented symmetry, size and values",
     "The feature map has dimension 2n+1, maps x to sqrt-scaled interpolated table entries with the correct sign and is homogeneous of the configured order, and evaluates to zero for zero input.",
     ["inputs", "configurations"], "all inputs, kernel types, orders and periods",
     "tests sample a grid of values",
     ["vl/homkermap.c"], [("evaluation", "vl/homkermap.c")])
