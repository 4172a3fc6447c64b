#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
V='vector/src/vector_types/'
P=[]
def p(i,title,st,over,text,why,files,mech,state=None):
    P.append(dict(id=i,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
INP=['inputs']
p('C01','Number space, domain and delta follow the documented state machine',
 "A vector is always in one of the states real/complex x time/frequency, and every operation moves it to the state (and to the sample spacing) documented for that operation, whether the state is fixed at compile time or tracked at run time. An operation which is not defined for the current state of a run-time typed vector turns that vector into the documented invalid state (no elements, spacing not a number) or reports an error, and never yields data that looks valid.",
 ['histories','inputs'],'every sequence of operations from every one of the states, for static and run-time typed vectors',
 'unit tests call one operation on one correctly typed vector; the illegal transitions of run-time typed vectors are hardly tested and chains are not',
 [V+'mod.rs',V+'checks_and_results.rs',V+'rededicate_and_relations.rs',V+'time_freq/time_to_freq.rs',V+'time_freq/freq_to_time.rs'],
 [('assert_* macros and mark_vector_as_invalid',V+'checks_and_results.rs'),('to_complex/to_real/to_freq/to_time on number space and domain',V+'requirements.rs')],
 [('number_space/domain','run time state of a generic vector',V+'mod.rs'),('delta','sample spacing',V+'mod.rs'),('valid_len','number of elements',V+'mod.rs')])
p('C02','Representation invariant after any history',
 "After any sequence of operations a vector never claims more elements than its storage holds, a complex vector has an even number of elements, and the number of points is the number of elements for real and half of it for complex vectors. No operation reads or keeps elements beyond the valid length, and no operation called on a valid vector (including an empty one) with arguments that its documentation admits panics; only storage which cannot grow and is too small may be reported by a panic where the operation has no error result.",
 ['histories','inputs'],'every history of operations, vector lengths from 0, storage larger than the valid data by any even or odd amount',
 'tests use freshly created vectors whose storage has exactly the size of the data and never chain more than two or three operations',
 [V+'mod.rs',V+'vec_impl_and_indexers.rs',V+'requirements.rs',V+'general/data_reorganization.rs'],
 [('valid_len vs alloc_len',V+'vec_impl_and_indexers.rs'),('resize/set_len/trunc',V+'vec_impl_and_indexers.rs')],
 [('valid_len','number of elements in use',V+'mod.rs'),('data','storage, may be larger',V+'mod.rs')])
p('C03','Arithmetic is elementwise and exact on exactly representable data',
 "Adding, subtracting, multiplying and dividing two vectors, scaling, offsetting, absolute value and conjugation compute for every point exactly the real or complex arithmetic result of the points at the same position, with nothing left out, duplicated or taken from a neighbour. The second operand is never changed.",
 INP,'all lengths (around every vector-register multiple), all values, real and complex, both precisions, every storage type and alignment',
 'tests compare a few lengths of random data against a tolerance; remainder and alignment handling of the vectorised loops depends on length, offset and number type',
 [V+'general/elementary.rs',V+'real/real_ops.rs',V+'complex/complex_ops.rs','vector/src/simd_extensions/mod.rs',V+'support_core.rs'],
 [('simd_real_operation/pure_*_operation',V+'support_core.rs'),('simd partition','vector/src/simd_extensions/simd_partition.rs')])
p('C04','Operations with a smaller operand wrap around',
 "Elementwise operations with a smaller second operand combine point i with point i modulo the number of points of the second operand, for any length of the second operand which divides the length of the first. Lengths which do not divide evenly are rejected and leave the vector unchanged.",
 INP,'all pairs of lengths, real and complex, the four arithmetic operations',
 'tests only use one or two length pairs',
 [V+'general/elementary.rs'],[('add_smaller/sub_smaller/mul_smaller/div_smaller',V+'general/elementary.rs')])
p('C05','Elementary functions act pointwise',
 "Trigonometric, hyperbolic, power, root, logarithm and exponential functions replace every point by the value of the scalar function at that point, for real and for complex vectors, and leave the length, spacing and state unchanged. The approximated variants stay within one percent (or 0.02 absolute) of the exact functions over their documented range.",
 INP,'all lengths, values over the domain of each function, number of threads, precision',
 'tests check single short vectors for most functions and do not combine them with lengths that leave remainders or with several threads',
 [V+'general/trigonometry_and_powers.rs',V+'real/real_ops.rs','vector/src/simd_extensions/approximations.rs'],
 [('pure_real_operation/pure_complex_operation',V+'support_core.rs')])
p('C06','The number of threads and their schedule never change a result',
 "Whenever an operation is distributed over several worker threads, every element is processed exactly once, with the position dependent parameters (window, frequency or filter position) that belong to its index, so that the result equals that of the single threaded execution for every thread schedule. No more workers are used than the configured limit.",
 ['schedules','inputs','configurations'],'all worker interleavings, all thread counts, all lengths (including those which do not divide evenly)',
 'the tests leave the thread limits at values which need very long vectors and cannot vary the schedule',
 ['vector/src/multicore_support/mod.rs','vector/src/multicore_support/threading.rs','vector/src/multicore_support/no_threading.rs',V+'support_std_par.rs',V+'time_freq/time.rs',V+'time_freq/convolution.rs'],
 [('Chunk partitioning','vector/src/multicore_support/mod.rs'),('determine_number_of_chunks','vector/src/multicore_support/mod.rs')])
p('C07','Storage and buffers are transparent',
 "The result of an operation depends only on the valid elements, the state and the arguments: it is the same for growing vectors, boxed or borrowed slices and inline vectors, for any spare capacity and its contents, for any buffer kind and whatever the buffer contained before. Operations which need more room than a fixed storage has report an error instead.",
 ['configurations','inputs','histories'],'all storage types, alignments, slack sizes, buffer kinds and stale buffer contents',
 'tests use one growing vector type and fresh buffers almost everywhere',
 [V+'buffer.rs',V+'vec_impl_and_indexers.rs',V+'mod.rs','vector/src/inline_vector/mod.rs'],
 [('Buffer/BufferBorrow trade',V+'buffer.rs'),('Resize::try_resize',V+'requirements.rs')])
p('C08','Failing operations report the documented reason and change nothing',
 "When the operands of a fallible operation do not fit together (different sizes, states or spacings, lengths that do not divide, wrong domain, invalid argument) the operation returns the documented error reason, and operands and target keep their contents and metadata.",
 INP,'all combinations of mismatching operands and arguments for all fallible operations',
 'tests check a handful of error results and never that the data is untouched afterwards',
 [V+'checks_and_results.rs',V+'general/elementary.rs',V+'general/data_reorganization.rs',V+'time_freq/convolution.rs',V+'time_freq/correlation.rs'],
 [('ErrorReason',V+'mod.rs'),('reject_if! / assert_meta_data!',V+'checks_and_results.rs')])
p('C09','Reversing, half swapping and spectrum shifts are the documented permutations',
 "Reversing puts point i at position n-1-i; swapping halves and the forward spectrum shift move the last floor(n/2) points to the front keeping order; the inverse shift undoes the forward shift. All of them treat complex points as units and change nothing else, for even and odd numbers of points.",
 INP,'all lengths, real and complex, all storage types',
 'tests check one even and one odd length',
 [V+'general/data_reorganization.rs',V+'mod.rs',V+'time_freq/freq.rs'],[('swap_halves_priv',V+'mod.rs')])
p('C10','Padding, interleaving and resizing keep every sample in its place',
 "Zero padding (at the end, around, or in the centre), zero interleaving and resizing put each original point at its documented position, padding and interleaving fill everything else with zeros, resizing keeps the common part, and they never change the requested length. The in-place and the buffered variant produce identical vectors.",
 INP,'all lengths, paddings and factors, both variants, all storage types with stale contents',
 'tests cover few sizes and never compare the two variants',
 [V+'general/data_reorganization.rs'],[('zero_pad/zero_pad_b/zero_interleave/zero_interleave_b',V+'general/data_reorganization.rs')])
p('C11','Split and merge are exact inverses',
 "Splitting distributes point i to target i modulo the number of targets in order, merging interleaves points the same way, and merging what was split restores the points of the vector. Only divisible lengths and equal target sizes are accepted.",
 INP,'all lengths and target counts, real and complex',
 'tests use one length',
 [V+'general/data_reorganization.rs'],[('split_into/merge',V+'general/data_reorganization.rs')])
p('C12','Difference and cumulative sum',
 "The difference operations compute consecutive point differences (dropping, respectively keeping, the first point), the cumulative sum computes prefix sums, and the cumulative sum undoes the difference that keeps the start.",
 INP,'all lengths including 0 and 1, real and complex, storage larger than the data',
 'tests use single vectors without slack',
 [V+'general/diff_sum.rs'],[('diff/diff_with_start/cum_sum',V+'general/diff_sum.rs')])
p('C13','Sums and statistics describe exactly the valid points',
 "Sum, sum of squares, count, average, root mean square, minimum and maximum (by magnitude for complex vectors) and their first positions are those of exactly the valid points. Split statistics equal the statistics of the split vectors, and the high precision variants agree with the normal ones up to rounding and are not less exact.",
 INP,'all lengths and split counts, real and complex, precise and normal variants',
 'tests check a few short vectors, and the vectorised remainder handling depends on the length',
 [V+'general/statistics.rs',V+'general/precise_stats.rs'],[('Stats accumulation',V+'general/statistics.rs'),('Kahan summation',V+'general/precise_stats.rs')])
p('C14','Dot products pair points of equal index',
 "The dot product is the sum over all points of the product of both operands at that point (complex multiplication for complex vectors), for normal and precise variants; operands of different size or state are rejected with the documented reason.",
 INP,'all lengths, real and complex',
 'tests use a few lengths',
 [V+'general/dot_products.rs'],[('dot_product_real/complex',V+'general/dot_products.rs')])
p('C15','Complex and real views correspond point by point',
 "Real part, imaginary part, magnitude, squared magnitude and phase deliver for each complex point the corresponding real value in order, whether computed in place, buffered or into another vector, and combining parts, magnitude and phase, or converting a real vector to complex builds the corresponding complex points. State, spacing and length of the results are set accordingly.",
 INP,'all lengths, all conversion operations, targets of any previous size',
 'tests use single lengths and fresh targets',
 [V+'complex/complex_to_real.rs',V+'real/real_to_complex.rs',V+'complex/complex_ops.rs'],[('simd_complex_to_real_operation',V+'support_core.rs')])
p('C16','Mapping visits every point once with its own index',
 "Mapping applies the caller's function to each valid point exactly once together with the index of that point and the given argument; aggregation combines exactly the mapped values of the valid points for any associative and commutative combination, and reports empty input as an error.",
 ['inputs','schedules'],'all lengths, thread counts, storage slack',
 'tests use a single short vector with one thread',
 [V+'general/mapping.rs',V+'support_std_par.rs'],[('map_inplace/map_aggregate',V+'general/mapping.rs')])
p('C17','Fourier transforms compute the DFT and its inverse',
 "The plain forward transform equals the discrete Fourier sum of the points, the plain inverse transform the inverse sum without normalisation, the full transforms add the spectrum shift and the normalisation by the number of points so that a forward and a backward transform restores the signal. This holds for every number of points, for real input exactly as for the same values given as complex numbers, and with a window applied before or removed after.",
 INP,'all numbers of points (powers of two, primes, odd and even), real and complex input, all windows',
 'tests check a few lengths',
 [V+'time_freq/time_to_freq.rs',V+'time_freq/freq_to_time.rs',V+'mod.rs'],[('fft via rustfft',V+'mod.rs')])
p('C18','Half spectrum transforms agree with the full transforms',
 "The transforms for real signals deliver the non-negative half of the spectrum which the full transform computes, require an odd number of points and an input that is real, and the inverse returns the original real signal. Mirroring a half spectrum restores the full conjugate symmetric spectrum.",
 INP,'all odd lengths, static and run-time typed vectors, all windows',
 'tests use one or two lengths',
 [V+'time_freq/time_to_freq.rs',V+'time_freq/freq_to_time.rs',V+'time_freq/freq.rs'],[('unmirror/mirror',V+'time_freq/time_to_freq.rs')])
p('C19','Windows multiply each point by its own coefficient',
 "Applying a window multiplies point i of n by the coefficient which the window function defines for (i, n) and removing it divides by the same coefficient, whether or not the window declares itself symmetric and for any number of threads. The predefined windows have the documented shape and are symmetric.",
 ['inputs','schedules'],'all lengths, window functions (symmetric or not), thread counts',
 'tests use the predefined symmetric windows with few lengths; the symmetric short cut depends on length parity and chunking',
 [V+'time_freq/time.rs',V+'mod.rs','vector/src/window_functions.rs'],[('multiply_window_priv',V+'mod.rs')])
p('C20','Convolution is circular convolution, whichever algorithm is chosen',
 "Convolving with a vector or with an impulse response function yields for every point the circular convolution sum centred on that point, independent of lengths and therefore of the algorithm (direct, vectorised, overlap discard), the number of threads and the buffers. The length and spacing of the signal are kept.",
 ['inputs','configurations'],'all signal and response lengths across the algorithm thresholds, real and complex, symmetric and asymmetric responses',
 'tests check a few lengths on one side of each threshold, mostly with symmetric responses',
 [V+'time_freq/convolution.rs',V+'mod.rs'],[('convolve_signal_scalar/simd, overlap_discard',V+'time_freq/convolution.rs')])
p('C21','Frequency responses multiply each bin by its own value',
 "Multiplying a spectrum with a frequency response multiplies every bin with the response at that bin's relative frequency (zero in the centre, scaled by the given ratio), for symmetric and asymmetric responses and any number of threads.",
 ['inputs','schedules'],'all lengths, ratios, symmetric and asymmetric responses, thread counts',
 'tests use symmetric responses and one length',
 [V+'time_freq/convolution.rs',V+'mod.rs'],[('multiply_function_priv',V+'mod.rs')])
p('C22','Correlation equals the correlation sum',
 "Correlating a signal with a prepared argument yields the circular cross correlation of both signals (zero lag in the centre), and with the padded preparation the linear cross correlation. Arguments of a different size or state are rejected.",
 INP,'all lengths, plain and padded preparation',
 'tests check two short examples',
 [V+'time_freq/correlation.rs'],[('prepare_argument, correlate',V+'time_freq/correlation.rs')])
p('C23','Interpolation reproduces the signal at the requested positions',
 "Interpolating by a function, in the frequency domain or by spectrum padding delivers a vector of the requested length whose points are the response weighted sums of the input points (so that original samples reappear at their positions for interpolating responses), independent of the internal path. Spacing and length are those documented.",
 INP,'all lengths, factors, delays, response lengths, symmetric and asymmetric responses',
 'tests check a few factors against precomputed tables',
 [V+'time_freq/interpolation.rs'],[('interpolatef/interpolatei/interpolate/interpft',V+'time_freq/interpolation.rs')])
p('C24','Decimation and real interpolation pick and weight the right samples',
 "Decimation keeps exactly the points at offset, offset+factor and so on. Linear and Hermite interpolation place output points evenly over the input positions and reproduce every input sample which lies on such a position, and linear interpolation yields the weighted mean of the two neighbours in between.",
 INP,'all lengths, factors and delays',
 'tests check two or three settings',
 [V+'time_freq/interpolation.rs',V+'time_freq/real_interpolation.rs'],[('decimatei',V+'time_freq/interpolation.rs'),('interpolate_lin/hermite',V+'time_freq/real_interpolation.rs')])
p('C25','Matrix operations are the vector operations applied row by row',
 "Every operation of a matrix gives each row the result which the same operation gives for that row as a vector, keeps all rows equally long and in the same state, and reports the same errors; multi channel convolution sums over all input rows the convolution with the matching response.",
 INP,'all row counts, row lengths, matrix kinds and operations',
 'tests check few operations with two rows',
 ['matrix/src/lib.rs','matrix/src/mat_impl.rs','matrix/src/time_freq.rs','matrix/src/general/mod.rs'],[('forwarding impls','matrix/src')])
p('C26','The C interface is a faithful facade of the library',
 "Every exported C function has the effect and the result of the corresponding library operation on the same data, for both precisions, and returns the documented code for success or the specific error. Data exchanged through the interface round trips unchanged.",
 INP,'all exported functions, operand states, lengths and error conditions',
 'the tests of the interface call only a handful of the exported functions',
 ['interop/src/facade32.rs','interop/src/facade64.rs','interop/src/lib.rs'],[('InteropVec and convert_* helpers','interop/src/lib.rs')])
p('C27','All build configurations compute the same results',
 "The library without standard library support and the builds with explicit vector instructions compute the same results as the default build for every operation and length.",
 ['configurations','inputs'],'build configurations (default, no standard library, SSE, AVX), lengths, operations',
 'each configuration runs its own copy of the sampled tests and they are never compared with each other',
 ['vector/src/simd_extensions/mod.rs','vector/src/simd_extensions/sse.rs','vector/src/simd_extensions/avx.rs','vector/src/simd_extensions/fallback.rs','vector/src/multicore_support/no_threading.rs'],[('Simd trait implementations','vector/src/simd_extensions')])
p('C28','Phase wrapping and complex exponentials',
 "Wrapping maps every value to its remainder for the given divisor, unwrapping removes jumps of more than half the divisor by multiples of the divisor so that wrapped ramps are restored, and multiplying with a complex exponential multiplies point i with the exponential of the angle advanced by i steps.",
 INP,'all lengths, divisors, ramps, angles, thread counts',
 'tests check one ramp and one exponential',
 [V+'real/real_ops.rs',V+'complex/complex_ops.rs'],[('wrap/unwrap',V+'real/real_ops.rs'),('multiply_complex_exponential',V+'complex/complex_ops.rs')])
p('C29','Conversions between containers and vector types are lossless',
 "Creating a vector from a container, taking the data back, changing between static and run-time typed vectors, cloning and reading or writing through indices preserve every element and its order, and conversions to a type which does not fit the current state yield an empty vector of the requested type.",
 INP,'all container types, vector types, thread settings (`to_*_vec` and `to_*_vec_par`) and lengths (odd lengths for complex)',
 'tests check single conversions of short data',
 [V+'to_from_vec_conversions.rs',V+'rededicate_and_relations.rs',V+'vec_impl_and_indexers.rs'],[('RededicateOps',V+'rededicate_and_relations.rs'),('ToRealVector..ToDspVector',V+'to_from_vec_conversions.rs')])
p('C30','Predefined functions and lookup tables',
 "The sinc and the raised cosine function have their documented values (in time and in frequency domain, including the removable singularities) and symmetry. A lookup table reproduces the function or the table it was made of at its points, interpolates linearly in between and is zero outside of its range; converting it between real and complex or between time and frequency domain keeps its resolution and agrees with the corresponding vector operations. Convolution, frequency response multiplication and interpolation with a predefined function or a table use exactly these values.",
 INP,'all arguments, roll offs, table lengths and resolutions, symmetric and asymmetric tables, 32 and 64 bit',
 'tests evaluate the functions at a few arguments of one table',
 ['vector/src/conv_types.rs'],[('RealImpulseResponse/RealFrequencyResponse for SincFunction, RaisedCosineFunction','vector/src/conv_types.rs'),('RealTimeLinearTableLookup and its conversions','vector/src/conv_types.rs')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
