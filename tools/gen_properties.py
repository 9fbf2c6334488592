#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mechanism],
        observe_at=list(observe), hook_needed=hook)))
S, L, Z, M, C = ['src/'+x for x in ('src_sinc.c', 'src_linear.c', 'src_zoh.c', 'samplerate.c', 'common.h')]
OBS = ['src_process', 'SRC_DATA.data_out', 'SRC_DATA.input_frames_used', 'SRC_DATA.output_frames_gen']

prop('C01', 'Streaming result does not depend on how the stream is cut into calls',
 "At a constant ratio, however a stream is cut into input blocks and output capacities (zero-length ones, single frames, and end_of_input set on the last data block or only on a later empty call included), the concatenated output of src_process equals, sample for sample to within float rounding, that of converting the whole stream in one call. The number of output frames is the same too, except that the very last frame may be there or not where its position coincides, up to rounding, with the end of the stream. This holds for every converter, channel count and legal ratio, and at every fill level and wrap-around point of the converters' internal buffering.",
 ['inputs', 'histories', 'configurations'], 'all sequences of (input block, output capacity, end_of_input) calls over all converters, channel counts and ratios',
 'streaming_test tries one block size per converter, mono, two ratios and only compares lengths within a tolerance; the cuts of a stream are exponentially many and the interesting ones (buffer wrap, zero output, empty last block) are hit by none of the tests',
 [S, L, Z, M], [('position and last_value carry-over between calls', L+', '+Z), ('prepare_data buffer refill, wrap and end padding', S)],
 [('last_position', 'fractional read position carried between calls', C), ('b_current/b_end/b_real_end', 'read, fill and end marks of the sinc buffer', S), ('last_value', 'last frame of the previous block', L)], OBS)
prop('C02', 'Calls stay inside the caller\'s buffers and inside the library\'s own memory',
 "In every sequence of API calls with valid arguments, src_process and src_callback_read read no input outside the data_in[0 .. input_frames) frames, never write to the input, never write output outside the data_out[0 .. output_frames) frames, and touch no other memory out of bounds, after it was freed, or otherwise with undefined behaviour. The reported counts always satisfy 0 <= input_frames_used <= input_frames and 0 <= output_frames_gen <= output_frames, and no internal consistency check of the library fires. This holds for constant and changing ratios in all of [1/256, 256], before and after end_of_input, and across reset and clone.",
 ['inputs', 'histories', 'configurations'], 'all call histories over block sizes, capacities, ratios (steps and ramps), end_of_input, reset and clone, for every converter and channel count',
 'the tests never run under a memory checker, use generous buffers and mild ratios, and change the ratio only smoothly',
 [S, L, Z, M], [('samples_in_hand against half_filter_chan_len', S), ('buffer sizing from SRC_MAX_RATIO', S), ('in_used/in_count loop conditions', L+', '+Z)],
 [('b_len', 'size of the sinc buffer', S)], OBS+['AddressSanitizer/UBSan', 'assert'])
prop('C03', 'Channels of an interleaved stream are converted independently',
 "Converting an interleaved stream of c channels gives, in every channel, what converting that channel alone as a mono stream gives, to within float rounding, for every channel count accepted by src_new. No channel ever receives any part of another channel's signal, whatever the block sizes, ratio or ratio changes. Only the very last frame of a finished sinc stream may be present in one and absent in the other.",
 ['inputs', 'histories', 'configurations'], 'all channel counts, signals, block cuts, constant and ramped ratios',
 'multi_channel_test uses pure tones, a few channel counts, one ratio per run and an SNR threshold; specialised code exists for 1, 2, 4 and 6 channels and a generic one for the rest, with different code on each path',
 [S, L, Z], [('calc_output_single/stereo/quad/hex/multi', S), ('per-channel inner loops', L+', '+Z)], [('left_calc/right_calc', 'per-channel accumulators', S)], OBS)
prop('C04', 'src_reset returns a converter to the state of a new one',
 "After src_reset, whatever was done before (partial streams, ratio changes by call or by src_set_ratio, end_of_input, failed calls, exhausted or half-consumed callbacks), every subsequent sequence of calls gives exactly the results, counts and error codes that a freshly created converter of the same kind gives. In particular no earlier sample, position, ratio, pending callback data, end-of-input mark or error survives, and the first ratio used after the reset applies at once without a ramp.",
 ['histories', 'configurations'], 'all histories before the reset and all continuations after it, all converters, channel counts and both API modes',
 'reset_test compares one continuation after one history per converter, mono or a few channels, with equal ratios',
 [S, L, Z, M], [('sinc_reset, linear_reset, zoh_reset', S+', '+L+', '+Z), ('src_reset', M)], [('dirty', 'whether last_value is valid', L), ('b_real_end', 'end-of-input mark', S)], OBS+['src_error', 'src_callback_read'])
prop('C05', 'A clone continues exactly like the original and independently of it',
 "A converter made by src_clone, at any point of any history, gives for every subsequent sequence of calls exactly the results the original would have given, in process and in callback mode. Original and clone do not influence each other from then on: any interleaving of operations on the two, including reset, ratio change, end_of_input and deletion of either, leaves the other's results unchanged.",
 ['histories', 'configurations', 'schedules'], 'all histories before cloning, all continuations, and all interleavings of operations on original and clone',
 'clone_test clones once in the middle of one stream and continues both with the same calls',
 [S, L, Z, M], [('sinc_copy, linear_copy, zoh_copy', S+', '+L+', '+Z), ('src_clone', M)], [('private_data', 'converter specific state that must be copied deeply', C)], OBS+['src_clone', 'src_callback_read'])
prop('C06', 'ZOH and linear converters interpolate exactly, frame by frame',
 "With p = k/ratio for output frame k, and the first input frame repeated before the start, the linear converter's output is the straight-line interpolation of the input frames floor(p)-1 and floor(p) at the fraction of p, and the zero-order hold's is the input frame floor(p)-1; ratio changes move p by 1/(ratio in force) per frame. Neither accumulates drift, however long the stream, and input_frames_used tells exactly which input frames are no longer needed: all whole frames up to the next position, and no more than were supplied. A call produces every frame it has input and capacity for.",
 ['inputs', 'histories', 'configurations'], 'all inputs, block cuts, channel counts and ratios, and streams of unbounded length',
 'the tests check signal to noise ratios of sine waves through a block of fixed size; they cannot see a one-sample shift, an error at a block boundary or slow drift',
 [L, Z], [('interpolation loops and last_value handling', L+', '+Z)], [('last_position', 'fractional position; may exceed 1 when a low ratio skips past a block', C)], OBS)
prop('C07', 'Sinc converters apply their windowed-sinc filter to the whole stream',
 "Every output frame of a sinc converter is the input stream, zero before its start and after its end, weighted by the converter's published windowed-sinc coefficients (linearly interpolated, widened and scaled by the ratio when it is below 1) centred on the frame's position, which advances by 1/ratio per frame from 0. No tap of the filter is dropped, repeated, shifted or taken from a wrong or stale sample at any point of the stream, however long it is and however it is cut into calls, in any channel.",
 ['inputs', 'histories', 'configurations'], 'all input signals, positions in the stream, ratios, channel counts and block cuts',
 'the tests measure SNR of a windowed portion of sine waves against thresholds that a few wrong samples, a wrong tail or a buffer-wrap glitch do not move',
 [S, 'src/fastest_coeffs.h', 'src/mid_qual_coeffs.h'], [('calc_output_*', S), ('prepare_data', S), ('fixed-point filter index', S)], [('buffer', 'window of recent input', S), ('input_index', 'fractional position', S)], OBS)
prop('C08', 'A finished conversion is complete',
 "At a constant ratio, converting N input frames and marking the end of input consumes all N frames and produces N*ratio output frames to within one frame, with the delay of the converter compensated and the tail of the last input frames flushed (linear: N*ratio rounded up; ZOH: N*ratio rounded down, plus one unless its position coincides with the end). This holds for every N from 0 up, every ratio in [1/256, 256], every channel count and converter, every cutting into calls, with end_of_input given together with the last data or afterwards with no data and a NULL or non-NULL data pointer; after that further calls produce nothing.",
 ['inputs', 'configurations', 'histories'], 'all stream lengths, ratios, channel counts, converters and call patterns',
 'termination_test covers about 15 ratios with two input lengths each and tolerates an error of several frames; small N, small ratios with several channels and late end_of_input are not covered',
 [S, L, Z, M], [('b_real_end, terminate and zero padding', S), ('loop conditions', L+', '+Z)], [('b_real_end', 'end of real data in the buffer', S)], OBS)
prop('C09', 'Every call returns and makes progress',
 "A src_process call with input and room for output, before end_of_input, always consumes input or produces output, so that a caller who resubmits unconsumed input always gets through the stream; after end_of_input repeated calls finish the stream in a bounded number of calls and then keep returning zero frames. src_callback_read always returns, after a bounded number of callback invocations; once the callback reports the end it returns the remaining frames and then 0 for as long as the callback keeps reporting the end, and it returns just the same, with frames or an error, when the callback supplies data again after having reported the end. This holds for all block sizes, ratios and ratio changes, converters and channel counts.",
 ['histories', 'inputs', 'configurations'], 'all histories of block sizes, capacities, ratios (steps and ramps) and callback behaviours',
 'callback_hang_test tries a list of random ratios with a fixed block size; a livelock needs a particular combination of fill level, ratio and block size',
 [S, L, Z, M], [('loop of src_callback_read', M), ('samples_in_hand test and prepare_data', S)], [], OBS+['src_callback_read', 'number of callback invocations'])
prop('C10', 'The callback interface gives the same stream as the process interface',
 "Whatever sizes the callback delivers its data in and whatever frame counts the reader asks for, the concatenation of the frames returned by src_callback_read equals the output of src_process on the same input at the same ratio, to within float rounding. No delivered frame is lost, duplicated or asked for again, the callback gets the registered user pointer, a read returns fewer frames than asked for only at the end of input or on error, and the mode-specific calls are refused on the wrong kind of converter.",
 ['histories', 'inputs', 'configurations'], 'all sequences of callback block sizes and read sizes, ratios and ratio steps between reads, converters and channel counts',
 'callback_test reads with one fixed frame count and a callback of fixed block size and only compares total lengths',
 [M], [('saved_data/saved_frames', M), ('loop of src_callback_read', M)], [('saved_frames', 'frames delivered and not yet consumed', C)], ['src_callback_read', 'callback invocations', 'src_error'])
prop('C11', 'A changing ratio follows the documented trajectory without jumps',
 "When src_process is called with a ratio different from the one in force, the ratio moves linearly, output frame by output frame, from the one in force towards the new one over the call's output capacity, and the next call starts from the ratio of the last frame produced; src_set_ratio instead makes the next call start at the given ratio at once. Each output frame is the converter's interpolation of the input at the position that results from summing 1/ratio along this trajectory, never outside the interval between the two ratios, in every channel.",
 ['histories', 'inputs', 'configurations'], 'all sequences of ratios, ratio steps, block sizes and capacities',
 'varispeed_test runs one up-and-down sweep per converter and checks SNR; varispeed-bounds only checks that nothing crashes',
 [S, L, Z, M], [('src_ratio ramp in the process loops', S+', '+L+', '+Z), ('src_set_ratio and last_ratio', M)], [('last_ratio', 'ratio in force', C)], OBS+['src_set_ratio'])
prop('C12', 'Invalid calls are refused with the documented error and leave no trace',
 "A call with a NULL converter, a NULL SRC_DATA, a NULL buffer with a positive frame count, a ratio outside [1/256, 256] or not a number, overlapping input and output, an unknown converter type, a channel count below 1 (or above 128 for the sinc converters), a NULL callback, or the wrong mode returns the error code of that condition, with a non-NULL src_strerror text, and never crashes. Buffers that merely touch are accepted, and negative frame counts count as zero. A refused call writes no output, calls no callback, and does not change the later results of the converter it was made on.",
 ['inputs', 'histories'], 'all combinations of argument values, at any point of any history',
 'misc_test and simple/callback tests try five or six single bad arguments on a fresh converter',
 [M, C], [('argument checks in src_process, src_callback_read, src_set_ratio, src_new', M), ('is_bad_src_ratio', C)], [], ['return codes', 'src_error', 'src_strerror'])
prop('C13', 'Running out of memory is reported and nothing leaks',
 "Whichever allocation inside src_new, src_callback_new, src_clone or src_simple fails, the call returns NULL (or the error) with the out-of-memory code and frees everything it had obtained; a converter being cloned is unharmed. In every history src_delete releases everything a converter owns exactly once, so that after deleting all converters, in any order, no memory is left allocated.",
 ['fault_sequences', 'histories', 'configurations'], 'all allocation points of all constructors, all histories of create, clone, use, fail and delete',
 'no test makes an allocation fail or checks for leaks',
 [S, L, Z, M], [('error paths of *_state_new and *_copy', S+', '+L+', '+Z), ('*_close', S+', '+L+', '+Z)], [], ['malloc/calloc/free calls', 'error out-parameter'])
prop('C14', 'Sample format conversions are exact, saturate and invert each other',
 "src_short_to_float_array and src_int_to_float_array scale full range to [-1, 1) with a correctly rounded result; src_float_to_short_array and src_float_to_int_array return the nearest integer of the scaled sample for every in-range float and the nearest limit for every out-of-range or infinite one, never wrapping around. short to float to short is the identity for all 65536 values and int to float to int for all values representable in a float. Exactly len elements are converted, for every len including 0, and nothing else is written.",
 ['inputs'], 'all 2^16 shorts, all 2^32 ints, all 2^32 float bit patterns, all array lengths and alignments',
 'float_short_test converts a short ramp and four out-of-range values',
 [M, C], [('conversion loops and clipping', M), ('psf_lrint/psf_lrintf', C)], [], ['output arrays'])
prop('C15', 'Converters are independent, also when used from several threads',
 "Any number of converters can be used at the same time, interleaved in one thread or each in its own thread without locking, and each gives exactly the results it gives when used alone. The library keeps no mutable state outside its converter objects that one converter's calls could observe through another's.",
 ['schedules', 'histories', 'configurations'], 'all interleavings, down to single memory accesses, of operations on two or more converters of any kinds',
 'no test uses two converters at the same time except for clone_test, and none uses threads',
 [S, L, Z, M], [('no writable file-scope data; scratch buffers on the stack or in the state', S+', '+L+', '+Z)], [('left_calc/right_calc', 'scratch accumulators held per instance', S)], OBS)
prop('C16', 'Results depend only on the converter history and the input samples',
 "The same sequence of calls on the same samples gives bit-identical outputs, counts and error codes whatever the previous contents of newly allocated memory, of the stack and of the output buffers, whatever the addresses and alignments of the buffers, and whatever data lies beyond the supplied frames. Results in the output of one call are not modified by later calls.",
 ['configurations', 'histories'], 'all call histories under all enumerated environments (heap, stack and buffer contents, addresses, alignments)',
 'each test runs once, with zeroed or leftover memory, in one environment',
 [S, L, Z, M], [('calloc and reset of states', S+', '+L+', '+Z)], [], OBS)
prop('C17', 'Sinc converters meet their documented filter quality at every phase',
 "At every ratio and every fractional position the sinc converters have a bandwidth (-3 dB point) of at least the documented 80% (fastest) and 90% (medium) of the lower of the two Nyquist frequencies; up to 85% and 91% of that bandwidth the gain is 1 to within 0.02 dB, the delay is exactly compensated throughout, and the error and alias energy stays below the documented signal to noise ratio (97 dB and 121 dB; a few dB are allowed for single precision), frequencies from 1.06 times the output's Nyquist frequency upwards being suppressed likewise. A constant input gives the same constant output at every position away from the ends of the stream, at any ratio and while the ratio changes.",
 ['inputs', 'configurations'], 'all phases, in-band frequencies and ratios, and both converters',
 'snr_bw_test covers about ten hand-picked frequency and ratio pairs per converter in mono',
 [S, 'src/fastest_coeffs.h', 'src/mid_qual_coeffs.h'], [('coefficient tables and their interpolation', S)], [], OBS)
prop('C18', 'Introspection functions agree with what the library does',
 "src_get_name and src_get_description return a text for exactly the same converter numbers, which include all those src_new accepts, and NULL for all other ints; src_strerror has a text for every error code any call returns and NULL outside the range of codes. src_is_valid_ratio is true for exactly the ratios in [1/256, 256] and agrees with what src_process, src_set_ratio and src_callback_read accept, to the last bit. src_get_channels returns the channel count of any converter (a negative code for NULL), and src_error the last error recorded, zero for new or reset ones.",
 ['inputs', 'histories'], 'all ints, all doubles around the limits and in every exponent, all converters and channel counts',
 'misc_test prints names and tries a few values',
 [M, C, S, L, Z], [('src_get_name, src_get_description, src_strerror, src_is_valid_ratio, src_get_channels', M)], [], ['return values'])
prop('C19', 'src_simple equals one src_process call with end_of_input',
 "src_simple gives the same output samples, counts and result code as creating a converter, making one src_process call with end_of_input set, and deleting it; it ignores the caller's end_of_input value, frees all it allocates and keeps no state between calls. This holds for every converter, channel count, ratio, input length and output capacity, including too small an output buffer and all invalid arguments.",
 ['inputs', 'configurations', 'histories'], 'all arguments and all sequences of simple calls interleaved with other calls',
 'simple_test converts one signal with each converter at one ratio per run and only checks lengths and termination',
 [M], [('src_simple', M)], [], ['src_simple', 'SRC_DATA'])
prop('C20', 'Converters are linear, time-invariant and forget',
 "At a constant ratio scaling the input scales the output, the response to a sum of signals is the sum of the responses, and delaying the input by a number of frames that corresponds to a whole number of output frames delays the output by exactly that number. An input frame affects only output frames within the converter's filter span around it (one frame for ZOH and linear), so that even NaN, infinite or huge samples leave no trace after the span has passed, at any place of the stream and for any cutting into calls.",
 ['inputs', 'histories', 'configurations'], 'all positions of a disturbing frame in the stream, all channel positions, ratios and block cuts',
 'no test feeds non-finite samples or compares related conversions',
 [S, L, Z], [('filter accumulation over a finite window', S), ('last_value replaced by each block', L+', '+Z)], [], OBS)
prop('C21', 'Endless streams run forever without change of behaviour',
 "A converter fed an endless stream in any fixed pattern of calls keeps working in the same way forever: for a periodic signal at a rational ratio the outputs become and stay periodic, with no drift of the average ratio of frames produced to frames consumed, no error, and no growth of memory. Frame counts in a single call may exceed 2^31 samples.",
 ['histories', 'configurations'], 'streams of unbounded length, for all converters, channel counts, rational ratios and call patterns',
 'the longest stream in any test is a few hundred thousand frames',
 [S, L, Z, M], [('position kept modulo one frame', S+', '+L+', '+Z), ('buffer wrap', S)], [('last_position', 'bounded position', C)], OBS)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
