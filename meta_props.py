P("P01", "Frame size, delay and bitrate conversions are exact and mutually inverse",
  "For every combination of integer arguments, the sizing functions return the exact number of samples, delay, bytes and bitrate defined by the documentation, and -1 when (and only when) a parameter is not supported. "
  "A frame block size is the floor of the bitrate times the duration, clipped to the codec limits times the number of channels, and the resolved bitrate of a size never goes over INT_MAX. "
  "Any legal block size converted to a bitrate and back gives the same size.",
  ["inputs", "configurations"], "All values of all the int arguments, both modes, one to eight channels",
  "The tests call a few nominal values; overflow, clipping and rounding show only on extreme or unaligned arguments.",
  ["src/lc3.c", "include/lc3.h"],
  [("lc3_hr_frame_block_bytes", "src/lc3.c"), ("lc3_hr_resolve_bitrate", "src/lc3.c"), ("lc3_hr_frame_samples", "src/lc3.c"), ("lc3_hr_delay_samples", "src/lc3.c")],
  "Complete: loop-free code, all int arguments symbolic; case split on the frame duration.")

P("P02", "Memory and setup of the encoder and decoder",
  "The memory size functions return 0 when and only when the parameters are not supported, and a size that always suffices otherwise: the setup, on a memory of this size, writes only inside and never beyond it. The static memory types are big enough for all the frame durations at their samplerate. "
  "The setup returns NULL, leaving memory untouched, when and only when the duration, one of the samplerates, their order (codec samplerate above the PCM one) or the memory pointer is not valid; a PCM samplerate null or negative stands for the codec samplerate. "
  "On success the whole state is initialised: configuration, position of the internal buffers, null samples and history, LTPF enabled, concealment state (seed 24607, count 1, alpha 1.0).",
  ["inputs", "configurations"], "All int arguments of the size and rejection contracts; each of the 69 (mode, duration, samplerate, PCM samplerate) configurations",
  "The tests set up few configurations in oversized memories, where overflows and forgotten initialisations are silent.",
  ["src/lc3.c", "include/lc3_private.h", "include/lc3.h"],
  [("lc3_hr_encoder_size", "src/lc3.c"), ("lc3_hr_decoder_size", "src/lc3.c"), ("lc3_hr_setup_encoder", "src/lc3.c"), ("lc3_hr_setup_decoder", "src/lc3.c"), ("LC3_DECODER_BUFFER_COUNT", "include/lc3_private.h")],
  "Sizes and rejections: complete over all int arguments. Setup: each configuration, on a memory filled by 0xa5 of exactly the required size, zeroing checked at a symbolic index.")

P("P03", "Decoding orchestration: rejection, concealment decision and history position",
  "lc3_decode() returns -1, and nothing is modified, for a NULL decoder or a frame size out of the limits of the codec with an input. Otherwise exactly one synthesis of the frame is done, in order, with the configuration of the decoder; it returns 1 and conceals from the last good spectrum when and only when the frame is lost (NULL) or any part of its data is invalid, and 0 otherwise. "
  "Every processing stage receives buffers which fit in the memory of the decoder: the spectrum, the delayed samples, the last good spectrum, and the ring of decoded samples. The position of the frame in the ring stays a multiple of the frame size and wraps after the last one; the configuration never changes.",
  ["inputs", "histories", "configurations"], "All error combinations, any nbytes, each ring position, each of the 69 configurations",
  "Requires every combination of invalid side data at each position in the history; the tests check one lost frame and no invalid data per section.",
  ["src/lc3.c"],
  [("lc3_decode", "src/lc3.c"), ("decode", "src/lc3.c"), ("synthesize", "src/lc3.c"), ("complete", "src/lc3.c")],
  "lc3_decode() checked against the contracts of the functions of the other modules (written as executable stubs with assertions on the arguments), for an arbitrary error indication of each.")

P("P04", "PCM input is taken exactly, for each format and stride",
  "The samples analysed by the encoder are exactly the input ones: 16 bits as they are, 24 bits (in 32 bits words or packed on 3 bytes) with 8 bits of fractional part, and floats scaled by 32768, saturated to 16 bits for the temporal analysis. With a stride, only the samples of the channel are used, and no byte beyond the last sample is accessed.",
  ["inputs"], "Every value of a sample, at each position of the frame, others unconstrained, each format",
  "The tests compare decoded audio to references and would not see the loss of low order bits, sign errors on extreme values, or access to the byte beyond the buffer.",
  ["src/lc3.c"],
  [("load_s16", "src/lc3.c"), ("load_s24", "src/lc3.c"), ("load_s24_3le", "src/lc3.c"), ("load_float", "src/lc3.c"), ("lc3_encode", "src/lc3.c")],
  "Frame of 20 samples (2.5 ms at 8 KHz); the stride is bounded to 3; three positions in quick tier, all in thorough. Float input limited to twice the full scale.")

P("P05", "PCM output is rounded to nearest, saturated, and confined to the samples of the channel",
  "Each decoded sample is output rounded to the nearest value of the format (16 bits, 24 bits in 32 bits words, 24 bits packed, float clipped to [-1, 1]) and saturated to its limits, for any finite sample. Only the bytes of the samples of the frame at the stride are written: memory between and around is unchanged, and nothing is written when the call is rejected.",
  ["inputs"], "Every finite float value of a sample, each format; each byte of the output memory",
  "Saturation and rounding of extreme samples, and interleaved channels, are not reached by the reference vectors.",
  ["src/lc3.c"],
  [("store_s16", "src/lc3.c"), ("store_s24", "src/lc3.c"), ("store_s24_3le", "src/lc3.c"), ("store_float", "src/lc3.c"), ("lc3_decode", "src/lc3.c")],
  "Frame of 20 samples (2.5 ms at 8 KHz); the stride is bounded to 4; three positions in quick tier, all in thorough.")

P("P06", "Encoding orchestration: rejection, stages, frame layout and history",
  "lc3_encode() returns -1, touching neither state nor output, when and only when the encoder is NULL or the frame size out of the limits of the codec at this configuration, and 0 otherwise. Every analysis stage is then run once with the configuration of the encoder and buffers that fit in its memory, and the frame gets, in the order of the specification, what the analysis decided: bandwidth, side data, TNS, pitch flag, SNS, LTPF data if and only if the pitch is present (never when LTPF is disabled; not activated when energy is detected near Nyquist), spectrum. "
  "The last samples of a frame are kept as the previous ones of the next frame, and the configuration never changes.",
  ["inputs", "histories", "configurations"], "All results of the analysis stages, any nbytes, each of the 69 configurations",
  "Mixing of the two samplerates and limits of sizes show only in particular configurations; the tests exercise few of them.",
  ["src/lc3.c"],
  [("lc3_encode", "src/lc3.c"), ("analyze", "src/lc3.c"), ("encode", "src/lc3.c")],
  "lc3_encode() checked against the contracts of the functions of the other modules (executable stubs with assertions on the arguments). History on four configurations.")

P("P07", "Bitstream writing is confined to the frame and to its own side",
  "Whatever the values written and however full the frame is, writing of plain bits modifies only bytes between the two streams, writing of arithmetic coded symbols and the final flush only bytes following the already coded part, and never a byte outside of the frame buffer. "
  "The state of one stream is never altered by writing in the other.",
  ["inputs", "histories"], "Every writer state satisfying the writer invariant, every frame size 20..640, every value and width, every probability model",
  "An overflowing frame needs particular symbol histories; the tests encode a few regular frames, and cannot see a byte of overflow.",
  ["src/bits.c", "src/bits.h"],
  [("lc3_put_bits", "src/bits.h"), ("lc3_put_symbol", "src/bits.h"), ("lc3_ac_write_renorm", "src/bits.c"), ("lc3_flush_bits", "src/bits.c")],
  "Inductive invariant proved step by step over arbitrary states. The number of pending carry bytes is bounded (4, and 1 in the flush), and the flush to 160 bytes of free space in quick tier.")

P("P08", "Bitstream reading stays in the frame and detects over-read",
  "For any content of the frame, reading plain bits or arithmetic coded symbols never accesses a byte out of the frame, modifies nothing, and returns values of the requested width, or symbols of the alphabet with non null probability. "
  "Reading more plain bits than left, or an arithmetic coder value out of its interval, raises the error state. Once raised, further reads do not clear an error.",
  ["inputs", "histories"], "Every reader state satisfying the reader invariant, every frame content and size 20..640, every width 1..31, each probability model of the codec",
  "Corrupted and truncated frames are unbounded in number; the tests decode well formed frames.",
  ["src/bits.c", "src/bits.h"],
  [("lc3_setup_bits", "src/bits.c"), ("lc3_get_bits", "src/bits.h"), ("lc3_get_symbol", "src/bits.h"), ("lc3_ac_read_renorm", "src/bits.c"), ("lc3_check_bits", "src/bits.c")],
  "Inductive invariant proved step by step over arbitrary states; symbol reading per concrete model: 6 models in quick, all the 74 in thorough.")

P("P09", "Plain bits written are the plain bits read",
  "As long as there is room, each plain value written extends the stream of bits by exactly its bits, low order first, from the end of the frame backward, whatever the state of the accumulator; the flush stores the remaining ones, and keeps those already stored. The reader, from the setup, returns exactly the bits of the frame at its position, and moves by the width read: so the sequence of values read with the same widths is the sequence written.",
  ["inputs", "histories"], "Every writer and reader state, every width (1..32 written, 1..31 read), value and frame content up to 640 bytes",
  "Alignment of the accumulator and position in the frame combine in thousands of ways; the tests never check the content of the stream by itself.",
  ["src/bits.c", "src/bits.h"],
  [("lc3_put_bits", "src/bits.h"), ("lc3_put_bits_generic", "src/bits.c"), ("lc3_get_bits", "src/bits.h"), ("lc3_get_bits_generic", "src/bits.c"), ("lc3_flush_bits", "src/bits.c")],
  "Step contracts on arbitrary states, at a symbolic bit of the stream, composed by induction. The flush is bounded to 4 free bytes between the streams.")

P("P10", "Arithmetic coded symbols written are the symbols read",
  "Writing a symbol moves the coded value to the interval of the symbol, and the renormalization, with its pending carry bytes, keeps this value; the termination outputs a code which is in the last interval whatever bits follow, without altering the plain bits, when the frame is not overflowed. Reading, from a value in the interval of a symbol, returns this symbol, with no error, and the same interval as the writer. The models are partitions of the range where each symbol in use has a non null probability. So the sequence of symbols read is the one written.",
  ["inputs", "histories"], "Every coder state satisfying the invariant, every symbol, value in the interval and model",
  "Carry propagation and termination at the limit of the interval are met by rare sequences of symbols.",
  ["src/bits.c", "src/bits.h", "src/tables.c"],
  [("lc3_put_symbol", "src/bits.h"), ("lc3_get_symbol", "src/bits.h"), ("ac_shift", "src/bits.c"), ("ac_terminate", "src/bits.c"), ("lc3_ac_read_renorm", "src/bits.c")],
  "Step contracts on arbitrary states, composed by induction. Pending carry bytes bounded to 6 (3 in the termination, with at most 4 free bytes); symbols read on 4 models in quick tier, all 74 in thorough; written on any model.")

P("P11", "Pulse vectors and their indexes are in bijection",
  "Every index of a shape of the spectral noise shaping gives a vector with exactly the number of unit pulses of the shape, and only this vector is written. Every vector of pulses gives an index (and sign) in range, and decoding it gives the same vector back; the table of offsets satisfies the recurrence of the enumeration.",
  ["inputs"], "All the indexes and signs, all the pulse vectors, of each of the four shapes",
  "There are 38 millions of indexes; the tests sample a few vectors.",
  ["src/sns.c", "src/tables.c"],
  [("enumerate", "src/sns.c"), ("deenumerate", "src/sns.c"), ("mpvq_deenum", "src/sns.c"), ("lc3_sns_mpvq_offsets", "src/tables.c")],
  "Index to vector and ranges: complete over all the indexes and vectors. Vector to index to vector: case split on the amplitude of the first coefficient, the largest ones in quick tier, all in thorough, which also proves index to vector to index for shapes 0, 1 and 3.")

P("P12", "Side data written is read back, and data read from any frame is valid",
  "For each of the bandwidth, spectral side data, TNS, SNS and LTPF data, what is written in a frame is read back identical by the decoder, with the announced number of bits. Read from an arbitrary frame, each either reports the data as invalid, exactly for the reserved codes, or gives values in the range the decoder relies on.",
  ["inputs"], "All the values of the side data, all frame contents, each configuration of duration, samplerate and bandwidth",
  "Reserved codes and limits of each field are met by particular frames only; the tests round-trip none of these.",
  ["src/bwdet.c", "src/spec.c", "src/tns.c", "src/sns.c", "src/ltpf.c"],
  [("lc3_bwdet_get_bw", "src/bwdet.c"), ("lc3_spec_get_side", "src/spec.c"), ("lc3_tns_get_data", "src/tns.c"), ("lc3_sns_get_data", "src/sns.c"), ("lc3_ltpf_get_data", "src/ltpf.c")],
  "Complete; the bitstream is taken by its contract, a FIFO of fields and symbols (proved for the memory and state of the streams by P07 and P08).")

P("P13", "Pitch analysis of the encoder stays in its buffers and its decisions follow the specification",
  "For any input samples and any state, the pitch analysis only reads the samples of the frame and the announced history, only writes its own state, and keeps it in its domain. The pitch index, in 0..511, tells the refined lag with the resolution of 1/4, 1/2 then 1 sample of the specification; nothing is activated without pitch nor in high-resolution mode; the activation is decided from the two last correlations and the lag difference as specified, and the correlations of the two last frames are kept.",
  ["inputs", "histories", "configurations"], "All samples, every state in the domain, each duration and samplerate",
  "Lags at the limits of the search, and wrong history extents, are reached only by particular signals; the tests run on a few reference ones.",
  ["src/ltpf.c"],
  [("lc3_ltpf_analyse", "src/ltpf.c"), ("detect_pitch", "src/ltpf.c"), ("refine_pitch", "src/ltpf.c"), ("resample_x64k_12k8", "src/ltpf.c"), ("resample_x192k_12k8", "src/ltpf.c")],
  "The inner functions (resampling, scalar product, search of maximum, interpolation) are replaced by contracts on their extents, themselves proved on null or single-term inputs. The values of the correlations are arbitrary.")

P("P14", "Long term post filter of the decoder: position in the history, transitions and selection of the filter",
  "The post filter never accesses memory out of the ring of decoded samples, of the frame and of its own state, for any pitch index, previous lag, transition and position in the ring. It leaves the samples bit-exact when inactive in this frame and the previous one, and always keeps the last input samples. It is active only when the frame asks for it and the bitrate is below the limit of the samplerate; the lag is the scaled pitch, and the gain and coefficients are those of the specification for the bitrate and fractional lag. The samples of the history used are those at the lag.",
  ["inputs", "histories", "configurations"], "Every pitch index and frame size, every previous state, each duration and samplerate, positions in the ring",
  "Wrapping of the lag around the ring depends on the pitch and the history of frames; the tests filter a few frames at fixed pitches.",
  ["src/ltpf.c", "src/tables.c"],
  [("lc3_ltpf_synthesize", "src/ltpf.c"), ("synthesize_template", "src/ltpf.c")],
  "Case split on the transition and position in the ring. Quick tier: short frames of each samplerate, first and last positions; thorough: all configurations and positions. Position in the history: by impulses at any position, on the listed lags (bounded).")

P("P15", "Spectral coefficients written are read, residual, noise filling, and no value out of range",
  "The quantized spectral coefficients read by the decoder are those written by the encoder, in normal and high bitrate and LSB modes, whatever their magnitude and the previous coefficients; the bits of the LSB mode restore the values; the residual bits, read where they have been written, bring the values closer to the original. From any frame, the decoder sets each coded value, in range, and no other; the noise is added in the null lines of the bandwidth only, at the level of the noise factor; coefficients above the coded ones are null. A frame declared invalid changes nothing else.",
  ["inputs", "configurations"], "Values of the coefficients, modes, states of the coder",
  "Encoder and decoder have to stay in step for any series of values; tests compare with a few reference frames.",
  ["src/spec.c", "src/tables.c"],
  [("put_quantized", "src/spec.c"), ("get_quantized", "src/spec.c"), ("put_residual", "src/spec.c"), ("get_residual", "src/spec.c"), ("put_lsb", "src/spec.c"), ("get_lsb", "src/spec.c"), ("fill_noise", "src/spec.c"), ("lc3_spec_encode", "src/spec.c"), ("lc3_spec_decode", "src/spec.c")],
  "The bitstream is the contract of P08 (two ordered streams, of bits and symbols). The coding of a pair depends on the two previous ones: the harness proves the pair after representatives of the states (bounded).")

P("P16", "Rate control: bits counted are those written, in the budget, gains in range",
  "The number of bits computed for a spectrum is the one its coding takes (never less, in the LSB mode), the cost of each symbol being exactly the one of its probability. The spectrum is truncated on a significant pair to stay in the budget, which is what is left by the side data in the frame. The global gain index stays in 0..255 and above the limit preventing saturation, it is increased when the budget is exceeded and only then, and the state of the bit reservoir stays bounded.",
  ["inputs", "histories", "configurations"], "All spectrums, budgets and states of the rate control",
  "An underestimated cost overflows the frame for particular spectrums only.",
  ["src/spec.c", "src/tables.c"],
  [("compute_nbits", "src/spec.c"), ("adjust_gain", "src/spec.c"), ("estimate_gain", "src/spec.c"), ("quantize", "src/spec.c"), ("lc3_spec_analyze", "src/spec.c")],
  "Pairs after representatives of the states (bounded). Estimation of the gain with arbitrary conversions to dB and from the gain index (contracts), two non null lines.")

P("P17", "Packet loss concealment: level and schedule of the attenuation",
  "A lost frame repeats the last good spectrum, line by line, with signs drawn from the pseudo-random generator and a level attenuated by 1 for the first three lost frames, then 0.9 until the seventh, then 0.85; the level never increases along lost frames, however many, and a good frame restores the full level. Nothing else is modified.",
  ["inputs", "histories"], "Any number of lost frames, any spectrum",
  "The tests lose a few frames only; the schedule depends on the count of consecutive losses.",
  ["src/plc.c"],
  [("lc3_plc_synthesize", "src/plc.c"), ("lc3_plc_suspend", "src/plc.c"), ("lc3_plc_reset", "src/plc.c")],
  "Single line spectrums of any value at any line; listed counts and levels for the full spectrum (bounded). The decoder's use of the concealment is P03.")

P("P18", "Bands of energy, bandwidth and attack detection",
  "For each configuration the bands partition the coded spectrum, in order. The energy of a band is the mean of the squares of its lines and no other, and the near Nyquist flag tells the energy of the last bands. The detected bandwidth is within the samplerate, never lower than a region with significant energy, and is the one of a content cut at a lower samplerate. The attack detector runs for the durations, samplerates and sizes of the specification only, and leaves its state unchanged elsewhere; it locates an attack, keeps it for a frame when it comes at the end, then releases it. None reads out of the bands, the frame and its 6 previous samples.",
  ["inputs", "histories", "configurations"], "All configurations and frame sizes, energies at two levels, impulses at each block, states of the detector",
  "Detectors influence only the quality, tests cover few configurations and signals.",
  ["src/energy.c", "src/bwdet.c", "src/attdet.c", "src/tables.c"],
  [("lc3_energy_compute", "src/energy.c"), ("lc3_bwdet_run", "src/bwdet.c"), ("lc3_attdet_run", "src/attdet.c"), ("lc3_band_lim", "src/tables.c")],
  "Single line spectrums for the energy, two levels of energy by band for the bandwidth, extreme signals and impulses for the attacks (bounded).")

P("P19", "Transforms and noise shaping are inverted by the decoder, within their buffers",
  "For each configuration, the inverse transform of the transform of a frame gives its samples back at the delay of the configuration, without altering the input, nor keeping any memory beyond the next frame; a change of samplerate keeps the energy. The temporal and spectral shapings of the decoder invert those of the encoder, whatever the orders of the filters. The temporal shaping is not applied near the Nyquist frequency, its coefficients, orders and weighting flag are those allowed by the format, and the first lines are not filtered. None of them accesses lines, bands or samples out of those of the frame, for any data read from a frame.",
  ["inputs", "configurations"], "Each configuration; any data of the shaping, any prediction coefficients, any spectrum for the extents",
  "Out of extent accesses are silent, and the tests compare each side to a reference on its own for few shapes.",
  ["src/mdct.c", "src/tns.c", "src/sns.c", "src/tables.c"],
  [("lc3_mdct_forward", "src/mdct.c"), ("lc3_mdct_inverse", "src/mdct.c"), ("lc3_tns_analyze", "src/tns.c"), ("lc3_tns_synthesize", "src/tns.c"), ("lc3_sns_analyze", "src/sns.c"), ("lc3_sns_synthesize", "src/sns.c")],
  "Extents: complete, as the operations of the transforms do not depend on the values; inversion on given signals (bounded). Short frames in quick tier.")

P("P21", "Files of the tools: header and blocks read are those written, and wrong files are rejected",
  "The header of a LC3 binary file, and of a Wave file, written by the tools is read back with the same parameters, and leaves the position on the first block or sample. A file is rejected when and only when its identifiers, size or format are not valid, with the optional statements and extensions skipped. A block of data written is the one read; a block which is not complete or larger than the buffer of the channels is rejected, and nothing is read nor written beyond it. Only the samples asked for are written and read.",
  ["inputs"], "Any content of the headers and blocks, any parameters in the range of the formats",
  "No test runs the tools; files out of the ordinary are met in the field only.",
  ["tools/lc3bin.c", "tools/wave.c"],
  [("lc3bin_read_header", "tools/lc3bin.c"), ("lc3bin_read_data", "tools/lc3bin.c"), ("lc3bin_write_header", "tools/lc3bin.c"), ("wave_read_header", "tools/wave.c"), ("wave_write_header", "tools/wave.c")],
  "The functions of the C library on files are taken by their contract, over an array of bytes. Listed sizes of Wave frames, short blocks (bounded). The size of the Wave data is assumed to be under 2^31 bytes.")

P("P22", "Fast mathematical functions are exact or within their documented accuracy",
  "The scaling by a power of two is exact, keeps the sign, and gives a null value when too small; the split in fraction and exponent is exact, and reversed by the scaling. The power of two, logarithms and decibels approximations are within their documented accuracy over their documented range.",
  ["inputs"], "All finite floats for the exact functions; the nodes of the tables at all exponents for the others",
  "Limits of exponents are not reached by the signals of the tests.",
  ["src/fastmath.h"],
  [("lc3_ldexpf", "src/fastmath.h"), ("lc3_frexpf", "src/fastmath.h"), ("lc3_exp2f", "src/fastmath.h"), ("lc3_log2f", "src/fastmath.h"), ("lc3_db_q16", "src/fastmath.h")],
  "Accuracy on listed values (bounded).")

P("P90", "Decoded audio approximates the input within the codec's transparency",
  "The decoded audio of an encoded signal is perceptually close to the input at the bitrates recommended by the specification.",
  ["inputs"], "All PCM signals", "Audio quality is statistical.",
  ["src/mdct.c", "src/spec.c", "src/sns.c"], [("whole codec", "src")], "",
  na="Audio quality of a chain of float transforms has no contract within reach of a deductive verifier: there is no functional specification of 'close', and floating-point MDCT reconstruction error bounds are out of reach of CBMC.")

P("P91", "SIMD implementations compute the same as the portable C code",
  "The Neon and ARM implementations of the inner loops return the same values as the portable C implementation.",
  ["inputs", "configurations"], "All inputs of the optimized functions", "The Arm paths are not built on this host.",
  ["src/mdct_neon.h", "src/ltpf_neon.h", "src/ltpf_arm.h"], [("neon variants", "src/*_neon.h")], "",
  na="The Arm intrinsics have no semantics in the verifiers at hand, and are not built on this x86_64 host (the tests build the Neon headers with an emulation of the intrinsics, which would be what is verified).")

P("P92", "C++ and Python wrappers pass frames unaltered",
  "The C++ and Python wrappers give the same result as the C interface, for each sample type and number of channels.",
  ["inputs"], "All PCM formats and channel counts", "Wrappers are not tested.",
  ["include/lc3_cpp.h", "python/lc3.py"], [("Decoder::Decode", "include/lc3_cpp.h"), ("Encoder.encode", "python/lc3.py")], "",
  na="CBMC's C++ front end does not support the templates and standard library of lc3_cpp.h, and no deductive verifier for Python is installed; two defects found by reading were fixed.")
