#!/usr/bin/env python3
"""Writes properties.jsonl, checks/props.json and MANIFEST.json from one table."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "visqol-rs/src/"
C = "visqol/src/"
P = []


def p(id, title, statement, over, text, why, files, mech, fns, observe=None, cli=False, modules=(), note="", assumptions=(), level="proof", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, fns=fns,
                  observe=observe or [], cli=cli, modules=list(modules), note=note, assumptions=list(assumptions), level=level, hook=hook))


VQ, CPS, GFB, GSB = "visqol::", "comparison_patches_selector::ComparisonPatchesSelector::", "gammatone_filterbank::GammatoneFilterbank::", "gammatone_spectrogram_builder::GammatoneSpectrogramBuilder::"
FPM = "the standard model of floating-point rounding for +, -, ×, ÷ on moderate values, and exactness of integers, floor, ceil, round and scaling by powers of two below 2^53 (axioms of `fp` in specs/prelude.rs, exercised by the replay p25)"
PIPE = ["precondition `overlap`: a degraded signal shorter than half of the reference shares at least one sample with it after global alignment (longer ones are proved to: lemma_comparable)",
  "precondition `sane`: every patch similarity is a number of magnitude at most 2 (implied by the measure for finite spectrograms)",
  "preconditions on sizes: at most 2^27 samples, sampling rate at least 50 Hz (the hop of the analysis window is then at least one sample)", FPM]
VM = "visqol_manager::VisqolManager::"
CLI = ["clap's derive enforces the rules its attributes state (requires, conflicts_with, required_unless_present, defaults, names); they are read from the source on every run, but not clap itself",
  "the csv reader (its records per path and settings), serde's derived reading of a row by header, and the logger are trusted; an `Err` returned by `main` gives a non-zero exit status"]
AU, MU, FM, FF = "audio_utils::", "math_utils::", "fft_manager::FftManager::", "fast_fourier_transform::"

p("P01", "Overall score follows from the band similarities",
  "The overall score of a comparison is the configured quality mapping applied to the per-band similarities it reports, and the reported overall similarity is the mean of those bands. When that overall similarity is below 0.15 the score is exactly 1.0, whatever the mapping says. Scores of the speech and the audio mapping always lie between 1 and 5.",
  ["inputs", "configurations"], "every pair of recordings, both modes, every mapping", "Tests compare the score of a few recordings with stored numbers; they never reach the dissimilar regime or vary the mapping.",
  [L + "visqol.rs", L + "similarity_result.rs"], [("dissimilar signals", L + "visqol.rs:alter_for_similarity_extremes"), ("prediction", L + "visqol.rs:predict_mos"), ("pipeline", L + "visqol.rs:calculate_similarity")],
  [VQ + "calculate_similarity", VQ + "predict_mos", VQ + "alter_for_similarity_extremes", "similarity_result::SimilarityResult::new"], ["similarity result"], assumptions=PIPE)

p("P02", "Reported statistics aggregate the patch results",
  "For every band the reported similarity and degraded energy are the arithmetic means over all patches, and the reported deviation is the pooled deviation of all frames given each patch's mean, deviation and number of frames, never negative. The reported centre frequencies belong to the bands in ascending order of frequency and the patch list is the one the statistics were computed from.",
  ["inputs"], "every list of patch results and every comparison", "Tests use at most a handful of stored values of one recording pair; the pooled deviation of patches of unequal length is never checked.",
  [L + "visqol.rs"], [("means", L + "visqol.rs:calc_per_patch_mean_freq_band_means"), ("deviation", L + "visqol.rs:calc_per_patch_mean_freq_band_std_devs"), ("energy", L + "visqol.rs:calc_per_patch_mean_freq_band_degraded_energy")],
  [VQ + "calculate_similarity", VQ + "calc_per_patch_mean_freq_band_means", VQ + "calc_per_patch_mean_freq_band_std_devs", VQ + "calc_per_patch_mean_freq_band_degraded_energy", VQ + "calculate_frame_duration", "similarity_result::SimilarityResult::new"], ["similarity result"], assumptions=PIPE)

p("P03", "Similarity to quality mappings",
  "In speech mode the score is the fitted exponential of the mean band similarity, clamped to the range 1 to 5, and in scaled mode multiplied so that perfect similarity maps to 5 before clamping. In audio mode the score is the prediction of the support vector model loaded from the given file on the band similarities, clamped to the range 1 to 5.",
  ["inputs", "configurations"], "every vector of band similarities, scaled and unscaled, every model", "Tests sample three inputs of the speech mapping and one of the model.",
  [L + "speech_similarity_to_quality_mapper.rs", L + "svr_similarity_to_quality_mapper.rs", L + "support_vector_regression_model.rs", L + "math_utils.rs"],
  [("speech mapping", L + "speech_similarity_to_quality_mapper.rs:predict_quality"), ("audio mapping", L + "svr_similarity_to_quality_mapper.rs:predict_quality"), ("exponential fit", L + "math_utils.rs:exponential_from_fit")],
  ["speech_similarity_to_quality_mapper::SpeechSimilarityToQualityMapper::new", "speech_similarity_to_quality_mapper::SpeechSimilarityToQualityMapper::predict_quality", "svr_similarity_to_quality_mapper::SvrSimilarityToQualityMapper::new", "svr_similarity_to_quality_mapper::SvrSimilarityToQualityMapper::predict_quality", "support_vector_regression_model::SupportVectorRegressionModel::new", "support_vector_regression_model::SupportVectorRegressionModel::predict", MU + "exponential_from_fit"], ["predicted quality"])

p("P04", "Recordings are read faithfully or rejected",
  "Loading a 16-bit WAV recording yields, for every frame, the mean over the channels of the samples divided by 32767, at the sample rate in the header, with no frame lost or reordered and any channel count from one up. A file that is missing, not 16-bit integer PCM, or damaged part-way is reported as an error, never as a shorter or different signal.",
  ["inputs"], "every WAV file", "Tests load two valid files and one missing file.",
  [L + "wav_reader.rs", L + "audio_utils.rs", L + "audio_signal.rs"], [("reader", L + "wav_reader.rs:open"), ("deinterleaving", L + "audio_utils.rs:extract_multichannel"), ("down-mix", L + "audio_utils.rs:to_mono_matrix"), ("conversion", L + "math_utils.rs:normalize_int16_to_double")],
  ["wav_reader::WavFile::open", AU + "load_as_mono", AU + "extract_multichannel", AU + "to_mono_matrix", MU + "normalize_int16_to_double", "audio_signal::AudioSignal::new", "audio_signal::AudioSignal::len", "audio_signal::AudioSignal::is_empty", "audio_signal::AudioSignal::get_duration"], ["loaded signal"])

p("P05", "Level matching of the degraded signal",
  "Before comparison the degraded signal is multiplied by one constant gain that gives it the sound pressure level of the reference, keeping its length and sample rate. The sound pressure level is 20 log10 of the root mean square relative to 20 micropascal. A silent degraded signal is passed on unchanged, and the inputs are not modified.",
  ["inputs"], "every pair of signals", "Tests check one recording pair's level.",
  [L + "audio_utils.rs"], [("gain", L + "audio_utils.rs:scale_to_match_sound_pressure_level"), ("level", L + "audio_utils.rs:calculate_sound_pressure_level")],
  [AU + "scale_to_match_sound_pressure_level", AU + "calculate_sound_pressure_level", "audio_signal::AudioSignal::new", "visqol::calculate_similarity"], ["scaled signal"], assumptions=PIPE)

p("P06", "Transform sizes, zero extension and inversion",
  "Signals are transformed at a power-of-two size that is the smallest one not below their length, floored at the minimum size, after extension with zeros. Transforming back restores the samples in order, with the scaling undone, for every length from one sample up. Spectra have exactly as many bins as the transform size.",
  ["inputs"], "every signal length and content", "Tests transform a few fixed vectors and never sweep lengths around powers of two.",
  [L + "fft_manager.rs", L + "fast_fourier_transform.rs", L + "math_utils.rs"], [("size", L + "math_utils.rs:next_pow_two"), ("plans and padding", L + "fft_manager.rs"), ("transforms", L + "fast_fourier_transform.rs")],
  [MU + "next_pow_two", FM + "new", FM + "freq_from_time_domain", FM + "time_from_freq_domain", FM + "apply_reverse_fft_scaling", FF + "forward_1d_from_matrix", FF + "forward_1d_from_points", FF + "inverse_1d", FF + "inverse_1d_conj_sym", AU + "float_vec_to_real_valued_complex_vec", AU + "real_valued_complex_vec_to_float_vec"], ["spectra and restored signals"],
  assumptions=["the discrete Fourier transform computed by rustfft/realfft is an uninterpreted function of size and input; that forward and inverse undo each other up to the scale is assumed from those crates"])

p("P07", "Upper envelope of a signal",
  "The envelope used for alignment has the length of the input, and each sample is the input's mean plus the magnitude derived from the one-sided spectrum of the mean-free input; an empty input yields no envelope. The one-sided spectrum keeps the constant once, doubles the positive frequencies below half the transform size and drops the negative ones. The frequency at half the transform size is kept once exactly when the signal fills the transform; all this for every length from one sample up, whether or not a power of two.",
  ["inputs"], "every signal", "Tests compare the first samples of one recording's envelope.",
  [L + "envelope.rs"], [("analytic signal", L + "envelope.rs:calculate_hilbert"), ("envelope", L + "envelope.rs:calculate_upper_env")],
  ["envelope::calculate_upper_env", "envelope::calculate_hilbert", FF + "forward_1d_from_matrix", FF + "inverse_1d"], ["envelope"])

p("P08", "Lag of the strongest cross-correlation",
  "The lag between two signals is the one whose full linear cross-correlation has the largest absolute value among all lags from minus the longer length plus one to the longer length minus one. A signal delayed by some samples against itself is found at exactly that lag, and circular wrap-around never contributes.",
  ["inputs"], "every pair of signals, equal or unequal in length", "Tests use two recordings and two short fixed vectors.",
  [L + "xcorr.rs"], [("lag search", L + "xcorr.rs:calculate_best_lag"), ("correlation", L + "xcorr.rs:calculate_inverse_fft_pointwise_product"), ("transform size", L + "xcorr.rs:frexp")],
  ["xcorr::calculate_best_lag", "xcorr::calculate_inverse_fft_pointwise_product", "xcorr::calculate_fft_pointwise_product", "xcorr::frexp", FF + "forward_1d_from_points", FF + "inverse_1d_conj_sym"], ["lag"])

p("P09", "Global alignment of the degraded signal",
  "When the envelopes are best correlated at a lag of zero, or at one larger than half the reference, the degraded signal is returned unchanged with a delay of zero. Otherwise a late degraded signal loses exactly the lag in leading samples and an early one is preceded by exactly that many zeros, all its other samples being kept in order, and the reported delay is the lag over the sample rate.",
  ["inputs"], "every pair of signals", "Tests align one recording pair and one shifted copy.",
  [L + "alignment.rs"], [("alignment", L + "alignment.rs:globally_align")],
  ["alignment::globally_align", "audio_signal::AudioSignal::new"], ["aligned signal and delay"], modules=["envelope", "xcorr"])

p("P10", "Alignment and truncation to a common span",
  "After alignment and truncation both signals have the same length, and sample i of one corresponds in time to sample i of the other. Padding introduced by a positive delay is cut from both signals to the exact sample, and an excess of the reference is cut at its end.",
  ["inputs"], "every pair of signals", "Tests check lengths for one recording pair.",
  [L + "alignment.rs"], [("truncation", L + "alignment.rs:align_and_truncate")],
  ["alignment::align_and_truncate", "alignment::globally_align"], ["both signals and delay"])

p("P11", "Gammatone spectrogram of a signal",
  "The spectrogram has one column per complete analysis frame at the configured hop and one row per band in ascending centre frequency; each entry is the root mean square of that band's filter output over exactly that frame's samples. Every frame starts from cleared filter state, so no frame depends on another or on signals analysed before. A signal shorter than one frame is an error.",
  ["inputs", "histories"], "every signal, window and band count, and every sequence of uses of a builder", "Tests compare the shape and a few entries of one recording's spectrogram built once.",
  [L + "gammatone_spectrogram_builder.rs", L + "gammatone_filterbank.rs", L + "analysis_window.rs"], [("frames", L + "gammatone_spectrogram_builder.rs:build"), ("state reset", L + "gammatone_filterbank.rs:reset_filter_conditions"), ("window", L + "analysis_window.rs:new")],
  [GSB + "build", GSB + "new", GFB + "reset_filter_conditions", GFB + "apply_filter", "analysis_window::AnalysisWindow::new", "spectrogram::Spectrogram::new"], ["spectrogram"],
  assumptions=["rows are proved to be the bands in reverse order of make_filters; that this is ascending in frequency follows from P28's descending design, checked numerically by the bounded replay only"])

p("P12", "Recursive filtering and filter state",
  "Every filter section computes the direct form II transposed difference equation sample by sample from the state left by the previous call, so filtering a signal in consecutive pieces gives the same output as filtering it at once. The filterbank runs every band's four sections in cascade, one state per band and section, and a reset clears all of them.",
  ["inputs", "histories"], "every signal, coefficient set and sequence of calls", "Tests filter one impulse and ten samples from zero state.",
  [L + "signal_filter.rs", L + "gammatone_filterbank.rs"], [("section", L + "signal_filter.rs:filter_signal"), ("cascade", L + "gammatone_filterbank.rs:apply_filter"), ("coefficients", L + "gammatone_filterbank.rs:set_filter_coefficients")],
  ["signal_filter::filter_signal", GFB + "apply_filter", GFB + "new", GFB + "reset_filter_conditions", GFB + "set_filter_coefficients"], ["filter output and state"])

p("P13", "Preparation of the two spectrograms",
  "Both spectrograms are converted to decibels with zero power replaced by the smallest representable step, raised to the absolute floor, and then raised frame by frame to a floor relative to the louder of the two frame peaks, for as many frames as both have. Afterwards one common minimum is subtracted from both, so that the smallest remaining value of the two is zero.",
  ["inputs"], "every pair of spectrograms, equal or unequal in length", "Tests check a 2x2 matrix and the minimum of one recording pair.",
  [L + "spectrogram.rs", L + "audio_utils.rs"], [("preparation", L + "audio_utils.rs:prepare_spectrograms_for_comparison"), ("floors", L + "spectrogram.rs:raise_floor_per_frame"), ("decibels", L + "spectrogram.rs:convert_to_db")],
  [AU + "prepare_spectrograms_for_comparison"] + ["spectrogram::Spectrogram::" + x for x in ("convert_to_db", "get_minimum", "raise_floor", "raise_floor_per_frame", "subtract_floor", "new")] + ["visqol::calculate_similarity"], ["prepared spectrograms"], assumptions=PIPE)

p("P14", "Voice activity labels",
  "A chunk is active exactly when its root mean square on the 16-bit scale reaches the threshold; a quiet chunk is still labelled active until the configured number of consecutive quiet chunks has been seen, and one active chunk ends a quiet run. Labels come in the order of the chunks, one per chunk, after the two initial active labels.",
  ["histories", "inputs"], "every sequence of chunks", "Tests feed two short sequences.",
  [L + "rms_vad.rs"], [("decision", L + "rms_vad.rs:process_chunk"), ("hangover", L + "rms_vad.rs:check_previous_chunks_for_silence"), ("level", L + "rms_vad.rs:calc_root_mean_square")],
  ["rms_vad::RmsVad::" + x for x in ("default", "process_chunk", "check_previous_chunks_for_silence", "calc_root_mean_square", "get_vad_results")], ["labels"])

p("P15", "Reference patches of the speech mode",
  "Speech patches lie on the regular grid of patch lengths that starts at the first second patch of the spectrogram and never reach beyond it; a patch is used exactly when at least one of its frames has voice activity, judged on the reference scaled so that its largest sample is one. A reference with too few frames for one patch is an error, and every returned patch is the exact block of the spectrogram at its index.",
  ["inputs"], "every reference signal and spectrogram", "Tests check the patch indices of one recording.",
  [L + "vad_patch_creator.rs", L + "rms_vad.rs", L + "math_utils.rs"], [("patch choice", L + "vad_patch_creator.rs:create_ref_patch_indices"), ("activity", L + "vad_patch_creator.rs:get_voice_activity"), ("extraction", L + "vad_patch_creator.rs:create_patches_from_indices")],
  ["vad_patch_creator::VadPatchCreator::" + x for x in ("new", "create_ref_patch_indices", "get_voice_activity", "create_patches_from_indices")] + ["rms_vad::RmsVad::" + x for x in ("default", "process_chunk", "check_previous_chunks_for_silence", "calc_root_mean_square", "get_vad_results")] + [MU + "normalize_signal", MU + "get_max"], ["patch indices and patches"])

p("P16", "Reference patches of the audio mode",
  "Audio patches start one frame before half a patch into the spectrogram and follow each other at the patch length without gaps, up to the limit that leaves room for a complete patch; none reaches beyond the spectrogram. A spectrogram too short for one patch is an error, and every returned patch is the exact block of the spectrogram at its index.",
  ["inputs"], "every spectrogram length and patch size", "Tests check the indices of two lengths.",
  [L + "image_patch_creator.rs", L + "patch_creator.rs"], [("grid", L + "image_patch_creator.rs:create_ref_patch_indices_from_spectrogram"), ("extraction", L + "image_patch_creator.rs:create_patches_from_indices")],
  ["image_patch_creator::ImagePatchCreator::" + x for x in ("new", "create_ref_patch_indices", "create_ref_patch_indices_from_spectrogram", "create_patches_from_indices")], ["patch indices and patches"])

p("P17", "Smoothing with a replicated border",
  "Every output element is the weighted sum of the nine input elements around it, where elements outside the input equal the nearest edge element, and the output has the shape of the input. The input is not modified.",
  ["inputs"], "every matrix and every window of weights", "Tests convolve one 4x4 matrix.",
  [L + "convolution_2d.rs"], [("border", L + "convolution_2d.rs:add_matrix_boundary"), ("convolution", L + "convolution_2d.rs:perform_valid_2d_conv_with_boundary")],
  ["convolution_2d::" + x for x in ("perform_valid_2d_conv_with_boundary", "add_matrix_boundary", "copy_matrix_within_padding", "flatten_matrix")], ["convolved matrix"])

p("P18", "Similarity of two patches",
  "The similarity of two patches is the neurogram similarity index: the product of the luminance and the structure comparison of their smoothed local means, variances and covariance, averaged per band and over all bands. Per band the result also carries the deviation of that similarity over the frames and the mean energy of the degraded patch. The measure never modifies or depends on anything but the two patches and the intensity range.",
  ["inputs"], "every pair of patches of equal shape", "Tests compare two fixed patch pairs with stored values.",
  [L + "neurogram_similiarity_index_measure.rs", L + "convolution_2d.rs", L + "patch_similarity_comparator.rs"], [("similarity", L + "neurogram_similiarity_index_measure.rs:measure_patch_similarity")],
  ["neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure::" + x for x in ("measure_patch_similarity", "new", "default")] + ["patch_similarity_comparator::PatchSimilarityResult::" + x for x in ("new", "default")] + ["convolution_2d::" + x for x in ("perform_valid_2d_conv_with_boundary", "add_matrix_boundary", "copy_matrix_within_padding", "flatten_matrix")], ["patch similarity result"])

p("P19", "Best assignment of degraded patches",
  "The matches reported are traced back from the largest cumulative similarity of the last matchable patch inside its search window, and no choice of degraded positions for the matchable reference patches that keeps their order, stays inside each search window and starts within the degraded spectrogram has a larger total similarity than that. Each reported patch carries the similarity of exactly that pair and the start and end times of both patches, a patch's time being its first frame times the distance between the frames of the spectrogram; a reference patch without a match has similarity zero and zero degraded times.",
  ["inputs", "configurations"], "every pair of spectrograms, list of reference patches and search window", "Tests match a few constructed patches and one recording pair.",
  [L + "comparison_patches_selector.rs", L + "visqol.rs"], [("matching", L + "comparison_patches_selector.rs:find_most_optimal_deg_patches"), ("step", L + "comparison_patches_selector.rs:find_most_optimal_deg_patch"), ("frame distance", L + "visqol.rs:calculate_similarity")],
  [CPS + x for x in ("new", "find_most_optimal_deg_patches", "find_most_optimal_deg_patch", "calc_max_num_patches", "build_degraded_patch")] + [VQ + "calculate_similarity", VQ + "calculate_frame_duration"], ["patch matches"],
  assumptions=["every patch similarity is a number of magnitude at most 2 (implied by the measure for finite spectrograms)", "rounded addition is monotone (ax_add_mono), a fact of IEEE 754 that Z3 does not decide in ten minutes"])

p("P20", "One step of the patch matching",
  "For one reference patch, every degraded position inside its search window gets the similarity of that pair plus the largest cumulative similarity of the preceding patch among the strictly earlier positions from the start of that patch's window, or the preceding patch's own cumulative similarity at the same position when that is larger. The predecessor recorded is the one that value came from, the latest among equals, and positions outside the window or the degraded signal are left untouched.",
  ["inputs", "histories"], "every cumulative table, window and spectrogram", "Tests reach it only through a few complete matchings.",
  [L + "comparison_patches_selector.rs"], [("step", L + "comparison_patches_selector.rs:find_most_optimal_deg_patch")],
  [CPS + "find_most_optimal_deg_patch", CPS + "build_degraded_patch"], ["cumulative table and predecessors"], hook="verif re-export of private module")

p("P21", "Reference patches beyond the degraded signal",
  "A trailing reference patch takes part in the matching exactly when its start less half a patch lies within the degraded spectrogram; later ones are dropped with their indices, and every other patch is kept in order. When none remains the comparison is refused as too different.",
  ["inputs"], "every list of patch positions and degraded length", "Tests count patches for two lists.",
  [L + "comparison_patches_selector.rs", L + "visqol_error.rs"], [("count", L + "comparison_patches_selector.rs:calc_max_num_patches"), ("drop", L + "comparison_patches_selector.rs:find_most_optimal_deg_patches")],
  [CPS + "calc_max_num_patches", CPS + "find_most_optimal_deg_patches"], ["matched patches or error"])

p("P22", "Extraction of a time span or degraded patch",
  "Cutting a time span from a signal returns exactly the samples between the start and end time, each truncated to a whole sample, with zeros for the part before the signal starts and, up to the end time, after it ends. A degraded patch at a position returns exactly those spectrogram columns, with zero columns where the spectrogram has ended.",
  ["inputs"], "every signal, spectrogram and span", "Tests slice one signal at two spans.",
  [L + "comparison_patches_selector.rs"], [("time span", L + "comparison_patches_selector.rs:slice"), ("patch", L + "comparison_patches_selector.rs:build_degraded_patch")],
  [CPS + "slice", CPS + "build_degraded_patch", "audio_signal::AudioSignal::new", "audio_signal::AudioSignal::get_duration"], ["span or patch"])


p("P23", "Realignment of the matched patches",
  "Every matched pair is aligned again on the audio of its two time spans, its spectrogram patches are rebuilt and prepared from that audio, and the realigned result replaces the first one unless its similarity is smaller, with the start time of whichever patch starts later moved by the lag found. Lost patches are passed on untouched, the order and number of patches never change, and neither signal is modified.",
  ["inputs"], "every pair of signals and list of matched patches", "Tests realign two recordings and check one similarity and the number of patches.",
  [L + "comparison_patches_selector.rs", L + "alignment.rs"], [("realignment", L + "comparison_patches_selector.rs:finely_align_and_recreate_patches"), ("time span", L + "comparison_patches_selector.rs:slice"), ("alignment", L + "alignment.rs:align_and_truncate")],
  [CPS + "finely_align_and_recreate_patches", CPS + "slice", "alignment::align_and_truncate", GSB + "build", AU + "prepare_spectrograms_for_comparison", "neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure::measure_patch_similarity", "visqol::calculate_similarity"], ["realigned patch results"],
  assumptions=["preconditions `usable`/`framed`: the patches' times lie inside both signals (proved of every comparison: lemma_timed)", PIPE[0]])

p("P24", "Comparisons are independent and repeatable",
  "The result of comparing two recordings depends only on their contents and the configuration: a comparator that was used before, in whatever order and whether or not earlier comparisons failed, gives bit for bit the result of a fresh one. The recordings passed in are never modified.",
  ["histories", "inputs"], "every sequence of comparisons on one comparator", "Tests use every comparator for one comparison.",
  [L + "visqol_manager.rs", L + "visqol.rs", L + "gammatone_filterbank.rs"], [("pipeline", L + "visqol_manager.rs:compute_results"), ("filter state", L + "gammatone_filterbank.rs:reset_filter_conditions"), ("comparison", L + "visqol.rs:calculate_similarity")],
  ["visqol_manager::VisqolManager::" + x for x in ("new", "run", "compute_results")] + [VQ + "calculate_similarity", GSB + "build", GSB + "new", GFB + "new", GFB + "set_filter_coefficients", GFB + "reset_filter_conditions", GFB + "apply_filter", "equivalent_rectangular_bandwidth::make_filters", "equivalent_rectangular_bandwidth::calculate_uniform_center_freqs"], ["similarity result"], assumptions=PIPE)

p("P25", "Unusable recordings are refused, usable ones scored",
  "Two recordings with different sample rates, one that cannot be loaded and one too short for the analysis are refused with an error that names the cause, never with a crash, a hang or a score. Whenever a comparison succeeds its score is a number from 1 to 5.",
  ["inputs", "configurations"], "every pair of recordings in both modes", "Tests compare five valid pairs and one pair of unequal rates.",
  [L + "visqol_manager.rs", L + "visqol_error.rs", L + "audio_utils.rs"], [("validation", L + "visqol_manager.rs:validate_input_audio"), ("loading", L + "audio_utils.rs:load_as_mono"), ("short signals", L + "gammatone_spectrogram_builder.rs:build")],
  ["visqol_manager::VisqolManager::" + x for x in ("run", "validate_input_audio", "compute_results")] + [AU + "load_as_mono", GSB + "build", "vad_patch_creator::VadPatchCreator::create_ref_patch_indices", "image_patch_creator::ImagePatchCreator::create_ref_patch_indices_from_spectrogram", CPS + "find_most_optimal_deg_patches"], ["error or score"], assumptions=PIPE)

p("P26", "Pairs compared by the command line program",
  "The program compares exactly the pair given by the two file options, or every row of the batch file in the order of the file, each once, in the mode, with the model and with the search radius given or their documented defaults. Missing, incomplete or contradictory options, an unreadable or malformed batch file and a pair that cannot be compared end it with an error and a non-zero status.",
  ["inputs", "configurations"], "every set of options and batch file", "Tests parse one batch file with two rows.",
  [C + "command_line_utils.rs", C + "main.rs", C + "path_pair.rs"], [("pairs", C + "command_line_utils.rs:build_file_pair_paths"), ("batch file", C + "command_line_utils.rs:read_files_to_compare"), ("comparison loop", C + "main.rs:run")],
  ["main::main", "main::run", "command_line_utils::build_file_pair_paths", "command_line_utils::read_files_to_compare", "path_pair::PathPair::new", VM + "new", VM + "run"], ["exit status and results"], cli=True,
  assumptions=CLI + PIPE)

p("P27", "What the command line program writes",
  "Every comparison is reported in the order of the pairs with its own file names and score on the console, in the results file, whose header names its columns, and in the debug file, to which results are appended as readable records without loss of precision. The verbose tables list every band and every patch of each comparison with the values of its result.",
  ["inputs", "configurations", "histories"], "every list of comparisons and set of output options, and every earlier content of the debug file", "No test covers the output.",
  [C + "output_utils.rs", L + "similarity_result.rs"], [("outputs", C + "output_utils.rs:write_results"), ("results file", C + "output_utils.rs:write_results_to_csv"), ("debug file", C + "output_utils.rs:write_debug_json"), ("tables", C + "output_utils.rs:write_patch_similarity")],
  ["main::main", "main::run"] + ["output_utils::" + x for x in ("write_results", "write_to_console", "write_debug_json", "write_results_to_csv", "write_fvnsim_table", "write_patch_similarity")] + [VM + "run"], ["console, results file, debug file"], cli=True,
  assumptions=CLI + PIPE + ["the text of one result (serde's derive and serde_json: `json_of`), of one number (Display, csv), of one csv record and the layout of a table are uninterpreted; that they can be read back without loss is checked by the bounded replay only",
   "a write that fails ends the program (`expect`); files named differently are different files; nothing else writes them meanwhile"])

p("P28", "Design of the auditory filters",
  "The centre frequencies are equally spaced on the equivalent rectangular bandwidth scale from the lower limit up to, not including, the upper limit or half the sampling rate if that is smaller, highest first. Each band's four filter sections are the gammatone sections for that centre frequency and sampling rate, normalised to unit gain at the centre frequency, and stable.",
  ["inputs", "configurations"], "every sampling rate, number of bands and frequency range", "Tests compare the coefficients for one configuration with stored values.",
  [L + "equivalent_rectangular_bandwidth.rs"], [("coefficients", L + "equivalent_rectangular_bandwidth.rs:make_filters"), ("spacing", L + "equivalent_rectangular_bandwidth.rs:make_filters")],
  ["equivalent_rectangular_bandwidth::" + x for x in ("make_filters", "calculate_uniform_center_freqs")], ["coefficients and centre frequencies"],
  assumptions=["the coefficient formulas are proved as IEEE expressions over uninterpreted exp/sin/cos/powf; that these formulas give unit gain at the centre frequency, stable sections and descending centre frequencies is checked numerically by the bounded replay only"])

json_props = []
BASE = json.load(open(V + "/checks/baseline.json"))
for x in P:
    # "proof" is claimed only when every repository function of the cone is under contract
    x["missing"] = [k for k in x["fns"] if k not in BASE]
    x["level"] = "proof" if x["fns"] and not x["missing"] else "exploration"
props = {}
for x in P:
    json_props.append({"id": x["id"], "title": x["title"], "statement": x["statement"],
                       "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                       "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                                   "observe_at": x["observe"], "hook_needed": x["hook"]}})
    props[x["id"]] = {"title": x["title"], "fns": x["fns"], "modules": x["modules"], "cli": x["cli"], "level": x["level"], "assumptions": x["assumptions"]}
open(V + "/properties.jsonl", "w").write("".join(json.dumps(j) + "\n" for j in json_props))
json.dump(props, open(V + "/checks/props.json", "w"), indent=1)
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if "visqol_verif" in c or "hook" in c.lower()]
NOTE = {"proof": "Every function of the property's cone carries a contract that Verus discharges on the code extracted from the current tree; float operations are uninterpreted IEEE terms and the contracts of std, ndarray, rustfft, hound and ffsvm items are assumed. A bounded replay on the real code (random inputs, not counted as proved) looks for failing inputs and covers functions whose proof no longer applies.",
        "exploration": "Bounded: seeded random inputs compared with an independent oracle on the real code. The functions of the cone that carry contracts are also discharged by Verus on every run and listed in the evidence."}
man = {"version": 1, "setup_cmd": "bash bin/setup",
       "hooks": {"guard": "cfg(visqol_verif)", "enable": "RUSTFLAGS='--cfg visqol_verif'", "source_commits": hooks},
       "checks": [{"property": x["id"], "quick_cmd": "bin/check %s --tier quick" % x["id"], "thorough_cmd": "bin/check %s --tier thorough" % x["id"],
                   "technique": ("deductive verification: Verus contracts on the extracted real code" if x["level"] == "proof" else
                                 "deductive verification (Verus contracts) of the functions within reach, bounded stand-in for the rest"),
                   "level": x["level"],
                   "level_note": x["note"] or NOTE[x["level"]] + (" Not under contract: " + ", ".join(x["missing"]) + "." if x["missing"] else "")} for x in P],
       "not_applicable": []}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", hooks)
