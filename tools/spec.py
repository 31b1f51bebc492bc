#!/usr/bin/env python3
"""The one source of properties.jsonl, checks.json and MANIFEST.json: run it after editing."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "visqol-rs/src/"
V = "visqol/src/"

CONF = ("Closed finite family enumerated completely through the public interface of the real library; every execution is "
        "compared with an independent reference model (harness crate, module model) of the whole algorithm.")
TRUST_MODEL = "The reference model in mc/src/model.rs states the algorithm correctly (it is compared with the implementation on every trace)."
TRUST_SMALL = "Small-scope hypothesis: defects show up within the enumerated segment words, lengths, rates and parameters."
TRUST_TOL = "Floating-point comparisons use tolerances (1e-9 within one report, about 1e-6 against the model); smaller deviations are not judged."

P = []


def prop(id, title, statement, over, q, why, files, mech, observe, rule, assume=(), level="model_checking", tech="", note="", state=(), seam=None, cli=False, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, observe=observe, rule=rule,
                  assume=list(assume), level=level, tech=tech, note=note, state=list(state), seam=seam, cli=cli, hook=hook))


prop("C01", "A score depends only on the two signals and the configuration",
     "Whatever comparisons an evaluator has performed before - of whatever signals, successful or failed, and however they were interleaved with comparisons on other evaluators - the next comparison of a given pair reports bit for bit what a newly started process with a newly built evaluator of the same configuration reports. "
     "Comparing never changes the signals or files it is given.",
     ["histories", "inputs"], "all sequences of comparisons (up to depth 3 quick, 4 thorough) on one evaluator and on interleaved evaluators, over an alphabet of good, failing, silent, short and differently sized pairs",
     "Tests run one comparison per freshly built evaluator and never reuse it; state left behind by filters, filter banks, buffers or failed comparisons only shows with particular predecessors.",
     [L + "visqol_manager.rs", L + "gammatone_filterbank.rs", L + "visqol.rs", L + "gammatone_spectrogram_builder.rs"],
     [("filter conditions are reset before every frame", L + "gammatone_filterbank.rs reset_filter_conditions"), ("evaluator parts built once, borrowed per run", L + "visqol_manager.rs compute_results")],
     ["VisqolManager::run", "VisqolManager::compute_results"],
     "every sequence over the job alphabet is executed on the real evaluator; a state is the (sequence suffix, full bit pattern of the report); baseline reports come from pristine child processes",
     ["Within one process on one machine floating-point evaluation is deterministic."],
     tech="explicit-state exploration of all operation sequences on the real evaluator", state=[("filter conditions", "recursive filter memory of the four cascaded filters", L + "gammatone_filterbank.rs")])

prop("C02", "Every reported number is finite and on its documented scale",
     "Every completed comparison reports only finite numbers: a score from 1 to 5, band and patch similarities of at most 1, per-band deviations that are not negative, and one entry per frequency band (21 in speech mode, 32 in audio mode) in every per-band list, with at least one patch. "
     "This holds for silent, constant, clipped, noisy, unrelated and truncated degraded signals as well.",
     ["inputs", "configurations"], "all words over eight segment kinds x all degradation sequences from the alphabet x modes x search radii x sample rates within the bounds",
     "Tests compare about a dozen recordings; NaN, infinities and out-of-range values arise from silence, constants and extreme levels that no recording contains.",
     [L + "visqol.rs", L + "similarity_result.rs", L + "neurogram_similiarity_index_measure.rs", L + "svr_similarity_to_quality_mapper.rs", L + "speech_similarity_to_quality_mapper.rs"],
     [("clamping of predictions", L + "svr_similarity_to_quality_mapper.rs"), ("stabilising constants of the index", L + "neurogram_similiarity_index_measure.rs"), ("absolute floor for silence", L + "spectrogram.rs convert_to_db")],
     ["SimilarityResult"], "cases are (word of segments, degradation sequence, mode, radius, rate); a state is the bit pattern of a distinct report",
     [TRUST_SMALL], tech="bounded-exhaustive exploration of signal words on the real code")

prop("C03", "Comparing a signal with itself is a perfect match",
     "Comparing any scorable signal with an identical copy reports a similarity of 1 in every patch and band (deviation 0), each patch matched with exactly its own interval, and the best score the mode's mapping gives. "
     "In speech mode no degraded version scores higher than the reference itself.",
     ["inputs", "configurations"], "all words over the segment kinds, all signal lengths within three patches, all modes, radii and sample rates in the bound; as samples and as files",
     "The tests contain two self-comparisons; alignment, matching and realignment each could shift a perfect copy for particular lengths, periodicities or silences.",
     [L + "alignment.rs", L + "comparison_patches_selector.rs", L + "neurogram_similiarity_index_measure.rs", L + "xcorr.rs"],
     [("lag 0 wins the correlation", L + "xcorr.rs calculate_best_lag"), ("realignment keeps the better version", L + "comparison_patches_selector.rs finely_align_and_recreate_patches")],
     ["SimilarityResult"], "cases are (word or length, mode, radius, rate); a state is a distinct report", [TRUST_SMALL, TRUST_TOL],
     tech="bounded-exhaustive exploration of signal words on the real code")

prop("C04", "File-level numbers follow from the reported patches",
     "In every report the band similarities are the means of the patches' band similarities, the degraded band energies the means of the patches' energies, the band deviations the pooled deviations of the patches' band means and deviations, and the overall similarity the mean of the band similarities. "
     "Each patch's similarity is the mean of its band means.",
     ["inputs"], "all words over segments x degradations x modes with one to 75 patches",
     "Tests compare the final score only; a wrong aggregate (weights, patch counts, the one-patch case) can leave the tested scores within their tolerance.",
     [L + "visqol.rs", L + "similarity_result.rs"], [("mean and pooled deviation over patches", L + "visqol.rs calculate_similarity")], ["SimilarityResult"],
     "a state is a distinct report; every report is one trace: the aggregates are recomputed from its own patches", [TRUST_SMALL, TRUST_TOL],
     tech="bounded-exhaustive exploration of reports against a model of the aggregation", seam="seam_c04")

prop("C05", "The playback level of the degraded signal does not matter",
     "Multiplying the degraded signal by any positive constant leaves every reported number unchanged up to rounding, because it is first brought to the sound pressure level of the reference. "
     "A rescaled copy of the reference is a perfect match.",
     ["inputs"], "all words x degradations x modes x gains from 0.001 to 10 within the bounds",
     "Tests use one fixed level; level handling fails for particular gains, silences and signal shapes.",
     [L + "audio_utils.rs", L + "visqol_manager.rs"], [("scaling to the reference's sound pressure level", L + "audio_utils.rs scale_to_match_sound_pressure_level")], ["SimilarityResult"],
     "pairs of executions, original and rescaled; a state is a distinct report", [TRUST_SMALL, TRUST_TOL],
     tech="bounded-exhaustive exploration of signal words x gains on the real code")

prop("C06", "A constant delay or advance is compensated before scoring",
     "If the degraded signal is delayed by any constant number of samples up to half the reference's length (silence in front) or has lost its beginning, the comparison is made on the realigned signals: the delay itself costs nothing and the reported times refer to the realigned signals. "
     "Delays beyond half the reference are left alone.",
     ["inputs"], "all delays and advances up to and beyond half the reference (every sample in small scopes) x words x modes x lengths x rates; at the internal interface every sparse signal pair up to a small length",
     "Two tests check the lag of one signal; padding, FFT sizes, sign and limits of the lag only fail at particular lengths and lags.",
     [L + "alignment.rs", L + "xcorr.rs", L + "envelope.rs", L + "fft_manager.rs", L + "fast_fourier_transform.rs", L + "math_utils.rs"],
     [("best lag of the envelopes' cross-correlation", L + "xcorr.rs calculate_best_lag"), ("limit of half the reference", L + "alignment.rs globally_align")], ["SimilarityResult", "globally_align (hook)"],
     "cases are (word, mode, rate, length, shift); a state is a distinct report; traces are compared with the undelayed comparison or the reference model", [TRUST_MODEL, TRUST_SMALL, TRUST_TOL],
     tech="bounded-exhaustive exploration of all shifts on the real code against a brute-force reference model", seam="seam_c06", hook="visqol_verif exposes the correlation and alignment functions")

prop("C07", "Patches are matched in order, inside the search window, optimally",
     "Each scored reference patch is matched with an equally long stretch of the degraded signal that starts at most the search radius (in patch lengths) before or after its own position, and of consecutive patches the later one is matched strictly later. "
     "Among all such assignments the total similarity of the matches is the largest possible, where a patch may be left unmatched (reported with interval 0 to 0 and similarity 0) if that keeps the total higher, and trailing patches that the degraded signal ends before are left out.",
     ["inputs", "configurations"], "all words x edit sequences (insertions, deletions, dropouts, swaps, truncation) x search radii 0,1,2,3,4,60 x modes up to 75 patches; at the internal interface all small spectrogram pairs",
     "Optimality is a statement about all assignments; tests compare single recordings with recorded scores and two hand-made matrices.",
     [L + "comparison_patches_selector.rs", L + "visqol.rs"],
     [("dynamic programme over frames with back-tracing", L + "comparison_patches_selector.rs find_most_optimal_deg_patches"), ("search window", L + "comparison_patches_selector.rs find_most_optimal_deg_patch")], ["SimilarityResult.patch_sims", "find_most_optimal_deg_patches (hook)"],
     "cases are (word, edit sequence, mode, radius); a state is a distinct list of matches; the model enumerates the assignments by an independent dynamic programme", [TRUST_MODEL, TRUST_SMALL, "Where two assignments agree within rounding, either is accepted."],
     tech="bounded-exhaustive exploration against an optimal-assignment model", seam="seam_c07", state=[("cumulative similarity table", "best total similarity of the first patches ending at a frame", L + "comparison_patches_selector.rs")], hook="visqol_verif exposes the patch selector")

prop("C08", "Reported patch intervals are real; realignment never lowers a patch",
     "Reported reference intervals are ordered, non-empty, inside the reference and last at most one patch and at least half of one; the degraded interval of a patch lies inside the delay-compensated degraded signal and lasts exactly as long as the reference interval. "
     "Every matched patch is realigned at sample precision; the realigned version is used exactly where it does not lower the patch's similarity, so a small jump in time inside the signal costs the patches behind it nothing.",
     ["inputs"], "all words x degradation sequences x modes x radii x rates; jumps of every number of samples below and beyond half a frame",
     "Tests never look at reported times; interval arithmetic goes wrong for single lags, rounding and the ends of signals.",
     [L + "comparison_patches_selector.rs", L + "alignment.rs"],
     [("per-patch realignment", L + "comparison_patches_selector.rs finely_align_and_recreate_patches"), ("cutting with zero padding", L + "comparison_patches_selector.rs slice")], ["SimilarityResult.patch_sims"],
     "cases are (word, degradations, mode, radius, rate); a state is a distinct list of intervals", [TRUST_MODEL, TRUST_SMALL, TRUST_TOL],
     tech="bounded-exhaustive exploration of signal words against the reference model", seam="seam_c08")

prop("C09", "Patch similarity is the neurogram similarity index",
     "The reported similarity, band means, band deviations and band energies of every patch are those of the neurogram similarity index (3x3 Gaussian-weighted local means, variances and covariance with the published constants, edge values repeated at the border) of the two matched spectrogram patches. "
     "The index of a patch with itself is 1 and never exceeds 1; exchanging the patches does not change it.",
     ["inputs"], "all words x degradation sequences within the bounds; at the internal interface all small matrices over a value alphabet",
     "Tests check one pair of matrices to a tolerance; borders, single rows and extreme values are not covered.",
     [L + "neurogram_similiarity_index_measure.rs", L + "convolution_2d.rs"], [("local statistics by convolution", L + "convolution_2d.rs"), ("intensity times structure", L + "neurogram_similiarity_index_measure.rs measure_patch_similarity")], ["SimilarityResult.patch_sims", "measure_patch_similarity (hook)"],
     "every patch is a trace compared with the directly computed index; a state is a distinct patch result", [TRUST_MODEL, TRUST_SMALL, TRUST_TOL],
     tech="bounded-exhaustive exploration against a direct model of the index", seam="seam_c09", hook="visqol_verif exposes the similarity measure")

prop("C10", "Speech scoring covers exactly the patches with voice activity",
     "In speech mode exactly those reference patches are scored that contain an active 20 ms chunk: one in which the reference, divided by its highest sample, has an RMS level of at least 5000/32768 of full scale, or either of the two chunks before it has; the first two chunks always count as active. "
     "The decision depends on the reference alone and not on its level; in audio mode every patch is scored.",
     ["inputs"], "all activity words over six patches, every start of an active stretch, levels around the threshold, sample rates; at the internal interface all chunk sequences up to length 12",
     "Tests count the patches of one recording; the decision depends on history of frames, thresholds and rounding of boundaries.",
     [L + "rms_vad.rs", L + "vad_patch_creator.rs", L + "image_patch_creator.rs"], [("voice activity with hold", L + "rms_vad.rs get_vad_results"), ("share of active frames per patch", L + "vad_patch_creator.rs create_ref_patch_indices")], ["SimilarityResult.patch_sims"],
     "cases are (activity pattern, level, rate); a state is a distinct set of scored patches", [TRUST_MODEL, TRUST_SMALL],
     tech="bounded-exhaustive exploration of activity patterns against an automaton model", seam="seam_c10", state=[("recent frame levels", "history of the hold rule", L + "rms_vad.rs")], hook="visqol_verif exposes the voice activity detector")

prop("C11", "Patches of the documented length cover the reference",
     "The reference is divided into consecutive patches of 20 frames (0.4 s) from frame 9 on in speech mode, as many as fit, and of 30 frames (0.6 s) from frame 14 on in audio mode, as many as end at least two frames before the end (at least one); the reported start of a patch is its frame number times the frame duration and its reported length the patch duration. "
     "References too short for one patch (29 frames in speech mode, 45 in audio mode) are refused with an error naming the number of frames found and needed.",
     ["inputs", "configurations"], "all reference lengths from below the minimum to four patches sample by sample, and the boundaries at further sample rates; at the internal interface all spectrogram widths x patch sizes",
     "Tests check one recording's indices; off-by-one errors need the boundary lengths.",
     [L + "image_patch_creator.rs", L + "vad_patch_creator.rs", L + "constants.rs", L + "analysis_window.rs"], [("patch indices", L + "image_patch_creator.rs create_ref_patch_indices")], ["SimilarityResult.patch_sims"],
     "cases are (mode, rate, length); a state is a distinct list of patch times", [TRUST_SMALL], tech="exhaustive exploration of lengths against a closed-form model", seam="seam_c11")

prop("C12", "Framing is 80 ms windows every 20 ms at every sample rate",
     "At every sample rate signals are analysed in 80 ms windows starting every 20 ms, each window on its own (what lies outside a window does not influence it), and samples that do not fill a further window are ignored. "
     "The value of a band in a frame is the root mean square of that band's filter output over the window.",
     ["inputs", "configurations"], "every signal length modulo the hop x sample rates from 100 Hz x modes; every incomplete last window; at the internal interface impulses in every position",
     "Tests use 48 kHz and 16 kHz recordings only; state carried between windows and rounding of window sizes at other rates stay invisible.",
     [L + "gammatone_spectrogram_builder.rs", L + "gammatone_filterbank.rs", L + "analysis_window.rs"], [("window and hop size", L + "analysis_window.rs"), ("filter reset per window", L + "gammatone_spectrogram_builder.rs build")], ["SimilarityResult", "spectrogram (hook)"],
     "cases are (length, rate, mode, word); a state is a distinct report", [TRUST_MODEL, TRUST_SMALL, TRUST_TOL], tech="bounded-exhaustive exploration of lengths and rates against a direct model", seam="seam_c12")

prop("C13", "Reported centre frequencies are those of the bands analysed",
     "The reported centre frequencies are the ascending ERB-spaced frequencies from 50 Hz to the upper limit (8 kHz in speech mode or half the sample rate if that is lower, half the sample rate in audio mode), and the n-th entry of every per-band list belongs to the n-th of them: a tone at a band's centre frequency shows its energy in that band.",
     ["inputs", "configurations"], "sample rates from 120 Hz x modes; a tone at the centre of every band x rates x modes",
     "Tests compare coefficients for one rate; an exchanged or reversed order of bands leaves averaged scores almost unchanged.",
     [L + "equivalent_rectangular_bandwidth.rs", L + "gammatone_spectrogram_builder.rs", L + "gammatone_filterbank.rs"], [("ERB spacing and filters", L + "equivalent_rectangular_bandwidth.rs make_filters"), ("order of bands", L + "gammatone_spectrogram_builder.rs build")], ["SimilarityResult.center_freq_bands", "fvdegenergy"],
     "cases are (rate, mode) and (rate, mode, band); a state is a distinct report", [TRUST_MODEL, TRUST_SMALL], tech="exhaustive exploration of bands and rates on the real code")

prop("C14", "What lies below the noise floor does not influence the comparison",
     "Spectrogram values below the absolute floor of -45 dB or more than 45 dB below the loudest value of either signal in the same frame are raised to that floor before patches are compared, in both signals alike. "
     "So disturbances far below the floor do not change any similarity, and digital silence is harmless.",
     ["inputs"], "all words with silent and quiet segments x disturbances from 180 dB below to above the signal x pair levels down to -120 dB; at the internal interface all small spectrogram pairs over a value alphabet",
     "Tests check three spectrogram cells; floors act on particular level relations between the two signals and frames.",
     [L + "audio_utils.rs", L + "spectrogram.rs"], [("absolute and per-frame floor, common minimum", L + "audio_utils.rs prepare_spectrograms_for_comparison"), ("per-frame floor", L + "spectrogram.rs raise_floor_per_frame")], ["SimilarityResult", "prepare_spectrograms_for_comparison (hook)"],
     "cases are (word, disturbance, mode, level); a state is a distinct report", [TRUST_MODEL, TRUST_SMALL, TRUST_TOL], tech="bounded-exhaustive exploration against the reference model", seam="seam_c14")

prop("C15", "Speech score is a fixed increasing function of the similarity",
     "In speech mode the score is a fixed non-decreasing function of the overall similarity, the published exponential fit limited to 1..5: with the scaled mapping a perfect similarity gives 5, with the unscaled mapping about 4.16. "
     "The choice of mapping changes the score only (by the same factor before limiting) and nothing else in the report.",
     ["inputs", "configurations"], "all words x degradation sequences x both mappings, all pairs of neighbouring similarities; at the internal interface a dense grid of similarities",
     "Tests check the score of 1.0; monotony and the two mappings' relation are statements about all similarities.",
     [L + "speech_similarity_to_quality_mapper.rs", L + "math_utils.rs", L + "visqol_manager.rs"], [("exponential fit and scaling", L + "speech_similarity_to_quality_mapper.rs predict_quality")], ["SimilarityResult.moslqo"],
     "cases are (word, degradations, mapping) and neighbouring similarities; a state is a distinct (similarity, score)", [TRUST_MODEL, TRUST_SMALL], tech="bounded-exhaustive exploration of the mapping on the real code", seam="seam_c15")

prop("C16", "Audio score is the given model's prediction, limited to 1..5",
     "In audio mode the score is the prediction of exactly the support vector model in the file the evaluator was built with, from the reported band similarities in their order, limited to 1..5. "
     "Evaluators with different model files do not influence one another.",
     ["inputs", "configurations", "histories"], "all model files of a family (constants around both limits, one model per band, widths, offsets, coefficients) x signal pairs; the shipped model over words x degradations; all sequences of uses of three evaluators",
     "Tests predict one observation with the shipped model; a clamped, reordered or cached prediction agrees with it.",
     [L + "support_vector_regression_model.rs", L + "svr_similarity_to_quality_mapper.rs", L + "visqol_manager.rs"], [("prediction and clamp", L + "svr_similarity_to_quality_mapper.rs predict_quality")], ["SimilarityResult.moslqo"],
     "cases are (model file, pair) and evaluator sequences; a state is a distinct (model, similarities, score)", ["The reference evaluation of a nu-SVR with RBF kernel in mc/src/model.rs.", TRUST_SMALL], tech="explicit-state exploration over model files and evaluator sequences")

prop("C17", "Wave files are decoded exactly, several channels to their mean",
     "Every well-formed 16-bit PCM wave file - whatever its header layout, extra chunks, sample rate and number of channels - is read as all its samples divided by the full scale, with several channels averaged frame by frame, and its declared sample rate. "
     "Other sample formats are refused, not misread.",
     ["inputs"], "all 65536 sample values on every channel of stereo; all sample words over {0,1,-1,max,min} of up to 6 samples on 1..3 channels; up to 32 channels; header layouts x channels x rates x lengths",
     "Tests load two recordings and compare lengths; wrap-around, rounding and channel order need particular values.",
     [L + "wav_reader.rs", L + "audio_utils.rs", L + "math_utils.rs"], [("conversion and mean of channels", L + "audio_utils.rs load_as_mono")], ["audio_utils::load_as_mono"],
     "a state is a distinct decoded signal; every file is a trace compared with its known contents", ["The harness's own wave writer produces well-formed files."], tech="exhaustive enumeration of sample words and header layouts against a direct decoder")

prop("C18", "Torn or corrupt wave files give an error or only real data",
     "Reading a wave file cut off at any byte, with any corrupted header byte, or with a wrong declared length ends - without a crash, hang or excessive memory - in an error, or in the samples that the header declares and the file contains. "
     "A comparison with an unreadable, torn or missing file ends in an error, never in a score of invented samples.",
     ["fault_sequences", "crash_points", "inputs"], "every truncation point of files in nine layouts x channels; every value of every header byte of five layouts; all pairs of header fields x boundary values; every declared x actual length up to 90 bytes",
     "No test reads a damaged file.",
     [L + "wav_reader.rs", L + "audio_utils.rs", L + "visqol_manager.rs"], [("errors of the reader are passed on", L + "audio_utils.rs load_as_mono")], ["audio_utils::load_as_mono", "VisqolManager::run"],
     "a case is one damaged file: every torn prefix, every single-byte corruption of the header, every field pair; it is non-trivial if the bytes differ from a good file and lead to a distinct (error kind or sample list)",
     ["What a header declares is judged by the harness's own lenient parser."], level="fault_enumeration", tech="exhaustive enumeration of torn and corrupted files against the real reader")

prop("C19", "Every pair of signals gets a score or the right reason why not",
     "Comparing any two signals of any length, level and sample rate with any search radius ends in a report or in an error that names the right reason (reference too short, sample rate too low, different sample rates, and so on), never in a crash or an endless loop. "
     "Which of the two happens depends on lengths and sample rate as documented by the reference model.",
     ["inputs", "configurations"], "all pairs of 50 lengths from 0 to 2000 samples x silence and noise x modes; every sample rate from 0 Hz and very high ones; radii up to the largest representable; extreme sample values",
     "Tests check one mismatch and one missing file; crashes sit at the boundary lengths, rates and radii.",
     [L + "visqol.rs", L + "visqol_manager.rs", L + "visqol_error.rs", L + "vad_patch_creator.rs", L + "image_patch_creator.rs", L + "gammatone_spectrogram_builder.rs", L + "comparison_patches_selector.rs"], [("length checks before analysis", L + "visqol_manager.rs"), ("errors instead of empty spectrograms", L + "gammatone_spectrogram_builder.rs build")], ["VisqolManager::compute_results"],
     "cases are (lengths, contents, mode, rate, radius); a state is a distinct (outcome kind, report)", [TRUST_MODEL, "Sample values are finite."], tech="bounded-exhaustive exploration of lengths, rates and radii on the real code")

prop("C20", "A batch scores every pair in order, as if alone, or outputs nothing",
     "The command line tool prints, and writes to its output files, exactly one result per pair of a batch, in batch order, each equal to what the library reports for that pair alone - whatever pairs precede it and however often pairs repeat. "
     "If any pair of the batch cannot be scored, it exits with an error, prints no scores and leaves existing output files untouched.",
     ["histories", "inputs", "fault_sequences"], "all batches of up to 4 pairs (5 thorough) over 4 distinct pairs; all batches of up to 3 pairs with one unscorable pair of any of six kinds at any position; single pairs of good and bad files; all modes",
     "No test runs the tool's comparisons; tests only parse one batch file.",
     [V + "main.rs", V + "command_line_utils.rs", V + "output_utils.rs", V + "path_pair.rs"], [("one evaluator over all pairs, output after the last", V + "main.rs run"), ("batch file", V + "command_line_utils.rs read_files_to_compare")], ["stdout, exit status, output files of the visqol tool"],
     "a case is one batch run as a process; a state is a distinct (batch, output)", ["Scores of single pairs come from the published library 0.3.1 the tool is built against."], tech="explicit-state exploration of all batches with the real tool", cli=True)

prop("C21", "The results file lists every pair with its names and score, readable",
     "The results file starts with the documented header reference,degraded,moslqo and has one row per compared pair, in order, whose file names - whatever characters they contain - and score read back exactly as given and printed. "
     "Whatever an existing file contained is replaced.",
     ["inputs", "histories"], "all pairs of 8 awkward file names, single and in batches; existing contents longer and shorter; feeding a results file back as a batch",
     "No test writes a results file.", [V + "output_utils.rs"], [("csv writer", V + "output_utils.rs")], ["results file of the visqol tool"],
     "a case is one run of the tool; a state is a distinct (names, existing contents)", ["File names are valid UTF-8."], tech="exhaustive enumeration of runs of the real tool", cli=True)

prop("C22", "The debug file keeps its contents and gains one full record per pair",
     "Over any history of runs - single pairs, batches, empty batches, failing runs, runs to another file - the debug file keeps everything it contained and gains exactly one complete JSON record per compared pair, in order, with every number of the comparison's report. "
     "Failing runs and runs without the option leave it untouched.",
     ["histories"], "all histories of up to 3 runs (4 thorough) of 7 kinds x 4 initial contents",
     "No test writes a debug file; appending is about sequences of runs.", [V + "output_utils.rs"], [("append mode, one record per comparison", V + "output_utils.rs")], ["debug file of the visqol tool"],
     "a case is one history of tool runs; a state is a distinct contents of the files after a step", ["Scores of single pairs come from the published library 0.3.1 the tool is built against."], tech="explicit-state exploration of all run histories with the real tool", cli=True)

prop("C23", "Arguments do what the help says; impossible combinations are refused",
     "Every combination of the tool's options is either refused with an error before anything is computed or written (a file without its partner, no subcommand, unreadable model or batch file, a search radius that is no number) or does what the help says: the chosen mode, mapping, model and search radius are used, exactly the requested files are written, and details are printed only with --verbose and then completely. "
     "A batch and single files are never mixed.",
     ["configurations"], "all subsets of the six file and verbosity options x 5 subcommand variants x search radii; valid and malformed radii; unusable models and batch files",
     "No test parses arguments; combinations are exponential in the options.", [V + "command_line_utils.rs", V + "main.rs", V + "output_utils.rs"], [("declared argument relations", V + "command_line_utils.rs CommandLineArgs")], ["stdout, exit status and files of the visqol tool"],
     "a case is one argument combination run as a process; a state is a distinct (combination, exit status)", ["Scores of single pairs come from the published library 0.3.1 the tool is built against."], tech="exhaustive enumeration of argument combinations with the real tool", cli=True)

prop("C25", "Every reported number agrees with an independent reference model",
     "For every pair of signals every reported number - score, overall and per-band similarities, deviations, energies, centre frequencies, patch times and patch similarities - agrees with an independently written reference of the algorithm (level alignment, global alignment, gammatone spectrograms, noise floors, patch selection, optimal matching, realignment, similarity index, quality mapping).",
     ["inputs", "configurations"], "all words over eight segment kinds x degradation sequences up to two x modes x radii x rates in the bound",
     "Recorded scores of a dozen recordings with tolerances up to 1e-2 accept many wrong algorithms.",
     [L + "visqol_manager.rs", L + "visqol.rs", L + "audio_utils.rs", L + "comparison_patches_selector.rs", L + "gammatone_spectrogram_builder.rs"], [("the pipeline", L + "visqol.rs calculate_similarity")], ["SimilarityResult"],
     "every execution is one trace of the model replayed against the implementation; a state is a distinct report", [TRUST_MODEL, TRUST_SMALL, TRUST_TOL, "Cases whose decisions are ties within rounding are judged on everything but the tied choice."], tech="conformance of the real code to a reference model on all bounded traces")

prop("C26", "Signals with different sample rates are never scored",
     "Comparing two signals or files whose sample rates differ always ends in the error that says so, whether they come from files or from memory, whichever of them is higher, however close the rates are and whatever was compared before; equal rates are never reported as different.",
     ["inputs", "configurations", "histories"], "all ordered pairs of 26 sample rates (more in thorough) x modes, as files and samples; all sequences of matching and mismatching pairs on one evaluator",
     "One test has one mismatching pair.", [L + "visqol_manager.rs", L + "visqol_error.rs"], [("comparison of rates", L + "visqol_manager.rs")], ["VisqolManager::run", "VisqolManager::compute_results"],
     "a state is a distinct (rates, outcome)", [], tech="exhaustive enumeration of rate pairs and sequences on the real code")

prop("C27", "Comparing files equals comparing the signals they contain",
     "Comparing two wave files reports bit for bit what comparing the decoded signals in memory reports, except for the recorded paths, which are the two paths given in their roles; any mixture of channel counts is allowed.",
     ["inputs"], "all words x degradations x channel counts of either file x rates x modes",
     "Tests use one of the two ways at a time.", [L + "visqol_manager.rs", L + "audio_utils.rs", L + "similarity_result.rs"], [("loading, then the same comparison", L + "visqol_manager.rs run")], ["VisqolManager::run", "VisqolManager::compute_results"],
     "a state is a distinct report; a trace is a file comparison replayed in memory", [TRUST_SMALL], tech="bounded-exhaustive differential exploration of the two interfaces")


def main():
    seams = {f[:-3] for f in os.listdir(os.path.join(ROOT, "mc/src/bin"))}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": p["hook"]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = {}
    man = []
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        c = {"crate": "climc" if p["cli"] else "mc", "pub": "climc" if p["cli"] else "mcpub", "level": p["level"], "rule": p["rule"], "assumptions": p["assume"]}
        if p["cli"]:
            c["cli"] = True
        if p["seam"] in seams:
            c["seam"] = p["seam"]
        checks[p["id"]] = c
        note = p["note"] or (("Every execution of a finite, completely enumerated space ran on the real code" + (" and, for the internal layer, on its building blocks" if "seam" in c else "") + "; bounds are listed per family in the evidence. Assumes: ") + " ".join(p["assume"] or ["nothing beyond the bounds."]))
        man.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}", "technique": p["tech"], "level": p["level"], "level_note": note})
    json.dump(checks, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
               "hooks": {"guard": "cfg(visqol_verif)", "enable": "RUSTFLAGS=--cfg visqol_verif (set by check.py when it builds the harness crate mc, which has a path dependency on /repo/visqol-rs)", "source_commits": ["6dcdcd49282ebcc39eeb0706b039ef5e9b92c208"]},
               "checks": man, "not_applicable": NOT_APPLICABLE,
               "notes": "check.py builds the explorers against /repo's working tree and runs one property; tools/spec.py generates this file, checks.json and properties.jsonl."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


NOT_APPLICABLE = []
if __name__ == "__main__":
    main()
