#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), level="exploration", note=""):
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)),
        level=level, note=note))

SIM = ["simulators/sim_bg.c", "simulators/main_txt.c"]
NOTEST = "The 20 tests call single decoder and CRC functions on fixed vectors; none of them runs the simulator. "

prop("R01", "Every simulated trial is in the results file exactly once",
 "After any save that reports success, and after the program has ended, the results file holds for each SNR value exactly what the run simulated so far (trials, bit errors, word errors, erasures, ML trials, ML errors) plus what the file held before the run. This holds however often and at whatever moments saving happens, also when saving twice in a row, when saving before anything was simulated, and when the wall clock jumps. If the results file is taken away between two saves, the next save writes everything this run has simulated.",
 ["schedules", "histories", "configurations"], "all parameter sets, decoder outcomes, trial durations, save and return intervals, clock jumps and sequences of slices, saves and controls",
 NOTEST + "Double or lost counting depends on how many saves fall between which trials.",
 SIM, [("merging of unsaved counters into the old file", "simulators/sim_bg.c: sim_save_res"), ("save timer", "simulators/main_txt.c: main")],
 [("*_old and current counters per SNR point", "what is already in the file, and what is simulated", "simulators/sim_bg.c")], ["results file", "sim_save_res return code"])
prop("R02", "Runs sharing a results file accumulate, nothing else changes",
 "Runs made one after another on the same results file add up: for every SNR value the file holds the sum over its old content and all runs, whatever sets of SNR values the runs list and in whatever order and notation. Entries for SNR values a run does not simulate keep their counters, entries stay in increasing order of SNR, and no SNR value gets two entries. A save that would bring a sum beyond the range of the counters (int) is refused, with an error, and leaves the file as it was.",
 ["histories", "inputs"], "all sequences of runs over overlapping sets of SNR values written in different notations, starting from any valid file including very large counters",
 NOTEST + "Merging of two lists has many cases (before, between, after, equal).",
 SIM + ["common/spf_par.c"], [("merge by SNR value", "simulators/sim_bg.c: sim_save_res"), ("reading the old file", "simulators/sim_bg.c: sim_save_res / common/spf_par.c")], observe=["results file"])
prop("R03", "Concurrent runs on one results file lose nothing",
 "When several runs save into the same results file at the same time, under every interleaving of their file operations the final file is the sum of the old content and of every run's completed saves. No run's contribution is lost or counted twice.",
 ["schedules", "histories"], "all interleavings of file operations of two to five concurrent runs, with stalls and slow processes",
 NOTEST + "Needs two processes interleaved inside the read-merge-write of a save.",
 SIM, [("busy mark <results file>.bsy", "simulators/sim_bg.c: sim_save_res")], observe=["results file", "file operations of all runs"])
prop("R04", "A crash leaves the old or the new complete results file",
 "If a run is killed at any moment, including inside a write while saving, the results file is afterwards either the complete file as of its last completed save or the complete file of the save in progress, never a missing, truncated or mixed one. Other runs and later runs that get to save account for exactly that content.",
 ["crash_points", "schedules"], "a kill at every file operation, inside a write, inside trials, of one or more of several concurrent runs",
 NOTEST + "Needs a crash at a chosen file operation.",
 SIM, [("complete write to a temporary file, then rename", "simulators/sim_bg.c: sim_save_res")], observe=["results file after the crash"])
prop("R05", "A save that fails changes nothing and loses nothing",
 "If saving fails (a file cannot be opened, read, written, closed or renamed, the disk is full, memory runs out) it reports failure, the results file keeps its old content, and everything simulated stays accounted for so that a later successful save stores it exactly once. Saving never reports success when the file was not completely updated. However saving ends, the files it opened are closed and repeated failures do not use up memory.",
 ["fault_sequences", "histories"], "all sequences of I/O errors, short reads and writes, full disks and allocation failures during saves, ended by one fault-free save",
 NOTEST + "Needs I/O errors at particular calls.",
 SIM + ["common/spf_par.c"], [("checks of every I/O result and late commit of counters", "simulators/sim_bg.c: sim_save_res"), ("complete reading of a parameter or results file", "common/spf_par.c")], observe=["results file", "sim_save_res return code"])
prop("R06", "The busy mark protects the results file and is given back",
 "A run changes the results file only while a busy mark (<results file>.bsy) that it created for this save exists; it never removes or overwrites another run's mark, and every save, successful or failed, removes its own. When it meets another run's mark it waits and, once the mark goes away within the waiting time, saves; when the mark stays it gives up with a failure in bounded time (some 10 to 100 seconds, never at once and never for ever), leaving file and mark alone.",
 ["schedules", "fault_sequences"], "all interleavings of concurrent saves, all durations of a foreign mark, all I/O and allocation failures inside a save",
 NOTEST + "Needs concurrent saves and failures inside them.",
 SIM, [("exclusive creation, waiting and removal of the mark", "simulators/sim_bg.c: sim_save_res")], observe=["file operations", "sim_save_res return code and duration"])
prop("R07", "A damaged old results file is refused, not misread",
 "If the existing results file is incomplete or inconsistent (torn, a counter group missing or with too few or too many values, more entries than the program holds, something that is no number among the values, unreadable), saving fails and leaves it as it is, however often it is tried, without using up memory. No content of an old results file makes the program crash, hang or overrun memory.",
 ["inputs", "fault_sequences"], "files cut at every byte, with zeroed tails, missing, shortened, lengthened or unclosed groups, and random damage",
 NOTEST + "Needs torn and damaged files.",
 SIM + ["common/spf_par.c", "common/ui_txt.c"], [("counting and complete reading of groups", "common/spf_par.c"), ("group size comparison", "simulators/sim_bg.c: sim_save_res")], observe=["results file", "sim_save_res return code"])
prop("R08", "Saved rates and table follow from the saved counters",
 "In every saved results file the word, erasure and ML error rates and the rows of the table at its end (SNR, bit error rate per information bit, word, erasure and ML error rate) are the ones its counters give, one per entry and in the same order, and the code length and dimension are those of the code simulated. This holds for merged entries with totals of any size up to what the counters can hold.",
 ["histories", "inputs"], "all histories of saves by one or two runs on files with small to very large totals",
 NOTEST + "Depends on merged totals over several saves.",
 SIM, [("rates and table written from merged counters", "simulators/sim_bg.c: sim_save_res")], observe=["results file"])
prop("R09", "The loader returns one consistent content of a live results file",
 "The Octave/Matlab loader, called at any moment while runs are saving, returns data equal to one complete content that the results file had during the call: code length and dimension, SNR values, and the error rates given by that content's counters. It never returns a mixture, and fails only when no results file exists.",
 ["schedules", "histories"], "all interleavings of one or two saving runs with loads, short reads and stalls",
 NOTEST + "The loader is not built by the tests at all.",
 ["Octave/loadsrf.c", "Octave/ui_octave_txt.c", "common/spf_par.c"] + SIM, [("loading", "Octave/loadsrf.c: mexFunction"), ("replacement of the file as a whole", "simulators/sim_bg.c: sim_save_res")], observe=["values handed to Octave/Matlab"])

prop("R10", "The loader loads every complete results file and refuses others",
 "The Octave/Matlab loader returns the data of any complete results file: up to 50 SNR values, parameters and groups in any order and layout, unknown ones between them, entries without trials or without ML trials (their rates are zero), and files written without erasure counts (the erasure rates are zero). The structure is scalar and all its arrays have one value per SNR value. It refuses, with an error and without crashing, files that are missing, unreadable, cut, or lack the code's size or a group, or whose groups have different numbers of values or hold something that is no number, and calls without a file name. What it read before never shows in what it returns, and no content of a file makes it overrun memory.",
 ["inputs", "histories", "fault_sequences"], "all sequences of loads of complete, incomplete and damaged files in one session",
 NOTEST + "The loader is not built by the tests at all.",
 ["Octave/loadsrf.c", "Octave/ui_octave_txt.c", "common/spf_par.c"], [("loading and validation", "Octave/loadsrf.c: mexFunction"), ("preparsing", "common/spf_par.c: spf_read_preparse")], observe=["values handed to Octave/Matlab", "errors raised"])

prop("S01", "Timing does not influence the results",
 "With a fixed random sequence (-nr), what a run simulates and finally saves is the same whatever the speed of the machine, the status and save intervals, the moments at which control returns to the main program, stalls, clock jumps, and other runs beside it. Interrupting the simulation at any trial boundary and continuing it neither skips, repeats nor changes a trial.",
 ["schedules", "configurations"], "all assignments of trial durations, intervals, stalls and clock jumps to the same parameter set, with real and scripted codecs",
 NOTEST + "Return points depend on the clock.",
 SIM, [("slices bounded by a return interval", "simulators/sim_bg.c: sim_run"), ("main loop", "simulators/main_txt.c: main")], observe=["sequence of trials handed to the decoder", "results file"])
prop("S02", "Enough trials and errors per SNR value, in listed order, then stop",
 "Without operator intervention a run simulates the listed SNR values one after another in listed order; at each it makes at least the requested number of trials and does not leave it before the requested number of word errors has been found. It does not go on needlessly: with T the number of trials at which both requests were first met, it makes no more than max(requested trials, 1.5 T + 2), and it ends whenever errors keep occurring.",
 ["histories", "configurations"], "all sequences of decoding outcomes for all requested trial and error numbers, sliced at any moments",
 NOTEST + "Depends on the random sequence of decoding errors.",
 SIM, [("growth of the requested number of trials", "simulators/sim_bg.c: update_trn_req"), ("advance to the next point", "simulators/sim_bg.c: sim_run")], observe=["trials handed to the decoder", "results file"])
prop("S03", "Each trial is judged correctly",
 "Every counter equals what an independent judge of the same trials finds: a word error when the decoder's information word differs from the transmitted one, as many bit errors as symbols differ, an erasure when the decoder reports one, an ML trial for every decoding that is not an erasure when ML bounds are requested, and an ML error exactly when the decoded word's codeword is strictly nearer to the received vector (hard-decided if so requested) than the transmitted codeword. This holds for every program and every sequence of outcomes.",
 ["histories", "inputs", "fault_sequences"], "all sequences of transmitted words, noise and decoder outcomes (correct, wrong, erased, erased and wrong) with all combinations of options",
 NOTEST + "Depends on combinations of outcomes and options.",
 SIM + ["common/srm_utils.c"], [("comparison after decoding", "simulators/sim_bg.c: sim_run")], observe=["current results", "results file"])
prop("S04", "The decoder is fed by the channel the parameter file describes",
 "At each SNR value the vector handed to the decoder is the transmitted codeword's BPSK image plus independent Gaussian noise of the variance given by the SNR and the code rate (or the fixed rate in the file) and the decoder, where it uses one, is told that same noise level. The transmitted word is the encoder's codeword of uniformly random information symbols when random codewords are requested and the all-zero codeword otherwise, over the whole run and across slices and SNR changes.",
 ["inputs", "configurations", "histories"], "all SNR values, rates, code sizes, option combinations and random sequences",
 NOTEST + "Statistical properties of a long random sequence.",
 SIM, [("noise generation", "simulators/sim_bg.c: sim_run, copy_add_noise"), ("noise level for the decoder", "interfaces/codec.h: cdc_set_sg")], observe=["vectors handed to the decoder", "noise level handed to the decoder"])
prop("S05", "A crash loses at most about one save interval of work",
 "While the simulation runs, results are saved whenever the save interval has passed since the last save: at any moment, everything simulated more than one save interval plus one slice (the return interval and the trial running at its end) plus the time spent saving ago is in the results file. Status is shown and control returns at least once per return interval plus one trial.",
 ["schedules", "crash_points"], "all save and return intervals, trial durations, including trials longer than the intervals, and kill moments",
 NOTEST + "Depends on the clock.",
 SIM, [("save timer", "simulators/main_txt.c: main"), ("return timer", "simulators/sim_bg.c: sim_run")], observe=["results file against trial completion times"])
prop("S06", "Failures are reported and never counted as trials",
 "If encoding or decoding fails in the middle of a run, the program stops simulating, saves the trials completed before, does not count a trial that was not decoded (when only the extra encoding for the ML comparison fails, the trial may be counted without that comparison), and ends with a non-zero exit code; likewise when the final save fails or the parameters or the command line cannot be used. It ends with exit code zero only if everything requested was simulated and finally saved.",
 ["fault_sequences", "crash_points"], "an encoder, decoder or save failure at every trial and save, unusable parameter files and command lines, options in any order",
 NOTEST + "Needs failures inside the codec or file system.",
 SIM + ["common/srm_utils.c"], [("error paths of the simulation slice and main loop", "simulators/sim_bg.c: sim_run; simulators/main_txt.c: main")], observe=["exit code", "results file"])
prop("S07", "Running out of memory anywhere is survived",
 "If any allocation fails at any moment of a program's life, the program does not crash, overrun memory or save wrong counters: it either carries on with correct results or stops with an error. A program life without failures has released all memory and files it used when it ends.",
 ["fault_sequences"], "a failure of every single allocation, or of all from some moment on, in every program",
 NOTEST + "Needs failing allocations.",
 SIM + ["common/spf_par.c", "common/srm_utils.c", "dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c", "common/crc.c"], [("checked allocations and error exits", "all initialisation functions")], observe=["exit code", "results file", "allocator"])
prop("S08", "Operator controls change only how many trials are made",
 "At any moment the operator can ask for more trials, fewer trials or the next SNR value. 'More' raises the number of trials requested at the current SNR value by half (as far as that can be counted) and 'fewer' lowers it by a third (rounded), never below what is already simulated, 'next' ends the current SNR value at the trials made so far, and the other SNR values' requests stay as they are; whatever is asked, nothing already simulated is lost or miscounted and the run ends.",
 ["schedules", "histories"], "all sequences of controls at all moments between slices",
 NOTEST + "Depends on the moments of the controls.",
 SIM, [("control", "simulators/sim_bg.c: sim_control")], observe=["status string", "results file"])
prop("S09", "Reproducible when asked, different otherwise",
 "With -nr, two runs of the same parameter file simulate identical trials; without it, runs started in different seconds of wall-clock time, at any clock setting, simulate different noise. The random sequence is seeded once and never restarted during a run, so no part of a run repeats another.",
 ["schedules", "configurations"], "all start times, clock jumps and numbers of slices",
 NOTEST + "Depends on start times.",
 SIM, [("seeding", "simulators/sim_bg.c: sim_init")], observe=["vectors handed to the decoder"])
prop("S10", "Status and summary show what was simulated",
 "The status line shown after each slice and the summary at the end give, for the SNR values simulated, the trials made and requested, the errors and the error rates that the simulation has really produced so far, whatever the numbers, and never overrun their buffer. The summary covers every simulated SNR value in order, and the program's last words tell a completed simulation from a failed one.",
 ["histories", "configurations"], "all histories of slices and saves, counts of any size, up to the maximal number of SNR values",
 NOTEST + "Strings are only produced by the programs.",
 SIM, [("status strings", "simulators/sim_bg.c: sim_state_str, sim_cur_res_str")], observe=["status string", "summary string"])
prop("S11", "Delivered simulations run, survive kills and resume",
 "Every simulation delivered in work/, as it is, and every delivered code with delivered permutations and list sizes of the user's own, is accepted by the program it is for and simulated; killed at any moment or stopped and started again, it continues where its last save left off: the results file always holds the sum of all saved trials per SNR value with the code length and dimension of the delivered code, and none of the delivered files is changed.",
 ["configurations","schedules","crash_points","histories"], "all delivered simulation files; all moments of kills and restarts; all durations of trials, stalls, short reads and writes and changes of the SNR value",
 NOTEST + "No delivered file is ever read by a test.",
 SIM + ["common/spf_par.c", "dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c"], [("reading a simulation with its included files", "common/spf_par.c"), ("sizes fixed in the programs against the delivered codes", "dtrm_glp/dtrm_glp_main.c, formats/formats.h, interfaces/ui_utils.h"), ("merging with the old results file", "simulators/sim_bg.c: sim_save_res")], observe=["results files", "exit codes", "delivered files"])
prop("S12", "Keys pressed at the console steer the Windows program",
 "The simulation programs built for Windows watch the keyboard while they run. A key that is waiting when a slice of the simulation ends is acted on before the next slice begins, keys are taken one by one in the order they were pressed, and the run never stands still to wait for one. 's' saves everything simulated so far, the space key prints the results so far, '>' adds half of the trials wanted at the current SNR value, '<' takes a third of them away but none of those done, 'N' ends the current SNR value; any other key does nothing, and no key has another key's effect. However it is steered, the run goes on to its end (whether its saves succeed or not), makes at each SNR value the trials last asked for, or the usual ones where nothing was asked, and its results file, replaced the way Windows allows, accounts for every trial once.",
 ["histories", "schedules", "fault_sequences"], "all sequences of keys pressed at all times, all durations of trials, return and saving intervals; failing saves; other runs beside",
 NOTEST + "The Windows parts are not even compiled by the tests.",
 ["simulators/main_txt.c", "simulators/sim_bg.c"], [("console keys", "simulators/main_txt.c: main"), ("more, fewer, next", "simulators/sim_bg.c: sim_control"), ("replacing the results file on Windows", "simulators/sim_bg.c: sim_save_res")], observe=["printed results and status", "trials at each SNR value", "results file", "exit code"])
prop("P01", "Parameter files mean the same in any layout, or are refused",
 "A parameter file's values depend only on its parameters: layout, order of parameters, comments, line ends, unknown parameters and the splitting into included files do not change what is simulated. If a file or an included file is missing, unreadable, incompletely read, not well-formed (a parameter without a value, an unclosed group, not text, something else where a number, an integer or on/off is needed, an SNR value or rate that gives no noise level) or too large, or memory runs out, the program refuses to run with an error; it never crashes, hangs, or runs with parameters other than the written ones.",
 ["inputs", "fault_sequences"], "all layouts of the same parameters, truncations and damage of the text, read errors, short reads and allocation failures",
 NOTEST + "No test reads a parameter file.",
 ["common/spf_par.c", "common/ui_txt.c", "simulators/sim_bg.c", "common/srm_utils.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c"], [("preparsing, includes, searching and reading parameters", "common/spf_par.c"), ("reading files", "common/spf_par.c: spf_read_preparse")], observe=["what is simulated", "exit code"])

prop("P02", "Unusable codec parameters are refused, usable ones work",
 "Whatever the codec parameters in the file are (code sizes and orders, masks, list sizes, permutations, distance thresholds, CRCs; missing, repeated, reordered, out of range, or grouped wrongly), either the program refuses them with a message and a non-zero exit code, leaves nothing allocated and the results file untouched, or the codec works: its length is 2^m and its dimension is what the parameters give, codewords consist of +1 and -1, undisturbed words are decoded right. It never crashes, overruns memory or disturbs other codec instances. Correct parameters are not refused unless memory is short.",
 ["inputs", "configurations", "fault_sequences"], "all parameter sets with any of their values wrong, missing or repeated, with failing allocations",
 NOTEST + "The tests use a handful of correct parameter sets.",
 ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c", "common/spf_par.h", "simulators/sim_bg.c"], [("reading and checking codec parameters", "cdc_init of each codec")], observe=["return code of cdc_init", "exit code", "messages", "code size", "decoder output"])

prop("C01", "Codecs keep no memory between words or between instances",
 "What an encoder or decoder returns for a word depends only on the code, its parameters, the noise level set and that word: not on the words processed before, on failures of earlier calls, on other codec instances used in between, or on the contents of fresh memory; it leaves the received vector as it was. Encoders produce the code's codeword of the information word (Reed-Muller (v+u|u) order, or polar with CRC) and leave the information word as it was.",
 ["histories", "schedules", "fault_sequences"], "all histories of encodings and decodings on interleaved codec instances with changing noise levels and failing allocations",
 "The tests decode one word per initialisation, in a fresh process.",
 ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c", "common/srm_utils.c", "rm1_ml/rm1_ml.c"], [("buffers set up per call or per instance", "dec_bpsk, enc_bpsk of each codec")], observe=["decoder output", "encoder output"])
prop("C02", "Light channel faults are corrected",
 "Every decoder returns the transmitted information word whenever the channel does no harm beyond its guaranteed correction power: with no fault at all, at any signal strength including extremely strong and extremely unequal ones, and with up to three weak symbols or up to three inverted symbols (the recursive decoders: more in longer codes) that leave the transmitted codeword far nearer than half the minimum distance, wherever they lie. This holds for every code, list size, permutation set and information set the program accepts.",
 ["inputs", "configurations", "fault_sequences"], "all information words, codes, parameters and light fault patterns including the strongest signal levels",
 "The tests decode a handful of fixed vectors for three codes.",
 ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/polar_scl_inner.c", "formats/format_eps5.h", "rm1_ml/rm1_ml.c"], [("decoding", "dec_bpsk of each codec"), ("conversion of channel outputs", "formats")], observe=["decoder output"])
prop("C03", "The CRC verdict of the polar decoder can be trusted",
 "With a CRC configured, the CRC-aided decoder reports success only for an information word from the list whose CRC is right and reports an erasure exactly when no word on its final list has a right CRC; among those with a right CRC it returns the most likely one. Even when it reports an erasure it returns the complete most likely word of the list, and without a CRC it never reports an erasure.",
 ["inputs", "fault_sequences", "configurations"], "all channel fault patterns from none to total destruction, all CRCs, list sizes and information sets",
 "The tests check fixed vectors.",
 ["polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c", "common/crc.c"], [("selection by CRC", "polar_scl")], observe=["decoder return code and output"])
prop("C04", "List decoding of Reed-Muller codes follows its rule",
 "The list decoder with permutations returns the most likely candidate of the recursive list decoding it is configured for: one joint list, starting with one entry per permutation, is extended at the leaves given by the parameters and pruned to the configured size (or the size set for the noise level and border node) by likelihood only, and the best word on it, permuted back, is returned. Lists large enough for all candidates of the leaves make it maximum-likelihood on the subcode given by the mask where the leaves' candidates are complete.",
 ["inputs", "configurations", "fault_sequences"], "all codes, masks, list sizes, permutation sets, noise levels and received vectors",
 "No test runs this decoder.",
 ["dtrm_glp/dtrm_glp_main.c", "dtrm_glp/dtrm_glp_inner.c"], [("list decoding", "dtrm_glp/dtrm_glp_inner.c")], observe=["decoder output"])
prop("C05", "Polar list decoding follows its rule",
 "The polar list decoder returns what successive cancellation list decoding with the configured information set, list size and CRC returns on an ideal machine: paths are extended at every information symbol, the most likely ones kept, and the most likely final path with a right CRC (if any) chosen. With a list as large as the code it is maximum-likelihood.",
 ["inputs", "configurations", "fault_sequences"], "all information sets, list sizes, CRCs and received vectors",
 "The tests check four fixed configurations on fixed vectors.",
 ["polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c"], [("list decoding", "polar_scl/polar_scl_inner.c")], observe=["decoder output"])
prop("C06", "Recursive Reed-Muller decoding follows its rule",
 "The two recursive decoders return what recursive (v+u|u) decoding of the received vector down to repetition and full-space codes (first program) or to repetition or first-order codes decoded with maximum likelihood (second program) returns on an ideal machine, for every order and length accepted. For first-order codes the second is maximum-likelihood.",
 ["inputs", "configurations", "fault_sequences"], "all orders, lengths and received vectors from clean to destroyed",
 "The tests check three small codes on fixed vectors for the first decoder and none for the second.",
 ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "rm1_ml/rm1_ml.c", "formats/format_eps5.h"], [("recursive decoding", "dtrm/dtrm0.c, dtrm/dtrm1.c")], observe=["decoder output"])
prop("C07", "A codec short of memory says so and recovers",
 "If memory runs out while a codec is initialised, initialisation reports failure and leaves nothing allocated; if it runs out during encoding or decoding, the call reports failure instead of returning a word as decoded, the codec stays usable, and the next call with enough memory returns the right result. No such failure corrupts memory or leaks it.",
 ["fault_sequences", "histories"], "a failure of each single allocation or of several in a row in initialisation, encoding and decoding for all codecs",
 "Needs failing allocations.",
 ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c", "common/srm_utils.c", "common/crc.c"], [("checked allocations", "cdc_init, enc_bpsk, dec_bpsk")], observe=["return codes", "allocator"])

prop("C08", "The other delivered reliability formats decode right",
 "With the exact (format_rho1.h) or the min-sum (format_rho5.h) log-likelihood format made active in formats.h, as documented, instead of the default one, the recursive, the Reed-Muller list and the polar list codecs encode alike and decode by their rules in that arithmetic (with the exact format and a complete list: maximum likelihood); light channel faults are corrected at any signal strength, including extremely strong and extremely unequal ones.",
 ["inputs", "histories", "fault_sequences", "configurations"], "all received words, codes, masks, permutations and list sizes with either format, in histories of interleaved instances",
 "The tests are built with the default format only.",
 ["formats/formats.h", "formats/format_rho1.h", "formats/format_rho5.h", "dtrm/dtrm0.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/polar_scl_inner.c"], [("macros of a format", "formats/format_rho1.h, formats/format_rho5.h"), ("conversion of the received word", "formats/formats.h: VY_TO_FORMAT")], observe=["decoder output", "encoder output"])

def main():
    vs = subprocess.run([sys.executable, os.path.join(HERE, "sim", "build.py")], stdout=subprocess.PIPE, text=True, check=True).stdout.strip().splitlines()[-1]
    have = {l.split()[0] for l in subprocess.run([vs, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["d"]["title"]) <= 80, p["d"]["id"]
            f.write(json.dumps(p["d"]) + "\n")
    checks, na = [], []
    default = "Seeded search: finds violations within the sampled schedules, fault sequences and inputs; a quiet run is evidence, not proof. Trusts the simulated libc (files, clocks, random numbers, memory) and the harness' oracle."
    for p in P:
        i = p["d"]["id"]
        if i in have:
            checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                               technique="deterministic simulation with fault injection (seeded search)", level=p["level"], level_note=p["note"] or default))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3 sim/build.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo: all seams are put in at link time (see DESIGN.md). Findings: known_findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    print(len(checks), "claimed", len(na), "not claimed")
main()
