"""The property list: single source for properties.jsonl and MANIFEST.json (python3 tools/mkmanifest.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[dict(name=a, where=b) for a, b in mechanism], observe=list(observe), technique=technique, note=note))


HDR = "protocol_meta/msg_header.py"
META = "protocol_meta/protocol_meta.py"
SEG = "inference/buffer_segmentation.py"

prop("C01", "Header acceptance and header objects agree with the wire format",
     "A byte string is accepted as a message header exactly when it is 6 bytes, starts with the start marker, names a message id of the "
     "dialect and carries that message's published payload length. Building a header from (id, system, component, sequence) or from "
     "received bytes yields an object whose bytes, fields and bit string agree with each other and with the wire layout; out-of-range "
     "values, unknown ids and wrong-size buffers are rejected with an error; the Hamming distance of a header to 6 bytes is the number of "
     "differing bits.",
     ["inputs"], "every 6-byte header (first byte x length x id exhaustively for the accepted set), every id, every field value including edges, every buffer size",
     "tests try one or two headers; the acceptance set has 2^24 relevant inputs and every id has its own length",
     [HDR, META], [("is_valid_header", HDR), ("FrameHeader", HDR)], ["is_valid_header", "FrameHeader", "FrameHeader.from_buffer", "FrameHeader.hamming_distance"])
prop("C02", "Nearest valid header is a true minimum within the length bound",
     "For any 6 received bytes, the reported distance is the minimum, over all messages of the dialect whose payload is not longer than the "
     "given bound (all messages when no bound is given), of the number of wrong bits in marker, length and id; the reported id attains it "
     "and respects the bound. A perfectly valid header gives distance 0 and its own id when the bound allows it.",
     ["inputs"], "every 6-byte string and every length bound", "tests check a few headers; the minimum ranges over 155 messages and is affected by ties, bounds and early exits",
     [HDR], [("hamming_distance_2_valid_header", HDR)], ["hamming_distance_2_valid_header"])
prop("C03", "Published protocol metadata matches the dialect definition",
     "The message ids, payload lengths, ordered field names and types, header/checksum sizes and field sizes the library publishes equal "
     "those of the dialect XML, and the parser accepts exactly frames with correct header and checksum, returning the same id and payload.",
     ["inputs"], "all 155 messages of the dialect; frames intact, with a flipped bit, truncated",
     "tests look at one message; a wrong entry for any other id silently disables that message everywhere",
     [META, HDR, "mavlink_utils/HC_dialect.py"], [("meta", META), ("protocol_parser", META)], ["dialect_meta", "protocol_parser"])
prop("C04", "Segmentation marks as good only checksum-verified, disjoint frames",
     "Whatever the buffer, every message the segmentation reports has a correct header and checksum and lies entirely inside the buffer; "
     "reported messages do not overlap and come in buffer order with their true ids. Each byte is classified header/payload/checksum exactly "
     "according to the reported message covering it and unknown otherwise, and each bit is marked valid exactly when its byte is not unknown.",
     ["inputs"], "every byte buffer: valid, damaged, truncated, nested, overlapping frames, noise, any order",
     "tests segment two hand-made buffers; decoders trust 'valid' bits and force them, so one wrongly accepted frame corrupts data",
     [SEG], [("segment_buffer", SEG)], ["BufferSegmentation.segment_buffer"])
prop("C05", "Segmentation finds every intact message (leftmost first)",
     "Every intact frame in the buffer is reported unless it starts inside a frame that begins earlier and is itself reported: the reported "
     "set is exactly the leftmost-greedy one, wherever in the buffer the frames are and whatever surrounds them.",
     ["inputs"], "every byte buffer; frames at the very start, the very end, back to back, after false headers, after damaged frames",
     "tests use one arrangement; off-by-one limits or skipping after a false header only show for particular neighbours",
     [SEG], [("segment_buffer", SEG)], ["BufferSegmentation.segment_buffer"])
prop("C06", "Bad parts are exactly the maximal unknown runs",
     "The bad parts reported for a buffer are the maximal runs of unknown bytes: same start offsets, same bytes, same (start, end) ranges, "
     "nothing when no byte is unknown. Together with the good frames they reassemble the buffer exactly.",
     ["inputs"], "every classification of the bytes of a buffer, every pattern of good and bad bytes", "tests have one bad part; boundaries (first byte, last byte, adjacent runs) are combinatorial",
     [SEG], [("bad_buffer_parts", SEG), ("bad_buffer_idx", SEG)], ["bad_buffer_parts", "bad_buffer_idx"])
prop("C07", "A buffer structure keeps exactly the buffers that adhere to it",
     "A buffer adheres to a structure when every listed message id is found at its listed offset (too short buffers do not adhere). "
     "Registering an adherent buffer stores it, in order, and increments the reception count; registering any other raises ValueError and "
     "changes nothing. Equality depends only on the offset-to-id map, also against a plain dict, and a buffer's structure is its segmentation.",
     ["inputs", "histories"], "every structure, every history of registered buffers including damaged and short ones",
     "tests register a single matching and a single mismatching buffer", [SEG], [("BufferStructure", SEG)],
     ["BufferStructure.register_buffer", "adheres_to_structure", "__eq__", "get_buffer_structure"])
prop("C08", "Field extraction returns the wire values of the found messages",
     "Extracting fields from a buffer returns, for every message found, each field under MESSAGE_field with the value and type that the wire "
     "format assigns to its bytes (a repeated message keeps its last values), and a description listing per message the 6 header bytes, the "
     "fields in wire order and the checksum. A buffer with no message yields an empty result.",
     ["inputs"], "every buffer made of scalar messages, intact or damaged", "tests never call it; field order on the wire differs from declaration order for most messages",
     [SEG], [("get_msg_fields", SEG)], ["BufferSegmentation.get_msg_fields"])

STAT = "inference/statistical_models.py"
ENT = "decoders/entropy_bitwise_decoder.py"
CLSF = "inference/clustering.py"
CLD = "decoders/classifiying_decoder.py"
prop("C09", "A field model holds exactly the last window of samples and their statistics",
     "A field model keeps the last window_size samples (all of them without a window) in order. Its size is their number, and its mean and "
     "standard deviation are always those of the finite samples currently held, no matter in which order samples were added and statistics "
     "were asked for; a constant window has deviation exactly 0. The bitwise mean is the wire representation (little endian, MSB-first "
     "bits, two's complement / IEEE float) of the rounded mean, and values convert to bits the same way.",
     ["histories", "inputs"], "every history of single and batch additions and queries, every window size >= 1, every supported field type",
     "tests never exercise FieldModel; stale caches and off-by-one windows show only for particular add/query interleavings",
     [STAT], [("FieldModel", STAT)], ["FieldModel.add_sample", "FieldModel.mean", "FieldModel.std", "FieldModel.model_size", "FieldModel.bitwise_mean"])
prop("C10", "Value validity is the two-sided Gaussian tail of the current window",
     "For a candidate value a field model reports the probability that a Gaussian with the window's mean and deviation lies at least as far "
     "from the mean, and the deviation itself. With zero deviation, probability is 1 for the mean and 0 for anything else; non-finite "
     "candidates never look valid. cdf and pdf agree with the same Gaussian.",
     ["histories", "inputs"], "every window content and every candidate value, including the extremes and non-finite ones",
     "tests never query it; decoders force bits based on this number", [STAT], [("FieldModel.classify_value / cdf / pdf", STAT)], ["FieldModel.classify_value", "FieldModel.cdf", "FieldModel.pdf"])
prop("C11", "The bit map of a structure matches the wire layout",
     "For a structure (message ids at offsets) and a buffer length, every bit of the buffer is mapped to the header field or message field "
     "whose wire bytes contain it and to nothing otherwise; the values read from a buffer are the wire values at those positions; the fields "
     "damaged by a set of bit errors are, error by error in buffer order, the fields (name and position) containing the erroneous bits; "
     "errors outside any field are ignored.",
     ["inputs"], "every scalar message and every multi-message structure with gaps, any buffer content and any set of error positions",
     "tests check none of it; 155 messages have different field orders and sizes", [STAT], [("BufferModel.unpack_structure", STAT), ("find_damaged_fields", STAT)],
     ["BufferModel.unpack_structure", "BufferModel.unpack_values", "BufferModel.find_damaged_fields"])
prop("C12", "Saving and reloading a buffer model loses nothing",
     "After saving a buffer model and loading it from the file, the model has the same fields with the same types, windows, sizes, mean and "
     "deviation, the same buffer description and field order, and behaves identically from then on: it learns, predicts and trims its "
     "windows as if it had never been saved.",
     ["histories"], "every learn/save/load/learn/predict history, with and without window and description", "tests never save a model",
     [STAT], [("BufferModel.save / load", STAT)], ["BufferModel.save", "BufferModel.load", "BufferModel.predict"])
prop("C13", "A buffer model learns each field separately and predicts from its own field",
     "Adding a buffer adds to each field model the value of that field in the buffer and to no other. Predictions report, per field of the "
     "given structure, the validity of its value under the model of that same field, map each bit to its field's validity and deviation, "
     "and tolerate fields the model has never seen; the bitwise model mean is the wire representation of each field's mean at its position.",
     ["histories", "inputs"], "every sequence of buffers and predictions, known and unknown structures, any window", "tests never train a buffer model",
     [STAT], [("BufferModel.add_buffer / predict", STAT)], ["BufferModel.add_buffer", "BufferModel.predict", "BufferModel.bitwise_model_mean"])
prop("C14", "Entropy decoders learn only what may be trusted",
     "The entropy and flipping decoders learn the model bits of the final estimate exactly when segmentation accounts for every byte of it "
     "(all messages intact), whether or not a second pass was needed, and learn nothing otherwise or when given a predefined model. The "
     "weighted decoder's first model learns under the same rule, its second learns the estimate when the first pass succeeded or the data is "
     "fully recovered and the channel's hard bits otherwise. Models keep only the last window_length buffers; wrong-length data is rejected.",
     ["histories"], "every history of channel words and inner decoder outcomes (pass 1/2 success, intact/partly intact/damaged estimates)",
     "tests run one decode per decoder; a polluted model only shows many buffers later", [ENT], [("decode_buffer / update_model", ENT)],
     ["EntropyBitwiseDecoder.decode_buffer", "EntropyBitwiseFlippingDecoder.decode_buffer", "EntropyBitwiseWeightedDecoder.decode_buffer"])
prop("C15", "Entropy decoder rectifies exactly the structural bits of a failed buffer",
     "The inner decoder first gets the channel llr unchanged; success is final. Otherwise, and only with at least min_data learned buffers "
     "or a predefined model, the second attempt gets the channel llr plus, for bits whose model entropy is below the threshold, the model's "
     "log ratio ln(p0/p1) clipped to clipping_factor times the largest channel magnitude; all other bits unchanged. The caller gets the "
     "deciding attempt's estimate, llr, success and iterations and the number of intact messages in it.",
     ["histories", "inputs"], "every history, threshold, clipping factor, min_data, window, predefined model (also shorter or longer than the data) and channel word",
     "tests replay one recorded buffer", [ENT], [("EntropyBitwiseDecoder.model_prediction", ENT)], ["EntropyBitwiseDecoder.decode_buffer", "ldpc_decoder.decode input"])
prop("C16", "Flipping decoder forces exactly the structural bits of a failed hard word",
     "As C15 for hard words: the second attempt gets the channel word with each structural bit set to its majority value in the model and "
     "all other bits unchanged; without enough data it gets the channel word.",
     ["histories", "inputs"], "every history, threshold, min_data, window, predefined model and channel word", "no test covers the flipping decoder",
     [ENT], [("EntropyBitwiseFlippingDecoder.model_prediction", ENT)], ["EntropyBitwiseFlippingDecoder.decode_buffer", "ldpc_decoder.decode input"])
prop("C17", "Weighted decoder combines two models by confidence and reports them",
     "The weighted decoder's second attempt gets, clipped to clipping_factor times the largest channel "
     "magnitude, the channel llr plus each model's log ratio on that model's structural bits, scaled by its confidence (a sigmoid of its "
     "size, none below two buffers) under the chosen confidence scheme; distributions are the learned frequencies, corrected for the "
     "channel flip probability when asked (with the Bayes estimator always, up to 2 * window_length - 2 buffers). It returns both distributions and structural bit sets as they are after learning from this buffer.",
     ["histories", "inputs"], "every history, confidence scheme 0-5, centers, slopes, threshold, window, flip correction", "tests do not cover it; scheme branches differ only in numbers",
     [ENT], [("EntropyBitwiseWeightedDecoder.model_prediction", ENT)], ["EntropyBitwiseWeightedDecoder.decode_buffer", "ldpc_decoder.decode input"])
prop("C18", "Classifying decoder keeps the models of different labels apart",
     "Each buffer is labelled from its channel hard bits by the classifier (or in turns without clustering, or 0 with one model), labels are "
     "-1 while the classifier trains and nothing is learned then. Otherwise exactly the model of that label is used to rectify and exactly "
     "that model learns: the estimate's model bits on success, the channel's hard bits otherwise, keeping the last window_length. The reported "
     "distribution (corrected for bit_flip) and structural bits are those of the label's model after learning; a predefined model never changes.",
     ["histories"], "every interleaving of buffers of different kinds, every cluster count, training length and window", "tests do not cover it; leaks between clusters need several interleaved buffers",
     [CLD, CLSF], [("ClassifyingEntropyDecoder.decode_buffer", CLD)], ["ClassifyingEntropyDecoder.decode_buffer"])
prop("C19", "Classifying decoder hands each inner decoder type a correctly rectified word",
     "Sum-product gets channel llr plus confidence-scaled model llr on structural bits, clipped to clipping_factor times the largest channel "
     "magnitude. Weighted bit flipping gets the channel plus the model llr scaled down to at most the channel's strength, the sum rescaled to "
     "the channel's largest magnitude, with zero prior reliabilities. Gallager bit flipping gets the hard bits of that, or with reliability "
     "method 3 the channel's hard bits with structural bits forced to the model once its window is full. The inner result is returned as is.",
     ["histories", "inputs"], "every history, inner decoder type, reliability method 0 and 3, channel word", "tests do not cover it",
     [CLD], [("_sample_and_priors", CLD), ("model_prediction", CLD)], ["ClassifyingEntropyDecoder.decode_buffer", "ldpc_decoder.decode input"])
prop("C29", "The buffer classifier keeps every buffer in exactly one, closest cluster",
     "Before min_data_size (>= 2) buffers are seen each opens its own cluster and is labelled -1. At that buffer the closest pair of clusters "
     "(weighted Hellinger or symmetric KL distance) is merged until at most k remain, numbered 0..; from then on each buffer joins, and is "
     "labelled with, a closest cluster (log likelihood, or Hamming distance to majority bits), and no other cluster changes. Cluster "
     "counts, distributions and majority bits always describe exactly the buffers that joined.",
     ["histories", "inputs"], "every history of buffers, every distance and weight scheme, cluster count and training length", "no test covers the classifier",
     [CLSF], [("BufferClassifier.classify / merge_clusters", CLSF), ("Cluster", CLSF)], ["BufferClassifier.classify", "BufferClassifier.clusters", "Cluster.dist", "Cluster.hard_bits"])
MAV = "decoders/mavlink_decoder.py"
CMB = "decoders/combined_decoder.py"
UNI = "decoders/combined_unified_decoder.py"
prop("C22", "Rectifying decoder learns the right buffers under the right structure",
     "Buffers are labelled as in C18. For each label the message structure is the one of the first buffer decoded successfully under it and "
     "never changes (or the one set explicitly, whose count must match the labels). After each attempt the field model gains the estimate on "
     "success, the channel's hard bits on failure once the label's structure is known, nothing while the classifier trains or with a given "
     "model. Attempts repeat up to segmentation_iterations times until one succeeds; estimate, llr, success, syndrome are the last attempt's, "
     "iterations the sum.",
     ["histories"], "every interleaving of successes and failures over 1-3 labels, 1-3 passes, windows, learned or given models",
     "the repository's tests of this decoder are commented out; leaks between labels need interleavings",
     [MAV, "inference/statistical_models.py", SEG], [("decode_and_update_model", MAV), ("decode_buffer", MAV)],
     ["MavlinkRectifyingDecoder.decode_buffer", "buffer_structures", "model"])
prop("C23", "Rectifying decoder amplifies, damps and forces exactly the bits it should",
     "Without a known structure the word passes unchanged. Otherwise bits of fields whose value is plausible (p > 1-valid_thr) are "
     "multiplied by the valid factor, implausible ones (p < invalid_thr) by the invalid factor, both scaled by model confidence while "
     "learning; bits of a never-varying field with another value are forced to that value at the word's largest magnitude times the valid "
     "factor. If intact messages are present in the received bits, exactly their bits become the received llr times twice the valid factor; "
     "otherwise bits of messages intact after rectification are doubled. Later passes start from the previous soft output. Reported good/bad "
     "fields and message bits are those used last.",
     ["histories", "inputs"], "every history and channel word over all field types, thresholds, factors, confidence parameters",
     "no test; a bit forced wrongly can never be corrected by the code", [MAV], [("model_prediction", MAV)], ["MavlinkRectifyingDecoder.decode_buffer", "ldpc_decoder.decode input"])
prop("C24", "Combined decoders add field model and bit model of the same label, each once",
     "Both combined decoders label as in C18, rectify with the field model as in C23 and add the label's own bit model (entropy below the "
     "threshold, confidence scaled, clipped to clipping_factor times the largest channel magnitude) in one attempt, then teach both models: "
     "estimate on success, channel bits on failure; only the bit model learns when a field model is given. The unified one scales only bits of "
     "low entropy, only once the label has more than conf_center buffers, damps (or with flip inverts) implausible bits only where they "
     "contradict the model's majority, and with a given model forces every never-varying field.",
     ["histories", "inputs"], "every interleaving of successes and failures over 1-3 labels, windows, learned or given models, flip on/off",
     "no test covers either decoder", [CMB, UNI], [("mavlink_model_prediction", CMB), ("mavlink_model_prediction", UNI), ("decode_and_update_model", CMB)],
     ["CombinedDecoder.decode_buffer", "CombinedUnifiedDecoder.decode_buffer", "ldpc_decoder.decode input"])
DUD = "inference/dude.py"
DDC = "decoders/classifying_DUDE_decoder.py"
EML = "inference/entropy_mle.py"
TRB = "decoders/turbo.py"
prop("C25", "Online denoiser decides from exactly the left-context history so far",
     "The first k symbols after construction or reset pass unchanged at zero loss (or the context set explicitly, of length exactly k, is "
     "used). From then on, for each symbol the hard decision minimises, and the reported loss is the minimum of, the expected loss under the "
     "counts (this symbol included) of symbols seen so far after the same k symbols, mapped through the inverse channel; soft decisions "
     "return the smoothed posterior, positive and summing to one. Symbols outside the alphabet are rejected and leave the state as it was. A "
     "sequence gives the same answers as its symbols one by one, continuing from the current state.",
     ["histories", "inputs"], "every history of samples, sequences, context settings, resets and rejected symbols; any invertible channel, loss matrix, context length",
     "no test covers the denoiser", [DUD], [("OnlineDude", DUD)], ["OnlineDude.denoise_sample", "denoise_sequence", "initial_context", "reset"])
prop("C26", "Two-sided denoiser decides from the whole sequence's context counts",
     "Each symbol at least k from both ends is estimated from the counts of all such positions with the same k symbols on the left and the "
     "same k on the right: hard decisions minimise the expected loss through the inverse channel, soft decisions give the smoothed posterior. "
     "The k symbols at either end pass unchanged. The reported loss is the mean over the whole sequence.",
     ["inputs"], "every sequence (also shorter than 2k), channel, loss matrix and context length", "no test covers the denoiser", [DUD], [("DUDE.denoise_sequence", DUD)], ["DUDE.denoise_sequence"])
prop("C27", "DUDE decoder denoises each bit with its own label's history only",
     "Buffers are labelled as in C18. While the classifier trains the channel word is decoded as is and nothing is learned. Otherwise the "
     "inner decoder gets, clipped to clipping_factor times the largest channel magnitude, the channel llr plus for each model bit the log "
     "ratio of that bit's online denoiser of that label (C25) scaled by a confidence in the number of buffers with that label; all other "
     "labels stay as they are. The inner result is returned with the label and the hard bits of the word decoded.",
     ["histories", "inputs"], "every interleaving of buffers of different kinds, context length, flip probability, cluster count", "no test covers the decoder",
     [DDC, DUD], [("ClassifyingDudeDecoder.decode_buffer", DDC)], ["ClassifyingDudeDecoder.decode_buffer", "ldpc_decoder.decode input"])
prop("C28", "EMLE denoiser adds exactly the earlier buffers' knowledge",
     "For each buffer the estimate is the received llr (of the hard bits for hard input) plus, on bits whose flip-corrected empirical entropy "
     "over the last window_length earlier buffers (all when 0) is below the threshold, confidence times their log ratio; then the buffer's "
     "hard bits are learned. The cost is the number of changed bits. A sequence equals its buffers one by one; reset forgets everything.",
     ["histories", "inputs"], "every history of soft or hard buffers, window, threshold, flip probability, resets", "no test covers the denoiser", [EML], [("EMLE", EML)], ["EMLE.denoise_buffer", "denoise_sequence", "reset"])
prop("C30", "Turbo iteration exchanges extrinsic information only and stops at success",
     "The two decoders alternate, telemetry decoder first, for at most max_iter rounds. Each gets the channel word plus exactly what the other "
     "added last beyond the channel and what it had been given as prior (nothing at first). The first success is returned at once with its "
     "estimate, llr and which decoder it was; otherwise the second decoder's last result. In debug mode the number of wrong bits of a failed "
     "result is returned, else 0.",
     ["histories", "inputs"], "every success position, round limit, channel word and constituent output", "no test covers it", [TRB], [("TurboDecoder.decode_buffer", TRB)], ["TurboDecoder.decode_buffer"])
INF = "utils/information_theory.py"
SRC = "utils/random_sources.py"
PERF = "utils/performance_analysis.py"
BMMF = "inference/bmm.py"
BITF = "utils/bit_operations.py"
prop("C31", "Information measures equal their definitions",
     "prob / prob_with_alphabet give, for each row, the relative frequency of each symbol of the alphabet (the given one in the given order, "
     "else the sorted symbols occurring anywhere in the data). entropy is the Shannon entropy of each row in the given base, with 0 log 0 = 0. "
     "hellinger is the Hellinger distance: symmetric, in [0,1], 0 for equal and 1 for disjoint distributions. The typical set bounds are "
     "(1-eps)2^(n(H-eps)) and 2^(n(H+eps)), from the entropy when given, else from the distribution. Unsupported types, dimensions and "
     "arguments are refused with the documented error.",
     ["inputs"], "every data matrix of integer, unsigned and string type, every distribution, base, n and eps", "tests check a few vectors; dtype, alphabet order, zero probabilities and rounding are combinations",
     [INF], [("prob_with_alphabet", INF), ("entropy", INF), ("hellinger", INF), ("typical_set_cardinality", INF)], ["prob", "prob_with_alphabet", "entropy", "hellinger", "typical_set_cardinality"])
prop("C32", "Markov source emits only, and in proportion, what the chain allows",
     "generate_markov_samples returns num_samples symbols beginning with the initial state; every later symbol has positive probability in the "
     "transition array given the preceding `order` symbols, oldest first, and its frequencies per context match the array. An initial state "
     "of another length than the order, and an array whose states and rows differ, raise ValueError.",
     ["inputs", "histories"], "every transition array over 2-4 states of order 1-3, initial state and length", "no test covers it; a wrong conditioning symbol still gives plausible sequences",
     [SRC], [("generate_markov_samples", SRC)], ["generate_markov_samples"])
prop("C33", "Reported error rates and classification scores equal their definitions",
     "stats, from labels or a confusion matrix (rows truth, columns prediction), returns that matrix and per class recall, precision, F1 and "
     "the overall accuracy by definition; a class never predicted has precision 0 if it occurs and 1 if it does not, and a class neither "
     "occurring nor predicted F1 1, whatever the other classes look like. ber is the fraction of positions that differ, for any integer, "
     "unsigned, boolean or float bits.",
     ["inputs"], "every pair of label sequences and every confusion matrix, incl. absent, never predicted and never right classes", "no test covers it; degenerate classes need particular matrices",
     [PERF], [("stats", PERF), ("ber", PERF)], ["stats", "ber"])
prop("C34", "Bernoulli mixture scores by its parameters and fits consistently",
     "Given parameters, predict returns a component of the largest posterior weight of each sample, score_samples its log likelihood "
     "under the mixture and score their mean. After fit, weights, responsibilities and means are probabilities: weights and each "
     "sample's responsibilities sum to one, weights are the mean responsibilities, means the responsibility-weighted sample means; an "
     "iteration never lowers the likelihood, and score of the training data is the fitted likelihood.",
     ["inputs"], "every sample matrix, number of components and iterations, every parameter set", "no test covers it; EM converges to something plausible even when a step is wrong",
     [BMMF], [("BMM", BMMF)], ["BMM.fit", "BMM.predict", "BMM.score_samples", "BMM.score"])
prop("C35", "Debug figures count damaged fields and forced bits correctly",
     "With the true error positions given, the figures of the MAVLink decoders are those of the prediction actually made, before the buffer "
     "is learned: number of fields, damaged fields (each once, however many of its bits are wrong), and true/false positives/negatives of "
     "'good' against intact and 'bad' against damaged fields; for forced bits the same against the wrong bits, once for all forced bits and "
     "once for those the forcing changed, and the share forced wrongly. No figures without a prediction, none for fields when no field is "
     "damaged; debugging never changes the decoding.",
     ["histories", "inputs"], "every history, every set of error positions, every set of good / bad fields and forced bits", "no test covers it; the published performance figures rest on it",
     [MAV, CMB, UNI], [("classifier_analysis", MAV), ("forcing_analysis", MAV), ("confusion", MAV)],
     ["MavlinkRectifyingDecoder.decode_buffer", "classifier_analysis", "forcing_analysis", "confusion"])
prop("C36", "Hamming distance counts differing bits across operand kinds",
     "hamming_distance of two operands of equal bit length, each bytes, an integer (of uint_len bits), a bit array or a numpy bit array, is the number of "
     "positions where their bits differ, whichever kinds are mixed; it is symmetric and zero exactly for equal bits. Operands of different "
     "length, integers that do not fit and other types are refused.",
     ["inputs"], "every pair of operands of all four kinds, equal and different lengths", "tests compare a few literals; kinds, lengths and alignment multiply",
     [BITF], [("hamming_distance", BITF)], ["hamming_distance"])
DECS = ["decoders/entropy_bitwise_decoder.py", "decoders/classifiying_decoder.py", "decoders/classifying_DUDE_decoder.py", MAV, CMB, UNI, TRB]
prop("C20", "Success means codeword; clean words survive; learned telemetry is recovered",
     "Over a real LDPC decoder, every telemetry decoder returns an n-bit estimate; reported success means the estimate is a codeword "
     "(belief propagation: exactly then), soft outputs carry the estimate's signs, and reported syndrome and failed checks per bit are the "
     "estimate's. A received word that is already the sent codeword decodes to itself: always for decoders that try plain decoding first and, "
     "for the MAVLink decoder, for intact telemetry; for the others as long as that word is all they learned. Decoders that try plain decoding "
     "first never do worse than plain decoding. After enough buffers of unchanging telemetry, errors confined to model bits (field bits for "
     "the MAVLink decoder) are corrected whenever plain decoding fails.",
     ["histories", "inputs"], "every history of clean and noisy words, code, inner decoder (belief propagation, weighted and Gallager bit flipping), configuration",
     "tests decode one recorded buffer; success reporting, clean-word and recovery guarantees quantify over histories and noise",
     DECS, [("decode_buffer", f) for f in DECS], ["decode_buffer of every decoder"])
prop("C21", "Outputs depend only on configuration and input history; inputs stay untouched",
     "Two instances built alike and given the same values in the same order return the same results, however their calls are interleaved with "
     "each other's and other instances', on every decoder, classifier, denoiser, buffer model, segmenter and utility function. Arguments are "
     "left unchanged by a call. What a component learned is its own: the caller may overwrite or reuse the arrays and structures it passed in, the estimate and "
     "llr a decoder returned and any array the other components returned, without changing later results.",
     ["histories", "schedules"], "every interleaving of instances and every reuse of input and output buffers", "tests use one instance at a time and never touch returned arrays",
     DECS + [SEG, STAT, CLSF, DUD, EML, BMMF, INF, PERF, BITF],
     [("decode_buffer", f) for f in DECS] + [("OnlineDude / DUDE", DUD), ("EMLE", EML)], ["decode_buffer of every decoder", "BufferClassifier.classify", "BufferModel.add_buffer / predict", "denoise_*", "utility functions"])
HCD = "mavlink_utils/HC_dialect.py"
MIN = "mavlink_utils/minimal_dialect.py"
prop("C37", "What is sent is the dialect's frame and decodes to the values meant",
     "For every message of the HC and the minimal dialect and every value of its fields, packing or sending it produces exactly the MAVLink 1 frame of the "
     "definition: marker, length, the sender's sequence number, system and component, id, fields in wire order (strings zero padded), checksum. "
     "Sending writes it once and advances the sequence number modulo 256 and the packet and byte counts; packing has no effect on the sender; "
     "values that do not fit are refused with nothing sent, and a send whose write raises passes the error on and leaves sequence number and counts "
     "as they were. decode returns the same message, header and values (arrays whole, strings up to "
     "their first zero, missing payload bytes as zero, surplus ones ignored) exactly for known ids with right length and checksum, else raises "
     "MAVError; text, dictionary and JSON renderings show all of its values. Messages are equal when kind, sequence, ids and values are.",
     ["inputs", "histories"], "every message, every field value incl. extremes, arrays and strings, every sending history, every damaged frame",
     "no test covers the codecs; 155 and 6 messages with their own field orders, array layouts and checksum seeds",
     [HCD, MIN], [("MAVLink_message.pack", HCD), ("MAVLink.send", HCD), ("MAVLink.decode", HCD)], ["<message>_encode / _send", "MAVLink.send", "MAVLink.decode", "message accessors"])
prop("C38", "The stream parser hands out every frame once, however the bytes arrive",
     "Feeding a byte stream in any chunks, the robust parser's outputs depend only on the stream: from the front, a byte that is no start "
     "marker (254, or 253 for version 2) is bad data of one byte; otherwise the frame of the announced length (signature block included) is a "
     "message if its id is known, its checksum right and no unknown incompatibility flag set, else bad data. Every byte is in exactly one output or "
     "still held, in order; parse_char hands out at most one unit per call and parse_buffer all complete ones (None if none); the callback sees each "
     "once; packet, byte and error counts match; bytes_needed is at least 1 and, for a frame whose length is known, what is missing. The strict "
     "parser raises MAVError where the robust one reports bad data (once per run of junk bytes) and goes on after it.",
     ["inputs", "schedules", "histories"], "every byte stream and every chunking of it, robust and strict, of both dialects", "no test feeds the parser; chunking, resynchronisation and version 2 framing are all schedule dependent",
     [HCD, MIN], [("MAVLink.parse_char", HCD), ("MAVLink.parse_buffer", HCD), ("MAVLink.bytes_needed", HCD)], ["MAVLink.parse_char", "MAVLink.parse_buffer", "MAVLink.bytes_needed", "callback"])
RLB = "runs/clsutering_analysis/functions.py"
prop("C39", "Relabelling clusters is a one-to-one renaming by largest overlap",
     "relabel maps the n predicted labels one to one onto the n true labels such that no true and predicted label share more samples with each "
     "other than each does with its partner, and returns the predictions with every label renamed by that map; without true labels they are "
     "0..n-1 in turns.",
     ["inputs"], "every pair of label sequences", "no test covers it; ties, split classes and merged clusters decide the outcome",
     [RLB], [("relabel", RLB)], ["relabel"])
prop("C40", "A keyed receiver trusts only genuine, fresh signed frames",
     "A receiver of either dialect holding a secret key accepts, of well formed frames, those signed with that key (first six bytes of SHA-256 "
     "over key and all bytes before) whose timestamp is later than the last accepted one of the same link, system and component, or, on a stream "
     "not accepted before, at most 6,000,000 ticks behind the receiver's; all others exactly when the callback, asked once with the message id, "
     "allows them. Only genuine ones are marked signed (with their link); only they move the receiver's timestamp (to the largest seen) and the "
     "stream's, so no frame is accepted twice and no forgery blocks a stream. Counts of signed, good, bad, let-in and turned-away frames agree. "
     "Without a key every well formed frame is accepted unmarked.",
     ["histories", "inputs"], "every history of genuine, replayed, reordered, forged, unsigned and damaged frames on several streams",
     "no test signs anything; replay and blocking need particular histories",
     [HCD, MIN], [("MAVLink.check_signature", HCD), ("MAVLink.decode", HCD), ("MAVLink.check_signature", MIN)], ["MAVLink.decode", "MAVLink.parse_buffer", "MAVLink.signing", "get_signed / get_link_id"])
RTD = "data_generation/random_test_data_generation.py"
prop("C41", "Random test data covers its whole range evenly",
     "rand_uint8 returns an integer in 0..255 and rand_msg an id of the dialect, each value with the same probability; rand_bitstring(n) returns "
     "n independent fair bits as a Bits object, for every n including 0.",
     ["inputs", "histories"], "every seed of the generator, every n", "the tests draw from it and would pass with a narrower source",
     [RTD], [("rand_uint8", RTD), ("rand_msg", RTD), ("rand_bitstring", RTD)], ["rand_uint8", "rand_msg", "rand_bitstring"])
