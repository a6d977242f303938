from vf import Model, Gen, Trace

A_PY = "CPython/numpy/scipy of /opt/venv and the harness's encoding of values are trusted"
A_DIALECT = "spec/dialect.json, derived from HC_dialect.xml by tools/mkdialect.py, is the reference wire format"
REGISTRY = {
    "C01": dict(driver="header", level="model_checking", min_events=1500,
                steps=[Model("HeaderSearch"), Gen("HeaderGen", sim=(250, 8), thorough_sim=(4000, 8)), Trace("HeaderTrace")],
                rule="spec-generated headers plus the exhaustive (first byte, id, length) acceptance table; an event is "
                     "nontrivial when its recorded content is new", assumptions=[A_PY, A_DIALECT]),
    "C02": dict(driver="header", level="model_checking", min_events=500,
                steps=[Model("HeaderSearch"), Gen("HeaderGen", sim=(250, 8), thorough_sim=(4000, 8)), Trace("HeaderTrace")],
                rule="spec-generated headers and bounds, every valid header with bounds at/below its length, random bytes",
                assumptions=[A_PY, A_DIALECT]),
    "C03": dict(driver="header", level="model_checking", min_events=900, steps=[Model("HeaderSearch"), Trace("HeaderTrace")],
                rule="all 155 messages: metadata rows and parser round trips / single-bit corruptions", assumptions=[A_PY, A_DIALECT]),
}


def seg(gen, **k):
    return dict(driver="seg", level="model_checking", assumptions=[A_PY, A_DIALECT],
                steps=[Model("MCSegmentation", thorough_cfg="MCSegmentation_thorough.cfg", min_distinct=20000),
                       Gen("SegGen", sim=gen, thorough_sim=(gen[0] * 12, gen[1])), Trace("SegTrace")], **k)


REGISTRY.update({
    "C04": seg((250, 9), min_events=400, rule="spec-generated channel pieces assembled into buffers, every scalar message alone / damaged / doubled"),
    "C05": seg((250, 9), min_events=400, rule="as C04, plus one wire-format frame of all 155 messages"),
    "C06": seg((150, 9), min_events=300, rule="every good/bad byte pattern up to length 7, random longer ones, spec-generated buffers reassembled"),
    "C07": seg((150, 9), min_events=600, rule="structures of spec-generated buffers; register / adhere / compare sequences with damaged buffers"),
    "C08": seg((150, 9), min_events=250, rule="every scalar message alone and twice, spec-generated buffers"),
})
A_TAB = "spec/tables.json (erf, ln, entropy, sigmoid graphs from Python's math module) is trusted"
FM = Model("MCFieldModel", thorough_cfg="MCFieldModel_thorough.cfg", min_distinct=500)
REGISTRY.update({
    "C09": dict(driver="fields", level="model_checking", min_events=1500, assumptions=[A_PY, A_TAB],
                steps=[FM, Gen("FieldGen", sim=(300, 18), thorough_sim=(4000, 18)), Trace("FieldTrace")],
                rule="spec-generated add/query histories over 5 windows and 9 types; bit patterns of every type"),
    "C10": dict(driver="fields", level="model_checking", min_events=1500, assumptions=[A_PY, A_TAB],
                steps=[FM, Gen("FieldGen", sim=(300, 18), thorough_sim=(4000, 18)), Trace("FieldTrace")],
                rule="spec-generated histories; classification of in-window, nearby, far, non-finite values"),
})
LAY = Model("MCLayout", min_distinct=1000)
REGISTRY.update({
    "C11": dict(driver="models", level="model_checking", min_events=300, assumptions=[A_PY, A_DIALECT], steps=[LAY, Trace("ModelTrace")],
                rule="every scalar message alone, random 1-3 message structures with gaps, noisy values, error positions"),
    "C12": dict(driver="models", level="model_checking", min_events=500, assumptions=[A_PY, A_DIALECT, A_TAB],
                steps=[LAY, FM, Gen("ModelGen", sim=(60, 14), thorough_sim=(800, 14)), Trace("ModelTrace")],
                rule="spec-generated learn/predict/inspect histories with save+reload interleaved"),
    "C13": dict(driver="models", level="model_checking", min_events=500, assumptions=[A_PY, A_DIALECT, A_TAB],
                steps=[LAY, FM, Gen("ModelGen", sim=(80, 14), thorough_sim=(1000, 14)), Trace("ModelTrace")],
                rule="spec-generated learn/predict/inspect histories over windows and structures"),
})
LRN = Model("MCLearning", thorough_cfg="MCLearning_thorough.cfg", min_distinct=50)
BITS = [Model("MCBits", thorough_cfg="MCBits_thorough.cfg", min_distinct=1000), Model("MCBits", cfg="MCBits_all.cfg", thorough_cfg="MCBits_all_thorough.cfg", min_distinct=1000)]
REGISTRY.update({p: dict(driver="entropy", level="model_checking", min_events=300, assumptions=[A_PY, A_DIALECT, A_TAB],
                         steps=[LRN, *BITS, Gen("DecoderGen", sim=(n, 12), thorough_sim=(n * 12, 12)), Trace("EntropyTrace")], rule=r)
                 for p, n, r in [
    ("C14", 60, "spec-generated channel histories into the three decoders over a scripted inner decoder; every second one probed after each step"),
    ("C15", 60, "spec-generated channel histories, 6 thresholds, 4 clip factors, windows, predefined models shorter/longer than the buffer"),
    ("C16", 60, "as C15 for hard words"),
    ("C17", 60, "spec-generated channel histories, 6 confidence schemes, flip-corrected or plain distributions")]})
CLS = Model("MCClassifier", thorough_cfg="MCClassifier_thorough.cfg", min_distinct=200)
REGISTRY.update({
    "C29": dict(driver="classifier", level="model_checking", min_events=600, assumptions=[A_PY, A_TAB],
                steps=[CLS, Gen("ClassGen", sim=(200, 18), thorough_sim=(3000, 18)), Trace("ClassifierTrace")],
                rule="spec-generated vector histories around 1-4 prototypes; all distance / weight schemes; 2-6 training buffers, 1-4 clusters"),
})
REGISTRY.update({p: dict(driver="classify", level="model_checking", min_events=300, assumptions=[A_PY, A_DIALECT, A_TAB],
                         steps=[LRN, *BITS, CLS, Gen("DecoderGen", sim=(n, 12), thorough_sim=(n * 12, 12)), Trace("ClassifyTrace")], rule=r)
                 for p, n, r in [
    ("C18", 60, "spec-generated channel histories over 1-4 telemetry templates; clustering, turns and single-model modes"),
    ("C19", 75, "as C18 with sum-product, weighted bit flipping and Gallager inner decoders, both reliability methods")]})
REGISTRY.update({p: dict(driver="mav", level="model_checking", min_events=600, assumptions=[A_PY, A_DIALECT, A_TAB],
                         steps=[LRN, CLS, Gen("DecoderGen", sim=(n, 12), thorough_sim=(n * 12, 12)), Trace("MavTrace")], rule=r)
                 for p, n, r in [
    ("C22", 50, "spec-generated channel histories over byte-only and wide telemetry; learned and given models, 1-3 labels, 1-3 passes; learned state compared after every buffer"),
    ("C23", 60, "as C22, every inner input compared"),
    ("C24", 60, "as C22 for both combined decoders"),
    ("C35", 60, "as C22 with debug on; analysis functions of all three decoders with arbitrary classifications, forced bits and error positions")]})
DUD = Model("MCDude", thorough_cfg="MCDude_thorough.cfg", min_distinct=100)
REGISTRY.update({p: dict(driver="denoise", level="model_checking", min_events=300, assumptions=[A_PY],
                         steps=[DUD, Gen("DudeGen", sim=(n, 12), thorough_sim=(n * 12, 12)), Trace("DudeTrace")], rule=r)
                 for p, n, r in [
    ("C25", 120, "spec-generated histories of samples, sequences, resets and context settings; binary (also asymmetric) and ternary channels, contexts 0-3"),
    ("C26", 120, "sequences of length 2k to 40 from sources with memory; binary and ternary channels, contexts 0-3")]})
REGISTRY.update({
    "C27": dict(driver="dudedec", level="model_checking", min_events=300, assumptions=[A_PY, A_DIALECT, A_TAB],
                steps=[DUD, CLS, Gen("DecoderGen", sim=(50, 12), thorough_sim=(600, 12)), Trace("DudeDecTrace")],
                rule="spec-generated channel histories over 1-3 templates; contexts 0-3, flip probabilities 0, 1/8, 1/4; clustering, turns and single-model modes"),
    "C28": dict(driver="dudedec", level="model_checking", min_events=600, assumptions=[A_PY, A_TAB],
                steps=[LRN, *BITS, Gen("DecoderGen", sim=(80, 12), thorough_sim=(1000, 12)), Trace("DudeDecTrace")],
                rule="spec-generated histories of soft and hard buffers, windows, thresholds, resets; single buffers and sequences"),
    "C30": dict(driver="dudedec", level="model_checking", min_events=500, assumptions=[A_PY],
                steps=[Model("MCTurbo", min_distinct=50), Gen("DecoderGen", sim=(80, 12), thorough_sim=(1000, 12)), Trace("DudeDecTrace")],
                rule="scripted constituent decoders with every success position, 1-4 rounds, debug on/off"),
})
UTL = Model("MCUtil", thorough_cfg="MCUtil_thorough.cfg", min_distinct=5000)
REGISTRY.update({p: dict(driver="util", level="model_checking", min_events=m, assumptions=[A_PY] + ([A_TAB] if p in ("C31", "C34") else []) + ([A_DIALECT] if p == "C41" else []),
                         steps=[UTL, Gen("WordGen", sim=(n, 26), thorough_sim=(n * 12, 26)), Trace("UtilTrace")], rule=r)
                 for p, n, m, r in [
    ("C31", 150, 600, "spec-generated data matrices (4 dtypes, with and without alphabet), rational distributions, typical sets with dyadic entropies, bad arguments"),
    ("C32", 120, 100, "spec-generated chains over 2-4 states of order 1-3: deterministic, sparse and dense; up to 1500 samples"),
    ("C33", 200, 500, "spec-generated label sequences and confusion matrices incl. never predicted / never right / absent classes; bit sequences of 4 dtypes"),
    ("C34", 120, 200, "mixtures with rational parameters over every word; fits of 4-12 samples from random starts"),
    ("C39", 200, 700, "spec-generated label sequences over 1-4 classes, shuffled, noisy, split and merged clusters; every labelling of 4 samples over 2 and 6 over 3 classes"),
    ("C41", 60, 80, "7680 draws of a byte and of a message id and 200 words of 0-65 bits per seed of the generator, under spec-chosen seeds"),
    ("C36", 150, 700, "spec-generated operand pairs of all four kinds, every pair of 4-bit integers, unequal lengths, bad types")]})
REGISTRY["C20"] = dict(driver="system", level="model_checking", min_events=600, assumptions=[A_PY, A_DIALECT, "the ldpc package's decoders satisfy the contract stated in MCCode"],
    steps=[Model("MCCode", cfg="MCCode_TRUE.cfg", thorough_cfg="MCCode_TRUE_thorough.cfg"), Model("MCCode", cfg="MCCode_FALSE.cfg", thorough_cfg="MCCode_FALSE_thorough.cfg"), Gen("SystemGen", sim=(165, 12), thorough_sim=(1650, 12)), Trace("SystemTrace")],
    rule="spec-generated histories (clean, few errors, model-bit, field-bit and heavy errors, changing telemetry) through all 11 decoder configurations with real sum-product / bit flipping decoders")
REGISTRY["C21"] = dict(driver="twins", level="model_checking", min_events=2000, assumptions=[A_PY],
    steps=[Model("MCTwins", thorough_cfg="MCTwins_thorough.cfg", min_distinct=100), Gen("TwinGen", sim=(324, 40), thorough_sim=(3600, 40)), Trace("TwinTrace")],
    rule="spec-generated interleavings of two twins and a third instance over 18 kinds of component; the second twin's caller reuses and overwrites its buffers and results")
STR = Model("MCStream", thorough_cfg="MCStream_thorough.cfg", min_distinct=1000)
REGISTRY.update({p: dict(driver="codec", level="model_checking", min_events=m, assumptions=[A_PY, A_DIALECT],
                         steps=[STR, Gen("StreamGen", sim=(n, 12), thorough_sim=(n * 40, 12)), Trace("CodecTrace")], rule=r)
                 for p, n, m, r in [
    ("C37", 150, 1500, "every message with extreme and random values, sent / packed / decoded; spec-generated mixes of sends, packs, refused values, damaged, short, long and version 2 frames; sequence number wrap"),
    ("C38", 250, 4000, "spec-generated byte streams of frames of both versions, damaged frames and junk, delivered in spec-chosen chunks; robust and strict parsing")]})
REGISTRY["C40"] = dict(driver="codec", level="model_checking", min_events=2000, assumptions=[A_PY, A_DIALECT, "hashlib's SHA-256 (the oracle of who signed what)"],
    steps=[Model("MCSigning", thorough_cfg="MCSigning_thorough.cfg", min_distinct=10000), Gen("SignGen", sim=(200, 20), thorough_sim=(6000, 20)), Trace("CodecTrace")],
    rule="spec-generated histories of genuine frames on 4 of 8 overlapping streams, replays, 8 kinds of forgery, stamps at the edge of what is fresh, unsigned and damaged frames; with and without key and callback; decode() and parse_buffer()")
