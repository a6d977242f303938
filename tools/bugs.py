"""planted bugs: source for seeded/ (python3 tools/plant.py)"""
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


SEG = "inference/buffer_segmentation.py"
HDR = "protocol_meta/msg_header.py"
FRAME = '''
import struct
from protocol_meta import dialect_meta as meta
def crc(data):
    c = 0xFFFF
    for b in data:
        t = b ^ (c & 0xFF); t = (t ^ (t << 4)) & 0xFF
        c = ((c >> 8) ^ (t << 8) ^ (t << 3) ^ (t >> 4)) & 0xFFFF
    return c
def frame(mid, payload, extra, seq=0):
    body = bytes([len(payload), seq, 1, 1, mid]) + payload
    return b"\\xfe" + body + struct.pack("<H", crc(body + bytes([extra])))
HB = lambda seq=0, p=b"\\x00\\x00\\x00\\x00\\x06\\x08\\x00\\x00\\x03": frame(0, p, 50, seq)   # HEARTBEAT, 9 byte payload
'''

bug("b01_last_frame", "C05",
    [(SEG, "for byte_idx in range(len(buffer) - meta.protocol_overhead + 1):", "for byte_idx in range(len(buffer) - meta.protocol_overhead - 2):")],
    FRAME + '''
from inference import BufferSegmentation
bs = BufferSegmentation(meta.protocol_parser)
# SYSTEM_TIME-like short messages: find the shortest scalar message of the dialect and put it last
from mavlink_utils.HC_dialect import mavlink_map
mid = min((m for m in meta.msg_ids if mavlink_map[m].unpacker.size == meta.msgs_payload_length[m]), key=lambda m: meta.msgs_payload_length[m])
f = frame(mid, bytes(meta.msgs_payload_length[mid]), mavlink_map[mid].crc_extra)
st = bs.segment_buffer(HB() + f)[2]
assert st == {0: 0, len(HB()): mid}, st
''', "a message with a payload of at most 2 bytes ending exactly at the end of the buffer",
    "the last short message of a buffer is never looked at, although it is intact")

bug("b02_skip_after_false", "C05",
    [(SEG, "            if msg_parts[byte_idx] != MsgParts.UNKNOWN:\n                continue\n",
      "            if byte_idx < resume or msg_parts[byte_idx] != MsgParts.UNKNOWN:\n                continue\n"),
     (SEG, "        # Go over buffer once. Locate good messages, passing CRC\n", "        # Go over buffer once. Locate good messages, passing CRC\n        resume = 0\n"),
     (SEG, "                with contextlib.suppress(MAVError):\n", "                resume = byte_idx + len(candidate_buffer)\n                with contextlib.suppress(MAVError):\n")],
    FRAME + '''
from inference import BufferSegmentation
bs = BufferSegmentation(meta.protocol_parser)
h = HB()
false = bytes([254, 9, 0, 1, 1, 0])           # a header that happens to look valid, followed by a real message
st = bs.segment_buffer(false + h)[2]
assert st == {6: 0}, st
''', "a damaged message (valid header, wrong checksum) whose span contains the start of an intact one",
    "after a header whose checksum fails, the scan jumps over the claimed length and misses intact messages inside it")

bug("b03_badpart_tail", "C06",
    [(SEG, "            if msg_parts[byte_idx] == MsgParts.UNKNOWN:\n                length += 1\n            else:\n                if length > 0:  # previous byte was the last bad byte in a buffer part\n                    bad_buffer_parts.append((byte_idx - length, byte_idx))",
      "            if msg_parts[byte_idx] == MsgParts.UNKNOWN:\n                length += 1\n            else:\n                if length > 1 or (length > 0 and byte_idx > 1):  # previous byte was the last bad byte in a buffer part\n                    bad_buffer_parts.append((byte_idx - length, byte_idx))")],
    '''
import numpy as np
from inference import BufferSegmentation, MsgParts
r = BufferSegmentation.bad_buffer_idx(b"abc", np.array([MsgParts.UNKNOWN, MsgParts.HEADER, MsgParts.HEADER]))
assert r == [(0, 1)], r
''', "a single unknown byte at the very start of the buffer", "the one-byte bad part at offset 0 is not reported")

bug("b04_register_first", "C07",
    [(SEG, "        if self.adheres_to_structure(buffer):\n            self.received_buffers.append(buffer)\n            self.reception_count += 1\n        else:\n            raise ValueError()",
      "        self.reception_count += 1\n        if self.adheres_to_structure(buffer):\n            self.received_buffers.append(buffer)\n        else:\n            raise ValueError()")],
    FRAME + '''
from inference import BufferStructure
s = BufferStructure({0: 0})
try:
    s.register_buffer(bytes([254, 9, 0, 1, 1, 1]) + bytes(11))
except ValueError:
    pass
assert s.reception_count == 0 and s.received_buffers == []
''', "a rejected buffer followed by a look at the reception count", "a rejected buffer is counted as received")

bug("b05_bound_exclusive", "C02",
    [(HDR, "msg_len <= max_len):", "msg_len < max_len):")],
    '''
from protocol_meta import dialect_meta as meta, hamming_distance_2_valid_header
L = meta.msgs_payload_length
for m in meta.msg_ids:
    h = bytes([254, L[m], 0, 0, 0, m])
    assert hamming_distance_2_valid_header(h, max_len=L[m])[0] == 0, m
''', "a bound equal to the payload length of the nearest message", "a message exactly as long as the bound is excluded, so the distance is not minimal")

STAT = "inference/statistical_models.py"
ENT = "decoders/entropy_bitwise_decoder.py"
CLD = "decoders/classifiying_decoder.py"
DDC = "decoders/classifying_DUDE_decoder.py"
MAV = "decoders/mavlink_decoder.py"
CMB = "decoders/combined_decoder.py"
UNI = "decoders/combined_unified_decoder.py"
TRB = "decoders/turbo.py"
DUD = "inference/dude.py"
EML = "inference/entropy_mle.py"
CLS = "inference/clustering.py"
STUB = FRAME + '''
import numpy as np
from ldpc.decoder import LogSpaDecoder
class Stub(LogSpaDecoder):
    """inner decoder whose outcome is scripted; remembers what it was given"""
    def __init__(self, n, k):
        self.n, self.k, self.info_idx, self.script, self.got = n, k, np.array([i < k for i in range(n)]), [], []
    def info_bits(self, estimate):
        return np.asarray(estimate)[:self.k]
    def decode(self, word, max_iter=None):
        self.got.append(np.array(word))
        bits, ok = self.script.pop(0)
        bits = np.array(bits)
        return bits, (1. - 2 * bits) * 3, ok, 1, np.zeros(1), np.zeros(self.n)
bits = lambda b: np.unpackbits(np.frombuffer(b, dtype=np.uint8)).astype(np.int_)
soft = lambda b, a=2.: (1. - 2 * np.array(b)) * a
'''

bug("b06_window_list", "C09",
    [(STAT, "            self.samples = self.samples[-self.window_size:]\n", "            self.samples.pop(0)\n")],
    '''
from inference.statistical_models import FieldModel
m = FieldModel("x", "uint8_t", 3)
m.add_sample(1)
m.add_sample([10, 20, 30, 40])
assert m.samples == [20, 30, 40] and m.mean == 30, (m.samples, m.mean)
''', "several samples added at once, overflowing the window by more than one",
    "the window keeps more samples than its size, so old samples still shape mean and deviation")

bug("b07_stale_after_list", "C10",
    [(STAT, "            self.samples.append(sample)\n", "            self.samples.append(sample)\n            self._up2date = False\n"),
     (STAT, "            self.samples = self.samples[-self.window_size:]\n        self._up2date = False\n", "            self.samples = self.samples[-self.window_size:]\n")],
    '''
from inference.statistical_models import FieldModel
m = FieldModel("x", "float")
m.add_sample([1., 3.])
assert m.classify_value(2.)[0] == 1
m.add_sample([101., 103.])
assert m.classify_value(52.)[0] == 1, m.classify_value(52.)
''', "a value is classified, then a list of samples is added, then another value is classified",
    "validity is judged against the statistics of the window before the list was added")

bug("b08_load_window", "C12",
    [(STAT, 'window_size=vals["window_size"])', "window_size=window_size)")],
    '''
import os, tempfile
from inference.statistical_models import FieldModel, BufferModel
b = BufferModel(window_size=None)
b["a"] = FieldModel("a", "uint8_t", 2)
b.add_sample("a", 1)
b.add_sample("a", 2)
d = tempfile.mkdtemp()
f = os.path.join(d, "m.json")
try:
    b.save(f)
    c = BufferModel.load(f)
finally:
    os.unlink(f)
    os.rmdir(d)
for m in (b, c):
    m.add_sample("a", 9)
assert c["a"].mean == b["a"].mean == 5.5, (c["a"].mean, b["a"].mean)
''', "a field model with a window of its own, saved, reloaded, and taught more samples",
    "a reloaded field model uses the buffer model's window instead of its own")

bug("b09_forced_zero", "C01",
    [("protocol_meta/msg_header.py", "if force_msg_id is not None:", "if force_msg_id:")],
    '''
from protocol_meta import FrameHeader
h = FrameHeader.from_buffer(bytes([254, 3, 7, 1, 1, 33]), force_msg_id=0)
assert h.msg_id == 0 and h.length == 9, (h.msg_id, h.length)
''', "a header reconstructed with the forced message id 0 (HEARTBEAT)", "forcing message id 0 is ignored and the damaged id of the buffer is used")

bug("b10_learn_rectified", "C14",
    [(ENT, """        model_llr = self.model_prediction(channel_llr)  # type: ignore
        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
        model_bits = estimate[self.model_bits_idx]
        model_bytes = np.packbits(model_bits).tobytes()
        msg_parts, validity, structure = self.segmentor.segment_buffer(model_bytes)
        if MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered
            self.update_model(model_bits)
""", """        model_llr = self.model_prediction(channel_llr)  # type: ignore
        estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
        model_bits = estimate[self.model_bits_idx]
        model_bytes = np.packbits(model_bits).tobytes()
        msg_parts, validity, structure = self.segmentor.segment_buffer(model_bytes)
        if decode_success or MsgParts.UNKNOWN not in msg_parts:  # buffer fully recovered
            self.update_model(model_bits)
""")],
    STUB + '''
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder
good = bits(HB())
bad = good.copy(); bad[60] ^= 1
d = EntropyBitwiseDecoder(Stub(len(good), len(good)), len(good), .5, 5, 1)
d.ldpc_decoder.script = [(bad, False), (bad, True)]
d.decode_buffer(soft(bad))
assert d.model_data.size == 0
''', "a buffer whose plain decoding fails and whose rectified decoding yields a codeword that does not segment into messages",
    "telemetry that failed its checksums is learned")

bug("b11_window_plus_one", "C15",
    [(ENT, "        if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:", "        if (self.window_length is not None) and self.model_data.shape[1] > self.window_length + 1:")],
    STUB + '''
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder
f = [bits(HB(s)) for s in (0, 1, 1)]
n = len(f[0])
d = EntropyBitwiseDecoder(Stub(n, n), n, .5, 5, 1, window_length=2)
for w in f:
    d.ldpc_decoder.script = [(w, True)]
    d.decode_buffer(soft(w))
rx = f[2].copy(); rx[23] ^= 1                # last bit of the sequence number
d.ldpc_decoder.script = [(rx, False), (rx, False)]
d.decode_buffer(soft(rx))
assert d.ldpc_decoder.got[-1][23] < -2, d.ldpc_decoder.got[-1][23]   # structural (last two alike): pulled back to 1
''', "exactly window_length + 1 learned buffers, the oldest different", "the model keeps one buffer more than the window", count=2)

bug("b12_channel_not_learned", "C18",
    [(CLD, "        else:  # update model from channel if data is bad\n            self.update_model(channel_bits, label)", "        elif self.models_data[label].size > 0:  # update model from channel if data is bad\n            self.update_model(channel_bits, label)")],
    STUB + '''
from decoders.classifiying_decoder import ClassifyingEntropyDecoder
w = bits(HB())
d = ClassifyingEntropyDecoder(Stub(len(w), len(w)), len(w), .5, 5, 2, 2, cluster=0)
for ok in (True, False, False, True):        # label 1 sees a failure first
    d.ldpc_decoder.script = [(w, ok)]
    d.decode_buffer(soft(w))
assert [m.shape[1] for m in d.models_data] == [2, 2], [m.shape for m in d.models_data]
''', "the first buffer of some label fails to decode", "failed buffers of a label are not learned until its first success")

bug("b13_structure_of_other_label", "C22",
    [(MAV, "            elif self.buffer_structures[label] is not None:  # update", "            elif self.model.model_size > 0:  # update")],
    STUB + '''
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
w = bits(HB())
d = MavlinkRectifyingDecoder(Stub(len(w), len(w)), len(w), .3, .05, 2, 1.5, .5, cluster=0)
for ok in (True, False):                     # label 0 learns, then label 1 fails with no structure of its own
    d.ldpc_decoder.script = [(w, ok)]
    d.decode_buffer(soft(w), np.array([], dtype=np.int_))
assert d.model.model_size == 1
''', "two labels: one has learned, the other's first buffer fails", "a failed buffer of a label without structure is fed to the model (and crashes)")

bug("b14_max_llr_sign", "C23",
    [(MAV, "            max_llr = np.max(np.abs(observation))", "            max_llr = np.max(observation)")],
    STUB + '''
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
w = bits(HB())
n = len(w)
d = MavlinkRectifyingDecoder(Stub(n, n), n, .3, .05, 1, valid_factor=1, invalid_factor=1)
for _ in range(3):
    d.ldpc_decoder.script = [(w, True)]
    d.decode_buffer(soft(w), np.array([], dtype=np.int_))
rx = w.copy(); rx[100] ^= 1; rx[0] ^= 1
llr = np.where(rx == 1, -6., 2.)
d.ldpc_decoder.script = [(w, False)]
d.decode_buffer(llr, np.array([0, 100]))
got = d.ldpc_decoder.got[-1]
assert got[0] <= -6, got[0]
''', "a forced field while the strongest channel value belongs to a one bit", "forced bits get less than the largest channel magnitude, so the decoder may overrule them")

bug("b15_turbo_extrinsic", "C30",
    [(TRB, "            first_decoder_prior = llr2 - channel_word - second_decoder_prior  #", "            first_decoder_prior = llr2 - channel_word - first_decoder_prior  #")],
    STUB + '''
from decoders.turbo import TurboDecoder
class First:
    def __init__(self): self.got = []
    def decode_buffer(self, w):
        self.got.append(np.array(w)); return np.array(w < 0, dtype=np.int_), w + 1., False
class Second:
    def decode(self, w): return np.array(w < 0, dtype=np.int_), w + 10., False
f = First()
TurboDecoder(f, Second(), 3).decode_buffer(np.array([5., -5.]), np.array([]))
for g in f.got[1:]:
    assert np.allclose(g, [15, 5]), f.got
''', "at least two rounds without success", "the first decoder's own information is fed back to it as if it were new")

bug("b16_reset_keeps_counts", "C25",
    [(DUD, '        self._last_context = ()\n        self.contexts = {}\n', '        self._last_context = ()\n')],
    '''
import numpy as np
from inference.dude import OnlineDude
m = lambda: OnlineDude(np.array([[.9, .1], [.1, .9]]), np.array([[0, 1], [1, 0]]), 1, hard_decision=False)
a, b = m(), m()
a.denoise_sequence(np.array([0, 0, 0, 0, 0, 1]))
a.reset()
s = np.array([0, 1, 1, 0, 1])
assert np.allclose(a.denoise_sequence(s)[0], b.denoise_sequence(s)[0])
''', "a denoiser used, reset and used again", "counts of the sequence before the reset influence the next one")

bug("b17_dude_last_centre", "C26",
    [(DUD, "        for i in range(self.k, n - self.k):\n            context: tuple[", "        for i in range(self.k, n - self.k - 1):\n            context: tuple[")],
    '''
import numpy as np
from inference.dude import DUDE
d = DUDE(np.array([[.9, .1], [.1, .9]]), np.array([[0, 1], [1, 0]]), 1, hard_decision=False)
s = np.array([0, 1, 0, 0, 0, 1, 0])
est, cost = d.denoise_sequence(s)
# contexts (0,0): centres 1, 0, 1 -> counts [1, 2]
q = np.array([1., (np.array([1., 2.]) @ np.linalg.inv(np.array([[.9, .1], [.1, .9]])))[1]])
q = q * np.array([.1, .9]); q /= q.sum()
assert np.allclose(est[1], q), (est[1], q)
''', "the last symbol with two-sided context shares its context with earlier ones", "the last centre of the sequence is not counted")

bug("b18_emle_size", "C28",
    [(EML, "        if self.model_size < self.window_length or self.window_length == 0:", "        if self.model_size <= self.window_length or self.window_length == 0:")],
    '''
import numpy as np
from inference.entropy_mle import EMLE
e = EMLE(.1, .5, 2, 1, 1.)
x = np.array([4., -4.])
for _ in range(3):
    out = e.denoise_buffer(x.copy())[0]
c = 1 / (1 + np.exp(-1.))                    # confidence of a full window of two
y = e.denoise_buffer(x.copy())[0]
assert np.allclose(np.abs(y - x), c * np.log((1 + np.finfo(float).eps) / np.finfo(float).eps)), (y, c)
''', "more buffers than the window holds", "the confidence counts one buffer more than the window holds")

bug("b19_merge_weight", "C29",
    [(CLS, "                mx = (len(self.clusters[c1]) + len(self.clusters[c2]))/2", "                mx = max(len(self.clusters[c1]), len(self.clusters[c2]))")],
    '''
import numpy as np
from inference.clustering import BufferClassifier
from itertools import combinations, product
from utils.information_theory import hellinger
def reference(samples, k):
    cl = [[s] for s in samples]
    dist = lambda c: np.column_stack((1 - np.mean(c, axis=0), np.mean(c, axis=0)))
    while len(cl) > k:
        ds = [((len(cl[a]) + len(cl[b])) / 2 * np.mean(hellinger(dist(cl[a]), dist(cl[b]))), a, b) for a, b in combinations(range(len(cl)), 2)]
        ds.sort()
        if len(ds) > 1 and ds[1][0] - ds[0][0] < 1e-9:
            return None                      # ambiguous
        _, a, b = ds[0]
        cl[a] += cl.pop(b)
    return sorted(len(c) for c in cl)
r = np.random.RandomState(3)
n = 0
for _ in range(1500):
    s = [r.randint(0, 2, 9) for _ in range(6)]
    want = reference(s, 2)
    if want is None:
        continue
    n += 1
    b = BufferClassifier(7, 2)
    for x in s:
        b.classify(x)
    b.merge_clusters()
    got = sorted(len(c) for c in b.clusters)
    assert got == want, (s, got, want)
assert n > 20, n
''', "training clusters of different sizes competing to be merged", "clusters are merged in another order than their weighted distance")

bug("b20_train_counts", "C27",
    [(DDC, "        self.data_size[label] += 1\n", ""),
     (DDC, "                label: int = self.classifier.classify(channel_bits)\n", "                label: int = self.classifier.classify(channel_bits)\n                self.data_size[label] += 1\n"),
     (DDC, "                label = self.classifier\n", "                label = self.classifier\n                self.data_size[label] += 1\n"),
     (DDC, "            label = 0\n", "            label = 0\n            self.data_size[label] += 1\n")],
    STUB + '''
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder
w = bits(HB())
d = ClassifyingDudeDecoder(Stub(len(w), len(w)), len(w), 5, 4, 2, 1, 1, 1, .1, 1)
for i in range(3):
    d.ldpc_decoder.script = [(w, True)]
    d.decode_buffer(soft(w if i else 1 - w))
assert d.data_size == [0, 0], d.data_size
''', "a classifier in training", "training buffers raise the confidence of the last label")

bug("b21_second_pass_on_success", "C20",
    [(ENT, """                self.update_model(model_bits)
            return estimate, llr, decode_success, iterations, len(structure)

        # rectify llr
""", """                self.update_model(model_bits)
                return estimate, llr, decode_success, iterations, len(structure)

        # rectify llr
""")],
    STUB + '''
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder
w = bits(HB())
n = len(w)
d = EntropyBitwiseDecoder(Stub(n, n), n, .5, 50, 1)
for _ in range(3):
    d.ldpc_decoder.script = [(w, True)]
    d.decode_buffer(soft(w))
other = w.copy(); other[50:70] ^= 1
d.ldpc_decoder.script = [(other, True), (w, True)]
assert (d.decode_buffer(soft(other))[0] == other).all()
''', "a word that decodes but carries no complete telemetry, after telemetry has been learned",
    "a successfully decoded word is decoded again with the telemetry model and may turn into another one", also=["C14"])

bug("b22_shared_models", "C21",
    [(STAT, "    def __init__(self, models: dict[str, FieldModel] = None, window_size: int | None = None):", "    def __init__(self, models: dict[str, FieldModel] = {}, window_size: int | None = None):"),
     (STAT, "        self._field_models: dict[str, FieldModel] = {} if models is None else models", "        self._field_models: dict[str, FieldModel] = models")],
    '''
from inference.statistical_models import BufferModel
a, b = BufferModel(), BufferModel()
a.add_sample("x", 1, "uint8_t")
assert len(b) == 0
''', "two buffer models (or decoders) in one process", "what one model learns appears in the others")

bug("b23_forced_wrongly", "C35",
    [(MAV, "sum(tx[forced_bits] ^ model_bits) / forced_bits.size]", "sum(rx[forced_bits] ^ model_bits) / forced_bits.size]")],
    STUB + '''
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
w = bits(HB())
n = len(w)
d = MavlinkRectifyingDecoder(Stub(n, n), n, .3, .05, 1, 1.5, .5, debug=True)
for _ in range(3):
    d.ldpc_decoder.script = [(w, True)]
    d.decode_buffer(soft(w), np.array([], dtype=np.int_))
rx = w.copy(); rx[0] ^= 1; rx[100] ^= 1
d.ldpc_decoder.script = [(rx, False)]
q = d.decode_buffer(soft(rx), np.array([0, 100]))[-1]["forcing_quality"]
assert q[-1] == 0, q                         # everything was forced to its true value
''', "debugging with forced bits that correct errors", "correctly forced bits are reported as forced wrongly")

bug("b24_pad_bits", "C36",
    [("utils/bit_operations.py", "        a = bitstring.Bits(auto=a)", "        a = bitstring.Bits(bytes=np.packbits(a).tobytes())"),
     ("utils/bit_operations.py", "        b = bitstring.Bits(auto=b)", "        b = bitstring.Bits(bytes=np.packbits(b).tobytes())")],
    '''
import numpy as np, bitstring
from utils.bit_operations import hamming_distance
assert hamming_distance(np.array([1, 0, 1]), bitstring.Bits(bin="110")) == 2
''', "a bit array whose length is not a multiple of eight", "bit arrays are padded to whole bytes: mixed operands are refused, different lengths accepted")

bug("b25_unified_confidence", "C24",
    [(UNI, "        size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0\n        confidence",
      "        size = max(data.shape[1] if data.size > 0 else 0 for data in self.entropy_models_data)\n        confidence")],
    STUB + '''
from decoders.combined_unified_decoder import CombinedUnifiedDecoder
w = bits(bytes(14))
n = len(w)
d = CombinedUnifiedDecoder(Stub(n, n), n, .3, .05, 2, 1.5, .5, conf_center=3, conf_slope=1, entropy_threshold=.5, clipping_factor=50, cluster=0)
for c in range(2):
    for _ in range(20 if c else 2):
        d.update_entropy_model(w, c)
llr = d.entropy_model_prediction(0)[0]
want = 1 / (1 + np.exp(1)) * np.log((1 + np.finfo(float).eps) / np.finfo(float).eps)
assert np.allclose(llr, want), (llr[0], want)
''', "two labels with different numbers of learned buffers", "a label that has hardly been seen is trusted as much as the best known one")

bug("b26_confusion_order", "C33",
    [("utils/performance_analysis.py", "    no_true_positives = np.sum(cm, axis=1) == 0", "    no_true_positives = np.diag(cm) == 0")],
    '''
import numpy as np
from utils.performance_analysis import stats
cm = np.array([[3, 1], [2, 0]])
cm = np.array([[3, 0, 1], [2, 0, 0], [0, 0, 4]])   # class 1 occurs but is never predicted
_, rec, prec, f1, acc = stats(cm=cm)
assert prec[1] == 0 and f1[1] == 0, (prec, f1)
''', "a class that occurs but is never predicted", "a class the classifier never finds is reported with precision 1")

MET = "protocol_meta/protocol_meta.py"
HCD = "mavlink_utils/HC_dialect.py"

bug("b27_field_types_permuted", "C03",
    [(MET, "        unordered_fieldnames = {\n            obj.fieldnames[i]: obj.fieldtypes[i]  # type: ignore\n            for i in range(num_of_fields)}\n", ""),
     (MET, "unordered_fieldnames.get(ordered_fieldnames[i], \"\"))", "obj.fieldtypes[obj.orders[i]])  # type: ignore")],
    '''
from protocol_meta import dialect_meta as meta
from mavlink_utils.HC_dialect import mavlink_map
for mid, cls in mavlink_map.items():
    for name, typ in meta.msgs_fields[mid]:
        assert typ == cls.fieldtypes[cls.fieldnames.index(name)], (cls.name, name, typ)
''', "a message whose wire order is a permutation that is not its own inverse", "published field types are attached to the wrong field names")

bug("b28_nested_frame", "C04",
    [(SEG, "            if msg_parts[byte_idx] != MsgParts.UNKNOWN:\n                continue\n",
      "            if msg_parts[byte_idx] in (MsgParts.HEADER, MsgParts.CHECKSUM):\n                continue\n")],
    FRAME + '''
from inference import BufferSegmentation
from mavlink_utils.HC_dialect import mavlink_map
ok = [m for m in meta.msg_ids if mavlink_map[m].unpacker.size == meta.msgs_payload_length[m] and meta.msgs_payload_length[m] >= 20]
m = ok[0]
n = meta.msgs_payload_length[m]
outer = frame(m, HB() + bytes(n - len(HB())), mavlink_map[m].crc_extra)      # an intact message inside the payload of another
st = BufferSegmentation(meta.protocol_parser).segment_buffer(outer)[2]
assert st == {0: m}, st
''', "the payload of an intact message contains the bytes of another intact message", "overlapping messages are reported")

bug("b29_first_value_kept", "C08",
    [(SEG, "                fields[f'{parsed_msg.name}_{field}'] = parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]",
      "                fields.setdefault(f'{parsed_msg.name}_{field}', (parsed_msg.format_attr(field), parsed_msg.fieldtypes[type_idx]))")],
    FRAME + '''
from inference import BufferSegmentation
a, b = HB(0, bytes([1, 0, 0, 0, 6, 8, 0, 0, 3])), HB(1, bytes([2, 0, 0, 0, 6, 8, 0, 0, 3]))
f, _ = BufferSegmentation(meta.protocol_parser).get_msg_fields(a + b)
assert f["HEARTBEAT_custom_mode"][0] == 2, f
''', "the same message twice in one buffer", "a repeated message reports its first values instead of its last")

bug("b30_magic_never_damaged", "C11",
    [(STAT, "if error < len(bit_2_val_idx) and bit_2_val_idx[error] >= 0  #", "if error < len(bit_2_val_idx) and bit_2_val_idx[error] > 0  #")],
    '''
import numpy as np
from inference.statistical_models import BufferModel
assert BufferModel().find_damaged_fields(np.array([3]), {0: 0}, 17) == [("magic", 0)]
''', "an error in the very first field of the structure", "a damaged start marker of the first message is not reported")

bug("b31_repeated_field_prediction", "C13",
    [(STAT, "        for field_idx, field_name, value in zip(range(len(fields)), ordered_field_names, fields):\n            if field_name in self._field_models.keys():\n                val, std = self._field_models[field_name].classify_value(value)\n",
      "        known: dict[str, tuple[float, float]] = {}\n        for field_idx, field_name, value in zip(range(len(fields)), ordered_field_names, fields):\n            if field_name in self._field_models.keys():\n                if field_name not in known:\n                    known[field_name] = self._field_models[field_name].classify_value(value)\n                val, std = known[field_name]\n")],
    FRAME + '''
from inference.statistical_models import BufferModel
a, b = HB(0), HB(0, bytes([9, 9, 9, 9, 6, 8, 0, 0, 3]))
m = BufferModel()
for _ in range(3):
    m.add_buffer(a + a, {0: 0, len(a): 0})
p = [v for n, v, _ in m.predict(a + b, {0: 0, len(a): 0})[0] if n == "HEARTBEAT_custom_mode"]
assert p == [1, 0], p
''', "a message occurring twice in the structure with different values", "the second occurrence is judged by the first one's value")

bug("b32_stale_structure", "C16",
    [(ENT, "            return observation\n        # infer structure\n        # index of structural (low entropy) elements among codeword\n        self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]\n",
      "            return observation\n        # infer structure\n        # index of structural (low entropy) elements among codeword\n        if self.structural_elements.size != np.count_nonzero(self.entropy < self.entropy_threshold):  # it has changed\n            self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]\n")],
    STUB + '''
from decoders.entropy_bitwise_decoder import EntropyBitwiseFlippingDecoder
x = bytes([0, 0, 0, 0, 6, 8, 0, 0, 3])
y = bytes([1, 0, 0, 0, 6, 8, 0, 0, 3])
z = bytes([1, 0, 0, 0, 6, 8, 0, 0, 2])
A, B, C = bits(HB(0, x)), bits(HB(0, y)), bits(HB(0, z))
n = len(A)
d = EntropyBitwiseFlippingDecoder(Stub(n, n), n, .1, 1, 2)
def good(w):
    d.ldpc_decoder.script = [(w, True)]
    d.decode_buffer(w.copy())
def fail(w):
    d.ldpc_decoder.script = [(w, False), (np.zeros(n, dtype=int), False)]
    d.ldpc_decoder.got = []
    d.decode_buffer(w.copy())
    return d.ldpc_decoder.got[1]
def want(w, p, q):
    return np.where(p == q, p, w)
import itertools
W = [bits(HB(0, bytes([i, 0, 0, 0, j, 8, 0, 0, 3]))) for i in (0, 1, 2, 4) for j in (0, 1, 2, 4)]
for p, q, s in itertools.permutations(W, 3):
    good(p), good(q)
    fail(1 - p)
    good(s)
    assert (fail(1 - p) == want(1 - p, q, s)).all()
''', "a full window: the number of structural bits stays the same while the bits themselves change", "bits that stopped being constant are still forced, new constant ones are not")

bug("b33_variance_of_other", "C17",
    [(ENT, "            b_confidence *= 1 - np.exp(-0.1 / self.b_normalized_variance)", "            b_confidence *= 1 - np.exp(-0.1 / self.a_normalized_variance)")],
    STUB + '''
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder
w = bits(HB())
n = len(w)
def run(a, b):
    d = EntropyBitwiseWeightedDecoder(Stub(n, n), n, 1.1, 50, 10, a_conf_center=1, b_conf_center=1, confidence=4)
    for x in a: d.update_model_a(x)
    for x in b: d.update_model_b(x)
    return d
v = w.copy(); v[:60] ^= 1
d = run([w, v, w, v], [w, w, w, v])
va = 2 * np.mean(d.a_distribution[:, 1] * d.a_distribution[:, 0])
vb = 2 * np.mean(d.b_distribution[:, 1] * d.b_distribution[:, 0])
eps = np.finfo(float).eps
L = lambda p: np.log((p[:, 0] + eps) / (p[:, 1] + eps))
c = 1 / (1 + np.exp(-3 * .35))
got = d.model_prediction(np.full(n, 20.)) - 20
want = c * (1 - np.exp(-.1 / va)) * L(d.a_distribution) + c * (1 - np.exp(-.1 / vb)) * L(d.b_distribution)
assert np.allclose(got, want), (got[:3], want[:3])
''', "confidence scheme 4 with two models of different variance", "the second model is trusted according to the first one's variance")

bug("b34_weak_model_amplified", "C19",
    [(CLD, "                if max(np.abs(model_llr)) > max_sample:\n                    samples = channel_sample + model_llr*max_sample/max(np.abs(model_llr))\n                else:\n                    samples = channel_sample + model_llr\n",
      "                samples = channel_sample + model_llr * max_sample / max(np.abs(model_llr))\n")],
    '''
import numpy as np
from decoders.classifiying_decoder import ClassifyingEntropyDecoder
class D: info_idx = np.array([True] * 8)
d = ClassifyingEntropyDecoder(D(), 8, .5, 2, 0, 1)
ch, m = np.array([8., -8, 4, 4, -4, 8, 8, 8]), np.array([0, 0, -1., 0, 0, 0, 0, 0])
s, p = d._sample_and_priors(ch, m, 0)
assert np.allclose(s, [8, -8, 3, 4, -4, 8, 8, 8]), s
''', "a model whose llr is weaker than the channel", "a weakly confident model is blown up to the channel's strength")

bug("b35_alphabet_sorted", "C31",
    [("utils/information_theory.py", "            alphabet = np.unique(data).tolist()\n        alphabet_size = len(alphabet)\n", "            alphabet = np.unique(data)\n        alphabet = sorted(alphabet)\n        alphabet_size = len(alphabet)\n")],
    '''
import numpy as np
from utils.information_theory import prob
assert prob(np.array([[0, 0, 1, 0]]), [1, 0]).tolist() == [[.25, .75]]
''', "a given alphabet that is not in ascending order", "the columns no longer follow the given alphabet")

bug("b36_context_reversed", "C32",
    [("utils/random_sources.py", "        current_states = states[i - order:i]\n", "        current_states = states[i - order:i] if order < 3 else states[i - order:i][::-1]\n")],
    '''
import numpy as np
from utils.random_sources import generate_markov_samples
t = np.zeros((2, 2, 2, 2))
for a in range(2):
    for b in range(2):
        for c in range(2):
            t[a, b, c, a] = 1           # repeats the symbol three steps back
s = generate_markov_samples(t, [1, 0, 0], 30)
assert s.tolist() == [1, 0, 0] * 10, s
''', "a chain of order three or more that is not symmetric in its context", "the context is read newest first")

bug("b37_weights_ignored", "C34",
    [("inference/bmm.py", "        gamma = self.get_responsibilities(log_bernoullis)\n        return np.argmax(gamma, axis=1)", "        return np.argmax(log_bernoullis, axis=1)  # monotone in the responsibility")],
    '''
import numpy as np
from inference.bmm import BMM
b = BMM(2, 1)
b.mu, b.pi = np.array([[.5, .5], [.6, .6]]), np.array([.9, .1])
assert b.predict(np.array([[1, 1]])).tolist() == [0]
''', "components of clearly different weight and similar means", "samples are assigned to a component of smaller posterior weight")

bug("b38_sequence_wrap", "C37",
    [(HCD, "                self.seq = (self.seq + 1) % 256\n", "                self.seq = (self.seq + 1) % 255\n")],
    '''
import io
from mavlink_utils.HC_dialect import MAVLink
f = io.BytesIO()
m = MAVLink(f, 1, 1)
for i in range(300):
    m.heartbeat_send(6, 8, 0, 0, 0, 3) if i else m.heartbeat_send(6, 8, 0, 0, 0, 3)
b = f.getvalue()
n = len(b) // 300
assert [b[i * n + 2] for i in range(300)] == [i % 256 for i in range(300)]
''', "more than 254 messages on one connection", "sequence number 255 is never used: receivers see a lost packet each round")

bug("b39_prefix_error_sticks", "C38",
    [(HCD, "                raise MAVError(\"invalid MAVLink prefix '%s'\" % magic)\n            self.have_prefix_error = False\n", "                raise MAVError(\"invalid MAVLink prefix '%s'\" % magic)\n")],
    FRAME + '''
from mavlink_utils.HC_dialect import MAVLink, MAVError
p = MAVLink(None)
err = 0
for b in b"\\x01" + HB() + b"\\x02" + HB():
    try:
        p.parse_char(bytes([b]))
    except MAVError:
        err += 1
assert err == 2, err
''', "two runs of junk bytes with messages between them, strict parsing", "only the first run of junk of a connection is ever reported")

bug("b40_rename_collides", "C39",
    [("runs/clsutering_analysis/functions.py", "        reduced_prediction_counts[:, predicted_label] = -1\n", "        reduced_prediction_counts[:, predicted_label] = 0\n")],
    '''
import importlib.util, numpy as np
sp = importlib.util.spec_from_file_location("f", "runs/clsutering_analysis/functions.py")
m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
p = np.array([0, 0, 0, 0]); a = np.array([0, 1, 2, 0])      # one cluster swallowed everything
r, mp = m.relabel(p, 3, a)
assert sorted(mp.keys()) == [0, 1, 2] and sorted(mp.values()) == [0, 1, 2], mp
''', "clusters without any sample", "two predicted labels compete for one entry and the map is not one to one")

SIGNED_DEMO = '''
import hashlib, importlib, struct, array
m = importlib.import_module("mavlink_utils.%s")
def crc(data):
    x = m.x25crc(data); return x.crc
def signed(link, sysid, comp, ts, key=b"k" * 32):
    pl = bytes(9)
    body = bytes([9, 1, 0, 0, sysid, comp, 0, 0, 0]) + pl
    c = crc(list(body) + [50])
    f = b"\\xfd" + body + struct.pack("<H", c) + bytes([link]) + struct.pack("<Q", ts)[:6]
    return f + hashlib.sha256(key + f).digest()[:6]
rx = m.MAVLink(None); rx.signing.secret_key = b"k" * 32
def ok(f):
    try:
        return rx.decode(array.array("B", f)).get_signed()
    except m.MAVError:
        return False
'''
bug("b41_component_shares_stream", "C40",
    [("mavlink_utils/HC_dialect.py", "            stream_key = (link_id,srcSystem,srcComponent)\n", "            stream_key = (link_id,srcSystem)\n")],
    SIGNED_DEMO % "HC_dialect" + '''
assert ok(signed(1, 7, 1, 1000))
assert ok(signed(1, 7, 2, 990)), "another component of the vehicle, slightly behind"
assert not ok(signed(1, 7, 1, 1000)), "replayed"
''', "two components of one vehicle, the second with an earlier timestamp", "genuine frames of a component are rejected because another one's clock is ahead")
bug("b42_newest_frame_replayed", "C40",
    [("mavlink_utils/minimal_dialect.py", "if timestamp <= self.signing.stream_timestamps[stream_key]:", "if timestamp < self.signing.stream_timestamps[stream_key]:")],
    SIGNED_DEMO % "minimal_dialect" + '''
f = signed(1, 7, 1, 1000)
assert ok(f) and not ok(f), "the newest frame was accepted twice"
''', "replay of the newest frame of a stream", "the last frame of a stream can be replayed any number of times")
bug("b43_values_from_alphabet", "C41",
    [("data_generation/random_test_data_generation.py", "    ls = [random.randint(0, 1) for _ in range(n)]\n    s = \"\".join(map(str, ls))\n", "    s = format(random.randrange(2 ** (n - 1), 2 ** n), f\"0{n}b\") if n else \"\"\n")],
    '''
import random
from data_generation.random_test_data_generation import rand_bitstring
random.seed(3)
assert all(len(rand_bitstring(n)) == n for n in range(1, 70))
assert {rand_bitstring(5)[0] for _ in range(200)} == {True, False}
''', "the first bit over many words", "every random word begins with a one")
bug("b44_minimal_default_version", "C37",
    [("mavlink_utils/minimal_dialect.py", "mlen=len(self._payload), seq=mav.seq,", "mlen=len(self._payload), seq=mav.seq & 0x7f,")],
    '''
import mavlink_utils.minimal_dialect as m
class S:
    def __init__(self): self.d = []
    def write(self, b): self.d.append(bytes(b))
s = S(); mav = m.MAVLink(s, 1, 1)
for i in range(300):
    mav.pinger_data_send(i, 1.5, 2.5)
assert [f[2] for f in s.d] == [i % 256 for i in range(300)]
''', "more than 128 messages sent", "sequence numbers wrap at 128 and every second gap in the log goes unnoticed")
bug("b45_minimal_signature_left_behind", "C38",
    [("mavlink_utils/minimal_dialect.py", "                        self.expected_length += MAVLINK_SIGNATURE_BLOCK_LEN\n", "                        self.expected_length += MAVLINK_SIGNATURE_BLOCK_LEN - 1\n")],
    SIGNED_DEMO % "minimal_dialect" + '''
rx.signing.secret_key = None
rx.robust_parsing = True
out = rx.parse_buffer(signed(1, 7, 1, 1000) + signed(1, 7, 1, 1001))
assert [o.get_type() for o in out] == ["HEARTBEAT"] * 2, out
''', "signed version 2 frames in the stream", "signed frames are cut short and their rest is read as junk")
bug("b46_cluster_counts_wrap", "C29",
    [("inference/clustering.py", "np.array(dist * n_samples, dtype=np.int_)", "np.array(dist * n_samples, dtype=np.uint8)")],
    '''
import numpy as np
from inference import BufferClassifier
b = BufferClassifier(2, 1)
x = np.array([0, 1, 1, 0, 1, 0, 0, 0])
for _ in range(300):
    b.classify(x)
c = b.clusters[0]
assert len(c) == 300 and (c.hard_bits == x).all() and np.allclose(c.dist.sum(axis=1), 1), c.dist
''', "more than 255 buffers in one cluster", "the per-bit counts of a cluster wrap around: its distribution no longer sums to one and its centre is lost")
bug("b47_context_counts_wrap", "C25",
    [("inference/dude.py", "        if self._last_context not in self.contexts:\n            self.contexts[self._last_context] = np.zeros(self.alphabet_size)\n        self.contexts[self._last_context][observation] += 1\n        empirical_p = self.contexts[self._last_context][np.newaxis]\n        # update the context\n        self._last_context = (self._last_context + (observation,))[1:]\n        # estimate the state\n        if self.hard_decision:\n            posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[\n                                                                                           :, observation]\n            # posterior_p",
      "        if self._last_context not in self.contexts:\n            self.contexts[self._last_context] = np.zeros(self.alphabet_size, dtype=np.uint8)\n        self.contexts[self._last_context][observation] += 1\n        empirical_p = self.contexts[self._last_context][np.newaxis]\n        # update the context\n        self._last_context = (self._last_context + (observation,))[1:]\n        # estimate the state\n        if self.hard_decision:\n            posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[\n                                                                                           :, observation]\n            # posterior_p")],
    '''
import numpy as np
from inference.dude import OnlineDude
d = OnlineDude(np.array([[.75, .25], [.25, .75]]), np.array([[0, 1], [1, 0]]), 1)
y = np.array([0] * 258 + [1] + [0] * 40 + [1])
est, cost = d.denoise_sequence(y)
assert est[258] == 0 and est[-1] == 0, "a lone one among hundreds of zeros is noise"
''', "more than 255 equal symbols after the same context", "context counts wrap around and the most common symbol is taken for the rare one")
bug("b48_unbounded_window_is_not", "C13",
    [("inference/statistical_models.py", "        if (self.window_size is not None) and (len(self.samples) > self.window_size):\n            self.samples = self.samples[-self.window_size:]\n",
      "        limit = self.window_size or 200  # keep the memory of a model in check\n        if len(self.samples) > limit:\n            self.samples = self.samples[-limit:]\n")],
    '''
from inference.statistical_models import BufferModel
m = BufferModel()
for i in range(250):
    m.add_sample("alt", i // 125 * 10, "uint8_t")
assert abs(m["alt"].mean - 5) < 1e-9 and m["alt"].model_size == 250, (m["alt"].mean, m["alt"].model_size)
''', "more than 200 samples of a field in a model without a window", "models that were to consider all history silently forget it")
bug("b49_entropy_memory_capped", "C16",
    [("decoders/entropy_bitwise_decoder.py", "        if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:\n            # trim old messages according to window\n            self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]\n        self.distribution = prob(self.model_data, [0, 1])\n        self.entropy = entropy(self.distribution)\n\n    def model_prediction(self, observation: NDArray[np.int_])",
      "        window = min(self.window_length or 128, 128)\n        if self.model_data.shape[1] > window:\n            # trim old messages according to window\n            self.model_data = self.model_data[:, self.model_data.shape[1] - window:]\n        self.distribution = prob(self.model_data, [0, 1])\n        self.entropy = entropy(self.distribution)\n\n    def model_prediction(self, observation: NDArray[np.int_])")],
    '''
import numpy as np
from ldpc.decoder import LogSpaDecoder
from decoders.entropy_bitwise_decoder import EntropyBitwiseFlippingDecoder
class Stub(LogSpaDecoder):
    def __init__(self):
        self.info_idx = np.array([True] * 8 + [False] * 4)
    def info_bits(self, e):
        return e[self.info_idx]
d = EntropyBitwiseFlippingDecoder(Stub(), 8, 0.9, 1)
for i in range(300):
    d.update_model(np.array([0 if i < 170 else 1, 1, 0, 1, 0, 1, 0, 1]))
assert np.allclose(d.distribution[0], [170 / 300, 130 / 300]), d.distribution[0]
''', "more than 128 learned buffers, without a window or with a larger one", "the model forgets older buffers although it was told to consider all of them")

bug("b50_reload_rounds_wide_values", "C12",
    [("inference/statistical_models.py", '                model.add_sample(vals["samples"])\n', '                model.add_sample([float(v) for v in vals["samples"]])\n')],
    '''
import os, tempfile
from inference.statistical_models import BufferModel
m = BufferModel()
for _ in range(3):
    m.add_sample("uid", 2 ** 60 + 1, "uint64_t")
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.json")
    m.save(p)
    k = BufferModel.load(p)
assert k["uid"].bitwise_mean().tolist() == m["uid"].bitwise_mean().tolist()
assert k["uid"].classify_value(2 ** 60 + 1) == m["uid"].classify_value(2 ** 60 + 1)
''', "a model holding 64 bit values above 2**53 that is saved and loaded", "the loaded model predicts a rounded value and takes the true one for damaged")

bug("b51_frame_known_by_ends", "C05",
    [(SEG, "        self.protocol_parser = protocol_parser_handler\n", "        self.protocol_parser = protocol_parser_handler\n        self._intact: set[bytes] = set()\n"),
     (SEG, "                    self.protocol_parser(candidate_buffer)  # simply see if exception is raised or not\n",
      "                    ends = bytes(candidate_buffer[:meta.header_len]) + bytes(candidate_buffer[-2:])\n                    if ends not in self._intact:  # no need to parse a repeated frame again\n                        self.protocol_parser(candidate_buffer)  # simply see if exception is raised or not\n                        self._intact.add(ends)\n")],
    FRAME + '''
from inference import BufferSegmentation
from mavlink_utils.HC_dialect import MAVLink
s = BufferSegmentation(MAVLink(None).decode)
b = HB()
assert s.segment_buffer(b)[2] == {0: 0}
bad = b[:9] + bytes([b[9] ^ 4]) + b[10:]
assert s.segment_buffer(bad)[2] == {}
assert s.segment_buffer(b)[2] == {0: 0}
''', "a frame seen intact, then again with the same header and checksum but a damaged payload, on one segmentation object",
    "a damaged payload passes as intact: all of its bits are called valid and its values are learned")

bug("b52_label_from_all_bits", "C24",
    [(CMB, "                label: int = self.classifier.classify(channel_bits[self.model_bits_idx])\n",
      "                label: int = self.classifier.classify(channel_bits[:self.ldpc_decoder.k])\n")],
    STUB + '''
from decoders.combined_decoder import CombinedDecoder
z, o = np.zeros(64, dtype=np.int_), np.ones(64, dtype=np.int_)
m = 16
d = CombinedDecoder(Stub(64, 64), m, .3, .05, 2, 1.5, .5, conf_center=0, conf_slope=1, entropy_threshold=.5, clipping_factor=5, classifier_training_size=3)
def label(w):
    d.ldpc_decoder.script = [(w, True)] * 2
    return d.decode_buffer(soft(w), np.array([], dtype=np.int_))[4]
label(z), label(o)
a, b = label(z), label(o)
assert a != b and min(a, b) >= 0, (a, b)
w = z.copy(); w[m:] = 1
assert label(w) == a
w = o.copy(); w[m:] = 0
assert label(w) == b
''', "a model shorter than the telemetry, and buffers whose unmodelled part differs from their kind", "buffers are put with the wrong kind because of bits the model does not cover")

bug("b53_lost_send_counts", "C37",
    [(HCD, "                self.file.write(buf)\n                self.seq = (self.seq + 1) % 256\n", "                self.seq = (self.seq + 1) % 256\n                self.file.write(buf)\n")],
    '''
import io
from mavlink_utils.HC_dialect import MAVLink
class Link(io.BytesIO):
    down = False
    def write(self, b):
        if self.down:
            raise OSError("link down")
        return super().write(b)
f = Link()
m = MAVLink(f, 1, 1)
m.heartbeat_send(6, 8, 0, 0, 0, 3)
f.down = True
try:
    m.heartbeat_send(6, 8, 0, 0, 0, 3)
except OSError:
    pass
f.down = False
m.heartbeat_send(6, 8, 0, 0, 0, 3)
b = f.getvalue()
assert [b[2], b[len(b) // 2 + 2]] == [0, 1], b.hex()
''', "a write that fails once", "a sequence number is used up by a message that never left: the receiver sees a loss that did not happen")
