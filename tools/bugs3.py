from mkbug import mk
from bughead import HEAD

mk("C28-next-chunk", "C28", [("processor.py", "            leftInBuffer = chunk_size\n", "            leftInBuffer = chunk_size + buffer_size\n")], HEAD + """
b = [int(n) for n in pr.calc_block_sizes_with_buffer(60, 12, 10, 20)]
check(b == [18, 20, 20, 2], f"blocks run past the end of the buffer: {b}")
""", "a range longer than what is left in the buffer plus a whole chunk", "after the first shift a block of one chunk plus one buffer is announced, which does not fit into the buffer")

mk("C28-table-edge", "C28", [("utilities.py", "        block_len = np.min((num_samples - sample_counter, left_in_block))\n",
   "        # the last piece of a table is never played alone\n        block_len = np.min((num_samples - sample_counter, left_in_block if left_in_block > 1 else block_size))\n")], HEAD + """
import aspsim.utilities as util
b = [int(n) for n in util.calc_block_sizes(9, 3, 4)]
check(b == [1, 4, 4], f"a block runs past the end of the table: {b}")
""", "a start position exactly one sample before the end of the table", "the block that begins at the last sample of a table is taken for a whole one")

mk("C27-late-event", "C27", [("counter.py", "        self.event_def[name] = (freq, offset)\n", "        self.event_def[name] = (freq, self.idx + offset)\n")], HEAD + """
from aspsim.counter import EventCounter
c = EventCounter({"a": (4, 1)})
for _ in range(3):
    c.progress()
c.add_event("b", 4, 1)
for i in range(4, 20):
    c.progress()
    check(("a" in c.event) == ("b" in c.event) == (i % 4 == 1), f"events with the same period and offset at different times: {i} {c.event}")
""", "an event added after the counter has made steps that are no multiple of its period", "an event added later fires relative to the time it was added instead of at its offset")

mk("C27-long-phase", "C27", [("counter.py", "        self._phase_names = [phase_name for phase_name, phase_len in self.phase_lengths.items() if phase_len > 0]\n",
   "        self._phase_names = [phase_name for phase_name in self.phase_lengths if phase_name in self.start_idxs]\n")], HEAD + """
from aspsim.counter import PhaseCounter
c = PhaseCounter({"a": 2, "b": 0, "c": 3})
seen = []
for _ in range(7):
    seen.append(c.phase)
    c.progress()
check(seen == ["a", "a", "c", "c", "c", None, None], f"phases {seen}")
""", "a phase of length zero before another phase", "phases without length get the time of the phase after them")

mk("C16-filter-restart", "C16", [("diagnostics/diagnostics.py",
   "        num = self.smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))\n",
   "        if globInterval[1] - globInterval[0] >= self.sim_info.output_smoothing:\n            # nothing of the previous piece is left in the filter at the end of this one\n            self.smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)\n"
   "        num = self.smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))\n")], HEAD + """
s = setup(output_smoothing=5)
rng = np.random.default_rng(3)
sig = {"a": rng.normal(size=(1, 40)), "b": rng.normal(size=(1, 40))}
def run(cuts):
    d = dia.SignalPowerRatio("a", "b", s.sim_info)
    for a, b in zip(cuts, cuts[1:]):
        d.save(None, sig, (a, b), (a, b))
    return np.array(d.get_output())
check(np.allclose(run([0, 40]), run([0, 12, 30, 40]), equal_nan=True), "the logged ratio depends on how the run is cut")
""", "several pieces at least as long as the smoothing", "the smoothing filter of the numerator starts anew with every long piece, so its first samples are too small")

mk("C18-kept-channels", "C18", [("signal/sources.py", "        audio = audio[:num_channels, :]\n", "        audio = audio[-num_channels:, :]\n")], HEAD + """
import soundfile as sf
with tempfile.TemporaryDirectory() as d:
    x = np.stack([np.full(50, 0.1), np.full(50, 0.2), np.full(50, 0.3)])
    sf.write(d + "/x.wav", x.T, 1000, subtype="FLOAT")
    y = sources.load_audio_file(d + "/x.wav", num_channels=2)
check(y.shape == (2, 50) and np.allclose(y, x[:2]), "not the first channels are kept")
""", "a file with more channels than asked for", "the last channels are kept instead of the first")

mk("C21-closing-height", "C21", [("room/trajectory.py", "        if not np.allclose(points[-1,:], points[0,:]):\n", "        if not np.allclose(points[-1,:2], points[0,:2]):\n")], HEAD + """
t = tr.LinearTrajectory([[0, 0, 0], [1, 0, 0], [0, 0, 1.0]], 3, 30, mode="constant_time")
p = np.concatenate([t.current_pos(n) for n in range(91)])
check(np.allclose(t.current_pos(89), t.current_pos(0), atol=0.1), "the trajectory jumps at the end of its period")
""", "a trajectory in three dimensions whose last point is right above its first", "the last segment back to the first point is left out")

mk("C22-room-center", "C22", [("room/roomimpulseresponse.py", "            room.add_source((pos_src[src_idx, :] + pos_offset).T)\n", "            room.add_source(pos_src[src_idx, :] + room_size / 2)\n")], HEAD + """
import aspsim.room.roomimpulseresponse as rir
def ir(shift):
    shift = np.array(shift)
    return rir.ir_room_image_source_3d(np.array([[0.5, 0.2, 0.1]]) + shift, np.array([[-0.7, 0.3, 0.0]]) + shift, [4, 3, 2.5], shift, 200, 1000, 0.4, 2, 0, ["omni"], np.zeros((1, 3)))
check(np.allclose(ir([0, 0, 0]), ir([0.4, -0.3, 0.2])), "the impulse response depends on where the origin is")
""", "a room whose centre is not the origin", "sources are moved into the room's frame without its centre, microphones with it")

mk("C10-other-order", "C10", [("array.py", "        if not np.allclose(ar.pos,initialized[ar_name].pos):\n", "        # the order of the positions in a file is of no importance\n        if not np.allclose(np.sort(ar.pos, axis=0), np.sort(initialized[ar_name].pos, axis=0)):\n")], HEAD + """
def col(p):
    c = ar.ArrayCollection()
    c.add_array(ar.MicArray("m", np.array(p, dtype=float)))
    c.add_array(ar.ControllableSourceArray("s", np.array([[1.0, 1, 1]])))
    c.set_default_path_type("random")
    return c
check(not ar.prototype_equals(col([[0, 0, 0], [1, 2, 0]]), col([[0, 2, 0], [1, 0, 0]])), "arrays with other positions are taken for the same")
""", "two arrays with the same coordinates per axis in another order", "a session with other positions is reused")

mk("C19-own-seed", "C19", [("signal/sources.py", "        self.phase = self.rng.uniform(low=0, high=2 * np.pi, size=self.numSines)\n",
   "        self.phase = np.random.default_rng(self.numSines).uniform(low=0, high=2 * np.pi, size=self.numSines)\n")], HEAD + """
a, b = (sources.MultiSineSource(1, 1, [3.0, 5.0], 100, np.random.default_rng(k)).get_samples(40) for k in (1, 2))
check(not np.allclose(a, b), "the phases do not come from the generator given")
""", "two sources with different generators", "the phases are drawn from a generator of their own with a fixed seed")

mk("C20-crowded-centre", "C20", [("room/region.py", "        r = self.radius * np.sqrt(self.rng.uniform(0,1,num_points))\n        angle = 2 * np.pi * self.rng.uniform(0,1,num_points)\n        x = r * np.cos(angle) + self.center[0]\n        y = r * np.sin(angle) + self.center[1]\n        points = np.stack((x,y), axis=1)\n",
   "        r = self.radius * self.rng.uniform(0,1,num_points)\n        angle = 2 * np.pi * self.rng.uniform(0,1,num_points)\n        x = r * np.cos(angle) + self.center[0]\n        y = r * np.sin(angle) + self.center[1]\n        points = np.stack((x,y), axis=1)\n")], HEAD + """
import aspsim.room.region as reg
d = reg.Disc(2.0, (1.0, 0.0, 0.5), rng=np.random.default_rng(4))
p = d.sample_points(4000)
r = np.linalg.norm(p[:, :2] - np.array([1.0, 0.0]), axis=-1)
check(abs(np.mean(r < 1.0) - 0.25) < 0.05, f"share of points in the inner quarter: {np.mean(r < 1.0)}")
""", "the distribution of many sampled points", "points are crowded around the centre instead of spread over the disc")

mk("C25-old-notes", "C25", [("saveloadsession.py", "            tot_data = {**old_data, **dict_to_add}\n", "            tot_data = {**dict_to_add, **old_data}\n")], HEAD + """
import json
import aspsim.saveloadsession as sess
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    sess.add_to_sim_metadata(d, {"a": 1, "b": 1})
    sess.add_to_sim_metadata(d, {"b": 2, "c": 2})
    got = json.loads((d / "metadata_sim.json").read_text())
check(got == {"a": 1, "b": 2, "c": 2}, f"notes {got}")
""", "notes added twice under the same name", "what was noted first is kept, although another run overwrote it")

mk("C14-last-export", "C14", [("diagnostics/core.py", "            self.idx_selection = iter(range(idx_selection, tot_samples+1, idx_selection))\n", "            self.idx_selection = iter(range(idx_selection, tot_samples, idx_selection))\n")], HEAD + """
import aspsim.diagnostics.core as core
c = core.IndexCounter(10, 40)
seen = []
for _ in range(4):
    seen.append(c.upcoming())
    c.progress()
check(seen == [10, 20, 30, 40], f"exports at {seen}")
""", "a total that is a multiple of the export interval", "the export at the very end of the run is left out")

mk("C15-channel-zero", "C15", [("diagnostics/diagnostics.py", "        if self.channel_idx is not None:\n            self.signal[:, globInterval[0]:globInterval[1]] = \\\n",
   "        if np.any(self.channel_idx):\n            self.signal[:, globInterval[0]:globInterval[1]] = \\\n")], HEAD + """
s = setup()
d = dia.RecordSignal("x", s.sim_info, channel_idx=[0], num_channels=1)
sig = {"x": np.stack([np.full(10, 1.0), np.full(10, 2.0)])}
try:
    d.save(None, sig, (0, 10), (0, 10))
    ok = np.all(d.get_output()[:, :10] == 1.0)
except ValueError:
    ok = False
check(ok, "the first channel is not the one recorded")
""", "recording only channel 0 of a signal with several channels", "a selection of channel 0 only is taken for no selection")
