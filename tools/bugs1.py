from mkbug import mk

from bughead import HEAD


mk("C01-contribution-start", "C01", [("simulator.py", '''                self.sig[f"{src.name}~{mic.name}"][:,end_sample - num_samples:end_sample] = propagated_signal''',
   '''                self.sig[f"{src.name}~{mic.name}"][:,:num_samples] = propagated_signal''')], HEAD + '''
s = setup(save_source_contributions=True)
s.add_free_source("src", np.array([[1, 0, 0.]]), sources.WhiteNoiseSource(1, 1, np.random.default_rng(3)))
s.add_mics("mic", np.zeros((1, 3)))
sim = quiet(s.create_simulator)
quiet(sim._prepare_simulation)
check(np.allclose(sim.sig["mic"], sim.sig["src~mic"]), "the only contribution is not the microphone signal")
''', "source contributions kept, and sources not started before time zero, so that the start-up slice is not the whole buffer",
   "the start-up contribution is stored at the beginning of the buffer instead of at the sample it belongs to")

mk("C06-process-before-move", "C06", [("simulator.py", '''            self.arrays.update(self.n_tot)

            for proc in self.processors:
                if self.n_tot % proc.block_size == proc.block_size-1:
                    proc.process(proc.block_size)
''', '''            for proc in self.processors:
                if self.n_tot % proc.block_size == proc.block_size-1:
                    proc.process(proc.block_size)

            self.arrays.update(self.n_tot)
''')], HEAD + '''
s = setup(array_update_freq=1)
s.add_free_source("src", np.array([[1, 0, 0.]]), sources.WhiteNoiseSource(1, 1, np.random.default_rng(3)))
t = tr.LinearTrajectory([[1, 0, 0], [4, 0, 0]], 1, s.sim_info.samplerate)
s.add_mics("mic", t)
s.arrays.set_default_path_type("direct") if hasattr(s.arrays, "set_default_path_type") else None
s.sim_info.reverb = "direct"
sim = quiet(s.create_simulator)
seen = []


class P(pr.AudioProcessor):
    def process(self, n):
        seen.append((sim.n_tot, sim.arrays["mic"].pos.copy()))


sim.add_processor(P(sim.sim_info, sim.arrays, 5))
quiet(sim.run_simulation)
check(len(seen) > 3 and all(np.allclose(p, t.current_pos(n)) for n, p in seen), "processor saw an outdated position")
''', "a processor that reads positions of a moving array, with an update due at the last sample of a block",
   "processors run before the arrays are moved and see the positions of the previous update")


mk("C03-one-axis-shift", "C03", [("simulator.py", "        for name, sig in self.signals.items():\n            self.signals[name] = np.concatenate(", "        for name, sig in self.signals.items():\n            if sig.ndim > 2:\n                sig[..., :self.sim_info.sim_buffer] = sig[..., -self.sim_info.sim_buffer:]\n                continue\n            self.signals[name] = np.concatenate(")], HEAD + """
s = setup(tot=60, buf=10, chunk=13)
s.add_free_source("src", np.array([[1, 0, 0.]]), sources.WhiteNoiseSource(1, 1, np.random.default_rng(3)))
s.add_mics("mic", np.zeros((1, 3)))
sim = quiet(s.create_simulator)
bad = []


class P(pr.AudioProcessor):
    def prepare(self):
        self.sig.create_signal("state", (2, 3))

    def process(self, n):
        if np.any(self.sig["state"][..., self.sig.idx:self.sig.idx + n] != 0):
            bad.append(self.sig.idx)
        self.sig["state"][..., self.sig.idx:self.sig.idx + n] += 1


sim.add_processor(P(sim.sim_info, sim.arrays, 3))
quiet(sim.run_simulation)
check(not bad, "samples of the future are not empty after a shift")
""", "a processor signal with more than two axes, and a run longer than the buffers", "signals with more than two axes keep old samples in the free part of the buffer after a shift")

mk("C07-paths-while-moving", "C07", [("array.py", """            changed = ar.update(glob_idx)
            if changed:
                changed_arrays.append(ar_name)

        already_updated = []
        
        for ar_name in changed_arrays:
            if""", """            changed = ar.update(glob_idx)
            if not changed:
                continue
            already_updated = changed_arrays
            if""")], HEAD + """
s = setup(array_update_freq=1)
t1 = tr.LinearTrajectory([[1, 0, 0], [4, 0, 0]], 1, s.sim_info.samplerate)
t2 = tr.LinearTrajectory([[0, 2, 0], [0, 9, 0]], 1, s.sim_info.samplerate)
s.add_mics("mic", t1)
s.add_free_source("src", t2, sources.WhiteNoiseSource(1, 1, np.random.default_rng(3)))
s.sim_info.reverb = "direct"
seen = []
sim = quiet(s.create_simulator)
orig = sim.arrays.path_generator.create_path


def spy(src, mic, *a, **k):
    seen.append((src.pos.copy(), mic.pos.copy()))
    return orig(src, mic, *a, **k)


sim.arrays.path_generator.create_path = spy
sim.arrays.update(0)
del seen[:]
sim.arrays.update(1000)
check(any(np.allclose(a, t2.current_pos(1000)) and np.allclose(b, t1.current_pos(1000)) for a, b in seen), "path not generated from the current positions of both arrays")
""", "a source and a microphone array that both move at the same update", "paths are regenerated while the arrays are still being moved, so that a path between two moving arrays uses one old position")
