from mkbug import mk
from bughead import HEAD

mk("C17-sine-long-block", "C17", [("signal/sources.py", "        self.phase = (self.phase + num_samples * self.phase_per_sample) % (2 * np.pi)\n",
   "        # whole seconds are whole periods\n        self.phase = (self.phase + (num_samples % self.samplerate) * self.phase_per_sample) % (2 * np.pi)\n")], HEAD + """
def make():
    return sources.SineSource(2, 1, 10.25, 100, np.random.default_rng(1))
whole = make().get_samples(400)
s = make()
parts = np.concatenate([s.get_samples(n) for n in (30, 150, 20, 200)], axis=1)
check(np.allclose(whole, parts), "a sine asked for in blocks is another signal")
""", "a frequency that is no whole number and a block at least as long as the sample rate", "the phase after a long block assumes whole periods per second")
