"""Reference model of a simulation run.  One pass of the loop is one sample: moving arrays first, then the processor when a
whole block is available, then the free sources, then every path, then the recordings, then the exports."""
import numpy as np
import aspcore.filter as fc


def drive(Sim, Rec, sim_info, arrays, folder, rng, proc, channels):
    s = Sim(sim_info, arrays, folder, rng)
    s.add_processor([proc])
    d = Rec("err", sim_info, num_channels=channels)
    s.diag.add_diagnostic("rec", d)
    s.run_simulation()
    return d.get_output(), s.n_tot, s.sig.idx


def drive_alone(Sim, Rec, sim_info, arrays, folder, rng, channels):
    s = Sim(sim_info, arrays, folder, rng)
    d = Rec("err", sim_info, num_channels=channels)
    s.diag.add_diagnostic("rec", d)
    s.run_simulation()
    return d.get_output(), s.n_tot


def length(Sim, sim_info, arrays, folder, rng, proc):
    s = Sim(sim_info, arrays, folder, rng)
    s.add_processor([proc])
    s.run_simulation()
    return s.n_tot, s.sig.idx


def length_alone(Sim, sim_info, arrays, folder, rng):
    s = Sim(sim_info, arrays, folder, rng)
    s.run_simulation()
    return s.n_tot


def two_processors(Sim, sim_info, arrays, folder, rng, proc, other):
    s = Sim(sim_info, arrays, folder, rng)
    s.add_processor(proc)
    s.add_processor(other)
    s.run_simulation()


def handed_over(Sim, sim_info, arrays, folder, rng, proc):
    s = Sim(sim_info, arrays, folder, rng)
    s.add_processor(proc)
    return s.processors


def handed_over_list(Sim, sim_info, arrays, folder, rng, a, b):
    s = Sim(sim_info, arrays, folder, rng)
    s.add_processor([a])
    s.add_processor((b,))
    return s.processors


class Signals:
    def __init__(self, sim_info):
        self.signals = {}
        self.idx = 0
        self.before = sim_info.sim_buffer
        self.chunk = sim_info.sim_chunk_size

    def __getitem__(self, name):
        return self.signals[name]

    def create_signal(self, name, dim):
        if isinstance(dim, int):
            dim = (dim,)
        assert name not in self.signals
        self.signals[name] = np.zeros(dim + (self.before + self.chunk,))

    def shift(self):
        for name, s in self.signals.items():
            self.signals[name] = np.concatenate((s[..., -self.before:], np.zeros(s.shape[:-1] + (self.chunk,))), axis=-1)
        self.idx -= self.chunk


class Log:
    def __init__(self):
        self.recorders = {}

    def add_diagnostic(self, name, d):
        self.recorders[name] = d

    def save(self, proc, sig, idx, now, full):
        """global sample g is found at local position g + idx - now - 1"""
        for d in self.recorders.values():
            start, end = d.start, d.end
            shift = idx - now - 1
            if now >= end:
                d.save(proc, sig, (start + shift, end + shift), (start, end))
                d.until(end)
            elif full and now > start:
                d.save(proc, sig, (start + shift, now + shift), (start, now))
                d.until(now)


class RecordSignal:
    def __init__(self, sig_name, sim_info, num_channels=1):
        self.sig_name = sig_name
        self.signal = np.full((num_channels, sim_info.tot_samples), np.nan)
        self.spans = iter(((0, sim_info.tot_samples),))
        self.start, self.end = next(self.spans, (np.inf, np.inf))

    def save(self, proc, sig, local, glob):
        self.signal[:, glob[0]:glob[1]] = sig[self.sig_name][:, local[0]:local[1]]

    def until(self, g):
        self.start = g
        if self.start == self.end:
            self.start, self.end = next(self.spans, (np.inf, np.inf))

    def get_output(self):
        return self.signal


class Simulator:
    def __init__(self, sim_info, arrays, folder_path, rng=None):
        self.sim_info = sim_info
        self.arrays = arrays
        self.diag = Log()
        self.processors = []

    def add_processor(self, p):
        if isinstance(p, (list, tuple)):
            self.processors.extend(p)
        else:
            self.processors.append(p)

    def prepare(self):
        info, arrays = self.sim_info, self.arrays
        self.sig = Signals(info)
        for name in arrays.arrays:
            self.sig.create_signal(name, arrays.arrays[name].num)
        if info.save_source_contributions:
            for s in arrays.names_src:
                for m in arrays.names_mic:
                    self.sig.create_signal(s + "~" + m, arrays.arrays[m].num)
        for p in self.processors:
            for name in p.sig.keys():
                if name not in self.sig.signals:
                    self.sig.create_signal(name, p.sig[name].shape[:-1])
        self.filters = {}
        for s in arrays.names_src:
            for m in arrays.names_mic:
                if s not in self.filters:
                    self.filters[s] = {}
                moving = arrays.arrays[s].dynamic or arrays.arrays[m].dynamic
                self.filters[s][m] = fc.create_filter(ir=arrays.paths[s][m], sum_over_input=True, dynamic=moving)
        before = info.sim_buffer if info.start_sources_before_0 else 1
        self.send(info.sim_buffer - before, before)
        self.spread(info.sim_buffer - before, before)
        self.sig.idx = info.sim_buffer
        for p in self.processors:
            p.sig = self.sig
            p.prepare()

    def send(self, i, n):
        for s in self.arrays.names_free_src:
            self.sig.signals[s][..., i:i + n] = self.arrays.arrays[s].source.get_samples(n)

    def spread(self, i, n):
        for s in self.arrays.names_src:
            for m in self.arrays.names_mic:
                v = self.filters[s][m].process(self.sig.signals[s][..., i:i + n])
                self.sig.signals[m][..., i:i + n] += v
                if self.sim_info.save_source_contributions:
                    self.sig.signals[s + "~" + m][..., i:i + n] = v

    def run_simulation(self):
        if len(self.processors) > 1:
            raise NotImplementedError
        self.prepare()
        info = self.sim_info
        if self.processors:
            proc = self.processors[0]
            block = proc.block_size
        else:
            proc = None
            block = max(1, info.sim_buffer // 4)
        self.n_tot = 0
        while self.n_tot < info.tot_samples + block:
            self.arrays.update(self.n_tot)
            for p in self.processors:
                if self.n_tot % block == block - 1:
                    p.process(block)
            self.send(self.sig.idx, 1)
            for s in self.arrays.names_src:
                for m in self.arrays.names_mic:
                    if self.arrays.arrays[s].dynamic or self.arrays.arrays[m].dynamic:
                        self.filters[s][m].update_ir(self.arrays.paths[s][m])
            self.spread(self.sig.idx, 1)
            full = self.sig.idx + block >= info.sim_chunk_size + info.sim_buffer
            self.diag.save(proc, self.sig, self.sig.idx, self.n_tot, full)
            if full:
                self.sig.shift()
            self.sig.idx += 1
            self.n_tot += 1


class AudioProcessor:
    def __init__(self, sim_info, arrays, block_size, diagnostics={}, rng=None):
        self.sim_info, self.arrays, self.block_size = sim_info, arrays, block_size
        self.name = "Abstract Processor"
        self.metadata = {}
        self.rng = np.random.default_rng() if rng is None else rng


def processor_made(P, info, arrays, block, diagnostics, rng):
    p = P(info, arrays, block, diagnostics, rng)
    return p.rng, p.block_size, p.sim_info, p.arrays, p.name


def processor_plain(P, info, arrays, block):
    p = P(info, arrays, block)
    return p.rng, p.block_size
