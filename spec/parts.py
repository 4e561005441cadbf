"""What each step of a run does to what the earlier steps left behind (whatever that is).  Each function here states one step;
the steps it calls are the ones of the code and are stated by functions of their own."""
import numpy as np
import aspcore.filter as fc


def on(f, self):
    return f(self)


def on1(f, self, x):
    return f(self, x)


def on2(f, self, x, y):
    return f(self, x, y)


def on5(f, self, x, y, z, u, v):
    return f(self, x, y, z, u, v)


# ------------------------------------------------------------------ the run
def run(sim):
    sim._prepare_simulation()
    longest = np.max([p.block_size for p in sim.processors]) if sim.processors else max(1, sim.sim_info.sim_buffer // 4)
    sim.n_tot = 0
    while sim.n_tot < sim.sim_info.tot_samples + longest:
        sim.arrays.update(sim.n_tot)
        for p in sim.processors:
            if sim.n_tot % p.block_size == p.block_size - 1:
                p.process(p.block_size)
        sim.propagator.propagate(1)
        sim.diag_moved_from_propagate(longest)
        sim.diag.dispatch(sim.folder_path)
        sim.sig.idx += 1
        sim.n_tot += 1
    sim.diag.dispatch(sim.folder_path)


def one_save(sim, longest):
    if len(sim.processors) > 1:
        raise NotImplementedError
    full = sim.sig.idx + longest >= sim.sim_info.sim_buffer + sim.sim_info.sim_chunk_size
    proc = sim.processors[0] if len(sim.processors) == 1 else None
    sim.diag.save_data(proc, sim.sig, sim.sig.idx, sim.n_tot, full)
    if full:
        sim.sig._reset_signals()


# ------------------------------------------------------------------ signals
def new_signal(sig, name, dim):
    if isinstance(dim, int):
        dim = (dim,)
    assert name not in sig.signals
    sig.signals[name] = np.zeros(dim + (sig.sim_info.sim_buffer + sig.sim_info.sim_chunk_size,))


def shift(sig):
    before, chunk = sig.sim_info.sim_buffer, sig.sim_info.sim_chunk_size
    for name, s in sig.signals.items():
        sig.signals[name] = np.concatenate((s[..., -before:], np.zeros(s.shape[:-1] + (chunk,))), axis=-1)
    sig.idx -= chunk


def signals_made(C, info, arrays):
    s = C(info, arrays)
    return s.signals, s.idx


class Signals:
    def __init__(self, info, arrays):
        self.signals = {}
        self.idx = 0
        whole = info.sim_buffer + info.sim_chunk_size
        for a in arrays:
            assert a.name not in self.signals
            self.signals[a.name] = np.zeros((a.num, whole))
        if info.save_source_contributions:
            for s, m in arrays.mic_src_combos():
                assert s.name + "~" + m.name not in self.signals
                self.signals[s.name + "~" + m.name] = np.zeros((m.num, whole))


# ------------------------------------------------------------------ from the sources to the microphones
def propagate(prop, n):
    i, arrays, sig = prop.sig.idx, prop.arrays, prop.sig
    for s in arrays.free_sources():
        sig[s.name][..., i:i + n] = s.get_samples(n)
    for s, m in arrays.mic_src_combos():
        if s.dynamic or m.dynamic:
            prop.path_filters[s.name][m.name].update_ir(arrays.paths[s.name][m.name])
    for s, m in arrays.mic_src_combos():
        v = prop.path_filters[s.name][m.name].process(sig[s.name][..., i:i + n])
        sig[m.name][..., i:i + n] += v
        if prop.sim_info.save_source_contributions:
            sig[s.name + "~" + m.name][..., i:i + n] = v


def begin(prop):
    n = prop.sim_info.sim_buffer if prop.sim_info.start_sources_before_0 else 1
    end, arrays, sig = prop.sim_info.sim_buffer, prop.arrays, prop.sig
    for s in arrays.free_sources():
        sig[s.name][..., end - n:end] = s.get_samples(n)
    for s, m in arrays.mic_src_combos():
        v = prop.path_filters[s.name][m.name].process(sig[s.name][:, end - n:end])
        sig[m.name][:, end - n:end] += v
        if prop.sim_info.save_source_contributions:
            sig[s.name + "~" + m.name][:, end - n:end] = v
    sig.idx = end


# ------------------------------------------------------------------ what is recorded
def save_data(log, proc, sig, idx, now, full):
    for d in log.diagnostics.values():
        start, end = d.next_save()
        if now >= end:
            d.save(proc, sig, (idx - now + start - 1, idx - now + end - 1), (start, end))
            d.progress_save(end)
        elif full and now > start:
            d.save(proc, sig, (idx - now + start - 1, idx - 1), (start, now))
            d.progress_save(now)


def due(log):
    out = []
    for name, d in log.diagnostics.items():
        if d.next_export() <= d.save_at.saved_until:
            out.append(name)
    return out


def export_one(log, name, folder):
    d = log.diagnostics[name]
    when = d.next_export()
    for f, kw, pp in zip(d.export_function, d.export_kwargs, d.preprocess):
        f(name, {name: d}, when, folder, pp, print_method=log.sim_info.plot_output, **kw)
    d.progress_export()


def dispatch(log, folder):
    if log.sim_info.plot_output != "none":
        while log.export_this_idx():
            for name in log.export_this_idx():
                log.export_single_diag(name, folder)
        log.update_next_export()


def progress(ivs, until):
    ivs.saved_until = until
    ivs.start = until
    assert ivs.end >= ivs.start
    if ivs.start == ivs.end:
        ivs.start, ivs.end = next(ivs.intervals, (np.inf, np.inf))


def progress_index(c):
    c.upcoming_idx = next(c.idx_selection, np.inf)


# ------------------------------------------------------------------ moving arrays
def move(ar, now):
    if ar.dynamic:
        ar.pos = ar.trajectory.current_pos(now)
        ar.time_all.append(now)
        ar.pos_all.append(ar.pos)
        return True
    return False
