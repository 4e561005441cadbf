"""Reference model of diagnostics: what is recorded, when, and what is exported."""
import copy
import json
import numpy as np
import scipy.linalg as splin
import scipy.signal as spsig
import aspcore.filter as fc
import aspsim.diagnostics.core as core
import aspsim.diagnostics.plot as dplot


# ------------------------------------------------------------------ counters
def spans(C, a, b, c, d, p):
    k = C(((a, b), (c, d)))
    first = k.upcoming()
    k.progress(p)
    second = k.upcoming(), k.saved_until
    k.progress(b)
    third = k.upcoming(), k.saved_until
    k.progress(d)
    return first, second, third, k.upcoming(), k.saved_until, k.num_values


def moments(C, a, b):
    k = C([a, b])
    first = k.upcoming()
    k.progress(a)
    second = k.upcoming(), k.saved_until
    k.progress(b)
    return first, second, k.upcoming(), k.num_values


def any_spans(C, ivs):
    k = C(ivs)
    return k.upcoming(), k.num_values


def given(C, ivs, n):
    k = C(ivs, n)
    return k.num_values


def every(C, f, n):
    k = C.from_frequency(f, n)
    first = k.upcoming()
    k.progress(first[1])
    return first, k.upcoming(), k.saved_until, k.num_values


def every_from_zero(C, f, n):
    k = C.from_frequency(f, n, include_zero=True)
    first = k.upcoming()
    k.progress(first[1])
    return first, k.upcoming(), k.num_values


def listed(C, a, b):
    k = C((a, b))
    first = k.upcoming()
    k.progress()
    second = k.upcoming()
    k.progress()
    return first, second, k.upcoming()


def stepped(C, step, n):
    k = C(step, n)
    first = k.upcoming()
    k.progress()
    return first, k.upcoming()


class IntervalCounter:
    def __init__(self, intervals, num_values=None):
        if isinstance(intervals, (list, tuple, np.ndarray)):
            if isinstance(intervals[0], (list, tuple, np.ndarray)):
                num = np.sum([iv[1] - iv[0] for iv in intervals])
            else:
                num = len(intervals)
                intervals = [[i - 1, i] for i in intervals]
            assert num_values is None
            num_values = num
            intervals = iter(intervals)
        self.num_values = num_values
        self.rest = intervals
        self.saved_until = 0
        self.start, self.end = next(self.rest, (np.inf, np.inf))

    @classmethod
    def from_frequency(cls, f, n, include_zero=False):
        first = 0 if include_zero else f
        return cls(zip(range(first - 1, n, f), range(first, n + 1, f)), int(np.ceil(n / f)))

    def upcoming(self):
        return self.start, self.end

    def progress(self, until):
        self.saved_until = until
        self.start = until
        assert self.end >= self.start
        if self.start == self.end:
            self.start, self.end = next(self.rest, (np.inf, np.inf))


class IndexCounter:
    def __init__(self, at, n=None):
        try:
            self.rest = iter(at)
        except TypeError:
            assert n is not None
            self.rest = iter(range(at, n + 1, at))
        self.now = next(self.rest, np.inf)

    def upcoming(self):
        return self.now

    def progress(self):
        self.now = next(self.rest, np.inf)


# ------------------------------------------------------------------ when something is saved and exported
def log_saved(Log, Rec, info, proc, sig, sig2, idx, now, full, idx2, now2, full2, at, n):
    log = Log(info)
    d = Rec("err", info, save_at=at, num_channels=n)
    log.add_diagnostic("rec", d)
    log.save_data(proc, sig, idx, now, full)
    log.save_data(proc, sig2, idx2, now2, full2)
    return d.get_output(), d.next_save()


def log_two(Log, Rec, info, proc, sig, idx, now, full, n):
    log = Log(info)
    a, b = Rec("err", info, num_channels=n), Rec("ref", info, num_channels=n)
    log.add_diagnostic("a", a)
    log["b"] = b
    log.save_data(proc, sig, idx, now, full)
    return a.get_output(), b.get_output(), "a" in log, log["b"], list(log)


def log_exported(Log, Rec, info, sig, idx, now, at, folder, n):
    log = Log(info)
    d = Rec("err", info, num_channels=n, export_at=at, export_func="npz")
    log.add_diagnostic("rec", d)
    log.prepare()
    log.save_data(None, sig, idx, now, True)
    log.dispatch(folder)
    return d.next_export()


def log_exported_any(log, folder):
    log.dispatch(folder)


def log_due(log):
    return log.export_this_idx()


def values_until(f, values, limit):
    return f(values, limit)


def values_among(f, values, times, limit):
    return f(values, times, limit)


def log_added(log, name, d):
    log.add_diagnostic(name, d)
    return log.diagnostics


class Logger:
    def __init__(self, info):
        self.sim_info = info
        self.diagnostics = {}

    def __contains__(self, k):
        return k in self.diagnostics

    def __iter__(self):
        for k in self.diagnostics:
            yield self.diagnostics[k]

    def __getitem__(self, k):
        return self.diagnostics[k]

    def __setitem__(self, k, d):
        self.add_diagnostic(k, d)

    def prepare(self):
        pass

    def add_diagnostic(self, k, d):
        assert k not in self.diagnostics
        self.diagnostics[k] = d

    def save_data(self, proc, sig, idx, now, full):
        shift = idx - now - 1
        for d in self.diagnostics.values():
            start, end = d.next_save()
            if now >= end:
                d.save(proc, sig, (start + shift, end + shift), (start, end))
                d.progress_save(end)
            elif full and now > start:
                d.save(proc, sig, (start + shift, now + shift), (start, now))
                d.progress_save(now)

    def export_this_idx(self):
        return [k for k, d in self.diagnostics.items() if d.next_export() <= d.save_at.saved_until]

    def dispatch(self, folder):
        if self.sim_info.plot_output != "none":
            while self.export_this_idx():
                for k in self.export_this_idx():
                    d = self.diagnostics[k]
                    for f, kw, pre in zip(d.export_function, d.export_kwargs, d.preprocess):
                        f(k, {k: d}, d.next_export(), folder, pre, print_method=self.sim_info.plot_output, **kw)
                    d.progress_export()


# ------------------------------------------------------------------ what every diagnostic does
def up_to(values, limit):
    values = np.atleast_2d(values)
    assert values.ndim == 2
    values = values[:, :limit]
    known = np.logical_not(np.isnan(values))
    assert np.isclose(known, known[0, :]).all()
    known = known[0, :]
    return values[:, known], np.arange(limit)[known]


def chosen(values, times, limit):
    values = np.atleast_2d(values)
    assert values.ndim == 2
    known = np.logical_not(np.isnan(values))
    assert np.isclose(known, known[0, :]).all()
    known = known[0, :]
    assert times.shape[-1] == values.shape[-1]
    times, values = times[known], values[:, known]
    if len(times) == 0:
        assert values.shape[-1] == 0
        return values, times
    early = times < limit
    return values[:, early], times[early]


class Diagnostic:
    def __init__(self, info, export_at, save_at, export_func, keep, kwargs, preprocess):
        self.sim_info = info
        assert isinstance(save_at, (core.IntervalCounter, IntervalCounter))
        self.save_at = save_at
        if export_at is None:
            export_at = info.export_frequency
        self.export_at = IndexCounter(export_at, info.tot_samples)
        if isinstance(export_func, str):
            export_func = [export_func]
        self.export_function = [type(self).export_functions[f] for f in export_func]
        if kwargs is None:
            kwargs = {}
        if isinstance(kwargs, dict):
            kwargs = [kwargs]
        assert len(kwargs) == len(self.export_function)
        self.export_kwargs = kwargs
        if preprocess is None:
            preprocess = [[] for _ in range(len(self.export_function))]
        elif callable(preprocess):
            preprocess = [preprocess]
        self.preprocess = [[f] if callable(f) else f for f in preprocess]
        assert len(self.preprocess) == len(self.export_function)
        self.keep_only_last_export = keep
        self.plot_data = {}

    def next_export(self):
        return self.export_at.upcoming()

    def next_save(self):
        return self.save_at.upcoming()

    def progress_save(self, until):
        self.save_at.progress(until)

    def progress_export(self):
        self.export_at.progress()

    def get_processed_output(self, now, pre):
        out = self.get_output()
        for f in pre:
            out = f(out)
        return out


class SignalDiagnostic(Diagnostic):
    export_functions = {"plot": dplot.function_of_time_plot, "npz": dplot.savenpz, "text": dplot.txt, "wav": dplot.create_audio_files, "spectrum": dplot.spectrum_plot}

    def __init__(self, sim_info, export_at=None, save_at=None, export_func="plot", keep_only_last_export=None, export_kwargs=None, preprocess=None):
        if save_at is None:
            save_at = IntervalCounter(((0, sim_info.tot_samples),))
        if keep_only_last_export is None:
            keep_only_last_export = False
        super().__init__(sim_info, export_at, save_at, export_func, keep_only_last_export, export_kwargs, preprocess)

    def get_processed_output(self, now, pre):
        out, times = up_to(self.get_output(), now)
        for f in pre:
            out = f(out)
        return out, times


class StateDiagnostic(Diagnostic):
    export_functions = {"plot": dplot.function_of_time_plot, "npz": dplot.savenpz}

    def __init__(self, sim_info, export_at=None, save_frequency=None, export_func="plot", keep_only_last_export=False, export_kwargs=None, preprocess=None):
        if save_frequency is None:
            raise NotImplementedError
        super().__init__(sim_info, export_at, IntervalCounter.from_frequency(save_frequency, sim_info.tot_samples), export_func, keep_only_last_export, export_kwargs, preprocess)

    def get_processed_output(self, now, pre):
        out, times = chosen(self.get_output(), self.time_indices, now)
        for f in pre:
            out = f(out)
        return out, times


class InstantDiagnostic(Diagnostic):
    export_functions = {"plot": dplot.plot_ir, "matshow": dplot.matshow, "npz": dplot.savenpz, "text": dplot.txt}

    def __init__(self, sim_info, save_at=None, export_func="plot", keep_only_last_export=False, export_kwargs=None, preprocess=None):
        export_at = sim_info.export_frequency if save_at is None else save_at
        if save_at is not None and isinstance(save_at, (tuple, list, np.ndarray)):
            assert not isinstance(save_at[0], (tuple, list, np.ndarray))
            save_at = IntervalCounter(save_at)
        else:
            save_at = IntervalCounter.from_frequency(export_at, sim_info.tot_samples)
        super().__init__(sim_info, export_at, save_at, export_func, keep_only_last_export, export_kwargs, preprocess)


# ------------------------------------------------------------------ the diagnostics
def state_of(d):
    return d.next_save(), d.next_export(), d.export_function, d.export_kwargs, d.preprocess, d.keep_only_last_export


def recorded(D, info, at, pos, kw, n, ch, proc, sig, a, b, c, e, now, pre):
    d = D("err", info, at, num_channels=n, channel_idx=ch, export_func="npz", keep_only_last_export=pos, preprocess=pre, export_kwargs=kw)
    d.save(proc, sig, (a, b), (c, e))
    return d.get_output(), d.get_processed_output(now, pre), state_of(d)


def recorded_default(D, info, proc, sig, a, b, c, e):
    d = D("err", info)
    d.save(proc, sig, (a, b), (c, e))
    return d.get_output(), state_of(d)


def power(D, info, at, chs, proc, sig, a, b, c, e, keep):
    d = D("err", info, at, chs, keep_only_last_export=keep)
    d.save(proc, sig, (a, b), (c, e))
    return d.get_output(), state_of(d)


def power_default(D, info, proc, sig, a, b, c, e):
    d = D("err", info)
    d.save(proc, sig, (a, b), (c, e))
    return d.get_output(), state_of(d)


def ratio(D, info, at, c1, c2, proc, sig, sig2, a, b, c, e, a2, b2, c2_, e2, keep):
    d = D("err", "ref", info, at, c1, c2, keep_only_last_export=keep)
    d.save(proc, sig, (a, b), (c, e))
    d.save(proc, sig2, (a2, b2), (c2_, e2))
    return d.get_output(), state_of(d)


def ratio_default(D, info, proc, sig, a, b, c, e):
    d = D("err", "ref", info)
    d.save(proc, sig, (a, b), (c, e))
    return d.get_output(), state_of(d)


def states(D, info, at, freq, dim, keep, proc, sig, i, j, t, u, now, pre):
    d = D("w", dim, info, at, freq, keep_only_last_export=keep)
    d.save(proc, sig, i, (t, t + 1))
    d.save(proc, sig, j, (u, u + 1))
    return d.get_output(), d.time_indices, d.get_processed_output(now, pre), state_of(d)


def state_power(D, info, at, freq, keep, proc, sig, i, j, t, u, now, pre):
    d = D("w", info, at, freq, keep_only_last_export=keep)
    d.save(proc, sig, i, (t, t + 1))
    d.save(proc, sig, j, (u, u + 1))
    return d.get_output(), d.time_indices, d.get_processed_output(now, pre), state_of(d)


def state_compared(D, f, info, at, freq, keep, proc, sig, i, j, t, u):
    d = D(f, "w", "v", info, at, freq, keep_only_last_export=keep)
    d.save(proc, sig, i, (t, t + 1))
    d.save(proc, sig, j, (u, u + 1))
    return d.get_output(), d.time_indices, state_of(d)


def state_summed(D, f, info, at, freq, keep, proc, sig, i, j, t, u):
    d = D(f, "w", info, at, freq, keep_only_last_export=keep)
    d.save(proc, sig, i, (t, t + 1))
    d.save(proc, sig, j, (u, u + 1))
    return d.get_output(), d.time_indices, state_of(d)


def eigen_over_time(D, info, at, freq, lo, hi, size, proc, sig, i, j, t, u):
    d = D("w", (lo, hi), info, at, freq, abs_value=size)
    d.save(proc, sig, i, (t, t + 1))
    d.save(proc, sig, j, (u, u + 1))
    return d.get_output(), d.time_indices, state_of(d)


def eigen(D, info, at, size, proc, sig, i, j):
    d = D("w", info, at, abs_value=size)
    d.save(proc, sig, i, j)
    return d.get_output(), state_of(d)


def snapshot(D, info, at, keep, proc, sig, i, j, now, pre):
    d = D("w", info, at, keep_only_last_export=keep)
    before = d.get_output()
    d.save(proc, sig, i, j)
    return before, d.get_output(), d.get_processed_output(now, pre), state_of(d)


def snapshot_default(D, info, proc, sig, i, j):
    d = D("w", info)
    d.save(proc, sig, i, j)
    return d.get_output(), state_of(d)


def difference(D, info, at, keep, proc, sig, i, j):
    d = D("w", "v", info, at, keep_only_last_export=keep)
    d.save(proc, sig, i, j)
    return d.get_output(), state_of(d)


def field(D, info, pos, a, b, proc, sig, a1, b1, a2, b2, g1, g2, arrays):
    d = D("err", pos, (a, b), info, arrays)
    d.save(proc, sig, (a1, b1), g1)
    d.save(proc, sig, (a2, b2), g2)
    return d.get_output(), d.pos_mic, d.plot_arrays, state_of(d)


def spectrum(D, info, a, b, n, seg, chs, proc, sig, sig2, a1, b1, a2, b2, g1, g2):
    d = D("err", info, (a, b), n, seg, chs)
    d.save(proc, sig, (a1, b1), g1)
    d.save(proc, sig2, (a2, b2), g2)
    return d.get_output(), state_of(d)


def summary(D, info, a, b, f, proc, sig, sig2, a1, b1, a2, b2, g1, g2):
    d = D("err", info, (a, b), f)
    d.save(proc, sig, (a1, b1), g1)
    d.save(proc, sig2, (a2, b2), g2)
    return d.get_output(), state_of(d)


def old_ratio(D, info, blk, a, b, c1, c2, proc, sig, sig2, a1, b1, a2, b2, g1, g2):
    d = D("err", "ref", info, blk, (a, b), c1, c2)
    d.save(proc, sig, (a1, b1), g1)
    d.save(proc, sig2, (a2, b2), g2)
    return d.get_output(), state_of(d)


def old_power(D, info, blk, a, b, c1, proc, sig, sig2, a1, b1, a2, b2, g1, g2):
    d = D("err", info, blk, (a, b), c1)
    d.save(proc, sig, (a1, b1), g1)
    d.save(proc, sig2, (a2, b2), g2)
    return d.get_output(), state_of(d)


def old_spectrum(D, info, blk, a, b, n, c1, proc, sig, sig2, a1, b1, a2, b2, g1, g2):
    d = D("err", info, blk, (a, b), n, c1)
    d.save(proc, sig, (a1, b1), g1)
    d.save(proc, sig2, (a2, b2), g2)
    return d.get_output(), state_of(d)


def named(f, obj):
    return f("a.b['k'][3].c")(obj)


def attribute(name):
    def get(obj):
        return obj.a.b["k"][3].c
    return get


class RecordSignal(SignalDiagnostic):
    def __init__(self, sig_name, *args, num_channels=1, channel_idx=None, **kwargs):
        super().__init__(*args, **kwargs)
        self.sig_name = sig_name
        self.channels = channel_idx
        if channel_idx is not None:
            if isinstance(channel_idx, int):
                self.channels = (channel_idx,)
            assert len(self.channels) == num_channels
        self.signal = np.full((num_channels, self.sim_info.tot_samples), np.nan)

    def save(self, proc, sig, local, glob):
        assert sig[self.sig_name].ndim == 2
        if self.channels is not None:
            self.signal[:, glob[0]:glob[1]] = sig[self.sig_name][self.channels, local[0]:local[1]]
        else:
            self.signal[:, glob[0]:glob[1]] = sig[self.sig_name][:, local[0]:local[1]]

    def get_output(self):
        return self.signal


class SignalPower(SignalDiagnostic):
    def __init__(self, sig_name, sim_info, export_at=None, sig_channels=slice(None), **kwargs):
        super().__init__(sim_info, export_at, **kwargs)
        self.sig_name, self.channels = sig_name, sig_channels
        self.power = np.full(sim_info.tot_samples, np.nan)

    def save(self, proc, sig, local, glob):
        self.power[glob[0]:glob[1]] = np.mean(np.abs(sig[self.sig_name][self.channels, local[0]:local[1]]) ** 2, axis=0)

    def get_output(self):
        return self.power


class SignalPowerRatio(SignalDiagnostic):
    def __init__(self, num, den, sim_info, export_at=None, numerator_channels=slice(None), denom_channels=slice(None), **kwargs):
        super().__init__(sim_info, export_at, **kwargs)
        self.num, self.den, self.nch, self.dch = num, den, numerator_channels, denom_channels
        self.ratio = np.full(sim_info.tot_samples, np.nan)
        n = sim_info.output_smoothing
        self.fnum = fc.create_filter(ir=np.ones((1, 1, n)) / n)
        self.fden = fc.create_filter(ir=np.ones((1, 1, n)) / n)

    def save(self, proc, sig, local, glob):
        a = self.fnum.process(np.mean(np.abs(sig[self.num][self.nch, local[0]:local[1]]) ** 2, axis=0, keepdims=True))
        b = self.fden.process(np.mean(np.abs(sig[self.den][self.dch, local[0]:local[1]]) ** 2, axis=0, keepdims=True))
        self.ratio[glob[0]:glob[1]] = a / b

    def get_output(self):
        return self.ratio


class States(StateDiagnostic):
    def start(self, shape):
        self.values = np.full((*shape, self.save_at.num_values), np.nan)
        self.time_indices = np.full(self.save_at.num_values, np.nan, dtype=int)
        self.n = 0

    def keep(self, value, glob):
        self.values[..., self.n] = value
        self.time_indices[self.n] = glob[0]
        self.n += 1

    def get_output(self):
        return self.values


class RecordState(States):
    def __init__(self, name, dim, *args, label_suffix_channel=None, **kwargs):
        super().__init__(*args, **kwargs)
        self.start((dim,) if isinstance(dim, int) else dim)
        self.get = core.attritemgetter(name)

    def save(self, proc, sig, local, glob):
        assert glob[1] - glob[0] == 1
        self.keep(self.get(proc), glob)


class Scalars(StateDiagnostic):
    def start(self):
        self.values = np.full(self.save_at.num_values, np.nan)
        self.time_indices = np.full(self.save_at.num_values, np.nan, dtype=int)
        self.n = 0

    def keep(self, value, glob):
        self.values[self.n] = value
        self.time_indices[self.n] = glob[0]
        self.n += 1

    def get_output(self):
        return self.values


class StatePower(Scalars):
    def __init__(self, name, sim_info, export_at=None, save_frequency=None, **kwargs):
        super().__init__(sim_info, export_at, save_frequency, **kwargs)
        self.start()
        self.get = core.attritemgetter(name)

    def save(self, proc, sig, local, glob):
        assert glob[1] - glob[0] == 1
        self.keep(np.mean(np.abs(self.get(proc)) ** 2), glob)


class StateComparison(Scalars):
    def __init__(self, f, a, b, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.start()
        self.f, self.a, self.b = f, core.attritemgetter(a), core.attritemgetter(b)

    def save(self, proc, sig, local, glob):
        assert glob[1] - glob[0] == 1
        self.keep(self.f(self.a(proc), self.b(proc)), glob)


class StateSummary(Scalars):
    def __init__(self, f, name, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.start()
        self.f, self.get = f, core.attritemgetter(name)

    def save(self, proc, sig, local, glob):
        assert glob[1] - glob[0] == 1
        self.keep(self.f(self.get(proc)), glob)


class EigenvaluesOverTime(StateDiagnostic):
    def __init__(self, name, eigval_idx, *args, abs_value=False, **kwargs):
        super().__init__(*args, **kwargs)
        assert isinstance(eigval_idx, (list, tuple, np.ndarray))
        assert len(eigval_idx) == 2
        self.get, self.which, self.size = core.attritemgetter(name), eigval_idx, abs_value
        self.values = np.full((eigval_idx[1] - eigval_idx[0] + 1, self.save_at.num_values), np.nan)
        self.time_indices = np.full(self.save_at.num_values, np.nan, dtype=int)
        self.n = 0

    def save(self, proc, sig, local, glob):
        assert glob[1] - glob[0] == 1
        m = self.get(proc)
        assert np.allclose(m, m.T.conj())
        v = splin.eigh(m, eigvals_only=True, subset_by_index=self.which)
        if self.size:
            v = np.abs(v)
        self.values[:, self.n] = v
        self.time_indices[self.n] = glob[0]
        self.n += 1

    def get_output(self):
        return self.values


class Eigenvalues(InstantDiagnostic):
    def __init__(self, name, *args, abs_value=False, **kwargs):
        super().__init__(*args, **kwargs)
        self.get, self.size = core.attritemgetter(name), abs_value
        self.v = None

    def save(self, proc, sig, local, glob):
        m = self.get(proc)
        assert np.allclose(m, m.T.conj())
        v = splin.eigh(m, eigvals_only=True)[None, None, :]
        self.v = np.abs(v) if self.size else v

    def get_output(self):
        return self.v


class RecordFilter(InstantDiagnostic):
    def __init__(self, name, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.get, self.prop = core.attritemgetter(name), None

    def save(self, proc, sig, local, glob):
        self.prop = copy.deepcopy(self.get(proc))

    def get_output(self):
        return self.prop


class RecordFilterDifference(InstantDiagnostic):
    def __init__(self, name, other, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.get, self.other, self.prop = core.attritemgetter(name), core.attritemgetter(other), None

    def save(self, proc, sig, local, glob):
        self.prop = copy.deepcopy(self.get(proc)) - copy.deepcopy(self.other(proc))

    def get_output(self):
        return self.prop


class SoundfieldPower(Diagnostic):
    export_functions = {"image": dplot.soundfield, "npz": dplot.savenpz}

    def __init__(self, sig_name, pos, use, info, plot_arrays=None, export_func="image", export_kwargs=None, preprocess=None):
        super().__init__(info, (use[1],), IntervalCounter((use,)), export_func, False, export_kwargs, preprocess)
        self.sig_name, self.pos_mic, self.plot_arrays = sig_name, pos, plot_arrays
        self.n = use[1] - use[0]
        assert self.n >= 1
        self.power = np.zeros(pos.shape[0])

    def save(self, proc, sig, local, glob):
        self.power[:] += np.sum(np.abs(sig[self.sig_name][:, local[0]:local[1]]) ** 2, axis=-1) / self.n

    def get_output(self):
        return self.power


class Summary(Diagnostic):
    export_functions = {"npz": dplot.savenpz, "text": dplot.txt, "spectrum": dplot.spectrum_plot}

    def __init__(self, sim_info, save_at, export_func="text", keep_only_last_export=False, export_kwargs=None, preprocess=None):
        if isinstance(save_at, core.IntervalCounter):
            raise NotImplementedError
        super().__init__(sim_info, [save_at[1]], IntervalCounter(((save_at[0], save_at[1]),)), export_func, keep_only_last_export, export_kwargs, preprocess)
        self.n = save_at[1] - save_at[0]


class SignalPowerSpectrum(Summary):
    def __init__(self, sig_name, info, span, num_channels, nperseg, channels=slice(None), **kwargs):
        super().__init__(info, span, export_func="spectrum", **kwargs)
        self.sig_name, self.channels, self.seg = sig_name, channels, nperseg
        self.signal = np.full((num_channels, self.n), fill_value=np.nan)
        self.at = 0

    def save(self, proc, sig, local, glob):
        n = local[1] - local[0]
        self.signal[:, self.at:self.at + n] = sig[self.sig_name][self.channels, local[0]:local[1]]
        self.at += n

    def get_output(self):
        f, s = spsig.welch(self.signal, self.sim_info.samplerate, nperseg=self.seg, scaling="spectrum", axis=-1)
        return np.mean(s, axis=0)


class SignalSummary(Summary):
    def __init__(self, sig_name, info, span, summary_func=None, **kwargs):
        super().__init__(info, span, **kwargs)
        self.sig_name, self.f, self.mean = sig_name, summary_func, 0

    def save(self, proc, sig, local, glob):
        part = sig[self.sig_name][:, local[0]:local[1]]
        self.mean += (np.sum(part) if self.f is None else self.f(part)) / self.n

    def get_output(self):
        return self.mean


class OldSummary(Diagnostic):
    export_functions = {"npz": dplot.savenpz, "text": dplot.txt, "spectrum": dplot.spectrum_plot}

    def __init__(self, sim_info, block_size, save_at, export_func="text", keep_only_last_export=False, export_kwargs=None, preprocess=None):
        if isinstance(save_at, core.IntervalCounter):
            raise NotImplementedError
        super().__init__(sim_info, [save_at[1]], IntervalCounter(((save_at[0], save_at[1]),)), export_func, keep_only_last_export, export_kwargs, preprocess)
        self.n = save_at[1] - save_at[0]


class OldRatio(OldSummary):
    def __init__(self, num, den, info, block_size, span, nch=slice(None), dch=slice(None), **kwargs):
        super().__init__(info, block_size, span, **kwargs)
        self.num, self.den, self.nch, self.dch = num, den, nch, dch
        self.a, self.b = 0, 0

    def save(self, proc, sig, local, glob):
        self.a += np.sum(np.mean(np.abs(sig[self.num][self.nch, local[0]:local[1]]) ** 2, axis=0)) / self.n
        self.b += np.sum(np.mean(np.abs(sig[self.den][self.dch, local[0]:local[1]]) ** 2, axis=0)) / self.n

    def get_output(self):
        return self.a / self.b


class OldPower(OldSummary):
    def __init__(self, sig_name, info, block_size, span, channels=slice(None), **kwargs):
        super().__init__(info, block_size, span, **kwargs)
        self.sig_name, self.channels, self.a = sig_name, channels, 0

    def save(self, proc, sig, local, glob):
        self.a += np.sum(np.mean(np.abs(sig[self.sig_name][self.channels, local[0]:local[1]]) ** 2, axis=0)) / self.n

    def get_output(self):
        return self.a


class OldSpectrum(OldSummary):
    def __init__(self, sig_name, info, block_size, span, num_channels, channels=slice(None), **kwargs):
        super().__init__(info, block_size, span, export_func="spectrum", **kwargs)
        self.sig_name, self.channels = sig_name, channels
        self.signal = np.full((num_channels, self.n), fill_value=np.nan)
        self.at = 0

    def save(self, proc, sig, local, glob):
        n = local[1] - local[0]
        self.signal[:, self.at:self.at + n] = np.abs(sig[self.sig_name][self.channels, local[0]:local[1]]) ** 2
        self.at += n

    def get_output(self):
        f, s = spsig.welch(self.signal, self.sim_info.samplerate, nperseg=512, scaling="spectrum", axis=-1)
        return np.mean(s, axis=0)


# ------------------------------------------------------------------ in pieces
def three_pieces(d, sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, c1, c2, c3, c4):
    """saves three adjoining pieces and looks at the values in between"""
    d.save(None, sig1, (a1, b1), (c1, c2))
    seen = d.get_output()
    d.save(None, sig2, (a2, b2), (c2, c3))
    d.get_output()
    d.save(None, sig3, (a3, b3), (c3, c4))
    return d.get_output()


def pieces_signal(D, info, n, ch, sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4):
    return three_pieces(D("err", info, num_channels=n, channel_idx=ch), sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4)


def pieces_power(D, info, chs, sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4):
    return three_pieces(D("err", info, None, chs), sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4)


def pieces_ratio(D, info, c1, c2, sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4):
    return three_pieces(D("err", "ref", info, None, c1, c2), sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4)


def pieces_field(D, info, pos, a, b, sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4):
    return three_pieces(D("err", pos, (a, b), info), sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4)


def pieces_spectrum(D, info, a, b, n, seg, chs, sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4):
    return three_pieces(D("err", info, (a, b), n, seg, chs), sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4)


def pieces_summary(D, info, a, b, f, sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4):
    return three_pieces(D("err", info, (a, b), f), sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4)


def pieces_old_ratio(D, info, blk, a, b, c1, c2, sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4):
    return three_pieces(D("err", "ref", info, blk, (a, b), c1, c2), sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4)


def pieces_old_power(D, info, blk, a, b, c1, sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4):
    return three_pieces(D("err", info, blk, (a, b), c1), sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4)


def pieces_old_spectrum(D, info, blk, a, b, n, c1, sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4):
    return three_pieces(D("err", info, blk, (a, b), n, c1), sig1, sig2, sig3, a1, b1, a2, b2, a3, b3, t1, t2, t3, t4)


def applied(f, x):
    return f(x)


def applied_twice(f, n, x, y):
    g = f(n)
    return g(x), g(y)


def applied_limits(f, lo, hi, x, y):
    g = f(lo, hi)
    return g(x), g(y)


def linear(x):
    return x


def db_power(x):
    return 10 * np.log10(x)


def db_amplitude(x):
    return 20 * np.log10(x)


def natural_log(x):
    return np.log(x)


def clip(lo, hi):
    return lambda x: np.clip(x, lo, hi)


def smooth(n):
    """mean over the last n values, as many columns as given"""
    def run(x):
        return spsig.oaconvolve(x, np.ones((1, n)) / n, mode="full", axes=-1)[:, :x.shape[-1]]
    return run
