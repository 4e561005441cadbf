"""Reference counters."""
import numpy as np


def phases(C, lengths):
    c = C(lengths)
    a = c.phase, c.first_sample
    c.progress()
    b = c.phase, c.first_sample
    c.progress()
    d = c.phase, c.first_sample
    return a, b, d, c.start_idxs, c.phase_lengths


def asked(C, lengths, name):
    c = C(lengths)
    a = c.current_phase_is(name)
    c.progress()
    return a, c.current_phase_is(name)


def phases_later(c, name):
    c.progress()
    a = c.phase, c.first_sample, c.current_phase_is(name)
    c.progress()
    return a, c.phase, c.first_sample, c.idx


def events(C, d):
    c = C(d)
    a = c.event
    c.progress()
    b = c.event
    c.progress()
    return a, b, c.event, c.idx


def more_events(C, d, name, period, offset):
    c = C(d)
    c.add_event(name, period, offset)
    c.progress()
    return c.event


def events_added_later(c, name, period, offset):
    c.progress()
    c.add_event(name, period, offset)
    c.progress()
    return c.event, c.event_def[name]


def events_later(c):
    c.progress()
    return c.event, c.idx


class PhaseCounter:
    def __init__(self, lengths, verbose=False):
        assert isinstance(lengths, dict)
        self.verbose = verbose
        # a negative length means for ever
        self.phase_lengths = {k: n if n >= 0 else np.inf for k, n in lengths.items()}
        starts = np.cumsum(list(self.phase_lengths.values())).tolist()
        starts = [n if np.isinf(n) else int(n) for n in starts]
        starts.insert(0, 0)
        names = list(self.phase_lengths.keys())
        if starts[-1] < np.inf:
            names.append(None)
        else:
            starts.pop()
        self.start_idxs = {k: n for k, n in zip(names, starts)}
        # phases without length never come
        self._phase_names = [k for k, n in self.phase_lengths.items() if n > 0]
        self._start_idxs = [s for s, n in zip(self.start_idxs.values(), self.phase_lengths.values()) if n > 0]
        if None in self.start_idxs:
            self._phase_names.append(None)
            self._start_idxs.append(self.start_idxs[None])
        self.phase = None
        self.first_sample = True
        self.idx = 0
        self.next_phase()

    def next_phase(self):
        self.phase = self._phase_names.pop(0)
        self._start_idxs.pop(0)
        if len(self._start_idxs) == 0:
            self._start_idxs.append(np.inf)
        self.first_sample = True

    def progress(self):
        self.idx += 1
        if self.idx >= self._start_idxs[0]:
            self.next_phase()
        else:
            self.first_sample = False

    def current_phase_is(self, name):
        return self.phase == name


class EventCounter:
    def __init__(self, events):
        self.event_def = events
        self.event = []
        self.idx = 0

    def add_event(self, name, period, offset):
        self.event_def[name] = (period, offset)

    def progress(self):
        self.idx += 1
        self.event = [k for k, (period, offset) in self.event_def.items() if (self.idx - offset) % period == 0]
