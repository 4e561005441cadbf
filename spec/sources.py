"""Reference streams.  Each class keeps one position (or filter state) that advances by exactly the number of samples
handed out, draws noise one time step at a time for all channels, and starts again only where the table ends."""
import numpy as np
import scipy.signal as spsig
import aspcore.filter as fc
import aspcore.correlation as cr
import aspcore.utilities as coreutil
import scipy.linalg as splin
import soundfile as sf


def pick(rng):
    return np.random.default_rng(123456) if rng is None else rng


def cut(num_samples, start, length):
    left = length - start
    done = 0
    sizes = []
    while done < num_samples:
        n = np.min((num_samples - done, left))
        sizes.append(n)
        done += n
        left -= n
        if left == 0:
            left = length
    return sizes


class Sequence:
    def __init__(self, audio, amp_factor=1, end_mode="repeat"):
        assert isinstance(audio, np.ndarray)
        if audio.ndim == 1:
            audio = audio[None, :]
        elif audio.ndim != 2:
            raise ValueError
        self.num_channels = audio.shape[0]
        self.table = audio
        self.amp_factor = amp_factor
        self.end_mode = end_mode
        self.pos = 0

    def get_samples(self, num_samples):
        length = self.table.shape[1]
        sig = np.zeros((self.num_channels, num_samples))
        if self.end_mode == "repeat":
            i = 0
            for n in cut(num_samples, self.pos, length):
                sig[:, i:i + n] = self.table[:, self.pos:self.pos + n]
                self.pos = (self.pos + n) % length
                i += n
        elif self.end_mode == "zeros":
            raise NotImplementedError
        elif self.end_mode == "raise":
            if self.pos + num_samples > length:
                raise StopIteration
            sig = self.table[:, self.pos:self.pos + num_samples]
            self.pos += num_samples
        else:
            raise ValueError
        return sig * self.amp_factor


class WhiteNoiseSource:
    def __init__(self, num_channels, power, rng=None):
        self.num_channels = num_channels
        self.rng = pick(rng)
        self.set_power(power)

    def set_power(self, power):
        self.power = power
        self.std = np.sqrt(power)
        if isinstance(power, np.ndarray):
            assert power.ndim == 1
            assert power.shape[0] == self.num_channels or power.shape[0] == 1

    def get_samples(self, num_samples):
        return self.rng.normal(scale=self.std, size=(num_samples, self.num_channels)).T


class SineSource:
    def __init__(self, num_channels, power, freq, samplerate, rng=None):
        self.num_channels = num_channels
        self.rng = pick(rng)
        self.amplitude = np.sqrt(2 * power)
        self.phase = self.rng.uniform(low=0, high=2 * np.pi, size=(num_channels, 1))
        self.step = 2 * np.pi * freq / samplerate

    def get_samples(self, num_samples):
        out = self.amplitude * np.cos(self.step * np.arange(num_samples)[None, :] + self.phase)
        self.phase = (self.phase + num_samples * self.step) % (2 * np.pi)
        return out


class MultiSineSource:
    def __init__(self, num_channels, power, freq, samplerate, rng=None):
        self.num_channels = num_channels
        self.rng = pick(rng)
        if num_channels > 1:
            raise NotImplementedError
        if isinstance(power, (list, tuple, np.ndarray)):
            raise NotImplementedError
        if isinstance(freq, (list, tuple)):
            freq = np.array(freq)
        assert freq.ndim == 1
        self.num = len(freq)
        self.phase = self.rng.uniform(low=0, high=2 * np.pi, size=self.num)
        self.step = 2 * np.pi * freq / samplerate
        self.amplitude = np.sqrt(2 * power / self.num)

    def get_samples(self, num_samples):
        out = np.zeros((1, num_samples))
        for i in range(self.num):
            out += self.amplitude * np.cos(np.arange(num_samples) * self.step[i] + self.phase[i])[None, :]
            self.phase[i] = (self.phase[i] + num_samples * self.step[i]) % (2 * np.pi)
        return out


class Counter:
    def __init__(self, num_channels, start_number=0):
        self.num_channels = num_channels
        if num_channels > 1:
            raise NotImplementedError
        self.current_number = start_number

    def get_samples(self, num_samples):
        out = np.arange(self.current_number, self.current_number + num_samples)[None, :]
        self.current_number += num_samples
        return out


class BandlimitedNoiseSource:
    def __init__(self, num_channels, power, freqLim, samplerate, rng=None):
        self.num_channels = num_channels
        self.rng = pick(rng)
        assert len(freqLim) == 2
        assert freqLim[0] < freqLim[1]
        self.coef = spsig.butter(16, [f for f in freqLim], btype="bandpass", output="sos", fs=samplerate)
        test = spsig.sosfilt(self.coef, self.rng.normal(size=(num_channels, 10000)))
        self.test_power = np.mean(test ** 2)
        self.set_power(power)
        self.zi = np.tile(np.expand_dims(spsig.sosfilt_zi(self.coef), 1), (1, num_channels, 1))

    def set_power(self, power):
        self.amplitude = np.sqrt(power / self.test_power)

    def get_samples(self, num_samples):
        white = self.amplitude * self.rng.normal(size=(num_samples, self.num_channels)).T
        out, self.zi = spsig.sosfilt(self.coef, white, zi=self.zi, axis=-1)
        return out


class PulseTrain:
    def __init__(self, num_channels, amplitude, period_len, delay=0):
        def per_channel(x):
            if isinstance(x, (tuple, list, np.ndarray)):
                assert len(x) == num_channels
                return np.array(x)
            return np.ones(num_channels) * x
        self.num_channels = num_channels
        self.amplitude = per_channel(amplitude)
        self.period_len = per_channel(period_len)
        self.idx = np.zeros(num_channels) - per_channel(delay)

    def get_samples(self, num_samples):
        sig = np.zeros((self.num_channels, num_samples))
        for i in range(num_samples):
            hit = np.mod(self.idx, self.period_len) == 0
            sig[hit, i] = self.amplitude[hit]
            self.idx += 1
        return sig


class AutocorrSource:
    def __init__(self, num_channels, autocorr, rng=None):
        self.num_channels = num_channels
        self.rng = pick(rng)
        assert autocorr.shape[0] == num_channels
        assert cr.is_autocorr_func(autocorr)
        nums, dens = [], []
        self.noise_power = np.zeros(num_channels)
        for ch in range(num_channels):
            row = autocorr[ch:ch + 1, :]
            assert row.ndim <= 2
            if row.ndim == 2:
                assert row.shape[0] == 1
                row = row[0, :]
            a = splin.solve_toeplitz(row[:-1], row[1:])
            self.noise_power[ch] = row[0] - np.sum(row[1:] * a)
            nums.append(np.array([1], dtype=float))
            dens.append(np.concatenate(([1], -a)))
        self.filt = fc.IIRFilter(nums, dens)
        for ch in range(num_channels):
            self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch]), size=(num_channels, self.filt.order[ch])))

    def get_samples(self, num_samples):
        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)


class MLS:
    def __init__(self, num_channels, order, polynomial, state=None):
        self.num_channels = num_channels
        if num_channels > 1:
            raise NotImplementedError
        self.order, self.poly, self.state = order, polynomial, state

    def get_samples(self, num_samples):
        seq, self.state = spsig.max_len_seq(self.order, state=self.state, length=num_samples, taps=self.poly)
        return (seq * 2 - 1)[None, :]


class GoldSequenceSource:
    preferred = {
        5: [[2], [1, 2, 3]], 6: [[5], [1, 4, 5]], 7: [[4], [4, 5, 6]], 8: [[1, 2, 3, 6, 7], [1, 2, 7]],
        9: [[5], [3, 5, 6]], 10: [[2, 5, 9], [3, 4, 6, 8, 9]], 11: [[9], [3, 6, 9]],
    }

    def __init__(self, num_channels, power, order):
        assert num_channels <= 2 ** order - 1
        self.num_channels = num_channels
        self.length = 2 ** order - 1
        self.pos = 0
        self.set_power(power)
        if 5 <= order <= 11:
            seq1 = MLS(1, order, self.preferred[order][0]).get_samples(2 ** order - 1)[0, :]
            seq2 = MLS(1, order, self.preferred[order][1]).get_samples(2 ** order - 1)[0, :]
        elif order > 11:
            assert order % 2 == 1
            seq1 = MLS(1, order, None).get_samples(2 ** order - 1)[0, :]
            k = coreutil.get_smallest_coprime(order)
            seq2 = np.copy(seq1[(np.arange(self.length) * int(2 ** k + 1)) % self.length])
        self.table = np.zeros((num_channels, self.length))
        for i in range(num_channels):
            self.table[i, :] = np.negative(seq1 * np.roll(seq2, i))

    def set_power(self, power):
        if isinstance(power, (int, float)) or power.ndim == 0:
            self.power = np.ones((1, 1)) * power
        elif power.ndim == 1:
            self.power = power[:, None]
        elif power.ndim == 2:
            assert power.shape[-1] == 1
            self.power = power
        else:
            raise ValueError
        self.amplitude = np.sqrt(self.power)

    def get_samples(self, num_samples):
        out = np.zeros((self.num_channels, num_samples))
        i = 0
        for n in cut(num_samples, self.pos, self.length):
            out[:, i:i + n] = self.table[:, self.pos:self.pos + n]
            i += n
            self.pos = (self.pos + n) % self.length
        return out * self.amplitude


# ------------------------------------------------------------------ drivers
def three_blocks(Src, a, b, c, n1, n2, n3):
    s = Src(a, b, c)
    x = s.get_samples(n1)
    y = s.get_samples(n2)
    z = s.get_samples(n3)
    return x, y, z


def three_blocks2(Src, a, b, n1, n2, n3):
    s = Src(a, b)
    x = s.get_samples(n1)
    y = s.get_samples(n2)
    z = s.get_samples(n3)
    return x, y, z


def three_blocks4(Src, a, b, c, d, n1, n2, n3):
    s = Src(a, b, c, d)
    x = s.get_samples(n1)
    y = s.get_samples(n2)
    z = s.get_samples(n3)
    return x, y, z


def three_blocks5(Src, a, b, c, d, e, n1, n2, n3):
    s = Src(a, b, c, d, e)
    x = s.get_samples(n1)
    y = s.get_samples(n2)
    z = s.get_samples(n3)
    return x, y, z


def new_power3(Src, a, b, c, p2, n1, n2):
    s = Src(a, b, c)
    x = s.get_samples(n1)
    s.set_power(p2)
    return x, s.get_samples(n2)


def new_power5(Src, a, b, c, d, e, p2, n1, n2):
    s = Src(a, b, c, d, e)
    x = s.get_samples(n1)
    s.set_power(p2)
    return x, s.get_samples(n2)


def played(Src, audio, amp, n1, n2, n3):
    s = Src(audio, amp, "repeat")
    x = s.get_samples(n1)
    y = s.get_samples(n2)
    z = s.get_samples(n3)
    return x, y, z


def played_once(Src, audio, amp, n1, n2, n3):
    s = Src(audio, amp, "raise")
    x = s.get_samples(n1)
    y = s.get_samples(n2)
    z = s.get_samples(n3)
    return x, y, z


def played_last(Src, audio, amp, n1):
    s = Src(audio, amp, "raise")
    return s.get_samples(n1)


def seq_modes(Src, audio, amp, mode, n1):
    s = Src(audio, amp, mode)
    return s.get_samples(n1)


def gold(Src, C, power, n1, n2):
    s = Src(C, power, 7)
    x = s.get_samples(n1)
    return x, s.get_samples(n2)


def gold_any(Src, C, power, order, n1, n2):
    s = Src(C, power, order)
    x = s.get_samples(n1)
    return x, s.get_samples(n2)


def made2(Src, a, b, n):
    s = Src(a, b)
    return s.num_channels, s.get_samples(n)


def made3(Src, a, b, c, n):
    s = Src(a, b, c)
    return s.num_channels, s.get_samples(n)


def made4(Src, a, b, c, d, n):
    s = Src(a, b, c, d)
    return s.num_channels, s.get_samples(n)


def made5(Src, a, b, c, d, e, n):
    s = Src(a, b, c, d, e)
    return s.num_channels, s.get_samples(n)


def made_plain1(Src, a, n):
    s = Src(a)
    return s.num_channels, s.get_samples(n)


def made_plain2(Src, a, b, n):
    s = Src(a, b)
    return s.num_channels, s.get_samples(n)


def made_plain3(Src, a, b, c, n):
    s = Src(a, b, c)
    return s.num_channels, s.get_samples(n)


def made_plain4(Src, a, b, c, d, n):
    s = Src(a, b, c, d)
    return s.num_channels, s.get_samples(n)


def power_set(Src, C, power, c, p2):
    s = Src(C, power, c)
    s.set_power(p2)
    return s.num_channels


def loaded(f, name, rate, channels, verbose):
    return f(name, rate, channels, verbose)


def loaded_plain(f, name):
    return f(name)


def applied(f, x):
    return f(x)


def load_audio_file(name, rate=None, channels=None, verbose=False):
    """rows are channels; only the first ones are kept; resampled to the asked rate"""
    audio, own_rate = sf.read(name)
    assert audio.ndim == 2
    audio = audio.T
    if channels is not None:
        audio = audio[:channels, :]
    if rate is None or rate == own_rate:
        return audio
    assert own_rate > rate
    if own_rate % rate == 0:
        up, down = 1, own_rate // rate
    else:
        up, down = coreutil.simplify_ratio(rate, own_rate)
    rows = []
    for ch in range(audio.shape[0]):
        rows.append(spsig.resample_poly(audio[ch, :], up=up, down=down, axis=-1))
    return np.stack(rows, axis=0)


def ar_coeffs_from_autocorr(r):
    assert r.ndim <= 2
    if r.ndim == 2:
        assert r.shape[0] == 1
        r = r[0, :]
    a = splin.solve_toeplitz(r[:-1], r[1:])
    return a, r[0] - np.sum(r[1:] * a)


def ar_coeffs_to_transfer_function(a):
    return np.array([1], dtype=float), np.concatenate(([1], -a))


class SourceArray:
    """one source of the given kind for each row, each with its own amplitude"""
    def __init__(self, kind, num, amplitude, *args):
        self.parts = []
        for i in range(num):
            a = amplitude if isinstance(amplitude, (int, float)) else amplitude[i]
            self.parts.append(kind(a, *args))

    def get_samples(self, num_samples):
        return np.concatenate([p.get_samples(num_samples) for p in self.parts], axis=0)


def several(Src, kind, num, amplitude, a, b, n):
    s = Src(kind, num, amplitude, a, b)
    return s.get_samples(n)
