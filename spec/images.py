"""Reference image-source simulation (aspsim.room.roomimpulseresponse)."""
import numpy as np
import pyroomacoustics as pra
import scipy.signal as spsig


def simulated(sim, src, mic, size, center, n, rate, e, order, dly, kind, way, rand):
    return sim(src, mic, size, center, n, rate, e, order, dly, kind, way, rand)


def described(sim, src, mic, size, center, n, rate, e, order, dly, kind, way, rand):
    return sim(src, mic, size, center, n, rate, e, order, dly, kind, way, rand, True)


def filtered(filt, rir, rate, cutoff):
    return filt(rir, rate, cutoff)


def truncated(info, rirs, n):
    return info(rirs, n)


def image_sources(src, mic, size, center, n, rate, e, order, dly, kind=None, way=None, rand=False, info=False, verbose=False):
    ir = np.zeros((src.shape[0], mic.shape[0], n))
    size = np.array(size)
    shift = size / 2 - np.array(center)     # pyroomacoustics puts the origin into a corner of the room
    worst_error, worst_value = -np.inf, -np.inf
    done = 0
    while done < mic.shape[0]:
        room = pra.ShoeBox(size, materials=pra.Material(e), fs=rate, max_order=order, use_rand_ism=rand, max_rand_disp=0.05)
        for s in range(src.shape[0]):
            room.add_source((src[s, :] + shift).T)
        if any([k != "omni" for k in kind]):
            raise NotImplementedError
        now = min(500, mic.shape[0] - done)
        room.add_microphone_array(pra.MicrophoneArray((mic[done:done + now, :] + shift[None, :]).T, rate))
        room.compute_rir()
        for m, received in enumerate(room.rir):
            for s, one in enumerate(received):
                use = min(len(one), n) - dly
                ir[s, done + m, :use] = np.array(one)[dly:dly + use]
        done += now
        if info:
            error, value = truncation(room.rir, n)
            worst_error = np.max((worst_error, error))
            worst_value = np.max((worst_value, value))
    if not info:
        return ir
    d = {"Max Normalized Truncation Error (dB)": worst_error, "Max Normalized Truncated Value (dB)": worst_value}
    if order > 0:
        try:
            t = room.measure_rt60()
            d["Measured RT60 (min)"] = np.min(t)
            d["Measured RT60 (median)"] = np.median(t)
            d["Measured RT60 (mean)"] = np.mean(t)
            d["Measured RT60 (max)"] = np.max(t)
        except ValueError:
            d["Measured RT60 (min)"] = d["Measured RT60 (median)"] = d["Measured RT60 (mean)"] = d["Measured RT60 (max)"] = "failed"
    else:
        d["Measured RT60 (min)"] = d["Measured RT60 (median)"] = d["Measured RT60 (mean)"] = d["Measured RT60 (max)"] = 0
    d["Max ISM order"] = order
    d["Energy Absorption"] = e
    return ir, d


def highpass(rir, rate, cutoff):
    quiet = np.zeros((*rir.shape[:-1], rate))
    sos = spsig.butter(2, cutoff, "highpass", fs=rate, output="sos")
    return spsig.sosfiltfilt(sos, np.concatenate((quiet, rir, quiet), axis=-1), axis=-1)[..., rate:-rate]


def truncation(rirs, n):
    error, value = -np.inf, -np.inf
    for m, received in enumerate(rirs):
        for s, one in enumerate(received):
            k = np.min((len(one), n))
            error = np.max((error, lost_power(one, k)))
            value = np.max((value, lost_peak(one, k)))
    return error, value


def lost_power(rir, n):
    share = np.sum(rir[n:] ** 2) / np.sum(rir ** 2)
    if share == 0:
        return -np.inf
    return 10 * np.log10(share)


def lost_peak(rir, n):
    if len(rir) <= n:
        return -np.inf
    return 20 * np.log10(np.max(np.abs(rir[n:])) / np.max(np.abs(rir)))
