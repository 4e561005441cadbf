"""Reference for splitting a range of samples into blocks."""
import numpy as np


def split(f, n, start, size):
    return f(n, start, size)


def split_buffer(f, n, now, buffer, chunk):
    return f(n, now, buffer, chunk)


def first(f, earliest, end, size):
    return f(earliest, end, size)


def visited(f, earliest, end, size):
    return list(f(earliest, end, size))


def sizes(n, start, size):
    """at most `size` samples each, cut where the repeating block of `size` samples ends"""
    room = size - start
    done, out = 0, []
    while done < n:
        now = np.min((n - done, room))
        out.append(now)
        done += now
        room -= now
        if room == 0:
            room = size
    return out


def buffer_sizes(n, now, buffer, chunk):
    room = chunk + buffer - now
    done, out = 0, []
    while done < n:
        k = np.min((n - done, room))
        out.append(k)
        done += k
        room -= k
        if room == 0:
            room = chunk
    return out


def first_index(earliest, end, size):
    return end - size * ((end - earliest) // size)


def blocks(earliest, end, size):
    n = (end - earliest) // size
    return [(end - size * (n - i), end - size * (n - i - 1)) for i in range(n)]
