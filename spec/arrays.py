"""Reference model of an array collection."""
import numpy as np
import aspsim.room.roomimpulseresponse as rir
import aspsim.room.trajectory as tr
import aspsim.room.region as reg
import aspsim.array as ar


def moved(c, now):
    c.update(now)
    return c.paths


def user_path(c, path, s, m):
    c.set_prop_path(path, s, m)
    return c.paths


def user_paths(c, paths):
    c.set_prop_paths(paths)
    return c.paths


def kinds(c, types):
    c.set_path_types(types)
    return c.path_type


def defaults(c, kind):
    c.set_default_path_type(kind)
    return c.path_type


def setup(c, info, rng):
    c.setup_ir(info, rng)
    return c.paths


def setup_info(c, info, rng):
    return c.setup_ir(info, rng)


def taken_over(c, other, info, rng):
    c.use_paths_from(other, info, rng)
    return c.paths, c.path_info


def created(Gen, info, arrays, rng, src, mic, kind, info2):
    g = Gen(info, arrays, rng)
    return g.create_path(src, mic, kind, info2)


def created_info(Gen, info, arrays, rng, src, mic, kind, info2):
    g = Gen(info, arrays, rng)
    return g.create_path(src, mic, kind, info2, True)


def acoustics(Gen, info, arrays, rng):
    g = Gen(info, arrays, rng)
    return g.e_absorbtion, g.max_order, g.min_dly, g.rng


def added(Col, a):
    c = Col()
    c.add_array(a)
    return c.arrays, c.names_mic, c.names_src, c.names_free_src, c.paths, c.path_type


def added_more(c, a):
    c.add_array(a)
    return c.arrays, c.names_mic, c.names_src, c.names_free_src, c.paths, c.path_type


def looked_up(c, k):
    return c[k], k in c, c.empty(), list(c)


def iterated(c):
    return list(c.sources()), list(c.mics()), list(c.free_sources()), list(c.mic_src_combos()), list(c.iter_paths())


def frequency(c, n, rate):
    return c.get_freq_paths(n, rate)


def array_made(A, name, pos):
    a = A(name, pos)
    return a.name, a.pos, a.num, a.dynamic, a.group_idxs, a.num_groups, a.directivity_type, a.directivity_dir


def array_directed(A, name, pos, kind, direction):
    a = A(name, pos, directivity_type=kind, directivity_dir=direction)
    return a.pos, a.num, a.directivity_type, a.directivity_dir


def array_moved(A, name, pos, now):
    a = A(name, pos)
    r = a.update(now)
    return a.pos, r


def grouped(A, name, pos, groups):
    a = A(name, pos)
    a.set_groups(groups)
    return a.group_idxs, a.num_groups, a.metadata


def described(A, name, pos):
    a = A(name, pos)
    return a.metadata


def source_made(A, name, pos, source, n):
    a = A(name, pos, source)
    return a.source, a.get_samples(n), a.pos, a.num


def source_changed(A, name, pos, source, other, n):
    a = A(name, pos, source)
    a.set_source(other)
    return a.source, a.get_samples(n), a.metadata


def region_made(A, name, region, pos):
    a = A(name, region, pos)
    return a.region, a.pos, a.num, a.metadata


def region_default(A, name, region):
    a = A(name, region)
    return a.region, a.pos, a.num, a.region_segments


def sorts(A):
    return A.is_mic, A.is_source


class ArrayCollection:
    def __init__(self):
        self.arrays = {}
        self.names_mic, self.names_src, self.names_free_src = [], [], []
        self.paths, self.path_type, self.path_info = {}, {}, {}

    def __getitem__(self, k):
        return self.arrays[k]

    def __contains__(self, k):
        return k in self.arrays

    def __iter__(self):
        for k in self.arrays:
            yield self.arrays[k]

    def empty(self):
        return len(self.arrays) == 0

    def sources(self):
        return [self.arrays[s] for s in self.names_src]

    def mics(self):
        return [self.arrays[m] for m in self.names_mic]

    def free_sources(self):
        return [self.arrays[s] for s in self.names_free_src]

    def mic_src_combos(self):
        return [(self.arrays[s], self.arrays[m]) for s in self.names_src for m in self.names_mic]

    def iter_paths(self):
        return [(self.arrays[s], self.arrays[m], self.paths[s][m]) for s in self.names_src for m in self.names_mic]

    def add_array(self, a):
        assert a.name not in self.arrays
        self.arrays[a.name] = a
        if a.is_mic:
            self.names_mic.append(a.name)
        elif a.is_source:
            self.names_src.append(a.name)
            self.paths[a.name] = {}
            self.path_type[a.name] = {}
            if isinstance(a, ar.FreeSourceArray):
                self.names_free_src.append(a.name)
        else:
            raise ValueError

    def set_prop_paths(self, paths):
        for s, row in paths.items():
            for m, p in row.items():
                self.set_prop_path(p, s, m)

    def set_prop_path(self, path, s, m):
        assert s in self.names_src and m in self.names_mic
        assert isinstance(path, np.ndarray)
        assert path.shape[0] == self.arrays[s].num and path.shape[1] == self.arrays[m].num
        assert path.ndim == 3
        self.paths[s][m] = path

    def set_path_types(self, types):
        for s, row in types.items():
            for m, kind in row.items():
                assert s in self.names_src and m in self.names_mic
                assert isinstance(kind, str)
                self.path_type[s][m] = kind

    def set_default_path_type(self, kind):
        for s in self.names_src:
            for m in self.names_mic:
                sn, mn = self.arrays[s].name, self.arrays[m].name
                if mn in self.paths[sn]:
                    self.path_type[sn][mn] = "modified"
                elif mn not in self.path_type[sn]:
                    self.path_type[sn][mn] = kind

    def save_to_file(self, folder):
        if folder is not None:
            with open(folder.joinpath("arrays.pickle"), "wb") as f:
                ar.dill.dump(self, f)

    def generator(self, info, rng):
        self.sim_info = info
        self.path_generator = rir.PathGenerator(info, self, rng)

    def setup_ir(self, info, rng=None):
        self.generator(info, rng)
        for s in self.names_src:
            for m in self.names_mic:
                src, mic = self.arrays[s], self.arrays[m]
                pair = src.name + "->" + mic.name
                kind = "none" if src.num == 0 or mic.num == 0 else self.path_type[src.name][mic.name]
                self.path_info[pair] = {}
                self.path_info[pair]["type"] = kind
                if kind != "modified":
                    self.paths[src.name][mic.name], info2 = self.path_generator.create_path(src, mic, kind, info, True, True)
                    for k, v in info2.items():
                        self.path_info[pair][k] = v
        return self.path_info

    def use_paths_from(self, other, info, rng=None):
        self.generator(info, rng)
        for s in self.names_src:
            for m in self.names_mic:
                sn, mn = self.arrays[s].name, self.arrays[m].name
                if self.path_type[sn][mn] != "modified":
                    self.paths[sn][mn] = other.paths[sn][mn]
        self.path_info = other.path_info

    def update(self, now):
        if now % self.sim_info.array_update_freq != 0:
            return
        moved = []
        for name, a in self.arrays.items():
            if a.dynamic:
                a.pos = a.trajectory.current_pos(now)
                moved.append(name)
        done = []
        for name in moved:
            if self.arrays[name].is_mic:
                for s in self.names_src:
                    if s not in done:
                        self.renew(s, name)
            elif self.arrays[name].is_source:
                for m in self.names_mic:
                    if m not in done:
                        self.renew(name, m)
            else:
                raise ValueError
            done.append(name)

    def renew(self, s, m):
        kind = self.path_type[s][m]
        assert kind != "modified"
        self.paths[s][m] = self.path_generator.create_path(self.arrays[s], self.arrays[m], kind, self.sim_info)

    def get_freq_paths(self, n, rate):
        if n % 2 == 1:
            raise NotImplementedError
        out = {}
        for s in self.names_src:
            for m in self.names_mic:
                sn, mn = self.arrays[s].name, self.arrays[m].name
                out.setdefault(sn, {})
                out[sn][mn] = np.fft.rfft(self.paths[s][m], n=n, axis=-1).T
        return out, (rate / n) * np.arange(n // 2 + 1)


class PairwiseUpdate:
    """the same, pair by pair"""
    def update(self, now):
        if now % self.sim_info.array_update_freq != 0:
            return
        for a in self.arrays.values():
            if a.dynamic:
                a.pos = a.trajectory.current_pos(now)
        for s in self.names_src:
            for m in self.names_mic:
                if self.arrays[s].dynamic or self.arrays[m].dynamic:
                    self.renew(s, m)

    def renew(self, s, m):
        kind = self.path_type[s][m]
        assert kind != "modified"
        self.paths[s][m] = self.path_generator.create_path(self.arrays[s], self.arrays[m], kind, self.sim_info)


class Array:
    is_mic = False
    is_source = False

    def __init__(self, name, pos, directivity_type=None, directivity_dir=None):
        self.name = name
        if isinstance(pos, (list, tuple)):
            assert all([isinstance(p, np.ndarray) for p in pos])
            ends = np.cumsum([0] + [p.shape[0] for p in pos])
            self.group_idxs = [np.arange(ends[i], ends[i + 1]) for i in range(len(ends) - 1)]
            self.num_groups = len(pos)
            self.pos = np.concatenate(pos, axis=0)
            self.dynamic = False
        elif isinstance(pos, np.ndarray):
            self.group_idxs, self.num_groups = None, 1
            self.pos = pos
            self.dynamic = False
        elif isinstance(pos, tr.Trajectory):
            self.trajectory = pos
            self.group_idxs, self.num_groups = None, 1
            self.pos = pos.current_pos(0)
            self.dynamic = True
        else:
            raise ValueError
        self.num = self.pos.shape[0]
        assert self.pos.ndim == 2
        if directivity_type is None or directivity_dir is None:
            assert directivity_type is None and directivity_dir is None
            directivity_type = ["omni" for _ in range(self.num)]
        else:
            assert len(directivity_type) == self.num
            assert directivity_dir.shape[0] == self.num
            assert all([d in ["omni", "cardioid", "hypercardioid", "supercardioid", "bidirectional"] for d in directivity_type])
            assert np.allclose(np.linalg.norm(directivity_dir, axis=-1), 1)
        self.directivity_type = directivity_type
        self.directivity_dir = directivity_dir
        self.metadata = {"type": self.__class__.__name__, "number": self.num, "number of groups": self.num_groups, "dynamic": self.dynamic}

    def set_groups(self, groups):
        self.group_idxs = groups
        self.num_groups = len(groups)
        self.metadata["number of groups"] = self.num_groups

    def update(self, now):
        if not self.dynamic:
            return False
        self.pos = self.trajectory.current_pos(now)
        return True


class MicArray(Array):
    is_mic = True


class ControllableSourceArray(Array):
    is_source = True


class FreeSourceArray(Array):
    is_source = True

    def __init__(self, name, pos, source, **kwargs):
        super().__init__(name, pos, **kwargs)
        self.set_source(source)

    def set_source(self, source):
        assert source.num_channels == self.num
        self.source = source
        self.metadata["source info"] = source.metadata

    def get_samples(self, n):
        return self.source.get_samples(n)


class RegionArray(MicArray):
    def __init__(self, name, region, pos=None, **kwargs):
        if isinstance(region, (list, tuple)):
            self.region_segments = region
            if len(region) > 1:
                region = reg.CombinedRegion(region)
            else:
                region = region[0]
        else:
            self.region_segments = [region]
        if pos is None:
            pos = [r.equally_spaced_points() for r in self.region_segments]
        super().__init__(name, pos, **kwargs)
        self.region = region
        self.metadata["region shape"] = region.__class__.__name__


class PathGenerator:
    def __init__(self, info, arrays, rng=None):
        self.info = info
        self.rng = np.random.default_rng() if rng is None else rng
        rir.pra.constants.set("c", info.c)
        if info.rt60 > 0:
            self.e_absorbtion, order = rir.pra.inverse_sabine(info.rt60, np.array(info.room_size))
            self.max_order = order + 8
        else:
            self.e_absorbtion, self.max_order = 0.9, 0
        self.min_dly = 0
        rir.pra.constants.set("frac_delay_length", 2 * info.extra_delay + 1)

    def create_path(self, src, mic, kind, info, return_path_info=False, verbose=False):
        extra = {}
        if kind == "none":
            path = np.zeros((src.num, mic.num, 1))
        elif kind == "direct":
            assert src.num == mic.num
            path = np.eye(src.num, mic.num)[..., None]
        elif kind == "random":
            path = self.rng.normal(size=(src.num, mic.num, info.max_room_ir_length))
        elif kind == "ism":
            if info.spatial_dims != 3:
                raise ValueError
            # the constants are shared by the whole process: another generator may have set its own
            rir.pra.constants.set("c", info.c)
            rir.pra.constants.set("frac_delay_length", 2 * self.info.extra_delay + 1)
            path = rir.ir_room_image_source_3d(
                src.pos, mic.pos, info.room_size, info.room_center, info.max_room_ir_length, info.samplerate, self.e_absorbtion, self.max_order,
                self.min_dly, mic.directivity_type, mic.directivity_dir, randomized_ism=info.randomized_ism, calculate_metadata=return_path_info,
                verbose=verbose)
            if return_path_info:
                path, extra["ism_info"] = path
        else:
            raise ValueError
        if info.highpass_cutoff > 0:
            path = rir.filter_rirs(path, info.samplerate, info.highpass_cutoff)
        if return_path_info:
            return path, extra
        return path
