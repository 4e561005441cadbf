"""Reference model of how a simulation is set up, saved, and found again."""
import copy
import dataclasses as dc
import json
import shutil
import numpy as np
import yaml
import aspsim.array as ar
import aspsim.configutil as conf
import aspsim.fileutilities as futil
import aspsim.saveloadsession as sess
import aspsim.simulator as sim


# ------------------------------------------------------------------ a simulator from a setup
def made(setup):
    s = setup.create_simulator()
    return s.sim_info, s.arrays, s.folder_path, s.rng, s.diag.sim_info, s.processors


def kept(setup):
    setup.create_simulator()
    return setup.sim_info, setup.arrays, setup.rng, setup.base_fig_path, setup.session_folder


def twice(setup):
    a = setup.create_simulator()
    setup.sim_info.reverb = "none"
    b = setup.create_simulator()
    return a.sim_info, b.sim_info, a.arrays, b.arrays


def new_setup(Setup, figs, sessions, config, rng):
    s = Setup(figs, sessions, config, rng)
    return s.sim_info, s.base_fig_path, s.session_folder, s.rng


def new_setup_default(Setup):
    s = Setup()
    return s.sim_info, s.base_fig_path, s.session_folder, s.rng


def filled(Setup, rng, a, name, pos, source, name2, pos2, name3, pos3, other, path):
    s = Setup(rng=rng)
    s.add_array(a)
    s.add_free_source(name, pos, source)
    s.add_controllable_source(name2, pos2)
    s.add_mics(name3, pos3)
    s.set_source(name, other)
    s.set_path(name, name3, path)
    return s.arrays


def figures(setup, folder):
    return setup._create_fig_folder(folder)


def figures_there(setup, folder):
    return setup._create_fig_folder(folder, False)


def from_session(setup, path):
    setup.load_from_path(path)
    return setup.sim_info, setup.arrays, setup.folder_path


class Simulator:
    def __init__(self, info, arrays, folder, rng):
        self.sim_info = info
        self.arrays = arrays
        self.folder_path = folder
        self.rng = np.random.default_rng() if rng is None else rng
        self.diag = sim.diacore.Logger(info)
        self.processors = []


class SimulatorSetup:
    def __init__(self, base_fig_path=None, session_folder=None, config_path=None, rng=None):
        self.sim_info = conf.load_default_config() if config_path is None else conf.load_from_file(config_path)
        self.base_fig_path = base_fig_path
        self.session_folder = session_folder
        self.rng = np.random.default_rng() if rng is None else rng
        self.arrays = ar.ArrayCollection()

    def add_array(self, a):
        self.arrays.add_array(a)

    def add_free_source(self, name, pos, source):
        self.arrays.add_array(ar.FreeSourceArray(name, pos, source))

    def add_controllable_source(self, name, pos):
        self.arrays.add_array(ar.ControllableSourceArray(name, pos))

    def add_mics(self, name, pos, **kwargs):
        self.arrays.add_array(ar.MicArray(name, pos, **kwargs))

    def set_source(self, name, source):
        self.arrays[name].set_source(source)

    def set_path(self, s, m, path):
        self.arrays.set_prop_path(path, s, m)

    def load_from_path(self, path):
        self.folder_path = self._create_fig_folder(self.base_fig_path)
        self.sim_info, self.arrays = sess.load_from_path(path, self.folder_path)

    def create_simulator(self):
        assert not self.arrays.empty()
        info = copy.deepcopy(self.sim_info)
        arrays = copy.deepcopy(self.arrays)
        arrays.set_default_path_type(info.reverb)
        folder = self._create_fig_folder(self.base_fig_path)
        if info.auto_save_load and self.session_folder is not None:
            try:
                arrays = sess.load_session(self.session_folder, folder, info, arrays, self.rng)
            except sess.MatchingSessionNotFoundError:
                about = arrays.setup_ir(info, self.rng)
                sess.save_session(self.session_folder, info, arrays, about)
        else:
            arrays.setup_ir(info, self.rng)
        info.save_to_file(folder)
        arrays.plot(info, folder, info.plot_output)
        arrays.save_metadata(folder)
        return Simulator(info, arrays, folder, self.rng)

    def _create_fig_folder(self, folder, gen_subfolder=True):
        if self.sim_info.plot_output == "none" or folder is None:
            return None
        if gen_subfolder:
            f = futil.get_unique_folder_name("figs_", folder, False)
            f.mkdir()
        else:
            f = folder
            if not f.exists():
                f.mkdir()
        return f


# ------------------------------------------------------------------ configuration
def checked(Info, a):
    i = Info(**a)
    return i


def config_saved(save, info, path):
    save(info, path)


def save_config(info, path):
    if path is not None:
        with open(path.joinpath("config.yaml"), "w") as f:
            yaml.dump(dc.asdict(info), f, sort_keys=False)


def config_loaded(load, path):
    i = load(path)
    return i, i.tot_samples, i.reverb, i.samplerate, i.room_size, i.auto_save_load


def load_config(path):
    if path.is_dir():
        path = path.joinpath("config.yaml")
    with open(path) as f:
        return conf.SimulatorInfo(**yaml.safe_load(f))


def default_loaded(load):
    return load()


def load_default():
    return conf.load_from_file(conf.Path(conf.__file__).parent.joinpath("config.yaml"))


def accepted(info):
    info.__post_init__()


class Info:
    def __post_init__(self):
        assert len(self.room_size) == self.spatial_dims
        assert len(self.room_center) == self.spatial_dims
        assert self.reverb in ("none", "direct", "random", "ism")


def compared(f, a, b, kinds):
    return bool(f(a, b, kinds))


def same_acoustics(a, b, kinds):
    """everything a generated impulse response depends on, apart from the arrays"""
    same = a.samplerate == b.samplerate and a.c == b.c and a.spatial_dims == b.spatial_dims and a.reverb == b.reverb and a.highpass_cutoff == b.highpass_cutoff
    used = [k for of_source in kinds.values() for k in of_source.values()]
    if "random" in used or "ism" in used:
        same = same and a.max_room_ir_length == b.max_room_ir_length
    if "ism" in used:
        same = same and a.room_size == b.room_size and a.room_center == b.room_center and a.rt60 == b.rt60
        same = same and a.randomized_ism == b.randomized_ism and a.extra_delay == b.extra_delay
    return same


# ------------------------------------------------------------------ sessions
def session_saved(f, folder, info, arrays, about, prefix):
    f(folder, info, arrays, about, prefix)


def save_session(folder, info, arrays, about, prefix):
    p = futil.get_unique_folder_name("session_" + prefix, folder)
    p.mkdir()
    arrays.save_to_file(p)
    info.save_to_file(p)
    if about is not None:
        sess.add_to_sim_metadata(p, about)


def session_taken(f, sessions, new, info, arrays, rng):
    return f(sessions, new, info, arrays, rng)


def load_session(sessions, new, info, arrays, rng):
    arrays.use_paths_from(ar.load_arrays(sess.search_for_matching_session(sessions, info, arrays)), info, rng)
    return arrays


def session_found(f, sessions, info, arrays):
    return f(sessions, info, arrays)


def search(sessions, info, arrays):
    for p in sessions.iterdir():
        if p.is_dir():
            if conf.equal_audio(info, conf.load_from_file(p), arrays.path_type) and ar.prototype_equals(arrays, ar.load_arrays(p)):
                return p
    raise sess.MatchingSessionNotFoundError


def session_loaded(f, path, new):
    return f(path, new)


def load_path(path, new):
    arrays = ar.load_arrays(path)
    info = conf.load_from_file(path)
    if new is not None:
        shutil.copy(path.joinpath("metadata_sim.json"), new.joinpath("metadata_sim.json"))
        info.save_to_file(new)
    return info, arrays


# ------------------------------------------------------------------ are these the arrays of a saved session?
def equal_arrays(f, c, other):
    return bool(f(c, other))


def same_arrays(c, other):
    """everything about the arrays and the chosen paths that a generated impulse response depends on"""
    if c.arrays.keys() != other.arrays.keys():
        return False
    for k in c.arrays:
        a, b = c.arrays[k], other.arrays[k]
        if type(a) is not type(b) or a.num != b.num or not np.allclose(a.pos, b.pos):
            return False
        if list(a.directivity_type) != list(b.directivity_type) or not np.array_equal(a.directivity_dir, b.directivity_dir):
            return False
    for s in c.names_src:
        for m in c.names_mic:
            if c.path_type[s][m] == "modified":
                if m not in other.paths[s] or c.paths[s][m].shape != other.paths[s][m].shape or not np.allclose(c.paths[s][m], other.paths[s][m]):
                    return False
            if c.path_type[s][m] != other.path_type[s][m]:
                return False
    return True


def arrays_saved(c, folder):
    c.save_to_file(folder)


def arrays_loaded(f, folder):
    return f(folder)


def load_arrays(folder):
    with open(folder.joinpath("arrays.pickle"), "rb") as f:
        return ar.dill.load(f)


def noted(f, folder, more):
    f(folder, more)


def add_notes(folder, more):
    try:
        with open(folder.joinpath("metadata_sim.json"), "r") as f:
            notes = {**json.load(f), **more}
    except FileNotFoundError:
        notes = more
    with open(folder.joinpath("metadata_sim.json"), "w") as f:
        json.dump(notes, f, indent=4)
