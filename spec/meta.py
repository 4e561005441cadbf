"""Reference model of the descriptions written next to a run."""
import json
import aspsim.saveloadsession as sess


def processors_noted(f, procs, folder):
    f(procs, folder)


def write_processors(procs, folder):
    if folder is None:
        return
    about = {}
    for p in procs:
        about[p.name] = p.metadata
    with open(folder.joinpath("metadata_processor.json"), "w") as f:
        json.dump(about, f, indent=4)


def arrays_noted(c, folder):
    c.save_metadata(folder)


class ArrayCollection:
    def save_metadata(self, folder):
        if folder is None:
            return
        for name, what in (("metadata_arrays.json", {k: a.metadata for k, a in self.arrays.items()}), ("metadata_paths.json", self.path_info), ("array_pos.json", {k: a.pos.tolist() for k, a in self.arrays.items()})):
            with open(folder.joinpath(name), "w") as f:
                json.dump(what, f, indent=4)


def run_noted(Sim, sim_info, arrays, folder, rng, proc):
    s = Sim(sim_info, arrays, folder, rng)
    s.add_processor([proc])
    s.run_simulation()


class Simulator:
    def __init__(self, info, arrays, folder, rng):
        self.folder = folder
        self.procs = []

    def add_processor(self, p):
        self.procs.extend(p)

    def run_simulation(self):
        sess.write_processor_metadata(self.procs, self.folder)


def named(f, procs):
    f(procs)


def name_them(procs):
    """a name that is taken gets the first free number"""
    taken = []
    for p in procs:
        name, i = p.name, 1
        while name in taken:
            name = f"{p.name} {i}"
            i += 1
        taken.append(name)
        p.name = name
