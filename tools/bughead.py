HEAD = '''
import contextlib, io, sys, tempfile, pathlib
import numpy as np
from aspsim.simulator import SimulatorSetup
import aspsim.signal.sources as sources
import aspsim.diagnostics.diagnostics as dia
import aspsim.processor as pr
import aspsim.array as ar
import aspsim.room.trajectory as tr


def setup(folder=None, tot=40, buf=10, chunk=13, **kw):
    s = SimulatorSetup(folder, rng=np.random.default_rng(1))
    i = s.sim_info
    i.tot_samples, i.sim_buffer, i.sim_chunk_size, i.export_frequency, i.reverb = tot, buf, chunk, tot, "random"
    i.max_room_ir_length, i.plot_output, i.start_sources_before_0 = 4, "none", False
    for k, v in kw.items():
        setattr(i, k, v)
    return s


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def check(ok, text):
    if not ok:
        print("FAILED:", text)
        sys.exit(1)
'''
