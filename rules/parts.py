"""Obligations about the single steps of a run.  They count where the obligations about the whole run cannot be decided: then one
step that differs, while all other steps are as stated, is what is wrong (see settle in vg/oblig.py)."""
from vg.oblig import Obl, Sel
M = "aspsim.simulator."
L = "aspsim.diagnostics.core."
A = "aspsim.array."


def real(e):
    from vg.oblig import callee
    return callee(e.data[0]) not in ("print",)


ALL = [Sel("calls", "call", real), Sel("values stored", "sub", lambda e: True), Sel("attributes set", "attr", lambda e: True),
       Sel("entries", "dict", lambda e: True), Sel("appended", "append", lambda e: True), Sel("refused", "raise", lambda e: True, cond_only=True)]
STEPS = [M + "Simulator._prepare_simulation", M + "Simulator.diag_moved_from_propagate", M + "Propagator.propagate", A + "ArrayCollection.update",
         M + "Signals._reset_signals", L + "Logger.save_data", L + "Logger.dispatch", L + "Logger.export_this_idx", L + "Logger.export_single_diag",
         L + "Logger.update_next_export", L + "Diagnostic.progress_save", L + "Diagnostic.progress_export",
         A + "Array.update"]


def part(name, method, ref, driver="on", refused=True, **kw):
    cls = method.rpartition(".")[0]
    return Obl("step: " + name, "parts." + driver, {"f": (method, "spec.parts." + ref)}, see=ALL if refused else ALL[:-1], refused=refused, types={"self": cls}, two_dim=True,
               boundary=[b for b in STEPS if b != method], part=True, **kw)


PARTS = {
    "run": part("the loop of a run", M + "Simulator.run_simulation", "run"),
    "one save": part("end of one sample", M + "Simulator.diag_moved_from_propagate", "one_save", "on1", refused=False),
    "new signal": part("a new signal", M + "Signals.create_signal", "new_signal", "on2"),
    "shift": part("end of a chunk", M + "Signals._reset_signals", "shift"),
    "propagate": part("one sample from the sources to the microphones", M + "Propagator.propagate", "propagate", "on1"),
    "begin": part("before the first sample", M + "Propagator.prepare", "begin"),
    "save": part("recording", L + "Logger.save_data", "save_data", "on5"),
    "due": part("which exports are due", L + "Logger.export_this_idx", "due", refused=False),
    "export": part("one export", L + "Logger.export_single_diag", "export_one", "on2", refused=False),
    "dispatch": part("exports after a sample", L + "Logger.dispatch", "dispatch", "on1"),
    "progress": part("the next time to record", L + "IntervalCounter.progress", "progress", "on1"),
    "progress index": part("the next time to export", L + "IndexCounter.progress", "progress_index"),
    "move": part("one array moves", A + "Array.update", "move", "on1"),
}
OBLIGATIONS = list(PARTS.values())
