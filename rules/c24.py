from .setup import *
P = "aspsim.diagnostics.plot."
U = "aspsim.fileutilities."
S = "spec.files."
WRITTEN = calls("savez_compressed", "savez", "save", "savetxt", "open", "dump", "write", "savefig", "mkdir", "write_text", "write_bytes", "copy", grp="written")
REMOVED = calls("unlink", "rmdir", "rename", "remove", "rmtree", "replace", "delete_earlier_tikz_plot", grp="removed")
EARLIER = U + "find_all_earlier_files"
CLEAN = P + "delete_earlier_tikz_plot"
ORDER = [("written", "removed"), ("removed", "removed"), ("written", "written")]
BOUND = [EARLIER, CLEAN, P + "tikzplotlib_fix_ncols", U + "find_index_in_name", U + "get_time_string", NEWFOLDER]


def f(name, ref, driver, title, **kw):
    return Obl(title, "files." + driver, {"f": (name, S + ref)}, see=[WRITTEN, REMOVED, refusals()], order=ORDER, boundary=[b for b in BOUND if b != name], **kw)


OBLIGATIONS = [
    f(P + "savenpz", "npz", "exported", "values"), f(P + "txt", "text", "exported", "means"), f(P + "create_audio_files", "audio", "exported", "audio"),
    f(P + "output_plot", "output_plot", "drawn", "figures"), f(P + "output_plot", "output_plot", "drawn_plain", "figures by default"),
    *[Obl("figure of " + n, "files.exported", {"f": (P + n, S + r)}, see=[WRITTEN, REMOVED, calls("output_plot", grp="figure")], boundary=BOUND + [P + "output_plot"], ret=False)
      for n, r in (("function_of_time_plot", "curves"), ("matshow", "matrices"), ("spectrum_plot", "spectra"), ("plot_ir", "responses"))],
    f(CLEAN, "clean", "cleaned", "earlier figures"),
    f(EARLIER, "earlier", "found", "earlier files"), f(EARLIER, "earlier", "found_default", "earlier files by default"),
    f(NEWFOLDER, "folder_name", "named", "new folder"), f(U + "get_time_string", "time_string", "time_named", "time in a name"),
    f(U + "get_multiple_unique_folder_names", "several_names", "several_named", "several new folders"),
    f(U + "get_highest_numbered_file", "highest_file", "highest", "latest file"),
    f(U + "find_index_in_name", "index_of", "number_of", "number in a name"),
    f("aspsim.diagnostics.diagnosticsummary.add_to_summary", "add_summary", "summed_up", "summaries"),
    Obl("folder of a run", "setup.figures", see=[WRITTEN, REMOVED], types=SETUP, boundary=[NEWFOLDER]),
    Obl("folder given", "setup.figures_there", see=[WRITTEN, REMOVED], types=SETUP, boundary=[NEWFOLDER]),
]
