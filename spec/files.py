"""Reference for what is written to, and removed from, the folder of a run."""
import json
import numpy as np
import matplotlib.pyplot as plt
import soundfile as sf
import aspsim.fileutilities as fu
import aspsim.diagnostics.plot as plot


def exported(f, name, diags, now, folder, pre):
    f(name, diags, now, folder, pre)


def exported_as(f, name, diags, now, folder, pre, method):
    f(name, diags, now, folder, pre, print_method=method)


def drawn(f, method, folder, name, latest):
    f(method, folder, name, latest)


def drawn_plain(f, method, folder, name):
    f(method, folder, name)


def cleaned(f, folder, name):
    f(folder, name)


def found(f, folder, name, now, with_number, strict):
    return f(folder, name, now, with_number, strict)


def found_default(f, folder, name, now):
    return f(folder, name, now)


def named(f, prefix, folder, detailed):
    return f(prefix, folder, detailed)


def several_named(f, prefix, folder, n):
    return f(prefix, folder, n)


def time_named(f, detailed):
    return f(detailed)


def number_of(f, name):
    return f(name)


def highest(f, folder, a, b):
    return f(folder, a, b)


# ------------------------------------------------------------------ exports
def outputs(diags, now, pre):
    """the processed values, without the times they belong to"""
    out = {}
    for k, d in diags.items():
        v = d.get_processed_output(now, pre)
        out[k] = v[0] if isinstance(v, tuple) else v
    return out


def npz(name, diags, now, folder, pre, print_method="pdf"):
    if folder is None:
        return
    np.savez_compressed(folder.joinpath(f"{name}_{now}"), **outputs(diags, now, pre))
    if list(diags.values())[0].keep_only_last_export:
        for f in fu.find_all_earlier_files(folder, name, now, name_includes_idx=False):
            if f.suffix == ".npz":
                f.unlink()


def text(name, diags, now, folder, pre, print_method="pdf"):
    if folder is None:
        return
    with open(folder.joinpath(f"{name}_{now}.json"), "w") as f:
        json.dump({k: np.mean(v) for k, v in outputs(diags, now, pre).items()}, f)


def audio(name, diags, now, folder, pre, print_method=None):
    if folder is None:
        return
    rate = diags[list(diags.keys())[0]].sim_info.samplerate
    for k, v in outputs(diags, now, pre).items():
        s = v / np.max(np.abs(v))
        n = min(int(0.2 * rate), int(0.1 * s.shape[-1]))
        if n > 0:
            fade = np.linspace(0, 1, n)
            s[:, :n] *= fade
            s[:, -n:] *= 1 - fade
        sf.write(str(folder.joinpath("_".join((name, k, str(now))) + ".wav")), s.T, rate)


def output_plot(print_method, folder, name="", keep_only_latest_tikz=False):
    if print_method == "show":
        plt.show()
    elif print_method == "tikz":
        import tikzplotlib
        if folder is not None:
            nested = folder.joinpath(name)
            try:
                nested.mkdir()
            except FileExistsError:
                pass
            fig = plt.gcf()
            plot.tikzplotlib_fix_ncols(fig)
            tikzplotlib.save(str(nested.joinpath(f"{name}.tex")), externalize_tables=True, float_format=".8g")
            plt.savefig(str(nested.joinpath(name + ".pdf")), dpi=300, facecolor="w", edgecolor="w", orientation="portrait", format="pdf",
                        transparent=True, bbox_inches=None, pad_inches=0.2)
            if keep_only_latest_tikz:
                plot.delete_earlier_tikz_plot(folder, name)
    elif print_method == "pdf":
        if folder is not None:
            plt.savefig(str(folder.joinpath(name + ".pdf")), dpi=300, facecolor="w", edgecolor="w", orientation="portrait", format="pdf",
                        transparent=True, bbox_inches="tight", pad_inches=0.2)
    elif print_method == "svg":
        if folder is not None:
            plt.savefig(str(folder.joinpath(name + ".svg")), dpi=300, format="svg", transparent=True, bbox_inches="tight", pad_inches=0.2)
    elif print_method != "none":
        raise ValueError
    plt.close("all")


def clean(folder, name):
    now = fu.find_index_in_name(name)
    if now is None:
        return
    for d in fu.find_all_earlier_files(folder, name, now):
        if d.is_dir():
            for f in d.iterdir():
                try:
                    if f.suffix == ".pdf":
                        f.rename(folder.joinpath(f.stem + f.suffix))
                    else:
                        assert f.suffix == ".tsv" or f.suffix == ".tex"
                        f.unlink()
                except PermissionError:
                    pass
            try:
                d.rmdir()
            except PermissionError:
                pass


# ------------------------------------------------------------------ names
def earlier(folder, name, now, name_includes_idx=True, error_if_future_files_exist=True):
    if name_includes_idx:
        name = name[:-len(str(now))]
    else:
        name = name + "_"
    out = []
    for f in folder.iterdir():
        if f.stem.startswith(name) and f.stem[len(name):].isdigit():
            n = int(f.stem[len(name):])
            if n > now:
                if error_if_future_files_exist:
                    raise ValueError
                continue
            if n == now:
                continue
            out.append(f)
    return out


def folder_name(prefix, parent, detailed=False):
    f = parent.joinpath(prefix + fu.get_time_string(detailed=detailed) + "_0")
    if f.exists():
        i = 1
        n = len(f.name) - 2
        while f.exists():
            f = f.parent.joinpath(f.name[:n] + "_" + str(i))
            i += 1
    return f


def time_string(detailed=False):
    t = fu.datetime.datetime.now()
    s = str(t.year) + "_" + str(t.month).zfill(2) + "_" + str(t.day).zfill(2) + "_" + str(t.hour).zfill(2) + "_" + str(t.minute).zfill(2)
    if detailed:
        s += "_" + str(t.second).zfill(2) + "_" + str(t.microsecond).zfill(2)
    return s


def several_names(prefix, parent, n):
    first = fu.get_unique_folder_name(prefix, parent)
    last = first.parts[-1]
    number = last.split("_")[-1]
    return [first.parent.joinpath(last[:-len(number)] + str(i + int(number))) for i in range(n)]


def highest_file(folder, prefix, suffix):
    best = -1
    for f in folder.iterdir():
        if f.name.startswith(prefix) and f.name.endswith(suffix):
            try:
                n = int(f.name[len(prefix):len(f.name) - len(suffix)])
                if n > best:
                    best = n
            except ValueError:
                pass
    if best == -1:
        return None
    return folder.joinpath(prefix + str(best) + suffix)


def index_of(name):
    digits = []
    for ch in reversed(name):
        if not ch.isdigit():
            break
        digits.append(ch)
    if len(digits) == 0:
        return None
    n = int("".join(digits[::-1]))
    assert name.endswith(str(n))
    return n


def summed_up(f, name, values, now, folder):
    f(name, values, now, folder)


def add_summary(name, values, now, folder):
    path = folder.joinpath("summary_" + str(now) + ".json")
    try:
        with open(path, "r") as f:
            everything = json.load(f)
    except FileNotFoundError:
        everything = {}
    everything[name] = values
    with open(path, "w") as f:
        json.dump(everything, f, indent=4)


# ------------------------------------------------------------------ figures of logged values
def matrices(name, diags, now, folder, pre, print_method="pdf"):
    values = {k: d.get_processed_output(now, pre) for k, d in diags.items()}
    n = len(diags)
    fig, axes = plt.subplots(1, n, figsize=(n * 5, 5))
    if n == 1:
        axes = [axes]
    for ax, (k, v) in zip(axes, values.items()):
        shown = ax.matshow(v)
        fig.colorbar(shown, ax=ax, orientation="vertical")
        ax.set_title(f"{name} - {k}")
        ax.spines["right"].set_visible(False)
        ax.spines["bottom"].set_visible(False)
    plot.output_plot(print_method, folder, f"{name}_{now}")


def spectra(name, diags, now, folder, pre, print_method="pdf"):
    fig, ax = plt.subplots(1, 1, figsize=(14, 8))
    fig.tight_layout(pad=4)
    for k, d in diags.items():
        ax.plot(d.get_processed_output(now, pre), alpha=0.8, label=k)
    plot.output_plot(print_method, folder, f"{name}_{now}")


def responses(name, diags, now, folder, pre, print_method="pdf"):
    for d in diags.values():
        for s in d.get_output():
            n = s.shape[0]
    fig, axes = plt.subplots(len(diags), n, figsize=(n * 6, len(diags) * 6))
    if len(diags) == 1:
        axes = np.expand_dims(axes, 0)
    if n == 1:
        axes = np.expand_dims(axes, -1)
    for row, (k, d) in enumerate(diags.items()):
        for s in d.get_processed_output(now, pre):
            for col in range(s.shape[0]):
                axes[row, col].plot(s[col, :], label=k, alpha=0.6)
    plot.output_plot(print_method, folder, f"{name}_{now}")


def curves(name, diags, now, folder, pre, print_method="pdf"):
    fig, ax = plt.subplots(1, 1, figsize=(7, 4))
    for k, d in diags.items():
        values, times = d.get_processed_output(now, pre)
        if "label_suffix_channel" in d.plot_data:
            labels = ["_".join((k, s)) for s in d.plot_data["label_suffix_channel"]]
            assert len(labels) == values.shape[0]
        else:
            labels = [k for _ in range(values.shape[0])]
        marker = "x" if values.shape[-1] < 10 else ""
        for i, label in enumerate(labels):
            ax.plot(np.atleast_2d(times).T, values[i:i + 1, :].T, alpha=0.8, label=label, marker=marker)
    plot.output_plot(print_method, folder, name + "_" + str(now))
