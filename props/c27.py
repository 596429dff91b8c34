"""C27 settings carry every choice given to the workflow."""
BOUNDS = ("any value of every numeric setting, every truth value of every switch, every name of every option; any number of settings left at their defaults, by position and by name")


def fidelity(h):
    """Each keyword ends up in its place and nothing else changes."""
    nums = {k: h.real(k, -1000, 1000) for k in (
        "trim_begin", "trim_end", "df", "fmin", "fmax", "vmin", "vmax", "noise_begin", "noise_end",
        "signal_begin", "signal_end", "df_snr", "min_offset", "max_offset")}
    nvel = h.int("nvel", 1, 500)
    sw = {k: bool(h.flag(k)) for k in ("trim", "mute", "pad", "snr", "pad_snr")}
    window = {"alpha": h.real("alpha", 0, 1)}
    st = h.sw.Masw.create_settings_dict(
        workflow="single", method="interactive", window_kwargs=window, transform="slantstack", nvel=nvel,
        vspace="log", weighting="invamp", steering="plane", **nums, **sw)
    want = {
        "workflow": "single",
        "pre-processing": {
            "trim": {"apply": sw["trim"], "begin": nums["trim_begin"], "end": nums["trim_end"]},
            "mute": {"apply": sw["mute"], "method": "interactive", "window_kwargs": window},
            "pad": {"apply": sw["pad"], "df": nums["df"]},
            "offsets": {"min": nums["min_offset"], "max": nums["max_offset"]}},
        "processing": {"transform": "slantstack", "fmin": nums["fmin"], "fmax": nums["fmax"],
                       "vmin": nums["vmin"], "vmax": nums["vmax"], "nvel": nvel, "vspace": "log",
                       "fdbf-specific": {"weighting": "invamp", "steering": "plane"}},
        "signal-to-noise": {
            "perform": sw["snr"], "noise": {"begin": nums["noise_begin"], "end": nums["noise_end"]},
            "signal": {"begin": nums["signal_begin"], "end": nums["signal_end"]},
            "pad": {"apply": sw["pad_snr"], "df": nums["df_snr"]}}}

    def walk(got, w, path):
        if isinstance(w, dict):
            for k, v in w.items():
                h.check(k in got, f"settings have {path}{k}")
                walk(got[k], v, f"{path}{k} ")
        elif isinstance(w, (str, bool)):
            h.check(got == w and type(got) is type(w), f"{path}is as given")
        else:
            h.check(h.eq(got, w), f"{path}is as given")
    walk(st, want, "")
    st["pre-processing"]["mute"]["window_kwargs"]["alpha"] = 5.0
    st["processing"]["fdbf-specific"]["weighting"] = "none"
    h.check(list(window) == ["alpha"], "the window given is not shared")
    h.check(h.le(window["alpha"], 1.0, 0.0), "the window given is not shared")


def separate(h):
    """Two settings never share state, and one keyword changes one place."""
    key = h.choice("key", ["trim_begin", "trim_end", "df", "fmin", "fmax", "vmin", "vmax", "noise_begin", "noise_end",
                           "signal_begin", "signal_end", "df_snr", "min_offset", "max_offset"])
    v = h.real("v", 2000, 3000)
    mk = h.sw.Masw.create_settings_dict
    a, b = mk(), mk(**{key: v})

    def leaves(d, p=()):
        for k, x in d.items():
            if isinstance(x, dict):
                yield from leaves(x, p + (k,))
            else:
                yield p + (k,), x
    da, db = dict(leaves(a)), dict(leaves(b))
    h.check(list(da) == list(db), "settings always have the same entries")
    n = 0
    for k in da:
        if isinstance(da[k], (str, bool)):
            h.check(da[k] == db[k], "one keyword changes one setting")
        elif not bool(h.eq(da[k], db[k])):
            n += 1
            h.check(h.eq(db[k], v), "the setting changed is as given")
    h.check(n == 1, "one keyword changes one setting")
    a["pre-processing"]["mute"]["window_kwargs"]["alpha"] = 3.0
    a["processing"]["fmin"] = 1.0
    c = mk()
    h.check(dict(leaves(c)) == da, "defaults are the same every time")


def saved(h):
    """Settings survive being saved as JSON and run the same."""
    v = {k: h.real(k, 0.25, 100) for k in ("fmin", "fmax", "vmin", "df", "max_offset")}
    st = h.sw.Masw.create_settings_dict(**v)
    h.dump_json("s.json", st)
    h.check(h.load_json("s.json") == st, "settings survive being saved as JSON")


ORDER = ("workflow", "trim", "trim_begin", "trim_end", "mute", "method", "window_kwargs", "pad", "df", "transform", "fmin", "fmax", "vmin",
         "vmax", "nvel", "vspace", "weighting", "steering", "snr", "noise_begin", "noise_end", "signal_begin", "signal_end", "pad_snr",
         "df_snr", "min_offset", "max_offset")
DEFAULTS = {"workflow": "time-domain", "trim": False, "trim_begin": 0.0, "trim_end": 1.0, "mute": False, "method": "interactive",
            "window_kwargs": {}, "pad": False, "df": 1.0, "transform": "fdbf", "fmin": 5.0, "fmax": 100.0, "vmin": 100.0, "vmax": 1000.0,
            "nvel": 200, "vspace": "linear", "weighting": "sqrt", "steering": "cylindrical", "snr": False, "noise_begin": -0.5,
            "noise_end": 0.0, "signal_begin": 0.0, "signal_end": 0.5, "pad_snr": True, "df_snr": 1.0, "min_offset": 0.0,
            "max_offset": float("inf")}


def defaults(h):
    """What is not given has its documented default; settings may be given by position in the documented order."""
    k = h.choice("given", range(len(ORDER) + 1))
    v = [h.real(f"v{i}", -1000, 1000) for i in range(len(ORDER))]
    want = dict(DEFAULTS)
    for i, key in enumerate(ORDER[:k]):
        d = DEFAULTS[key]
        want[key] = (not d if isinstance(d, bool) else d + "x" if isinstance(d, str) else {"alpha": v[i]} if isinstance(d, dict)
                     else 7 if key == "nvel" else v[i])
    mk = h.sw.Masw.create_settings_dict
    given = [want[key] for key in ORDER[:k]]
    st = mk(*given) if h.flag("positional") else mk(**dict(zip(ORDER, given)))
    pre, pro, snr = st["pre-processing"], st["processing"], st["signal-to-noise"]
    got = [st["workflow"], pre["trim"]["apply"], pre["trim"]["begin"], pre["trim"]["end"], pre["mute"]["apply"], pre["mute"]["method"],
           pre["mute"]["window_kwargs"], pre["pad"]["apply"], pre["pad"]["df"], pro["transform"], pro["fmin"], pro["fmax"], pro["vmin"],
           pro["vmax"], pro["nvel"], pro["vspace"], pro["fdbf-specific"]["weighting"], pro["fdbf-specific"]["steering"], snr["perform"],
           snr["noise"]["begin"], snr["noise"]["end"], snr["signal"]["begin"], snr["signal"]["end"], snr["pad"]["apply"],
           snr["pad"]["df"], pre["offsets"]["min"], pre["offsets"]["max"]]
    for key, x in zip(ORDER, got):
        w = want[key]
        if isinstance(w, dict):
            h.check(list(x) == list(w) and all([bool(h.eq(x[a], w[a])) for a in w]), f"{key} is as given or documented")
        elif isinstance(w, (str, bool)):
            h.check(x == w and type(x) is type(w), f"{key} is as given or documented")
        else:
            h.check_eq(x, w, f"{key} is as given or documented")


HARNESSES = [(defaults, [dict()]), (fidelity, [dict()]), (separate, [dict()]), (saved, [dict()])]
