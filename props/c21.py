"""C21: UVFlag files."""
import hashlib
import os

import numpy as np
from hypothesis import strategies as st

from vp.cmp import same, same_snap, snap
from vp.core import Prop, fail, label, nontrivial, require, scratch
from vp.gen_flag import build_flag, check_flag, flag_spec, same_flag
from vp.gen_uv import chance

P = Prop(
    "C21",
    "UVFlag objects of every type and mode (also with collapsed polarizations and non-ASCII text) "
    "written to HDF5 files, read back whole or as a list of files, written over existing files with "
    "and without permission; non-trivial: more than one value in the data arrays.",
    ["the history may grow by the version string; filename is set by reading"],
)
TEXT = ["", "lab", "naïve ☂ 標", "a\nb", " spaces "]


def digest(p):
    with open(p, "rb") as fh:
        return hashlib.sha256(fh.read()).hexdigest()


@st.composite
def rt_case(draw):
    return {"f": draw(flag_spec()), "collapse": draw(chance(4)), "g": draw(flag_spec()),
            "comp": draw(st.sampled_from(["lzf", "gzip", None])),
            "text": draw(st.sampled_from(TEXT)), "hist": draw(st.sampled_from(TEXT)),
            "extra": draw(st.sampled_from(
                [None, {"k": 3, "s": "txt"}, {"ü": "é", "x": 1.5, "b": True}, {"e": "", "l": "a" * 300}])),
            "pre": draw(st.sampled_from(["none", "none", "other", "junk"])),
            "clobber": draw(st.booleans()), "into": draw(st.booleans()),
            "how": draw(st.sampled_from(["read", "init", "list1"])),
            "addhist": draw(st.booleans()), "diam": draw(st.booleans())}


@P.sub("roundtrip", rt_case, 1500)
def roundtrip(case):
    from pyuvdata import UVFlag

    f = build_flag(case["f"])
    if case["collapse"] and f.Npols > 1:
        f.collapse_pol(method="or" if f.mode == "flag" else "mean")
    f.label = case["text"]
    f.history += case["hist"]
    if case["extra"] is not None:
        f.extra_keywords = dict(case["extra"])
    s = snap(f)
    path = os.path.join(scratch(), "f.h5")
    what = f"{f.type} {f.mode} (label {case['text']!r})"
    if case["pre"] == "other":
        build_flag(case["g"]).write(path)
    elif case["pre"] == "junk":
        with open(path, "wb") as fh:
            fh.write(b"not a flag file")
    clob = case["clobber"]
    if case["pre"] != "none" and not clob:
        h = digest(path)
        try:
            f.write(path, data_compression=case["comp"])
        except ValueError:
            require(digest(path) == h, f"{what}: a refused write changed the file")
            require(os.listdir(scratch()) == ["f.h5"], f"{what}: a refused write left files")
            same_snap(snap(f), s, f"{what}: a refused write changed the object")
            return label("refused")
        fail(f"{what}: overwrote an existing file without permission")
    f.write(path, clobber=clob, data_compression=case["comp"])
    same_snap(snap(f), s, f"{what}: writing changed the object", skip=["history"])
    h = digest(path)
    if case["into"]:
        r = build_flag(case["g"])
    else:
        r = UVFlag()
    kw = {"history": " note"} if case["addhist"] else {}
    if case["how"] == "init":
        r = UVFlag(path, **kw)
    elif case["how"] == "list1":
        r.read([path], **kw)
    else:
        r.read(path, **kw)
    require(digest(path) == h, f"{what}: reading changed the file")
    g = snap(r)
    same_snap(g, s, f"{what}: read back", skip=["history", "filename", "telescope.location",
                                                "telescope.antenna_positions", "extra_keywords"])
    same(g["telescope.location"], s["telescope.location"], f"{what}: location", atol=1e-3)
    same(g["telescope.antenna_positions"], s["telescope.antenna_positions"],
         f"{what}: antenna positions", atol=1e-3)
    same(g["extra_keywords"] or {}, s["extra_keywords"] or {}, f"{what}: extra_keywords")
    require(g["history"].startswith(s["history"]), f"{what}: history {g['history']!r}")
    if case["addhist"]:
        require(" note" in g["history"], f"{what}: the history given to read was lost")
    same(g["filename"], ["f.h5"], f"{what}: filename")
    check_flag(r, what)
    require(r.__eq__(f, check_history=False), f"{what}: not equal to what was written")
    for n in ("metric_array", "weights_array", "flag_array"):
        a, b = g[n], s[n]
        if a is not None:
            require(np.asarray(a).dtype.kind == np.asarray(b).dtype.kind, f"{what}: dtype of {n}")
    label(f.type, f.mode, "how:" + case["how"])
    nontrivial((f.flag_array if f.mode == "flag" else f.metric_array).size > 1)


@st.composite
def list_case(draw):
    return {"f": draw(flag_spec(min_times=2)), "cut": draw(st.lists(st.integers(0, 2), min_size=4,
                                                                    max_size=4)),
            "init": draw(st.booleans()), "form": draw(st.sampled_from(["list", "tuple"]))}


@P.sub("filelist", list_case, 350)
def filelist(case):
    from pyuvdata import UVFlag

    f = build_flag(case["f"])
    s = snap(f)
    ut = np.unique(s["time_array"])
    groups = [[float(t) for i, t in enumerate(ut) if case["cut"][i % 4] == k] for k in range(3)]
    files, parts = [], []
    for k, g in enumerate(x for x in groups if x):
        p = f.select(times=g, inplace=False)
        parts.append(p)
        files.append(os.path.join(scratch(), f"p{k}.h5"))
        p.write(files[-1])
    arg = files if case["form"] == "list" else tuple(files)
    try:
        r = UVFlag(arg) if case["init"] else UVFlag()
        if not case["init"]:
            r.read(arg)
    except ValueError as err:
        if f.type == "baseline" and len(parts) > 1:
            # baseline arrays of the parts (or of the running sum) differ
            return label("refused")
        fail(f"reading a list of {len(files)} files: {err}")
    what = f"list of {len(files)} {f.type} {f.mode} files"
    same_flag(snap(r), s, what)
    check_flag(r, what)
    same(sorted(r.filename), sorted(os.path.basename(p) for p in files), f"{what}: filename")
    label(f.type)
    nontrivial(len(files) > 1)
