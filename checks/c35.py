"""C35: commands, options, the configuration file and the scripts around them do what they say."""
import contextlib
import dataclasses
import importlib.util
import inspect
import io as sio
import itertools
import json
import os
import re
import runpy
import shutil
import signal
import subprocess
import sys

import boot
import yaml
from opensfm import actions, config, dataset, io, pygeometry, types as otypes

LEVEL = "exploration"
RULE = ("all combinations of options (absent or one of some values) of all 23 commands, in both orders and both ways to write a value; all pairs "
        "of configuration options; all histories of configuration loads and edits of two datasets up to a length; all subsets of the files of a "
        "dataset; all places of a failing command; non-trivial: distinct calls, configurations and trees")
ASSUMPTIONS = ["the shell scripts run as an unprivileged user on scratch files", "of iterative_self_calibration the commands run are stand-ins",
               "create_rig's method `camera` is not implemented (it is passed on, and not judged)"]

FLAG = object()
RIG = '{"L": "(left)", "R": "(right)"}'
# command: [(option, values, parameter of the action, its value without the option)]
CMDS = {
    "extract_metadata": [], "detect_features": [], "match_features": [], "create_tracks": [], "mesh": [], "export_report": [],
    "create_submodels": [], "align_submodels": [],
    "create_rig": [("method", ["auto", "camera", "pattern"], "method", None), ("definition", [RIG, '{"A": "cam 1"}', "{}"], "definition", None)],
    "reconstruct": [("--algorithm", ["incremental", "triangulation"], "algorithm", "incremental")],
    "reconstruct_from_prior": [("--input", ["in.json", "prior.json"], "input", None), ("--output", ["out.json"], "output", None)],
    "extend_reconstruction": [("--input", ["in.json", "prior.json"], "input", None), ("--output", ["out.json"], "output", None)],
    "bundle": [("--input", ["in.json", "prior.json"], "input", None), ("--output", ["out.json"], "output", None)],
    "undistort": [("--reconstruction", ["r.json"], "reconstruction", None), ("--reconstruction-index", ["0", "1", "2"], "reconstruction_index", 0),
                  ("--tracks", ["t.csv"], "tracks", None), ("--output", ["u", "undistorted2"], "output", "undistorted"),
                  ("--skip-images", FLAG, "skip_images", False)],
    "compute_depthmaps": [("--subfolder", ["u", "undistorted2"], "subfolder", "undistorted"), ("--interactive", FLAG, "interactive", False)],
    "compute_statistics": [("--diagram_max_points", ["-1", "100", "7"], "diagram_max_points", -1)],
    "export_ply": [("--no-cameras", FLAG, "no_cameras", False), ("--no-points", FLAG, "no_points", False), ("--depthmaps", FLAG, "depthmaps", False),
                   ("--point-num-views", FLAG, "point_num_views", False)],
    "export_openmvs": [("--image_list", ["list.txt"], "image_list", None)],
    "export_visualsfm": [("--points", FLAG, "points", False), ("--image_list", ["list.txt"], "image_list", None)],
    "export_pmvs": [("--points", FLAG, "points", False), ("--image_list", ["list.txt"], "image_list", None), ("--output", ["o", "p q"], "output", None),
                    ("--undistorted", FLAG, "undistorted", False)],
    "export_bundler": [("--list_path", ["l"], "list_path", None), ("--bundle_path", ["b"], "bundle_path", None), ("--undistorted", FLAG, "undistorted", False)],
    "export_colmap": [("--binary", FLAG, "binary", False)],
    "export_geocoords": [("--proj", ["+proj=utm +zone=32", "EPSG:3857"], "proj", None), ("--transformation", FLAG, "transformation", False),
                         ("--image-positions", FLAG, "image_positions", False), ("--reconstruction", FLAG, "reconstruction", False),
                         ("--dense", FLAG, "dense", False), ("--output", ["o"], "output", None)],
}
REQUIRED = {("export_geocoords", "--proj")}


def cases(ck):
    out = [["options", c] for c in sorted(CMDS)] + [["wrong"]]
    out += [["defaults"]] + [["config", i, 8] for i in range(8)] + [["histories", i] for i in range(len(MOVES))]
    out += [["runall"], ["launcher"]] + [["clean", i] for i in range(8)] + [["migrate"]] + [["iterate", n] for n in (1, 2, 3)]
    return out


def check(ck, case):
    globals()["do_" + case[0]](ck, *case[1:])


# the commands -----------------------------------------------------------------------
def main_module():
    spec = importlib.util.spec_from_file_location("opensfm_main", os.path.join(boot.REPO, "bin", "opensfm_main.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def call(m, argv):
    """exit code or exception of the command line, and what it says"""
    old, err, out = sys.argv, sio.StringIO(), sio.StringIO()
    try:
        sys.argv = ["opensfm"] + argv
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
            m.main()
        return None, err.getvalue()
    except SystemExit as e:
        return ("exit", e.code), err.getvalue()
    except Exception as e:
        return e, err.getvalue()
    finally:
        sys.argv = old


@contextlib.contextmanager
def recorded(calls, fail=None):
    """the actions replaced by recorders"""
    old = {}
    ended = []
    import importlib
    clean = dataset.DataSet.clean_up
    for name in CMDS:
        mod = importlib.import_module("opensfm.actions." + name)
        old[name] = mod.run_dataset

        def rec(*a, _n=name, _sig=inspect.signature(mod.run_dataset), **k):
            b = _sig.bind(*a, **k)
            b.apply_defaults()
            calls.append((_n, dict(b.arguments), list(ended)))
            if fail is not None:
                raise fail
        mod.run_dataset = rec
    dataset.DataSet.clean_up = lambda self: ended.append(self.data_path)
    try:
        yield ended
    finally:
        dataset.DataSet.clean_up = clean
        for name in CMDS:
            importlib.import_module("opensfm.actions." + name).run_dataset = old[name]


def make(root):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "images"))
    for n in ("a.jpg", "b.jpg"):
        open(os.path.join(root, "images", n), "wb").write(n.encode())
    return root


def value(cmd, param, v):
    if param == "definition":
        return json.loads(v)
    if param in ("reconstruction_index", "diagram_max_points"):
        return int(v)
    return v


def do_options(ck, cmd):
    m = main_module()
    root = make(os.path.join(ck.scratch, "data set"))
    spec = CMDS[cmd]
    choice = [[FLAG, None] if s[1] is FLAG else ([] if (not s[0].startswith("-") or (cmd, s[0]) in REQUIRED) else [None]) + s[1] for s in spec]
    log = os.path.join(root, "profile.log")
    for pick in itertools.product(*choice):
        for form in range(4):
            named, pos, want = [], [], {}
            for (opt, vals, param, dflt), v in zip(spec, pick):
                want[param] = dflt if v is None else True if v is FLAG else value(cmd, param, v)
                if v is None:
                    continue
                if not opt.startswith("-"):
                    pos.append(v)
                elif v is FLAG:
                    named.append([opt])
                else:
                    named.append([opt + "=" + v] if form & 1 or v.startswith("-") else [opt, v])
            if cmd == "create_rig":
                want["output_debug"] = True
            if form & 2:
                named.reverse()
            flat = [x for o in named for x in o]
            argv = [cmd] + ([root] + pos + flat if form & 2 else flat + [root] + pos) + (["--dataset-type", "opensfm"] if form == 3 else [])
            for fail in (None, ValueError("broken")):
                if fail and form:
                    continue
                if os.path.exists(log):
                    os.unlink(log)
                calls = []
                with recorded(calls, fail) as ended:
                    res, err = call(m, argv)
                ck.ev()
                what = "%r: " % (argv,)
                ck.expect(res is fail, "result", what + "%r instead of %r %s" % (res, fail, err[-300:]))
                if not ck.expect(len(calls) == 1 and calls[0][0] == cmd, "action", what + "ran %r" % [c[0] for c in calls]):
                    continue
                got = list(calls[0][1].items())
                ck.expect(isinstance(got[0][1], dataset.DataSet) and got[0][1].data_path == root, "dataset", what + repr(got[0]))
                ck.expect(dict(got[1:]) == want, "parameters", what + "called with %r instead of %r" % (dict(got[1:]), want))
                ck.expect(calls[0][2] == [] and ended == [root], "clean-up", what + "cleaned up %r before and %r after" % (calls[0][2], ended))
                lines = open(log).read() if os.path.exists(log) else ""
                ck.expect(lines == "" if fail else re.fullmatch(re.escape(cmd) + r": [0-9.e+-]+\n", lines) is not None, "profile", what + repr(lines))
                ck.outcome((cmd, str(want)))
    # one line for each run, in order
    if os.path.exists(log):
        os.unlink(log)
    open(log, "w").write("before\n")
    argv = [cmd, root] + [x for (opt, vals, p, d), v in zip(spec, [c[-1] for c in choice]) if v is not None and v is not FLAG for x in ([opt, v] if opt.startswith("-") else [v])]
    for k in range(3):
        with recorded([], ValueError() if k == 1 else None):
            call(m, argv)
    names = [ln.split(":")[0] for ln in open(log).read().splitlines()]
    ck.expect(names == ["before", cmd, cmd], "profile-lines", "%s: %r" % (cmd, names))


def do_wrong(ck):
    m = main_module()
    root = make(os.path.join(ck.scratch, "d"))
    wrong = [[], ["nothing", root], ["reconstruct"], ["reconstruct", root, "extra"], ["reconstruct", root, "--algorithm", "best"], ["undistort", root, "--reconstruction-index", "x"],
             ["create_rig", root, "pattern"], ["create_rig", root, "guess", RIG], ["create_rig", root, "pattern", "{broken"], ["export_geocoords", root],
             ["mesh", root, "--dataset-type", "other"], ["mesh", root, "--unknown"], ["compute_statistics", root, "--diagram_max_points", "1.5"], ["bundle", root, "--input"]]
    wrong += [[c] for c in CMDS]
    for argv in wrong:
        calls = []
        with recorded(calls):
            res, err = call(m, argv)
        ck.ev()
        ck.expect(res is not None and res != ("exit", 0) and not calls, "refused", "%r: %r, ran %r" % (argv, res, [c[0] for c in calls]))
        ck.expect(not os.path.exists(os.path.join(root, "profile.log")), "refused-profile", repr(argv))
        ck.outcome(str(argv))
    with recorded([]):
        old, out = sys.argv, sio.StringIO()
        try:
            sys.argv = ["opensfm", "--help"]
            with contextlib.redirect_stdout(out):
                m.main()
        except SystemExit as e:
            ck.expect(e.code in (0, None), "help", repr(e))
        finally:
            sys.argv = old
        for c in CMDS:
            ck.expect(re.search(r"^\s+%s\b" % c, out.getvalue(), re.M) is not None, "help-lists", c)


# configuration ----------------------------------------------------------------------
def fields():
    return [(f.name, f.default) for f in dataclasses.fields(config.OpenSfMConfig)]


def other(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v + 3
    if v is None:
        return 12
    if isinstance(v, str):
        return v + "_x"
    return [1, "a", {"b": 2.5}]


# those of config.py that the documentation and the papers name
KNOWN = {"use_exif_size": True, "default_focal_prior": 0.85, "feature_type": "HAHOG", "feature_root": True, "feature_min_frames": 4000, "feature_process_size": 2048,
         "matcher_type": "FLANN", "symmetric_matching": True, "lowes_ratio": 0.8, "matching_gps_distance": 150, "matching_gps_neighbors": 0, "matching_time_neighbors": 0,
         "matching_order_neighbors": 0, "matching_bow_neighbors": 0, "matching_vlad_neighbors": 0, "robust_matching_min_match": 20, "robust_matching_threshold": 0.004,
         "min_track_length": 2, "triangulation_threshold": 0.006, "triangulation_min_ray_angle": 1.0, "resection_threshold": 0.004, "resection_min_inliers": 10,
         "five_point_algo_threshold": 0.004, "five_point_algo_min_inliers": 20, "use_altitude_tag": True, "align_method": "auto", "align_orientation_prior": "horizontal",
         "bundle_use_gps": True, "bundle_use_gcp": True, "optimize_camera_parameters": True, "processes": 1, "submodel_size": 80, "submodel_overlap": 30.0,
         "undistorted_image_format": "jpg", "depthmap_method": "PATCH_MATCH_SAMPLE", "depthmap_resolution": 640, "depthmap_min_consistent_views": 3}


def do_defaults(ck):
    base = config.default_config()
    ck.expect(set(base) == {n for n, _ in fields()}, "fields", "%r" % sorted(base))
    for n, d in fields():
        ck.ev()
        ck.expect(base[n] == d and type(base[n]) is type(d), "default", "%s is %r instead of %r" % (n, base.get(n), d))
    for text in ("", "\n", "# only a comment\n", "---\n", "{}\n", "null\n"):
        for how in (text, text.encode(), sio.StringIO(text), sio.BytesIO(text.encode())):
            ck.ev()
            got = config.load_config_from_fileobject(how)
            ck.expect(got == base, "empty", "%r: %r" % (text, {k: v for k, v in got.items() if base.get(k) != v}))
    root = make(os.path.join(ck.scratch, "d"))
    ck.expect(dataset.DataSet(root).config == base, "missing", "a dataset without config.yaml")
    for bad in ("a: [1\n", "!!python/object/apply:os.system ['touch %s/evil']\n" % root):
        open(os.path.join(root, "config.yaml"), "w").write(bad)
        try:
            dataset.DataSet(root)
            ck.fail("broken", "%r is accepted" % bad)
        except yaml.YAMLError:
            pass
        ck.expect(not os.path.exists(os.path.join(root, "evil")), "evil", "config.yaml runs code")
    for n, v in KNOWN.items():
        ck.outcome((n, str(v)))


def do_config(ck, part, parts):
    fs = fields()
    base = config.default_config()
    root = make(os.path.join(ck.scratch, "d"))
    path = os.path.join(root, "config.yaml")
    pairs = list(itertools.combinations(range(len(fs) + 1), 2)) + [(i, i) for i in range(len(fs) + 1)]
    for k, (i, j) in enumerate(pairs):
        if k % parts != part or (ck.quick and k % 5 != part % 5 and i != j):
            continue
        new = {}
        for q in (i, j):
            n, d = fs[q] if q < len(fs) else ("an_unknown_option", None)
            new[n] = other(d)
        text = yaml.safe_dump(new)
        if k % 2:
            text = "# comment\n" + "".join("%s: %s\n" % (n, json.dumps(v)) for n, v in reversed(list(new.items())))
        open(path, "w").write(text)
        want = dict(base, **new)
        ck.ev()
        if k % 16 < 8:
            got = config.load_config_from_fileobject(text)
        elif k % 16 < 12:
            got = dataset.DataSet(root).config
        else:
            ds = dataset.DataSet(root)
            got = dataset.UndistortedDataSet(ds, os.path.join(root, "u"), io_handler=ds.io_handler).config
        ck.expect(got == want and all(type(got[n]) is type(v) for n, v in want.items()), "config",
                  "%r gives %r" % (new, {n: got.get(n) for n in set(want) | set(got) if n not in got or n not in want or got[n] != want[n]}))
        ck.outcome(str(sorted(new)))


MOVES = ["open a", "open b", "edit a", "edit b", "write a", "write b", "default"]


def do_histories(ck, first):
    """two datasets and the defaults never see each other's options"""
    base = config.default_config()
    for n in range(1, 4 if ck.quick else 5):
        for rest in itertools.product(range(len(MOVES)), repeat=n - 1):
            hist = [MOVES[q] for q in (first,) + rest]
            roots, files, live, want = {}, {"a": {}, "b": {}}, {}, {}
            for w in "ab":
                roots[w] = os.path.join(ck.scratch, w)
                if not os.path.isdir(roots[w]):
                    make(roots[w])
                p = os.path.join(roots[w], "config.yaml")
                if os.path.exists(p):
                    os.unlink(p)
            for step, mv in enumerate(hist):
                verb, _, w = mv.partition(" ")
                if verb == "open":
                    live[w] = dataset.DataSet(roots[w])
                    want[w] = dict(base, **files[w])
                elif verb == "edit" and w in live:
                    live[w].config["processes"] = want[w]["processes"] = 50 + step
                    live[w].config["mine"] = want[w]["mine"] = w
                elif verb == "write":
                    files[w] = {"lowes_ratio": 0.5 + 0.01 * step, "processes": 2 + step, "only_" + w: [step]}
                    open(os.path.join(roots[w], "config.yaml"), "w").write(yaml.safe_dump(files[w]))
                elif verb == "default":
                    d = config.default_config()
                    ck.expect(d == base, "shared-default", "%r: %r" % (hist, {k: v for k, v in d.items() if base.get(k) != v}))
                    d["processes"] = 99
                    d["x"] = 1
                for q in live:
                    ck.ev()
                    ck.expect(live[q].config == want[q], "shared", "%r: %s has %r" % (hist[:step + 1], q, {k: v for k, v in live[q].config.items() if want[q].get(k) != v}))
            ck.outcome(tuple(hist))


# the scripts ------------------------------------------------------------------------
USER = 65534


def shell(argv, cwd, root):
    """as a user who can change the scratch files only"""
    for d, ds, fs in os.walk(root):
        for x in [d] + [os.path.join(d, f) for f in fs + ds]:
            os.chown(x, USER, USER, follow_symlinks=False)
    top = os.path.dirname(root)
    while os.path.basename(os.path.dirname(top)) and "/verif_" in top:      # the scratch folders above, which this check made
        os.chmod(top, 0o755)
        top = os.path.dirname(top)
    p = subprocess.Popen(argv, cwd=cwd, user=USER, group=USER, extra_groups=[], start_new_session=True, env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TZ": "UTC"},
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        out = p.communicate(timeout=60)[0]
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "no end", ""


def script(name, root):
    d = os.path.join(root, "bin")
    os.makedirs(d, exist_ok=True)
    q = os.path.join(d, name)
    shutil.copy(os.path.join(boot.REPO, "bin", name), q)
    os.chmod(q, 0o755)
    return q


STAGES = ["extract_metadata", "detect_features", "match_features", "create_tracks", "reconstruct", "mesh", "undistort", "compute_depthmaps"]


def do_runall(ck):
    for name in ("data", "da ta", "*", "d'x"):
        for fail in [None] + list(range(len(STAGES))):
            root = os.path.join(ck.scratch, "s")
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(os.path.join(root, "bin"))
            q = script("opensfm_run_all", root)
            fake = os.path.join(root, "bin", "opensfm")
            open(fake, "w").write('#!/bin/bash\nprintf "%%s|" "$@" >> %s/log\nprintf "\\n" >> %s/log\n[ "$1" != "%s" ]\n' % (root, root, STAGES[fail] if fail is not None else "-"))
            os.chmod(fake, 0o755)
            rc, out = shell([q, name], root, root)
            log = [ln.split("|")[:-1] for ln in open(os.path.join(root, "log")).read().splitlines()] if os.path.exists(os.path.join(root, "log")) else []
            ck.ev()
            want = [[s, name] for s in STAGES[:len(STAGES) if fail is None else fail + 1]]
            ck.expect(log == want and (rc == 0) == (fail is None), "run-all", "%r, failing %r: exit %r, %r" % (name, fail, rc, log))
            ck.outcome((name, fail))


def do_launcher(ck):
    root = os.path.join(ck.scratch, "s")
    for args in ([], ["mesh", "a b"], ["--x=1", "", "$HOME", "*"]):
        for code in (0, 3):
            for link in (False, True):
                shutil.rmtree(root, ignore_errors=True)
                os.makedirs(root)
                q = script("opensfm", root)
                open(os.path.join(root, "bin", "opensfm_main.py"), "w").write("import sys, json\nprint(json.dumps(sys.argv[1:]))\nsys.exit(%d)\n" % code)
                work = os.path.join(root, "elsewhere")
                os.makedirs(work)
                rc, out = shell([q if not link else "../bin/opensfm"] + args, work, root)
                ck.ev()
                ck.expect(rc == code and out.strip() == json.dumps(args), "launcher", "%r: exit %r, %r" % (args, rc, out))
                ck.outcome((tuple(args), code, link))


COMPUTED = ["reconstruction.json", "reconstruction.meshed.json", "exif", "matches", "camera_models.json", "reference_lla.json", "profile.log", "features", "undistorted", "tracks.csv", "reports"]
INPUTS = ["images", "masks", "segmentations", "config.yaml", "image_list.txt", "gcp_list.txt", "ground_control_points.json", "exif_overrides.json", "camera_models_overrides.json",
          "rig_cameras.json", "rig_assignments.json"]
DIRS = {"exif", "matches", "features", "undistorted", "reports", "images", "masks", "segmentations"}


def content(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p).read()
        for x in ds:
            if not os.listdir(os.path.join(d, x)):
                out[os.path.relpath(os.path.join(d, x), root)] = None
    return out


def put(root, name, tag):
    p = os.path.join(root, name)
    if name in DIRS:
        os.makedirs(p)
        p = os.path.join(p, "x.json")
    with open(p, "w") as f:
        f.write(name + tag)


def do_clean(ck, part):
    """computed files go to the trash with their content, inputs stay, older trash stays"""
    n = len(COMPUTED)
    sets = [c for k in range(3 if ck.quick else 4) for c in itertools.combinations(COMPUTED, k)] + [tuple(x for x in COMPUTED if x != y) for y in COMPUTED] + [tuple(COMPUTED)]
    for i, have in enumerate(sets):
        if i % 8 != part:
            continue
        for name, cwd, arg in (("data", ".", "data"), ("data", ".", "data/"), ("data", "data", "."), ("my data", ".", "my data"), ("data", "elsewhere", "../data")):
            if ck.quick and i % 3 and name == "my data":
                continue
            top = os.path.join(ck.scratch, "s")
            shutil.rmtree(top, ignore_errors=True)
            root = os.path.join(top, name)
            os.makedirs(root)
            os.makedirs(os.path.join(top, "elsewhere", "trash"))
            put(os.path.join(top, "elsewhere", "trash"), "mine", "")
            for x in list(have) + INPUTS:
                put(root, x, " now")
            old = i % 2
            if old:
                os.makedirs(os.path.join(root, "trash", "2001-01-01T00:00:00Z"))
                put(os.path.join(root, "trash", "2001-01-01T00:00:00Z"), "tracks.csv", " old")
            q = script("clean", top)
            before = content(root)
            rc, out = shell([q, arg], os.path.join(top, cwd), top)
            after = content(root)
            ck.ev()
            what = "clean %r in %r with %r: " % (arg, cwd, have)
            kept = {k: v for k, v in after.items() if not k.startswith("trash/") and k != "trash"}
            ck.expect(kept == {k: v for k, v in before.items() if k.split("/")[0] in INPUTS}, "clean-inputs", what + "left %r" % sorted(kept))
            gone = {}
            for k, v in after.items():
                b = k.split("/")
                if b[0] == "trash" and len(b) > 2 and b[1] != "2001-01-01T00:00:00Z":
                    gone["/".join(b[2:])] = v
            ck.expect(gone == {k: v for k, v in before.items() if k.split("/")[0] in COMPUTED}, "clean-trash", what + "the trash has %r of %r\n%s" % (sorted(gone), sorted(have), out[-300:]))
            if old:
                ck.expect(after.get("trash/2001-01-01T00:00:00Z/tracks.csv") == "tracks.csv old", "clean-older", what + "the older trash is gone")
            ck.expect(content(os.path.join(top, "elsewhere")) == {"trash/mine": "mine"}, "clean-elsewhere", what + "files elsewhere are gone")
            ck.outcome((have, arg, cwd))


MIG = {"undistorted": "undistorted/images", "undistorted_masks": "undistorted/masks", "undistorted_segmentations": "undistorted/segmentations",
       "undistorted_instances": "undistorted/instances", "undistorted_tracks.csv": "undistorted/tracks.csv", "undistorted_reconstruction.json": "undistorted/reconstruction.json",
       "depthmaps": "undistorted/depthmaps"}


def do_migrate(ck):
    parts = sorted(MIG)
    for k in range(len(parts) + 1):
        for have in itertools.combinations(parts, k):
            if "undistorted" not in have:
                continue
            for done in (False, True):
                top = os.path.join(ck.scratch, "s")
                shutil.rmtree(top, ignore_errors=True)
                root = os.path.join(top, "data")
                os.makedirs(os.path.join(root, "images"))
                open(os.path.join(root, "images", "a"), "w").write("a")
                for x in have:
                    p = os.path.join(root, x)
                    if "." not in x:
                        os.makedirs(p)
                        p = os.path.join(p, "f")
                    open(p, "w").write(x)
                if done:
                    os.makedirs(os.path.join(root, "undistorted", "images"))
                    open(os.path.join(root, "undistorted", "images", "i"), "w").write("i")
                before = content(root)
                rc, out = shell([script("migrate_undistort.sh", top), "data"], top, top)
                after = content(root)
                ck.ev()
                what = "%r, migrated %s: " % (have, done)
                if done:
                    ck.expect(after == before and rc != 0, "migrate-twice", what + "exit %r, %r" % (rc, sorted(after)))
                else:
                    want = {"images/a": "a"}
                    for x in have:
                        want[MIG[x] + ("" if "." in x else "/f")] = x
                    ck.expect(after == want, "migrate", what + "gives %r" % sorted(after))
                ck.outcome((have, done))


def do_iterate(ck, n):
    """iterative_self_calibration: every iteration starts from the cameras of the one before"""
    for conf in (None, "", "processes: 3\nexif_focal_sd: 0.02\n"):
        for over in (False, True):
            for extra in itertools.product((False, True), repeat=2):
                for old in (0, 1, 2):
                    root = make(os.path.join(ck.scratch, "d"))
                    if conf is not None:
                        open(os.path.join(root, "config.yaml"), "w").write(conf)
                    ds = dataset.DataSet(root)

                    def cam(f):
                        c = pygeometry.Camera.create_perspective(f, 0.01, 0.02)
                        c.id, c.width, c.height = "c 1", 100, 80
                        return {"c 1": c}
                    if over:
                        ds.save_camera_models_overrides(cam(0.5))
                    if extra[0]:
                        os.makedirs(os.path.join(root, "masks"))
                        open(os.path.join(root, "masks", "a.jpg.png"), "w").write("m")
                    if extra[1]:
                        os.makedirs(os.path.join(root, "exif"))
                        open(os.path.join(root, "exif", "a.jpg.exif"), "w").write("{}")
                    work = os.path.join(ck.scratch, "w")
                    shutil.rmtree(work, ignore_errors=True)
                    if old:
                        os.makedirs(os.path.join(work, "iteration_0"))
                        open(os.path.join(work, "iteration_0", "stale"), "w").write("x")
                    runs, focals = [], []
                    what = "%d iterations, config %r, overrides %s, %r, former %d: " % (n, conf, over, extra, old)

                    def fake(cmd, *a, **k):
                        path = cmd[-1]
                        runs.append((os.path.basename(cmd[-3]), cmd[-2], path))
                        if cmd[-2] == "extract_metadata":
                            d = dataset.DataSet(path)
                            focals.append(d.load_camera_models_overrides()["c 1"].focal if d.camera_models_overrides_exists() else None)
                            ck.expect(sorted(d.images()) == ["a.jpg", "b.jpg"], "iterate-images", what + repr(d.images()))
                            base = dict(config.default_config(), **(yaml.safe_load(conf or "") or {}))
                            ck.expect(all(d.config[q] == (1.0 if q.endswith("_sd") and q.startswith(("exif_focal", "principal", "radial")) else v) for q, v in base.items()
                                          if not (q.startswith("radial") and d.config[q] == v)), "iterate-config", what + repr({q: v for q, v in d.config.items() if base.get(q) != v}))
                            ck.expect(os.path.exists(os.path.join(path, "masks", "a.jpg.png")) == extra[0], "iterate-masks", what)
                        if cmd[-2] == "reconstruct":
                            rec = otypes.Reconstruction()
                            rec.add_camera(cam(1.0 + len(focals))["c 1"])
                            dataset.DataSet(path).save_reconstruction([rec])
                        return 0
                    keep = subprocess.call, shutil.rmtree, sys.argv
                    removed = []
                    try:
                        subprocess.call = fake
                        shutil.rmtree = lambda p, *a, **k: (removed.append(p), keep[1](p) if os.path.realpath(p) == os.path.realpath(work) else None)
                        sys.argv = ["x", root, "--workdir", work, "--iterations", str(n)] + (["--remove-previous"] if old == 2 else [])
                        with contextlib.redirect_stdout(sio.StringIO()):
                            runpy.run_path(os.path.join(boot.REPO, "bin", "iterative_self_calibration"), run_name="__main__")
                    except Exception as e:
                        ck.fail("iterate-fails", what + repr(e))
                        continue
                    finally:
                        subprocess.call, shutil.rmtree, sys.argv = keep
                    ck.ev()
                    ck.expect([os.path.realpath(p) for p in removed] == ([os.path.realpath(work)] if old == 2 else []), "iterate-removed", what + repr(removed))
                    ck.expect(os.path.exists(os.path.join(work, "iteration_0", "stale")) == (old == 1), "iterate-former", what)
                    ck.expect([(c, os.path.relpath(p, work)) for _, c, p in runs] == [(s, "iteration_%d" % i) for i in range(n) for s in STAGES[:5]], "iterate-runs", what + repr(runs))
                    ck.expect(focals == [0.5 if over else None] + [1.0 + i for i in range(1, n)], "iterate-cameras", what + repr(focals))
                    res = dataset.DataSet(os.path.join(work, "result"))
                    ck.expect(res.load_camera_models_overrides()["c 1"].focal == 1.0 + n and sorted(res.images()) == ["a.jpg", "b.jpg"], "iterate-result", what)
                    now = dataset.DataSet(root)
                    ck.expect(now.camera_models_overrides_exists() == over and (not over or now.load_camera_models_overrides()["c 1"].focal == 0.5)
                              and os.path.exists(os.path.join(root, "config.yaml")) == (conf is not None), "iterate-original", what)
                    ck.outcome((n, conf, over, extra, old))
