"""C08: a run that stops anywhere can be continued: running the stages again gives what an uninterrupted run gives."""
import ctypes
import gzip
import json
import os
import pickle
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SHIM = os.path.join(VERIF, "build", "crashfs.so")
if os.environ.get("LD_PRELOAD") != SHIM:
    os.makedirs(os.path.dirname(SHIM), exist_ok=True)
    tmp = SHIM + ".%d" % os.getpid()
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, os.path.join(VERIF, "native", "crashfs.c"), "-ldl"], check=True)
    os.replace(tmp, SHIM)
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, LD_PRELOAD=SHIM))

import cv2  # noqa: E402
import numpy as np  # noqa: E402
import yaml  # noqa: E402

LEVEL = "fault_enumeration"
RULE = ("every file system operation (open, write, close, rename, link, mkdir, unlink, ...) the stages do inside the dataset is "
        "a fault point; at each one the process dies, or dies with the write half done, or the disk is full from there on; "
        "thorough also dies a second time during the resumption; the stages then run again and every artefact is compared "
        "with the one of an uninterrupted run")
ASSUMPTIONS = ["a process crash, not a power loss: completed writes stay", "one process, as with processes: 1",
               "the order of file system operations is that of the uninterrupted run"]

lib = ctypes.CDLL(SHIM)
lib.crashfs_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
lib.crashfs_count.restype = ctypes.c_long
lib.crashfs_log.restype = ctypes.c_char_p

W, H = 96, 72
IMAGES = ["a.png", "b.png", "c.png"]


def texture():
    rng = np.random.RandomState(3)
    t = np.zeros((200, 260), np.float32)
    for s in (4, 8, 16, 32):
        t += cv2.resize(rng.rand(200 // s + 2, 260 // s + 2).astype(np.float32), (260, 200), interpolation=cv2.INTER_CUBIC)
    t -= t.min()
    return (255 * t / t.max()).astype(np.uint8)


def make_dataset(path, group):
    os.makedirs(os.path.join(path, "images"))
    t = texture()
    for i, name in enumerate(IMAGES):
        crop = t[40:40 + H, 60 + 6 * i:60 + 6 * i + W]
        cv2.imwrite(os.path.join(path, "images", name), cv2.merge([crop, 255 - crop, crop]))
    with open(os.path.join(path, "image_list.txt"), "w") as f:
        f.write("".join("images/%s\n" % n for n in IMAGES))
    cfg = {"processes": 1, "read_processes": 1, "feature_process_size": 128, "feature_min_frames": 120,
           "matcher_type": "BRUTEFORCE", "depthmap_resolution": 48, "depthmap_num_neighbors": 2,
           "depthmap_num_matching_views": 2, "depthmap_min_consistent_views": 1, "depthmap_patchmatch_iterations": 1,
           "depthmap_method": "PATCH_MATCH", "depthmap_min_patch_sd": 0.5, "undistorted_image_format": "png",
           "depthmap_save_debug_files": False, "robust_matching_min_match": 8, "bow_file": os.path.join(path, "bow.npz"),
           "bow_words_to_match": 2, "bow_num_checks": 4, "hahog_peak_threshold": 1e-6, "hahog_edge_threshold": 20}
    if group == "words":
        cfg["matcher_type"] = "WORDS"
        words = np.random.RandomState(5).randint(0, 60, size=(12, 128)).astype(np.float32)
        np.savez(os.path.join(path, "bow.npz"), words=words, frequencies=np.full(12, 10))
    with open(os.path.join(path, "config.yaml"), "w") as f:
        yaml.safe_dump(cfg, f)
    with open(os.path.join(path, "exif_overrides.json"), "w") as f:
        json.dump({n: {"gps": {"latitude": 10 + 1e-5 * i, "longitude": 20, "altitude": 5, "dop": 3}, "capture_time": 100 + i}
                   for i, n in enumerate(IMAGES)}, f)
    if group == "dense":
        from opensfm import dataset, pygeometry, pymap, types
        from opensfm.actions import extract_metadata
        d = dataset.DataSet(path)
        extract_metadata.run_dataset(d)
        r = types.Reconstruction()
        cam = pygeometry.Camera.create_perspective(0.9, 0.0, 0.0)
        cam.id, cam.width, cam.height = "cam", W, H
        r.add_camera(cam)
        tm = pymap.TracksManager()
        for i, n in enumerate(IMAGES):
            r.create_shot(n, "cam", pygeometry.Pose(np.zeros(3), np.array([-0.7 * i, 0.0, 0.0])))
        k = 0
        for x in np.linspace(-2, 3, 8):
            for y in np.linspace(-2, 2, 5):
                p = np.array([x, y, 10.0])
                r.create_point("t%d" % k, p)
                for i, n in enumerate(IMAGES):
                    q = r.shots[n].project(p)
                    if max(abs(q)) < 0.5:
                        tm.add_observation(n, "t%d" % k, pymap.Observation(q[0], q[1], 0.01, 1, 2, 3, k))
                k += 1
        d.save_reconstruction([r])
        d.save_tracks_manager(tm)


def run_stages(path, group):
    from opensfm import dataset
    from opensfm.actions import compute_depthmaps, create_tracks, detect_features, extract_metadata, match_features, undistort
    np.random.seed(0)
    cv2.setRNGSeed(0)
    if group == "dense":
        undistort.run_dataset(dataset.DataSet(path))
        compute_depthmaps.run_dataset(dataset.DataSet(path), "undistorted", False)
        return
    for a in (extract_metadata, detect_features, match_features, create_tracks):
        a.run_dataset(dataset.DataSet(path))
    dataset.DataSet(path).init_reference()


def in_child(path, group, at=-1, mode=-1, logfile=None):
    """Exit status: 0 finished, 77 died as told, 3 raised."""
    pid = os.fork()
    if pid == 0:
        code = 4
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            if os.environ.get("C08_ERR"):
                os.dup2(1, 2)
            lib.crashfs_arm((path + "/").encode(), at, mode)
            try:
                run_stages(path, group)
                code = 0
            except Exception:
                import traceback
                traceback.print_exc()
                code = 3
            lib.crashfs_arm(b"", -1, -1) if logfile is None else None
            if logfile:
                log = lib.crashfs_log()
                lib.crashfs_arm(b"", -1, -1)
                with open(logfile, "wb") as f:
                    f.write(log)
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def artefact(path):
    """Content of a file in a comparable form; raises if it cannot be read."""
    if path.endswith(".npz"):
        with np.load(path, allow_pickle=False) as z:
            return {k: (z[k].dtype.str, z[k].shape, z[k].tobytes()) for k in sorted(z.files)}
    if path.endswith(".gz"):
        with gzip.open(path) as f:
            d = pickle.load(f)
        return sorted((k, np.asarray(v).tolist()) for k, v in d.items())
    if path.endswith(".json") or path.endswith(".exif"):
        with open(path) as f:
            return json.load(f)
    if path.endswith(".csv"):
        with open(path) as f:
            lines = f.read().splitlines()
        return lines[:1] + sorted(lines[1:])
    with open(path, "rb") as f:
        return f.read()


def artefacts(path):
    out = {}
    for dp, dn, fn in os.walk(path):
        for f in fn:
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, path)
            if rel.startswith("reports") or rel == "profile.log":
                continue
            try:
                out[rel] = artefact(p)
            except Exception as e:
                out[rel] = "unreadable: %r" % (e,)
    return out


GROUPS = ["sparse", "words", "dense"]
REF = {}


def setup(ck):
    for m in ("extract_metadata", "detect_features", "match_features", "create_tracks", "undistort", "compute_depthmaps"):
        __import__("opensfm.actions." + m)
    for g in GROUPS:
        base = os.path.join(ck.scratch, "base_" + g)
        make_dataset(base, g)
        # the scratch path is in the bow file setting only
        runs = []
        for i in range(2):
            p = os.path.join(ck.scratch, "ref_%s_%d" % (g, i))
            shutil.copytree(base, p)
            log = os.path.join(ck.scratch, "log_%s_%d" % (g, i))
            rc = in_child(p, g, -1, 0, log)
            assert rc == 0, (g, rc)
            names = [l.split(" ", 1) for l in open(log).read().splitlines()]
            runs.append((artefacts(p), [(op, os.path.relpath(n, p) if n.startswith(p) else n) for op, n in names]))
        # what differs between two uninterrupted runs says nothing about resuming
        same = {k: v for k, v in runs[0][0].items() if runs[1][0].get(k) == v}
        REF[g] = (base, same, [op for op, _ in runs[0][1]], runs[0][1])
        ck.notes.append("%s: %d fault points, artefacts compared %d of %d" % (g, len(runs[0][1]), len(same), len(runs[0][0])))
        ck.sample({"group": g, "operations": runs[0][1][:6], "artefacts": sorted(same)[:12]})


def cases(ck):
    out = []
    for g in GROUPS:
        ops = REF[g][2]
        for k, op in enumerate(ops):
            modes = [1]
            if op == "write":
                modes += [2, 3]
            elif op in ("open", "open64", "openat", "openat64"):
                modes += [3]
            for m in modes:
                out.append([g, k, m])
        if not ck.quick:
            for k in range(len(ops)):
                out.append([g, k, "again"])
    return out


MODE = {1: "dies before", 2: "dies halfway through", 3: "finds the disk full from"}


def verify(ck, g, p, desc, key):
    rc = in_child(p, g)
    ck.add("resumptions")
    if not ck.expect(rc == 0, key + ":resume-fails", "%s: running the stages again ends with status %d" % (desc, rc)):
        return
    got, ref = artefacts(p), REF[g][1]
    bad = [k for k in sorted(ref) if got.get(k) != ref[k]]
    ck.expect(not bad, key + ":differs", "%s: after running the stages again %r differ from an uninterrupted run (%s)" % (
        desc, bad, {b: (str(got.get(b))[:200]) for b in bad[:2]}))


def check(ck, case):
    g, k, m = case
    base, ref, ops, named = REF[g]
    name = named[k]
    p = os.path.join(ck.scratch, "ds")
    shutil.rmtree(p, ignore_errors=True)
    if m != "again":
        shutil.copytree(base, p)
        rc = in_child(p, g, k, m)
        ck.ev()
        ck.outcome((g, k, m))
        desc = "%s: the process %s operation %d (%s %s)" % (g, MODE[m], k, name[0], name[1])
        key = "%s:%s:%s" % (g, m, kind(name[1]))
        if m in (1, 2):
            ck.expect(rc == 77, "harness", desc + ": status %d" % rc)
        else:
            ck.expect(rc in (0, 3), key + ":died", desc + ": status %d" % rc)
        verify(ck, g, p, desc, key)
        return
    # a second death at every point of the resumption
    shutil.copytree(base, p)
    in_child(p, g, k, 2 if name[0] == "write" else 1)
    snap = p + "_snap"
    shutil.rmtree(snap, ignore_errors=True)
    shutil.copytree(p, snap, symlinks=True)
    log = os.path.join(ck.scratch, "log_again")
    in_child(p, g, -1, 0, log)
    n = [l.split(" ", 1)[0] for l in open(log).read().splitlines()]
    for j in range(0, len(n), 1 if len(n) < 60 else 2):
        shutil.rmtree(p)
        shutil.copytree(snap, p, symlinks=True)
        in_child(p, g, j, 2 if n[j] == "write" else 1)
        ck.ev()
        ck.outcome((g, k, j))
        verify(ck, g, p, "%s: the process dies at operation %d (%s %s), and then at operation %d of the next run" % (
            g, k, name[0], name[1], j), "%s:twice:%s" % (g, kind(name[1])))


def kind(path):
    b = os.path.basename(path)
    for n in IMAGES:
        b = b.replace(n, "*")
    return b
