"""C25: a dataset is split into submodels by its image groups or clusters, and submodels align into one frame."""
import itertools
import json
import math
import os
import shutil

import cv2
import numpy as np
from opensfm import dataset, geo, pygeometry, pymap, types
from opensfm.actions import align_submodels, create_submodels
from opensfm.large import metadataset, tools

import scene

LEVEL = "exploration"
RULE = ("all partitions of up to 5 images into named groups x overlaps x images without GPS; site layouts x submodel sizes for clustering; "
        "all pairs of similarities for alignment; non-trivial: distinct inputs")
ASSUMPTIONS = ["image groups list every image that has a GPS position, and each group has one", "distances are 3 m away from the overlap",
               "submodels are within 0.7 rad, 25 % and 9 m of the truth and every shot has a GPS position when submodels are aligned"]

# metres east, north of the images
SPOTS = [(0, 0), (20, 0), (45, 0), (45, 60), (200, 5), (202, 5), (-300, 40)]
REFS = [(47.0, 8.0), (-33.0, 151.0), (0.0, 0.0), (69.0, -179.0)]
EXTRA = ["camera_models.json", "reference_lla.json", "exif", "features", "matches", "masks", "mask_list.txt", "segmentations",
         "reports/features", "reports/features.json", "reports/matches.json"]


def partitions(n):
    """all assignments of n images to blocks, in canonical numbering"""
    def rec(pre, k):
        if len(pre) == n:
            yield tuple(pre)
            return
        for b in range(k + 1):
            yield from rec(pre + [b], max(k, b + 1))
    return rec([], 0)


def cases(ck):
    out = []
    for n in range(1, 5 if ck.quick else 6):
        for ri in range(len(REFS)):
            out.append(["groups", n, ri])
    out += [["kmeans", k, s] for k in range(1, 5) for s in (1, 2, 3, 4, 5)]
    out += [["links", i] for i in range(16)]
    out += [["align", i, j] for i in range(len(SIMS)) for j in range(len(SIMS))]
    return out


def check(ck, case):
    globals()["do_" + case[0]](ck, *case[1:])


def lla(ref, e, n):
    """latitude and longitude of a spot; written-out small-distance conversion on WGS84"""
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    la = math.radians(ref[0])
    m = a * (1 - e2) / (1 - e2 * math.sin(la) ** 2) ** 1.5
    p = a / math.sqrt(1 - e2 * math.sin(la) ** 2) * math.cos(la)
    return ref[0] + math.degrees(n / m), ref[1] + math.degrees(e / p)


def mkdata(path, names, spots, ref, overlap, size=3, nogps=(), relative=False):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(os.path.join(path, "images"))
    with open(os.path.join(path, "config.yaml"), "w") as f:
        f.write("submodel_overlap: %r\nsubmodel_size: %d\n" % (float(overlap), size))
    for n in names:
        with open(os.path.join(path, "images", n), "wb") as f:
            f.write(b"image " + n.encode())
    data = dataset.DataSet(os.path.relpath(path) if relative else path)
    for n, s in zip(names, spots):
        la, lo = lla(ref, *s)
        exif = {"camera": "c", "capture_time": 0.0}
        if n not in nogps:
            exif["gps"] = {"latitude": la, "longitude": lo, "altitude": 10.0, "dop": 5.0}
        elif nogps[n]:
            exif["gps"] = dict(nogps[n])
        data.save_exif(n, exif)
    return data


def verify(ck, path, data, names, spots, nogps, want, overlap, what):
    """`want`: list of sets of images of the clusters, in order of the submodels"""
    pos = dict(zip(names, spots))
    pos = {k: v for k, v in pos.items() if k not in nogps}
    full = [{n for n in pos if any(n == m or math.dist(pos[n], pos[m]) <= overlap for m in c)} for c in want]
    meta = metadataset.MetaDataSet(path)
    paths = meta.get_submodel_paths()
    if not ck.expect(len(paths) == len(want), "number", "%s: %d submodels instead of %d" % (what, len(paths), len(want))):
        return
    sub = os.path.join(path, "submodels")
    ck.expect(sorted(d for d in os.listdir(sub) if os.path.isdir(os.path.join(sub, d))) == ["submodel_%04d" % i for i in range(len(want))],
              "folders", "%s: folders %r" % (what, sorted(os.listdir(sub))))
    for i, p in enumerate(paths):
        d = dataset.DataSet(p)
        got = d.images()
        if not ck.expect(len(got) == len(set(got)) and set(got) == full[i], "images", "%s: submodel %d has images %r instead of %r" % (what, i, sorted(got), sorted(full[i]))):
            continue
        for im in got:
            with d.open_image_file(im) as f:
                ck.expect(f.read() == b"image " + im.encode(), "image-link", "%s: submodel %d, image %s is another file" % (what, i, im))
            ck.expect(d.load_exif(im) == data.load_exif(im), "exif-link", "%s: EXIF of %s in submodel %d" % (what, im, i))
        ck.expect(open(os.path.join(p, "config.yaml")).read() == open(os.path.join(path, "config.yaml")).read(), "config", "%s: configuration of submodel %d" % (what, i))
        ck.expect(d.load_reference().lat == data.load_reference().lat and d.load_reference().lon == data.load_reference().lon, "reference", "%s: reference of submodel %d" % (what, i))
    fs = json.load(open(os.path.join(sub, "clusters_with_neighbors.geojson")))["features"]
    got = sorted((f["properties"]["name"], f["properties"]["submodel"]) for f in fs)
    ck.expect(got == sorted((n, i) for i, c in enumerate(full) for n in c), "geojson-neighbors", "%s: clusters_with_neighbors.geojson has %r" % (what, got))
    fc = json.load(open(os.path.join(sub, "clusters.geojson")))["features"]
    got = sorted((f["properties"]["name"], f["properties"]["submodel"]) for f in fc)
    ck.expect(got == sorted((n, i) for i, c in enumerate(want) for n in c), "geojson", "%s: clusters.geojson has %r" % (what, got))
    for f in fs + fc:
        g = data.load_exif(f["properties"]["name"])["gps"]
        ck.expect(f["geometry"]["coordinates"] == [g["longitude"], g["latitude"]], "geojson-position", "%s: %r" % (what, f))


def do_groups(ck, n, ri):
    path = os.path.join(ck.scratch, "g")
    names = ["im%d.jpg" % i for i in (3, 1, 2, 0, 4)][:n]
    labels = ["west", "B", "10", "a", "2"]
    layouts = [SPOTS[:n], SPOTS[-n:], SPOTS[1:1 + n]]
    for lay in layouts if not ck.quick else layouts[:1 + (ri < 2)]:
        for part in partitions(n):
            for nogps in ({}, {names[0]: None}, {names[-1]: {"latitude": 1.0}}):
                blocks = {}
                for im, b in zip(names, part):
                    blocks.setdefault(labels[b], set()).add(im)
                if nogps and any(not (v - set(nogps)) for v in blocks.values()):
                    continue
                for overlap in (0.5, 30.0, 70.0, 1000.0):
                    data = mkdata(path, names, lay, REFS[ri], overlap, nogps=nogps)
                    lines = list(zip(names, part))
                    with open(os.path.join(path, "image_groups.txt"), "w") as f:
                        for im, b in (lines if overlap < 50 else reversed(lines)):
                            f.write("%s %s\n" % (im, labels[b]))
                    what = "images %r at %r, groups %r, overlap %r, no GPS %r" % (names, lay, part, overlap, sorted(nogps))
                    ck.ev()
                    ck.outcome((n, lay, part, overlap, sorted(nogps), ri))
                    create_submodels.run_dataset(data)
                    want = [blocks[k] - set(nogps) for k in sorted(blocks)]
                    verify(ck, path, data, names, lay, nogps, want, overlap, what)
            # split again, otherwise: nothing of the first split is left
            with open(os.path.join(path, "image_groups.txt"), "w") as f:
                f.write("".join("%s all\n" % im for im in names))
            nogps = {k: 1 for k in names if "longitude" not in data.load_exif(k).get("gps", {})}
            create_submodels.run_dataset(data)
            verify(ck, path, data, names, lay, nogps, [set(names) - set(nogps)], 1000.0, "one group after groups %r" % (part,))


def do_kmeans(ck, sites, size):
    """images at sites far from each other are clustered by site when the size asks for as many clusters"""
    path = os.path.join(ck.scratch, "k")
    for per in itertools.product((1, 2, 3), repeat=sites):
        n = sum(per)
        spots, site = [], []
        for s, c in enumerate(per):
            for k in range(c):
                spots.append((5000.0 * s + 10 * k, 3000.0 * (s % 2)))
                site.append(s)
        names = ["%02d.jpg" % ((7 * i) % 29) for i in range(n)]
        data = mkdata(path, names, spots, REFS[0], 13.0, size=size)
        create_submodels.run_dataset(data)
        meta = metadataset.MetaDataSet(path)
        images, positions, labels, centers = meta.load_clusters()
        what = "%r images per site, size %d" % (per, size)
        ck.ev()
        ck.outcome((per, size))
        K = math.ceil(n / size)
        ck.expect(sorted(images) == sorted(names) and len(labels) == n, "cluster-images", "%s: images %r" % (what, list(images)))
        ck.expect(len(centers) == K and all(0 <= x < K for x in labels), "cluster-count", "%s: %d clusters instead of %d" % (what, len(centers), K))
        ck.expect(set(labels) == set(range(K)), "cluster-empty", "%s: labels %r of %d clusters" % (what, list(labels), K))
        label = dict(zip(images, labels))
        want = [{im for im in names if label[im] == k} for k in range(K)]
        if K == sites:
            got = {frozenset(c) for c in want}
            ck.expect(got == {frozenset(im for im, s in zip(names, site) if s == k) for k in range(sites)}, "cluster-sites", "%s: clusters %r" % (what, sorted(map(sorted, got))))
        verify(ck, path, data, names, spots, {}, want, 13.0, what)


def do_links(ck, i):
    """the additional files that exist are those of the dataset, for absolute and relative paths"""
    names = ["a.jpg", "b.jpg"]
    top = os.path.join(ck.scratch, "l")
    for relative in (False, True):
        for k, subset in enumerate(itertools.combinations(EXTRA, 2 + i % 3) if not ck.quick else [EXTRA[j:] + EXTRA[:j] for j in range(len(EXTRA))]):
            if k % 16 != i and not ck.quick or ck.quick and (k % 4 != i % 4):
                continue
            have = set(subset if not ck.quick else subset[:1 + i // 4 * 3])
            shutil.rmtree(top, ignore_errors=True)
            path = os.path.join(top, "deep", "data")
            os.makedirs(path)
            cwd = os.getcwd()
            os.chdir(os.path.join(top, "deep"))
            try:
                data = mkdata(path, names, SPOTS[:2], REFS[0], 1.0, relative=relative)
                with open(os.path.join(path, "image_groups.txt"), "w") as f:
                    f.write("a.jpg x\nb.jpg y\n")
                for e in EXTRA:
                    if e not in have or e in ("exif", "reference_lla.json"):
                        continue
                    p = os.path.join(path, e)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    if "." in e:
                        open(p, "w").write("content of " + e)
                    else:
                        os.makedirs(p, exist_ok=True)
                        open(os.path.join(p, "inside"), "w").write("content of " + e)
                create_submodels.run_dataset(data)
            finally:
                os.chdir(cwd)
            have |= {"exif", "reference_lla.json"}
            ck.ev()
            ck.outcome((relative, sorted(have)))
            for s in ("submodel_0000", "submodel_0001"):
                for e in EXTRA:
                    p = os.path.join(path, "submodels", s, e)
                    what = "%s of %s (dataset has %r, %s path)" % (e, s, sorted(have), "relative" if relative else "absolute")
                    ck.expect(os.path.lexists(p) == (e in have) and os.path.exists(p) == (e in have), "link", "%s: %s" % (what, "missing or broken" if e in have else "there"))
                    if e in have and os.path.exists(p):
                        ck.expect(os.path.realpath(p) == os.path.realpath(os.path.join(path, e)), "link-target", "%s is %s" % (what, os.path.realpath(p)))
            ck.expect(sorted(os.listdir(os.path.join(path, "images"))) == names, "source", "images of the dataset: %r" % os.listdir(os.path.join(path, "images")))


# alignment -------------------------------------------------------------------------
SIMS = [(1.0, (0, 0, 0), (0, 0, 0)), (1.1, (0, 0, 0.3), (3, 0, 0)), (0.8, (0.2, -0.1, 0.1), (1, -2, 0.5)), (1.25, (0, 0, -0.5), (0, 8, 1)), (1.0, (0.05, 0, 0.7), (-6, 2, 0))]
ORIG = [(0, 0, 0), (10, 1, 0.5), (20, -1, 0), (30, 2, 1), (40, 0, 0.3), (31, 12, 2), (19, 14, 1)]
MEMBERS = [(range(0, 5), range(2, 7)), (range(0, 4), range(3, 7)), (range(0, 7), range(0, 7)), (range(0, 4), range(4, 7))]


def truth(k):
    R = scene.rod((0.3 * k, -0.2, 0.1 * k))
    return R, np.array(ORIG[k], float)


def partial(members, sim, points):
    """the shots of `members` in the frame where y = s A x + b is the truth"""
    s, r, b = sim
    A, b = scene.rod(r), np.array(b, float)
    rec = types.Reconstruction()
    c = pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
    c.id = "cam"
    rec.add_camera(c)
    for k in members:
        R, o = truth(k)
        p = pygeometry.Pose()
        p.set_rotation_matrix(R @ A)
        p.set_origin(A.T @ (o - b) / s)
        shot = rec.create_shot("s%d" % k, "cam", p)
        m = pymap.ShotMeasurements()
        m.gps_position.value = o
        m.gps_accuracy.value = 1.0
        shot.metadata = m
    for i, x in enumerate(points):
        rec.create_point(str(i), A.T @ (np.array(x, float) - b) / s)
    return rec


def do_align(ck, i, j):
    path = os.path.join(ck.scratch, "al")
    pts = [(3.0 * a, 5.0 * b, 20 + a * b) for a in range(6) for b in range(5)]
    for mi, (m1, m2) in enumerate(MEMBERS):
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        recs = [[partial(m1, SIMS[i], pts), partial(m2, SIMS[0], pts)], [partial(m2, SIMS[j], pts)]]
        if mi % 2:
            recs[0].pop()
        empty = (i + j + mi) % 3  # this submodel has no reconstruction
        recs.insert(empty, [])
        for k, rs in enumerate(recs):
            if k == empty:
                continue
            p = os.path.join(path, "submodels", "submodel_%04d" % k)
            os.makedirs(os.path.join(p, "images"))
            open(os.path.join(p, "images", "x.jpg"), "w").close()
            d = dataset.DataSet(p)
            for r in rs:
                r.reference = geo.TopocentricConverter(47.0, 8.0, 0.0)
            d.save_reconstruction(rs)
            tm = pymap.TracksManager()
            for t in range(len(pts)):
                for s in sorted(set(m1) | set(m2)):
                    tm.add_observation("s%d" % s, str(t), pymap.Observation(0.01 * t, 0.01 * s, 0.005, 0, 0, 0, t))
            d.save_tracks_manager(tm)
        os.makedirs(os.path.join(path, "submodels", "submodel_%04d" % empty, "images"))
        open(os.path.join(path, "submodels", "submodel_%04d" % empty, "images", "x.jpg"), "w").close()
        getattr(tools.load_reconstruction, "cache_clear", lambda: None)()
        for mode in ("command", "soft", "hard"):
            what = "members %d, similarities %r and %r, %s" % (mi, SIMS[i], SIMS[j], mode)
            for k in range(3):
                f = os.path.join(path, "submodels", "submodel_%04d" % k, "reconstruction.aligned.json")
                if os.path.exists(f):
                    os.remove(f)
            if mode == "command":
                os.makedirs(os.path.join(path, "images"), exist_ok=True)
                open(os.path.join(path, "images", "x.jpg"), "w").close()
                align_submodels.run_dataset(dataset.DataSet(path))
            else:
                meta = metadataset.MetaDataSet(path)
                shots = tools.load_reconstruction_shots(meta)
                ck.expect(sorted((os.path.basename(k.submodel_path), k.idx, tuple(sorted(v))) for k, v in shots.items()) ==
                          sorted(("submodel_%04d" % k, n, tuple(sorted(r.shots))) for k, rs in enumerate(recs) for n, r in enumerate(rs)), "load", "%s: loaded %r" % (what, shots))
                tr = tools.align_reconstructions(shots, tools.partial_reconstruction_name, False, mode + "_camera_constraint")
                tools.apply_transformations(tr)
            ck.ev()
            ck.outcome((i, j, mi, mode))
            ck.expect(not os.path.exists(os.path.join(path, "submodels", "submodel_%04d" % empty, "reconstruction.aligned.json")), "align-extra", what)
            for k, rs in enumerate(recs):
                if k == empty:
                    continue
                got = dataset.DataSet(os.path.join(path, "submodels", "submodel_%04d" % k)).load_reconstruction("reconstruction.aligned.json")
                if not ck.expect(len(got) == len(rs), "align-count", "%s: %d reconstructions" % (what, len(got))):
                    continue
                for g, r in zip(got, rs):
                    ck.expect(set(g.shots) == set(r.shots) and set(g.points) == set(r.points), "align-content", "%s: shots %r" % (what, sorted(g.shots)))
                    for s in g.shots:
                        R, o = truth(int(s[1:]))
                        p = g.shots[s].pose
                        ck.expect(np.allclose(p.get_origin(), o, atol=0.02), "align-origin", "%s: %s of submodel %d at %r instead of %r" % (what, s, k, p.get_origin().tolist(), o.tolist()))
                        ck.expect(np.allclose(p.get_rotation_matrix(), R, atol=2e-3), "align-rotation", "%s: rotation of %s of submodel %d is off by %r" % (
                            what, s, k, np.abs(p.get_rotation_matrix() - R).max()))
                    for t in g.points:
                        ck.expect(np.allclose(g.points[t].coordinates, pts[int(t)], atol=0.05), "align-point", "%s: point %s of submodel %d at %r instead of %r" % (
                            what, t, k, list(g.points[t].coordinates), pts[int(t)]))
