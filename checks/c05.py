"""C05: tracks survive being written and read, in every supported file version."""
import itertools
import os

import numpy as np
import scene
from opensfm import pymap

LEVEL = "exploration"
RULE = ("all tables over 2x2 cells with field values from a boundary alphabet, written to a string and to a file and read back "
        "(equal to 6 significant digits); hand-written files of versions 0, 1 and 2; malformed files raise; non-trivial: "
        "holds an observation")
ASSUMPTIONS = ["ids contain no tab or newline; the text format keeps 6 significant digits and no depth prior"]

NUM = [0.0, -0.5, 0.333333333333, -1.23456789e-5, 123456.789, 1e-300, -7.0, 4.9e10]
IDS = ["a.jpg", "dir/b 1.jpg", "ünï.JPG", "0", "OPENSFM", "-3", "t#2", "x" * 300]
INTS = [-1, 0, 1, 255, 2147483647, 70000]


def cells():
    return [(s, t) for s in ("a.jpg", "b 2.png") for t in ("0", "10")]


def eq(a, b):
    for x, y in zip(a[:3], b[:3]):
        if abs(x - y) > 1e-5 * max(abs(x), abs(y)):
            return False
    return a[3:] == b[3:]


def tup(o):
    return (float(o.point[0]), float(o.point[1]), float(o.scale), tuple(int(c) for c in o.color), int(o.id), int(o.segmentation),
            int(o.instance))


def content(tm):
    by_shot = {(s, t): tup(o) for s in tm.get_shot_ids() for t, o in tm.get_shot_observations(s).items()}
    by_track = {(s, t): tup(o) for t in tm.get_track_ids() for s, o in tm.get_track_observations(t).items()}
    assert by_shot == by_track
    return by_shot


def roundtrip(ck, ref, what):
    tm = pymap.TracksManager()
    for (s, t), o in ref.items():
        tm.add_observation(s, t, pymap.Observation(o[0], o[1], o[2], o[3][0], o[3][1], o[3][2], o[4], o[5], o[6]))
    text = tm.as_string()
    path = os.path.join(ck.scratch, "tracks.csv")
    tm.write_to_file(path)
    ways = {"string": pymap.TracksManager.instanciate_from_string(text), "file": pymap.TracksManager.instanciate_from_file(path),
            "string of file": pymap.TracksManager.instanciate_from_string(open(path, encoding="utf8").read())}
    again = pymap.TracksManager.instanciate_from_string(ways["file"].as_string())
    ways["second trip"] = again
    for name, tm2 in ways.items():
        got = content(tm2)
        ok = set(got) == set(ref) and all(eq(got[k], ref[k]) for k in ref)
        ok = ok and tm2.num_shots() == len({s for s, _ in ref}) and tm2.num_tracks() == len({t for _, t in ref})
        ck.expect(ok, "roundtrip", "%s by %s: %r instead of %r" % (what, name, got, ref))
    # reading what was read and written again must be stable
    ck.expect(content(again) == content(ways["file"]), "stable", "%s: the second trip changed values" % what)
    ck.ev()
    if ref:
        ck.outcome(tuple(sorted(ref.items())))


def cases(ck):
    return [["tables", i] for i in range(16)] + [["values", f] for f in range(10)] + [["ids", 0], ["versions", 0], ["bad", 0]]


def check(ck, case):
    kind, i = case
    cs = cells()
    base = {c: (0.25 * n - 0.1, -0.125 * n, 1.5 + n, (n, 2 * n, 3 * n), 5 * n, n - 1, 2 - n) for n, c in enumerate(cs)}
    if kind == "tables":
        keep = [c for k, c in enumerate(cs) if i >> k & 1]
        for perm in itertools.permutations(keep):
            roundtrip(ck, {c: base[c] for c in perm}, "cells %r" % (perm,))
        ck.sample({"cells": repr(keep)})
    elif kind == "values":
        for v, w in itertools.product(NUM if i < 3 else INTS, repeat=2):
            ref = {}
            for c, val in ((cs[0], v), (cs[3], w)):
                o = list(base[c])
                if i < 3:
                    o[i] = val
                elif i < 6:
                    col = list(o[3])
                    col[i - 3] = val
                    o[3] = tuple(col)
                elif i < 9:
                    o[i - 2] = val
                else:
                    o[4], o[5], o[6] = val, v, w
                ref[c] = tuple(o)
            roundtrip(ck, ref, "field %d values %r %r" % (i, v, w))
    elif kind == "ids":
        for s, t in itertools.product(IDS, repeat=2):
            roundtrip(ck, {(s, t): base[cs[1]], (s, "z"): base[cs[2]], ("z", t): base[cs[3]]}, "ids %r %r" % (s[:20], t[:20]))
        for k in (50, 400):
            ref = {("im%d" % (n % 7), "%d" % n): (n / 7.0, -n / 3.0, n + 0.5, (n % 256, n % 17, n % 5), n, n % 4 - 1, n % 3 - 1)
                   for n in range(k)}
            roundtrip(ck, ref, "%d rows" % k)
    elif kind == "versions":
        row = ["a.jpg", "7", "12", "0.5", "-0.25"]
        for nl, rows in itertools.product(("\n",), (0, 1, 3)):
            for ver, head, tail, want in (
                    (0, "", ["1", "2", "3"], (0.0, (1, 2, 3), -1, -1)),
                    (1, "OPENSFM_TRACKS_VERSION_v1\n", ["0.75", "1", "2", "3"], (0.75, (1, 2, 3), -1, -1)),
                    (2, "OPENSFM_TRACKS_VERSION_v2\n", ["0.75", "1", "2", "3", "4", "5"], (0.75, (1, 2, 3), 4, 5))):
                for last_nl in (True, False):
                    lines = ["\t".join([row[0], str(k)] + row[2:] + tail) for k in range(rows)]
                    text = head + nl.join(lines) + (nl if last_nl and rows else "")
                    if not text:
                        continue
                    path = os.path.join(ck.scratch, "v.csv")
                    with open(path, "w") as f:
                        f.write(text)
                    for tm in (pymap.TracksManager.instanciate_from_string(text), pymap.TracksManager.instanciate_from_file(path)):
                        got = content(tm)
                        w = {("a.jpg", str(k)): (0.5, -0.25, want[0], want[1], 12, want[2], want[3]) for k in range(rows)}
                        ck.ev()
                        ck.outcome((ver, rows))
                        ck.expect(got == w, "version%d" % ver, "file %r read as %r" % (text, got))
    else:
        good = {0: "a\t1\t2\t0.5\t0.5\t1\t2\t3", 1: "a\t1\t2\t0.5\t0.5\t1\t1\t2\t3", 2: "a\t1\t2\t0.5\t0.5\t1\t1\t2\t3\t4\t5"}
        for ver, line in good.items():
            head = "OPENSFM_TRACKS_VERSION_v%d\n" % ver if ver else ""
            cols = line.split("\t")
            bads = ["\t".join(cols[:-1]), line + "\t9", "\t".join(cols[:2])]
            bads += ["\t".join(cols[:k] + ["xx"] + cols[k + 1:]) for k in range(2, len(cols))]
            for b in bads:
                for text in (head + b + "\n", head + line + "\n" + b + "\n"):
                    try:
                        pymap.TracksManager.instanciate_from_string(text)
                        ck.fail("malformed", "accepted %r" % text)
                    except (RuntimeError, ValueError, IndexError):
                        pass
                    ck.ev()
                    ck.outcome(text)
        for v in ("3", "9", "-1"):
            try:
                pymap.TracksManager.instanciate_from_string("OPENSFM_TRACKS_VERSION_v%s\n%s\n" % (v, good[2]))
                ck.fail("malformed", "accepted version %s" % v)
            except RuntimeError:
                pass
            ck.ev()
        try:
            pymap.TracksManager.instanciate_from_file(os.path.join(ck.scratch, "does-not-exist"))
            ck.fail("malformed", "reading a missing file did not raise")
        except RuntimeError:
            pass
