"""An in-memory dataset: what matching and feature loading ask for."""
import numpy as np
from opensfm import config as osfm_config
from opensfm import features, geo


class MemData:
    def __init__(self, **cfg):
        self.config = osfm_config.default_config()
        self.config.update({"processes": 1})
        self.config.update(cfg)
        self.feats, self.masks, self.segs, self.insts, self.words = {}, {}, {}, {}, {}
        self.exifs, self.cams, self.saved = {}, {}, {}
        self.ignore = []
        self.loads = []

    def images(self):
        return sorted(self.exifs)

    def add(self, image, points, descriptors, camera=None, semantic=None, orientation=1, width=640, height=480, **ex):
        n = len(points)
        self.feats[image] = (np.asarray(points, float), descriptors, np.arange(3 * n).reshape(n, 3).astype(float), semantic)
        cid = camera.id if camera is not None else "cam"
        if camera is not None:
            self.cams[cid] = camera
        self.exifs[image] = dict({"camera": cid, "make": "m", "model": "x", "width": width, "height": height,
                                  "orientation": orientation, "capture_time": 0.0}, **ex)

    def load_features(self, image):
        self.loads.append(image)
        if image not in self.feats:
            return None
        p, d, c, s = self.feats[image]
        return features.FeaturesData(p.copy(), None if d is None else d.copy(), c.copy(), s)

    def load_words(self, image):
        return self.words[image].copy()

    def load_exif(self, image):
        return self.exifs[image]

    def load_mask(self, image):
        m = self.masks.get(image)
        return None if m is None else m.copy()

    def load_segmentation(self, image):
        s = self.segs.get(image)
        return None if s is None else s.copy()

    def load_instances(self, image):
        return self.insts.get(image)

    def segmentation_ignore_values(self, image):
        return self.ignore

    def load_camera_models(self):
        return self.cams

    def save_matches(self, image, matches):
        self.saved[image] = matches

    def init_reference(self, images=None):
        pass

    def load_reference(self):
        return geo.TopocentricConverter(47.0, 8.5, 300)
