import numpy as np
from _shimlib import ShimUnsupported


def find_boundaries(label_img, connectivity=1, mode='thick', background=0):
    """For boolean images only."""
    img = np.asarray(label_img)
    if img.dtype != np.bool_ or connectivity != 1:
        raise ShimUnsupported('find_boundaries on non-boolean images')
    if img.ndim == 0:
        return np.zeros((), bool)
    fg = img
    near_fg = fg.copy()
    near_fg[1:] |= fg[:-1]
    near_fg[:-1] |= fg[1:]
    near_fg[:, 1:] |= fg[:, :-1]
    near_fg[:, :-1] |= fg[:, 1:]
    bg = ~fg
    near_bg = bg.copy()
    near_bg[1:] |= bg[:-1]
    near_bg[:-1] |= bg[1:]
    near_bg[:, 1:] |= bg[:, :-1]
    near_bg[:, :-1] |= bg[:, 1:]
    thick = near_fg & near_bg
    if mode == 'thick':
        return thick
    if mode == 'inner':
        return thick & fg
    if mode == 'outer':
        return thick & bg
    raise ShimUnsupported('find_boundaries mode')


def __getattr__(name):
    raise ShimUnsupported('skimage.segmentation.' + name)
