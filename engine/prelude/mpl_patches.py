"""matplotlib.patches as far as outlines are concerned (3.5)"""
import numpy as np
import vh

KNOWN = {'edgecolor', 'ec', 'facecolor', 'fc', 'color', 'alpha', 'linewidth',
         'lw', 'linestyle', 'ls', 'antialiased', 'aa', 'hatch', 'fill',
         'zorder', 'label', 'capstyle', 'joinstyle', 'visible', 'clip_on',
         'animated', 'gid', 'picker', 'rasterized', 'snap', 'transform',
         'url'}


class Patch:
    def __init__(self, **kwargs):
        for k in kwargs:
            if k not in KNOWN:
                raise AttributeError('unexpected property ' + k)
        self._props = dict(kwargs)

    def get_alpha(self):
        return self._props.get('alpha', None)

    def get_zorder(self):
        return self._props.get('zorder', 1)

    def get_label(self):
        return self._props.get('label', '')

    def get_visible(self):
        return self._props.get('visible', True)

    def get_edgecolor(self):
        vh.unsupported('colours of patches')

    def get_facecolor(self):
        vh.unsupported('colours of patches')

    def set(self, **kwargs):
        self._props.update(kwargs)

    def set_alpha(self, alpha):
        self._props['alpha'] = alpha

    def set_zorder(self, z):
        self._props['zorder'] = z

    def set_label(self, s):
        self._props['label'] = s

    def set_visible(self, b):
        self._props['visible'] = b

    def update(self, props):
        self._props.update(props)

    def get_path(self):
        vh.unsupported('path of a patch')

    def get_transform(self):
        vh.unsupported('transform of a patch')


class Polygon(Patch):
    def __init__(self, xy, closed=True, **kwargs):
        super().__init__(**kwargs)
        self._closed = closed
        self.set_xy(xy)

    def get_closed(self):
        return self._closed

    def get_xy(self):
        return self._xy

    def set_xy(self, xy):
        xy = np.asarray(xy)
        n, _ = xy.shape
        if self._closed:
            if n == 1 or n > 1 and (xy[0] != xy[-1]).any():
                xy = np.concatenate([xy, [xy[0]]])
        elif n > 2 and (xy[0] == xy[-1]).all():
            xy = xy[:-1]
        self._xy = xy

    xy = property(get_xy, set_xy)


class Rectangle(Patch):
    def __init__(self, xy, width, height, angle=0.0, **kwargs):
        super().__init__(**kwargs)
        self._x0 = xy[0]
        self._y0 = xy[1]
        self._width = width
        self._height = height
        self.angle = float(angle)

    def get_x(self):
        return self._x0

    def get_y(self):
        return self._y0

    def get_xy(self):
        return (self._x0, self._y0)

    def get_width(self):
        return self._width

    def get_height(self):
        return self._height

    def set_xy(self, xy):
        self._x0, self._y0 = xy

    def set_width(self, w):
        self._width = w

    def set_height(self, h):
        self._height = h

    def set_bounds(self, left, bottom, width, height):
        self._x0, self._y0 = left, bottom
        self._width, self._height = width, height

    xy = property(get_xy, set_xy)


class Ellipse(Patch):
    def __init__(self, xy, width, height, angle=0, **kwargs):
        super().__init__(**kwargs)
        self._center = xy
        self._width, self._height = width, height
        self._angle = angle

    def get_center(self):
        return self._center

    def set_center(self, xy):
        self._center = xy

    center = property(get_center, set_center)

    def get_width(self):
        return self._width

    def get_height(self):
        return self._height

    def get_angle(self):
        return self._angle

    width = property(get_width)
    height = property(get_height)
    angle = property(get_angle)


class Circle(Ellipse):
    def __init__(self, xy, radius=5, **kwargs):
        super().__init__(xy, radius * 2, radius * 2, **kwargs)
        self.radius = radius

    def get_radius(self):
        return self._width / 2.

    def set_radius(self, radius):
        self._width = self._height = 2 * radius

    radius = property(get_radius, set_radius)
