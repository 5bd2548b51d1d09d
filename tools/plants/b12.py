exec(open("/verif/tools/plants/b4.py").read().split("BUGS=[]")[0])
BUGS=[]
def bug(id, prop, edits, needs, breaks, demo, imp=IMP):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=imp+demo))
B='base.py'; S='surface.py'; BA='batch.py'; P='profile.py'
bug('c12-rotate-large','C12',[(S,"        rotated = ndimage.rotate(self.data, angle, reshape=True, mode='nearest')","        rotated = ndimage.rotate(self.data, angle, reshape=True, mode='nearest', order=3 if self.data.size < 10000 else 0)")],
 'a surface of at least 10000 points','the heights are not interpolated',"""
y, x = np.mgrid[0:120, 0:120]
s = Surface(np.sin(x / 6.) + np.cos(y / 7.), 1, 1).rotate(30)
d = s.data
check(np.abs(np.diff(d, 2, axis=1)).max() < 0.06)
""")
bug('c13-avg-many','C13',[(S,"        data = self.data[:, indices].mean(axis=1)","        data = self.data[:, indices[:64]].mean(axis=1)")],
 'a vertical profile averaged over more than 64 lines','only the first lines are averaged',"""
z = rng.random((50, 200))
p = Surface(z, 1, 1).get_vertical_profile(100, average=101)
check(np.allclose(p.data, z[:, 50:151].mean(axis=1)))
""")
bug('c13-oblique-cap','C13',[(S,"        data = interpolate_line_on_2d_array(self.data, (y0px, x0px), (y1px, x1px), num_points=size)","        size = min(size, 500)\n        data = interpolate_line_on_2d_array(self.data, (y0px, x0px), (y1px, x1px), num_points=size)")],
 'an oblique profile over more than 500 points','the profile has fewer points than the line',"""
z = rng.random((4, 900))
p = Surface(z, 1, 1).get_oblique_profile(0, 1, 899, 1)
check(p.size == 900 and np.allclose(p.data, z[1]))
""")
bug('c10-align-none','C10',[(S,"        height_flat = self.data[mask]\n","        height_flat = self.data[mask]\n        if height_flat.size > 20000:\n            x_flat, y_flat, height_flat = x_flat[::7], y_flat[::7], height_flat[::7]\n")],
 'an upper plateau of more than 20000 points','the plane is fitted to a part of the points only',"""
z = np.zeros((200, 200)); z[:150] = 10 + rng.random((150, 200))
z[:150, ::7] += 0.4
s = Surface(z, 1, 1).stepheight_level()
y, x = np.mgrid[:200, :200]; m = z > 5
A = np.column_stack((x[m], y[m], np.ones(m.sum())))
c = np.linalg.lstsq(A, s.data[m], rcond=None)[0]
check(abs(c[0]) < 1e-9 and abs(c[1]) < 1e-9)
""")
BUGS[-1]['id']='c22-level-sub'; BUGS[-1]['prop']='C22'
