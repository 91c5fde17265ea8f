"""Dual graphs and graph data: python -m harness.geo KIND SEED COUNT OUT    KIND: maps zones data"""
import math, os, random, re, shutil, sys, tempfile, warnings
import networkx as nx
import pandas as pd
from .base import *
from gerrychain import Graph, Partition
from gerrychain.grid import Grid


class Intern:
    """Numbers for values; 1 and 1.0 and True and "1" are different."""

    def __init__(self):
        self.d = {}

    def key(self, x):
        if hasattr(x, "__geo_interface__"):
            x = x.__geo_interface__
        if isinstance(x, dict) and "coordinates" in x:
            import shapely.geometry
            return ("geo", shapely.geometry.shape(x).normalize().wkb_hex)
        if isinstance(x, (list, tuple)):
            return ("seq", tuple(self.key(y) for y in x))
        if isinstance(x, bool) or type(x).__name__ in ("bool_", "bool"):
            return ("bool", bool(x))
        if isinstance(x, int) or type(x).__name__.startswith(("int", "uint")):
            return ("int", int(x))
        if isinstance(x, float):
            return ("float", "nan" if x != x else float(x))
        return (type(x).__name__, repr(x))

    def __call__(self, x):
        return self.d.setdefault(self.key(x), len(self.d) + 1)


def scratch():
    return tempfile.mkdtemp(prefix="verif-geo-")


# -- maps ---------------------------------------------------------------------
def draw(rng):
    """An owner matrix with polygons 1..n, each non-empty."""
    while True:
        w, h = rng.randint(1, 5), rng.randint(1, 5)
        n = rng.randint(1, min(7, w * h))
        if rng.random() < 0.12:   # many small polygons, some cells left out
            w, h = rng.randint(3, 5), rng.randint(3, 4)
            cells = [(x, y) for x in range(w) for y in range(h)]
            out = set(rng.sample(cells, rng.randint(0, 3))) | {c for c in ((0, 0), (w - 1, h - 1)) if rng.random() < 0.4}
            o, n = [[0] * h for _ in range(w)], 0
            for x, y in cells:
                if (x, y) not in out:
                    n += 1
                    o[x][y] = n
            return o, n
        o = [[0] * h for _ in range(w)]
        style = rng.randrange(4)
        cells = [(x, y) for x in range(w) for y in range(h)]
        rng.shuffle(cells)
        if style == 0:      # anything goes: pieces, holes, corner contacts
            for x, y in cells:
                o[x][y] = rng.randint(0 if rng.random() < 0.4 else 1, n)
        else:               # grown from seeds
            for i, (x, y) in enumerate(cells[:n]):
                o[x][y] = i + 1
            left = rng.randint(0, 2) if style == 1 else 0
            while sum(r.count(0) for r in o) > left:
                fr = [(x, y, o[x + a][y + b]) for x, y in cells if o[x][y] == 0
                      for a, b in ((0, 1), (1, 0), (0, -1), (-1, 0)) if 0 <= x + a < w and 0 <= y + b < h and o[x + a][y + b]]
                if not fr:
                    break
                x, y, d = rng.choice(fr)
                o[x][y] = d
        if {d for r in o for d in r} >= set(range(1, n + 1)):
            return o, n


def polygons(rng, o, n, W, H, unit, dx, dy):
    import shapely
    from shapely.geometry import box
    from shapely.ops import unary_union
    X = [dx + unit * sum(W[:i]) for i in range(len(W) + 1)]
    Y = [dy + unit * sum(H[:i]) for i in range(len(H) + 1)]
    out = []
    for i in range(1, n + 1):
        g = unary_union([box(X[x], Y[y], X[x + 1], Y[y + 1]) for x in range(len(W)) for y in range(len(H)) if o[x][y] == i])
        if rng.random() < 0.3:
            g = g.normalize()
        elif rng.random() < 0.3:
            g = g.simplify(0)
        out.append(g)
    return out


class Maps:
    def __init__(self, rng):
        self.rng, self.ev, self.tags = rng, [], set()

    def do(self, fn, **kw):
        try:
            with guard(60):
                r = fn()
            self.ev.append(dict(kw, exc="", **r))
        except Exception as e:  # noqa
            self.ev.append(dict(kw, exc=exc_name(e), detail=trace_of(e)))
            raise

    def observe(self, G, L, unit, I, wanted):
        num = {x: i + 1 for i, x in enumerate(L)}
        n = len(L)
        us = lambda x: MISSING if x is None else enc(x / unit, 1)
        r = dict(found=sum(x in G for x in L), foreign=sum(x not in num for x in G.nodes),
                 edges=sorted([min(num[u], num[v]), max(num[u], num[v]), us(d.get("shared_perim"))] for u, v, d in G.edges(data=True) if u in num and v in num))
        at = [dict(G.nodes[x]) if x in G else {} for x in L]
        r["area"] = [MISSING if d.get("area") is None else enc(d["area"] / unit / unit, 1) for d in at]
        r["rim"] = [1 if d.get("boundary_node") is True else 0 if d.get("boundary_node") is False else 2 for d in at]
        r["bper"] = [us(d.get("boundary_perim")) for d in at]
        own = {"area", "boundary_node", "boundary_perim"}
        r["cols"] = [sorted(I((k, I(v))) for k, v in d.items() if k not in own) for d in at]
        r["want"] = [sorted(I((k, I(v))) for k, v in d.items()) for d in wanted]
        return r

    def maps(self):
        import geopandas as gp
        rng = self.rng
        if rng.random() < 0.12:
            return self.grid()
        o, n = draw(rng)
        W = [rng.choice([1, 1, 1, 2, 3]) for _ in o]
        H = [rng.choice([1, 1, 1, 2, 3]) for _ in o[0]]
        unit = rng.choice([1, 1, 1, 0.5, 2, 1000])
        dx, dy = rng.choice([(0, 0), (0, 0), (-3, 5), (4096, -512)])
        extreme = rng.random() < 0.12     # degrees of a block, millimetres of a state
        if extreme:
            unit, dx, dy = rng.choice([2.0 ** -20, 2.0 ** -26, 2.0 ** 22]), 0, 0
            self.tags.add("extreme-units")
        rule = rng.choice(["rook", "rook", "queen"])
        geoms = polygons(rng, o, n, W, H, unit, dx, dy)
        c = rng.randrange(5)
        L = list(range(n)) if c < 2 else node_labels(rng, n)
        if L and isinstance(L[0], tuple):
            L = list(range(n))
        cols = {"pop": [rng.randint(0, 9) for _ in L], "name": ["p%d" % rng.randint(0, 3) for _ in L], "flag": [rng.random() < 0.5 for _ in L],
                "x": [rng.choice([0.5, 1.25, -3.0, 1e-9]) for _ in L]}
        order = list(range(n))
        if rng.random() < 0.5:
            rng.shuffle(order)
        crs = rng.choice([None, "EPSG:26915", "EPSG:4326"])
        df = gp.GeoDataFrame({k: [v[i] for i in order] for k, v in cols.items()}, geometry=[geoms[i] for i in order], index=[L[i] for i in order], crs=crs)
        shape = "geometry"
        if not extreme and rng.random() < 0.15:     # a frame may call its shapes as it likes
            shape = rng.choice(["geom", "the_geom", "pop shape"])
            df = df.rename_geometry(shape)
        want = rng.choice([None, ["pop"], ["name", "x"], ["flag", "pop"], []])
        ask = lambda: want if want is None or rng.random() < 0.7 else iter(want)
        calm = dict(ignore_errors=True) if rng.random() < 0.2 else {}    # nothing to ignore
        via = rng.choice(["frame", "frame", "frame", "file"])
        if extreme or shape != "geometry":
            via = "frame"
        I = Intern()
        wcols = want if want is not None else list(cols) + [shape]
        full = [dict({k: cols[k][i] for k in cols}, **{shape: geoms[i]}) for i in range(n)]
        wanted = [{k: d[k] for k in wcols} for d in full]
        self.tags |= {rule, via, "holes" if any(0 in r for r in o) else "full", "n=%d" % n, "all-columns" if want is None else "columns"}

        def f():
            tmp = None
            try:
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    if via == "file":
                        tmp = scratch()
                        ext, drv = rng.choice([("geojson", "GeoJSON"), ("gpkg", "GPKG"), ("shp", "ESRI Shapefile")])
                        if ext == "shp" and want not in (["pop"], ["name", "x"], []):
                            ext, drv = "gpkg", "GPKG"      # shapefiles have no booleans
                        p = os.path.join(tmp, "m." + ext)
                        # a file has no index: polygons come back in the order of the rows
                        d2 = df if crs or ext == "shp" else df.set_crs("EPSG:26915")
                        if ext == "geojson":
                            d2 = d2.set_crs("EPSG:4326", allow_override=True)
                        d2.reset_index(drop=True).to_file(p, driver=drv)
                        G = Graph.from_file(p, adjacency=rule, cols_to_add=ask(), **calm)
                        back = [None] * n
                        for pos, i in enumerate(order):
                            back[i] = pos
                        lab = back
                        want_crs = d2.crs.to_json() if d2.crs else None
                    else:
                        kw = dict(calm)
                        if rng.random() < 0.3:
                            kw["crs_override"] = rng.choice(["EPSG:26915", 26916])
                        G = Graph.from_geodataframe(df, adjacency=rule, cols_to_add=ask(), **kw)
                        if (df.crs is None) != (crs is None) or (crs and df.crs != crs):
                            raise AssertionError("the reference system of the caller's frame was changed")
                        lab = L
                        import pyproj
                        cc = kw.get("crs_override") or crs
                        want_crs = pyproj.CRS(cc).to_json() if cc else None
            finally:
                if tmp:
                    shutil.rmtree(tmp, ignore_errors=True)
            msgs = [str(w.message) for w in ws if issubclass(w.category, UserWarning)]
            got = G.graph.get("crs", 0)
            r = self.observe(G, lab, unit, I, wanted)
            table = G.data.to_dict("index")      # the table kept beside the nodes, and the shapes
            r.update(tab=[sorted(I((k, I(v))) for k, v in table.get(x, {"-": 0}).items()) for x in lab] + [[]] * (len(table) - n),
                     shapes=[I(G.geometry[x]) for x in lab], drawn=[I(g) for g in geoms])
            import pyproj
            r.update(islands=int(any("island" in m for m in msgs)), overlap=int(any("overlap" in m for m in msgs)),
                     crs=int((got is None) if want_crs is None else isinstance(got, str) and pyproj.CRS(got) == pyproj.CRS(want_crs)))
            return r
        self.do(f, k0="graph", owner=o, W=W, H=H, n=n, rule=rule)
        if via == "frame" and not extreme and rng.random() < 0.12:
            self.plot(df, L, geoms)
        if rng.random() < 0.25:
            self.refused(df, L, order)
        if rng.random() < 0.1:
            self.unknown(df)
        if rng.random() < 0.25:
            self.overlap(o, n, W, H, unit, dx, dy)

    def plot(self, df, L, geoms):
        """The picture of a plan: every shape with the number of its district."""
        rng, n = self.rng, len(L)
        asg = [rng.randint(1, 3) for _ in L]
        way = rng.randrange(5)
        other = df.iloc[rng.sample(range(n), n)]

        def f():
            import matplotlib
            matplotlib.use("Agg")
            import matplotlib.pyplot as plt
            from shapely.geometry import Polygon
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                p = Partition(Graph.from_geodataframe(df), dict(zip(L, asg)))
                kw = [(), (df,), (df.geometry,), (other,), (other.geometry,)][way]
                try:
                    ax = p.plot(*kw, aspect=1)
                    shown = []
                    for c in ax.collections:
                        for path, v in zip(c.get_paths(), c.get_array()):
                            cut = [i for i, x in enumerate(path.codes) if x == 1] + [len(path.codes)]
                            rings = [path.vertices[a:b] for a, b in zip(cut, cut[1:])]
                            q = Polygon(rings[0], rings[1:]).buffer(0).representative_point()
                            shown.append([next((i + 1 for i, g in enumerate(geoms) if g.contains(q)), 0), int(v)])
                    short = 0
                    try:
                        if n > 1:
                            p.plot(other[1:])
                    except TypeError:
                        short = 1
                finally:
                    plt.close("all")
            return dict(shown=sorted(shown), refused=int(short or n == 1))
        self.do(f, k0="plot", asg=asg)
        self.tags.add("plot")

    def unknown(self, df):
        """A rule of adjacency that does not exist."""
        rule = self.rng.choice(["bishop", "Rook", "", None])

        def f():
            try:
                Graph.from_geodataframe(df, adjacency=rule)
            except (ValueError, KeyError):
                return dict(warned=1)
            return dict(warned=0)
        self.do(f, k0="told", overlapping=1)

    def refused(self, df, L, order):
        """Some rows become bow ties."""
        rng = self.rng
        from shapely.geometry import Polygon
        from gerrychain.graph.geo import GeometryError
        d = df.copy()
        rows = [i for i in range(len(d)) if rng.random() < 0.3]
        gs = list(d.geometry)
        for i in rows:
            b = gs[i].bounds
            gs[i] = Polygon([(b[0], b[1]), (b[2], b[3]), (b[2], b[1]), (b[0], b[3])])
        d = d.set_geometry(gs, crs=d.crs)

        def f():
            try:
                Graph.from_geodataframe(d)
            except GeometryError as e:
                m = re.search(r"\[(.*?)\]", str(e))
                names = set(x.strip() for x in (m.group(1) if m else "").split(",")) if m else set()
                named = [i + 1 for i in range(len(d)) if repr(d.index[i]) in names or str(d.index[i]) in names]
                return dict(res="GeometryError", named=named)
            return dict(res="ok", named=[])
        self.do(f, k0="refused", invalid=int(bool(rows)), rows=[i + 1 for i in rows])
        self.tags.add("invalid" if rows else "valid")

    def overlap(self, o, n, W, H, unit, dx, dy):
        import geopandas as gp
        from shapely.ops import unary_union
        rng = self.rng
        gs = polygons(rng, o, n, W, H, unit, dx, dy)
        over = n > 1 and rng.random() < 0.6
        if over:
            i, j = rng.sample(range(n), 2)
            p = gs[j]
            p = min(p.geoms, key=lambda g: g.area) if hasattr(p, "geoms") else p
            gs[i] = unary_union([gs[i], p])
        d = gp.GeoDataFrame(geometry=gs)

        def f():
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                Graph.from_geodataframe(d, adjacency=rng.choice(["rook", "queen"]))
            return dict(warned=int(any("overlap" in str(w.message) for w in ws)))
        self.do(f, k0="overlap", overlapping=int(over))
        self.tags.add("overlapping" if over else "not-overlapping")

    def grid(self):
        rng = self.rng
        m, n = rng.randint(1, 5), rng.randint(1, 5)
        diag = rng.random() < 0.5
        cells = [(i, j) for i in range(m) for j in range(n)]
        I = Intern()

        def f():
            g = Grid((m, n), with_diagonals=diag)
            G = g.graph.graph
            r = self.observe(G, cells, 1, I, [{"population": 1} for _ in cells])
            r.update(islands=int(m * n == 1), overlap=0, crs=1, tab=r["want"], shapes=[], drawn=[])
            self.g = g
            return r
        self.do(f, k0="graph", owner=[[i * n + j + 1 for j in range(n)] for i in range(m)], W=[1] * m, H=[1] * n, n=m * n,
                rule="queen" if diag else "rook")
        self.do(lambda: dict(q=[[self.g.assignment.mapping[(i, j)] for j in range(n)] for i in range(m)]), k0="quad", w=m, h=n)
        self.tags |= {"grid", "grid-diagonal" if diag else "grid-plain"}

    # -- projections ----------------------------------------------------------
    def zones(self):
        import geopandas as gp
        import pyproj
        from shapely.geometry import Point, box
        from gerrychain.graph import geo
        rng = self.rng
        for _ in range(40):
            lat = rng.choice([rng.randint(-320, 335), rng.choice([224, 255, 256, 288, 335, 336, 223, 287, 0, -320])])
            lon = rng.choice([rng.randint(-720, 719), 24 * rng.randint(-30, 29), 24 * rng.randint(-30, 29) - 1 + 2 * rng.randrange(2), rng.choice([11, 12, 47, 48, 0, 35, 36, 83, 84, 131, 132, 167, 168])])
            lon = max(-720, min(719, lon))
            self.do(lambda: dict(zone=int(geo.utm_of_point(Point(lon / 4, lat / 4)))), k0="zone", lat=lat, lon=lon)
        # one zone with perhaps a few strays; squares of a twentieth of a degree
        z = rng.randint(0, 59)
        pts = []
        for i in range(rng.randint(1, 6)):
            zz = z if i % 3 != 2 else min(59, z + 1)
            pts.append((rng.randint(-200, 220), -720 + 24 * zz + rng.randint(3, 20)))
        if len({p[1] // 24 for p in pts}) > 1 and rng.random() < 0.5:
            pts = [p for p in pts if p[1] // 24 == pts[0][1] // 24]
        boxes = [box(p[1] / 4 - .025, p[0] / 4 - .025, p[1] / 4 + .025, p[0] / 4 + .025) for p in pts]
        one = len({p[1] // 24 for p in pts}) == 1

        if rng.random() < 0.3:
            self.forgiven()

        def f():
            df = gp.GeoDataFrame(geometry=boxes, crs="EPSG:4326")
            shape = "geometry"
            if rng.random() < 0.15:
                shape = "geom"
                df = df.rename_geometry(shape)
            zone = int(geo.identify_utm_zone(df))
            how = rng.randrange(3)
            if how == 2:
                shape = "geometry"
                tmp = scratch()
                try:
                    df.to_file(os.path.join(tmp, "m.gpkg"), driver="GPKG")
                    G = Graph.from_file(os.path.join(tmp, "m.gpkg"), reproject=True)
                finally:
                    shutil.rmtree(tmp, ignore_errors=True)
            else:
                G = Graph.from_geodataframe(df, reproject=True, **(dict(ignore_errors=True) if how else {}))
            if not pyproj.CRS(G.graph["crs"]).is_projected or abs(G.nodes[0][shape].bounds[0]) < 1000:
                raise AssertionError("the reference system is not the one of the geometries")
            gd = pyproj.Geod(ellps="WGS84")
            ok = all(abs(G.nodes[i]["area"] / abs(gd.geometry_area_perimeter(b)[0]) - 1) < (0.005 if one else 0.2) for i, b in enumerate(boxes))
            return dict(zone=zone, areas=int(ok))
        self.do(f, k0="major", pts=[list(p) for p in pts])
        self.tags.add("one-zone" if one else "two-zones")


    def forgiven(self):
        """A ring that touches itself: refused, unless errors are to be ignored."""
        import geopandas as gp
        from shapely.geometry import Polygon, box
        from gerrychain.graph.geo import GeometryError
        rng = self.rng
        x, y = -180 + 6 * rng.randint(2, 56) + 1, rng.randint(-60, 54)
        ring = Polygon([(x + 1, y), (x + 2, y), (x + 1.5, y + .5), (x + 2, y + 1), (x + 1, y + 1), (x + 1.5, y + .5)])
        bad = rng.random() < 0.7
        df = gp.GeoDataFrame(geometry=[box(x, y, x + 1, y + 1), ring if bad else box(x + 1, y, x + 2, y + 1)], crs="EPSG:4326")
        kw = dict(reproject=rng.random() < 0.7)
        ign = rng.random() < 0.6
        if ign or rng.random() < 0.5:
            kw["ignore_errors"] = ign

        def f():
            try:
                G = Graph.from_geodataframe(df, **kw)
            except GeometryError:
                return dict(warned=1)
            if len(G) != 2:
                raise AssertionError("nodes are missing")
            return dict(warned=0)
        self.do(f, k0="told", overlapping=int(bad and not ign))
        self.tags.add("forgiven" if bad and ign else "not-forgiven")


# -- data -----------------------------------------------------------------------
KINDS = ("int", "float", "str", "bool", "obj", "int", "float")
NAMES = ["pop", "x", "GEOID", "ok", "note", "area", "y"]


class Data:
    def __init__(self, rng):
        self.rng, self.ev, self.tags, self.I = rng, [], set(), Intern()
        self.n, self.E = shape(rng, 2, 7, connected=False)
        n, I = self.n, self.I
        while True:
            self.L = node_labels(rng, n)
            if not isinstance(self.L[0], tuple):   # tuples are not JSON
                break
        self.C = 8
        self.geo = 8 if rng.random() < 0.3 else 0
        self.names = NAMES + ["geometry"]
        nodes = []
        for v in range(n):
            d = {c: self.value(k) for c, k in zip(NAMES, KINDS) if rng.random() < 0.6}
            if self.geo:
                from shapely.geometry import box
                d["geometry"] = box(v, 0, v + 1, rng.randint(1, 3))
            if rng.random() < 0.1:
                import numpy as np
                d["pop"] = rng.choice([np.int64, np.int32, np.int8, np.uint8, np.uint64])(rng.randint(0, 99))
            nodes.append(d)
        edges = {e: rng.choice([{}, {"shared_perim": rng.choice([1, 2.5, 0])}, {"w": "a", "shared_perim": 3}]) for e in self.E}
        self.G = build(rng, n, self.E, self.L, nodes, edges)
        self.frozen = 0

    def value(self, kind, na=0.15):
        rng = self.rng
        if kind == "int":
            return rng.choice([0, 1, -1, 10, 2**40, rng.randint(0, 99)])
        if kind == "float":
            return math.nan if rng.random() < na else rng.choice([0.0, 1.0, -2.5, 0.1, 1e300, rng.random()])
        if kind == "str":
            return rng.choice(["", "a", "1", "é\"\\", "x y", "NaN"])
        if kind == "bool":
            return rng.random() < 0.5
        return rng.choice([None, 3, "z", True, [1, 2], 2.5])

    def edges_of(self, G):
        num = {x: i + 1 for i, x in enumerate(self.L)}
        return sorted([min(num.get(u, 99), num.get(v, 99)), max(num.get(u, 99), num.get(v, 99)),
                       self.I(tuple(sorted((k, self.I(w)) for k, w in d.items())))] for u, v, d in G.edges(data=True))

    def attrs(self, G):
        return [[self.I(G.nodes[x][c]) if x in G and c in G.nodes[x] else 0 for c in self.names] for x in self.L]

    def nodes_of(self, G):
        """Numbers of the labels (with their types) that are nodes, and of columns nobody asked for."""
        return sorted(self.I((x, sorted(k for k in G.nodes[x] if k not in self.names))) for x in G.nodes)

    def state(self, G):
        return dict(A=self.attrs(G), edges=self.edges_of(G), nodes=self.nodes_of(G))

    def do(self, fn, **kw):
        src = self.G
        try:
            with guard(60), warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                r = dict(res="ok", other=1)
                try:
                    r.update(fn() or {})
                except Timeout:
                    raise
                except Exception as e:  # noqa
                    r["res"] = exc_name(e)
                    r["detail"] = trace_of(e)
                r.update(self.state(self.G))
            r["warned"] = sorted(i + 1 for i, c in enumerate(self.names) if any("NA values found in column %s!" % c == str(w.message) for w in ws))
            self.ev.append(dict(kw, exc="", **r))
        except Exception as e:  # noqa
            self.ev.append(dict(kw, exc=exc_name(e), detail=trace_of(e)))
            raise

    def table(self, keys, cols):
        vals = {}
        for c in NAMES:
            vals[c] = [self.value(KINDS[NAMES.index(c)]) for _ in keys]
            if c == "note":
                vals[c] = [v if not isinstance(v, list) else "l" for v in vals[c]]
        df = pd.DataFrame({c: pd.Series(vals[c], dtype=object) if c == "note" else vals[c] for c in NAMES})
        return df, vals

    def add(self):
        rng = self.rng
        who = [v for v in range(1, self.n + 1) if rng.random() < 0.8]
        rng.shuffle(who)
        foreign = ["stranger"] if rng.random() < 0.2 else []
        cols = rng.choice([None, rng.sample(NAMES, rng.randint(1, 3))])
        df, vals = self.table(who + foreign, cols)
        df.index = pd.Index([self.L[v - 1] for v in who] + foreign, dtype=object if foreign or isinstance(self.L[0], str) else None)
        if cols is None and rng.random() < 0.5:
            keep = rng.sample(NAMES, 3)
            df, used = df[keep], keep
        else:
            used = cols or NAMES
        rows = [dict(key=v, val=[self.I(vals[c][i]) for c in NAMES] + [0]) for i, v in enumerate(who)]
        na = [NAMES.index(c) + 1 for c in used if df[c].isna().any()]
        form = rng.choice([list, list, iter, lambda x: (y for y in x), tuple])

        def f():
            if cols:
                self.G.add_data(df, columns=form(cols))
            else:
                self.G.add_data(df)
            # the table kept beside the nodes: what it shows of the rows that it has (0: no such row)
            T = self.G.data
            same = lambda x, y: x is y or (pd.isna(x) and pd.isna(y)) or x == y
            return dict(table=[[r["val"][NAMES.index(c)] if same(T.at[self.L[r["key"] - 1], c], df.at[self.L[r["key"] - 1], c]) else -1
                                for c in used] if self.L[r["key"] - 1] in T.index else [] for r in rows])
        self.do(f, k0="add", rows=rows, cols=[NAMES.index(c) + 1 for c in used],
                nacols=na, frozen=self.frozen)

    def join(self):
        rng = self.rng
        left = rng.choice([0, 0, 3, 1, 4])       # node, GEOID, pop, ok
        if left == 0:
            keys = list(range(1, self.n + 1))
            labels = {v: self.L[v - 1] for v in keys}
        else:
            have = {}
            for x in self.L:
                if self.names[left - 1] in self.G.nodes[x]:
                    y = self.G.nodes[x][self.names[left - 1]]
                    have[self.I(y)] = y
            keys, labels = list(have), have
        if rng.random() < 0.2 and keys:
            keys = keys[:-1]                   # a row is missing
        rng.shuffle(keys)
        extra = []
        if rng.random() < 0.3 and left in (0, 3):
            extra = ["other"]
        df, vals = self.table(keys + extra, None)
        right = rng.choice([None, "KEY"])
        idx = pd.Series([labels[k] for k in keys] + extra, dtype=object if extra or any(isinstance(labels[k], str) for k in keys) else None)
        if right:
            df[right] = idx
        else:
            df.index = pd.Index(idx)
        cols = rng.choice([None, rng.sample(NAMES, rng.randint(1, 3))])
        used = cols or NAMES
        rows = [dict(key=k, val=[self.I(vals[c][i]) for c in NAMES] + [0]) for i, k in enumerate(keys)]
        na = [NAMES.index(c) + 1 for c in used if df[c].isna().any()]
        if rng.random() < 0.3 and not cols:
            used = df.columns[:3].tolist()
            df = df[used + ([right] if right else [])]
            na = [NAMES.index(c) + 1 for c in used if df[c].isna().any()]
        kw = dict(columns=cols) if cols else {}
        if left:
            kw["left_index"] = self.names[left - 1]
        if right:
            kw["right_index"] = right
        before = df.copy()
        self.do(lambda: self.G.join(df, **kw) or dict(other=int(df.equals(before))), k0="join", rows=rows, left=left, cols=[NAMES.index(c) + 1 for c in used], nacols=na, frozen=self.frozen)

    def json(self):
        rng = self.rng
        keep = rng.randrange(2)
        tmp = scratch()

        def f():
            try:
                p = os.path.join(tmp, "g.json")
                old = self.state(self.G)
                self.G.to_json(p, include_geometries_as_geojson=bool(keep)) if keep or rng.random() < 0.5 else self.G.to_json(p)
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    g = Graph.from_json(p)
                ok = self.state(self.G) == old and any("island" in str(w.message) for w in ws) == any(
                    all(v not in e for e in self.E) for v in range(1, self.n + 1))
                self.G = g
                self.frozen = 0
                return dict(other=int(ok and type(g) is Graph))
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        # geometries that were saved as GeoJSON are plain data from then on
        plain = self.geo and not any(hasattr(self.G.nodes[x].get("geometry"), "__geo_interface__") for x in self.L)
        self.do(f, k0="json", keep=int(keep or plain))

    def copy(self):
        rng = self.rng

        def f():
            src = self.G
            g = Graph.from_networkx(src)
            if not self.frozen:
                was = self.state(src)
                h = Graph.from_networkx(src)
                x = self.L[0]
                h.nodes[x]["pop"] = -777
                h.remove_node(self.L[-1])
                ok = self.state(src) == was
            else:
                ok = True
            self.G = g
            self.frozen = 0
            return dict(other=int(ok))
        self.do(f, k0="copy")

    def set(self):
        if self.frozen:
            return
        v = self.rng.randint(1, self.n)
        y = self.value("int")

        def f():
            self.G.nodes[self.L[v - 1]]["pop"] = y
        self.do(f, k0="set", node=v, col=1, value=self.I(y))

    def use(self):
        def f():
            cls = fresh_class()
            self.P = cls(self.G, {x: i % 2 for i, x in enumerate(self.L)}, {})
            self.frozen = 1
        self.do(f, k0="use")

    def mutate(self):
        if not self.frozen:
            return
        rng, G = self.rng, self.G
        x = rng.choice(self.L)
        g = rng.choice([self.P.graph, self.G, next(iter(self.P.subgraphs)) if rng.random() < 0.3 else self.P.graph])
        ops = [lambda: g.add_node("new"), lambda: g.remove_node(x), lambda: g.add_edge(x, "new"), lambda: g.add_edges_from([(self.L[0], self.L[-1])]),
               lambda: g.remove_nodes_from([x]), lambda: g.clear(), lambda: g.add_nodes_from(["new"]), lambda: g.add_data(pd.DataFrame({"pop": [5]}, index=[x])),
               lambda: g.join(pd.DataFrame({"pop": [5] * self.n}, index=pd.Index(self.L))), lambda: g.remove_edges_from([])]
        self.do(rng.choice(ops), k0="mutate")

    def view(self):
        if not self.frozen:
            return
        rng = self.rng
        num = {x: i + 1 for i, x in enumerate(self.L)}
        sub = [v for v in range(1, self.n + 1) if rng.random() < 0.6]
        g = self.P.graph

        def look(x, c):
            try:
                return self.I(g.lookup(x, c))
            except KeyError:
                return 0

        def f():
            S = g.subgraph([self.L[v - 1] for v in sub])
            return dict(nbrs=[[num[y] for y in g.neighbors(x)] for x in self.L], deg=[int(g.degree(x)) for x in self.L],
                        subnodes=sorted(num[x] for x in S), subedges=sorted([num[u], num[v]] for u, v in S.edge_indices),
                        look=[[look(x, c) for c in self.names] for x in self.L], isl=sorted(num[x] for x in g.islands),
                        other=int(len(g) == self.n and set(g.node_indices) == set(self.L) and set(iter(g)) == set(self.L) and len(S) == len(sub)
                                  and sorted(sorted((num[u], num[v])) for u, v in g.edge_indices) == sorted(list(e) for e in self.E)))
        self.do(f, k0="view", sub=sub)

    def run(self):
        rng = self.rng
        self.head = dict(A=self.attrs(self.G), edges=self.edges_of(self.G), nodes=self.nodes_of(self.G), geo=self.geo)
        for _ in range(rng.randint(3, 9)):
            op = rng.choice(["add", "add", "join", "join", "join", "json", "json", "copy", "set", "use", "mutate", "view", "view"])
            if op in ("mutate", "view") and not self.frozen:
                self.use()
            getattr(self, op)()
            self.tags.add(op)
            if self.ev:
                self.tags.add(op + ("" if self.ev[-1].get("res") == "ok" else ":refused"))


def main():
    kind, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    D = Driver(out, budget=100.0 if count < 2000 else 1200)
    for j in range(count):
        if not D.more():
            break
        rng = random.Random(f"geo-{kind}-{seed}-{j}")
        R = Data(rng) if kind == "data" else Maps(rng)
        try:
            R.run() if kind == "data" else getattr(R, kind)()
        except Exception:  # noqa
            if not (R.ev and R.ev[-1]["exc"]):
                raise
            D.failed += 1
        D.add(dict(getattr(R, "head", {}), ev=R.ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
