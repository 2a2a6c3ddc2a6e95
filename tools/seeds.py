"""Planted bugs: each written from the property text and the code alone."""
SEEDS = []
def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

CB, BD, NG, MB, EM, AG = ('mesh_generation/' + x for x in ('cellbox.py', 'boundary.py', 'neighbour_graph.py', 'mesh_builder.py', 'environment_mesh.py', 'aggregated_cellbox.py'))
SC, VE = 'dataloaders/scalar/abstract_scalar.py', 'dataloaders/vector/abstract_vector.py'
UT = 'utils.py'

seed('b01', 'C01', [(CB, '        half_width = self.bounds.get_width() / 2\n', '        half_width = longitude_distance(self.bounds.get_long_min(),\n                                        self.bounds.get_long_max()) / 2\n'),
                    (CB, 'from meshiphi.utils import longitude_domain\n', 'from meshiphi.utils import longitude_domain, longitude_distance\n')], '''
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.cellbox import CellBox
for lo in ([-120.0, 120.0], [-10.0, 30.0], [100.0, -20.0]):
    b = Boundary([0.0, 10.0], lo)
    c = CellBox(b, '0'); c.set_data_source([])
    for k in c.split(1):
        assert k.get_bounds().get_width() * 2 == b.get_width(), (lo, str(k.get_bounds()))
''', 'a cell wider than 180 degrees', 'the children of a cell wider than half the globe are cut at the middle of the complementary arc')

seed('b02', 'C02', [(EM, '''        max_id = 0
        for cellbox in self.agg_cellboxes:
            if int(cellbox.get_id()) > max_id:
                max_id = int(cellbox.get_id())
        return max_id''', '''        if not self.agg_cellboxes:
            return 0
        return int(max(str(cellbox.get_id()) for cellbox in self.agg_cellboxes))''')], '''
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
cells = [AggregatedCellBox(Boundary([0., 1.], [float(i), i + 1.]), {'a': i}, str(i)) for i in range(12)]
m = EnvironmentMesh(Boundary([0., 1.], [0., 12.]), cells, NeighbourGraph(), {})
kids = m.sim_split_cellbox('3')
used = {c.get_id() for c in cells}
assert [k.get_id() for k in kids] == ['12', '13', '14', '15'], [k.get_id() for k in kids]
assert not used & {k.get_id() for k in kids}
''', 'ids with different numbers of digits in one mesh', 'ids given to the new cells collide with existing ones (largest id found by text order)')

seed('b03', 'C03', [(MB, '        for lat in lat_range:\n            for long in long_range:\n', '        for row, lat in enumerate(lat_range):\n            for col, long in enumerate(long_range):\n'),
                    (MB, '                cell_id = str(len(cellboxes))\n', '                cell_id = str(row * int(grid_width) + col)\n')], '''
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
for lo in ([0.0, 40.0], [-180.0, 180.0], [-150.0, 100.0], [170.0, -170.0]):
    b = Boundary([0.0, 30.0], lo, ['2020-01-01', '2020-01-02'])
    cs = MeshBuilder.initialize_cellboxes(object.__new__(MeshBuilder), b, 10.0, 10.0)
    assert [c.get_id() for c in cs] == [str(i) for i in range(len(cs))], (lo, [c.get_id() for c in cs])
''', 'a region wider than 180 degrees', 'cell ids are computed from the shorter arc, so cells of wide regions share ids')

seed('b04', 'C04', [(NG, '''        if (lat_b == (lat_a + bounds_a.get_height())) and (
                (long_b + bounds_b.get_width()) > long_a) and (
                long_b < (long_a + bounds_a.get_width())):
            return Direction.north
''', '''        if (lat_b == (lat_a + bounds_a.get_height())) and (
                long_a <= long_b < (long_a + bounds_a.get_width())):
            return Direction.north
''')], '''
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
ng = NeighbourGraph()
a = Boundary([0., 1.], [5., 6.])
assert ng.get_neighbour_case_bounds(a, Boundary([1., 2.], [5., 6.])) == -4
assert ng.get_neighbour_case_bounds(a, Boundary([1., 2.], [5.5, 6.5])) == -4
assert ng.get_neighbour_case_bounds(a, Boundary([1., 3.], [4., 6.])) == -4
''', 'a northern neighbour whose western edge lies west of the cell (a larger cell)', 'larger northern neighbours starting further west are not recognised')

seed('b05', 'C05', [(MB, 'if 0 < i <= len(min_long_cellboxes) - 1:', 'if i <= len(min_long_cellboxes) - 1:')], '''
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
cfg = {'region': {'lat_min': -40, 'lat_max': 20, 'long_min': -180, 'long_max': 180, 'start_time': '2020-01-01', 'end_time': '2020-01-02', 'cell_width': 60, 'cell_height': 20}, 'data_sources': [], 'splitting': {'split_depth': 0, 'minimum_datapoints': 5}}
g = MeshBuilder(cfg).neighbour_graph.get_graph()
for c in range(6):
    for d in (-1, 3, 4):
        assert g[c][d] == [], (c, d, g[c][d])
''', 'a region spanning all longitudes', 'the bottom row of a global mesh is joined diagonally with the top row')

seed('b06', 'C06', [(MB, '''            if self.neighbour_graph.get_neighbour_case(cellboxes[south_west_indx], cellboxes[indx]) == Direction.north_west:
                sw_neighbour_map[-3].append(indx)''', '''            if len(west_neighbour_indx) < 12 and self.neighbour_graph.get_neighbour_case(cellboxes[south_west_indx], cellboxes[indx]) == Direction.north_west:
                sw_neighbour_map[-3].append(indx)''')], '''
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
cfg = {'region': {'lat_min': 0, 'lat_max': 4, 'long_min': 0, 'long_max': 8, 'start_time': '2020-01-01', 'end_time': '2020-01-02', 'cell_width': 4, 'cell_height': 4}, 'data_sources': [], 'splitting': {'split_depth': 2, 'minimum_datapoints': 5}}
mb = MeshBuilder(cfg)
mb.split_and_replace(mb.mesh.cellboxes[0])
for k in range(3):
    for i in [i for i, c in enumerate(mb.mesh.cellboxes) if c is not None and c.bounds.get_long_max() == 4]:
        mb.split_and_replace(mb.mesh.cellboxes[i])
mb.split_and_replace(mb.mesh.cellboxes[1])
g = mb.neighbour_graph.get_graph()
for i in g:
    for d in g[i]:
        for j in g[i][d]:
            assert i in g[j][-d], (i, d, j)
''', 'splitting a cell whose western neighbour was split four times before', 'the south-western child misses its north-western neighbour')

seed('b07', 'C07', [(EM, '''            crossing_case = self.neighbour_graph.get_neighbour_case_bounds(cellbox_bounds, nw_bounds)
            if crossing_case != 0:
                self.neighbour_graph.add_neighbour(str(indx), str(crossing_case), north_west_index)


        # update south cellbox neighbours
''', '''            crossing_case = self.neighbour_graph.get_neighbour_case_bounds(cellbox_bounds, nw_bounds)
            if crossing_case > 0:
                self.neighbour_graph.add_neighbour(str(indx), str(crossing_case), north_west_index)


        # update south cellbox neighbours
''')], '''
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
cfg = {'region': {'lat_min': 0, 'lat_max': 8, 'long_min': 0, 'long_max': 4, 'start_time': '2020-01-01', 'end_time': '2020-01-02', 'cell_width': 4, 'cell_height': 4}, 'data_sources': [], 'splitting': {'split_depth': 0, 'minimum_datapoints': 5}}
em = EnvironmentMesh.load_from_json(MeshBuilder(cfg).build_environmental_mesh().to_json())
em.split_and_replace('1')
em.split_and_replace('0')
g = em.neighbour_graph.get_graph()
for i in g:
    for d in g[i]:
        for j in g[i][d]:
            assert int(i) in g[str(j)][str(-int(d))], (i, d, j)
''', 'splitting a cell whose northern neighbour was split before', 'the link from the north-eastern half of the northern neighbour back to the north-western child is lost')

seed('b08', 'C08', [(CB, '''                    self.bounds, splitting_cond, data=data_subset)
                hom_conditions.append(hom_cond)
        if "HOM" in''', '''                    self.bounds, splitting_cond, data=data_subset)
                hom_conditions.append(hom_cond)
                if hom_cond == "HET":
                    break
        if "HOM" in''')], '''
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.cellbox import CellBox
from meshiphi.mesh_generation.metadata import Metadata
class L:
    data_name = 'x'
    def get_hom_condition(self, bounds, cond, data=None, **k): return cond
c = CellBox(Boundary([0., 1.], [0., 1.]), '0')
c.set_data_source([Metadata(L(), ['HET', 'HOM'], 'parent', 1)])
assert c.should_split(1) is False
c.set_data_source([Metadata(L(), ['HET', 'CLR'], 'parent', 1)])
assert c.should_split(1) is True
''', 'one data source with several conditions, a locking one after a splitting one', 'a HOM or MIN verdict after a HET of the same source is ignored')

seed('b09', 'C09', [(SC, 'if dps.size < self.min_dp:', 'if np.count_nonzero(~np.isnan(dps)) < self.min_dp:')], '''
import numpy as np, xarray as xr
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
class L(ScalarDataLoader):
    def import_data(self, bounds):
        v = np.full((4, 4), np.nan); v[0, :2] = [0.0, 10.0]; v[1, :2] = [0.0, 10.0]
        return xr.Dataset({'s': (('lat', 'long'), v)}, coords={'lat': [1., 2., 3., 4.], 'long': [1., 2., 3., 4.]})
b = Boundary([0., 5.], [0., 5.])
l = L(b, {'min_dp': 5})
assert l.get_hom_condition(b, {'threshold': 5, 'lower_bound': 0.1, 'upper_bound': 0.9}) == 'HET'
''', 'gridded data with missing values, fewer non-missing points than the minimum', 'missing grid points no longer count towards the minimum number of points')

seed('b10', 'C10', [(MB, "for index in ds_pbar:", "n_conditioned = 0\n        for index in ds_pbar:"), (MB, '''                level = 0
''', '''                level = 0
                n_conditioned += 1
'''), (MB, 'cellbox.should_split(index+1)', 'cellbox.should_split(n_conditioned)')], '''
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
from meshiphi.mesh_generation.metadata import Metadata
class L:
    data_name = 'x'; dataloader_name = 'x'
    def get_hom_condition(self, bounds, cond, data=None, **k): return 'HET'
    def trim_datapoints(self, bounds, data=None): return 1
cfg = {'region': {'lat_min': 0, 'lat_max': 8, 'long_min': 0, 'long_max': 8, 'start_time': '2020-01-01', 'end_time': '2020-01-02', 'cell_width': 4, 'cell_height': 4}, 'data_sources': [], 'splitting': {'split_depth': 2, 'minimum_datapoints': 5}}
mb = MeshBuilder(cfg)
for c in mb.mesh.cellboxes: c.set_data_source([Metadata(L(), [], 'parent', 1), Metadata(L(), [{}], 'parent', 1)])
mb.split_to_depth(2)
assert {c.get_split_depth() for c in mb.mesh.get_cellboxes()} == {2}
''', 'a data source without splitting conditions before one with conditions', 'the conditions of the later source are not considered')

seed('b11', 'C11', [(VE, "mask &= (data['time'] >= bounds.get_time_min()) & \\\n                        (data['time'] <= bounds.get_time_max())", "mask &= (data['time'] >= bounds.get_time_min()) & \\\n                        (data['time'] < bounds.get_time_max())")], '''
import pandas as pd
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
class L(VectorDataLoader):
    def import_data(self, bounds):
        return pd.DataFrame({'lat': [1., 2., 3.], 'long': [1., 2., 3.], 'time': ['2020-01-01', '2020-01-05', '2020-01-10'], 'u': [1., 2., 3.], 'v': [1., 2., 3.]})
b = Boundary([0., 5.], [0., 5.], ['2020-01-01', '2020-01-10'])
l = L(b, {'data_name': 'u,v'})
assert len(l.trim_datapoints(b)) == 3
''', 'tabular vector data with a time column and a point exactly at the end of the time range', 'points at the end of the time range are dropped')

seed('b12', 'C12', [(CB, '                    while parent is not None and np.isnan(agg_value[data_name]):\n', '                    if parent is not None and np.isnan(agg_value[data_name]):\n')], '''
import math
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.cellbox import CellBox
from meshiphi.mesh_generation.metadata import Metadata
class L:
    data_name = 'x'
    def get_value(self, bounds, data=None, **k): return {'x': data}
l = L(); nan = float('nan')
def cell(v, parent):
    c = CellBox(Boundary([0., 1.], [0., 1.]), '0'); c.set_parent(parent)
    c.set_data_source([Metadata(l, [], 'parent', v)]); return c
top = cell(7.0, None); mid = cell(nan, top); low = cell(nan, mid)
assert low.aggregate().get_agg_data()['x'] == 7.0
''', 'a cell at least two splits deep whose own and parent data are missing', 'only the direct parent is consulted for a missing value')

seed('b13', 'C13', [(SC, 'return np.nanmedian(dps)', 'return np.median(dps)')], '''
import numpy as np, xarray as xr
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
class L(ScalarDataLoader):
    def import_data(self, bounds):
        v = np.full((2, 2), np.nan); v[0, 0] = 3.0
        return xr.Dataset({'s': (('lat', 'long'), v)}, coords={'lat': [1., 2.], 'long': [1., 2.]})
b = Boundary([0., 5.], [0., 5.])
assert L(b, {}).get_value(b, agg_type='MEDIAN')['s'] == 3.0
''', 'gridded data with missing values and the MEDIAN statistic', 'the median of partly missing gridded data is missing')

seed('b14', 'C14', [(AG, "        cell_json.update(self.get_agg_data())\n        cell_json['id'] = self.get_id()\n", "        cell_json['id'] = self.get_id()\n        cell_json.update(self.get_agg_data())\n")], '''
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
c = AggregatedCellBox(Boundary([0., 1.], [0., 1.]), {'id': '3', 'a': 1}, '3')
c.set_id('8')
assert AggregatedCellBox.from_json(c.to_json()).get_id() == '8'
''', 'a cell whose data carry an older id than the cell itself', 'a stale id recorded with the data wins over the id of the cell on export')

seed('b15', 'C15', [(EM, '''                cellbox.get_bounds().get_long_max() >= bounds.get_long_min() and
                cellbox.get_bounds().get_long_min() <= bounds.get_long_max()):
            
                south_cellboxes.append(cellbox)''', '''                cellbox.get_bounds().get_long_max() > bounds.get_long_min() and
                cellbox.get_bounds().get_long_min() < bounds.get_long_max()):
            
                south_cellboxes.append(cellbox)''')], '''
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
def mesh(a, b, c, d, w):
    cfg = {'region': {'lat_min': a, 'lat_max': b, 'long_min': c, 'long_max': d, 'start_time': '2020-01-01', 'end_time': '2020-01-02', 'cell_width': w, 'cell_height': w}, 'data_sources': [], 'splitting': {'split_depth': 0, 'minimum_datapoints': 5}}
    return EnvironmentMesh.load_from_json(MeshBuilder(cfg).build_environmental_mesh().to_json())
m = mesh(0, 6, 0, 6, 2)
m.merge_mesh(mesh(2, 4, 2, 4, 1))
r = {c.get_id(): c.get_bounds() for c in m.agg_cellboxes}
g = m.neighbour_graph.get_graph()
sw = [i for i in r if r[i].get_lat_min() == 0 and r[i].get_long_min() == 0][0]
inner = [i for i in r if r[i].get_lat_min() == 2 and r[i].get_long_min() == 2][0]
assert g[sw]['1'] == [int(inner)] and int(sw) in g[inner]['-1'], (g[sw], g[inner])
''', 'the merged region has a cell of the first mesh touching its south-western or south-eastern corner', 'the diagonal neighbours at the southern corners of the merged region are not joined')

seed('b16', 'C16', [(AG, 'return shapely_boundary.contains(point)', 'return shapely_boundary.envelope.contains(point)')], '''
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
c = AggregatedCellBox(Boundary([0., 4.], [176., -176.]), {}, '0')
assert c.contains_point(1.0, -179.0) and c.contains_point(3.0, 177.5)
assert not c.contains_point(1.0, 0.0)
''', 'a cell crossing the antimeridian', 'such a cell is taken to contain every longitude')

seed('b17', 'C17', [(EM, 'if (cb_width <= min_dcx) or (cb_height <= min_dcy):', 'if (cb_width <= min_dcx) and (cb_height <= min_dcy):')], '''
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
cfg = {'region': {'lat_min': 0, 'lat_max': 8, 'long_min': 0, 'long_max': 8, 'start_time': '2020-01-01', 'end_time': '2020-01-02', 'cell_width': 4, 'cell_height': 4}, 'data_sources': [], 'splitting': {'split_depth': 1, 'minimum_datapoints': 5}}
m = EnvironmentMesh.load_from_json(MeshBuilder(cfg).build_environmental_mesh().to_json())
m.config['region']['cell_height'] = 2   # cells twice as high as the configured ones
m.split_points([[1.1, 1.1]])
assert len(m.agg_cellboxes) == 7, len(m.agg_cellboxes)
''', 'cells fine enough in one direction only', 'cells already fine enough in one direction are split further')

seed('b18', 'C18', [(BD, 'if len(time_range) == 2:', 'if len(time_range) >= 2:')], '''
from meshiphi.mesh_generation.boundary import Boundary
Boundary([0, 1], [0, 1], ['2020-01-01', '2020-01-02'])
try:
    Boundary([0, 1], [0, 1], ['2020-01-01', '2020-01-02', '2019-01-01'])
except ValueError:
    raise SystemExit(0)
assert False
''', 'a time range of more than two dates', 'a boundary with three dates is accepted')

seed('b19', 'C19', [(BD, 'if datetime_str.strip() == "TODAY":', 'if datetime_str == "TODAY":')], '''
from datetime import datetime
from meshiphi.mesh_generation.boundary import Boundary
a = datetime.today().strftime('%Y-%m-%d'); r = Boundary.parse_datetime(' today '); b = datetime.today().strftime('%Y-%m-%d')
assert r in (a, b)
''', 'blanks around TODAY', 'TODAY surrounded by blanks is rejected')

seed('b20', 'C20', [(UT, 'return np.array([longitude_domain(x) for x in long])', 'return (long + 180) % 360 - 180')], '''
import numpy as np
from meshiphi.utils import longitude_domain
a = np.array([-180.0, 170.0, 180.0, 190.0])
assert list(longitude_domain(a)) == [-180.0, 170.0, 180.0, -170.0]
''', 'an array containing the value 180', 'the eastern edge 180 in an array becomes -180')

seed('b21', 'C21', [(NG, '''        ng = self.get_graph()
        new_ng = {}

        for node in ng:''', '''        ng = self.get_graph()

        for node in list(ng):'''),
                    (NG, '''            new_ng[str( int(node) + inc)] = ng[node]

        self.neighbour_graph = new_ng
''', '''            ng[str(int(node) + inc)] = ng.pop(node)

        self.neighbour_graph = ng
''')], '''
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
for inc in (10, 1):
    g = NeighbourGraph.from_json({str(i): {'2': [i + 1] if i < 3 else [], '-2': [i - 1] if i else []} for i in range(4)})
    g.increment_ids(inc)
    assert g.get_graph() == {str(i + inc): {'2': [i + 1 + inc] if i < 3 else [], '-2': [i - 1 + inc] if i else []} for i in range(4)}, g.get_graph()
''', 'a shift smaller than the range of ids in use', 'shifted nodes overwrite nodes not yet shifted')

seed('b22', 'C22', [(EM, 'self.agg_cellboxes[index].agg_data.update(values)', 'agg_data = self.agg_cellboxes[index].agg_data\n            agg_data.update((k, v) for k, v in values.items() if v or k not in agg_data)')], '''
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
c = [AggregatedCellBox(Boundary([0., 1.], [float(i), i + 1.]), {'a': 5}, str(i)) for i in range(3)]
m = EnvironmentMesh(Boundary([0., 1.], [0., 3.]), c, NeighbourGraph(), {})
m.update_cellbox(1, {'a': 0})
assert c[1].agg_data == {'a': 0} and c[0].agg_data == {'a': 5}
''', 'setting an existing entry to zero or another empty value', 'existing entries cannot be set to zero')

LU = 'dataloaders/lut/abstract_lut.py'
_LUT = '''
import pandas as pd, numpy as np
from shapely.geometry import box
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader
class L(LutDataLoader):
    def __init__(self, df): self.data, self.data_name, self.aggregate_type = df, 'v', 'MEAN'
    def import_data(self, bounds): return self.data
tab = lambda gs, vs: L(pd.DataFrame({'geometry': gs, 'v': vs}))
'''
seed('b24', 'C24', [(BD, '        c = 2 * asin(sqrt(a))\n', '        c = asin(min(1, 2 * sqrt(a * (1 - a))))\n')], '''
from meshiphi.mesh_generation.boundary import Boundary
f = lambda w: Boundary([0., .001], [-90., -90. + w]).calc_size()
for w in (20., 60., 90., 120., 170.):
    assert abs(f(w) - w * f(1.)) < 1e-3 * f(w), (w, f(w))
''', 'a boundary with a diagonal of more than a quarter of the globe', 'the size of very large boundaries is that of the complementary arc')

seed('b25', 'C25', [(LU, "        intersections = lut_polys.query(bounds_polygon, predicate='intersects').tolist()\n", "        parts = getattr(bounds_polygon, 'geoms', [bounds_polygon])\n        intersections = np.concatenate([lut_polys.query(part, predicate='intersects') for part in parts]).tolist()\n")], _LUT + '''
l = tab([box(-180, 0, 180, 10), box(-180, 0, -178, 10)], [1.0, 4.0])
b = Boundary([2., 4.], [178., -178.])
assert l.get_value(b, 'COUNT') == {'v': 2}, l.get_value(b, 'COUNT')
assert len(l.trim_datapoints(b)) == 2
assert l.get_value(Boundary([2., 4.], [0., 2.]), 'COUNT') == {'v': 1}
''', 'a region reaching both sides of the antimeridian and a cell crossing it', 'a region meeting both parts of a cell that crosses the antimeridian is taken twice')

seed('b26', 'C25', [(LU, 'if any(p.boundary.intersects(bounds_polygon) for p in polygons):', "if not any(p.contains(bounds_polygon) for p in polygons):")], _LUT + '''
b = Boundary([2., 4.], [2., 4.])
c = {'boundary': True, 'split_lock': False}
assert tab([box(0, 0, 9, 9)], [1.0]).get_hom_condition(b, c) == 'CLR'
assert tab([box(0, 0, 3, 9)], [1.0]).get_hom_condition(b, c) == 'HET'
assert tab([box(0, 0, 9, 9), box(3, 3, 5, 5)], [1.0, 2.0]).get_hom_condition(b, c) == 'HET'
''', 'overlapping regions, one containing the cell and one with its edge in it', 'a cell with a region edge in it is not split when another region contains it')

seed('b27', 'C25', [(LU, "variance = np.average(np.power(polygons[self.data_name]-average,2),\n                                    weights=polygons['weights'])", "variance = np.average(np.power(polygons[self.data_name],2),\n                                    weights=polygons['weights']) - average*abs(average)")], _LUT + '''
b = Boundary([0., 4.], [0., 4.])
for s in (1.0, -1.0):
    v = tab([box(0, 0, 1, 4), box(1, 0, 4, 4)], [s * 2.0, s * 6.0]).get_value(b, 'STD')['v']
    assert abs(v - 3 ** .5) < 1e-9, v
''', 'a negative mean', 'the deviation of regions with a negative mean value is wrong')

_TIF = '''
import os, tempfile, shutil, json, subprocess
import numpy as np
from osgeo import gdal
gdal.DontUseExceptions()
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
def export(vals, res=(1, 4)):
    cells = [AggregatedCellBox(Boundary([0., 1.], [float(i), i + 1.]), {'v': v}, str(i)) for i, v in enumerate(vals)]
    m = EnvironmentMesh(Boundary([0., 1.], [0., float(len(vals))]), cells, NeighbourGraph(), {})
    d, cwd = tempfile.mkdtemp(), os.getcwd()
    try:
        os.chdir(d)
        os.mkdir('out')
        open('c.txt', 'w').write('0 9 9 9\\n100 10 10 10\\nnan 255 0 0\\n')
        open('p.json', 'w').write(json.dumps(dict(data_name='v', sampling_resolution=list(res), colour_conf=d + '/c.txt')))
        m.to_tif('p.json', d + '/out/x.tif')
        return gdal.Open('grid_data').ReadAsArray()
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
'''
seed('b28', 'C23', [(EM, """                        value = np.mean (value)
                        if value == float('inf') : # repalce inf with nan
                            value = np.nan
""", """                        finite = [v for v in value if v != float('inf')] # ignore inf
                        value = np.mean(finite) if finite else np.nan
""")], _TIF + '''
a = export([[2.0, 4.0], [float('inf'), 1.0], 3.0, [float('inf')]])[0]
assert a[0] == 3 and a[2] == 3 and np.isnan(a[3]) and np.isnan(a[1]), a
''', 'a vector with some infinite and some finite components', 'pixels of cells whose vector has an infinite component carry the mean of the others instead of being missing')

seed('b29', 'C23', [(EM, """                    try:
                        value = agg_cellbox.agg_data[data_name]
                    except KeyError:
                        logging.debug(f'{data_name} not found in cellbox!')
                        value = np.nan
""", """                    value = agg_cellbox.agg_data.get(data_name) or np.nan
""")], _TIF + '''
a = export([5.0, 0.0, 3.0, 1.0])[0]
assert list(a) == [5, 0, 3, 1], a
''', 'a cell whose value is zero', 'pixels of cells with value zero are missing')

_MK = """
import tempfile, os, json, shutil, contextlib, io, logging
logging.disable(50)
from meshiphi.mesh_generation.mesh_builder import MeshBuilder
def conf(d, sources, depth=0, minimum=5):
    cfg = dict(region=dict(lat_min=0, lat_max=10, long_min=0, long_max=10, start_time='2020-01-01', end_time='2020-01-02', cell_width=5, cell_height=5),
               data_sources=[], splitting=dict(split_depth=depth, minimum_datapoints=minimum))
    for k, (pts, extra) in enumerate(sources):
        f = os.path.join(d, f'{k}.csv')
        with open(f, 'w') as h:
            h.write(f'lat,long,v{k}\\n' + ''.join(f'{a},{b},{c}\\n' for a, b, c in pts))
        cfg['data_sources'].append(dict(loader='scalar_csv', params=dict(files=[f], data_name=f'v{k}', aggregate_type='MEAN', **extra)))
    return cfg
@contextlib.contextmanager
def work():
    d = tempfile.mkdtemp()
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            yield d
    finally:
        shutil.rmtree(d)
"""

seed('b30', 'C26', [(MB, "        if 'value_fill_types' in data_source['params']:\n", "        if data_source['params'].get('value_fill_types'):\n")], _MK + """
for fill in (1, 0, 2.5, 0.0):
    with work() as d:
        mb = MeshBuilder(conf(d, [([(1, 1, 7.0)], dict(value_fill_types=fill))]))
        m = mb.build_environmental_mesh()
    v = [c.agg_data['v0'] for c in m.agg_cellboxes]
    assert v == [7, fill, fill, fill], v
""", 'a fill value of zero', 'cells without data are left missing instead of being filled with zero')

seed('b31', 'C26', [('dataloaders/factory.py', "        params['min_dp'] = min_dp\n", "        params.setdefault('min_dp', min_dp)\n")], _MK + """
with work() as d:
    cfg = conf(d, [([(1, 1, 7.0)], {})], minimum=5)
    for n in (5, 20, 3):
        cfg['splitting']['minimum_datapoints'] = n
        mb = MeshBuilder(cfg)
        l = mb.mesh.cellboxes[0].get_data_source()[0].get_data_loader()
        assert l.min_dp == n, (l.min_dp, n)
""", 'a configuration used for a second mesh with another minimum number of data points', 'the loaders of the second mesh keep the minimum of the first')

seed('b32', 'C27', [(MB, "        grid_width = np.divide(bounds.get_width(), cell_width)\n", "        grid_width = np.divide(abs(bounds.get_long_max() - bounds.get_long_min()), cell_width)\n")], _MK + """
for lo, hi in ((0, 20), (-180, 180), (170, -170)):
    with work() as d:
        cfg = conf(d, [])
        cfg['region'].update(long_min=lo, long_max=hi)
        m = MeshBuilder(cfg).build_environmental_mesh()
    g = {str(k): {int(e): v for e, v in x.items()} for k, x in m.neighbour_graph.get_graph().items()}
    n = len(m.agg_cellboxes) // 2
    assert all(sorted(g[str(i)][-4]) == [i + n] for i in range(n)), (lo, hi)
    assert all(sorted(g[str(i)][2]) == [i + 1] for i in range(n - 1)), (lo, hi)
""", 'a region across the antimeridian', 'the neighbour graph is built for the wrong number of columns')

_LD = """
import logging, warnings
logging.disable(50); warnings.simplefilter('ignore')
import numpy as np, pandas as pd, xarray as xr
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
def loader(cls, data, bounds, **params):
    class L(cls):
        def import_data(self, bounds):
            return self.src
    return L(bounds, dict(params, src=data.copy(deep=True)))
B = Boundary([-80, 80], [-170, 170])
"""
seed('b33', 'C28', [(VE, "            vector_field = np.swapaxes(vector_field, 0, 1)\n            return vector_field\n", "            return vector_field\n")], _LD + """
# solid-body rotation: u = -lat, w = long; the curl is 2 everywhere (unit spacing)
df = pd.DataFrame([(la, lo, -la, lo) for la in range(5) for lo in range(4)], columns=['lat', 'long', 'u', 'w'], dtype=float)
l = loader(VectorDataLoader, df, B)
assert np.allclose(l.calc_curl(B, collapse=False), 2.0)
assert l.get_hom_condition(B, {'curl': dict(threshold=1.0, lower_bound=0.1, upper_bound=1.1)}) == 'HET'
""", 'tabular vector data split by curl', 'the curl of tabular data differentiates along the wrong axes')

seed('b34', 'C28', [(VE, "            data['_direction'] = np.arctan2(data[y], data[x])\n", "            data['_direction'] = np.arctan(data[y] / data[x])\n")], _LD + """
for u, w in ((1.0, 1.0), (2.0, -1.0), (-1.0, 1.0), (-2.0, -3.0), (0.0, 2.0)):
    df = pd.DataFrame(dict(lat=[1.0, 2.0], long=[3.0, 4.0], u=[u, u], w=[w, w]))
    l = loader(VectorDataLoader, df, B)
    assert np.allclose(l.data['_direction'], np.arctan2(w, u)), (u, w)
""", 'a table of vectors with a negative first component', 'their direction is off by half a turn')

seed('b35', 'C29', [(SC, "                data = data.coarsen(long=ds[0],boundary='pad').min()\n", "                data = data.coarsen(long=ds[0],boundary='trim').min()\n"),
                    (SC, "                data = data.coarsen(lat=ds[1],boundary='pad').min()\n", "                data = data.coarsen(lat=ds[1],boundary='trim').min()\n")], _LD + """
a = np.arange(20.0).reshape(4, 5)
ds = xr.Dataset({'v': (('lat', 'long'), a)}, coords=dict(lat=[0.0, 1, 2, 3], long=[0.0, 1, 2, 3, 4]))
for f, shape in (((5, 4), (1, 1)), ((2, 2), (2, 3)), ((1, 3), (2, 5))):
    for agg in ('MIN', 'MAX'):
        l = loader(ScalarDataLoader, ds, B, downsample_factors=list(f), aggregate_type=agg, data_name='v')
        assert l.data.v.shape == shape, (f, agg, l.data.v.shape)
""", 'a downsampling factor that does not divide the number of nodes, statistic MIN', 'the nodes of the last, shorter blocks are lost')

seed('b36', 'C29', [(VE, "                data = data.thin(lat=ds[1])\n                data = data.thin(long=ds[0])\n", "                data = data.thin(lat=ds[0])\n                data = data.thin(long=ds[1])\n")], _LD + """
a = np.arange(24.0).reshape(4, 6)
ds = xr.Dataset({'u': (('lat', 'long'), a), 'w': (('lat', 'long'), -a)}, coords=dict(lat=[0.0, 1, 2, 3], long=[0.0, 1, 2, 3, 4, 5]))
for f in ((2, 2), (3, 1), (2, 4)):
    l = loader(VectorDataLoader, ds, B, downsample_factors=list(f), aggregate_type='COUNT', data_name='u,w')
    assert np.array_equal(l.data.u.values, a[::f[1], ::f[0]]), (f, l.data.u.values)
""", 'vector data thinned by different factors for longitude and latitude', 'the factors are exchanged')

seed('b37', 'C29', [(VE, "                     for i, old_col in enumerate(old_names)}\n", "                     for i, old_col in enumerate(sorted(old_names))}\n")], _LD + """
for cols in (['u', 'w'], ['w', 'u'], ['east', 'north'], ['zonal', 'meridional']):
    df = pd.DataFrame([(1.0, 2.0, 5.0, -7.0), (2.0, 3.0, 6.0, -8.0)], columns=['lat', 'long'] + cols)
    l = loader(VectorDataLoader, df, B, data_name='uC,vC')
    assert list(l.data.sort_values('lat')['uC']) == [5.0, 6.0] and list(l.data.sort_values('lat')['vC']) == [-7.0, -8.0], cols
""", 'vector data whose first column comes later in the alphabet, renamed by the configuration', 'the two components are exchanged')

FA = 'dataloaders/factory.py'
seed('b38', 'C14', [(AG, '                if key  not in [  "geometry","cx", "cy", "dcx", "dcy", "id"]:\n', '                if key not in "geometry cx cy dcx dcy id":\n')], """
import json
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
for data in ({'SIC': 3.5}, {'x': 1.0, 'y': 2.0}, {'c': 4.0, 'geo': 5.0, 'dc': 6.0}):
    c = AggregatedCellBox(Boundary([0.0, 1.0], [2.0, 3.0]), data, '7')
    back = AggregatedCellBox.from_json(json.loads(json.dumps(c.to_json())))
    assert back.get_agg_data() == data, (data, back.get_agg_data())
""", 'a data layer whose name is part of the name of a field of the file (x, y, c, geo)', 'its values are lost when the mesh is read back')

seed('b39', 'C26', [(FA, "            params['files'] = sorted(glob(folder+'*'))\n", "            params['files'] = sorted(glob(os.path.join(params['folder'], '*.*')))\n")], """
import tempfile, os
from meshiphi.dataloaders.factory import DataLoaderFactory
for names in (['a.csv', 'b.csv'], ['a.csv', 'part2', 'z']):
    with tempfile.TemporaryDirectory() as d:
        for n in names: open(os.path.join(d, n), 'w').close()
        p = DataLoaderFactory.translate_file_input({'folder': d})
        assert p == {'files': [os.path.join(d, n) for n in names]}, (names, p)
""", 'a folder with files that have no extension', 'they are not loaded')

seed('b40', 'C15', [(EM, '        self.config["merged"].append(mesh2.config)\n', '        if mesh2.config not in self.config["merged"]:\n            self.config["merged"].append(mesh2.config)\n')], """
from meshiphi.mesh_generation.boundary import Boundary
from meshiphi.mesh_generation.aggregated_cellbox import AggregatedCellBox
from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
def grid(la, lo, n):
    cfg = dict(region=dict(lat_min=la, lat_max=la + n, long_min=lo, long_max=lo + n, cell_width=1.0, cell_height=1.0), splitting=dict(split_depth=0, minimum_datapoints=5))
    cells = [AggregatedCellBox(Boundary([la + i, la + i + 1.0], [lo + j, lo + j + 1.0]), {'a': i}, str(i * n + j)) for i in range(n) for j in range(n)]
    g = NeighbourGraph(cells, n)
    g.neighbour_graph = {str(k): {str(int(d)): [int(x) for x in v] for d, v in m.items()} for k, m in g.neighbour_graph.items()}
    return EnvironmentMesh(Boundary([la, la + n * 1.0], [lo, lo + n * 1.0]), cells, g, cfg)
m, x = grid(0.0, 0.0, 4), grid(1.0, 1.0, 2)
m.merge_mesh(x); m.merge_mesh(grid(1.0, 1.0, 2))
assert len(m.config['merged']) == 2, m.config['merged']
""", 'two meshes of one configuration merged one after the other', 'the second merge is not recorded')
