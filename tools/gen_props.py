import json
MG='meshiphi/mesh_generation/'
DL='meshiphi/dataloaders/'
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p('C01','Subdividing a cell during construction tiles it exactly',
 'Splitting a mesh cell while a mesh is being built yields exactly four cells, in the order north-west, north-east, south-west, south-east, each with half the width and half the height of the original; together they cover the original exactly and do not overlap, also when the cell touches or crosses the antimeridian (all longitudes stay within -180..180). Each new cell carries a consecutive string id counted from the given start id, a split depth one greater than the original, the original as its parent, the original time range, and for every data source the data of the original restricted to the new cell with loader, splitting conditions and fill type unchanged. The original cell keeps its bounds, id and depth.',
 ['inputs'],'every cell rectangle (lat_min<lat_max, any longitude range incl. antimeridian-crossing, width < 360), every depth, start id and list of data sources',
 'tests split a handful of cells away from the antimeridian and compare against fixed numbers',
 [MG+'cellbox.py',MG+'boundary.py','meshiphi/utils.py'],[('CellBox.split',MG+'cellbox.py'),('CellBox.create_splitted_cell_boxes',MG+'cellbox.py'),('Boundary getters',MG+'boundary.py'),('longitude_domain','meshiphi/utils.py')],['CellBox.split result'])
p('C02','Splitting a cell of a finished mesh tiles it and preserves its data',
 'Splitting a boundary, or a cell of a finished mesh, produces four quarters ordered south-west, north-west, south-east, north-east, each half as wide and half as high, which cover the original exactly without overlap, also across the antimeridian. The four new cells of a finished mesh carry a separate copy of the original cell\'s data in which the id entry is their own id, and their ids are the four integers following the largest id in use, so they are fresh and distinct. Computing the split leaves the original cell and the list of cells untouched.',
 ['inputs'],'every boundary rectangle incl. antimeridian-crossing; every finished mesh and every cell in it, ids in any order',
 'tests split single interior boundaries and one fixture mesh',
 [MG+'boundary.py',MG+'environment_mesh.py'],[('Boundary.split',MG+'boundary.py'),('EnvironmentMesh.sim_split_cellbox',MG+'environment_mesh.py'),('EnvironmentMesh.get_max_cellbox_id',MG+'environment_mesh.py'),('EnvironmentMesh.get_cellbox',MG+'environment_mesh.py')],['EnvironmentMesh.sim_split_cellbox result'])
p('C03','Initial grid tiles the requested region',
 'For a region whose width and height are whole multiples of the cell size, the initial cells form a row-major grid (south to north, then west to east) covering the region exactly: cell number k has id str(k), depth 0, the region\'s time range and the rectangle of grid position (k div columns, k mod columns). Regions crossing the antimeridian are covered the same way, with all longitudes within -180..180.',
 ['inputs','configurations'],'every region (incl. antimeridian-crossing and global) and every cell size dividing it',
 'tests use a few fixed regions and only count cells or spot-check a few of them',
 [MG+'mesh_builder.py','meshiphi/utils.py'],[('MeshBuilder.initialize_cellboxes',MG+'mesh_builder.py'),('longitude_domain','meshiphi/utils.py')],['MeshBuilder.mesh.cellboxes before splitting'])
p('C04','Adjacency direction between two cells is geometrically exact',
 'Classifying a pair of cells returns the direction in which the second touches the first: one of four edge directions when they share an edge segment of positive length, one of four corner directions when they share exactly a corner point, and 0 otherwise, taking the -180 and 180 meridians as the same line for cells in a global mesh, for cells of a mesh crossing the antimeridian and for finished meshes. Swapping the two cells negates the result, and the classification of construction cells, of bare boundaries and of global-mesh cells agree wherever they apply.',
 ['inputs'],'every pair of non-overlapping cell rectangles, each narrower than 180 degrees, incl. pairs on both sides of, touching, or crossing the antimeridian',
 'tests call each direction once with unit squares',
 [MG+'neighbour_graph.py',MG+'direction.py',MG+'boundary.py'],[('NeighbourGraph.get_neighbour_case',MG+'neighbour_graph.py'),('NeighbourGraph.get_neighbour_case_bounds',MG+'neighbour_graph.py'),('NeighbourGraph.get_global_mesh_neighbour_case',MG+'neighbour_graph.py')],['return value'])
p('C05','Initial neighbour graph records exactly the grid adjacencies',
 'The neighbour graph built for the initial grid has one node per cell with all eight directions, and lists cell j under direction d of cell i exactly when j is the grid cell next to i in direction d, each exactly once. When the region spans all longitudes from -180 to 180 the graph also wraps: the first and last column are joined in the east, west and four diagonal directions, and the mesh is marked global; otherwise nothing wraps and it is not marked global.',
 ['inputs','configurations'],'every grid of any number of rows and columns, global or not',
 'tests look at one small grid and a few cells of one global mesh',
 [MG+'neighbour_graph.py',MG+'mesh_builder.py'],[('NeighbourGraph.initialise_map',MG+'neighbour_graph.py'),('NeighbourGraph.initialise_neighbour_graph',MG+'neighbour_graph.py'),('MeshBuilder.check_global_mesh',MG+'mesh_builder.py')],['NeighbourGraph.get_graph()'])
p('C06','Neighbour graph stays exact through construction splits',
 'Starting from a neighbour graph that lists, for every live cell and direction, exactly the live cells touching it in that direction (each once), splitting any live cell during construction leaves such a graph: the split cell disappears from the mesh and from every list, its four children appear with complete lists, every affected neighbour refers to the right children, and all other entries are unchanged. Consequently the graph is symmetric, complete and free of dangling or duplicate entries after any sequence of splits.',
 ['histories','inputs'],'every mesh of non-overlapping cells with an exact graph and every cell in it (any sequence of splits, by induction), incl. global and antimeridian-crossing meshes',
 'tests compare a few whole regression meshes and single splits of uniform grids; split histories are unbounded',
 [MG+'mesh_builder.py',MG+'neighbour_graph.py'],[('MeshBuilder.split_and_replace',MG+'mesh_builder.py'),('MeshBuilder.fill_*_map',MG+'mesh_builder.py'),('NeighbourGraph.update_neighbours',MG+'neighbour_graph.py'),('NeighbourGraph.update_corner_neighbours',MG+'neighbour_graph.py'),('NeighbourGraph.remove_node_from_neighbours',MG+'neighbour_graph.py')],['NeighbourGraph.get_graph()'])
p('C07','Neighbour graph stays exact when a finished mesh is split',
 'Splitting any cell of a finished mesh whose neighbour graph is exact (every list contains exactly the cells touching in that direction, each once) leaves an exact graph over the new set of cells: the split cell and all references to it are gone, its four children are linked with each other and with every outside cell they touch, and all other entries are unchanged. The other cells and their data are unchanged.',
 ['histories','inputs'],'every finished mesh with an exact graph and every cell in it, incl. meshes touching or crossing the antimeridian',
 'tests split one or two cells of one fixture mesh',
 [MG+'environment_mesh.py',MG+'neighbour_graph.py'],[('EnvironmentMesh.split_and_replace',MG+'environment_mesh.py'),('EnvironmentMesh.fill_*_neighbour_map',MG+'environment_mesh.py'),('NeighbourGraph.remove_node_from_neighbours',MG+'neighbour_graph.py')],['EnvironmentMesh.neighbour_graph','EnvironmentMesh.agg_cellboxes'])
p('C08','Split decision combines homogeneity verdicts as documented',
 'A cell asks to be split exactly when none of the considered splitting conditions reports HOM or MIN and at least one does not report CLR. The considered conditions are all conditions of the first n data sources (or of all data sources in the breadth-first variant), each evaluated on the cell\'s own bounds and its own data subset for that source.',
 ['inputs'],'every list of data sources, any number of conditions per source, every combination of verdicts, every n',
 'tests use one or two sources with fixed data',
 [MG+'cellbox.py',MG+'metadata.py'],[('CellBox.should_split',MG+'cellbox.py'),('CellBox.should_split_breadth_first',MG+'cellbox.py'),('Metadata getters',MG+'metadata.py')],['return value'])
p('C09','Homogeneity verdict follows thresholds and bounds',
 'For scalar data (tabular or gridded) the verdict for a cell is CLR when it holds fewer data points than the minimum; otherwise, with f the share of non-missing points above the threshold (0 when none is non-missing), it is CLR when f is at most the lower bound, when f is at least the upper bound it is HOM if the condition is split-locked and CLR if not, and HET in between. Vector data follow the same rule with f taken over the non-missing values of the configured flow quantity (curl or change of magnitude), with CLR when that quantity is undefined. A missing split lock means not locked.',
 ['inputs'],'every data set, minimum count, threshold and lower/upper bound',
 'tests check a few hand-made samples',
 [DL+'scalar/abstract_scalar.py',DL+'vector/abstract_vector.py'],[('ScalarDataLoader.get_hom_condition',DL+'scalar/abstract_scalar.py'),('VectorDataLoader.get_hom_condition',DL+'vector/abstract_vector.py')],['return value'])
p('C10','Adaptive refinement respects the depth limit and the split decision',
 'Refining a mesh to a maximum depth only ever splits cells that ask to be split and whose depth is below the limit, so no cell ends deeper than the limit, and every cell of the result is an initial cell or obtained by splitting one. When it finishes, no remaining cell below the limit still asks to be split under the conditions of all data sources up to the last one that has splitting conditions. With no splitting conditions or a limit of zero nothing is split.',
 ['histories','inputs','configurations'],'every initial mesh, number of data sources, maximum depth and every behaviour of the splitting conditions',
 'tests run fixed configurations and compare the final mesh',
 [MG+'mesh_builder.py',MG+'cellbox.py'],[('MeshBuilder.split_to_depth',MG+'mesh_builder.py'),('CellBox.should_split',MG+'cellbox.py')],['MeshBuilder.mesh.cellboxes'])
p('C11','Each data point belongs to exactly one cell',
 'Restricting data to a boundary keeps exactly the points with lat_min < lat <= lat_max and longitude after the western edge up to and including the eastern edge (going through the antimeridian when the boundary crosses it), and, if the data have a time axis, inside the boundary\'s time range inclusive; values are not altered. Hence each point of a cell that is split goes to exactly one of its four children. Tabular and gridded, scalar and vector data behave the same.',
 ['inputs'],'every boundary incl. antimeridian-crossing (an eastern edge on the antimeridian written as 180) and every data set of points with longitudes within -180..180',
 'tests trim one or two data sets to ordinary boundaries',
 [DL+'scalar/abstract_scalar.py',DL+'vector/abstract_vector.py'],[('ScalarDataLoader.trim_datapoints',DL+'scalar/abstract_scalar.py'),('VectorDataLoader.trim_datapoints',DL+'vector/abstract_vector.py')],['return value'])
p('C12','Missing cell values are filled from the nearest ancestor or constant',
 'When a cell is aggregated, each data source contributes its aggregate over the cell. If that is missing (each component separately for vector data), with fill type parent the value is that of the nearest ancestor for which the aggregate is not missing (missing if there is none), computed with the same loader on that ancestor\'s bounds and data; with a constant fill type the value is the constant. If a scalar data name is contributed more than once, the first non-missing contribution wins; the result keeps the cell\'s bounds and id.',
 ['inputs','histories'],'every chain of ancestors of any length, every pattern of missing values, every list of sources',
 'tests use chains of at most one parent and no vector components with constant fill',
 [MG+'cellbox.py'],[('CellBox.aggregate',MG+'cellbox.py'),('CellBox.check_vector_data',MG+'cellbox.py')],['AggregatedCellBox.get_agg_data()'])
p('C13','Cell aggregate is the configured statistic of the points in the cell',
 'The value reported for a cell is the configured statistic (minimum, maximum, mean, median, standard deviation or count for scalar data; mean, standard deviation, count, or the vector of smallest or largest magnitude for vector data) of exactly the points in the cell, ignoring missing values, and is missing when the cell holds no non-missing point; counts of tabular scalar data are counts of non-missing points, counts of gridded scalar data and of vector data count every point or grid node in the cell, missing or not. An explicitly passed statistic overrides the configured one, and an unknown statistic is rejected.',
 ['inputs'],'every data set, cell, statistic name; tabular and gridded',
 'tests check a few statistics on small samples',
 [DL+'scalar/abstract_scalar.py',DL+'vector/abstract_vector.py'],[('ScalarDataLoader.get_value',DL+'scalar/abstract_scalar.py'),('VectorDataLoader.get_value',DL+'vector/abstract_vector.py')],['return value'])
p('C14','Cells survive export to and reload from JSON',
 'Exporting a cell gives its rectangle as well-known text, its true centre and half-sizes, its data entries and its id, and reloading that export gives a cell with the same id, the same data and the same rectangle (with the antimeridian written as -180 or 180), also when the cell touches or crosses the antimeridian. Parsing a boundary\'s own text form gives back the same boundary. Exporting and reloading a whole mesh preserves the number and order of cells, every cell, the neighbour lists and the region.',
 ['inputs'],'every boundary, data dictionary and mesh',
 'tests round-trip one ordinary cell',
 [MG+'aggregated_cellbox.py',MG+'boundary.py',MG+'environment_mesh.py',MG+'neighbour_graph.py'],[('AggregatedCellBox.to_json/from_json',MG+'aggregated_cellbox.py'),('Boundary.to_polygon/from_poly_string/getcx/getcy',MG+'boundary.py'),('EnvironmentMesh.to_json/load_from_json',MG+'environment_mesh.py'),('NeighbourGraph.from_json',MG+'neighbour_graph.py')],['exported dictionary'])
p('C15','Merging meshes replaces the overlapped region and reties neighbours',
 'Merging a compatible mesh (aligned with and of a size divisible by the cell size; incompatible ones are refused) into another keeps exactly the cells of the first mesh not lying inside the second mesh\'s region plus all cells of the second with shifted, globally unique ids; the resulting neighbour graph is exact over that set (every list holds exactly the touching cells, each once) and the merged configuration is recorded. The mesh given as argument is not modified.',
 ['inputs'],'every pair of finished meshes with exact graphs, the second aligned with the first, neither touching the antimeridian',
 'tests merge one fixed pair and check counts',
 [MG+'environment_mesh.py',MG+'neighbour_graph.py'],[('EnvironmentMesh.merge_mesh',MG+'environment_mesh.py'),('EnvironmentMesh.validate_merge_compatibility',MG+'environment_mesh.py'),('EnvironmentMesh.tie_*_cellbox_ng',MG+'environment_mesh.py'),('EnvironmentMesh.get_cellboxes_*',MG+'environment_mesh.py'),('EnvironmentMesh.increment_ids',MG+'environment_mesh.py')],['EnvironmentMesh after merge'])
p('C16','Point lookup finds the cell that contains the point',
 'A finished mesh reports a point as inside exactly when the point lies strictly inside the rectangle of one of its cells, and looking up such a point returns the id of that cell; looking up a point in no cell, or in more than one cell, is an error. Cells that touch or cross the antimeridian contain the points on both sides that belong to them.',
 ['inputs'],'every mesh and every point (lat, long) off the 180 meridian itself',
 'tests query a few points of one mesh',
 [MG+'environment_mesh.py',MG+'aggregated_cellbox.py'],[('EnvironmentMesh.query_inside_mesh',MG+'environment_mesh.py'),('EnvironmentMesh.query_index',MG+'environment_mesh.py'),('AggregatedCellBox.contains_point',MG+'aggregated_cellbox.py')],['return value'])
p('C17','Splitting around points refines to the finest cell size there',
 'Splitting a finished mesh around given points never fails, whatever the points; afterwards the cell containing a given point, if any, has width at most the initial cell width, or height at most the initial cell height, divided by two to the power of the maximum split depth. Only cells containing a given point and larger than that in both directions are split, so points outside the mesh and cells already fine enough cause no change.',
 ['inputs','histories'],'every mesh, every list of points incl. points on cell edges and corners',
 'tests use one point strictly inside one cell',
 [MG+'environment_mesh.py'],[('EnvironmentMesh.split_points',MG+'environment_mesh.py'),('EnvironmentMesh._split_loc',MG+'environment_mesh.py')],['EnvironmentMesh.agg_cellboxes'])
p('C18','Malformed regions and configurations are rejected',
 'A boundary is accepted exactly when both ranges have at least two values, the latitudes are ordered, both longitudes lie within -180..180 and the time range, if any, consists of two ordered dates. A build is accepted only if the region passes those checks, its dates are valid and ordered, and its width (through the antimeridian if it crosses it) and height are whole multiples of the cell width and height.',
 ['inputs','configurations'],'every boundary and region configuration',
 'tests try single bad values',
 [MG+'boundary.py',MG+'mesh_builder.py','meshiphi/config_validation/config_validator.py'],[('Boundary.validate_bounds',MG+'boundary.py'),('MeshBuilder.validate_bounds',MG+'mesh_builder.py'),('validate_mesh_config','meshiphi/config_validation/config_validator.py')],['ValueError / AssertionError'])
p('C19','Dates relative to today are resolved correctly',
 'A date string in year-month-day form is returned in canonical zero-padded form; TODAY is replaced by the current date, TODAY + n and TODAY - n by the current date shifted forwards or backwards by n days, ignoring case and surrounding blanks. A string that is neither a valid date nor mentions TODAY, or in which TODAY is followed by something other than + or - and a number, is rejected with a value error.',
 ['inputs'],'every date, every number of days n >= 0 and any current date',
 'tests try two or three strings',
 [MG+'boundary.py'],[('Boundary.parse_datetime',MG+'boundary.py')],['return value'])
p('C20','Longitude arithmetic is exact modulo 360',
 'Normalising a longitude gives the value in -180..180 that differs from it by a multiple of 360, leaves values already in that range unchanged, and works element by element on lists and arrays. The distance between two longitudes is the length of the shorter arc between them: it lies in 0..180, is symmetric, and is 0 exactly for longitudes that are equal modulo 360.',
 ['inputs'],'every real longitude, lists and arrays of them',
 'tests sample a few values',
 ['meshiphi/utils.py'],[('longitude_domain','meshiphi/utils.py'),('longitude_distance','meshiphi/utils.py')],['return value'])
p('C21','Removing or renumbering cells leaves no stale references',
 'Removing a cell from a finished mesh with a symmetric neighbour graph removes it from the cell list, from the graph and from all neighbours\' lists and changes nothing else. Shifting all ids by a number shifts every cell id (and the id recorded with its data), every node and every neighbour entry by that same number, leaving the structure otherwise the same.',
 ['inputs','histories'],'every finished mesh with a symmetric graph, every cell, every shift',
 'tests remove one node of one graph',
 [MG+'environment_mesh.py',MG+'neighbour_graph.py'],[('EnvironmentMesh.remove_cellbox',MG+'environment_mesh.py'),('NeighbourGraph.remove_node_and_update_neighbours',MG+'neighbour_graph.py'),('EnvironmentMesh.increment_ids',MG+'environment_mesh.py'),('NeighbourGraph.increment_ids',MG+'neighbour_graph.py')],['EnvironmentMesh','NeighbourGraph.get_graph()'])
p('C22','Updating a cell by index changes only that cell',
 'Adding values to the cell at a valid index sets exactly those entries in that cell\'s data and leaves all other entries and cells unchanged; an index outside 0..number of cells minus one is rejected with a value error and changes nothing.',
 ['inputs'],'every mesh, integer index (incl. negative and too large) and values dictionary',
 'tests update one valid index',
 [MG+'environment_mesh.py'],[('EnvironmentMesh.update_cellbox',MG+'environment_mesh.py')],['EnvironmentMesh.agg_cellboxes'])
p('C23','GeoTIFF export samples the right cell for every pixel',
 'The raster a GeoTIFF export writes has the requested numbers of lines and columns and is placed so that its pixels divide the mesh\'s region evenly, from the north-west corner, through the antimeridian if the region crosses it. Every pixel carries the value, under the requested data name, of the cell containing the pixel\'s centre (the mean of its components for a vector, missing if that is infinite), and is missing where that cell has no such value or no cell contains the centre in its interior.',
 ['inputs','configurations'],'every mesh of disjoint cells and sampling resolution','tests only check that a file is written',
 [MG+'environment_mesh.py'],[('EnvironmentMesh.to_tif',MG+'environment_mesh.py')],['raster written through GDAL','written tif'])
p('C24','Cell size in metres is the great-circle size',
 'The size in metres reported for a boundary is the length of its diagonal, the great-circle distance between its south-west and north-east corners on a sphere of radius 6371 km, divided by the square root of two; it does not depend on where the boundary lies relative to the antimeridian, and computing it does not change the boundary.',
 ['inputs'],'every boundary','tests check one value',
 [MG+'boundary.py'],[('Boundary.calc_size',MG+'boundary.py')],['return value'])
p('C25','Look-up-table regions give cells their values and verdicts',
 'Restricting a look-up table to a boundary keeps, unaltered, exactly the regions that share at least a point with the boundary\'s area (taken through the antimeridian if it crosses it; and, for a table indexed by time, only those within its time range). The value of a cell is missing if there is no such region; otherwise it is the minimum, maximum or count over those regions, or the mean, median or standard deviation weighted by the share of the cell each region covers (missing if all of them only touch it). An unknown statistic is rejected with a value error. The column carries the configured data name. The verdict is HOM if there is no region and the table is split-locked; HET exactly when splitting on region boundaries is requested and the edge of some of those regions meets the cell; otherwise CLR. None of this modifies the table.',
 ['inputs','configurations'],'every table of polygonal regions, boundary, statistic and splitting condition',
 'tests use one table and one boundary',
 ['meshiphi/dataloaders/lut/abstract_lut.py'],[('LutDataLoader.'+f,'meshiphi/dataloaders/lut/abstract_lut.py') for f in ('trim_datapoints','get_value','get_hom_condition','calculate_coverage','set_data_col_name')],['return values','dataloader.data'])
p('C26','Every cell carries its share of every configured data source',
 'Building a mesh from a valid configuration creates one loader per configured data source, in order: the one its name (in any case) stands for, over the mesh\'s region, with the source\'s parameters and the configured minimum number of data points; an unknown name or a missing required parameter is refused, and a single file or a folder stands for the list of its files. Every initial cell then carries one entry per source, in that order, with that loader, the source\'s splitting conditions in order (none if none are configured), its fill type (as configured if that is a number, text that reads as a number, "parent" or "Nan"; otherwise "parent") and exactly the points of the loader\'s data that belong to the cell. Adding a loader to a mesh under construction appends one such entry to every cell, leaves the entries it had as they were and returns the builder.',
 ['inputs','configurations'],'every valid configuration and data set',
 'tests compare a few whole meshes built from fixed configurations',
 ['meshiphi/mesh_generation/mesh_builder.py','meshiphi/dataloaders/factory.py','meshiphi/mesh_generation/metadata.py'],[('MeshBuilder.'+f,'meshiphi/mesh_generation/mesh_builder.py') for f in ('initialize_meta_data','initialize_meta_data_subsets','check_value_fill_type','add_dataloader','__init__')]+[('DataLoaderFactory.get_dataloader','meshiphi/dataloaders/factory.py'),('Metadata.__init__','meshiphi/mesh_generation/metadata.py')])
p('C27','Building a mesh refines to the limit and then aggregates every cell once',
 'Building an environment mesh from a valid configuration starts from the grid of cells for the configured region and cell size with its neighbour graph, refines it to the configured depth limit, and then returns a mesh whose cells are, in order, the aggregates of exactly the cells that remain (each once, with its id and bounds), with the region\'s bounds, the neighbour graph of the refined mesh, and the configuration with its dates resolved.',
 ['inputs','configurations'],'every valid configuration and data set',
 'tests compare a few whole meshes built from fixed configurations',
 ['meshiphi/mesh_generation/mesh_builder.py','meshiphi/mesh_generation/mesh.py'],[('MeshBuilder.'+f,'meshiphi/mesh_generation/mesh_builder.py') for f in ('__init__','build_environmental_mesh')]+[('Mesh.__init__','meshiphi/mesh_generation/mesh.py')])
p('C28','Flow quantities of vector data are those of the vectors at each position',
 'For vector data with one vector per position, stored as a table (rows in any order, missing rows or values) or as a grid (either order of its axes): every point carries the length of its vector and its direction (arctan2 of second over first component), missing where a component is missing; the curl at a position is d(second component)/d(long) - d(first component)/d(lat) by central differences over neighbouring positions (one-sided at the ends, unit spacing); dmag of a point is the length of its vector minus the mean vector of the cell. Undefined (fewer than two latitudes or longitudes for the curl, no value present) gives not-a-number; collapsed, the curl gives the value of largest magnitude or the mean, dmag the mean or the largest; an unknown aggregate is refused.',
 ['inputs'],'every vector data set, shape, storage form and pattern of missing values',
 'no test calls the flow quantities; the regression meshes use a few smooth data sets',
 ['meshiphi/dataloaders/vector/abstract_vector.py'],[('VectorDataLoader.'+f,'meshiphi/dataloaders/vector/abstract_vector.py') for f in ('add_mag_dir','calc_curl','calc_dmag','_create_vector_meshgrid')])
p('C29','A data source is prepared as configured',
 'After constructing a loader its data is that of its source, in this order: downsampled (grids: every block of m longitudes by n latitudes becomes the configured statistic of the values present in it at the mean position of its nodes, COUNT keeps its first node, the last block may be shorter, factors 1 leave the grid unchanged; tables are never downsampled), reprojected if the projections differ (each point gets the projected position of its own coordinates - first coordinate x becomes the longitude, second y the latitude - and keeps its values; nodes of a grid without data may be dropped; the fast reprojection by interpolation is not meant), renamed if a name is configured (each data column, in order, with its values), and restricted to the region without losing a point inside it; configured settings are kept and defaults filled in; a scalar source with several data columns is refused.',
 ['inputs','configurations'],'every grid or table, factors, statistic, projection and name',
 'tests cover one downsampled regression mesh and no projection',
 ['meshiphi/dataloaders/scalar/abstract_scalar.py','meshiphi/dataloaders/vector/abstract_vector.py'],[(c+'.'+f,'meshiphi/dataloaders/'+d) for c,d in (('ScalarDataLoader','scalar/abstract_scalar.py'),('VectorDataLoader','vector/abstract_vector.py')) for f in ('__init__','downsample','reproject','get_data_col_name','set_data_col_name','add_default_params')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
