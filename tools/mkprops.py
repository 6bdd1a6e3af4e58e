#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays reviewable)."""
import json, os
H='include/richdem/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[H+f if not f.startswith('/') else f[1:] for f in files],mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,title
    P.append(d)

p('P01','Cell addressing and neighbour geometry agree everywhere',
 'For every raster size and every cell, the flat index and the (x,y) coordinates convert to one another without loss, the in-grid, edge, corner, row and column tests answer exactly what the raster bounds say, and the index of the n-th neighbour (or of an (dx,dy) displacement) is the index of the cell at those coordinates or the "no such cell" marker when it lies outside. The D8 and D4 neighbour tables enumerate each surrounding cell exactly once, with the right distance and diagonal flag, and the inverse table leads back to the start; the flat neighbour offsets of a raster agree with its width at all times, including after construction, wrapping and resizing.',
 ['inputs'],'all raster widths and heights whose cell count fits the index type; all cells, in or out of the grid; all neighbour numbers; both topologies',
 'Tests construct a handful of small rasters; index arithmetic mixes signed and unsigned 32-bit integers and must be right for every width, height and coordinate.',
 ['common/Array2D.hpp','common/Array3D.hpp','common/constants.hpp'],
 [('xyToI/iToxy/nToI/getN/nshift/inGrid/isEdgeCell and friends',H+'common/Array2D.hpp'),('d8x,d8y,d8_inverse,dr,d8r,n8_diag,d4x,d4y,d4_inverse',H+'common/constants.hpp')],
 ['Array2D<T>::xyToI','Array2D<T>::getN'])
p('P02','Raster bulk operations rearrange and summarise exactly the right cells',
 'Filling, replacing, scaling, row/column/edge assignment, row/column extraction, vertical and horizontal flips, transposition and expansion each produce a raster whose every cell has exactly the documented value, with all other cells, the dimensions and the neighbour offsets left consistent. Minimum, maximum, value counts, data-cell counts and equality are computed over exactly the cells (and NoData rule) documented, and no operation touches memory outside the raster.',
 ['inputs'],'every raster size, including single rows, single columns and odd sizes, and every content',
 'No test flips, transposes or expands rasters of every parity and shape, and an off-by-one that reads one cell past a row goes unnoticed by sampled values.',
 ['common/Array2D.hpp','common/Array3D.hpp'],
 [('setAll, replace, scale, setRow, setCol, setEdges, getRowData, getColData, flipVert, flipHorz, transpose, resize, expand',H+'common/Array2D.hpp'),('min, max, countval, countDataCells, operator==',H+'common/Array2D.hpp')],
 ['Array2D<T> public methods'])
p('P03','Raster storage: copies are deep, wrapped memory is never freed, moves transfer',
 'Copying a raster buffer gives an independent buffer with equal contents, moving one transfers its contents and leaves the source empty, and resizing gives exactly the requested number of cells. Memory that a raster merely wraps is never released or reallocated by it, memory it owns is released exactly once, whatever sequence of copies, moves, assignments, clears and destructions is performed.',
 ['histories'],'every sequence of construct, wrap, copy, move, assign, clear, resize and destroy operations over owned and wrapped buffers',
 'Ownership errors need a particular sequence (for example assigning over a wrapping raster) that the tests never perform, and show up as heap corruption rather than as a wrong value.',
 ['common/ManagedVector.hpp','common/Array2D.hpp'],
 [('constructors, operator=, resize, destructor',H+'common/ManagedVector.hpp')],['ManagedVector<T>'],
 [('_owned','whether the buffer must be released by this object',H+'common/ManagedVector.hpp')])
p('P04','Grid-cell ordering is total, NaN sorts lowest and ties follow insertion',
 'The comparison of elevation-carrying grid cells is a strict weak order for every pair of floating-point elevations, infinities, signed zeros and NaNs included, with NaN treated as smaller than every number and all six relational operators mutually consistent. The stable queues return cells from lowest to highest elevation and, among cells of equal elevation, in insertion order (low variant) or reverse insertion order (high variant).',
 ['inputs','histories'],'all pairs and triples of IEEE-754 elevations and insertion counters; all sequences of insertions and removals',
 'Tests never put NaN or signed zeros in a queue; an inconsistent comparator silently corrupts the heap.',
 ['common/grid_cell.hpp'],[('operator> and friends, emplace counters',H+'common/grid_cell.hpp')],['GridCellZ<T>','GridCellZk_low_pq<T>','GridCellZk_high_pq<T>'])
p('P05','Every depression-filling variant yields the unique minimal drainable surface',
 'After filling, every cell has a path of neighbouring cells to the edge of the raster along which the surface never rises, no cell is lower than it was, edge cells are unchanged, and no surface with these properties is lower anywhere: each cell equals the smallest, over all paths to the edge, of the highest original elevation on the path. The original and improved Priority-Flood (D8 and D4), the Zhou (2016) and, on rasters without NoData cells, the Wei (2018) variants all produce this same surface; the Wei variant leaves NoData cells alone and treats them as outlets, so that cells next to them also keep their elevation.',
 ['inputs'],'every raster of every size and every choice of elevations (NoData taken as its numeric value except by the Wei variant), both topologies where offered',
 'The tests compare a few stored rasters and random rasters between implementations; a common error, or one needing a particular arrangement of nested pits and queue states, passes.',
 ['depressions/Barnes2014.hpp','depressions/Zhou2016.hpp','depressions/Wei2018.hpp'],
 [('PriorityFlood_Original, PriorityFlood_Barnes2014',H+'depressions/Barnes2014.hpp'),('PriorityFlood_Zhou2016 and its trace/depression queues',H+'depressions/Zhou2016.hpp'),('PriorityFlood_Wei2018',H+'depressions/Wei2018.hpp')],
 ['the elevation raster after the call'])
p('P06','Depression tests and pit masks agree with the filled surface',
 'The has-depressions test answers yes exactly when filling would change at least one cell. The pit mask marks NoData cells as NoData, marks exactly the cells that filling would raise as pits and all other cells as non-pits, for either topology.',
 ['inputs'],'every raster of every size, every choice of elevations and NoData cells, both topologies',
 'Needs agreement with a second algorithm on every input; tests check two or three stored rasters.',
 ['depressions/Barnes2014.hpp'],[('HasDepressions, pit_mask',H+'depressions/Barnes2014.hpp')],['return value / pit_mask raster'])
p('P07','Epsilon filling leaves every interior data cell draining strictly downhill',
 'After the epsilon-fill, every data cell that is not on the raster edge has a neighbour through which it drains that is strictly lower or is NoData, no cell is lower than before, and edge and NoData cells are unchanged. A cell that was raised is raised to the next representable value above the neighbour it drains to.',
 ['inputs'],'every raster of every size with floating-point elevations and NoData cells, both topologies',
 'Tests do not exercise it on adversarial pits; needs quantification over all interior cells of all inputs.',
 ['depressions/Barnes2014.hpp'],[('PriorityFloodEpsilon_Barnes2014',H+'depressions/Barnes2014.hpp')],['the elevation raster after the call'])
p('P08','Flood-order flow directions and watershed labels drain every cell to the edge',
 'Priority-Flood flow directions send edge cells off the raster, give interior NoData cells no direction and every other cell a direction to a neighbour, so that following the directions from any data cell reaches the edge or a NoData cell, never cycling, along a path that does not exceed the cell\'s filled elevation. Priority-Flood watershed labelling gives every data cell a positive label; every interior cell shares its label with the neighbour it drains through unless that neighbour is unlabelled NoData, in which case it starts a watershed; distinct outlets have distinct labels and only NoData cells stay unlabelled; with elevation altering the raster becomes the filled surface, otherwise it is unchanged (NoData is the lowest value, as the algorithm requires).',
 ['inputs'],'every raster of every size, elevations and NoData cells, both topologies where offered',
 'Acyclicity and reachability are whole-raster properties; tests only compare a few stored outputs.',
 ['depressions/Barnes2014.hpp'],[('PriorityFloodFlowdirs_Barnes2014, PriorityFloodWatersheds_Barnes2014',H+'depressions/Barnes2014.hpp')],['output raster'])
p('P09','Flow-metric proportions are a valid downslope partition',
 'For every flow metric (D8, D4, Rho8, Rho4, Quinn, Holmgren, Freeman, D-infinity), a NoData cell is marked NoData, a raster-edge cell or a cell without a usable lower neighbour is marked as having no flow, and every other cell is marked as flowing with non-negative proportions that sum to one. Flow goes only to neighbours inside the raster that are data and (single-direction and multiple-direction metrics) strictly lower than the cell; the single-direction metrics give one neighbour everything, the D8 and D4 metrics the steepest one.',
 ['inputs'],'every raster of every size, elevations, NoData cells and (where offered) positive exponents; every random draw for the Rho metrics',
 'Tests compare accumulations on a few stored rasters; partition laws must hold at every cell of every input.',
 ['flowmet/OCallaghan1984.hpp','flowmet/Fairfield1991.hpp','flowmet/Freeman1991.hpp','flowmet/Holmgren1994.hpp','flowmet/Quinn1991.hpp','flowmet/Tarboton1997.hpp'],
 [('FM_OCallaghan',H+'flowmet/OCallaghan1984.hpp'),('FM_FairfieldLeymarie',H+'flowmet/Fairfield1991.hpp'),('FM_Freeman',H+'flowmet/Freeman1991.hpp'),('FM_Holmgren',H+'flowmet/Holmgren1994.hpp'),('FM_Tarboton',H+'flowmet/Tarboton1997.hpp')],['props Array3D'])
p('P10','D8 flow directions point to the steepest lower neighbour; edges drain outward',
 'The D8 direction of an interior cell is that of a strictly lower neighbour with the lowest elevation (diagonals losing ties), or "no flow" when there is none; an edge cell flows off the raster, perpendicular to its side or diagonally at a corner; a NoData cell gets the NoData direction.',
 ['inputs'],'every raster of every size and every choice of elevations and NoData cells',
 'The tie and edge rules interact; the tests hold a few stored rasters.',
 ['flowmet/d8_flowdirs.hpp'],[('d8_FlowDir, d8_flow_directions',H+'flowmet/d8_flowdirs.hpp')],['flow direction raster'])
p('P11','Flow accumulation satisfies the per-cell conservation equation',
 'For every acyclic set of flow proportions, the accumulation of each data cell equals its own contribution plus the sum, over its neighbours, of the neighbour\'s accumulation times the proportion it sends to the cell; NoData cells get the NoData accumulation. This holds whatever the order in which cells become ready.',
 ['inputs'],'every raster size, every acyclic proportion field, every initial weighting',
 'Order-dependent and whole-raster; tests sample a few DEMs and D8 only.',
 ['methods/flow_accumulation_generic.hpp','methods/flow_accumulation.hpp','methods/d8_methods.hpp'],[('FlowAccumulation',H+'methods/flow_accumulation_generic.hpp'),('d8_flow_accum',H+'methods/d8_methods.hpp')],['accum raster'])
p('P12','Flat detection marks exactly the undrained interior data cells',
 'The flat detector marks a cell as NoData exactly when it is NoData in the DEM, and as flat exactly when it is an interior data cell none of whose eight neighbours is NoData or lower; every other cell is marked not flat.',
 ['inputs'],'every raster of every size, elevations and NoData cells',
 'A per-cell law over all inputs; tests check stored rasters.',
 ['flats/find_flats.hpp'],[('FindFlats',H+'flats/find_flats.hpp')],['flats raster'])
p('P13','Flat resolution gives every drainable flat a strictly descending path',
 'Every flat that has an outlet is labelled as one connected equal-elevation region and every cell of it gets a positive flat-mask increment, strictly larger than that of some same-flat neighbour or adjacent to the flat\'s outlet, so that following decreasing increments leads out of the flat. Cells outside drainable flats keep a zero increment, and applying the increments as epsilons leaves no such flat while changing only cells of flats and never upward past the flat\'s higher surroundings except as reported.',
 ['inputs'],'every raster of every size, with any arrangement of flats, outlets, higher terrain, NoData and edges',
 'Multi-pass breadth-first growth over whole flats; tests have a few stored masks.',
 ['flats/Barnes2014.hpp','flats/flat_resolution.hpp'],[('GetFlatMask, LabelFlat, FindFlatEdges, BuildAwayGradient, BuildTowardsCombinedGradient, ResolveFlatsEpsilon_Barnes2014',H+'flats/Barnes2014.hpp')],['flat_mask, labels'])
p('P14','Complete breaching removes every depression by lowering only',
 'After complete breaching, from every data cell there is a path of neighbouring cells to the raster edge or to a NoData cell along which the surface never rises. No cell is higher than before and NoData cells are unchanged.',
 ['inputs'],'every raster of every size, elevations and NoData cells, both topologies',
 'Global drainage over all inputs; tests check stored rasters.',
 ['depressions/Lindsay2016.hpp'],[('CompleteBreaching_Lindsay2016',H+'depressions/Lindsay2016.hpp')],['the elevation raster after the call'])
p('P15','Terrain attributes follow their defining formulas with edge substitution',
 'Slope, aspect, curvature, profile and planform curvature at a cell are the documented Horn and Zevenbergen-Thorne functions of its 3x3 neighbourhood, in which a neighbour that is outside the raster or NoData is replaced by the cell\'s own elevation, scaled by the cell size and z-scale. The four slope units are conversions of one another, aspect is in [0,360), and NoData cells stay NoData.',
 ['inputs'],'every raster of every size, elevations, NoData pattern, cell size and z-scale',
 'Tests compare whole rasters on two DEMs within tolerance; edge and NoData patterns are combinatorial.',
 ['methods/terrain_attributes.hpp'],[('TerrainSetup, Terrain_*, TA_*',H+'methods/terrain_attributes.hpp')],['output raster'])
p('P16','Disjoint-set forest represents exactly the merges requested',
 'After any sequence of makeSet, unionSet, mergeAintoB, findSet and sameSet calls, two elements are reported in the same set exactly when the requested unions connect them, and every element\'s representative is stable under further queries. Merging A into B makes B\'s representative the representative of every member of A\'s set.',
 ['histories'],'every finite sequence of operations on any number of elements',
 'Path compression and rank updates interact over long histories; tests exercise none directly.',
 ['common/disjoint_dense_int_set.hpp'],[('findSet, unionSet, mergeAintoB',H+'common/disjoint_dense_int_set.hpp')],['DisjointDenseIntSet'])
p('P17','Radix heap pops keys in nondecreasing order and loses nothing',
 'The radix heap\'s key encoding is order preserving and invertible for every supported key type, and any sequence of monotone pushes and pops returns exactly the pushed keys (and values), smallest first.',
 ['inputs','histories'],'all keys of all supported types; all monotone sequences of operations',
 'The encoding is bit-level over all integers and floats; no test uses the heap.',
 ['common/radix_heap.hpp'],[('encoder, find_bucket, radix_heap, pair_radix_heap',H+'common/radix_heap.hpp')],['radix_heap'])
p('P18','The LRU list is an exact recency order of distinct items',
 'After any sequence of insertions, lookups, prunes and removals the cache list holds each item at most once, ordered from most to least recently inserted; back() is the least recently used item, and full() and size() count the distinct items.',
 ['histories'],'every finite sequence of operations',
 'No test touches the list.',
 ['tiled/lru.hpp'],[('insert, prune, back, full, size',H+'tiled/lru.hpp')],['LRU<T>'])
p('P19','The depression hierarchy is a well-formed, conservative merge forest',
 'The hierarchy built for a DEM is a forest in which every leaf has one pit cell, every internal node exactly two children that name it as parent and meet at its lower boundary\'s outlet no lower than either child\'s pit, and every chain ends at the ocean. Every cell carries the label of a leaf or the ocean, and each depression\'s cell count and volume equal those of the cells below its outlet elevation.',
 ['inputs'],'every raster of every size, elevations and ocean/NoData pattern',
 'Structural invariants over arbitrary nested depressions; tests check a few examples and random comparisons.',
 ['depressions/depression_hierarchy.hpp'],[('GetDepressionHierarchy, CalculateMarginalVolumes, CalculateTotalVolumes',H+'depressions/depression_hierarchy.hpp')],['DepressionHierarchy'])
p('P20','Fill-Spill-Merge conserves water and leaves level pools',
 'Fill-Spill-Merge neither creates nor destroys water: the water on the surface before equals the water in depressions plus the water that reached the ocean afterwards. The volume below a level and the level for a volume are inverse to each other, and spreading a volume over a depression gives every member cell the same water surface and every other cell none.',
 ['inputs'],'every raster, every initial water distribution, every depression and volume it can hold',
 'Conservation over arbitrary nested depressions; tests sample random rasters with tolerance.',
 ['depressions/fill_spill_merge.hpp'],[('FillSpillMerge, MoveWaterIntoPits, MoveWaterInDepHier, FillDepressions, DetermineWaterLevel, DepressionVolume, BackfillDepression',H+'depressions/fill_spill_merge.hpp')],['wtd raster, dep water volumes'])
p('P21','Bucket fills, perimeters and surface areas cover exactly the right cells',
 'A bucket fill sets the target value on exactly the cells connected to the seeds (or the raster edge) through cells of the checked value. The perimeter counts exactly the data cells (or cell edges) bordering the raster outside; the surface area is the sum of the documented per-cell triangle areas over data cells.',
 ['inputs'],'every raster of every size and content',
 'Connectivity over all inputs; few tests.',
 ['misc/misc_methods.hpp'],[('BucketFill, BucketFillFromEdges, Perimeter, dem_surface_area',H+'misc/misc_methods.hpp')],['raster / return value'])
p('P22','Converted flow directions mean the same neighbour',
 'Converting ArcGIS or TauDEM direction codes to the native D8 encoding maps every valid code to the number of the neighbour it names, maps the NoData code to the native NoData code, and leaves the raster otherwise unchanged.',
 ['inputs'],'every raster content drawn from the valid codes',
 'Eight codes at arbitrary positions and NoData values; no test checks all.',
 ['misc/conversion.hpp'],[('convert_arc_flowdirs_to_richdem_d8',H+'misc/conversion.hpp')],['flow direction raster'])
p('P23','Native cache files round-trip the raster exactly',
 'Saving a raster to the native cache format and loading it again, at once or after having purged it from memory, restores the same dimensions, offsets, NoData value, geotransform, projection and every cell bit for bit.',
 ['inputs'],'every raster size and content, with and without geotransform and projection',
 'One size per test at most; a field order or size mismatch only shows for some types.',
 ['common/Array2D.hpp'],[('saveToCache, loadNative, dumpData, loadData',H+'common/Array2D.hpp')],['Array2D<T> after loadData'])
p('P24','Tiled execution equals single-raster execution',
 'The MPI tiled Priority-Flood and D8 flow-accumulation programs give the same raster as the single-tile algorithms for every tiling and every number and scheduling of workers.',
 ['schedules','configurations'],'every tiling of every raster and every message schedule',
 'Schedules and tilings; tests run a few.',
 ['/programs/parallel_d8_accum/main.cpp','/programs/parallel_priority_flood/main.cpp'],[('Producer/Consumer/FollowPath',"programs/parallel_d8_accum/main.cpp")],['output rasters'])
p('P25','Parallel loops give schedule-independent results',
 'Every OpenMP-parallel algorithm of the library gives the result of its sequential execution under every thread schedule.',
 ['schedules'],'every number of threads and every interleaving',
 'Tests run with a single thread.',
 ['common/Array2D.hpp','flats/find_flats.hpp','methods/terrain_attributes.hpp'],[('#pragma omp parallel for',H+'*')],['output rasters'])
p('P26','The Python wrapper returns what the library computes',
 'Each Python-level function gives the same raster and NoData marking as the C++ algorithm it wraps, for every array type and shape.',
 ['inputs','configurations'],'all array dtypes, shapes and options',
 'A few calls only.',
 ['/wrappers/pyrichdem/richdem/__init__.py'],[('wrappers',"wrappers/pyrichdem/src/pywrapper.cpp")],['rdarray'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
