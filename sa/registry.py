"""Which contracts and rules decide which property."""
import gens as G


class Anchor(Exception):
    pass


ASSUMPTIONS = [
    'models of std, byteorder, itertools and encoding in sa/models.py are faithful',
    'sequences and files are shorter than 2^50 elements, and no loop runs 2^50 rounds',
    'allocation succeeds',
]


def c(name, gen=None, **k):
    return dict(name=name, gen=gen, **k)


NOTE = ('Sound static analysis over the type-checked program (MIR), for all inputs, when every item of the evidence is "proved"; an item listed as '
        '"undecided" was analysed without finding a violation but is not shown to hold. Trusts the models of library calls in sa/models.py, the reference '
        'definitions in spec/, and the bounds listed under assumptions. A violation is only reported with a valuation of the inputs under which the two '
        'summaries differ (or an obligation fails).')
NOPANIC = 'abstract interpretation of the MIR; every assert, overflow check, index, slice and unwrap reachable from the entry points is an obligation discharged from the path facts'
EQ = 'abstract interpretation of the MIR into outcome summaries (trace-partitioned term domain with loop summaries), compared with the summary of a reference definition'
EFF = 'effect analysis over the MIR: every store is resolved to the allocation it writes; none may reach through a shared reference or raw pointer of the input'

SHP = [c('shp_new', G.g_shp_new), c('shp_next', G.g_shp_next)]
DBF = [c('dbf_new', G.g_dbf_new, prove_s=20), c('dbf_next', G.g_dbf_next), c('dbf_field', G.g_dbf_field), c('dbf_string', G.g_dbf_string)]
AREA = [c('signed_area2', G.g_points), c('area2', G.g_points), c('winding', G.g_points), c('area_winding', G.g_points),
        c('ring_area2', G.g_ring), c('ring_winding', G.g_ring)]
RING = [c('ring_edges', G.g_ring), c('ring_points', G.g_ring)]
JOIN = [c('join_next', G.g_join_next), c('join_new', G.g_join_new, panics=False, cuts=['ShpReader::<R>::new', 'DbfReader::<R>::new']),
        c('join_open', G.g_join_open, panics=False, cuts=['shp::open', 'dbf::open'])]
ABOUT = [c('join_fields', G.g_join_reader1), c('join_field', G.g_join_reader)]
BOX = [c('join_box', G.g_join_reader1)]
OPEN = [c('open_ascii', G.g_open1, panics=False, cuts=['shapefile::open']), c('open_utf8', G.g_open1, panics=False, cuts=['shapefile::open']),
        c('open_1252', G.g_open1, panics=False, cuts=['shapefile::open'])]
SHPO = [c('shp_open', G.g_open1, panics=False, cuts=['ShpReader::<R>::new'])]
DBFO = [c('dbf_open', G.g_open, panics=False, cuts=['DbfReader::<R>::new'])]

NORM = [c('rotate_island', G.g_norm_island), c('rotate_edges', G.g_norm_edges), c('norm_winding', G.g_norm_edges), c('wind_edges', G.g_norm_wind),
        c('norm_ring_cmp', G.g_norm_rings2), c('into_ring', G.g_norm_ring), c('with_directed', G.g_directed),
        c('region_rings', G.g_region_rings, cuts=['NormEdge::<T>::with_directed_edge', 'join_related_edges', 'wind_edges', 'rotate_edges', 'join_adjacent_rings',
                                                  'NormRing::<T>::into_ring']),
        c('normalize', G.g_normalize, cuts=['normalize_region_rings', 'TopologyBuilder::<Data>::new', 'TopologyBuilder::<Data>::add_region',
                                            'TopologyBuilder::<Data>::into_topology'])]
NJOIN = [c('redundant', G.g_norm_edge), c('join_related', G.g_norm_edges, panics='search'),
         c('join_rings', G.g_join_rings, panics='search', cuts=['join_related_edges', 'rotate_edges'])]

BUILD = [c('build_edge', G.g_build_edge), c('build_ring', G.g_build_ring, cuts=['::build_directed_edge', 'Ring::area2', 'Ring::edges']),
         c('build_rings', G.g_build_rings, cuts=['::build_ring']), c('build_region', G.g_build_region, cuts=['::build_rings'])]
BUILT = [c('build_topology', G.g_build_topology, panics='search')]
BUILDER = 'clip::topology::Builder::<Data>::'
CLIP = [c('new_edge', G.g_new_edge), c('clip_first', G.g_clip_end), c('clip_last', G.g_clip_end),
        c('clip_ring', G.g_clip_ring, panics='search', cuts=['NewEdgeSet::build_directed_edge']), c('clip_rings', G.g_clip_rings, cuts=['::clip_ring']),
        c('clip_region', G.g_clip_region, cuts=['::clip_rings']), c('clip_new', G.g_clip_topology, cuts=['clip_edge']),
        c('clip_topology', G.g_clip_topology, cuts=[BUILDER + 'new', BUILDER + 'add_region', BUILDER + 'into_topology'])]
CLIPPED = [c('clip_result', G.g_clip_result, panics='search')]

SIMP = [c('simp_edge', G.g_simp, panics='search', tries=800, compare_s=0)]


def only(cs, **k):
    return [dict(x, **k) for x in cs]


CHECKS = {
    'C01': dict(specs=['shp.rs', 'dbf.rs', 'join.rs', 'regions.rs'], level='other', technique=NOPANIC,
                contracts=only(SHP + DBF + [c('join_next', G.g_join_next), c('regions', G.g_regions)], values=False)),
    'C02': dict(specs=['shp.rs', 'dbf.rs'], level='other', technique=EQ,
                contracts=only([c('shp_new_kind', G.g_shp_new), c('shp_next_kind', G.g_shp_next), c('dbf_new_kind', G.g_dbf_new, prove_s=20), c('dbf_next_kind', G.g_dbf_next)], panics=False)),
    'C03': dict(specs=['shp.rs', 'join.rs', 'dbf.rs', 'open.rs'], contracts=SHP + SHPO + BOX, level='other', technique=EQ),
    'C04': dict(specs=['dbf.rs', 'join.rs', 'open.rs'], contracts=DBF + DBFO + ABOUT + OPEN, level='other', technique=EQ),
    'C05': dict(specs=['join.rs', 'dbf.rs', 'open.rs'], contracts=JOIN + SHPO + DBFO + ABOUT + BOX + OPEN, level='other', technique=EQ),
    'C06': dict(specs=['shp.rs', 'dbf.rs'], level='other', technique=EQ,
                contracts=only([c('shp_progress', G.g_shp_next), c('dbf_progress', G.g_dbf_next)], panics=False)),
    'C07': dict(specs=['regions.rs', 'join.rs', 'dbf.rs'], level='other', technique=EQ, contracts=[c('quantize', G.g_quantize), c('regions', G.g_regions)]),
    'C08': dict(specs=['geo.rs'], contracts=AREA, level='other', technique=EQ),
    'C09': dict(specs=['clip.rs'], contracts=[c('mask_test', G.g_mask_test), c('mask_intersect', G.g_mask_intersect)], level='other', technique=EQ),
    'C10': dict(specs=['clip.rs'], contracts=[c('clip_edge', G.g_clip_edge)], level='other', technique=EQ),
    'C11': dict(specs=['cliptopo.rs'], contracts=CLIP + CLIPPED, level='other', technique=EQ),
    'C12': dict(specs=['topo.rs'], contracts=BUILD + BUILT, level='other', technique=EQ),
    'C13': dict(specs=['topo.rs', 'cliptopo.rs'], contracts=BUILT + CLIPPED, level='other', technique=EQ),
    'C14': dict(specs=['cliptopo.rs', 'norm.rs', 'topo.rs'], level='other', technique=EFF,
                contracts=only(CLIP + CLIPPED + NORM + NJOIN + BUILD + BUILT, effects=True, panics=True)),
    'C15': dict(specs=['simp.rs', 'simpmap.rs'], level='other', technique=EQ,
                contracts=[c('simplify', G.g_simplify, cuts=['simplify_edge']), c('simp_shape', G.g_simp_ties, panics='search', tries=150, compare_s=0, check=G.k_shape)]),
    'C16': dict(specs=['simp.rs'], contracts=[c('simp_area2', G.g_simp_area2)] + SIMP, level='other', technique=EQ),
    'C17': dict(specs=['norm.rs'], contracts=NORM, level='other', technique=EQ),
    'C18': dict(specs=['norm.rs'], contracts=NJOIN, level='other', technique=EQ),
    'C19': dict(specs=['geo.rs'], contracts=RING, level='other', technique=EQ),
}
