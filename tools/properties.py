import json
R='src/read/shapefile/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs=None,**k):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if obs: a['observe_at']=obs
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
p('C01','Reading a shapefile never panics, whatever its bytes',
 'Opening a .shp or .dbf stream, iterating over it (alone or joined) and converting its rings to integer geometry never panics: for every byte sequence, of any length, each call returns a value or an error. Reading a field of a record as text never panics either.',
 ['inputs','fault_sequences'],'all byte streams, all truncation points, all encodings the caller passes, all calls in a row',
 'The tests read three well-formed files and a few hand-made headers; a panic needs one specific malformed count, length or offset among all byte sequences.',
 [R+'shp.rs',R+'dbf.rs',R+'shapefile.rs',R+'geo.rs'],[('ShpReader::new / next',R+'shp.rs'),('DbfReader::new / next, DbfField::read_string',R+'dbf.rs'),('ShapefileReader::next',R+'shapefile.rs'),('ShapefileGeoIterator::next',R+'geo.rs')])
p('C02','A stream that ends early or fails is reported as an I/O error',
 'Whenever a .shp or .dbf stream ends, or fails, before the bytes a header or record announces have been read, the call returns an I/O error for that file; it never returns a record or header completed with other bytes, and a complete record is never reported as an I/O error. Malformed content in bytes that could be read is reported as a parse error.',
 ['fault_sequences','inputs'],'every stream and every point at which it can end or fail',
 'There is one test per error kind, at one truncation point; the rule must hold at every byte offset.',
 [R+'shp.rs',R+'dbf.rs'],[('read_exact results mapped to IOError',R+'shp.rs'),('read_exact results mapped to IOError',R+'dbf.rs')])
p('C03','.shp polygons are decoded exactly as the file lays them out',
 'A .shp stream is accepted if and only if its header is that of a version-1000 polygon file, and the announced size and bounding box are the ones in the header. Each record that is returned has the record number, number of rings, ring boundaries and coordinates that its bytes encode, in file order; a record whose announced counts, ring starts or length disagree with its bytes, or that overruns the announced file size, is an error.',
 ['inputs'],'all headers and all record contents (any number of rings and points)',
 'Tests decode single-ring and double-ring files with fixed numbers of points; offsets and count checks must be right for all counts.',
 [R+'shp.rs'],[('parse_shp_header',R+'shp.rs'),('polygon record parsing',R+'shp.rs')])
p('C04','.dbf records and fields are decoded exactly as the file lays them out',
 'The reader reports the record count, record length and fields (name, type, position and width, in order) that the .dbf header encodes, and each record consists of exactly the bytes of that record. Reading a field as text returns exactly the bytes of that field of that record: character fields without trailing spaces in the chosen encoding, numeric fields without leading spaces, integer fields in decimal; a field that is malformed, outside the record or of an unsupported type is a parse error. Looking a field up by name finds the first field with exactly that name, or none.',
 ['inputs'],'all headers, any number of fields of any width, all record bytes, all encodings',
 'Tests use one or two fields; offsets accumulate over fields and the text rules must hold for all contents.',
 [R+'dbf.rs'],[('read_dbf_header, read_dbf_fields, parse_dbf_field',R+'dbf.rs'),('DbfField::read_string',R+'dbf.rs'),('DbfReader::get_field',R+'dbf.rs')])
p('C05','Every shape is paired with the attributes of the same position',
 'The n-th item of a joined shapefile has the rings of the n-th .shp record and the bytes of the n-th .dbf record, for every n. If one file has fewer records than the other, the first unmatched position is reported as a join error and not as the end or as a record; an error of either file at a position is reported as that file\'s error, and iteration ends only when both files have ended.',
 ['inputs','histories'],'all pairs of files, every position, every mix of records, errors and ends',
 'Tests join files with equal record counts; the pairing has to hold for every count and every order of errors.',
 [R+'shapefile.rs'],[('ShapefileReader::next advances both readers once',R+'shapefile.rs')])
p('C06','Iterating over a shapefile ends, and does not resume after an error',
 'Iterating over a .shp stream returns at most as many records as fit in the announced size and then None; once it has returned an error it returns None for ever. Iterating over a .dbf stream returns exactly as many items as the header announces, and each call consumes one record.',
 ['inputs','histories'],'all streams, any number of next() calls',
 'A loop that never ends, or resumes in the middle of garbage, only shows on malformed files and on calls after the error.',
 [R+'shp.rs',R+'dbf.rs'],[('n_bytes_already_read',R+'shp.rs'),('n_records_already_iterated',R+'dbf.rs')])
p('C07','Geometry keeps every ring and point, scaled to the bounding box',
 'Converting a joined shapefile to regions yields one region per record with that record\'s attributes, and errors unchanged. Each ring becomes exactly one ring with the same number of points in the same order: an outer ring if clockwise (top-left origin, zero area included), an inner ring otherwise, in file order; each coordinate is its position in the bounding box, scaled so that the box spans 0 to 2^32-1 with the largest y at 0, rounded down.',
 ['inputs'],'all records, any number of rings and points, all bounding boxes',
 'There is no test of this conversion at all; orientation and scaling must hold for all boxes and rings.',
 [R+'geo.rs'],[('ShapefileQuantizer::quantize',R+'geo.rs'),('partition by winding order',R+'geo.rs')])
p('C08','Areas and winding orders are exact for all 32-bit coordinates',
 'The doubled area of a closed ring is the absolute value of its shoelace sum, and its winding order is clockwise if and only if the sum is not negative, for all 32-bit coordinates and any number of points, in both representations of a ring (points or edges). Where the result type cannot hold the value it saturates; no intermediate step overflows.',
 ['inputs'],'all points with any 32-bit coordinates, any number of points and edges',
 'Tests use small coordinates; overflow and sign errors show only near the limits or for long rings.',
 ['src/geo/mod.rs'],[('exact_signed_area2',"src/geo/mod.rs"),('Ring::area2_and_winding_order','src/geo/mod.rs')])
p('C09','A clip mask classifies every point and crosses every segment exactly',
 'For each of the four masks and every point, the point is inside, on the edge or outside according to its coordinate on the mask\'s axis. For every segment with one end strictly inside and the other strictly outside, the crossing point lies on the mask line, and its other coordinate is the exact crossing rounded towards the first point, for all 32-bit coordinates.',
 ['inputs'],'all masks, points and crossing segments with 32-bit coordinates',
 'Tests use coordinates below 20; overflow and rounding errors need long segments.',
 ['src/clip/types.rs'],[('ClipMask::test','src/clip/types.rs'),('ClipMask::intersect','src/clip/types.rs')])
p('C10','Clipping a path keeps exactly the part on the mask\'s side',
 'The clipped path contains, in order, every inside point, the crossing point of every segment that goes in or out, and a point on the mask line exactly where the path continues into the inside from it or arrives at it from the inside, once. It contains nothing else: no outside point, and nothing of a path that never enters the inside.',
 ['inputs'],'all paths of any length, all masks',
 'Tests clip about ten short paths; in/out/on-edge sequences are unbounded.',
 ['src/clip/edge.rs'],[('clip_edge','src/clip/edge.rs')])
p('C11','Clipping a topology keeps rings closed and drops what vanishes',
 'In a clipped topology each ring is a closed chain: it consists of what remains of the original ring\'s edges in order and direction, with a straight edge along the mask wherever the end of one does not meet the start of the next, and from the last back to the first. Two rings that need the same straight edge share it. A ring that would have zero area is dropped, a region without outer rings is dropped, and the other regions keep their data, rings and order.',
 ['inputs'],'all topologies and masks, any number of regions, rings and edges',
 'Tests clip four topologies of one or two small regions; gaps at the start, in the middle and at the end, and shared gaps, combine without bound.',
 ['src/clip/topology.rs'],[('Builder::clip_ring','src/clip/topology.rs'),('NewEdgeSet::build_directed_edge','src/clip/topology.rs'),('Builder::add_region','src/clip/topology.rs')])
p('C12','A topology has one edge per path, whichever way rings use it',
 'Building a topology from regions keeps every region that has an outer ring of non-zero area, in order and with its data, and each of its rings of non-zero area, in order; walking a ring\'s directed edges gives the ring\'s own points. Two edges of the input with the same points, in the same or opposite order, become one edge of the topology (a closed edge that encloses no area has no opposite: it is shared only in the same order), different paths become different ones, and each edge runs from its smaller end point to its larger one (clockwise if it is closed).',
 ['inputs','histories'],'all sequences of added regions, any number of rings, edges and points',
 'Tests build at most two regions; identity of edges is a relation between all pairs of edges ever added.',
 ['src/topology/build.rs'],[('TopologyBuilder::build_directed_edge','src/topology/build.rs'),('TopologyBuilder::into_topology','src/topology/build.rs')])
p('C13','Links between edges, rings and regions are valid and consistent',
 'In every topology that is built or clipped, each ring refers to the region that holds it, each directed edge to an edge of the same topology, and each edge to exactly the rings that use it (none, one or two). The links stay valid for as long as the topology exists, also when it is moved.',
 ['inputs','histories'],'all topologies, from building and from clipping, before and after being moved',
 'A link to memory that has been moved or freed usually still reads the right bytes in a test.',
 ['src/topology/build.rs','src/clip/topology.rs','src/topology/types.rs'],[('into_topology: pointers are taken once the boxes are final','src/topology/build.rs'),('Builder::into_topology','src/clip/topology.rs')])
p('C14','Clipping and normalizing leave their input topology unchanged',
 'Clipping or normalizing a topology does not change the input topology: its regions, data, rings, edges, points and links are the same afterwards as before.',
 ['inputs'],'all topologies and masks',
 'The input is passed by shared reference but contains raw pointers, through which the code could write; tests do not compare the input afterwards.',
 ['src/clip/topology.rs','src/normalize.rs'],[('casts from *const to *mut','src/clip/topology.rs'),('casts from *const to *mut','src/topology/build.rs')])
p('C15','Simplifying changes only the points between the ends of edges',
 'Simplifying a topology keeps every region, ring, directed edge and link and the number and order of edges. Each simplified edge is a subsequence of the original points that keeps the first and the last; a closed edge of four or more points keeps at least four points, and an edge of two points, or a closed one of fewer than four, is unchanged.',
 ['inputs'],'all topologies, edges of any length, all thresholds',
 'Tests simplify about ten edges; the guarantees must hold for every order in which points can be eliminated.',
 ['src/simplify/mod.rs','src/simplify/simplify_edge.rs'],[('simplify','src/simplify/mod.rs'),('visvalingam_whyatt: final filter','src/simplify/simplify_edge.rs')])
p('C16','Simplification removes points in order of the area they span',
 'Points are eliminated one at a time, always one of smallest weight among those left, where an inner point\'s weight is the doubled area of the triangle it forms with its current neighbours (never less than that of the point eliminated before it), exactly, for all 32-bit coordinates. A point is left out if and only if its weight on elimination is at most the threshold, unless a closed edge would be left with fewer than four points: then its two inner points of greatest weight stay.',
 ['inputs','histories'],'all edges, all elimination orders, all thresholds',
 'The priority queue and linked list are raw pointers kept consistent across any number of removals; tests go through fewer than ten.',
 ['src/simplify/simplify_edge.rs'],[('area2','src/simplify/simplify_edge.rs'),('PointHeap: heap, heap_index and linked list','src/simplify/simplify_edge.rs'),('visvalingam_whyatt','src/simplify/simplify_edge.rs')])
p('C17','Normalized rings start at their smallest node and wind one way',
 'For regions whose rings share no edges, a normalized topology keeps every region and its data in order, and each of its rings with the same cyclic sequence of points: outer rings clockwise and inner rings counter-clockwise, starting at the leftmost (then topmost) node, or point for a ring that is a single closed edge. Rings are sorted by their first point.',
 ['inputs'],'all topologies without rings of one region sharing edges',
 'Tests normalize rings of at most six edges; rotation and reversal must be right for every start and length.',
 ['src/normalize.rs'],[('rotate_edges, rotate_island_edge','src/normalize.rs'),('wind_edges','src/normalize.rs'),('normalize_region_rings','src/normalize.rs')])
p('C18','Normalizing joins consecutive edges between the same two regions',
 'In a ring being normalized, consecutive edges that separate the same regions (in the ring\'s cyclic order) are joined into one edge with the same points in the same order, and other edges are left as they are; no point is lost or repeated. An edge between two rings of the same region is removed, and a ring of only such edges disappears.',
 ['inputs'],'all rings with any number of edges',
 'Tests join two or three edges; the wrap-around case interacts with every run length.',
 ['src/normalize.rs'],[('join_related_edges','src/normalize.rs'),('join_adjacent_rings','src/normalize.rs')])
p('C19','A ring has the same points and edges in both representations',
 'The edges of a ring given as points are its consecutive pairs of points, in order; the points of a ring given as edges are the edges\' points in order, with a point where one edge ends and the next starts given once. Asking a ring for the representation it already has returns an equal copy.',
 ['inputs'],'all rings of any number of points and edges',
 'The module\'s own tests are never compiled (their cfg is misspelt), and joints between edges combine without bound.',
 ['src/geo/mod.rs'],[('Ring::points','src/geo/mod.rs'),('Ring::edges','src/geo/mod.rs')])
p('C20','Operations take time linear in the size of their input',
 'With inconsequential exceptions, reading, building, clipping and simplifying scale linearly with the size of the input, as the README promises.',
 ['inputs'],'all input sizes','Tests do not measure time.',
 ['README.md'],[('claim','README.md')])
p('C21','Simplification never makes lines cross',
 'Simplifying a topology does not introduce crossings or overlaps between edges that did not cross before.',
 ['inputs'],'all topologies and thresholds','Crossings depend on the geometry of all edges together.',
 ['src/simplify/simplify_edge.rs'],[('visvalingam_whyatt','src/simplify/simplify_edge.rs')])
p('C22','Normalizing twice gives the same result as normalizing once',
 'Normalizing an already normalized topology returns an equal topology, and equivalent topologies have equal normalized forms.',
 ['inputs'],'all topologies','A relation between two runs over unbounded inputs.',
 ['src/normalize.rs'],[('normalize','src/normalize.rs')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    try: jsonschema.validate(x,sch)
    except Exception as e: print(x['id'],str(e)[:300])
