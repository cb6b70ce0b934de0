#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import checks

S, Q, A, C, P = ('libsrc/cencalvm/storage/', 'libsrc/cencalvm/query/', 'libsrc/cencalvm/average/', 'libsrc/cencalvm/create/', 'applications/')
PROPS = []


def prop(i, title, statement, over, text, why, files, mech, na=None, note=None):
    assert len(title) <= 80, title
    for f in files: assert os.path.exists('/repo/' + f), f
    PROPS.append(dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _na=na, _note=note))


prop('C01', 'A maximum-resolution query returns the leaf octant that contains the point',
     'With the maximum-resolution query type, a location covered by a stored leaf octant gets exactly that octant\'s values (every property, unmodified) with no warning. '
     'A location outside the geometry\'s domain, not covered by any octant, or covered only by an averaged (interior) octant gets the no-data values.',
     ['inputs'], 'every location, every octree database content (up to 31 levels) and every payload',
     'the stable tests never run a query; VMQuery tests need etree and a single fixed database',
     [Q + 'VMQuery.cc'], [('maximum-resolution search', 'VMQuery::_queryMax'), ('no-data values', 'VMQuery::_setNoData')])
prop('C02', 'A fixed-resolution query never returns data coarser than asked for by averaging',
     'With the fixed-resolution query type the octant searched for has the level that corresponds to the requested resolution (allowing for vertical exaggeration); a leaf found on the way, or an interior octant of exactly that level, supplies the values unmodified. '
     'An averaged (interior) octant coarser than the requested level, a location outside the domain or an uncovered location gives the no-data values.',
     ['inputs'], 'every location, resolution, octree content and payload',
     'no stable test runs a query; resolution/level boundaries need all levels',
     [Q + 'VMQuery.cc'], [('fixed-resolution search', 'VMQuery::_queryFixed'), ('resolution to level', 'Geometry::level')])
prop('C03', 'A wavelength query returns the mean of the two octants bracketing the wavelength',
     'With the wavelength-resolution query type the query climbs from the deepest octant at the point until an octant\'s edge length divided by its shear-wave speed is no longer below the (vertically exaggerated) minimum period; Vp, Vs, density, Qp, Qs and depth are the mean of that octant and the child below it, fault block and zone are the coarser octant\'s. '
     'An averaged octant that is already too coarse gives no data; if an ancestor octant is missing, the values of the last octant found are returned with a warning; octants with non-positive shear-wave speed are not coarsened further.',
     ['inputs'], 'every chain of stored octants, payload and minimum period within the stated number of levels',
     'needs databases with particular chains of averaged octants, including damaged ones; no stable test runs a query',
     [Q + 'VMQuery.cc', S + 'Geometry.cc'], [('climb to the bracketing octants', 'VMQuery::_queryWave'), ('ancestor address', 'Geometry::findAncestor')])
prop('C04', 'The detailed model takes precedence and lack of data is always reported',
     'The regional (extended) database supplies a query\'s values only when the detailed one has no data for the location; when neither has data, the query returns -999 for every real value and 0 for fault block and zone, sets a WARNING naming the location and, if a log file was given, logs the location. '
     'A query that finds data sets no warning, and the values returned do not depend on which queries were made before.',
     ['inputs', 'histories'], 'every pair of databases, location and query type, with a preceding query of any other location',
     'no stable test runs a query, let alone one against two databases or after another one',
     [Q + 'VMQuery.cc', S + 'ErrorHandler.cc'], [('query both models', 'VMQuery::query')])
prop('C05', 'Query results are exactly the requested quantities in the requested order',
     'Entry i of a query\'s result is the quantity with the i-th requested name (case-insensitive; Vp, Vs, Density, Qp, Qs, DepthFreeSurf, FaultBlock, Zone, elevation), for any selection, order and repetition; by default all nine are returned in that order. '
     'An unknown name sets an ERROR that names it, every query then reports an ERROR too, and nothing is written beyond the requested number of values.',
     ['inputs', 'configurations'], 'every list of names up to the stated length (any case, repeated or unknown names), also set a second time',
     'a test picks a few name lists; no stable test runs VMQuery',
     [Q + 'VMQuery.cc'], [('name to index', 'VMQuery::queryVals'), ('copy of values', 'VMQuery::query')])
prop('C06', 'Squashing makes elevations relative to the ground surface, above the limit only',
     'With squashing on, a query at an elevation above the squashing limit returns the values found at that elevation plus the elevation of the ground surface there (lowered by one octant where the octant at the computed surface has no data); at or below the limit, with squashing off, or where the ground surface is unknown (-999 m), the elevation given is used unchanged.',
     ['inputs', 'configurations'], 'every location, limit, flag and database content',
     'no stable test runs a query',
     [Q + 'VMQuery.cc', Q + 'VMQuery.icc'], [('squashed elevation', 'VMQuery::query'), ('ground surface', 'VMQuery::_queryElev')])
prop('C07', 'The ground-surface elevation comes from the leaf octant at the query point',
     'The elevation returned by a query is the centroid elevation plus depth-below-surface of the leaf octant that contains the point, taken from the detailed database if it has a leaf there and from the regional one otherwise; it is -999 when neither has one. '
     'When squashing, if the octant at the surface so computed has no data, the surface is lowered by one edge length of the octant found.',
     ['inputs'], 'every location, database content and octant geometry',
     'no stable test runs a query',
     [Q + 'VMQuery.cc'], [('ground surface', 'VMQuery::_queryElev')])
prop('C08', 'Databases are opened once, used only while open, and always closed',
     'Whatever sequence of configuration, open, query, close and destruction calls is made, each named database is opened at most once at a time, read-only and with its own cache size; every database that was opened is closed exactly once, also when the object is destroyed while open, and no memory is used after it is freed. '
     'A failure to open or close sets an ERROR that names the database file in question.',
     ['histories', 'fault_sequences'], 'every history of up to the stated number of calls with any open or close failing',
     'tests run one fixed sequence and no failure of the database library',
     [Q + 'VMQuery.cc'], [('open/close', 'VMQuery::open, VMQuery::close'), ('destructor', 'VMQuery::~VMQuery')])
prop('C09', 'Every C interface call reports the true status and rejects a null handle',
     'Each function of the C interface has the effect of the corresponding query operation with the same arguments and returns the resulting status of the error handler; with a null handle it touches nothing, prints a message and returns ERROR (or a null pointer). '
     'The functions of the error-handler C interface likewise return the status, message and level of the underlying handler.',
     ['inputs', 'histories'], 'every call of the interface with every argument and status, null handles included',
     'only constructor and simple calls are tested; the query interface is not compiled into the stable tests',
     [Q + 'cvmquery.cc', Q + 'cvmerror.cc'], [('wrappers', 'cencalvm_*, cencalvm_error_*')])
prop('C10', 'A failing query reports ERROR and returns no-data, never leaking an exception',
     'If projecting the location or any other step of a query fails, the failure never escapes as an exception: the query status is ERROR with the cause as message, and the values returned are the no-data values, never stale or indeterminate memory. '
     'A later query of a good location works normally.',
     ['inputs', 'fault_sequences'], 'every failure point during a query, for every query type, selection and databases',
     'no test injects projection failures into a query',
     [Q + 'VMQuery.cc', S + 'Projector.cc'], [('exception barrier', 'VMQuery::query')])
prop('C11', 'A location is mapped to the octant that contains it, or reported outside',
     'For every location and level the octant address computed is that of the unique octant of that level which contains the location\'s point in the rotated projected frame (ticks are multiples of the octant\'s size and within the root octant). '
     'A location outside the root octant, on its open upper boundary, or with non-finite projected coordinates is reported as outside and never yields an address inside.',
     ['inputs'], 'every longitude, latitude, elevation, projected coordinate and level 0..31',
     'GeomCenCA tests are not run here and sample a few points',
     [S + 'GeomCenCA.cc'], [('address from location', 'GeomCenCA::lonLatElevToAddr')])
prop('C12', 'The centroid reported for an octant lies inside that octant',
     'For every octant the location reported is its centre: mapping it back at the same level gives the same octant, up to the accuracy of the map projection.',
     ['inputs'], 'every octant address of level 0..31 whose ticks are aligned',
     'tests sample a handful of addresses',
     [S + 'GeomCenCA.cc'], [('location from address', 'GeomCenCA::addrToLonLatElev')])
prop('C13', 'The ancestor of an octant is the one octant of that level that contains it',
     'For every octant and every coarser level, the ancestor found has that level, has ticks aligned to that level, contains the octant, and is an interior octant.',
     ['inputs'], 'every octant address and every coarser level',
     'tests sample a few addresses',
     [S + 'Geometry.cc'], [('ancestor', 'Geometry::findAncestor')])
prop('C14', 'Level and edge length are consistent inverses',
     'The edge length halves with every level from the root\'s 1638.4 km; the level chosen for a resolution is the nearest level (in log scale) and asking for exactly a level\'s edge length gives that level.',
     ['inputs'], 'every level 0..31 and every resolution within a factor of the stated rounding margin',
     'tests sample one or two values',
     [S + 'GeomCenCA.icc', S + 'GeomCenCA.h'], [('level/edge length', 'GeomCenCA::level, GeomCenCA::edgeLen')])
prop('C15', 'Projection and inverse projection pass through exactly and fail loudly',
     'A projection returns exactly the coordinates the map projection gives for the longitude and latitude in degrees (and the inverse likewise); if the map projection reports an error an exception with its description is thrown and no result is used. '
     'A failure for one location does not affect later locations, and the projection resources are released.',
     ['inputs', 'histories', 'fault_sequences'], 'every coordinate and every sequence of successes and failures of the projection library',
     'three tests use fixed valid points; none makes the projection fail',
     [S + 'Projector.cc'], [('projection', 'Projector::project, Projector::invProject')])
prop('C16', 'The error handler reports the latest status and message and logs every entry',
     'After any history of errors, warnings, resets and log calls the status is that of the most recent of them (OK after a reset) and the message is its message. '
     'A log file holds, in order, exactly the text logged while it was the named file and logging was on; naming a file starts it empty, turning logging off and on again appends.',
     ['histories', 'inputs'], 'every history of up to the stated number of operations and every message text',
     'nine tests each exercise one call',
     [S + 'ErrorHandler.cc', Q + 'cvmerror.cc'], [('status and log', 'ErrorHandler')])
prop('C17', 'Averaging keeps every leaf and creates every ancestor octant exactly once',
     'Given any database of leaf octants in storage order, the averaged database holds every leaf unchanged (also a sole leaf that is the root itself) and every ancestor of a leaf exactly once, as an interior octant with aligned address. '
     'Octants are appended in the ascending storage order that the bulk-load interface needs (an ancestor before the octants below it), every interior octant is later given its averaged payload, and nothing else is written.',
     ['inputs'], 'every set of leaf octants within the stated number of levels and octants',
     'AvgEngine tests need etree, and use one small tree',
     [A + 'AvgEngine.cc'], [('averaging loop', 'AvgEngine::average'), ('pending ancestors', 'AvgEngine::_createOctant')])
prop('C18', 'An averaged octant holds the mean of the solid (else water) children below it',
     'Each interior octant\'s values are the arithmetic means of its direct children\'s values, counting only children with solid material (Vs > 0) when there is any, and otherwise only children with water (Vp > 0); children without data do not contribute, and with no contributing child every value is the no-data value. '
     'Fault block and zone of an interior octant are not applicable (-999).',
     ['inputs'], 'every payload of every child combination',
     'tests use one fixed set of payloads',
     [A + 'AvgEngine.cc'], [('accumulation', 'AvgEngine::_averageOctant')])
prop('C19', 'Averaging checks its inputs and outputs and never leaves handles open',
     'The averager opens its input read-only and refuses one that is missing or has another payload size or schema (or none) with an exception naming the file, before touching an existing output. Otherwise it creates the output afresh, with the schema and the metadata of the input, and its summary gives the numbers of octants read and written. '
     'Every failure of the database library, also on closing, is reported as an exception; both databases are closed on success and nothing stays open once the averager is gone; quiet means no output; the input is never changed.',
     ['fault_sequences', 'configurations'], 'every failure point of the database library and every configuration',
     'no test makes the library fail',
     [A + 'Averager.cc'], [('orchestration', 'Averager::average')])
prop('C20', 'Ingesting a grid inserts every data point once, at its address, with its values',
     'For each line of a grid file that has a fault block and a zone (non-zero), one leaf octant is inserted, at the address of the line\'s longitude, latitude and elevation (km to m) at the level of the grid\'s resolution, with the values of that line converted to SI units (Vp, Vs, density, depth times 1000; -999 kept; Qp, Qs, fault block, zone unchanged); the other lines are skipped and counted. '
     'An unusable or truncated header, a resolution that is no level or has another vertical exaggeration, a missing, incomplete or malformed line and a location outside the domain are errors, never silently stored as wrong data.',
     ['inputs'], 'every grid file within the stated number of points, columns and header choices',
     'tests use one grid file and need etree',
     [C + 'GridIngester.cc', C + 'VMCreator.cc'], [('parse and insert', 'GridIngester::_processData, VMCreator::insert')])
prop('C21', 'Packing copies every octant of the database unchanged and in order',
     'The packed database holds the same octants, payloads and metadata as the input, appended in storage order within one append transaction, with the schema registered; a new database is empty and has schema and description. Any failure of the database library when creating, closing or packing is reported as an exception and nothing is lost silently; the unpacked database is not changed.',
     ['inputs', 'fault_sequences'], 'every database content of up to the stated number of octants and every library failure point',
     'tests use one small database and need etree',
     [C + 'VMCreator.cc'], [('pack', 'VMCreator::packDB')])
prop('C22', 'A multi-file ingest processes every listed grid file and reports any failure',
     'Running an ingest from a parameter file opens the database once, registers schema and description, processes every listed grid file exactly once in order (whatever white space separates the names and whether or not a newline ends the last), closes the database and packs it; a missing parameter or grid file is an error naming it, a bad grid or a failure of the database library is an error and nothing is packed.',
     ['inputs', 'configurations'], 'every parameter file of up to the stated number of entries',
     'tests use one parameter file and need etree',
     [C + 'GridIngester.cc'], [('parameter file', 'GridIngester::read, GridIngester::run')])
prop('C23', 'The query tool writes one line per input location, in order, with its values',
     'cencalvmquery writes, for each location of the input file in order (whether or not a newline ends the last), one line with the location (5, 5 and 1 decimals) and the nine values that the query of that location gives (1 decimal; fault block and zone as integers). The options select databases, cache size, type of query, resolution, squashing limit and log as documented, in any order and whatever the case of the query type; warnings are shown and do not stop it. '
     'A missing required option, surplus or unknown argument, unknown query type, missing or non-positive resolution for a fixed or wavelength query, unreadable input, unwritable output, and any error of opening, querying or closing end with a message and non-zero status.',
     ['inputs', 'configurations'], 'every command line and input file within the stated sizes',
     'no stable test runs the tools',
     [P + 'query/cencalvmquery.cc'], [('main loop', 'main')])
prop('C24', 'The isosurface tool finds the depth at which Vs reaches the target',
     'For every location of the input, in order, cencalvmisosurface writes the depth below the ground surface (corrected for the stair steps of the grid) at which Vs reaches the target: for a column in which Vs does not decrease with depth, Vs at that depth reaches the target and is below it 25 m higher; the depth is 0 when the target is reached at the ground, and -999 only when the model has no data at the lower limit; with squashing on, all elevations of the search are relative to the ground. '
     'A target that the column never reaches, a wrong command line, an unreadable or unwritable file and an error of the query library end with a message and non-zero status; the options select databases, cache size and squashing as documented.',
     ['inputs'], 'every profile of the queried quantity along the column within the stated number of steps',
     'no stable test runs the tool',
     [P + 'query/cencalvmisosurface.cc'], [('search', 'main')])
prop('C25', 'The database tools pass their options on and report failure by exit status',
     'cencalvmgen, cencalvmavg, cencalvmpack and cencalvminfo pass each option (input, output, scratch file, cache size, in any order) to the operation it names, and the operation\'s result is in the file named: the packed copy, the averaged database, the ingested grid, or the metadata, schema and octant count on standard output. '
     'Missing required options, surplus and unknown arguments show the usage, fail and touch no database; an operation that fails at any call of the database library ends the tool with a message and non-zero status.',
     ['configurations', 'fault_sequences'], 'every command line of up to the stated number of options and every failure of the operation',
     'no stable test runs the tools',
     [P + 'create/cencalvmgen.cc', P + 'average/cencalvmavg.cc', P + 'create/cencalvmpack.cc', P + 'query/cencalvminfo.cc'], [('option parsing', 'parseArgs')])

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    man = dict(version=1, setup_cmd='python3-vt -m py_compile engine/driver.py engine/sx.py engine/rt.py engine/models.py engine/llir.py engine/realarith.py',
               checks=[], not_applicable=[])
    for p in PROPS:
        i = p['id']
        sp = checks.CHECKS.get(i)
        if sp and not sp.get('draft'):
            man['checks'].append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='python3-vt check.py %s --thorough' % i,
                                      technique=sp.get('technique', 'symbolic execution of the clang LLVM IR of the real code, decided by Z3 (bit-vectors, floating point); counterexamples replayed natively'),
                                      level=sp.get('level', 'model_checking'), level_note=sp.get('bounds', '') or 'bounds: see DESIGN.md and the evidence file'))
        else:
            man['not_applicable'].append(dict(property=i, reason=p['_na'] or 'no check built yet'))
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
