S = 'libsrc/cencalvm/storage/'
Q = 'libsrc/cencalvm/query/'
A = 'libsrc/cencalvm/average/'
C = 'libsrc/cencalvm/create/'
VMQ = [Q + 'VMQuery.cc', S + 'ErrorHandler.cc', S + 'Payload.cc', S + 'Geometry.cc', S + 'GeomCenCA.cc', S + 'Projector.cc']
GEO = [S + 'Geometry.cc', S + 'GeomCenCA.cc', S + 'Projector.cc']
AVG = [A + 'AvgEngine.cc', S + 'Geometry.cc', S + 'Payload.cc']
CRE = [C + 'VMCreator.cc', S + 'Geometry.cc', S + 'Payload.cc']
ING = [C + 'VMCreator.cc', C + 'GridIngester.cc', S + 'Payload.cc'] + GEO

CHECKS = {
    'C01': dict(harness='C01_maxres.cc', repo=VMQ),
    'C02': dict(harness='C02_fixedres.cc', repo=VMQ),
    'C03': dict(harness='C03_waveres.cc', repo=VMQ),
    'C04': dict(harness='C04_precedence.cc', repo=VMQ),
    'C05': dict(harness='C05_values.cc', repo=VMQ),
    'C06': dict(harness='C06_squash.cc', repo=VMQ),
    'C07': dict(harness='C07_elevation.cc', repo=VMQ),
    'C08': dict(harness='C08_lifecycle.cc', repo=VMQ),
    'C09': dict(harness='C09_capi.cc', repo=VMQ + [Q + 'cvmquery.cc', Q + 'cvmerror.cc']),
    'C10': dict(harness='C10_faults.cc', repo=VMQ),
    'C11': dict(harness='C11_address.cc', repo=GEO),
    'C12': dict(harness='C12_centroid.cc', repo=GEO),
    'C13': dict(harness='C13_ancestor.cc', repo=[S + 'Geometry.cc']),
    'C14': dict(harness='C14_level.cc', repo=GEO),
    'C15': dict(harness='C15_projector.cc', repo=[S + 'Projector.cc']),
    'C16': dict(harness='C16_errorhandler.cc', repo=[S + 'ErrorHandler.cc', Q + 'cvmerror.cc'],
                bounds='call histories of up to 4 (thorough 5) operations over 8 kinds; message texts of any 3 characters',
                assumptions=['the C++ file stream model (open/append/truncate/close) stands for libstdc++; the replayed paths use the real one']),
    'C17': dict(harness='C17_avgtree.cc', repo=AVG),
    'C18': dict(harness='C18_avgvalue.cc', repo=AVG),
    'C19': dict(harness='C19_averager.cc', repo=AVG + [A + 'Averager.cc']),
    'C20': dict(harness='C20_ingest.cc', repo=ING),
    'C21': dict(harness='C21_pack.cc', repo=CRE),
    'C22': dict(harness='C22_params.cc', repo=ING),
    'C23': dict(harness='C23_query.cc', repo=['applications/query/cencalvmquery.cc', S + 'ErrorHandler.cc'], defs=['main=app_main']),
    'C24': dict(harness='C24_isosurface.cc', repo=['applications/query/cencalvmisosurface.cc', S + 'ErrorHandler.cc'], defs=['main=app_main']),
    'C25': dict(harness='C25_tools.cc', repo=ING + AVG[:1] + [A + 'Averager.cc', ('applications/create/cencalvmgen.cc', [], 'gen_main'),
                                                          ('applications/create/cencalvmpack.cc', [], 'pack_main'),
                                                          ('applications/average/cencalvmavg.cc', [], 'avg_main'),
                                                          ('applications/query/cencalvminfo.cc', [], 'info_main')]),
}
