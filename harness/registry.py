"""
What each property's check consists of.

models   - bounded design models, (module, cfg) for the quick and the thorough
           tier: TLC proves the property on the specification itself.
sources  - where the scenarios come from: (driver, trace specification, list
           of makers). A maker is ('random', function, quick n, thorough n),
           ('simulate', module, cfg, n, depth, concretiser, quick n, thorough n),
           ('enumerate', module, cfg, concretiser, quick n, thorough n),
           ('corpus', function) - fixed corner cases,
           ('big', function, sizes, n, n) - few, with many particles, frames etc.
"""
import importlib

CHECKS = {}

def check(pid, **kw):
    CHECKS[pid] = dict(kw, pid=pid)

def gen(name):
    mod, fn = name.split('.')
    return getattr(importlib.import_module('gen_' + mod), fn)

SIZES = [(110, 8), (3, 140), (40, 40), (260, 4), (2, 300), (70, 20)]

STORE_SIM = ('simulate', 'MCStore', 'MCStore_gen', 17, 'store.concrete')

check('C01',
    models=dict(quick=[('MCStore', 'MCStore_save')],
                thorough=[('MCStore', 'MCStore_save_big')]),
    sources=[('store', 'TraceStore', [
        ('random', 'store.c01', 260, 6000),
        ('big', 'store.c01', SIZES, 4, 48)])])
check('C02',
    models=dict(quick=[('MCStore', 'MCStore_save')],
                thorough=[('MCStore', 'MCStore_save_big')]),
    sources=[('store', 'TraceStore', [
        ('random', 'store.c02', 220, 5000),
        ('big', 'store.c02', SIZES, 4, 48)])])
check('C03',
    models=dict(quick=[('MCStore', 'MCStore_quick')],
                thorough=[('MCStore', 'MCStore_big')]),
    sources=[('store', 'TraceStore', [
        ('random', 'store.c03', 220, 5000),
        ('big', 'store.c03', SIZES, 4, 48),
        STORE_SIM + (120, 3000)])])
check('C04',
    models=dict(quick=[('MCStore', 'MCStore_quick')],
                thorough=[('MCStore', 'MCStore_big')]),
    sources=[('store', 'TraceStore', [
        ('random', 'store.c04', 260, 6000),
        ('big', 'store.c04', SIZES, 4, 48),
        STORE_SIM + (60, 2000)])])
check('C05',
    models=dict(quick=[('MCStore', 'MCStore_sel')],
                thorough=[('MCStore', 'MCStore_sel_big')]),
    sources=[('store', 'TraceStore', [
        ('random', 'store.c05', 300, 8000),
        ('big', 'store.c05', SIZES, 4, 48),
        STORE_SIM + (60, 2000)])])

LINK_SIM = ('simulate', 'MCLinker', 'MCLinker_gen', 8)
check('C09',
    models=dict(quick=[('MCLinker', 'MCLinker_quick')],
                thorough=[('MCLinker', 'MCLinker_big')]),
    sources=[('linker', 'TraceLinker', [
        ('corpus', 'linker.real9'),
        ('random', 'linker.c09', 500, 12000),
        ('big', 'linker.c09', SIZES, 8, 48),
        LINK_SIM + ('linker.conc9', 300, 8000)])])
check('C10',
    models=dict(quick=[('MCLinker', 'MCLinker_quick')],
                thorough=[('MCLinker', 'MCLinker_big')]),
    sources=[('linker', 'TraceLinker', [
        ('corpus', 'linker.real10'),
        ('random', 'linker.c10', 500, 12000),
        ('big', 'linker.c10', SIZES, 8, 48),
        LINK_SIM + ('linker.conc10', 300, 8000)])])

check('C06',
    models=dict(quick=[('MCDual', 'MCDual_quick')],
                thorough=[('MCDual', 'MCDual_big')]),
    sources=[('dual', 'TraceDual', [
        ('random', 'dual.c06', 300, 8000),
        ('big', 'dual.c06', SIZES, 4, 48),
        ('simulate', 'MCDual', 'MCDual_gen', 24, 'dual.concrete', 150, 4000)])])
check('C07',
    models=dict(quick=[('MCAnalysis', 'MCAnalysis_quick')],
                thorough=[('MCAnalysis', 'MCAnalysis_big')]),
    sources=[('analysis', 'TraceAnalysis', [
        ('corpus', 'analysis.script'),
        ('random', 'analysis.c07', 350, 8000),
        ('big', 'analysis.c07', SIZES, 4, 48)])])
check('C08',
    models=dict(quick=[('MCAnalysis', 'MCAnalysis_quick')],
                thorough=[('MCAnalysis', 'MCAnalysis_big')]),
    sources=[('analysis', 'TraceAnalysis', [
        ('random', 'analysis.c08', 350, 8000),
        ('big', 'analysis.c08', SIZES, 4, 48)])])

FORMATS = dict(quick=[('MCFormats', 'MCFormats_quick')],
               thorough=[('MCFormats', 'MCFormats_big')])
check('C11', models=FORMATS,
    sources=[('formats', 'TraceFormats', [
        ('random', 'formats.c11', 350, 8000),
        ('big', 'formats.c11', SIZES, 4, 48)]),
        ('linker', 'TraceLinker', [
        ('random', 'formats.lk11', 200, 4000),
        ('big', 'formats.lk11', SIZES, 4, 48)])])
check('C12', models=FORMATS,
    sources=[('formats', 'TraceFormats', [
        ('random', 'formats.c12', 350, 8000),
        ('big', 'formats.c12', SIZES, 4, 48)])])
check('C23', models=FORMATS,
    sources=[('formats', 'TraceFormats', [
        ('random', 'formats.c23', 350, 8000),
        ('big', 'formats.c23', SIZES, 4, 48)])])

SNAP = dict(quick=[('MCSnap', 'MCSnap_quick')], thorough=[('MCSnap', 'MCSnap_big')])
check('C22', models=SNAP,
    sources=[('snap', 'TraceSnap', [('random', 'snap.c22', 600, 15000),
        ('big', 'snap.c22', SIZES, 4, 48)])])
check('C18',
    models=dict(quick=[('MCPairs', 'MCPairs_quick')],
                thorough=[('MCPairs', 'MCPairs_big')]),
    sources=[('snap', 'TraceSnap', [('random', 'snap.c18', 700, 20000),
        ('big', 'snap.c18', SIZES, 4, 48)])])

SEQ = dict(quick=[('MCSeq', 'MCSeq_quick')], thorough=[('MCSeq', 'MCSeq_big')])
SEQ_SIM = ('simulate', 'MCSeq', 'MCSeq_gen', 22, 'seq.concrete')
check('C13', models=SEQ,
    sources=[('seq', 'TraceSeq', [('random', 'seq.c13', 300, 8000),
        ('big', 'seq.c13', SIZES, 4, 48),
        ('corpus', 'seq.smoothed'),
        SEQ_SIM + (60, 2000)])])
check('C14', models=SEQ,
    sources=[('seq', 'TraceSeq', [('random', 'seq.c14', 350, 9000),
        ('big', 'seq.c14', SIZES, 4, 48)])])
check('C21',
    models=dict(quick=[('MCPSet', 'MCPSet_quick')], thorough=[('MCPSet', 'MCPSet_big')]),
    sources=[('pset', 'TracePSet', [('random', 'pset.c21', 500, 15000),
        ('big', 'pset.c21', SIZES, 4, 48)])])
check('C26',
    models=dict(quick=[('MCDoc', 'MCDoc_quick')], thorough=[('MCDoc', 'MCDoc_big')]),
    sources=[('doc', 'TraceDoc', [
        ('corpus', 'doc.manual'),
        ('random', 'doc.c26', 300, 10000),
        ('enumerate', 'MCDoc', 'MCDoc_gen', 'doc.concrete', 600, 0)])])
check('C25',
    models=dict(quick=[('MCHist', 'MCHist_quick')], thorough=[('MCHist', 'MCHist_big')]),
    sources=[('plot', 'TracePlot', [('random', 'plot.c25', 300, 8000),
        ('big', 'plot.c25', [(700, 0), (2500, 0), (130, 0)], 3, 60)])])
check('C29',
    models=dict(quick=[('MCPlot', 'MCPlot_quick')], thorough=[('MCPlot', 'MCPlot_big')]),
    sources=[('plot', 'TracePlot', [('random', 'plot.c29', 150, 3000),
        ('big', 'plot.c29', [(1100, 0), (130, 0)], 2, 20)])])
check('C19',
    models=dict(quick=[('MCConfig', 'MCConfig_quick')], thorough=[('MCConfig', 'MCConfig_big')]),
    sources=[('config', 'TraceConfig', [('random', 'config.c19', 500, 12000)])])
check('C20',
    models=dict(quick=[('MCSmooth', 'MCSmooth_quick')], thorough=[('MCSmooth', 'MCSmooth_big')]),
    sources=[('smooth', 'TraceSmooth', [('random', 'smooth.c20', 500, 12000),
        ('big', 'smooth.c20', [(2, 150), (70, 9)], 2, 40)])])

INTERP = dict(quick=[('MCInterp', 'MCInterp_quick')], thorough=[('MCInterp', 'MCInterp_big')])
for _cid, _fn, _nq, _nt in (('C15', 'c15', 350, 9000), ('C16', 'c16', 400, 10000),
        ('C17', 'c17', 400, 10000), ('C24', 'c24', 300, 8000), ('C27', 'c27', 250, 6000)):
    check(_cid, models=INTERP, sources=[('interp', 'TraceInterp', [
        ('random', 'interp.' + _fn, _nq, _nt)] + ([] if _cid == 'C27' else
        [('big', 'interp.' + _fn, [(130, 20), (20, 110), (270, 8)], 6, 100)]))])
check('C28',
    models=dict(quick=[('MCSpline', 'MCSpline_quick')], thorough=[('MCSpline', 'MCSpline_big')]),
    sources=[('spline', 'TraceSpline', [('random', 'spline.c28', 400, 10000),
        ('big', 'spline.c28', [(70, 140), (100, 260)], 2, 40)])])
check('C30',
    models=dict(quick=[('MCFiles', 'MCFiles_quick')], thorough=[('MCFiles', 'MCFiles_big')]),
    sources=[('files', 'TraceFiles', [('random', 'files.c30', 220, 6000),
        ('simulate', 'MCFiles', 'MCFiles_gen', 40, 'files.concrete', 150, 4000)])])
