"""The properties' jobs: which harness, configuration and bounds decide each property."""
import os
SRC_MAT = ['bsrmatrix', 'csrmatrix', 'rawsrmatrixutils', 'blas/matvecs', 'blas/blas1']
PROPS = {}
def J(name, cfg, tier='quick', **kw):
    d = dict(name=name, cfg=cfg, tier=tier); d.update(kw); return d
def prop(pid, harness, srcs, jobs, **kw):
    PROPS[pid] = dict(harness=harness, srcs=srcs, jobs=jobs, **kw)

prop('C01', 'c01_spmv', SRC_MAT, [
    J('csr-view-3', dict(which=0, n=3)),
    J('bsr2-row-2', dict(which=1, n=2, bs=2)),
    J('bsr2-col-2', dict(which=2, n=2, bs=2)),
    J('bsr4-col-2', dict(which=2, n=1, bs=4)),
    J('csr-own-3', dict(which=3, n=3)),
])


SRC_PREC = ['solverops_base', 'solverops_jacobi', 'rawsrmatrixutils']
SRC_SGS = SRC_PREC + ['solverops_sgs', 'scmatrix']
SRC_ILU = SRC_PREC + ['solverops_ilu0', 'async_ilu_factor', 'async_blockilu_factor', 'ilu_pattern', 'helper_algorithms', 'matrix_properties', 'reorderingscaling']
SRC_LEV = sorted(set(SRC_SGS + SRC_ILU + ['solverops_levels_sgs', 'solverops_levels_ilu0', 'levelschedule']))
def FAMS(base, **kw): return [(n, dict(base, **c)) for n, c in kw.items()]
prop('C10', 'c10_jacobi', SRC_PREC, [
    J('apply-csr', dict(n=3, mode=0, threads=2)), J('apply-b2c', dict(n=2, bs=2, mode=0, threads=2)), J('apply-b4r', dict(n=1, bs=4, rm=1, mode=0)),
    J('relax-csr', dict(n=3, mode=1, its=2, threads=2)), J('relax-b2c', dict(n=2, bs=2, mode=1, its=2, threads=2)), J('relax-b2r', dict(n=2, bs=2, rm=1, mode=1, its=1)),
    J('tolw-csr', dict(n=3, mode=2, its=3, pat=64, family=1, param=0, diagv=1, offm=8)), J('tolw-csr2', dict(n=2, mode=2, its=4, pat=16, param=0, diagv=1, offm=8)), J('tolw-b2', dict(n=2, bs=2, mode=2, its=3, pat=64, family=1, param=0, diagv=1, offm=8)),
    J('tol-csr', dict(n=2, mode=2, its=2, threads=1)), J('tol-b2', dict(n=1, bs=2, mode=2, its=2, threads=1)), J('tolp-csr', dict(n=3, mode=2, its=3, pat=64, family=1, param=0)), J('tolp-b2', dict(n=2, bs=2, mode=2, its=3, pat=64, family=1, param=0)), J('tolp-b2r', dict(n=3, bs=2, rm=1, mode=2, its=2, pat=64, family=1, param=1)), J('tolp-b4', dict(n=2, bs=4, mode=2, its=2, pat=64, family=1, param=0)),
])
prop('C14', 'c14_sgs', SRC_SGS, [
    J('apply-csr', dict(n=3, mode=0)), J('apply-b2c', dict(n=2, bs=2, mode=0)), J('apply-b2r', dict(n=2, bs=2, rm=1, mode=0)), J('apply-b4', dict(n=1, bs=4, mode=0)),
    J('fixed-csr', dict(n=3, mode=1, threads=2, sweeps=2)), J('fixed-b2', dict(n=2, bs=2, mode=1, threads=2, sweeps=2)),
    J('relax-csr', dict(n=3, mode=2)), J('relax-b2', dict(n=2, bs=2, mode=2)), J('relaxfix-csr', dict(n=3, mode=4, threads=2)), J('relaxfix-b2', dict(n=2, bs=2, mode=4, threads=2)),
])
prop('C16', 'c16_chaotic', SRC_PREC + ['relaxation_chaotic'], [
    J('sweeps-2', dict(n=2, mode=0, sweeps=2)), J('sweeps-3', dict(n=3, mode=0, sweeps=3, pat=33, maxchunk=2)), J('sweeps-b2', dict(n=2, bs=2, mode=0, sweeps=2, maxchunk=2)), J('sweeps-relax', dict(n=2, mode=0, relax=1, sweeps=2)),
    J('apply-csr', dict(n=3, mode=0)), J('apply-b2', dict(n=2, bs=2, mode=0)), J('relax-csr', dict(n=3, mode=0, relax=1)),
    J('fixed-csr', dict(n=3, mode=1, threads=2)), J('fixed-b2', dict(n=2, bs=2, mode=1, threads=2)), J('fixedrelax-csr', dict(n=3, mode=1, relax=1, threads=2)),
])
prop('C11', 'c11_ilu', SRC_ILU, [
    J('csr', dict(n=3, mode=0, finit=1)), J('csr-init', dict(n=2, mode=0)), J('csr-scale', dict(n=3, mode=0, scale=1, finit=1)), J('csr-serial', dict(n=3, mode=1, threads=2, finit=1)), J('csr-fixed', dict(n=3, mode=2, nb=2, na=2, threads=2, finit=1)),
    J('b2c', dict(n=2, bs=2, mode=0, finit=1)), J('b2r', dict(n=2, bs=2, rm=1, mode=0, finit=1)), J('b2-fixed', dict(n=2, bs=2, mode=2, nb=2, na=2, threads=2, finit=1)), J('b2-scale', dict(n=2, bs=2, mode=0, scale=1, finit=1)), J('factors', dict(n=3, mode=3)), J('factors-0', dict(n=3, mode=3, nb=0)), J('factors-4', dict(n=4, mode=3, pat=32)),
])
prop('C15', 'c15_levels', SRC_LEV, [
    J('sgs-csr', dict(n=4, kind=0, threads=2)), J('relax-csr', dict(n=3, kind=1, threads=2)), J('ilu-csr', dict(n=3, kind=2, threads=2)),
    J('sgs-b2', dict(n=3, kind=0, bs=2, threads=2)), J('ilu-b2', dict(n=2, kind=2, bs=2, threads=2)), J('ilu-csr-tf', dict(n=3, kind=2, threads=2, tf=1, nb=2)),
])
prop('C17', 'c17_csc', SRC_SGS, [J('csr', dict(n=3)), J('csr-t2', dict(n=3, threads=2)), J('rep', dict(n=2, rep=2))])


prop('C05', 'c05_coo', ['coomatrix', 'bsrmatrix', 'csrmatrix', 'rawsrmatrixutils', 'blas/matvecs', 'blas/blas1'], [
    J('csr-3', dict(n=3, bs=1)), J('csr-2-perm', dict(n=2, bs=1, perm=1)), J('csr-via', dict(n=2, bs=1, which=1, perm=1)),
    J('b2r', dict(n=4, bs=2, which=0, maxnnz=5)), J('b2c', dict(n=4, bs=2, which=1, maxnnz=5)), J('b3', dict(n=3, bs=3, maxnnz=4, badorder=1)), J('b3c', dict(n=3, bs=3, which=1, maxnnz=4)),
    J('reread', dict(n=2, bs=1, pre=1)),
])

prop('C23', 'c23_mm', ['coomatrix', 'bsrmatrix', 'csrmatrix', 'rawsrmatrixutils', 'blas/matvecs', 'blas/blas1'], [
    J('headers', dict(n=2, mode=0)), J('names', dict(n=1, mode=0, badnames=1)), J('nofile', dict(mode=3)), J('malformed', dict(mode=6)), J('truncated', dict(n=2, mode=1)), J('range', dict(n=2, mode=2)), J('dense', dict(n=2, m=2, mode=4)), J('build-csr', dict(n=3, mode=5)), J('build-b2', dict(n=4, mode=5, bs=2, maxnnz=4)),
])

prop('C03', 'c03_assembly', SRC_MAT + ['reorderingscaling'], [
    J('csr-set', dict(n=3, how=0, ops=2, pat=16, maxrows=2)), J('csr-set1', dict(n=3, how=0, ops=1)), J('csr-ctor', dict(n=2, how=1, ops=2, threads=2)), J('csr-wrap', dict(n=2, how=2, ops=2, threads=2)), J('csr-submit', dict(n=3, how=3, ops=1)), J('csr-reset', dict(n=2, how=4, ops=2)), J('csr-same', dict(n=2, how=5, ops=2)), J('csr-same3', dict(n=3, how=5, ops=1, firstop=1, lastop=1)), J('b2-same', dict(n=2, bs=2, how=5, ops=2)), J('b3-same', dict(n=2, bs=3, how=5, ops=1)),
    J('csr-diag', dict(n=3, how=3, ops=0, diag=1, pat=16)), J('csr-diag2', dict(n=2, how=3, ops=1, diag=1)), J('csr-conc', dict(n=2, conc=1)), J('csr-3ops', dict(n=2, how=3, ops=3)),
    J('b2-set', dict(n=2, bs=2, how=0, ops=2)), J('b2-ctor', dict(n=2, bs=2, how=1, ops=2, threads=2)), J('b2-wrap', dict(n=2, bs=2, how=2, ops=2)), J('b3-submit', dict(n=2, bs=3, how=3, ops=1)), J('b2-reset', dict(n=2, bs=2, how=4, ops=1)), J('b2-conc', dict(n=2, bs=2, conc=1)),
    J('b2-3ops', dict(n=2, bs=2, how=3, ops=3)), J('b7-submit', dict(n=1, bs=7, how=3, ops=1)),
])

prop('C04', 'c04_own', SRC_MAT + ['reorderingscaling'], [
    J('copy-csr', dict(n=3, mode=0)), J('copy-b2', dict(n=2, bs=2, mode=0)), J('copy-b3', dict(n=1, bs=3, mode=0)),
    J('raw-csr', dict(n=3, mode=1, threads=2)), J('raw-b2', dict(n=3, bs=2, mode=1, pat=32)), J('raw-b4', dict(n=1, bs=4, mode=1)),
    J('move-csr', dict(n=3, mode=2)), J('move-b2', dict(n=2, bs=2, mode=2)), J('arrays', dict(mode=3, ops=3)),
    J('equal-csr', dict(n=2, mode=4)), J('equal-b2', dict(n=1, bs=2, mode=4)),
])

prop('C06', 'c06_csc', SRC_MAT + ['scmatrix', 'adjacency', 'helper_algorithms'], [
    J('csc-3', dict(n=3, mode=0)), J('csc-b2', dict(n=3, bs=2, pat=32)), J('csc-b3-gemv', dict(n=2, bs=3, gemv=1)), J('csc-b4-gemv', dict(n=1, bs=4, gemv=1)), J('csc-b7-gemv', dict(n=1, bs=7, gemv=1)), J('csc-b5', dict(n=1, bs=5)), J('gemv-b3-t2', dict(n=2, bs=3, gemv=1, threads=2)),
    J('onebased', dict(n=3, mode=1)), J('adjacency', dict(n=3, mode=2)), J('adjacency-4', dict(n=4, mode=2, pat=33, bs=2)), J('adjacency-t2', dict(n=2, mode=2, threads=2)),
])
prop('C07', 'c07_tri', SRC_MAT, [
    J('csr-3', dict(n=3)), J('csr-t2', dict(n=3, threads=2, pat=32)), J('csr-raw', dict(n=4, raw=1)), J('b2c', dict(n=2, bs=2)), J('b2r', dict(n=2, bs=2, rm=1)), J('b3c', dict(n=2, bs=3)), J('b4c', dict(n=1, bs=4)), J('b3-raw', dict(n=2, bs=3, raw=1)),
])
SRC_C09 = ['helper_algorithms', 'blas/blas1', 'utils/prefix_sum']
prop('C09', 'c09_helpers', SRC_C09, [
    J('sort', dict(n=4, mode=0)), J('sort-b2', dict(n=3, bs=2, mode=0)), J('sort-b4', dict(n=3, bs=4, mode=0)), J('sort-b5', dict(n=3, bs=5, mode=0)), J('sort-b7', dict(n=2, bs=7, mode=0)), J('scan', dict(n=6, mode=1)), J('prefix', dict(n=6, mode=2, threads=3)), J('prefix-5', dict(n=5, mode=2, threads=5)), J('search', dict(n=5, mode=3)), J('maxnorm', dict(n=3, mode=4)), J('maxnorm-t2', dict(n=3, mode=4, threads=2)),
])

prop('C08', 'c08_reorder', sorted(set(SRC_MAT + SRC_ILU)), [
    J('mat-csr-2', dict(n=2, mode=0)), J('mat-csr-3', dict(n=3, mode=0, pat=16)), J('mat-csr-3s', dict(n=3, mode=0, pat=33)), J('mat-b2', dict(n=2, bs=2, mode=0)), J('mat-b2-3', dict(n=3, bs=2, mode=0, pat=33, threads=2)), J('mat-b4', dict(n=2, bs=4, mode=0, pat=16)),
    J('vec-csr', dict(n=4, mode=1)), J('vec-b2', dict(n=3, bs=2, mode=1, threads=2)), J('scale-csr', dict(n=3, mode=2, pat=33)), J('scale-csr2', dict(n=2, mode=2, threads=2)), J('scale-b2', dict(n=2, bs=2, mode=2)),
    J('both-csr', dict(n=3, mode=3, pat=16)), J('both-csr2', dict(n=2, mode=3)), J('both-b2', dict(n=2, bs=2, mode=3, pat=16)),
    J('ilu-2', dict(n=2, mode=4, finit=-1)), J('ilu-3', dict(n=3, mode=4, pat=16, maxchunk=1)), J('ilu-3s', dict(n=3, mode=4, pat=33, maxchunk=1)), J('ilu-t2', dict(n=3, mode=4, pat=16, threads=2, maxchunk=1)), J('ilu-rep', dict(n=2, mode=4, rep=2)),
])

prop('C19', 'c19_diag', SRC_LEV, [
    J('csr', dict(n=2)), J('csr-0', dict(n=2, nb=0)), J('csr-3', dict(n=3, finit=1, mins=0)), J('csr-3-0', dict(n=3, nb=0, finit=1)), J('csr-sc', dict(n=2, scale=1)), J('csr-sc-0', dict(n=2, scale=1, nb=0)), J('csr-t2', dict(n=2, nb=0, threads=2)), J('csr-sc3', dict(n=3, scale=1, finit=2, pat=16, nb=0, mins=0)), J('csr-sc3p', dict(n=3, scale=1, finit=2, pat=4, nb=0, mins=0)),
   
    J('b2c', dict(n=2, bs=2, finit=1, dd=0)), J('b2sgs', dict(n=2, bs=2, finit=2, dd=0, pat=4)), J('b2c-0', dict(n=2, bs=2, nb=0, mins=0, finit=2)), J('b2r-0', dict(n=2, bs=2, rm=1, nb=0, mins=0, finit=1)), J('b2-mins', dict(n=1, bs=2)), J('b2-sc', dict(n=2, bs=2, nb=0, scale=1, mins=0, finit=1)),
    J('maxnorm', dict(n=3, mode=4), harness='c09_helpers', srcs=SRC_C09), J('maxnorm-t2', dict(n=3, mode=4, threads=2), harness='c09_helpers', srcs=SRC_C09),
    J('lev', dict(n=2, kind=1)), J('lev-b2', dict(n=2, bs=2, kind=1, nb=0, mins=0)),
])

SRC_FAC = sorted(set(SRC_LEV + SRC_SGS + ['solverfactory']))
prop('C18', 'c18_factory', SRC_FAC, [
    J('names', dict(mode=0, maxlen=17)), J('names-near', dict(mode=0, any=0, maxlen=17)), J('support', dict(mode=2)),
    J('csr', dict(n=2)), J('csr-t2', dict(n=2, threads=2, minsweeps=1, maxinfo=0, maxscale=0)), J('csr-adv', dict(n=3, pat=16, threads=2, adv=1, rev=1, minsweeps=1, maxinfo=0, anyst=0)), J('csr-adv0', dict(n=3, pat=16, threads=2, adv=1, minsweeps=1, maxinfo=0, maxscale=0, anyst=0)),
    J('b4c-1', dict(n=1, bs=4, maxsweeps=1)), J('b4r-1', dict(n=1, bs=4, rm=1, maxsweeps=1)), J('csr-3', dict(n=3, maxsweeps=1, maxinfo=0), tier='thorough'), J('b4c-1s', dict(n=1, bs=4), tier='thorough'),
    J('b4c', dict(n=2, bs=4, maxsweeps=1, maxinfo=0)), J('b4r', dict(n=2, bs=4, rm=1, maxsweeps=1, maxinfo=0)), J('b4c-adv', dict(bs=4, n=3, pat=64, family=4, param=0, threads=2, adv=1, rev=1, minsweeps=1, maxinfo=0)), J('b4r-adv', dict(bs=4, rm=1, n=3, pat=64, family=4, param=0, threads=2, adv=1, rev=1, minsweeps=1, maxinfo=0)), J('b5-adv', dict(bs=5, n=3, pat=64, family=4, param=0, threads=2, adv=1, rev=1, minsweeps=1, maxinfo=0, maxscale=0)),
])

prop('C20', 'c20_history', SRC_FAC, [
    J('jac', dict(kind=0)), J('sgs', dict(kind=1)), J('ilu', dict(kind=2, maxsweeps=1)), J('lsgs', dict(kind=3)), J('lilu', dict(kind=4)), J('gs', dict(kind=5)), J('csc', dict(kind=6)), J('none', dict(kind=7)),
    J('jac-b2', dict(kind=0, bs=2)), J('sgs-b2', dict(kind=1, bs=2, ops=2)), J('ilu-b2', dict(kind=2, bs=2, ops=2, maxsweeps=1)), J('lsgs-b2', dict(kind=3, bs=2, rm=1, ops=2)), J('lilu-b2', dict(kind=4, bs=2, ops=2)), J('gs-b2', dict(kind=5, bs=2, ops=2)),
    J('sgs-adv', dict(kind=1, threads=2, adv=1, n=3, pat=16)), J('ilu-adv', dict(kind=2, threads=2, adv=1, n=3, pat=16)), J('lilu-adv', dict(kind=4, threads=2, adv=1, n=3, pat=16)), J('gs-adv', dict(kind=5, threads=2, adv=1, n=3, pat=16)), J('csc-adv', dict(kind=6, threads=2, adv=1, n=3, pat=16)),
    J('sgs-rev', dict(kind=1, threads=2, adv=1, rev=1, n=3, pat=16)), J('ilu-rev', dict(kind=2, threads=2, adv=1, rev=1, n=3, pat=16)), J('lilu-rev', dict(kind=4, threads=2, adv=1, rev=1, n=3, pat=16)), J('gs-rev', dict(kind=5, threads=2, adv=1, rev=1, n=3, pat=16)), J('csc-rev', dict(kind=6, threads=2, adv=1, rev=1, n=3, pat=16)), J('ilu-b2-rev', dict(kind=2, bs=2, threads=2, adv=1, rev=1, n=2, pat=32, ops=2)),
    J('ilu-b2-adv', dict(kind=2, bs=2, threads=2, adv=1, n=3, pat=32, ops=2)), J('sgs-b2-adv', dict(kind=1, bs=2, rm=1, threads=2, adv=1, n=3, pat=32, ops=2)),
    J('jac-t2', dict(kind=0, threads=2)), J('ilu-t2', dict(kind=2, threads=2, maxsweeps=1)), J('lsgs-t2', dict(kind=3, threads=2)), J('lilu-t2', dict(kind=4, threads=2)),
])

prop('C24', 'c24_frozen', sorted(set(SRC_FAC + SRC_MAT + ['relaxation_chaotic'])) , [
    J('jac', dict(kind=0, pages=1, threads=2)), J('jac-b2', dict(kind=0, bs=2, rm=0, pages=1, threads=2)), J('jac-3', dict(kind=0, n=3, pages=1, pat=32), tier='thorough'),
    J('sgs', dict(kind=1, pages=1, threads=2)), J('sgs-b2', dict(kind=1, bs=2, rm=1, pages=1, threads=2)), J('sgs-3', dict(kind=1, n=3, pages=1, pat=32), tier='thorough'),
    J('ilu', dict(kind=2, pages=1, threads=2, maxsweeps=1)), J('ilu-b2', dict(kind=2, bs=2, rm=0, pages=1, threads=2, maxsweeps=1)), J('ilu-3', dict(kind=2, n=3, pages=1, maxsweeps=1, pat=16), tier='thorough'),
    J('lsgs', dict(kind=3, pages=1, threads=2)), J('lsgs-b2', dict(kind=3, bs=2, rm=1, pages=1, threads=2)), J('lsgs-3', dict(kind=3, n=3, pages=1, pat=32), tier='thorough'),
    J('lilu', dict(kind=4, pages=1, threads=2)), J('lilu-b2', dict(kind=4, bs=2, rm=0, pages=1, threads=2, maxsweeps=1)), J('lilu-3', dict(kind=4, n=3, pages=1, maxsweeps=1, pat=16), tier='thorough'),
    J('gs', dict(kind=5, pages=1, threads=2)), J('gs-b2', dict(kind=5, bs=2, rm=1, pages=1, threads=2)), J('gs-3', dict(kind=5, n=3, pages=1, pat=32), tier='thorough'),
    J('csc', dict(kind=6, pages=1, threads=2)), J('csc-3', dict(kind=6, n=3, pages=1, pat=32), tier='thorough'), J('none', dict(kind=7, pages=1, threads=2)),
    J('none-b2', dict(kind=7, bs=2, rm=1, pages=1, threads=2)), J('none-3', dict(kind=7, n=3, pages=1, pat=32), tier='thorough'), J('reord', dict(kind=8, pages=1, threads=2)),
    J('reord-3', dict(kind=8, n=3, pages=1, maxsweeps=1, pat=16), tier='thorough'), J('view', dict(kind=9, pages=1, threads=2)), J('view-b2', dict(kind=9, bs=2, rm=1, pages=1, threads=2)),
    J('view-3', dict(kind=9, n=3, pages=1, pat=32), tier='thorough'), J('tri', dict(kind=10, pages=1, threads=2)), J('tri-b2', dict(kind=10, bs=2, rm=0, pages=1, threads=2)),
    J('tri-3', dict(kind=10, n=3, pages=1, pat=32), tier='thorough'),
])

H = lambda harness, srcs, name, cfg, tier='quick', **kw: J(name, cfg, tier, harness=harness, srcs=srcs, **kw)
SRC_CH = SRC_PREC + ['relaxation_chaotic']
prop('C13', 'c11_ilu', SRC_ILU, [
    J('ilu-csr', dict(n=3, mode=2, nb=2, na=2, threads=2, finit=1)), J('ilu-csr-sgs', dict(n=2, mode=2, nb=2, na=2, threads=2, finit=2)), J('ilu-csr-t3', dict(n=3, mode=2, nb=2, na=2, threads=3, finit=1, pat=16, ainit=0)), J('ilu-csr-scale', dict(n=2, mode=2, nb=2, na=2, threads=2, finit=1, scale=1)),
    J('ilu-b2c', dict(n=2, bs=2, mode=2, nb=2, na=2, threads=2, finit=1)), J('ilu-b2r', dict(n=2, bs=2, rm=1, mode=2, nb=2, na=2, threads=2, finit=1)), J('ilu-b4', dict(n=1, bs=4, mode=2, nb=2, na=2, threads=2, finit=1)),
    J('ilu-csr-4', dict(n=4, mode=2, nb=2, na=2, threads=2, finit=1, pat=32, ainit=0), 'thorough'), J('ilu-csr-3s', dict(n=3, mode=2, nb=3, na=3, threads=3, finit=1), 'thorough'),
    H('c14_sgs', SRC_SGS, 'sgs-csr', dict(n=3, mode=1, threads=2, sweeps=2)), H('c14_sgs', SRC_SGS, 'sgs-csr-t3', dict(n=3, mode=1, threads=3, sweeps=3, pat=16)), H('c14_sgs', SRC_SGS, 'sgs-b2c', dict(n=2, bs=2, mode=1, threads=2, sweeps=2)), H('c14_sgs', SRC_SGS, 'sgs-b2r', dict(n=2, bs=2, rm=1, mode=1, threads=2, sweeps=2)),
    H('c14_sgs', SRC_SGS, 'sgsrelax-csr', dict(n=3, mode=4, threads=2)), H('c14_sgs', SRC_SGS, 'sgsrelax-b2c', dict(n=2, bs=2, mode=4, threads=2, its=2)), H('c14_sgs', SRC_SGS, 'sgsrelax-b2r', dict(n=2, bs=2, rm=1, mode=4, threads=2)), H('c14_sgs', SRC_SGS, 'sgsrelax-t3', dict(n=3, mode=4, threads=3, its=2, pat=32)),
    H('c16_chaotic', SRC_CH, 'gs-csr', dict(n=3, mode=1, threads=2, sweeps=2)), H('c16_chaotic', SRC_CH, 'gs-b2c', dict(n=2, bs=2, mode=1, threads=2, sweeps=2)), H('c16_chaotic', SRC_CH, 'gs-b2r', dict(n=2, bs=2, rm=1, mode=1, threads=2)), H('c16_chaotic', SRC_CH, 'gsrelax-csr', dict(n=3, mode=1, relax=1, threads=3, sweeps=2)), H('c16_chaotic', SRC_CH, 'gsrelax-b2', dict(n=2, bs=2, mode=1, relax=1, threads=2)),
    H('c15_levels', SRC_LEV, 'lilu-csr', dict(n=3, kind=2, threads=2, tf=1, nb=2)), H('c15_levels', SRC_LEV, 'lilu-b2', dict(n=2, bs=2, kind=2, threads=2, tf=1, nb=2)),
    H('c17_csc', SRC_SGS, 'csc', dict(n=3, threads=2)), H('c17_csc', SRC_SGS, 'csc-2', dict(n=3, threads=3, sweeps=2, pat=16)),
])

SRC_C08 = sorted(set(SRC_MAT + SRC_ILU)); SRC_C06 = SRC_MAT + ['scmatrix', 'adjacency', 'helper_algorithms']
prop('C02', 'c01_spmv', SRC_MAT, [
    J('csr-view', dict(which=0, n=3, threads=3)), J('csr-view-4', dict(which=0, n=4, threads=2, pat=32)), J('csr-own', dict(which=3, n=3, threads=2)), J('bsr2-row', dict(which=1, n=2, bs=2, threads=2)), J('bsr2-col', dict(which=2, n=3, bs=2, threads=3, pat=32)), J('bsr3-own', dict(which=4, n=2, bs=3, threads=2)), J('bsr7-row', dict(which=1, n=2, bs=7, threads=2, pat=33)),
    H('c03_assembly', SRC_MAT + ['reorderingscaling'], 'scale-all', dict(n=3, how=3, ops=1, threads=2, pat=17)), H('c03_assembly', SRC_MAT + ['reorderingscaling'], 'update-conc', dict(n=2, conc=1)), H('c03_assembly', SRC_MAT + ['reorderingscaling'], 'update-conc-b2', dict(n=2, bs=2, conc=1)),
    H('c04_own', SRC_MAT + ['reorderingscaling'], 'copy-raw', dict(n=3, mode=1, threads=3)), H('c04_own', SRC_MAT + ['reorderingscaling'], 'copy-raw-b2', dict(n=2, bs=2, mode=1, threads=2)),
    H('c06_csc', SRC_C06, 'csc', dict(n=3, mode=0, threads=3)), H('c06_csc', SRC_C06, 'csc-b2', dict(n=2, bs=2, mode=0, threads=2)), H('c06_csc', SRC_C06, 'csc-gemv', dict(n=2, bs=3, gemv=1, threads=2)), H('c06_csc', SRC_C06, 'adjacency', dict(n=3, mode=2, threads=3)), H('c06_csc', SRC_C06, 'onebased', dict(n=2, mode=1, threads=2)),
    H('c07_tri', SRC_MAT, 'tri', dict(n=3, threads=3)), H('c07_tri', SRC_MAT, 'tri-b2', dict(n=2, bs=2, threads=2)),
    H('c08_reorder', SRC_C08, 'reorder', dict(n=3, mode=0, pat=33, threads=3)), H('c08_reorder', SRC_C08, 'reorder-b2', dict(n=2, bs=2, mode=0, threads=2)), H('c08_reorder', SRC_C08, 'reorder-vec', dict(n=4, mode=1, threads=3)), H('c08_reorder', SRC_C08, 'scaling', dict(n=3, mode=2, pat=33, threads=3)), H('c08_reorder', SRC_C08, 'scaling-b2', dict(n=2, bs=2, mode=2, threads=2)), H('c08_reorder', SRC_C08, 'both', dict(n=2, mode=3, threads=2)),
    H('c09_helpers', SRC_C09, 'prefix', dict(n=6, mode=2, threads=3)), H('c09_helpers', SRC_C09, 'maxnorm', dict(n=4, mode=4, threads=3)),
    H('c10_jacobi', SRC_PREC, 'jac-tol', dict(n=2, mode=2, its=1, threads=2)), H('c10_jacobi', SRC_PREC, 'jac-tol-b2', dict(n=2, bs=2, mode=2, its=1, threads=2, pat=64, family=1, param=0)), H('c10_jacobi', SRC_PREC, 'jac-tol-t3', dict(n=3, mode=2, its=2, threads=3, pat=64, family=1, param=0)),
    H('c10_jacobi', SRC_PREC, 'jac', dict(n=3, mode=0, threads=3)), H('c10_jacobi', SRC_PREC, 'jac-b2', dict(n=2, bs=2, mode=0, threads=2)), H('c10_jacobi', SRC_PREC, 'jac-relax', dict(n=3, mode=1, its=2, threads=3)), H('c10_jacobi', SRC_PREC, 'jac-relax-b2', dict(n=2, bs=2, rm=1, mode=1, its=2, threads=2)), H('c10_jacobi', SRC_PREC, 'jac-tol', dict(n=2, mode=2, its=1, threads=2)),
    H('c15_levels', SRC_LEV, 'lev-sgs', dict(n=4, kind=0, threads=3)), H('c15_levels', SRC_LEV, 'lev-relax', dict(n=3, kind=1, threads=3)), H('c15_levels', SRC_LEV, 'lev-ilu', dict(n=3, kind=2, threads=3)), H('c15_levels', SRC_LEV, 'lev-sgs-b2', dict(n=3, kind=0, bs=2, threads=2)), H('c15_levels', SRC_LEV, 'lev-relax-b2', dict(n=2, kind=1, bs=2, rm=1, threads=2)), H('c15_levels', SRC_LEV, 'lev-ilu-b2', dict(n=2, kind=2, bs=2, threads=2)),
    H('c11_ilu', SRC_ILU, 'ilu-serial', dict(n=3, mode=1, threads=2, finit=1)), H('c11_ilu', SRC_ILU, 'ilu-serial-b2', dict(n=2, bs=2, mode=1, threads=2, finit=1)),
    H('c19_diag', SRC_LEV, 'diag', dict(n=2, nb=0, threads=2)), H('c19_diag', SRC_LEV, 'diag-b2', dict(n=2, bs=2, nb=0, mins=0, finit=2, threads=2)), H('c19_diag', SRC_LEV, 'diag-3', dict(n=3, nb=0, threads=3, finit=1, mins=0)),
])

# C21: the harnesses of the other properties with only memory, initialisation, leak, termination and internal-assertion faults counted
SRC_SAI = ['sai', 'helper_algorithms', 'rawsrmatrixutils', 'solverops_sai', 'solverops_base']
_c21 = []
def M(tag, harness, srcs, *cfgs):
    for i, c in enumerate(cfgs):
        c = dict(c); tier = c.pop('tier', 'quick'); _c21.append(H(harness, srcs, '%s-%d' % (tag, i), dict(c, memonly=1), tier))
M('spmv', 'c01_spmv', SRC_MAT, dict(which=0, n=3), dict(which=1, n=2, bs=2), dict(which=2, n=3, bs=2, pat=32), dict(which=4, n=2, bs=3), dict(which=1, n=2, bs=7), dict(which=2, n=2, bs=5), dict(which=2, n=2, bs=4), dict(which=3, n=3, threads=2))
M('assembly', 'c03_assembly', SRC_MAT + ['reorderingscaling'], dict(n=3, how=0, ops=2, pat=16, maxrows=2), dict(n=2, how=1, ops=2), dict(n=2, how=2, ops=2), dict(n=2, how=4, ops=2), dict(n=2, bs=2, how=0, ops=2), dict(n=2, bs=3, how=3, ops=1), dict(n=2, bs=2, how=4, ops=1), dict(n=3, how=3, ops=0, diag=1, pat=16), dict(n=1, bs=7, how=3, ops=1))
M('own', 'c04_own', SRC_MAT + ['reorderingscaling'], dict(n=3, mode=0), dict(n=2, bs=2, mode=0), dict(n=3, mode=1, threads=2), dict(n=2, bs=2, mode=2), dict(mode=3, ops=3), dict(n=2, mode=4), dict(n=1, bs=2, mode=4))
M('coo', 'c05_coo', ['coomatrix', 'bsrmatrix', 'csrmatrix', 'rawsrmatrixutils', 'blas/matvecs', 'blas/blas1'], dict(n=3, bs=1), dict(n=2, bs=1, perm=1), dict(n=4, bs=2, which=0, maxnnz=5), dict(n=4, bs=2, which=1, maxnnz=5), dict(n=3, bs=3, maxnnz=4))
M('csc', 'c06_csc', SRC_C06, dict(n=3, mode=0), dict(n=2, bs=3, gemv=1), dict(n=1, bs=7, gemv=1), dict(n=3, mode=1), dict(n=3, mode=2), dict(n=4, mode=2, pat=33, bs=2))
M('tri', 'c07_tri', SRC_MAT, dict(n=3), dict(n=4, raw=1), dict(n=2, bs=3), dict(n=2, bs=2, rm=1))
M('reorder', 'c08_reorder', SRC_C08, dict(n=2, mode=0), dict(n=3, mode=0, pat=33), dict(n=2, bs=2, mode=0), dict(n=3, bs=2, mode=1), dict(n=3, mode=2, pat=33), dict(n=2, bs=2, mode=2), dict(n=2, mode=3), dict(n=2, mode=4), dict(n=3, mode=4, pat=33, maxchunk=1))
M('helpers', 'c09_helpers', SRC_C09, dict(n=5, mode=0, distinct=0, maxcol=1000), dict(n=3, bs=4, mode=0), dict(n=6, mode=1), dict(n=6, mode=2, threads=3), dict(n=5, mode=3), dict(n=3, mode=4))
M('jacobi', 'c10_jacobi', SRC_PREC, dict(n=3, mode=0, threads=2), dict(n=2, bs=2, mode=0), dict(n=2, bs=4, mode=0), dict(n=3, mode=1, its=2), dict(n=2, bs=2, mode=1, its=2), dict(n=2, mode=2, its=2), dict(n=1, bs=2, mode=2, its=2))
M('ilu', 'c11_ilu', SRC_ILU, dict(n=3, mode=0, finit=1), dict(n=2, mode=0), dict(n=3, mode=0, scale=1, finit=1), dict(n=3, mode=1, threads=2, finit=1), dict(n=2, bs=2, mode=0), dict(n=2, bs=2, rm=1, mode=0, scale=1, finit=1), dict(n=2, bs=4, mode=0, finit=1), dict(n=4, mode=0, finit=1, maxchunk=1, ainit=0))
M('sgs', 'c14_sgs', SRC_SGS, dict(n=3, mode=0), dict(n=2, bs=2, mode=0), dict(n=2, bs=4, mode=0), dict(n=3, mode=2), dict(n=2, bs=2, rm=1, mode=2), dict(n=3, mode=1, threads=2, sweeps=2))
M('levels', 'c15_levels', SRC_LEV, dict(n=4, kind=0, threads=2), dict(n=5, kind=0, threads=2, tier='thorough'), dict(n=4, kind=1), dict(n=4, kind=2), dict(n=3, kind=0, bs=2), dict(n=3, kind=2, bs=2))
M('chaotic', 'c16_chaotic', SRC_CH, dict(n=3, mode=0), dict(n=2, bs=2, mode=0), dict(n=3, mode=0, relax=1), dict(n=2, bs=2, mode=0, relax=1))
M('column', 'c17_csc', SRC_SGS, dict(n=3), dict(n=2, rep=2), dict(n=4, pat=33))
M('factory', 'c18_factory', SRC_FAC, dict(mode=0, maxlen=17), dict(mode=2), dict(n=2), dict(n=2, bs=4, maxsweeps=1, maxinfo=0))
M('diag', 'c19_diag', SRC_LEV, dict(n=2), dict(n=2, nb=0), dict(n=3, nb=0, finit=1, mins=0), dict(n=2, scale=1, nb=0), dict(n=2, bs=2, nb=0, mins=0, finit=2), dict(n=2, kind=1))
M('history', 'c20_history', SRC_FAC, dict(kind=1, threads=2, adv=1, rev=1, n=3, pat=16), dict(kind=2, threads=2, adv=1, rev=1, n=3, pat=16), dict(kind=6, threads=2, adv=1, rev=1, n=3, pat=16), dict(kind=2, bs=2, ops=2, threads=2, adv=1, rev=1, n=2), dict(kind=1), dict(kind=2, maxsweeps=1), dict(kind=4), dict(kind=6), dict(kind=2, bs=2, ops=2, maxsweeps=1), dict(kind=5), dict(kind=3))
M('reader', 'c23_mm', ['coomatrix', 'bsrmatrix', 'csrmatrix', 'rawsrmatrixutils', 'blas/matvecs', 'blas/blas1'], dict(n=2, mode=0), dict(n=2, mode=1), dict(n=2, mode=2), dict(n=2, m=2, mode=4), dict(n=3, mode=5))
M('sai', 'c22_sai', SRC_SAI, dict(n=3, mode=0), dict(n=3, mode=1), dict(n=4, mode=1, pat=2), dict(n=2, mode=2))
prop('C21', 'c01_spmv', SRC_MAT, _c21)

prop('C22', 'c22_sai', SRC_SAI, [
    J('full', dict(n=3, mode=0)), J('inc', dict(n=3, mode=1)), J('full-4', dict(n=4, mode=0, pat=2)), J('inc-4', dict(n=4, mode=1, pat=2)),
    J('isai-3t', dict(n=3, mode=2, pat=32, maxchunk=2, param=1)), J('isai-3a', dict(n=3, mode=2, pat=0, maxchunk=1, param=0)), J('isai-4t', dict(n=4, mode=2, pat=32, maxchunk=1, param=0)), J('isai-b2t', dict(n=3, bs=2, mode=2, pat=32, maxchunk=1, param=0)), J('isai-4l', dict(n=4, mode=2, pat=36, maxchunk=1)),
    J('isai', dict(n=2, mode=2)), J('isai-3', dict(n=3, mode=2, pat=36)), J('isai-b2', dict(n=1, bs=2, mode=2)), J('isai-b4', dict(n=2, bs=4, mode=1)), J('sai-diag', dict(n=2, mode=3, pat=12)), J('isai-t2', dict(n=2, mode=2, threads=2)), J('sai-1', dict(n=1, mode=3)),
])

# One fixed pattern of a realistic size per job (famentry in harness/mat.h): long rows, empty rows, deep dependency chains, eight threads.
# Right-hand sides and 'param' matrix entries stay arbitrary, the other entries are fixed numbers (param absent: all arbitrary).
PETSC = ['-I' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'native', 'petsc', 'include')]
prop('C25', 'c25_petsc', SRC_FAC, [
    J('settings', dict(mode=0)), J('settings-b4', dict(mode=0, bs=4)), J('settings-baij1', dict(mode=0, baij=1)), J('missing', dict(mode=0, missing=1), cover=['reported']), J('wrong', dict(mode=0, wrong=1, small=1), cover=['reported']),
    J('real', dict(mode=1)), J('refuse', dict(mode=3, param=0)), J('missing-b4', dict(mode=0, bs=4, missing=1), cover=['reported'], tier='thorough'), J('wrong-all', dict(mode=0, wrong=1), cover=['reported'], tier='thorough'),
], opts=PETSC)
prop('C27', 'c25_petsc', SRC_FAC, [
    J('real', dict(mode=1)), J('real-3', dict(mode=1, n=3, pat=33, maxscale=0, maxinfo=0)), J('real-b4', dict(mode=1, n=1, bs=4, maxscale=0)), J('relaxed', dict(mode=0, small=1)), J('relaxed-b4', dict(mode=0, small=1, bs=4)),
    J('stack', dict(mode=2, depth=2)), J('stack-types', dict(mode=2, depth=1, mattypes=7, blocks=2, levels=3)), J('stack-3', dict(mode=2, depth=3, levels=1), tier='thorough'), J('refuse', dict(mode=3, param=0)),
    J('real-2', dict(mode=1, n=2, pat=16), tier='thorough'), J('real-b4-2', dict(mode=1, n=2, bs=4, pat=64, family=4, param=1, maxscale=0, maxinfo=0), tier='thorough'),
], opts=PETSC)

def big(pid, harness, srcs, *jobs):
    base = dict(pat=64, param=1)
    for name, x in jobs:
        x = dict(x); tier = x.pop('tier', 'quick'); cfg = dict(base, **x)
        if cfg['param'] < 0: del cfg['param']
        PROPS[pid]['jobs'].append(H(harness, srcs, 'big-' + name, cfg, tier))
        if tier == 'quick' and pid not in ('C02', 'C13', 'C20', 'C24'): PROPS['C21']['jobs'].append(H(harness, srcs, 'big-%s-%s' % (harness, name), dict(cfg, memonly=1), tier))
SRC_COO = ['coomatrix', 'bsrmatrix', 'csrmatrix', 'rawsrmatrixutils', 'blas/matvecs', 'blas/blas1']; SRC_ASM = SRC_MAT + ['reorderingscaling']
SRC_FRZ = sorted(set(SRC_FAC + SRC_MAT + ['relaxation_chaotic']))
_spmv = (('long', dict(which=0, n=100, family=1, param=4, threads=8)), ('scattered', dict(which=0, n=70, family=3, param=2, threads=8)), ('empty', dict(which=0, n=100, family=5, param=2, threads=8)), ('band', dict(which=0, n=150, param=-1, threads=8)),
    ('own', dict(which=3, n=60, family=2, param=2, threads=8)), ('b2r', dict(which=1, bs=2, n=40, family=1, threads=8)), ('b2c', dict(which=2, bs=2, n=40, family=5, threads=8)), ('b3r', dict(which=1, bs=3, n=24, family=3, threads=8)), ('b3c', dict(which=2, bs=3, n=24, family=2, threads=8)),
    ('b4r', dict(which=1, bs=4, n=24, family=5, threads=8)), ('b4c', dict(which=2, bs=4, n=24, family=1, threads=8)), ('b5c', dict(which=2, bs=5, n=16, family=3, threads=8)), ('b7r', dict(which=1, bs=7, n=12, family=1, threads=8)), ('b7c', dict(which=2, bs=7, n=12, family=5, threads=8)),
    ('own3', dict(which=4, bs=3, n=20, family=1, threads=8)), ('own7', dict(which=4, bs=7, n=9, family=3, threads=8)))
big('C01', 'c01_spmv', SRC_MAT, *_spmv); big('C02', 'c01_spmv', SRC_MAT, *_spmv)
big('C03', 'c03_assembly', SRC_ASM, ('full', dict(n=20, how=3, ops=1, pat=80, param=2, big=1)), ('arrow', dict(n=40, how=0, ops=1, family=1, big=1, param=2)), ('diag', dict(n=12, how=3, ops=0, family=1, param=2, diag=1)), ('b2', dict(n=16, bs=2, how=1, ops=1, family=4, param=2, big=1, threads=8)), ('b3', dict(n=12, bs=3, how=4, ops=1, family=1, param=2, big=1, threads=8)), ('b7', dict(n=8, bs=7, how=2, ops=1, family=3, param=2, big=1, threads=8)))
big('C04', 'c04_own', SRC_ASM, ('copy', dict(n=30, mode=0, family=4, param=-1, threads=8)), ('copy-b3', dict(n=12, bs=3, mode=0, family=1, param=2, threads=8)), ('raw', dict(n=40, mode=1, family=3, param=-1, threads=8)), ('raw-b2', dict(n=20, bs=2, mode=1, family=5, param=-1, threads=8)), ('move', dict(n=30, mode=2, pat=65, family=3, param=-1, threads=8)))
big('C05', 'c05_coo', SRC_COO, ('csr', dict(n=40, bs=1, family=1, maxnnz=700)), ('scattered', dict(n=40, bs=1, family=3, maxnnz=700, which=1)), ('b2r', dict(n=40, bs=2, family=2, maxnnz=700)), ('b2c', dict(n=24, bs=2, which=1, family=3, maxnnz=700)), ('b3c', dict(n=30, bs=3, which=1, family=1, maxnnz=700)), ('b3r', dict(n=24, bs=3, family=3, maxnnz=700)))
_csc = (('csc', dict(n=40, mode=0, family=3, param=-1, threads=8)), ('csc-empty', dict(n=60, mode=0, family=5, param=-1, threads=8)), ('csc-b7', dict(n=10, bs=7, mode=0, gemv=1, family=5, threads=8)), ('csc-b3', dict(n=20, bs=3, mode=0, gemv=1, family=1, threads=8)), ('csc-b4', dict(n=16, bs=4, mode=0, gemv=1, family=3, threads=8)), ('csc-b5', dict(n=16, bs=5, mode=0, family=3, threads=8)), ('onebased', dict(n=40, mode=1, family=3, param=-1, threads=8)), ('adj', dict(n=60, mode=2, family=5, threads=8)), ('adj2', dict(n=60, mode=2, family=1, bs=2, threads=8)))
big('C06', 'c06_csc', SRC_C06, *_csc); big('C02', 'c06_csc', SRC_C06, *_csc)
_tri = (('tri', dict(n=60, family=1, param=3, threads=8)), ('tri-raw', dict(n=60, family=3, raw=1, threads=8)), ('tri-b2r', dict(n=24, bs=2, rm=1, family=2, param=2, threads=8)), ('tri-b3', dict(n=30, bs=3, family=3, param=3, threads=8)), ('tri-b4', dict(n=16, bs=4, family=6, param=2, threads=8)))
big('C07', 'c07_tri', SRC_MAT, *_tri); big('C02', 'c07_tri', SRC_MAT, *_tri)
_reo = (('mat', dict(n=30, mode=0, family=3, param=-1, threads=8, bigperm=7)), ('mat-empty', dict(n=32, mode=0, family=5, param=-1, threads=8, bigperm=7)), ('mat-b4', dict(n=15, bs=4, mode=0, family=1, param=2, threads=8, bigperm=7)), ('vec', dict(n=60, mode=1, threads=8, bigperm=7)), ('vec-b4', dict(n=40, bs=4, mode=1, threads=8, bigperm=7)), ('scale', dict(n=30, mode=2, family=1, param=2, threads=8)), ('scale-b2', dict(n=20, bs=2, mode=2, family=3, param=2, threads=8)), ('both', dict(n=20, mode=3, family=6, param=2, threads=8, bigperm=7)), ('both-b2', dict(n=16, bs=2, mode=3, family=4, param=2, threads=8, bigperm=7)))
big('C08', 'c08_reorder', SRC_C08, *(_reo + (('ilu', dict(n=16, mode=4, pat=81, maxchunk=1, bigperm=7, param=0)),))); big('C02', 'c08_reorder', SRC_C08, *_reo)
big('C09', 'c09_helpers', SRC_C09, ('sort', dict(n=41, mode=0, big=1)), ('sort-b2', dict(n=23, bs=2, mode=0, big=1)), ('sort-b4', dict(n=19, bs=4, mode=0, big=1)), ('scan', dict(n=300, mode=1, big=1)), ('prefix', dict(n=100, mode=2, big=5, threads=12)), ('search', dict(n=16, mode=3, big=1)))
_jac = (('apply', dict(n=100, family=1, mode=0, threads=8, param=4)), ('relax', dict(n=60, family=4, mode=1, its=3, threads=8, param=4)), ('relax-b2r', dict(n=24, bs=2, rm=1, family=3, mode=1, its=2, threads=8)), ('apply-b4', dict(n=20, bs=4, family=3, mode=0, threads=8)), ('relax-b4', dict(n=20, bs=4, family=1, mode=1, its=2, threads=8)), ('relax-b4r', dict(n=16, bs=4, rm=1, family=6, mode=1, its=2, threads=8)))
big('C10', 'c10_jacobi', SRC_PREC, *_jac); big('C02', 'c10_jacobi', SRC_PREC, *_jac)
_i = dict(finit=1, ainit=0, chunk=5, param=0)
big('C11', 'c11_ilu', SRC_ILU, *[(k, dict(_i, **v)) for k, v in dict(band=dict(n=80, param=2), arrow=dict(n=60, family=1, param=1), scattered=dict(n=24, family=3), mixed=dict(n=20, family=6), sweeps=dict(n=40, nb=3, na=3, chunk=7), scale=dict(n=5, family=1, scale=1), serial=dict(n=40, family=1, mode=1, threads=8), b2=dict(n=16, bs=2, family=6), b4=dict(n=10, bs=4), b4r=dict(n=10, bs=4, rm=1, family=1), b4serial=dict(n=10, bs=4, mode=1, threads=8, chunk=2, nb=2)).items()])
big('C13', 'c11_ilu', SRC_ILU, *[(k, dict(_i, mode=2, nb=2, na=2, threads=8, **v)) for k, v in dict(band=dict(n=40), mixed=dict(n=16, family=4), arrow=dict(n=40, family=1), b2=dict(n=10, bs=2, family=4), b4=dict(n=8, bs=4, family=6)).items()])
_s = dict(chunk=5, ainit=1)
big('C14', 'c14_sgs', SRC_SGS, *[(k, dict(_s, **v)) for k, v in dict(arrow=dict(n=80, family=1, mode=0, param=2), scattered=dict(n=40, family=3, mode=0), b2=dict(n=20, bs=2, family=4, mode=0, ainit=2), b4r=dict(n=10, bs=4, rm=1, family=4, mode=0), relax=dict(n=40, family=1, mode=2, its=2, param=2), relaxb2=dict(n=16, bs=2, family=3, mode=2, its=2), relaxb4=dict(n=10, bs=4, family=6, mode=2, its=2), fixed=dict(n=20, family=4, mode=1, threads=8, sweeps=3)).items()])
big('C13', 'c14_sgs', SRC_SGS, *[('sgs' + k, dict(_s, **v)) for k, v in dict(fixed=dict(n=20, family=4, mode=1, threads=8, sweeps=3), fixedb4=dict(n=8, bs=4, family=6, mode=1, threads=8, sweeps=2), relax=dict(n=30, family=3, mode=4, its=2, threads=8, param=2), relaxb4=dict(n=12, bs=4, family=4, mode=4, its=2, threads=8, param=2)).items()])
_lev = tuple((k, dict(threads=8, **v)) for k, v in dict(chain=dict(n=60, kind=0), arrow=dict(n=60, family=1, kind=0), first=dict(n=60, family=2, kind=0), mixed=dict(n=40, family=6, kind=0), relax=dict(n=40, family=4, kind=1, its=2), ilu=dict(n=24, family=6, kind=2, param=0), iluarrow=dict(n=40, family=2, kind=2, param=0), ilutf=dict(n=16, family=4, kind=2, tf=1, nb=2, param=0), ilub4=dict(n=8, bs=4, family=6, kind=2, param=0), sgsb4=dict(n=16, bs=4, family=6, kind=0), relaxb4=dict(n=12, bs=4, family=1, kind=1)).items())
big('C15', 'c15_levels', SRC_LEV, *_lev); big('C02', 'c15_levels', SRC_LEV, *[x for x in _lev if 'tf' not in x[0]]); big('C13', 'c15_levels', SRC_LEV, *[x for x in _lev if 'tf' in x[0]])
_ch = tuple((k, dict(dict(chunk=5, sweeps=2), **v)) for k, v in dict(arrow=dict(n=80, family=1, param=2), relax=dict(n=40, family=3, relax=1), b2=dict(n=16, bs=2, family=3), b4=dict(n=10, bs=4, family=6, relax=1), fixed=dict(n=40, family=3, mode=1, threads=8, sweeps=3), fixedb4=dict(n=16, family=4, mode=1, threads=8, bs=4), fixedrelax=dict(n=30, family=1, mode=1, relax=1, threads=8)).items())
big('C16', 'c16_chaotic', SRC_CH, *_ch); big('C13', 'c16_chaotic', SRC_CH, *[('gs' + k, v) for k, v in _ch if 'fixed' in k])
_cs = tuple((k, dict(chunk=5, **v)) for k, v in dict(arrow=dict(n=80, family=1, param=2), rep=dict(n=40, family=3, rep=3), fixed=dict(n=40, family=4, threads=8, sweeps=2)).items())
big('C17', 'c17_csc', SRC_SGS, *_cs); big('C13', 'c17_csc', SRC_SGS, ('csc' + _cs[2][0], _cs[2][1]))
big('C18', 'c18_factory', SRC_FAC, ('csr', dict(n=12, param=0, minsweeps=1, maxinfo=0, maxscale=0)), ('b4', dict(bs=4, n=5, param=0, minsweeps=1, maxsweeps=1, maxinfo=0)), ('b4r', dict(bs=4, rm=1, n=5, family=6, minsweeps=1, maxsweeps=1, maxscale=0, param=0)), ('b5', dict(bs=5, n=4, param=0, minsweeps=1, maxsweeps=1, maxinfo=0)))
big('C19', 'c19_diag', SRC_LEV, *[(k, dict(dict(n=12, param=0, finit=1), **v)) for k, v in dict(band=dict(), zero=dict(nb=0), arrow=dict(family=1), p1=dict(param=1, mins=0), b2=dict(bs=2, n=6), b4=dict(bs=4, n=4, nb=0), t8=dict(n=20, threads=8, nb=0), lev=dict(kind=1), scale=dict(scale=1, n=5)).items()])
big('C02', 'c19_diag', SRC_LEV, ('diag', dict(n=20, family=1, param=0, finit=1, threads=8, nb=0)), ('diagb4', dict(n=8, bs=4, family=1, param=0, finit=1, threads=8, nb=0)))
for _k in range(8):
    big('C20', 'c20_history', SRC_FAC, ('k%d' % _k, dict(kind=_k, n=12, family=6, ops=2, maxsweeps=1)))
    if _k in (0, 2, 3, 4, 7): big('C20', 'c20_history', SRC_FAC, ('k%d-t8' % _k, dict(kind=_k, n=12, family=6, ops=2, maxsweeps=1, threads=8)))
    if _k in (0, 3, 5, 7): big('C20', 'c20_history', SRC_FAC, ('k%d-b4' % _k, dict(kind=_k, bs=4, n=5, family=6, ops=2, maxsweeps=1)))
big('C20', 'c20_history', SRC_FAC, *[('k%d-b4' % k, dict(kind=k, bs=4, n=5, family=6, ops=2, maxsweeps=1, tier='thorough')) for k in (1, 2, 4)])
for _k in range(11): big('C24', 'c24_frozen', SRC_FRZ, ('k%d' % _k, dict(kind=_k, n=12, family=6, maxsweeps=1, pages=1, threads=8)))
big('C22', 'c22_sai', SRC_SAI, ('full', dict(n=20, family=1, mode=0)), ('inc', dict(n=20, family=1, mode=1)), ('full-scattered', dict(n=20, family=3, mode=0)), ('inc-mixed', dict(n=20, family=6, mode=1)), ('isai', dict(n=8, mode=2, param=0)))
big('C23', 'c23_mm', SRC_COO, ('headers', dict(n=20, mode=0, family=1, maxnnz=700)), ('truncated', dict(n=20, mode=1, family=1, maxnnz=700)), ('dense', dict(n=7, m=9, mode=4)), ('build', dict(n=40, mode=5, family=1, maxnnz=700)), ('build-b2', dict(n=40, bs=2, mode=5, family=3, maxnnz=700)))
# the same checks twice in one run, on two matrices: nothing may carry over from one object to a later one
def again(pid, harness, srcs, *jobs):
    for name, x in jobs:
        for q in (pid, 'C20'): PROPS[q]['jobs'].append(H(harness, srcs, 'again-' + (name if q == pid else pid + '-' + name), dict(x, again=1), 'quick'))
again('C10', 'c10_jacobi', SRC_PREC, ('csr', dict(n=2, mode=0)), ('relax', dict(n=2, mode=1, its=2)), ('tol', dict(n=2, mode=2, its=3, pat=16, param=0, diagv=1, offm=8)))
again('C11', 'c11_ilu', SRC_ILU, ('csr', dict(n=3, pat=2, mode=0, finit=1, ainit=0, chunk=1)), ('b2', dict(n=2, bs=2, pat=2, mode=0, finit=1, ainit=0, chunk=1)))
again('C14', 'c14_sgs', SRC_SGS, ('csr', dict(n=3, pat=2, mode=0, ainit=1, chunk=1)), ('b2', dict(n=2, bs=2, mode=0, ainit=1, chunk=1)))
again('C15', 'c15_levels', SRC_LEV, ('sgs', dict(n=3, kind=0, threads=2)), ('relax', dict(n=3, kind=1, threads=2)), ('ilu', dict(n=3, kind=2, threads=2)), ('sgs-b2', dict(n=3, kind=0, bs=2, threads=2)))
again('C16', 'c16_chaotic', SRC_CH, ('csr', dict(n=2, mode=0, chunk=1)))
again('C17', 'c17_csc', SRC_SGS, ('csr', dict(n=3, pat=2, chunk=1)))
again('C22', 'c22_sai', SRC_SAI, ('full', dict(n=3, mode=0, pat=2)), ('inc', dict(n=3, mode=1, pat=2)))
for _k in range(7): PROPS['C20']['jobs'].append(H('c20_history', SRC_FAC, 'other-k%d' % _k, dict(kind=_k, other=1, ops=1, maxsweeps=1, n=2), 'quick'))
for _k in (0, 1, 2, 3, 4, 5): PROPS['C20']['jobs'].append(H('c20_history', SRC_FAC, 'other-b2-k%d' % _k, dict(kind=_k, other=1, ops=1, maxsweeps=1, n=2, bs=2, pat=16), 'quick'))
PROPS['C23']['jobs'].append(H('c05_coo', SRC_COO, 'reread', dict(n=2, bs=1, pre=1), 'quick'))
# hundreds to thousands of rows (tridiagonal band): code that treats large sizes differently
_w = dict(family=0, param=2, threads=16); _w0 = dict(_w, param=0); _w1 = dict(family=0, param=0)
big('C01', 'c01_spmv', SRC_MAT, ('wide', dict(_w, n=1100, which=0)), ('wide-b2', dict(_w, n=600, which=1, bs=2)), ('wide-b4c', dict(_w, n=270, which=2, bs=4)))
big('C02', 'c01_spmv', SRC_MAT, ('wide', dict(_w, n=1100, which=0)), ('wide-b2', dict(_w, n=600, which=1, bs=2)))
big('C04', 'c04_own', SRC_ASM, ('wide', dict(_w1, n=150, mode=0)))
big('C06', 'c06_csc', SRC_C06, ('wide', dict(_w, n=300, mode=0))); big('C02', 'c06_csc', SRC_C06, ('wide', dict(_w, n=300, mode=0)))
big('C07', 'c07_tri', SRC_MAT, ('wide', dict(_w, n=1100)), ('wide-b2', dict(_w, n=600, bs=2)))
big('C08', 'c08_reorder', SRC_C08, ('wide', dict(_w, n=300, mode=0, bigperm=7)), ('wide-vec', dict(_w, n=300, mode=1, bigperm=7)))
big('C09', 'c09_helpers', SRC_C09, ('wide-sort', dict(n=300, mode=0, big=1)), ('wide-scan', dict(n=1100, mode=1, big=1)))
big('C10', 'c10_jacobi', SRC_PREC, ('wide', dict(_w, n=1100, mode=0)), ('wide-relax', dict(_w, n=1100, mode=1, its=2)), ('wide-b4', dict(_w0, n=270, bs=4, mode=0)))
big('C11', 'c11_ilu', SRC_ILU, ('wide', dict(_w1, n=300, finit=1, ainit=0, chunk=5)))
big('C14', 'c14_sgs', SRC_SGS, ('wide', dict(_w1, n=300, mode=0, chunk=64, ainit=1)))
big('C15', 'c15_levels', SRC_LEV, ('wide', dict(_w0, n=300, kind=0)))
big('C16', 'c16_chaotic', SRC_CH, ('wide', dict(_w1, n=200, mode=0, chunk=64)), ('wide-async', dict(_w1, n=300, mode=1, chunk=64)))
big('C17', 'c17_csc', SRC_SGS, ('wide', dict(_w1, n=1100, chunk=64)))
big('C19', 'c19_diag', SRC_LEV, ('wide', dict(_w1, n=400, finit=1)))
# rows and columns with hundreds of entries (arrow)
_w = dict(family=1, param=2, threads=16); _w0 = dict(_w, param=0); _w1 = dict(family=1, param=0)
big('C01', 'c01_spmv', SRC_MAT, ('row', dict(_w, n=700, which=0))); big('C06', 'c06_csc', SRC_C06, ('row', dict(_w, n=300, mode=0))); big('C07', 'c07_tri', SRC_MAT, ('row', dict(_w, n=400)))
big('C10', 'c10_jacobi', SRC_PREC, ('row', dict(_w0, n=400, mode=1, its=2))); big('C11', 'c11_ilu', SRC_ILU, ('row', dict(_w1, n=150, finit=1, ainit=0, chunk=5)))
big('C14', 'c14_sgs', SRC_SGS, ('row', dict(_w1, n=200, mode=0, chunk=64, ainit=1))); big('C15', 'c15_levels', SRC_LEV, ('row', dict(_w0, n=150, kind=0)))
big('C16', 'c16_chaotic', SRC_CH, ('row', dict(_w1, n=300, mode=0, chunk=64))); big('C17', 'c17_csc', SRC_SGS, ('row', dict(_w1, n=300, chunk=64)))

ASSUME = ['Arithmetic is over the reals: rounding, overflow and NaN are outside the encoding.',
          'Values divided by (pivots, diagonal entries, determinants of diagonal blocks) are assumed non-zero.',
          'Sizes are bounded by each job\'s cfg (n block rows, bs block size, threads, its/sweeps); every pattern and value within them is covered.',
          'Stored patterns are sorted by column, have at least one entry and, for preconditioners, a full diagonal.']
def evidence(pid, P, jobs, tier, info):
    t = info['tot']; sm = []
    for j, s in info['samples']:
        sm.append({'job': j['name'], 'cfg': j['cfg'], 'inputs': ['%s=%r' % (n, v) for n, v in s['model'][:40]], 'outputs': s['out'][:12]})
    return {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'assumptions': ASSUME + P.get('assume', []), 'violations': len(info['findings']),
            'coverage': {'states': t.get('completed', 0) + t.get('branches', 0), 'transitions': t.get('insts', 0), 'traces_validated_against_impl': info['nval'] - info['nmis'], 'samples': sm[:6],
                'meaning': 'states: symbolic path ends plus symbolic branch points of the executed IR; transitions: IR instructions executed symbolically; each path stands for all real values satisfying its condition; traces: concrete runs of the natively compiled code whose outputs equal the ones the encoding predicts',
                'paths_completed': t.get('completed', 0), 'paths_pruned_infeasible': t.get('pruned', 0), 'assertions_checked': t.get('asserts', 0), 'assertions_syntactically_true': t.get('asserts_trivial', 0),
                'solver_queries': t.get('queries', 0), 'queries_unsat': t.get('unsat', 0), 'queries_sat': t.get('sat', 0), 'queries_unknown': t.get('unk', 0), 'solver_seconds': round(t.get('solver_secs', 0), 2),
                'rational_identities': t.get('identities', 0), 'rational_identities_decided_by_z3': t.get('identities_z3', 0), 'divisors_assumed_nonzero': t.get('assumed_nonzero', 0), 'inconclusive_asserts': t.get('inconclusive', 0),
                'functions_encoded': info['funcs'], 'source_lines_covered': len(info['lines']), 'jobs': info['perjob'], 'inconclusive': info['incon'][:20], 'unconfirmed': info['unconf'][:20], 'findings': info['findings'], 'known_findings_seen': info['known'], 'build_s': round(info['build'], 1)},
            'wall_s': round(info['wall'], 2)}
