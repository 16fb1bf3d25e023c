"""Which plan, harness builds and design models decide each property."""
SMALL_T = ['-D__FFLASFFPACK_WINOTHRESHOLD=14', '-D__FFLASFFPACK_WINOTHRESHOLD_FLT=14', '-D__FFLASFFPACK_WINOTHRESHOLD_BAL=14', '-D__FFLASFFPACK_WINOTHRESHOLD_BAL_FLT=14']
def mk(src, types, flags=(), **kw):
    return [dict(src=src, ty=t, vt=t, flags=list(flags), **kw) for t in types]
PROPS = {}
def lg(src, types=('MD', 'M64', 'BF'), flags=()):
    """the same harness with the library's default thresholds, for larger operands"""
    return [dict(src=src, ty=t + '_L', vt=t, flags=list(flags)) for t in types]
def c01(tier):
    b = mk('h_gemm', ['MD', 'BD', 'MF', 'BF', 'M32', 'M64', 'B32', 'B64', 'ZD', 'MI', 'ZI'], SMALL_T)
    return b
PROPS['C01'] = dict(plan='Plan_C01', builds=c01)
PROPS['C02'] = dict(plan='Plan_C02', models=[dict(module='Delay', cfg='Delay.cfg', cfg_thorough='Delay_thorough.cfg')], pure_max=(1800, 600), builds=lambda tier: mk('h_delay', ['MD', 'BD', 'MF', 'BF', 'M64', 'B64'], ['-DSYM_WINO']) + mk('h_delay', ['M32', 'B32']))
PROPS['C03'] = dict(plan='Plan_C03', builds=lambda tier: mk('h_l1', ['MD', 'BD', 'MF', 'BF', 'M32', 'M64', 'B32', 'B64', 'ZD', 'ZF', 'Z64', 'M16', 'MU32', 'MU64', 'MI', 'ZI', 'MR7', 'MR78'], threads='4'))
F8 = ['MD', 'BD', 'MF', 'BF', 'M32', 'M64', 'B32', 'B64']
PROPS['C04'] = dict(plan='Plan_C04', builds=lambda tier: mk('h_l2', F8 + ['ZD', 'Z64', 'MI', 'ZI', 'MR78']))
PROPS['C05'] = dict(plan='Plan_C05', builds=lambda tier: mk('h_tri', F8 + ['MI'], SMALL_T) + lg('h_tri', ('MD', 'M64')))

PROPS['C06'] = dict(plan='Plan_C06', pure_max=(1500, 600), builds=lambda tier: mk('h_sym', ['MD', 'BD', 'MF', 'BF', 'M64', 'B64'], SMALL_T + ['-DSYM_WINO']) + mk('h_sym', ['M32', 'B32'], SMALL_T) + mk('h_sym', ['MI'], SMALL_T + ['-DNO_FSYRK']) + lg('h_sym', ('MD', 'M64'), ['-DSYM_WINO']))

SMALL_E = SMALL_T + ['-D__FFLASFFPACK_PLUQ_THRESHOLD=6', '-D__FFLASFFPACK_LUDIVINE_THRESHOLD=5']
PROPS['C07'] = dict(plan='Plan_C07', pure_max=(1500, 400), builds=lambda tier: mk('h_lu', F8 + ['MI'], SMALL_E) + lg('h_lu'))
PROPS['C08'] = dict(plan='Plan_C08', pure_max=(1500, 400), builds=lambda tier: mk('h_lu', F8 + ['MI'], SMALL_E) + lg('h_lu'))
PROPS['C09'] = dict(plan='Plan_C09', pure_max=(1500, 400), builds=lambda tier: mk('h_ech', F8 + ['MI'], SMALL_E + ['-D__FFLASFFPACK_GAUSSJORDAN_BASECASE=3']) + lg('h_ech'))
SMALL_G = SMALL_E + ['-D__FFLASFFPACK_GAUSSJORDAN_BASECASE=3', '-D__FFLASFFPACK_FTRTRI_THRESHOLD=4']
PROPS['C10'] = dict(plan='Plan_C10', pure_max=(1500, 400), builds=lambda tier: mk('h_sol', F8 + ['MI'], SMALL_G) + mk('h_sol', ['ZI'], SMALL_G + ['-DDET_ONLY']) + lg('h_sol'))
PROPS['C11'] = dict(plan='Plan_C11', pure_max=(1500, 400), builds=lambda tier: mk('h_sol', F8 + ['MI'], SMALL_G) + lg('h_sol'))

SMALL_C = SMALL_G + ['-D__FFLASFFPACK_ARITHPROG_THRESHOLD=5']
PROPS['C12'] = dict(plan='Plan_C12', pure_max=(1500, 250), builds=lambda tier: mk('h_poly', F8 + ['MI'], SMALL_C) + mk('h_poly', ['ZI'], SMALL_C + ['-DNO_LIST', '-DNO_MINPOLY']) + lg('h_poly'))
PROPS['C13'] = dict(plan='Plan_C13', pure_max=(1500, 400), builds=lambda tier: mk('h_perm', F8 + ['MI'], threads='4'))
PROPS['C17'] = dict(plan='Plan_C17', builds=lambda tier: mk('h_sparse', F8 + ['ZD', 'ZI', 'MI'], ['-DFMTS=0xccf', '-DMMFMTS=0xccf']))
PROPS['C15'] = dict(plan='Plan_C15', pure_max=(3000, 400), builds=lambda tier: mk('h_split', ['MD'], threads='4'), models=[dict(module='Split_MC', cfg='Split_MC.cfg', cfg_thorough='Split_MC_thorough.cfg')])
PROPS['C16'] = dict(plan='Plan_C16', pure_max=(1500, 900), builds=lambda tier: mk('h_rns', ['ZI', 'MI'], SMALL_C, threads='4'))
PROPS['C19'] = dict(plan='Plan_C19', builds=lambda tier: mk('h_io', F8 + ['MI', 'ZI', 'ZD', 'Z64', 'MU32', 'MU64', 'M16', 'MR7']), models=[dict(module='Io_MC', cfg='Io_MC.cfg', cfg_thorough='Io_MC_thorough.cfg')])
PROPS['C21'] = dict(plan='Plan_C21', pure_max=(1500, 600), builds=lambda tier: mk('h_chk', F8 + ['MI'], SMALL_C) + [dict(src='h_chkall', ty=t + 'c', vt=t, flags=list(SMALL_C)) for t in ['MD', 'BD', 'MF', 'M64', 'B32', 'MI']])
PROPS['C22'] = dict(plan='Plan_C22', pure_max=(1500, 500), builds=lambda tier: mk('h_rand', F8 + ['MI'], SMALL_E))
PROPS['C20'] = dict(plan='Plan_C20', pure_max=(1500, 500), builds=lambda tier: mk('h_qs', F8 + ['MI'], SMALL_E))

CLIBS = ['ffpack_inst', 'ffpack', 'fflas_L3_inst', 'fflas_L2_inst', 'fflas_L1_inst', 'fflas_lvl1', 'fflas_lvl2', 'fflas_lvl3']
def c18(tier):
    out = []
    for src in ['h_lu', 'h_ech', 'h_sol', 'h_perm', 'h_tri', 'h_l1', 'h_l2', 'h_gemm']:
        for t in ['MD', 'BD'] + (['MF', 'BF', 'M32', 'B32'] if src == 'h_ech' else []):
            out.append(dict(src=src, ty='%s_%s' % (t, src), vt=t, flags=['-DVCAPI'], repolibs=CLIBS))
    return out
PROPS['C18'] = dict(plan='Plan_C18', pure_max=(1500, 400), builds=c18)

PARF = ['-finstrument-functions', '-D__FFLASFFPACK_SEQPARTHRESHOLD=3', '-DPTRSM_HYBRID_THRESHOLD=4', '-D__FFLASFFPACK_PLUQ_THRESHOLD=6'] + SMALL_T
def c14(tier):
    out = []
    for part, types in ([(1, F8 + ['MI', 'ZI']), (2, ['MD', 'BD', 'MF', 'BF', 'M64', 'B32', 'MI']), (3, ['MD', 'BD', 'MF', 'M64', 'B32', 'MI']), (4, ['MD', 'M64', 'MF', 'BD'])] if tier == 'thorough' else
                        [(1, ['MD', 'BF', 'M64', 'B32', 'MI', 'ZI']), (2, ['MD', 'BF', 'M64', 'MI']), (3, ['MD', 'B32', 'M64', 'MI']), (4, ['MD', 'M64'])]):
        for t in types:
            fl = PARF + ['-DPART=%d' % part] + (['-DWPAR'] if part == 1 and t == 'MD' else []) + (['-DZOMM'] if part == 4 and t in ('MD', 'M64') else [])
            out.append(dict(src='h_par', ty='%s_%d' % (t, part), vt=t, flags=fl, extra_src=['vomp.cpp'], case_timeout=20))
    return out
PROPS['C14'] = dict(plan='Plan_C14', pure_max=(1500, 400), builds=c14)
PROPS['C23'] = dict(plan='Plan_C23', pure_max=(1500, 400), builds=lambda tier: mk('h_simd', ['MD']))
