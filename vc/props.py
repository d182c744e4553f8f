"""Which contracts decide which property, and which replay harness searches a failing input."""
# job name -> (module, function, argument, time limit in seconds)
J = {}


def job(name, mod, fn, arg='', limit=600):
    J[name] = (mod, fn, arg, limit)


for f in ('V_res', 'evaluate', 'phase1_init', 'phase2_init', 'phase1_update', 'phase2_update', 'finalize', 'sumcheck_init', 'init_array'):
    job('fast.' + f, 'spec_fast', f)
PREDS = ('add', 'mult', 'not_gate', 'xor_gate', 'minus_gate', 'NAAB_gate', 'sum_gate', 'relay_gate')
for f in PREDS:
    job('fastv.' + f, 'spec_fastv', 'pred', f)
for f in ('beta_init', 'direct_relay', 'generate_randomness', 'V_in', 'verify'):
    job('fastv.' + f, 'spec_fastv', f)

for f in ('V_res', 'evaluate', 'sumcheck_init', 'init_array', 'phase1_init', 'phase1_update', 'phase2_init', 'phase2_update', 'finalize'):
    job('trad.' + f, 'spec_trad', 't_' + f)
for f in ('add', 'mult'):
    job('tradv.' + f, 'spec_trad', 'tv_pred', f)
for f in ('beta_init', 'V_in', 'randomness', 'verify'):
    job('tradv.' + f, 'spec_trad', 'tv_' + f)

for f in ('V_res', 'evaluate', 'sumcheck_init', 'init_array', 'phase0_init', 'phase0_update', 'phase1_init', 'phase1_update', 'phase2_init', 'phase2_update', 'finalize'):
    job('blk.' + f, 'spec_blk', 'b_' + f)
for f in ('add', 'mult'):
    job('blkv.' + f, 'spec_blk', 'bv_pred', f)
for f in ('beta_init', 'V_in', 'randomness', 'verify'):
    job('blkv.' + f, 'spec_blk', 'bv_' + f)

for f in ('fast', 'trad', 'blk'):
    job('read.' + f, 'spec_read', 'r_' + f)

for f in ('fast', 'trad', 'blk'):
    job('main.' + f, 'spec_main', 'm_' + f)

WIDE = ['field.' + f for f in ('u256_arith', 'u256_mul', 'u256_cmp', 'u512_ctor', 'u512_addsub', 'u512_mul', 'u512_mod', 'u512_cmp')]
FE = ['field.' + f for f in ('fe_ctor', 'fe_add', 'fe_sub', 'fe_mul', 'fe_cmp')]
for f in ('u256_arith', 'u256_mul', 'u256_cmp', 'u256_bits', 'u512_ctor', 'u512_addsub', 'u512_mul', 'u512_mod', 'u512_cmp', 'fe_ctor', 'fe_add', 'fe_sub', 'fe_mul', 'fe_cmp', 'fe_bits', 'rand_fn', 'init_globals'):
    job('field.' + f, 'spec_field', f, limit=400)
job('poly.all', 'spec_poly', 'all_poly', limit=300)
CORE = WIDE + FE + ['field.init_globals']      # everything the protocol code relies on
FAST_PRED = ['fastv.' + f for f in PREDS] + ['fastv.beta_init', 'fastv.direct_relay']
FAST_PROVER = ['fast.' + f for f in ('phase1_init', 'phase2_init', 'phase1_update', 'phase2_update', 'finalize', 'sumcheck_init', 'init_array')]

TRAD_PROVER = ['trad.' + f for f in ('sumcheck_init', 'init_array', 'phase1_init', 'phase1_update', 'phase2_init', 'phase2_update', 'finalize')]
TRAD_PRED = ['tradv.' + f for f in ('add', 'mult', 'beta_init')]

BLK_PROVER = ['blk.' + f for f in ('sumcheck_init', 'init_array', 'phase0_init', 'phase0_update', 'phase1_init', 'phase1_update', 'phase2_init', 'phase2_update', 'finalize')]
BLK_PRED = ['blkv.' + f for f in ('add', 'mult', 'beta_init')]

# property -> jobs, harness runs [(harness, tests)]
PROPS = {
    'P01': dict(jobs=CORE, harness=[('field', 'ak')]),
    'P02': dict(jobs=WIDE + ['field.u256_bits', 'field.init_globals'], harness=[('field', 'wk')]),
    'P03': dict(jobs=['field.u256_cmp', 'field.u512_cmp', 'field.fe_cmp'], harness=[('field', 'wa')]),
    'P04': dict(jobs=['field.fe_ctor', 'field.fe_bits', 'field.u256_bits', 'field.init_globals', 'field.u512_ctor', 'field.u512_addsub', 'field.u256_arith', 'field.u256_mul', 'field.u256_cmp', 'field.u512_mul'], harness=[('field', 'ck')]),
    'P05': dict(jobs=['poly.all'] + CORE, harness=[('field', 'p')]),
    'P06': dict(jobs=['fast.evaluate'] + CORE, harness=[('fast', 'e')]),
    'P07': dict(jobs=['fast.V_res', 'fastv.V_in'] + CORE, harness=[('fast', 'm')]),
    'P08': dict(jobs=FAST_PRED + CORE, harness=[('fast', 'p')]),
    'P09': dict(jobs=FAST_PROVER + CORE + ['poly.all'], harness=[('fast', 'r')]),
    'P10': dict(jobs=['fastv.verify', 'fastv.V_in', 'fastv.generate_randomness', 'field.rand_fn', 'poly.all'] + FAST_PRED + CORE, harness=[('fast', 'c'), ('fast', 'pmg')]),
    'P11': dict(jobs=['fast.evaluate', 'fast.V_res', 'fastv.verify', 'fastv.V_in', 'poly.all'] + FAST_PRED + FAST_PROVER + CORE, harness=[('fast', 'h'), ('fast', 'rpe')]),
    'P12': dict(jobs=['trad.evaluate', 'trad.V_res', 'tradv.V_in', 'blk.evaluate', 'blk.V_res', 'blkv.V_in'] + CORE, harness=[('trad', 'em'), ('blk', 'em')]),
    'P13': dict(jobs=['trad.evaluate', 'trad.V_res', 'tradv.verify', 'tradv.V_in', 'poly.all', 'field.fe_bits'] + TRAD_PRED + TRAD_PROVER + CORE, harness=[('trad', 'h'), ('trad', 'rp')]),
    'P14': dict(jobs=['tradv.verify', 'tradv.V_in', 'tradv.randomness', 'field.rand_fn', 'poly.all'] + TRAD_PRED + CORE, harness=[('trad', 'c'), ('trad', 'pmg')]),
    'P15': dict(jobs=['blk.evaluate', 'blk.V_res', 'blkv.verify', 'blkv.V_in', 'poly.all', 'field.fe_bits'] + BLK_PRED + BLK_PROVER + CORE, harness=[('blk', 'h'), ('blk', 'rp')]),
    'P16': dict(jobs=['blkv.verify', 'blkv.V_in', 'blkv.randomness', 'field.rand_fn', 'poly.all'] + BLK_PRED + CORE, harness=[('blk', 'c'), ('blk', 'pm')]),
    'P17': dict(jobs=['fastv.generate_randomness', 'field.rand_fn', 'fastv.verify', 'tradv.randomness', 'tradv.verify', 'blkv.randomness', 'blkv.verify'] + CORE,
                harness=[('field', 'g'), ('fast', 'gc'), ('trad', 'gc'), ('blk', 'gc')]),
    'P18': dict(jobs=['read.fast', 'read.trad', 'read.blk'], harness=[('fast', 'f'), ('trad', 'f'), ('blk', 'f')]),
    'P19': dict(jobs=['main.fast', 'main.trad', 'main.blk', 'field.init_globals'], harness=[('main0', 'v'), ('main1', 'v'), ('main2', 'v')]),
}

LG = 'src/linear_gkr/'
TG = 'src/traditional_gkr/'
# harness -> [(source, extra flags)]; sources relative to the repository unless they start with '@' (relative to /verif/harness)
HARNESS = {
    'field': [('@field.cpp', []), (LG + 'polynomial.cpp', [])],
    'fast': [(LG + 'prover_fast_track.cpp', ['-Dprover=real_prover']), (LG + 'verifier_fast_track.cpp', []), (LG + 'prime_field.cpp', []),
             (LG + 'polynomial.cpp', []), ('@fast.cpp', [])],
    'trad': [(TG + 'prover_clogc.cpp', ['-Dprover=real_prover']), (TG + 'verifier_traditional.cpp', []), (LG + 'prime_field.cpp', []),
             (LG + 'polynomial.cpp', []), ('@fast.cpp', ['-DTRAD'])],
    'blk': [(TG + 'prover_bc_clogc.cpp', ['-Dprover=real_prover']), (TG + 'verifier_bc_clogc.cpp', []), (LG + 'prime_field.cpp', []),
            (LG + 'polynomial.cpp', []), ('@blk.cpp', [])],
    'main0': [(LG + 'main_fast_track.cpp', ['-Dmain=real_main']), (LG + 'prime_field.cpp', []), ('@main.cpp', ['-DKIND=0'])],
    'main1': [(TG + 'bclogc.cpp', ['-Dmain=real_main']), (LG + 'prime_field.cpp', []), ('@main.cpp', ['-DKIND=1'])],
    'main2': [(TG + 'bc_clogc.cpp', ['-Dmain=real_main']), (LG + 'prime_field.cpp', []), ('@main.cpp', ['-DKIND=2'])],
}
