"""Which check decides which property, with its job generator and a description for the evidence file."""


def jobs(mod, name):
    def f(rng, tier):
        import importlib
        return getattr(importlib.import_module('sim.checks.' + mod), name)(rng, tier)
    return f


def shr(mod, name):
    def f(plan):
        import importlib
        return getattr(importlib.import_module('sim.checks.' + mod), name)(plan)
    return f


class _Shrinker:
    def __init__(self, mod, name):
        self.shrink = shr(mod, name)


CHECKS = {
    'C01': dict(mod='ra', fn='c01', jobs=jobs('ra', 'c01_jobs'), shrinker=_Shrinker('ra', 'c01_shrink'), helpers=2,
                rule='one run = one complete analysis of a generated crater count under one worker count, start method, duration profile, schedule seed, '
                     'interpreter hash seed, entropy and clock, compared with the one-worker run; non-trivial if trials completed out of submission order or '
                     'the hash seed differs'),
    'C02': dict(mod='ra', fn='c02', jobs=jobs('ra', 'c02_jobs'), shrinker=_Shrinker('ra', 'c02_shrink'),
                rule='one run = one analysis with equally populated bins under one schedule; distinct by worker count, start method and completion order'),
    'C03': dict(mod='ra', fn='c03', jobs=jobs('ra', 'c03_jobs'), shrinker=_Shrinker('ra', 'c03_shrink'),
                rule='one run = one simulated configuration produced from adversarial (legal) random numbers and compared with brute-force geometry; '
                     'non-trivial if the adversary was active'),
    'C04': dict(mod='ra', fn='c04', jobs=jobs('ra', 'c04_jobs'), level='fault_enumeration',
                rule='one run = a second analysis disturbed at one point (kill, interrupt, disk error, failing trial, worker death) followed by an undisturbed repetition; '
                     'distinct by analysis pair, fault kind and event hit'),
    'C05': dict(mod='ra', fn='c05', jobs=jobs('ra', 'c05_jobs'), level='fault_enumeration',
                rule='one run = a sequence of analyses on one object in which one point fails or is cancelled, inspected and asked again; non-trivial if a step really failed'),
    'C06': dict(mod='ra', fn='c06', jobs=jobs('ra', 'c06_jobs'),
                rule='one run = one operation of a random history of analyses, judged against the model; non-trivial if results were recorded before'),
    'C07': dict(mod='ra', fn='c07', jobs=jobs('ra', 'c07_jobs'),
                rule='one run = one computation with a progress listener under one schedule, failure or cancellation; non-trivial if disturbed or completed out of order'),
    'C19': dict(mod='ra', fn='c19', jobs=jobs('ra', 'c19_jobs'),
                rule='one run = one interleaving of a writer with a reader or second writer at file-operation granularity; distinct by the interleaving'),
    'C08': dict(mod='cli', fn='c08', jobs=jobs('cli', 'c08_jobs'), level='fault_enumeration',
                rule='one run = one generated command with one disk fault (or legal short transfers) injected at one file operation, compared with its undisturbed run; '
                     'non-trivial if the fault fired; distinct by command, fault and operation hit'),
    'C09': dict(mod='cli', fn='c09', jobs=jobs('cli', 'c09_jobs'), level='fault_enumeration',
                rule='one run = one generated command disturbed one to three times in a row (kill, interrupt, disk fault, failing trial, worker death) and then repeated '
                     'undisturbed; non-trivial if an attempt really failed; distinct by command and faults hit'),
    'C10': dict(mod='cli', fn='c10', jobs=jobs('cli', 'c10_jobs'), level='fault_enumeration',
                rule='one run = one generated command, undisturbed or disturbed at one point, with the complete scratch tree and installation compared before and after; '
                     'non-trivial if undisturbed or the fault fired'),
    'C11': dict(mod='cli', fn='c11', jobs=jobs('cli', 'c11_jobs'), level='fault_enumeration',
                rule='one run = one generated command in which opening or reading one input fails once, from some point on, or always (or all transfers are short); '
                     'non-trivial if the fault fired; distinct by command and fault'),
    'C12': dict(mod='cli', fn='c12', jobs=jobs('cli', 'c12_jobs'), level='fault_enumeration',
                rule='one run = one operation of a random history of settings (disturbed or not), changes of the named files, and uses from several directories, judged against '
                     'the model of the stored setting; non-trivial if disturbed or a setting exists'),
    'C13': dict(mod='cli', fn='c13', jobs=jobs('cli', 'c13_jobs'),
                rule='one run = one command of a random sequence in one process (with invalid, failing or interrupted commands in between), compared with the same command run '
                     'alone in a fresh process from the same disk state; non-trivial if not the first of its sequence'),
    'C16': dict(mod='cli', fn='c16', jobs=jobs('cli', 'c16_jobs'), helpers=3,
                rule='one run = one generated command in one environment (hash seed, processor count, clock and clock jumps, directory order, order of formats) or with one format alone, '
                     'compared with the reference environment'),
    'C18': dict(mod='cli', fn='c18', jobs=jobs('cli', 'c18_jobs'), helpers=2,
                rule='one run = one saved command file executed from one directory in one process environment, or one disturbed attempt to save over it, compared with the original command'),
    'C20': dict(mod='cli', fn='c20', jobs=jobs('cli', 'c20_jobs'), level='fault_enumeration',
                rule='one run = one generated command or analysis, undisturbed or disturbed at one point (disk fault, interrupt, out of memory, failing trial, worker death, worker not '
                     'started, failing listener), inspected for what it leaves behind and repeated in the same process; non-trivial if the fault fired; distinct by command and point hit'),
    'C21': dict(mod='cli', fn='c21', jobs=jobs('cli', 'c21_jobs'),
                rule='one run = one interleaving, at file-operation granularity, of two or three commands running at the same time (undisturbed, or one of them killed, interrupted or hit by a '
                     'disk fault), each compared with running alone; distinct by the points at which they alternate; non-trivial if they alternate'),
    'C14': dict(mod='api', fn='c14', jobs=jobs('api', 'c14_jobs'), level='fault_enumeration',
                rule='one run = one operation of a random interleaving of analyses on shared crater counts (undisturbed, or interrupted at an internal call and repeated), compared with the '
                     'same operation on freshly loaded counts in a fresh process; non-trivial if other operations came before'),
    'C15': dict(mod='api', fn='c15', jobs=jobs('api', 'c15_jobs'), level='fault_enumeration',
                rule='one run = one drawing, saving or tabulating in a random history over several plot sets (undisturbed, or interrupted at an internal call or hit by a disk error), compared '
                     'with the same operation done first in a fresh process; non-trivial if other operations came before'),
    'C17': dict(mod='api', fn='c17', jobs=jobs('api', 'c17_jobs'),
                rule='one run = one cell of a grid evaluated under recorded (often adversarial) random counts, compared with its evaluation alone in a fresh process and with an independent '
                     'calculation; grids are evaluated undisturbed, stopped part-way and repeated; non-trivial if the count differs from the expected number'),
}
