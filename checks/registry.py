"""All claimed checks."""
from rsa import program
from rsa.hmon import run_harness, HarnessMonitor, UnionMonitor
from rsa.interp import State
from rsa.sched import SchedMonitor, LocksetMonitor
from . import debug, lint, witness


class Check(object):
    def __init__(self, title, run, technique, level='other', note=''):
        self.title = title
        self.run = run
        self.technique = technique
        self.level = level
        self.note = note


CHECKS = {}


def harness_check(pid, files, sources=(), extra=(), cfg=None, more=None, mk=None):
    def run(rep, tier):
        prog = program.load(program.harness(*files) + program.repo(*sources), extra)
        run_harness(rep, prog, pid + '_', mk=mk, cfg=cfg)
        if more:
            more(rep, tier, prog)
    return run


AI = 'abstract interpretation of clang CFGs'

CHECKS['S01'] = Check('', harness_check('S01', ['status.cc'], ['rst/status/status.cc']), AI)
ST = ['rst/status/status.cc']


def s02(rep, tier):
    for extra in ((), ('-DNDEBUG',)):
        prog = program.load(program.harness('status_or.cc') + program.repo(*ST), extra)
        run_harness(rep, prog, 'S02_', tag='ndebug' if extra else '')


def s04(rep, tier):
    for extra in ((), ('-DNDEBUG',)):
        prog = program.load(program.harness('status_or.cc') + program.repo(*ST), extra)
        run_harness(rep, prog, 'S04_', tag='ndebug' if extra else '')
    witness.run(rep, 'try.cc')


CHECKS['S02'] = Check('', s02, AI)
CHECKS['S04'] = Check('', s04, AI + '; compile-fail witnesses (type-level)')
CHECKS['S05'] = Check('', harness_check('S05', ['rtti.cc'], ST + ['rst/files/file_utils.cc']), AI)


def both(pid, files, sources=(), cfg=None, mk=None, more=None):
    """the harness in a debug and in a release build"""
    def run(rep, tier):
        for extra in ((), ('-DNDEBUG',)):
            deep = ('-DVF_THOROUGH',) if tier == 'thorough' else ()
            prog = program.load(program.harness(*files) + program.repo(*sources), extra + deep)
            run_harness(rep, prog, pid + '_', tag='ndebug' if extra else '', cfg=cfg, mk=mk)
            if more:
                more(rep, prog)
    return run


CHECKS['N01'] = Check('', both('N01', ['not_null.cc']), AI)
CHECKS['N02'] = Check('', both('N02', ['not_null.cc']), AI)
CHECKS['W01'] = Check('', both('W01', ['weak.cc']), AI)
CHECKS['W02'] = Check('', both('W02', ['weak.cc']), AI)

DEFAULT_NOTE = (
    'Static: the current sources are parsed by clang, and an abstract interpreter evaluates the control-flow graphs '
    'of the library code symbolically from most-general-client entry points, with the library functions inlined and '
    'the C++ standard library replaced by models. A violation is reported only on a feasible abstract path; code '
    'without a model makes an obligation undecided (listed in the evidence) and raises no alarm.')

NOT_APPLICABLE = {
    'Q01': 'Durability across power loss depends on the file system and on fsync, which the library never calls; '
           'there is no program text whose shape decides what the disk holds after a crash.',
    'Q02': 'Liveness under a fair scheduler needs reasoning over infinite schedules and real clocks; the safety '
           'clauses that can be read off the code are claimed as P02, P05 and P06 instead.',
    'Q03': 'A statement about probabilities of the operating system random source; only the bit structure (G01) '
           'is visible in the code.',
    'Q04': 'Quantifies over real time and scheduling: no static bound on when a thread wakes up exists.',
    'Q05': 'Numeric: equality with a tolerance is not transitive for some doubles, which is a fact about floating '
           'point values and not about the shape of the code (the structural part is V05).',
    'Q06': 'Which digits %g produces is a numerical result of the C library at run time; the structural part '
           '(buffer bounds, format specifiers) is X02.',
}
TM = ['rst/timer/one_shot_timer.cc']
CHECKS['T01'] = Check('', both('T01', ['timer.cc'], TM, more=lambda rep, prog: lint.counter_width(
    rep, prog, 'rst::OneShotTimer', 64, 'a task token is never reused')), AI + '; query over the syntax tree')
CHECKS['T02'] = Check('', both('T02', ['timer.cc'], TM), AI)
VL = ['rst/value/value.cc']
for _p in ('V01', 'V02', 'V03', 'V04', 'V05', 'V06'):
    CHECKS[_p] = Check('', both(_p, ['value.cc'], VL, cfg={'unroll': 6}, mk=UnionMonitor), AI)


def wit(name, only=None):
    return lambda rep, tier: witness.run(rep, name, only)


CF = 'compile-fail witnesses (type-level)'
CHECKS['S03'] = Check('', wit('status.cc'), CF)



def joined(*runs):
    def run(rep, tier):
        for r in runs:
            r(rep, tier)
    return run


SR = ['rst/strings/format.cc', 'rst/strings/str_cat.cc']
TEXTCFG = {'unroll': 60, 'bounds': True, 'no_widening': True}
CHECKS['X01'] = Check('', both('X01', ['strings.cc'], SR, cfg=TEXTCFG), AI + ' with a text algebra')
CHECKS['X02'] = Check('', joined(wit('arg.cc'), both('X02', ['strings.cc'], SR, cfg=TEXTCFG)),
                      CF + '; ' + AI + ' with a text algebra')

FU = ['rst/status/status.cc', 'rst/files/file_utils.cc', 'rst/guid/guid.cc', 'rst/random/random_device.cc', 'rst/strings/str_cat.cc']
SK = ['rst/logger/file_name_sink.cc', 'rst/logger/file_ptr_sink.cc', 'rst/logger/log_error.cc', 'rst/logger/sink.cc']
FS = AI + ' with a model of C streams and the file system'
for _p in ('F01', 'F02', 'F03', 'F04'):
    CHECKS[_p] = Check('', both(_p, ['files.cc'], FU + SK, cfg=TEXTCFG), FS)

UT = ['utils.cc']
CHECKS['Y01'] = Check('', joined(wit('type.cc'), both('Y01', UT)), CF + '; ' + AI)
CHECKS['Y02'] = Check('', joined(wit('scope.cc', ('nd', 'storage')), both('Y02', UT)), CF + '; ' + AI)
CHECKS['Y03'] = Check('', joined(wit('scope.cc', ('defer',)), both('Y03', UT + ['defer_owned.cc'])), CF + '; ' + AI)
CHECKS['Y04'] = Check('', both('Y04', UT, cfg={'unroll': 5}), AI)
CHECKS['N01'] = Check('', joined(both('N01', ['not_null.cc']), wit('nullable.cc')), AI + '; ' + CF)
PR = ['rst/preferences/preferences.cc', 'rst/preferences/preferences_store.cc',
      'rst/preferences/memory_preferences_store.cc']
CHECKS['R01'] = Check('', both('R01', ['prefs.cc'], PR + VL, cfg={'unroll': 4}), AI)

TH = ['rst/threading/barrier.cc']
SCHED = AI + ' with a cooperative scheduler for the threads'
CHECKS['B01'] = Check('', both('B01', ['barrier.cc'], TH, mk=SchedMonitor), SCHED)
CHECKS['B02'] = Check('', both('B02', ['barrier.cc'], TH, mk=SchedMonitor), SCHED)
TP = TH + ['rst/task_runner/thread_pool_task_runner.cc', 'rst/task_runner/task_runner.cc']
for _p in ('P06', 'P09'):
    CHECKS[_p] = Check('', both(_p, ['pool.cc'], TP, mk=SchedMonitor), SCHED)
CHECKS['P05'] = Check('', both('P05', ['pool.cc'], TP, mk=SchedMonitor, cfg={'rules': ('notimeout', 'retest')}), SCHED)
LK = TP + TM + ['rst/task_runner/polling_task_runner.cc']
CHECKS['P03'] = Check('', both('P03', ['locks.cc'], LK, mk=SchedMonitor, cfg={'rules': ('nest',)}), SCHED)
CHECKS['P04'] = Check('', both('P04', ['locks.cc'], LK, mk=LocksetMonitor),
                      'lockset analysis over the paths of the abstract interpreter')
WIDTH = lambda rep, prog: lint.no_narrowing(rep, prog, 'rst/task_runner/', 'counts, ids and times keep their width')
CHECKS['P02'] = Check('', both('P02', ['pool.cc'], TP, mk=SchedMonitor, more=WIDTH), SCHED + '; query over the syntax tree')
PT = ['rst/task_runner/polling_task_runner.cc']
CHECKS['P07'] = Check('', both('P07', ['apply.cc'], TP + PT, mk=SchedMonitor, cfg={'rules': ('atomics',)}, more=WIDTH), SCHED + '; query over the syntax tree')
CHECKS['P01'] = Check('', both('P01', ['polling.cc'], TH + PT + ['rst/task_runner/task_runner.cc'], cfg={'unroll': 8, 'element_dtors': True},
                                 more=WIDTH), AI + '; query over the syntax tree')
CHECKS['P08'] = Check('', both('P08', ['delayed.cc'], TP, mk=SchedMonitor, more=WIDTH), SCHED + '; query over the syntax tree')
LG = ['rst/logger/logger.cc', 'rst/logger/sink.cc', 'rst/strings/format.cc', 'rst/strings/str_cat.cc']
CHECKS['L01'] = Check('', both('L01', ['logger.cc'], LG, cfg=TEXTCFG), AI + ' with a text algebra')
CHECKS['L02'] = Check('', both('L02', ['sinks.cc'], SK + ['rst/strings/str_cat.cc', 'rst/status/status.cc'], cfg=TEXTCFG, mk=SchedMonitor),
                      SCHED + ' and a model of C streams')
GD = ['rst/guid/guid.cc', 'rst/random/random_device.cc']
CHECKS['G01'] = Check('', both('G01', ['guid.cc'], GD, cfg=TEXTCFG), AI + ' with a bit-provenance domain')
CHECKS['G02'] = Check('', both('G02', ['guid.cc'], GD, cfg=dict(TEXTCFG, charsets=True)),
                      AI + ' with exact character sets')
CHECKS['Y05'] = Check('', both('Y05', ['guid.cc'], GD, mk=SchedMonitor), SCHED)
CHECKS['H01'] = Check('', both('H01', ['hash.cc'], ['rst/stl/hash.cc'], cfg={'unroll': 20, 'no_widening': True}),
                      AI + ' with a calculus of bijections modulo 2^64')


def assertions(pid):
    """the witness first: a macro that is no statement would not even compile in check_else.cc"""
    def run(rep, tier):
        witness.run(rep, 'check.cc')
        files = ['check.cc'] if rep.findings else ['check.cc', 'check_else.cc']
        both(pid, files)(rep, tier)
    return run


CHECKS['D02'] = Check('', assertions('D02'), CF + '; ' + AI)
CHECKS['D01'] = Check('', joined(debug.d01, assertions('D01')),
                      'effect analysis of the type-checked syntax trees of the debug and the release build; ' + CF +
                      '; ' + AI)
