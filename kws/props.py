"""What decides each property."""
from . import cmdline, determinism, safety
NHR = ('MatchError::NH', 'MatchError::NR')
SC = NHR + ('ScoredEvent::Score', 'Match::HasHyp', 'Match::HasRef')

TOOL = ('ComputeGlobalAP', 'ComputeMeanAP', 'ComputeGlobalNDCG', 'ComputeMeanNDCG', 'ComputePercentileBootstrapCI=', 'WriteGlobalRPCurve@',
        'WriteMeanRPCurve@', 'GroupMatchesByQueryGroup=')
PROPS = {
    'P01': dict(specs=['P01.cc'], explanation='the six operators of boxes, document boxes, events and scored events against one '
                'lexicographic order written field by field; every sign combination of every field difference is a path'),
    'P02': dict(specs=['P02.cc'], explanation='area, intersection and union at box, document box, event and scored event level, both '
                'argument orders, against overlap lengths; every order of the end points is a path'),
    'P03': dict(specs=['P03.cc'], explanation='each scorer against its criterion over all thresholds and events'),
    'P04': dict(specs=['P04.cc', 'P04b.cc'], stops=[('IntersectionArea',), ()], explanation='one operation of the index from an arbitrary state (so any '
                'history), construction from nothing and from a range, and short histories seen from outside; the area itself is P02'),
    'P08': dict(specs=['P08.cc'], explanation='every stream operator as the sequence of items put into or taken from the stream, and the field '
                'each one comes from or goes to'),
    'P09': dict(specs=['P09.cc'], stops=[NHR, ()], explanation='precision/recall summaries as closed sums per rank, for lists of any length'),
    'P10': dict(specs=['P10.cc'], stops=[SC, ()], explanation='collapsing as a recurrence over the list: initial value, transition relation and result'),
    'P11': dict(specs=['P11.cc'], stops=[NHR, ()], explanation='average precision as closed sums over lists of any length'),
    'P12': dict(specs=['P12.cc'], stops=[NHR, ()], explanation='NDCG as closed double sums over lists of any length'),
    'P13': dict(specs=['P13.cc'], explanation='the group list as a recurrence over the matches (group name, position of the name, element '
                'appended), for all match lists and maps'),
    'P14': dict(specs=['P14.cc'], stops=[('ComputePrecisionAndRecall=', 'ComputeAP', 'ComputeNDCG', 'CollapseMatches', 'GetMatchErrors', 'SortMatchesDecreasingScore!'), ()], explanation='global, grouped and mean measures over lists and groups of any length, each setting and both sorting flags; the single-list measures stay abstract unless the two sides use different ones'),
    'P16': dict(specs=['P16.cc'], explanation='every draw of a sample (bounds, source list, position in the generator stream), the order statistics of the interval and the tail indices, for any number of groups, matches and repetitions'),
    'P05': dict(specs=['P05.cc'], per={'match': dict(bounds=(1,)), 'match_given_index': dict(bounds=(1,)), 'match_interface': dict(bounds=(1,))}, stops=[('Overlap',), ()], explanation='one run over any references and hypotheses, any index contents order and any scorer, '
                'as a recurrence over the hypotheses (result, repeated matches, references still free)'),
    'P06': dict(specs=['P06.cc'], bounds=(1,), per={'small_second_run': dict(bounds=(1, 2))}, stops=[('Overlap',), ()], explanation='a run from an arbitrary state of the matcher (so every history), and explicit '
                'two-run histories'),
    'P07': dict(specs=['P07.cc'], bounds=(1, 2), per={'hypotheses': dict(bounds=(1,)), 'references': dict(bounds=(1,))}, explanation='both reading functions over any stream: which lines yield events, the call order of the mapper, '
                'the refusals with their message and line number, and the final verdict, as a recurrence over the lines'),
    'P24': dict(specs=['P24.cc'], stops=[('ComputePrecisionAndRecall=', 'SampleCurveAtGivenPoints=', 'GetEvenlyDistributedPoints01Interval=',
                                          'WriteCurveToFile@'), ('ComputePrecisionAndRecall=',), ()],
                per={'sample': dict(stops=[()]), 'even': dict(stops=[()]), 'written': dict(stops=[()])},
                explanation='sampling, the even grid, the written file (format, contents, refusals) and both curve outputs of the tool, for '
                'curves and groups of any length'),
    'P21': dict(specs=['P21.cc'], explanation='one lookup from an arbitrary map (so every history), each integer width, first lookups of a '
                'fresh mapper, and the event mappers on top of it'),
    'P22': dict(specs=['P22.cc'], own=True, observe='result', explanation='copies, moves, assignments (also to itself), setters and comparison of '
                'matches, with the copy operations of the repository followed line by line, and a typestate analysis of every heap object '
                '(allocated, owned once, never left without owner)'),
    'P18': dict(specs=['P18.cc'], bounds=(1, 2, 3), observe='no messages', explanation='the parser with one option of each sort, an argument and an optional argument over every '
                'command line of any length, and each sort of value over every text, against a recogniser written from the documentation'),
    'P15': dict(specs=['P15.cc'], hooks=cmdline.HOOKS, observe='errors', stops=[TOOL], explanation='whole runs with every option left abstract (a function of its name and default): what each measure, interval and curve is computed from, and what is printed; the measures themselves are P09-P14, P16 and P24'),
    'P19': dict(specs=['P19.cc'], hooks=cmdline.HOOKS, observe='errors', stops=[TOOL], explanation='whole runs over abstract sources, matcher and mapper and files of any content: every path that must fail, its status, its message and that nothing is printed or dumped before it'),
    'P20': dict(specs=['P20.cc'], hooks=cmdline.HOOKS, observe='errors', stops=[TOOL], explanation='whole runs up to the matcher and up to grouping: what is kept of both sides, and the group of every query, for files of any content'),
    'P26': dict(specs=['P26.cc'], hooks=cmdline.HOOKS, observe='errors', stops=[TOOL], explanation='whole runs up to the matcher for every sort criterion: the hypotheses that reach it, in which order, and the warning'),
    'P25': dict(rules=[safety.bounds], technique='abstract interpretation with safety obligations (element access, division, null, empty range) discharged from path conditions and loop invariants', explanation='every element access, dereference, division and draw met from the entry points of the metric code, each with the condition of its path'),
    'P17': dict(rules=[determinism.repeatable, determinism.never_set], technique='reachability over the typed call graph of both tools with rules for sources of nondeterminism, order of iteration, addresses and concurrent effects; value-flow of unset variables', explanation='everything reachable from the two mains is searched for uses of time, environment, entropy, addresses and concurrency, for iteration over containers without an order of their own whose effects depend on the order, and the paths of the library entry points for values nobody has set'),
    'P28': dict(specs=['P28.cc'], explanation='the sequence of items an error, a count or a match of any sort puts on a stream, for every combination of what it holds'),
    'P29': dict(specs=['P29.cc'], explanation='the help line of every sort of option and argument, and the whole usage text of parsers with any combination of registrations'),
    'P27': dict(specs=['P27.cc'], hooks=cmdline.START, explanation='the objects each tool is put together from, with everything they point to, against the documented composition'),
    'P23': dict(specs=['P23.cc'], explanation='error and count objects over all component values'),
}

TECH = 'abstract interpretation of the clang AST to value-flow normal forms (closed sums, recurrences), compared with a reference summary'

NA = {
    'N01': 'a bound on floating point results quantifies over rounding; the static argument here is over exact arithmetic',
    'N02': 'decided by the number formatting and parsing of the C++ library, which is not part of the repository',
    'N03': 'statistical coverage of an estimator is not a property of any single execution; no static argument applies',
    'N04': 'false for unbounded inputs by design (unsigned wrap); a bound on file coordinates is a runtime quantity',
    'N05': 'run time over unbounded inputs depends on data (overlap density) no static bound in reach captures',
}
