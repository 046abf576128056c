#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
P = []
NA = []
CHANGED = ['C%02d' % i for i in (2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17)]

EV, CS, EC = 'causetevent.py', 'causet.py', 'embeddedcauset.py'
SP, SH, SC = 'spacetimes.py', 'shapes.py', 'sprinkledcauset.py'
PL, CA, CO = 'causetplotting.py', 'calculations.py', 'colorschemes.py'
TECH = 'bounded symbolic execution of the source + SMT (z3)'


_defs = {}


def defs(f):
    if f not in _defs:
        _defs[f] = d = {}
        path = os.path.join(REPO, f)

        def walk(node, prefix):
            for x in ast.iter_child_nodes(node):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    d.setdefault(prefix + x.name, x.lineno)
                    walk(x, prefix + x.name + '.')
        walk(ast.parse(open(path).read()), '')
    return _defs[f]


def where(name, f):
    f = f.split(':')
    d = defs(f[0])
    line = d.get(name)
    if line is None and len(f) == 1:
        raise KeyError(name)
    return '%s:%s' % (f[0], line or f[1])


def prop(id, title, statement, over, text, why, mech, note,
         tech=TECH, state=None):
    mech = [(m[0], where(*m)) for m in mech]
    if id in CHANGED:
        # also decided by the function history of the harness
        statement += (' This holds for every state of the events: answers '
                      'given before an event is added or removed do not '
                      'affect those given afterwards.')
        text += ', before and after an event is added or removed'
        over = over + [x for x in ['histories'] if x not in over]
        note += ('; asked before and after one event is added or removed: '
                 'orders with up to 5 (thorough 6) events')
    files = sorted({m[1].split(':')[0] for m in mech})
    a = dict(files=files,
             mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=a), note, tech))


prop('C01', 'Building events always yields a strict partial order',
     'Whatever relatives events are created with (a named past event precedes '
     'every named future event), the past and future of the events form an irreflexive, antisymmetric and transitive relation in '
     'which past and future mirror each other. It is exactly the transitive '
     'closure of the relations that were named, also when only the nearest '
     'relatives are named.',
     ['inputs', 'histories'],
     'all finite partial orders, all creation orders of their events, all '
     'generating relations',
     'The tests build a handful of fixed causets; the claim is about every '
     'order and every order of creation.',
     [('CausetEvent.__init__', EV + ':41'),
      ('CausetEvent._addToPast', EV + ':82'),
      ('CausetEvent._addToFuture', EV + ':98')],
     'all orders with up to 6 (thorough 8) events')

prop('C02', 'Comparison, cone and cardinality views agree with the order',
     'For any two events exactly one of before, after, same and spacelike '
     'holds, the comparison operators and causal tests report that one, and '
     'the past, future, cone and spacelike sets and their sizes contain '
     'precisely the events standing in that relation. Asking leaves the '
     'order unchanged.',
     ['inputs'], 'all finite partial orders, all pairs, all argument sets',
     'Existing tests compare a few events of one causet; agreement has to '
     'hold for every pair of every order.',
     [('CausetEvent comparison operators', EV + ':189'),
      ('CausetEvent.Cone and cards', EV + ':285')],
     'all orders with up to 5 (thorough 7) events and all subsets')

prop('C03', 'Links are exactly the covering relation',
     'An event is reported as linked to another precisely when they are '
     'related and no event lies strictly between them, no matter whether the '
     'links are asked per pair, per event, as sets, as numbers or as a '
     'matrix, computed on demand or for the entire causal set at once. '
     'The number of links of a set counts the linked pairs inside it. Events '
     'discarded from a causal set remain events in between.',
     ['inputs', 'histories'],
     'all finite partial orders, all subsets, all orders of the first link '
     'request',
     'A covering relation can go wrong only in some orders; tests look at '
     'fixed examples and never at the number of links of an event.',
     [('CausetEvent.link', EV + ':204'), ('CausetEvent.isLink', EV + ':226'),
      ('Causet.link', CS + ':298'), ('Causet.LinkCount', CS + ':319')],
     'all orders with up to 5 (thorough 7) events')

prop('C04', 'Links stay correct when events come and go',
     'However events are added, removed (disjoined), merged or copied, and '
     'whichever of them already computed links before, all link queries '
     'afterwards report the covering relation of the current order. '
     'Causet.add and Causet.discard with unlink=True make every event of the '
     'causal set forget its links; a removed event has no links. All of this '
     'holds in the same way for causal sets of sprinkled events.',
     ['histories'],
     'all orders, all subsets of events that computed their links at each '
     'step of the history',
     'Links are cached per event and repaired incrementally, so an error '
     'needs a certain order, a certain state of the caches and a certain '
     'change together.',
     [('CausetEvent._addToPast', EV + ':76'),
      ('CausetEvent._addToFuture', EV + ':91'),
      ('CausetEvent._discard', EV + ':106'), ('Causet.merge', CS + ':221'),
      ('CausetEvent.copy', EV + ':425')],
     'histories on up to 5 (thorough 7) events, one caching choice per event '
     'and step')

prop('C05', 'Disjoining removes exactly the chosen event from the order',
     'After disjoin the event has neither past, future nor links, no other '
     'mentions it, while the relations among all other events are untouched. '
     'Disjoining again changes nothing, and a new event created with the '
     'same relatives takes its place exactly.',
     ['inputs', 'histories'],
     'all orders, all subsets of events removed one after the other, all '
     'subsets of events that computed links',
     'A test removes one event from one causal set; leftovers appear only '
     'for some neighbourhoods and link states.',
     [('CausetEvent.disjoin', EV + ':128'),
      ('CausetEvent._discard', EV + ':106')],
     'all orders with up to 5 (thorough 7) events')

prop('C06', 'A causal set consists of exactly the events it should',
     'Making a causal set from events collects everything connected to them '
     'by causal relations and nothing else, merge collects both parts '
     'and puts the first entirely before the second unless disjoint, add and '
     'discard change membership of precisely the named events. Card, len, '
     'iteration and membership agree, arguments are left alone.',
     ['inputs', 'histories'],
     'all orders, all subsets of events given to the constructor, merge, add '
     'and discard',
     'Closure under relatives needs several rounds only for zigzag orders '
     'that fixed examples rarely contain.',
     [('Causet.__init__', CS + ':22'), ('Causet.merge', CS + ':221'),
      ('Causet.add', CS + ':238'), ('Causet.discard', CS + ':250'),
      ('Causet.Card', CS + ':270')],
     'all orders with up to 5 (thorough 7) events, all subsets')

prop('C07', 'Causal sets follow the algebra of sets and find labels',
     'The operators |, &, ^ and - (with a causal set on the left or the '
     'right), union, intersection, symmetric_difference and difference '
     'return precisely the events a set operation on the members gives, as '
     'an independent set, leaving both operands alone. find, findAny and '
     'findAll return precisely the members with the given labels; find '
     'raises ValueError if there is none.',
     ['inputs'],
     'all pairs of subsets of a set of events, operands given as set, list '
     'or Causet, all labellings with repetitions',
     'Every element has to be on the right side of every operator, in both '
     'operand orders; the tests use few operators on few sets.',
     [('Causet operators', CS + ':390'), ('Causet.find', CS + ':363'),
      ('Causet.findAny', CS + ':373'), ('Causet.findAll', CS + ':381')],
     'all pairs of subsets of up to 6 (thorough 9) events')

prop('C08', 'Chain, path and antichain tests tell the truth',
     'isChain is True exactly when all given events are pairwise related, '
     'isAntichain exactly when no two are related, isPath exactly when the '
     'events form a non-empty chain without a gap, i.e. each event of the '
     'chain is linked to the next. Without argument they judge the entire '
     'causal set, also after events were discarded from it.',
     ['inputs'], 'all orders, all subsets given as set or list',
     'A predicate is only as good as its worst input; the tests ask for a '
     'few sets with a known answer.',
     [('Causet.isChain', CS + ':427'), ('Causet.isPath', CS + ':445'),
      ('Causet.isAntichain', CS + ':471')],
     'all orders with up to 5 (thorough 7) events, all subsets')

prop('C09', 'Infinities and cones of sets are the extremal and related '
     'events',
     'PastInf/FutureInf (and PastInfOf/FutureInfOf of a set) are exactly the '
     'minimal/maximal events (of causal sets that contain all relatives of '
     'their events), and their Card functions the numbers of them. '
     'PastOf, FutureOf and ConeOf return precisely the events related to '
     'some event of the set (to every event with intersect=True), with the '
     'events themselves exactly if includePresent; SpacelikeTo returns the '
     'events of the causal set unrelated to all of them.',
     ['inputs'], 'all orders, all subsets, all combinations of options',
     'Options multiply; existing tests exercise the defaults on one example.',
     [('Causet.PastInf', CS + ':488'), ('Causet.PastInfOf', CS + ':517'),
      ('Causet.PastOf', CS + ':549'), ('Causet.FutureOf', CS + ':569'),
      ('Causet.ConeOf', CS + ':589'), ('Causet.SpacelikeTo', CS + ':608')],
     'all orders with up to 5 (thorough 7) events, all subsets')

prop('C10', 'Intervals contain exactly the events in between',
     'Interval(a, b) contains a, b and all events after a and before b if a '
     'precedes or equals b and is empty otherwise; without boundary it '
     'contains only the events strictly between (for a = b the event '
     'itself). PerimetralEvents are the events linked to both ends, '
     'InternalEvents the remaining events strictly between, and the Card '
     'and Count functions return the sizes.',
     ['inputs'], 'all orders, all ordered pairs of events',
     'Sizes are computed by formulas separate from the sets; they have to '
     'agree for every pair.',
     [('Causet.Interval', CS + ':615'), ('Causet.IntervalCard', CS + ':633'),
      ('Causet.PerimetralEvents', CS + ':649'),
      ('Causet.InternalEvents', CS + ':672')],
     'all orders with up to 5 (thorough 8) events, all pairs')

prop('C11', 'Layers partition events by interval size and by height',
     'The layer number of an event relative to a set is the size of the '
     'largest open interval to an event of the set, plus one (0 for events '
     'of an antichain, positive to the future, negative to the past). Layers '
     'returns precisely the events with layer numbers in the given range, '
     'LayerNumbers these numbers for a list, and around an antichain the '
     'single layers partition its cone. layered() splits a causal set (or '
     'any subset containing all its intervals) into its height levels, or '
     'levels from the top if reversed.',
     ['inputs'],
     'all orders, all subsets, several ranges of layer numbers',
     'Layer functions combine past and future ranges in one argument pair '
     'and recurse over differences of sets; boundaries go wrong for single '
     'ranges or tall orders.',
     [('Causet.Layers', CS + ':720'), ('Causet.LayerNumbers', CS + ':759'),
      ('Causet.layered', CS + ':1167')],
     'all orders with up to 5 (thorough 7) events, all subsets')

prop('C12', 'Ranks are the lengths of the shortest link paths',
     'a.Rank(b) is the number of links of the shortest path from a up to b, '
     '0 for the event itself and infinite if b is not in the future of a. '
     'Ranks and RankNumbers classify events by the largest such rank from '
     '(to) the events of a set in its past (future).',
     ['inputs'], 'all orders, all pairs, all subsets',
     'The recursion takes minima over branches; a wrong minimum needs an '
     'order with several branches of different length.',
     [('CausetEvent.Rank', EV + ':442'), ('Causet.Ranks', CS + ':787'),
      ('Causet.RankNumbers', CS + ':823')],
     'all orders with up to 6 (thorough 8) events')

prop('C13', 'Paths lists every path of the wanted length once',
     'Paths(a, b) iterates exactly once over every sequence of successively '
     'linked events from a to b: all of them, the shortest (min), the '
     'longest (max, timegeo), those with a given number of events or those '
     'with a number in a given range; none if b is not in the future of a, '
     'and just [a] for a = b. Other length arguments raise ValueError.',
     ['inputs'], 'all orders between two events, several length arguments',
     'The number of paths explodes with the order and pruning by length can '
     'cut too much; tests count paths in single examples.',
     [('Causet.Paths', CS + ':849')],
     'all orders with up to 5 (longest and shortest 6, thorough 7) '
     'events')

prop('C14', 'Matrices and files represent the order faithfully',
     'Past, future and link matrices for a given list of all or some events '
     'have the wanted data type and exactly the '
     'entries of the order; the default labelling makes the past matrix '
     'lower triangular. FromPastMatrix and FromFutureMatrix give the causal '
     'set of the transitive closure of any logical matrix, raise ValueError '
     'exactly for causal loops and for more rows than columns, and events '
     'are labelled 1, 2, .... A matrix written to a text file and read '
     'again gives the same order. A given matrix is not changed.',
     ['inputs'],
     'all logical matrices (square or with fewer or more rows than '
     'columns), all orders',
     'A loop or an incomplete closure shows only for certain matrices; the '
     'tests convert one causal set.',
     [('Causet.FromPastMatrix', CS + ':168'),
      ('Causet.FromTextFile', CS + ':205'), ('Causet.PastMatrix', CS + ':307'),
      ('Causet.saveAsCSV', CS + ':324'),
      ('Causet.LinkPastMatrix', CS + ':339')],
     'all matrices up to 4x4 and 3x5 (thorough 5x5), orders up to 5 '
     '(thorough 7) events')

prop('C15', 'Sorting keeps all events and respects order and labels',
     'sortedByCausality lists each event once, never an event before one in '
     'its past (after one if reversed), sortedByLabels lists each event once '
     'with ascending (descending) labels; for the entire causal set or any '
     'subset, which is left alone.',
     ['inputs'], 'all orders of labelled events, labels may repeat, all '
     'subsets',
     'A topological order must hold for every order and every labelling, '
     'not for the natural labelling of the examples.',
     [('Causet.sortedByLabels', CS + ':1130'),
      ('Causet.sortedByCausality', CS + ':1148')],
     'all orders with up to 5 (thorough 6) events')

prop('C16', 'Disjoint pieces are the connected components',
     'disjoint() splits a causal set or a set of events into its connected '
     'components under causal relations within the set: every event is in '
     'one part, two events are in the same part exactly if connected. '
     'isDisjoint is True exactly if there is more than one part.',
     ['inputs'], 'all orders, all subsets',
     'Components need repeated closure for zigzags; examples close at once.',
     [('Causet.disjoint', CS + ':1094'), ('Causet.isDisjoint', CS + ':1123')],
     'all orders with up to 5 (thorough 6) events, all subsets')

prop('C17', 'Central antichains are maximal and as central as possible',
     'CentralAntichain returns a maximal antichain of the causal set. Every '
     'event left out is related to an event of it that is at least as '
     'central, where centrality is the difference of past and future '
     'cardinalities (compared to those of the given event, if any).',
     ['inputs'], 'all orders, with and without a reference event',
     'The greedy construction must stay an antichain and maximal for every '
     'order and every tie.',
     [('Causet.CentralAntichain', CS + ':695')],
     'all orders with up to 5 (thorough 7) events')

prop('C18', 'Constructed causal sets have the order they are named after',
     'FromPermutation relates two events exactly if both their values and '
     'their positions in the permutation are in the same order. NewChain is '
     'a chain, NewAntichain an antichain, NewFence and NewCrown have the '
     'stated zigzag order (closed or open, of any height), NewSimplex has '
     'the face order of a simplex. Numbers of events and labels are as '
     'stated.',
     ['inputs'], 'all permutations, all sizes, heights and options within '
     'the bounds',
     'Tests look at one permutation and the numbers of events of a few '
     'sizes.',
     [('Causet.FromPermutation', CS + ':41'), ('Causet.NewChain', CS + ':71'),
      ('Causet.NewAntichain', CS + ':81'), ('Causet.NewSimplex', CS + ':90'),
      ('Causet.NewFence', CS + ':115'), ('Causet.NewCrown', CS + ':148')],
     'permutations of up to 5 (thorough 7), chains up to 6 (10), fences up '
     'to length 4 and height 2 (6 and 4), simplices up to dimension 3 (4)')

prop('C19', 'Spatial distances along an antichain count common neighbours',
     'SmallestIntervalCard is the size of the smallest interval containing '
     'both events with ends in the searched set, counting events of the '
     'intersecting set. DistanceMatrix is symmetric with zero diagonal; '
     'events with a common neighbour in an adjacent layer have distance 1, '
     'further distances add up along the shortest sequence of such steps, '
     'unconnected events have -1. Antipaths lists exactly the shortest '
     'sequences, once each. Given sets of events are not changed.',
     ['inputs'],
     'all orders with an antichain, all pairs of subsets for the interval '
     'cardinalities',
     'Minimisation over pairs of past and future events depends on the whole '
     'surrounding order; the tests look at one example.',
     [('Causet.SmallestIntervalCard', CS + ':932'),
      ('Causet.DistanceMatrix', CS + ':994'),
      ('Causet.Antipaths', CS + ':1056')],
     'all orders with up to 5 (thorough 7) events, antichains of 3 (4); '
     'antichains of up to 7 events along a ring of common neighbours')

prop('C20', 'Embedded events are ordered exactly as the spacetime says',
     'Every point given to an embedded causal set becomes exactly one event '
     'with the coordinates of the point and the next free number as label '
     '(labelFormat, if given, is filled with that number). The events are '
     'related precisely as the causality of the spacetime relates their '
     'points, also when points arrive in several batches or events are '
     'created unrelated and related later; relate replaces all relations. '
     'Links are the covering relation of that order and are computed right '
     'away only on request. All of this holds for embedded and for sprinkled '
     'causal sets.',
     ['inputs', 'histories'],
     'all causal orders a spacetime may impose on the points, all batches',
     'Tests relate one random sprinkle; the claim is about every order the '
     'points may have.',
     [('EmbeddedCauset.create', EC), ('EmbeddedCauset.relate', EC)],
     'all orders of up to 5 (thorough 6) points in one or two batches')

prop('C21', 'Flat spacetime causality is the light cone',
     'Two points of flat spacetime are related precisely when their time '
     'difference is at least their spatial distance, the earlier one coming '
     'first, in any dimension. With periods, the shorter way around each '
     'periodic dimension counts, dimensions with period 0 are not periodic. '
     'An embedded causal set in the plane has the order of the light cones.',
     ['inputs'], 'all pairs of points, all periods, dimensions 1 to 5',
     'Points are real vectors; the tests sprinkle at random and compare '
     'nothing with the metric.',
     [('FlatSpacetime.Causality', SP), ('EmbeddedCauset.relate', EC)],
     'coordinates in [-4, 4], periods in [0.5, 8] with points at most one '
     'period apart, dimensions 1 to 5, three (four) embedded '
     'events; real arithmetic with a margin of 1e-9 at the light cone')

prop('C22', 'Causality of de Sitter and Anti-de Sitter spacetime is that of '
     'their hyperboloid',
     'Two points of (Anti-)de Sitter spacetime in static coordinates are '
     'related precisely when the points of the embedding hyperboloid are '
     'timelike or lightlike separated (in Anti-de Sitter also whenever the '
     'times differ by half a period or more), the earlier one coming first. '
     'In de Sitter spacetime, points on or beyond the horizon are unrelated '
     'to everything.',
     ['inputs'], 'all pairs of points in dimensions 2 to 5, several radii',
     'The relation is a formula in hyperbolic functions of real '
     'coordinates; the tests sample no pair of points.',
     [('deSitterSpacetime.Causality', SP),
      ('AntideSitterSpacetime.Causality', SP)],
     'coordinates in [-3, 3], dimensions 2 to 5, radii 0.5, 1 '
     'and 2; real arithmetic with a margin of 1e-9 at the light cone')

prop('C23', 'Causality of black holes follows their light rays',
     'In a two dimensional black hole spacetime, in Eddington-Finkelstein '
     'and in Schwarzschild coordinates, two points are related precisely '
     'when one lies between the ingoing and the outgoing light ray of the '
     'other. Behind the horizon the smaller radius is later, nothing '
     'escapes from there, and the two sides of the black hole (positive and '
     'negative radius) are unrelated.',
     ['inputs'], 'all pairs of points off the horizon',
     'Light rays are logarithmic and change direction behind the horizon; '
     'the tests sample no pair of points.',
     [('BlackHoleSpacetime.Causality', SP)],
     'times in [-9, 9], radii in [-6, 6] off the horizon, r_S 0.5 and 1 '
     '(thorough 3); real arithmetic with a margin of 1e-9 at the light rays')

prop('C24', 'An embedded permutation has the order of the permutation',
     'EmbeddedCauset.FromPermutation has the same order as '
     'Causet.FromPermutation. Each event lies inside the diamond of the '
     'given radius, in the cell given by its value along one light ray and '
     'by its position along the other.',
     ['inputs'], 'all permutations, several radii',
     'Tests embed one permutation.',
     [('EmbeddedCauset.FromPermutation', EC),
      ('Causet.FromPermutation', CS)],
     'permutations of 4 (thorough 6) numbers, radii 0.25, 1 and 3')

prop('C25', 'Sprinkled points are uniform in the shape',
     'Sprinkling turns the draws of the random generator into a point of '
     'the shape: inside the outer and outside the hollow boundary, around '
     'the centre, and uniform by volume - uniform along every edge of boxes '
     'and along the time of cylinders, uniform in the volume inside the '
     'radius, and isotropic (in the direction of a normally distributed '
     'vector) for balls, cylinders and bicones; uniform along both light '
     'rays in a diamond of the plane. Every event has draws of its own. '
     'When sprinkle or intensify is called with a shape, all this holds for '
     'that shape, and the embedding shape stays.',
     ['inputs'], 'all values the random generator may return, all sizes, '
     'centres and hollow parts, dimensions 1 to 4',
     'A sample cannot show that every possible draw lands in the shape, '
     'nor that the distribution is exact.',
     [('SprinkledCauset.sprinkle', SC), ('CoordinateShape.__init__', SH),
      ('SprinkledCauset._sprinkle_coords', SC)],
     'one event (two, thorough three, for independence), dimensions 1 to 4, '
     'radii in [0.5, 2], hollow up to 0.875, centres in '
     '[-3, 3]; real arithmetic with a margin of 1e-3; the generator is '
     'replaced by arbitrary draws, its own distribution is trusted')

prop('C26', 'Intensity, density and length scale keep count of the events',
     'Sprinkling a number of events adds exactly that many and raises the '
     'intensity by the number; intensify adds a Poisson number of events '
     'whose mean, the given value, is added to the intensity. Events '
     'created or newly added raise it by one each, discarded events reduce '
     'it in proportion. Density is the intensity (for embedded causal sets '
     'the number of events) divided by the volume of the shape, LengthScale '
     'the inverse root of the density of order of the dimension (0 if '
     'there is none). Negative numbers are refused.',
     ['inputs', 'histories'],
     'all intensities, all Poisson numbers, all subsets of events added and '
     'discarded',
     'The quantities depend on the history of the causal set and on the '
     'drawn numbers.',
     [('SprinkledCauset.sprinkle', SC), ('SprinkledCauset.intensify', SC),
      ('SprinkledCauset.create', SC), ('SprinkledCauset.add', SC),
      ('SprinkledCauset.discard', SC), ('EmbeddedCauset.LengthScale', EC)],
     'up to 3 (thorough 6) events per step, two sprinkles, one change of '
     'every kind, dimensions 1 to 4')

prop('C27', 'Shapes know their volume, extent and valid parameters',
     'The volume of balls, cylinders, bicones, cubes and cuboids is that of '
     'the geometric figure less its hollow part, in every dimension. Limits '
     'are the centre plus and minus half of the extent along each '
     'dimension, MaxEdgeHalf is the largest half extent among the given '
     'dimensions. Shapes are refused (ValueError) precisely if the name is '
     'unknown, the dimension is not positive, the number of edges or '
     'centre coordinates is wrong, a size is not positive or the hollow '
     'fraction is not in [0, 1). Parameters that are not given have the '
     'documented defaults. Changing the given centre or edge lengths '
     'afterwards does not change the shape.',
     ['inputs', 'histories'], 'all sizes, centres and dimensions, valid or not',
     'Volume formulas differ by dimension and shape; the tests create two '
     'or three shapes.',
     [('CoordinateShape.__init__', SH), ('CoordinateShape.Volume', SH),
      ('CoordinateShape.Limits', SH), ('CoordinateShape.MaxEdgeHalf', SH)],
     'dimensions 1 to 4 (thorough 6), sizes in [0.25, 4], hollow up to '
     '0.875; real arithmetic with a margin of 1e-4')

prop('C28', 'Spacetimes, shapes and dimensions fit together or are refused',
     'Spacetimes, shapes and causal sets accept precisely the documented '
     'dimensions, periods, radii, metrics and names. The dimensions given '
     'by spacetime, shape, coordinates and dim have to agree, otherwise '
     'ValueError is raised; what is not given is inferred from the rest (2 '
     'dimensions, flat, the default shape of the spacetime). Given objects '
     'are used, and the parameters can be read back.',
     ['inputs'], 'all combinations of given and missing arguments, all '
     'names, all real periods and radii',
     'The arguments interact; the tests use a handful of combinations.',
     [('EmbeddedCauset.__init__', EC), ('SprinkledCauset.__init__', SC),
      ('FlatSpacetime.__init__', SP), ('deSitterSpacetime.__init__', SP),
      ('BlackHoleSpacetime.__init__', SP)],
     'dimensions up to 4, all names and a wrong one, real parameters in '
     '[-1, 3]')

prop('C29', 'Harmonic numbers and Newton iterations are accurate',
     'HarmonicNumber, HarmonicNumbers and their fractions give the sums of '
     'reciprocals, exactly as fractions, up to rounding when computed '
     'directly, and with the error of the asymptotic expansion above the '
     'threshold of approximation. NewtonsMethod returns a solution with '
     'the requested precision or the default value, and never leaves the '
     'given interval.',
     ['inputs'], 'all numbers and thresholds, all linear and quadratic '
     'functions, starting points and intervals within the bounds',
     'Thresholds and iterations make the result depend on the arguments in '
     'steps; the tests evaluate a few numbers.',
     [('HarmonicNumber', CA), ('HarmonicNumbers', CA),
      ('HarmonicNumberFractions', CA), ('NewtonsMethod', CA)],
     'numbers up to 10 (thorough 25), linear functions with slopes in '
     '[-4, 4], square roots of numbers in [1, 9] within 2 (3) steps')

prop('C30', 'Drawn outlines of shapes trace their boundary',
     'RectangleEdge, CircleEdge, EllipseEdge, BiconeEdge and '
     'CylinderCutEdge return closed rings of the documented size that go '
     'once around the given centre with all vertices on the outline; a '
     'hollow shape has a second ring, separated by a NaN row, that leaves '
     'the hole out. CuboidSurface, CubeSurface, BallSurface, '
     'CylinderSurface and OpenConeSurface return grids of points on the '
     'surface that cover all of it, around the given centre or tip and '
     'along the given axis. CoordinateShape.plot draws precisely the cut '
     'through the centre of the shape for the given order of dimensions '
     '(position, extent along space and time, hollow part, plotting '
     'options), returns what it has drawn, and changes neither the shape '
     'nor the list of dimensions.',
     ['inputs'], 'all centres, sizes and hollow fractions, pairs and '
     'triples of dimensions in any order, cylinder and cone axes',
     'Axis permutations, centres and hollow parts combine; the tests draw '
     'one shape and look at nothing.',
     [('CircleEdge', SH), ('EllipseEdge', SH), ('BiconeEdge', SH),
      ('CylinderCutEdge', SH), ('CuboidSurface', SH), ('BallSurface', SH),
      ('CylinderSurface', SH), ('OpenConeSurface', SH),
      ('CoordinateShape.plot', SH)],
     'sizes in [0.25, 2], centres in [-2, 2], hollow in [0.05, 0.95] or 0, '
     '4 to 9 (thorough 24) vertices around a circle, shapes of dimension 3 '
     '(2D plots) and 4 (3D plots); margin 1e-4')

prop('C31', 'Drawn light cones follow the light rays',
     'The functions returned by ConePlotter draw the light cone of the given '
     'origin up to the given time slice, for the past and the future, in any '
     'two or three dimensions in any order: In flat spacetimes, along light '
     'rays from the origin, as a slice with the time difference as radius if '
     'time is not drawn, and with one further copy on each side of every '
     'periodic direction that is drawn. In two-dimensional de Sitter '
     'spacetimes, the vertices satisfy the light ray equation on both sides '
     'at equidistant times; there is no cone from points beyond the horizon. '
     'From the centre of de Sitter spacetimes of more dimensions, cones in '
     'any two or three dimensions with time, and slices in two spatial '
     'dimensions, are circles around the centre of the radius that light '
     'reaches. Around black holes, a cone consists of the ingoing and the '
     'outgoing light ray through the origin, in Eddington-Finkelstein and '
     'in Schwarzschild coordinates, inside and outside the horizon (and in '
     'Eddington-Finkelstein coordinates on it): each with vertices at '
     'equidistant radii (a straight ray needs no vertices in between) up to '
     'the time slice or, if it ends there before, to the singularity. '
     'There is no cone towards the opposite time direction. The opacity is '
     'computed from the size of the cone if requested, and nothing is drawn '
     'if it is not positive. Everything that is drawn is returned, the origin '
     'stays unchanged.',
     ['inputs'], 'all origins, time slices, periods (mixed with '
     'non-periodic directions) and opacities, pairs and triples of '
     'dimensions', 'Periods, axis permutations, time direction and opacity '
     'combine; no test looks at what is drawn.',
     [('FlatSpacetime.ConePlotter', SP), ('Spacetime.ConePlotter', SP),
      ('_dSSpacetime._XT_slice', SP),
      ('deSitterSpacetime._XT_slice2', SP),
      ('deSitterSpacetime._XY_slice', SP),
      ('BlackHoleSpacetime._XT_slice', SP),
      ('BlackHoleSpacetime._light_EF', SP),
      ('BlackHoleSpacetime._light_S', SP)],
     'coordinates in [-2, 2], time slices in [-4, 4] at least 0.01 apart from '
     'the origin, periods in [0.25, 2], flat spacetimes of 2 to 4 dimensions '
     'with 4 (thorough 6) vertices on a circle; 2D de Sitter with curvature '
     'radius 0.5, 1 (thorough 2) up to 0.99 of the horizon; from the centre '
     'of 3D (thorough 4D) de Sitter, time differences up to 2; black holes '
     'with Schwarzschild radius 0.5 (thorough 1), origins from 0.05 to 0.95 '
     'and 1.05 to 4 Schwarzschild radii, 3 (thorough 4) vertices on a ray, '
     'where the root finding (C29) is replaced: the check decides that the '
     'roots of the right functions in the right regions are asked for, and '
     'takes any value there as the root; margin 1e-4. Cones in de Sitter '
     'spacetimes of more dimensions from other points, and Schwarzschild '
     'cones from the horizon itself, are not covered')

prop('C32', 'Plots show every event, link and label once',
     'plot and Plotter draw exactly one line for every pair of linked events '
     'among the plotted events (between the positions of these events, '
     'through further vertices only at events on the straight line between '
     'them, in order), one marker for every event and one label with the label of every '
     'event at its coordinates, in the dimensions and order of dims, each '
     'only if it is switched on, for lists of events, single events and '
     'embedded causal sets. All cones that the spacetime provides are drawn '
     'for all events, past cones up to the first time and future cones up to '
     'the last time. The returned dictionary holds what is drawn. Limits of '
     'the axes are as given, or the bounds of the shape (in 3D with equal '
     'edge lengths). plotDiagram places the events of a 2D order such that '
     'the drawn light cones agree with the order, and draws every link. '
     'Coordinates and arguments stay unchanged.',
     ['inputs'], 'all partial orders, coordinates, orders of dimensions, '
     'switches, times and shapes', 'The tests only check that plotting does '
     'not fail; nothing looks at what is drawn.',
     [('Plotter', PL), ('plot', PL), ('plot_parameters', PL),
      ('plotDiagram', PL), ('CoordinateShape.Limits', SH),
      ('CoordinateShape.MaxEdgeHalf', SH)],
     '3 events (thorough 4) with coordinates in [-2, 2] apart by 0.01, 4 (5) '
     'listed, 4 events on a grid of 3 points per direction for links through '
     'other events, diagrams of 4 (6) events. Not covered: markers of gaps on '
     'links, colours (see C35), the rendering by matplotlib')

prop('C33', 'Dynamic plots fade with the distance to the time slice',
     'dynamic_parameter is zero on the side of the time slice that is not '
     'visible (the past for positive, the future for negative time depth), '
     'the maximal value at the time slice, and on the visible side: for '
     'linear fading, maximum * (1 - time / depth); for intensity fading, '
     'maximum / (1 + |time|)^(dim - 1); for exponential fading, positive, '
     'decreasing, with equal ratios for equal time differences. A plot with '
     'time depth shows exactly the events and labels with positive opacity at '
     'the first of its times; '
     'between linked events it draws the full line if both are visible '
     '(opacity and relative width of the event more distant to the time '
     'slice), and the part from the visible event to the point at the time '
     'slice (marked there) if they are on opposite sides of it. The opacity '
     'of cones fades with conetimefade and conetimedepth to the given '
     'opacity, not at all for an empty conetimefade. A plotting function '
     'returned by Plotter shows the right events whenever it is called, and '
     'what an earlier call returned does not change.',
     ['inputs', 'histories'], 'all coordinates, times, positive and negative time depths, '
     'switches, widths, opacities', 'Sign of the depth, side of each event '
     'and fading type combine; no test checks any opacity.',
     [('dynamic_parameter', PL), ('Plotter', PL), ('plot', PL)],
     'coordinates and times in [-2, 2], |depth| in [0.25, 2], 2 events in 2D '
     'and 3D, 3 events in 2D with linear fading; events at least 0.01 from '
     'the ends of the visible time; margin 1e-6')

prop('C34', 'Embedding and position of events follow their assignments',
     'After any history of embedding, embedding again (with reembed, an '
     'AttributeError without) and disembedding, an event is embedded exactly '
     'if coordinates were assigned last, Coordinates and CoordinatesDim '
     'report these coordinates (an AttributeError and 0 without), and '
     'Position the last valid position with two values (a ValueError for '
     'any other, which changes nothing), [0, 0] by default. Lists, tuples, '
     'arrays and iterators are accepted, later changes of the assigned '
     'object do not change the event. Copies are not embedded, have the same '
     'label and relatives, and are embedded independently. Neither changes '
     'the order. relabel numbers the events of an embedded causal set from 1 '
     'in the ascending or descending order of the given coordinate.',
     ['histories', 'inputs'], 'all histories of the operations, all '
     'coordinates', 'State left over from an earlier embedding only shows '
     'after several steps; no test disembeds an event.',
     [('CausetEvent.embed', EV), ('CausetEvent.disembed', EV),
      ('CausetEvent.isEmbedded', EV), ('CausetEvent.Coordinates', EV),
      ('CausetEvent.CoordinatesDim', EV), ('CausetEvent.Position', EV),
      ('CausetEvent.copy', EV), ('EmbeddedCauset.relabel', EC)],
     '3 steps (thorough 6), coordinates in [-2, 2]; relabel for 4 (6) events, '
     'order of events with equal coordinates not claimed')

prop('C35', 'Plot parameters and colour schemes are applied as documented',
     'plot_parameters returns the documented default parameters of links, '
     'events, labels and cones (2D and 3D), overwritten by the given '
     'dictionaries and only for those that are switched on, the default '
     'dimensions, aspect and time fading, and raises a ValueError unless '
     'there are 2 or 3 dimensions; plots pass these parameters on to what '
     'they draw. Colours with prefix cs: are replaced by the '
     'colour of the named scheme (by default the scheme that was set last, by '
     'setGlobalColorScheme or setDefaultColors), all other values stay the '
     'same. Unknown schemes raise a ValueError and leave the current scheme '
     'and default colours unchanged. Every scheme defines all colours of the '
     'scheme matplotlib, each a colour of matplotlib, gray and grey alike. '
     'Schemes that are added to ColorSchemes are applied in the same way. '
     'Given dictionaries are not changed, and the parameters of one plot '
     'have no effect on later plots.',
     ['inputs', 'histories'], 'all combinations of schemes, colours, parts, '
     'switches and parameter values, histories of scheme changes',
     'Schemes are global state that every plot reads; tests use one scheme.',
     [('plot_parameters', PL), ('setDefaultColors', PL),
      ('convertColorsInDict', CO), ('convertColorsInList', CO),
      ('getColor', CO), ('setGlobalColorScheme', CO),
      ('pickColorScheme', CO)],
     'the three schemes and their 14 common colours, one changed part at a '
     'time, 2 (thorough 4) changes of the scheme. linkgapsize and links with '
     'gaps are not covered')

PROPS_END = None


def na(id, reason):
    NA.append((id, reason))


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, note, tech in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    skip = {i for i, r in NA}
    for p, note, tech in P:
        if p['id'] in skip:
            continue
        checks.append(dict(
            property=p['id'],
            quick_cmd='python3 check.py %s --tier quick' % p['id'],
            thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
            technique=tech, level='other',
            level_note='bounded: ' + note + '; every value within the bounds '
            'is decided by the solver, nothing is claimed outside them'))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
             not_applicable=[dict(property=i, reason=r) for i, r in NA])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
