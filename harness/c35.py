from common import *
import causets.causetplotting as cplt
import causets.colorschemes as colors

CASES = [
    dict(fn='schemes', params=dict(), tier='quick'),
    dict(fn='convert', params=dict(), tier='quick'),
    dict(fn='own', params=dict(), tier='quick'),
    dict(fn='current', params=dict(steps=2), tier='quick'),
    dict(fn='parts', params=dict(part='links'), tier='quick'),
    dict(fn='parts', params=dict(part='events'), tier='quick'),
    dict(fn='parts', params=dict(part='labels'), tier='quick'),
    dict(fn='parts', params=dict(part='pastcones'), tier='quick'),
    dict(fn='parts', params=dict(part='futurecones'), tier='quick'),
    dict(fn='general', params=dict(), tier='quick'),
    dict(fn='drawn', params=dict(), tier='quick'),
    dict(fn='current', params=dict(steps=4), tier='thorough'),
]
NAMES = ['matplotlib', 'UniYork', 'ImperialLondon']
KEYS = ['core', 'black', 'gray', 'grey', 'white', 'purple', 'blue', 'cyan',
        'green', 'lime', 'yellow', 'orange', 'red', 'pink']
WORDS = ("""aliceblue antiquewhite aqua aquamarine azure beige bisque black
blanchedalmond blue blueviolet brown burlywood cadetblue chartreuse
chocolate coral cornflowerblue cornsilk crimson cyan darkblue darkcyan
darkgoldenrod darkgray darkgreen darkgrey darkkhaki darkmagenta
darkolivegreen darkorange darkorchid darkred darksalmon darkseagreen
darkslateblue darkslategray darkslategrey darkturquoise darkviolet deeppink
deepskyblue dimgray dimgrey dodgerblue firebrick floralwhite forestgreen
fuchsia gainsboro ghostwhite gold goldenrod gray green greenyellow grey
honeydew hotpink indianred indigo ivory khaki lavender lavenderblush
lawngreen lemonchiffon lightblue lightcoral lightcyan lightgoldenrodyellow
lightgray lightgreen lightgrey lightpink lightsalmon lightseagreen
lightskyblue lightslategray lightslategrey lightsteelblue lightyellow lime
limegreen linen magenta maroon mediumaquamarine mediumblue mediumorchid
mediumpurple mediumseagreen mediumslateblue mediumspringgreen
mediumturquoise mediumvioletred midnightblue mintcream mistyrose moccasin
navajowhite navy oldlace olive olivedrab orange orangered orchid
palegoldenrod palegreen paleturquoise palevioletred papayawhip peachpuff
peru pink plum powderblue purple rebeccapurple red rosybrown royalblue
saddlebrown salmon sandybrown seagreen seashell sienna silver skyblue
slateblue slategray slategrey snow springgreen steelblue tan teal thistle
tomato turquoise violet wheat white whitesmoke yellow yellowgreen
none tab:blue tab:orange tab:green tab:red tab:purple tab:brown tab:pink
tab:gray tab:olive tab:cyan""").split()
DEFAULTS = {'links': 'cs:blue', 'linksedge': 'cs:blue',
            'linksface': 'cs:cyan', 'eventsedge': 'cs:black',
            'eventsface': 'cs:core', 'conesedge': 'cs:yellow',
            'conesface': 'cs:yellow'}


def reset(name='matplotlib'):
    cplt.setDefaultColors(name, **DEFAULTS)


def schemes():
    """each scheme has the colours for plots, all of them are colours"""
    n = vh.integer(0, len(NAMES) - 1)
    k = vh.integer(0, len(KEYS) - 1)
    for i, name in enumerate(NAMES):
        S = colors.pickColorScheme(name)
        for c in S.values():
            if c[0] == '#':
                vh.check(len(c) in (4, 5, 7, 9) and all([
                    x in '0123456789abcdefABCDEF' for x in c[1:]]), 'colour')
            else:
                vh.check(c in WORDS, 'colour')
        vh.check(S['gray'] == S['grey'], 'gray')
    S = colors.pickColorScheme(NAMES[n])
    vh.check(KEYS[k] in S, 'colours of the scheme')
    try:
        colors.pickColorScheme('undefined')
        failed = False
    except ValueError:
        failed = True
    vh.check(failed, 'undefined scheme')


def convert():
    """colours are converted, anything else stays"""
    n = vh.integer(0, len(NAMES) - 1)
    m = vh.integer(0, len(NAMES) - 1)
    k = [vh.integer(0, len(KEYS) - 1) for i in range(2)]
    plain = [vh.boolean(), vh.boolean()]
    w = vh.real(0.0, 2.0)
    implied = vh.boolean()
    colors.setGlobalColorScheme(NAMES[m])
    S = colors.ColorSchemes[NAMES[m if implied else n]]
    name = None if implied else NAMES[n]
    given = [KEYS[k[i]] if plain[i] else 'cs:' + KEYS[k[i]]
             for i in range(2)]
    want = [KEYS[k[i]] if plain[i] else S[KEYS[k[i]]] for i in range(2)]
    for i in range(2):
        vh.check(colors.getColor(given[i], name) == want[i], 'getColor')
    D = colors.convertColorsInDict(
        {'color': given[0], 'linewidth': w, 'facecolor': given[1],
         'visible': True, 'markevery': [1], 'cs:': 'none'}, name)
    vh.check(len(D) == 6 and D['color'] == want[0]
             and D['facecolor'] == want[1], 'colours in a dictionary')
    vh.check(D['linewidth'] == w and D['visible'] is True
             and D['markevery'] == [1] and D['cs:'] == 'none',
             'other values')
    L = colors.convertColorsInList([given[1], 'black', given[0]], name)
    vh.check(L == [want[1], 'black', want[0]], 'colours in a list')
    vh.check(colors.getGlobalColorScheme() == colors.ColorSchemes[NAMES[m]],
             'global scheme')
    reset()


def own():
    """any colours of a new scheme"""
    names = ['Sun', 'sun', 'cs:', 'c', 's', 'scs', 'dark blue', '0', 'cs:c']
    values = ['gold', '#012', 'tab:red', 'core', 'cs', 'navy', 'blue',
              'C0', 'red']
    k = vh.integer(0, len(names) - 1)
    j = vh.integer(0, len(names) - 1)
    implied = vh.boolean()
    colors.ColorSchemes['own'] = dict(zip(names, values))
    if implied:
        colors.setGlobalColorScheme('own')
    name = None if implied else 'own'
    vh.check(colors.getColor('cs:' + names[k], name) == values[k], 'getColor')
    D = colors.convertColorsInDict({'a': 'cs:' + names[k], 'b': values[k],
                                    'c': 'cs:' + names[j]}, name)
    vh.check(D['a'] == values[k] and D['b'] == values[k] and
             D['c'] == values[j] and len(D) == 3, 'colours in a dictionary')
    L = colors.convertColorsInList(['cs:' + names[k], 'cs:' + names[j],
                                    values[j]], name)
    vh.check(L == [values[k], values[j], values[j]], 'colours in a list')
    del colors.ColorSchemes['own']
    reset()


def current(steps):
    """the scheme in use is the last one that was set"""
    first = vh.integer(0, len(NAMES) - 1)
    ops = [vh.integer(0, 2) for i in range(steps)]
    names = [vh.integer(0, len(NAMES)) for i in range(steps)]
    key = vh.integer(0, 2)
    reset(NAMES[first])
    now = first
    link, face = 'blue', 'core'
    for op, n in zip(ops, names):
        if n == len(NAMES):
            try:
                if op == 0:
                    colors.setGlobalColorScheme('none')
                else:
                    cplt.setDefaultColors('none', links='cs:pink')
                failed = False
            except ValueError:
                failed = True
            vh.check(failed, 'undefined scheme')
        elif op == 0:
            colors.setGlobalColorScheme(NAMES[n])
            now = n
        elif op == 1:
            cplt.setDefaultColors(NAMES[n])
            now = n
        else:
            c = ['red', 'orange', 'pink'][key]
            cplt.setDefaultColors(NAMES[n], links='cs:' + c,
                                  eventsface='cs:green')
            now, link, face = n, c, 'green'
        S = colors.ColorSchemes[NAMES[now]]
        vh.check(colors.getGlobalColorScheme() == S, 'global scheme')
        vh.check(colors.getColor('cs:lime') == S['lime'], 'getColor')
    p = cplt.plot_parameters(futurecones=True)
    vh.check(p['links']['color'] == S[link]
             and p['links']['markeredgecolor'] == S['blue']
             and p['links']['markerfacecolor'] == S['cyan'],
             'colours of links')
    vh.check(p['events']['markerfacecolor'] == S[face]
             and p['events']['markeredgecolor'] == S['black'],
             'colours of events')
    vh.check(p['futurecones']['edgecolor'] == S['yellow'],
             'colours of cones')
    reset()


def standard(part, S, space):
    """documented parameters"""
    if part == 'links':
        return {'linewidth': 2.0, 'linestyle': '-', 'markevery': [],
                'color': S['blue'], 'marker': 'o', 'markersize': 5.0,
                'markeredgecolor': S['blue'], 'markerfacecolor': S['cyan']}
    elif part == 'events':
        return {'linewidth': 2.0, 'linestyle': '', 'marker': 'o',
                'markersize': 7.0, 'markeredgecolor': S['black'],
                'markerfacecolor': S['core']}
    elif part == 'labels':
        return {'verticalalignment': 'top', 'horizontalalignment': 'right'}
    elif space:
        return {'edgecolor': 'none', 'color': S['yellow'], 'alpha': 0.1}
    return {'edgecolor': S['yellow'], 'facecolor': 'none', 'alpha': 0.1}


def parts(part):
    """parameters of one kind of objects"""
    n = vh.integer(0, len(NAMES) - 1)
    kind = vh.integer(0, 4)
    k = vh.integer(0, len(KEYS) - 1)
    a = vh.real(0.0, 1.0)
    space = vh.boolean()
    reset(NAMES[n])
    S = colors.ColorSchemes[NAMES[n]]
    for i in range(5):
        if kind == i:
            if space:
                check_part(part, i, k, a, S, True, {'dims': [1, 2, 0]})
            else:
                check_part(part, i, k, a, S, False, {})
    reset()


def check_part(part, kind, k, a, S, space, options):
    on = True
    change = {}
    if kind == 0:
        on = part not in ('pastcones', 'futurecones')
    elif kind == 1:
        options[part] = True
    elif kind == 2:
        options[part] = False
        on = False
    elif kind == 3:
        options[part] = {'alpha': a}
        change = {'alpha': a}
    else:
        options[part] = {'color': 'cs:' + KEYS[k], 'alpha': a, 'zorder': 3}
        change = {'color': S[KEYS[k]], 'alpha': a, 'zorder': 3}
    default = ['links', 'events', 'labels']
    if part == 'pastcones':
        options['futurecones'] = True
        default.append('futurecones')
    if part == 'futurecones':
        options['pastcones'] = True
        default.append('pastcones')
    given = {key: dict(x) if isinstance(x, dict) else x
             for key, x in options.items()}
    p = cplt.plot_parameters(**options)
    vh.check(options == given, 'the given parameters stay')
    vh.check((part in p) == on, 'switched on')
    if on:
        want = standard(part, S, space)
        want.update(change)
        vh.check(len(p[part]) == len(want), 'number of parameters')
        for key, x in want.items():
            vh.check(key in p[part] and p[part][key] == x, 'parameters')
    for other in ('links', 'events', 'labels', 'pastcones', 'futurecones'):
        if other != part:
            vh.check((other in p) == (other in default), 'other parts')
            if other in p:
                want = standard(other, S, space)
                vh.check(len(p[other]) == len(want), 'other parts')
                for key, x in want.items():
                    vh.check(p[other][key] == x, 'other parts')
    if change:
        # without effect on later plots
        options[part] = True
        q = cplt.plot_parameters(**options)[part]
        want = standard(part, S, space)
        vh.check(len(q) == len(want), 'parameters of a later plot')
        for key, x in want.items():
            vh.check(key in q and q[key] == x, 'parameters of a later plot')


def general():
    """dimensions, time slicing"""
    d = vh.integer(1, 4)
    x = [vh.integer(0, 3) for i in range(4)]
    depth = vh.real(-2.0, 2.0)
    dynamic = vh.boolean()
    fade = vh.boolean()
    cone = vh.boolean()
    reset()
    options = {}
    if dynamic:
        options['timedepth'] = depth
        if fade:
            options['timefade'] = 'intensity'
    if cone:
        options.update(conetimefade='linear', conetimedepth=depth)
    for k in range(1, 5):
        if d == k:
            check_general(x[:k], options, dynamic, fade, cone, depth)
    p = cplt.plot_parameters()
    vh.check(p['dims'] == [1, 0] and 'timedepth' not in p
             and 'axislim' not in p, 'defaults')


def check_general(D, options, dynamic, fade, cone, depth):
    try:
        p = cplt.plot_parameters(dims=D, **options)
        failed = False
    except ValueError:
        failed = True
    vh.check(failed == (len(D) not in (2, 3)), 'dimensions of the plot')
    if failed:
        return
    vh.check(p['dims'] == D and p['aspect'] == ['equal', 'box'], 'axes')
    vh.check(('timedepth' in p) == dynamic, 'dynamic')
    if dynamic:
        vh.check(p['timedepth'] == depth and p['timefade'] == (
            'intensity' if fade else 'linear'), 'time fading')
    vh.check(p['conetimefade'] == ('linear' if cone else 'intensity')
             and p['conetimedepth'] == (depth if cone else 0.0),
             'fading of cones')


class Canvas:

    def __init__(self):
        self.lines, self.dots, self.texts = [], [], []

    def plot(self, X, Y, **options):
        if len(X) == 1:
            self.dots.append(options)
        else:
            self.lines.append(options)
        return [None]

    def text(self, x, y, s, **options):
        self.texts.append(options)

    def set(self, **options):
        pass

    def set_aspect(self, *args):
        pass


def drawn():
    """objects are drawn with these parameters"""
    n = vh.integer(0, len(NAMES) - 1)
    k = [vh.integer(0, len(KEYS) - 1) for i in range(3)]
    w = vh.real(0.5, 2.0)
    S = colors.ColorSchemes[NAMES[n]]
    reset(NAMES[n])
    a = CausetEvent(label=1, coordinates=[0.0, 0.0])
    b = CausetEvent(label=2, coordinates=[1.0, 0.5], past=[a])
    A = Canvas()
    cplt.plot([a, b], A, links={'color': 'cs:' + KEYS[k[0]], 'linewidth': w},
              events={'markerfacecolor': 'cs:' + KEYS[k[1]],
                      'markersize': w},
              labels={'color': 'cs:' + KEYS[k[2]]})
    vh.check(len(A.lines) == 1 and len(A.dots) == 2 and len(A.texts) == 2,
             'objects')
    x = A.lines[0]
    vh.check(x['color'] == S[KEYS[k[0]]] and x['linewidth'] == w
             and x['linestyle'] == '-', 'links')
    for x in A.dots:
        vh.check(x['markerfacecolor'] == S[KEYS[k[1]]]
                 and x['markersize'] == w and x['marker'] == 'o'
                 and x['markeredgecolor'] == S['black'], 'events')
    for x in A.texts:
        vh.check(x['color'] == S[KEYS[k[2]]]
                 and x['verticalalignment'] == 'top'
                 and x['horizontalalignment'] == 'right', 'labels')
    reset()
