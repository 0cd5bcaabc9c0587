"""The constants with which the specification is instantiated: fragments,
contexts, segments, lines and node constructors."""
from vlib import T, Text

# -- fragments for Gen -------------------------------------------------------

CHARS = list("-?:,[]{}#&*!|>'\"%@`\\ \ta0.~") + ['\n', '\r\n', 'é', '\u2028', '\ufeff', '\U0001F600']
FEW = list("-?:,[]{}#&*!|>'\"%\\ a") + ['\n', '\t', 'é']

# every character there is in ASCII, and those around what is special elsewhere
ASCII = [chr(c) for c in range(128)] + ['\r\n', '\x80', '\x84', '\x85', '\x86', '\xa0', 'é', '\u07ff', '\u0800', '\u1680', '\u2000', '\u2027',
         '\u2028', '\u2029', '\u202a', '\u202f', '\u3000', '\ud7ff', '\ue000', '\ufeff', '\ufffd', '\uffff', '\U00010000', '\U0010ffff']

FRAGS = dict(
    ascii=ASCII,
    blank=[' ', '\n', 'a', '\t', '#', '- '],
    percent=['%41', '%25', '%C3%A9', '%', 'a', '/', '!', '%E6%97%A5'],
    vers=['%YAML 1.1\n', '%TAG !a! b\n', '%TAG ! c\n', '%YAML 1.2 # d\n', '# e\n', '\n', '--- ', '!a!f ', '!g ', 'h\n', '...\n', '%X y\n'],
    block=['- ', '? ', ': ', 'a', 'k: ', '\n', '\n  ', '  ', '- a\n', '-\n', ' #c\n', '? b\n'],
    flow=['[', ']', '{', '}', ', ', '? ', ': ', 'a', "'b'", '\n', ' #c\n', ':'],
    mixed=['- ', 'k: ', '[', ']', '{', '}', ',', 'a', '\n ', '\n', ': ', '? ', '|\n  t\n', '"q"', '--- '],
    chars=CHARS,
    few=FEW,
    docs=['---', '...', '\n', '--- a\n', '%YAML 1.1\n', '%TAG ! !x\n', '%TAG !e! tag:\n', '# c\n', ' ', 'a', '!e!t ',
          '%FOO bar\n', '- b\n', '--- |\n', '---\n', '...\n'],
    version=['%YAML', '%TAG', ' ', '\t', '1', '.', '2', '255', '256', '0', '\n', '!', '!e!', 'x', '%21', '#', '99999999999'],
    props=['&a', '*a', '!t', '!!s', '!<x>', '!', ' ', '\n', ': ', '- ', 'a', '[', ']', ',', '&b', '""', '? '],
    tags=['!', '!!', '!e!', '<', '>', 'a', '%', '4', '1', 'C3', '%A9', ',', '[', ']', ' ', '\n', '-', ':'],
    quotes=['"', "'", '\\', 'a', ' ', '\n', '\\n', '\\x41', '\\u', '00e9', "''", ': ', 'é', '\t', '\n\n', '\r\n'],
    hex4=list('0189DFcdg"') + ['é'],
    hex8=['0000', '0001', '0002', '0010', '0011', '07FF', '0800', '007f', '0080', 'D800', 'DFFF', 'd7ff', 'E000', 'FFFF', '000', '1', 'x'],
    esc=list('0abt\tnvfre "/\\N_LPxuU1Ag') + ['\n', '\r\n', 'é'],
    scal=['|', '>', '2', '-', '+', '\n', '\n ', '\n  ', 'a', ' ', 'b\n', '#c', '\t', '- ', '...', '9'],
    plain=['a', ' ', '\n', '\n ', '\n  ', ': ', ' #', ':', '#', '- ', ', ', ']', '\t', 'é', '---', '\r\n  '],
    breaks=['\r', '\n', '\r\n', '\u0085', '\u2028', '\u2029', 'a', ' ', '- ', ': ', '"', '#', '|'],
    dirline=[' ', '\t', '# c\n', '\n', '1.1', '#', '!e!', 't:', '%'],
    marker=['\n', '---', '...', ':', ' ', 'a', '-', '.', '\r'],
    keys=['a', ': ', '? ', '\n', '\n  ', ' ', "'b'", '"c"', '[', ']', '{', '}', ', ', '&d ', ':'],
)

# -- where a document part stands ---------------------------------------------

# (a, b): Pre and Post for Gen
PLACES = dict(
    root=('', ''), entry=('- ', '\n- z\n'), value=('k: ', '\nl: m\n'), flow=('[', ']'), pair=('{', ': v}'),
    single=("'", "'"), double=('"', '"'), escape=('"\\', '"'), u=('"\\u', '"'), U=('"\\U', '"'), x=('"\\x', '"'),
    after=('--- a\n', ''), tag=('!', ' a'), deftag=('%TAG !e! x\n--- ', ' a'), directive=('%', '\n--- a\n'),
    literal=('|\n', '\n'), folded=('k: >\n', 'l: m\n'), keyed=('', ': v\n'), nested=('- k: ', '\n  l: m\n- n\n'),
    inword=('a', 'b'), inflow=('[a', 'b, c]'), invalue=('k: a', 'b\nl: m\n'), verbatim=('!<', '> a'), suffix=('%TAG !e! x\n--- !e!', ' a'),
    prefix=('%TAG !e! ', '\n--- !e!x a'), handle=('%TAG !', '! x\n--- a'), ver=('%YAML 1', '\n--- a'), litline=('|\n a', '\nb: c'),
    foldline=('>\n a\n', '\n b\n'), header=('- |', '\n  a\n- b'), flowmap=('{a', 'b: c}'), inkey=('a', 'b: c\n'), ending=('a\n...', '\nb'),
    start=('a\n---', '\nb'), dash=('-', 'a\n- b'), query=('?', 'a\n: b'), colon=('a:', 'b\n'), fquery=('{?', 'a: b}'), fcolon=('{a:', 'b}'),
    qcolon=('{"a":', 'b}'), comma=('[a,', 'b]'), open=('[', 'a]'), close=('[a]', '\n'), aftersingle=("'a'", '\n'), afterdouble=('- "a"', '\n- b'),
    yamldir=('%YAML', '\n--- a'), tagdir=('%TAG', '\n--- a'), tagname=('%TAG !e!', '\n--- !e!x a'), afterver=('%YAML 1.1', '\n--- a'), aftertag=('%TAG !e! u:', '\n--- !e!x a'),
    anchor=('&', ' a'), alias=('- *', '\n'), comment=('a #', '\nb: c'),
)


def gen(frags, length, *places):
    return 'Gen', dict(Frags=T(FRAGS[frags]), MaxLen=length,
                       Places=[dict(pre=Text(a), post=Text(b)) for a, b in (PLACES[p] for p in places or ['root'])])


# -- scalars for Flow ---------------------------------------------------------

def seg(t, s, v=None):
    return dict(t=t, s=Text(s), v=v if isinstance(v, int) else Text(s if v is None else v))


def ctx(*l):
    return [dict(pre=Text(a), post=Text(b), shape=c) for a, b, c in l]


FLOW_CTX = ctx(('', '', 'root'), ('- ', '\n', 'entry'), ('k: ', '', 'value'), ('', ' : v', 'key'),
               ('? ', '\n: v\n', 'key'), ('[', ' : v]', 'pair'), ('- k: ', '\n- v\n', 'deep'))

# in flow collections, as tight as it may be
TIGHT_CTX = ctx(('[', ']', 'entry'), ('[', ',v]', 'list'), ('{k: ', '}', 'value'), ('{k: ', ',l: v}', 'next'), ('{', ':}', 'ekey'), ('{', '}', 'ekey'),
                ('[', ':,v]', 'epair'), ('[? ', ',v]', 'epair'), ('{? ', ':}', 'ekey'))

# where no indentation is needed
ROOT_CTX = ctx(('', '', 'root'), ('# c\n', '\n', 'root'), ('', '\n# c', 'root'), ('   ', '', 'root'))

# not between brackets, where a colon is an indicator whatever follows it
OUTSIDE = [c for c in FLOW_CTX if c['shape'] != 'pair']

ESCAPES = [('0', '\0'), ('a', '\a'), ('b', '\b'), ('t', '\t'), ('\t', '\t'), ('n', '\n'), ('v', '\v'), ('f', '\f'),
           ('r', '\r'), ('e', '\x1b'), (' ', ' '), ('"', '"'), ('/', '/'), ('\\', '\\'), ('N', '\x85'), ('_', '\xa0'),
           ('L', '\u2028'), ('P', '\u2029'), ('x41', 'A'), ('xff', 'ÿ'), ('u00e9', 'é'), ('u263A', '☺'), ('uD7FF', '\ud7ff'), ('x7f', '\x7f'), ('x80', '\x80'),
           ('u07FF', '\u07ff'), ('u0800', '\u0800'), ('U00010000', '\U00010000'), ('U0002a6df', '\U0002a6df'), ('U00100000', '\U00100000'),
           ('uE000', '\ue000'), ('U0001F600', '\U0001F600'), ('U0010FFFF', '\U0010ffff'), ('U00000000', '\0'), ('uFFFF', '\uffff')]

SEGS = dict(
    double=[seg('w', 'a'), seg('w', 'é#'), seg('b', ' '), seg('b', '\t'), seg('n', '\n ', 1), seg('n', '\r\n ', 1),
            seg('n', '\n', 1), seg('e', '\\\n '), seg('w', '\\n', '\n'), seg('w', '\\"', '"'), seg('w', '\\\\', '\\'),
            seg('w', '\\u263A', '☺'), seg('w', "'")],
    escapes=[seg('w', '\\' + e, v) for e, v in ESCAPES] + [seg('w', 'a'), seg('b', ' '), seg('n', '\n ', 1), seg('e', '\\\n')],
    single=[seg('w', 'a'), seg('w', 'é#'), seg('b', ' '), seg('b', '\t'), seg('n', '\n ', 1), seg('n', '\r ', 1),
            seg('n', '\n', 1), seg('w', "''", "'"), seg('w', '"'), seg('w', '\\'), seg('w', ':')],
    plain=[seg('w', 'a'), seg('w', 'é'), seg('b', ' '), seg('b', '\t'), seg('n', '\n    ', 1), seg('n', '\n  \n    ', 2),
           seg('n', '\r\n    ', 1), seg('w', 'b:c'), seg('w', 'd#e'), seg('w', 'x-'), seg('w', 'y?')],
    column=[seg('w', 'a'), seg('w', 'é'), seg('b', ' '), seg('n', '\n', 1), seg('n', '\r\n\u2028', 2), seg('n', '\n \t', 1), seg('w', '-b'), seg('w', 'f?'),
            seg('w', ':c'), seg('w', '---d'), seg('w', 'e..')],
    plainodd=[seg('w', ':a'), seg('w', '-b'), seg('w', '?c'), seg('b', ' '), seg('n', '\u2028    ', 1), seg('n', '\x85    ', 1),
              seg('w', 'd,e'), seg('w', "f'g"), seg('w', 'h"i'), seg('w', 'j!k'), seg('w', '日本'), seg('w', '\U0001F600'),
              seg('w', 'l&m*n')],
)


EVERYWHERE = list(PLACES)
WORDPLACES = ['root', 'entry', 'value', 'flow', 'pair', 'nested', 'keyed', 'after', 'inword', 'inflow', 'invalue', 'flowmap', 'inkey', 'dash', 'query',
              'colon', 'fquery', 'fcolon', 'comma', 'open']
QUOTEPLACES = ['single', 'double', 'escape', 'aftersingle', 'afterdouble', 'qcolon']
BLOCKPLACES = ['literal', 'folded', 'litline', 'foldline', 'header']
DIRLINES = ['yamldir', 'tagdir', 'tagname', 'afterver', 'aftertag']
DIRPLACES = ['directive', 'ver', 'handle', 'prefix', 'deftag', 'suffix', 'ending', 'start', 'after', 'comment']
TAGPLACES = ['tag', 'verbatim', 'suffix', 'prefix', 'handle', 'deftag', 'anchor', 'alias']


def flow(style, segs, length, contexts=FLOW_CTX):
    return 'Flow', dict(Style=style, Segs=SEGS[segs], MaxLen=length, Ctx=contexts)


# -- block scalars ------------------------------------------------------------

def line(t, s):
    return dict(t=t, s=Text(s))


LINES = [line('x', 'a'), line('x', 'b c'), line('m', ' d'), line('m', '\tf'), line('e', ''), line('e', ' ')]
MORE_LINES = [line('x', 'a'), line('x', '#b'), line('m', ' d'), line('m', '\tf'), line('e', ''), line('e', ' '),
              line('x', '- x'), line('m', '  '), line('x', 'é日:'), line('x', '"q')]


def heads(digits='', notes=False):
    out = []
    for f in (False, True):
        for ch, cs in (('clip', ''), ('keep', '+'), ('strip', '-')):
            texts = {digits + cs, cs + digits}
            if notes:
                texts |= {digits + cs + '  # c', digits + cs + ' '}
            for t in sorted(texts):
                out.append(dict(s=Text(('>' if f else '|') + t), fold=f, chomp=ch, exp=bool(digits)))
    return out


def bctx(*l):
    return [dict(pre=Text(a), ind=i, post=Text(b), shape=s) for a, i, b, s in l]


BLOCK_CTX = bctx(('', 1, '', 'root'), ('', 2, '', 'root'), ('- ', 2, '', 'entry'), ('- ', 3, '- v\n', 'list'),
                 ('k: ', 2, '', 'value'), ('k: ', 1, 'l: v\n', 'next'), ('- k: ', 4, '- v\n', 'deep'),
                 ('? ', 2, ': v\n', 'key'))
EXPLICIT_CTX = {
    '1': bctx(('', 1, '', 'root'), ('- ', 1, '- v\n', 'list'), ('k: ', 1, 'l: v\n', 'next'), ('- k: ', 3, '- v\n', 'deep')),
    '2': bctx(('', 2, '', 'root'), ('- ', 2, '- v\n', 'list'), ('k: ', 2, 'l: v\n', 'next'), ('? ', 2, ': v\n', 'key')),
    '9': bctx(('', 9, '', 'root'), ('k: ', 9, 'l: v\n', 'next')),
}


def block(lines, length, hs, contexts=BLOCK_CTX):
    return 'Block', dict(Lines=lines, MaxLen=length, Heads=hs, Ctx=contexts)


# -- trees ----------------------------------------------------------------------

def node(t, n=0, f=False, lay=0, a='', g=None, gs='', s='', st='plain', v=None):
    return dict(t=t, n=n, f=f, lay=lay, a=Text(a), g=[Text(x) for x in g] if g else [], gs=Text(gs), s=Text(s), st=st,
                v=Text(s if v is None else v))


def leaf(s, st='plain', v=None, **k):
    return node('leaf', s=s, st=st, v=v, **k)


LEAVES = [leaf('a'), leaf('"b c"', 'double', 'b c'), leaf('')]
LITERAL = leaf('t', 'literal', 't\n')
ALIAS = node('alias', v='x')

NODES = dict(
    block=LEAVES + [LITERAL, node('seq', 1), node('seq', 2, lay=1), node('seq', 1, lay=2), node('map', 2), node('map', 2, lay=1),
                    node('map', 4), node('map', 2, lay=3)],
    flow=[leaf('a'), leaf("'b'", 'single', 'b'), leaf(''), node('seq', 0, True), node('seq', 1, True), node('seq', 2, True, lay=1),
          node('seq', 2, True, lay=2), node('map', 0, True), node('map', 2, True), node('map', 4, True, lay=1),
          node('map', 2, True, lay=3), node('map', 2, True, lay=4)],
    both=[leaf('a'), leaf(''), node('seq', 1), node('seq', 2, lay=2), node('map', 2, lay=1), node('map', 2, lay=3),
          node('seq', 2, True), node('map', 2, True), node('map', 2, True, lay=1), node('map', 2, True, lay=4)],
    odd=[leaf('-b'), leaf('?b'), leaf(':b'), leaf('a#-:b'), leaf("'- x'", 'single', '- x'), leaf('---b'), leaf('é ü'), node('seq', 1), node('seq', 1, lay=1),
         node('seq', 1, lay=2), node('seq', 2, lay=2), node('map', 2), node('map', 4), node('map', 2, lay=1), node('map', 4, lay=3)],
    dash=[leaf('-b'), leaf(''), node('seq', 1, lay=2), node('seq', 2, lay=2), node('seq', 1, lay=1), node('map', 4), node('map', 2, lay=1)],
    props=[leaf('a'), leaf('b', a='n'), leaf("'c'", 'single', 'c', g=('!', 'l'), gs='!l'), leaf('', a='m'),
           leaf('d', a='o', g=('', 't:e'), gs='!<t:e>'), leaf('', g=('!!', 'str'), gs='!!str'), ALIAS,
           node('seq', 1, a='s'), node('seq', 2, lay=2, g=('!!', 'seq'), gs='!!seq'), node('map', 2, a='p', g=('!', 'm'), gs='!m'),
           node('map', 2, lay=3), node('map', 2, lay=1), leaf('t', 'literal', 't\n', a='q', g=('!!', 'x'), gs='!!x')],
    layout=[leaf('a'), leaf("'b'", 'single', 'b'), leaf('c\n               d', v='c d', lay=2), leaf('', a='m'), leaf('e', a='n', g=('!', 'l'), gs='!l'), LITERAL,
            node('seq', 1), node('seq', 2, lay=1), node('seq', 1, lay=2, a='s'), node('map', 2, g=('!', 'm'), gs='!m'), node('map', 2, lay=1),
            node('map', 2, lay=3), node('seq', 1, True, lay=1), node('map', 2, True, a='f'), node('map', 2, True, lay=4)],
    tight=[leaf('a'), leaf('d:e-'), leaf(''), leaf('"c"', 'double', 'c'), node('seq', 1, True), node('seq', 2, True, lay=2), node('map', 2, True, lay=2),
           node('map', 4, True, lay=2), node('map', 2, True, lay=7), node('map', 2, True, lay=6), node('map', 2), node('seq', 1, lay=1)],
    lines=[leaf('a'), leaf('"e\n               f"', 'double', 'e f', lay=2), leaf("'g'", 'single', 'g', a='n'), leaf(''), node('seq', 1), node('seq', 1, lay=1),
           node('map', 2, lay=1), node('map', 2, lay=5), node('map', 2, lay=3), node('map', 4, lay=5), node('seq', 2, True, lay=5), node('seq', 1, True, lay=6),
           node('map', 2, True, lay=5), node('map', 2, True, lay=6, a='f'), node('map', 2, True)],
    fprops=[leaf('a'), leaf('b', a='n'), leaf("'c'", 'single', 'c', g=('!', 'l'), gs='!l'), leaf('', a='m'), leaf('', g=('!!', 'str'), gs='!!str'),
            leaf('d', a='o', g=('', 't:e'), gs='!<t:e>'), ALIAS, node('seq', 1, True, a='s'), node('seq', 2, True, g=('!!', 'seq'), gs='!!seq'),
            node('map', 2, True, a='p', g=('!', 'm'), gs='!m'), node('map', 2, True, lay=3), node('map', 2, True, lay=4)],
)


def style(ind=2, brk='\n', note='', gap='', sep=' ', pre='', own=False, nxt=False, head=False, tail=False, col=0, end=False):
    return dict(open=end, ind=ind, brk=Text(brk), note=Text(note), gap=Text(gap), sep=Text(sep), pre=Text(pre), own=own, nxt=nxt, head=head, tail=tail, col=col)


def tree(nodes, length, indents=(1, 2, 3), brk='\n', note=''):
    return styled(nodes, length, *(style(i, brk, note) for i in indents))


def styled(nodes, length, *styles):
    return 'Tree', dict(Nodes=NODES[nodes], MaxLen=length, Styles=list(styles))


# layouts which are less usual
LAYOUTS = [style(gap='\n'), style(1, gap='# c\n'), style(gap='   \n'), style(3, gap='        # c\n'), style(note='  '), style(note='\t', gap='\t\n'),
           style(sep='\t'), style(sep=' \t '), style(sep='   ', note=' #'), style(pre=' '), style(pre='\t', sep='  '), style(own=True), style(1, own=True, note=' # c', gap='\n'),
           style(nxt=True), style(1, nxt=True, gap='# c\n'), style(own=True, nxt=True), style(head=True), style(1, head=True, tail=True, note=' # c'),
           style(head=True, nxt=True, own=True, gap='\n'), style(col=1), style(3, col=3, tail=True), style(brk='\r\n', gap='\r\n#\r\n', own=True),
           style(brk='\r', nxt=True, head=True), style(4, brk='\u2029', sep='\t', tail=True),
           style(end=True), style(1, end=True, nxt=True, head=True), style(end=True, tail=True, gap='\n')]


# -- documents ------------------------------------------------------------------

def plain(kind, s, tag=None, style='plain'):
    return ['scalar', [], [Text(x) for x in tag] if tag else [], kind, style, Text(s)]


def directive(s, t, *v):
    return dict(s=Text(s), t=t, v=[x if isinstance(x, int) else Text(x) for x in v])


def content(s, x, own=False, tag=''):
    return dict(s=Text(s), own=own, tag=Text(tag), x=x)


DIRS = [directive('%YAML 1.1', 'ver', 1, 1), directive('%YAML 0.255', 'ver', 0, 255), directive('%TAG ! !l-', 'tag', '!', '!l-'),
        directive('%TAG !! tag:x.org:', 'tag', '!!', 'tag:x.org:'), directive('%TAG !e! tag:e%21/', 'tag', '!e!', 'tag:e!/'),
        directive('%TAG\t!e1!\t !é', 'tag', '!e1!', '!é')]
DIRS = DIRS[:5]
CONTENTS = [content('', []), content('a', [plain('R', 'a')]), content('!e!t "b"', [plain('R', 'b', ('!e!', 't'), 'double')], tag='!e!'),
            content('!!s c', [plain('R', 'c', ('!!', 's'))], tag='!!'),
            content('- a', [['seq+', [], [], 'R'], plain('E', 'a'), ['seq-']], own=True),
            content('k: !l v', [['map+', [], [], 'R'], plain('K', 'k'), plain('V', 'v', ('!', 'l')), ['map-']], own=True, tag='!'),
            content('|\n t', [plain('R', 't\n', style='literal')]), content('{}', [['map+', [], [], 'R'], ['map-']])]


# documents with several lines, which end in several ways
SEVERAL = [content('', []), content('a\nb', [plain('R', 'a b')]), content('c\n\n\td # e', [plain('R', 'c\nd')]), content('|+\n t\n', [plain('R', 't\n\n', style='literal')]),
           content('>-\n f\n g\n\n', [plain('R', 'f g', style='folded')]), content('"h\n\ni"', [plain('R', 'h\ni', style='double')]),
           content('? j\n: k', [['map+', [], [], 'R'], plain('K', 'j'), plain('V', 'k'), ['map-']], own=True),
           content('[l,\nm]', [['seq+', [], [], 'R'], plain('E', 'l'), plain('E', 'm'), ['seq-']]),
           content('&n\no:\n- p', [['map+', [Text('n')], [], 'R'], plain('K', 'o'), ['seq+', [], [], 'V'], plain('E', 'p'), ['seq-'], ['map-']]),
           content('!e!q\n- - r\n  -', [['seq+', [], [Text('!e!'), Text('q')], 'R'], ['seq+', [], [], 'E'], plain('E', 'r'), plain('E', ''), ['seq-'], ['seq-']], tag='!e!')]


def docs(dirs, length, gap='', brk='\n', contents=None, ends=1):
    return 'Docs', dict(Dirs=DIRS, Contents=contents or CONTENTS, MaxDirs=dirs, MaxDocs=length, MaxEnds=ends, Between=Text(gap), Brk=Text(brk))


# -- documents which arrive bit by bit ---------------------------------------------

PIPE = dict(
    tokens=['- a\n- b', 'a: b\n', '? a\n: b', '[a, b]', '{a: b}', '"a\\x41"', "'a''b'", '|\n a\n', '>-\n a\n b', '&x a', '*x ', '!t a',
            '!!s a', '--- a', '...\n', '# c\na', 'a #c', 'a\r\n b', 'é: ü', '"\\u00e9"', '- - a', 'a: |\n b\nc: d', "k: 'v'", '!<t> x',
            '%YAML 1.1\n--- a', '%TAG ! !e\n--- !a b', '--- a\n---\nb', 'a\n...\nb', '[a: b]', '"a\\\n b"', '日本: 語', 'a:\n - b\n', "'é\n é'"],
    odd=['a\r', '"\r\n"', '|\r\n a\r', '-\r\n- a', '%Y', '--', '..', '-', 'a:', '[', '"', '"\\', '"\\x4', '!', '!<', '&', '*', '|+2\n   a',
         '%TAG !a! b', '\u2028a', 'a\u0085b', '?', '? \n', '{?', "'''", '\x00', 'a\t#b', '-\ta', '- \ta', '---a', '--- ', '...a', '\ufeffa'],
)


def pipe(name, chunks, faults):
    return 'Pipe', dict(Docs=T(PIPE[name]), MaxChunks=chunks, Faults=faults)


# -- histories ------------------------------------------------------------------------

CALLER = dict(
    small=['a: \'a\'', '"a\\x41"', "'b' : \"\\q\"\n", '- a\n- ]', '|\n é\n \u00fc\n'],
    wide=['["a\\x41", b, \'c\'\'d\', "\\xZZ", a]', '--- >\n a\n b\n--- \'a\'\n', 'k: &x a\nl: *x\nm: "\\u12"\n', '{a: b, "c": '],
)


def caller(name, ops, slots, long=True):
    return 'Caller', dict(Docs=T(CALLER[name]), MaxOps=ops, MaxSlots=slots, Long=long)


# -- much of something ------------------------------------------------------------------

MUCH = ['incolumn', 'seqcolumn', 'plain', 'words', 'lines', 'breaks', 'single', 'quotes', 'escapes', 'bsl', 'folds', 'literal', 'folded', 'line', 'keeps', 'indent',
        'column', 'blanks', 'comment', 'anchor', 'alias', 'tag', 'percent', 'verbatim', 'entries', 'pairs', 'keysof', 'docs', 'dash',
        'flowseq', 'flowmap', 'explicit', 'explicitf']
KEYS = ['key', 'key2', 'keyq', 'keysp', 'keyanch', 'keyalias', 'keywide', 'keyentry', 'keypair', 'explicit', 'explicitf']


def big(kinds, sizes, small=0):
    return 'Big', dict(Kinds=set(kinds), Sizes=set(sizes), Small=small)
