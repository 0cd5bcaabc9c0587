"""What is done for each property: which parts of the specification generate
cases, which aspects of them are compared, how they are read, and which
profiles of random documents are run and judged.

A task: (name, (module, constants), variants), or (name, (module, constants), '=Property') where
the model is only checked by itself (liveness), or (name, profile, n, variants).
"""
from pools import *

ALL = 'kinds,values,styles,lz,names,tags,docs,marks,own,reads,cats'
MEM = 'be,bl'
STD = 'be,bl,pe,oe:some'
CUT = 'oe:some,ol:some,pe,pl:far'
CUTS = 'oe:all,ol:all,pe:all,pl:all'


def places(frags, length, names, variants):
    return [('%s-%s' % (frags, '-'.join(names) if len(names) < 3 else 'places'), gen(frags, length, *names), variants)]


def sizes(thorough):
    return [254, 255, 256, 257, 1023, 1025, 4095, 8191, 8192, 8193, 16384, 65535, 65537] if thorough else [255, 257, 1025, 8190, 16400]


def much(kinds, thorough, variants='be,bl,pe,ol:random'):
    return [('small', big(kinds, [1, 2, 5, 24], 400), variants), ('much', big(kinds, sizes(thorough)), variants)]


def plan(prop, thorough):
    """(aspects, tasks)"""
    t = 1 if thorough else 0

    def n(q, th):
        return th if thorough else q

    if prop == 'C01':
        V = 'be,bl,o:some,p'
        return 'total', (
            [('chars', gen('chars', n(3, 3)), V), ('mixed', gen('mixed', n(4, 5)), 'be,bl,o:random'),
             ('scal', gen('scal', n(3, 4)), V), ('docs', gen('docs', n(3, 4)), 'be,bl,o:random'),
             ('quotes', gen('quotes', n(3, 4)), V), ('breaks', gen('breaks', n(3, 4)), V),
             ('ends', pipe('odd', n(2, 4), True), '=Ends'), ('ends2', pipe('tokens', n(1, 3), True), '=Ends')]
            + places('ascii', 1, EVERYWHERE, V) + places('blank', n(4, 5), BLOCKPLACES + ['nested', 'folded'], 'be,bl')
            + places('few', n(1, 3), ['entry', 'value', 'flow', 'pair', 'single', 'double', 'escape', 'after', 'tag', 'directive',
                                     'literal', 'folded', 'keyed', 'anchor', 'alias', 'comment', 'nested', 'deftag'], V)
            + much(MUCH, t, 'be,bl,p,o:random')
            + [('t-soup', 'soup', n(3000, 30000), 'be,bl,oe:some,ol:some,p,pl'), ('t-mut', 'mut', n(2000, 30000), 'be,bl,oe:some,ol:some,p,pl'),
               ('t-faults', 'faults', n(1500, 15000), 'oe:some,ol:some')])
    if prop == 'C02':
        V = 'be,bl,pe'
        return 'kinds', (
            [('block', gen('block', n(4, 5)), V), ('flow', gen('flow', n(4, 5)), V), ('mixed', gen('mixed', n(3, 5)), V),
             ('props', gen('props', n(3, 4)), V), ('docs', gen('docs', n(3, 4)), V), ('keys', gen('keys', n(3, 4)), V),
             ('ascii', gen('ascii', 1, *EVERYWHERE), 'be,pe'), ('blocktree', tree('block', n(4, 6), (2,)), V), ('flowtree', tree('flow', n(5, 6), (2,)), V),
             ('t-tree', 'tree', n(1500, 20000), STD), ('t-mut', 'mut', n(2500, 30000), STD), ('t-soup', 'soup', n(1500, 20000), STD)])
    if prop == 'C03':
        V = 'be,bl,pe'
        A = 'kinds,values,styles,names,tags'
        return A, (
            [('blocktree', tree('block', n(5, 6)), V), ('flowtree', tree('flow', n(5, 7), (2,)), V),
             ('bothtree', tree('both', n(6, 8), (2, 4)), V), ('propstree', tree('props', n(4, 5), (1, 3)), V),
             ('crlftree', tree('block', n(4, 5), (2,), '\r\n', ' # c'), V), ('notetree', tree('flow', n(5, 6), (1,), '\n', ' # c'), V),
             ('crtree', tree('block', n(4, 5), (1,), '\r', ''), V), ('layout', styled('layout', n(4, 5), *LAYOUTS), MEM),
             ('lines', styled('lines', n(4, 5), *LAYOUTS), MEM), ('tight', styled('tight', n(5, 6), style(), style(sep='\t', note=' ')), V), ('plines', styled('props', n(3, 4), *LAYOUTS), MEM),
             ('neltree', tree('both', n(5, 6), (2,), '\u2028', ' '), V),
             ('fpropstree', tree('fprops', n(4, 5), (2,)), V), ('oddtree', tree('odd', n(4, 6), (1, 2)), V), ('dashtree', tree('dash', n(7, 9), (2,)), V),
             ('block', gen('block', n(4, 5)), V), ('flow', gen('flow', n(3, 5)), V), ('mixed', gen('mixed', n(3, 5)), V),
             ('keys', gen('keys', n(3, 4)), V)]
            + much(['column', 'incolumn', 'seqcolumn', 'entries', 'pairs', 'keysof', 'dash', 'flowseq', 'flowmap', 'blanks', 'comment'], t)
            + [('t-tree', 'tree', n(2000, 20000), STD), ('t-big', 'big', n(200, 3000), STD), ('t-mut', 'mut', n(1000, 20000), STD)])
    if prop == 'C04':
        V = 'bl,bliv,blif,ol:some,be,pl'
        return 'kinds,values,styles,lz,names,tags', (
            [('quotes', gen('quotes', n(3, 4)), V), ('scal', gen('scal', n(3, 4)), V), ('plain', gen('plain', n(3, 4)), V),
             ('double', flow('double', 'double', n(2, 4)), V), ('single', flow('single', 'single', n(2, 4)), V),
             ('plains', flow('plain', 'plain', n(2, 4)), V), ('blocks', block(LINES, n(2, 3), heads()), V),
             ('blocktree', tree('block', n(4, 5), (2,)), V), ('flowtree', tree('flow', n(4, 6), (2,)), V)]
            + places('quotes', n(2, 3), ['flow', 'keyed', 'double', 'single', 'nested'], V)
            + places('blank', n(4, 5), ['literal', 'folded', 'litline', 'nested'], 'bl,be,ol:random')
            + places('ascii', 1, WORDPLACES + QUOTEPLACES + BLOCKPLACES, 'bl,blif,ol:random,be')
            + places('few', n(1, 2), ['double', 'escape', 'literal', 'value', 'entry', 'after'], V)
            + places('scal', n(2, 3), ['value', 'entry', 'nested'], V)
            + much(['plain', 'words', 'lines', 'breaks', 'single', 'quotes', 'escapes', 'bsl', 'folds', 'literal', 'folded', 'keeps', 'indent'], t,
                   'bl,blif,ol:random,pl,be')
            + [('t-scalars', 'scalars', n(2500, 20000), 'bl,blif,ol:some,pl'), ('t-tree', 'tree', n(1000, 10000), 'bl,blif,ol:some,pl')])
    if prop == 'C05':
        V = n(CUT, CUTS)
        return ALL, (
            [('tokens', pipe('tokens', n(2, 5), True), 'be'), ('odd', pipe('odd', n(99, 99), True), 'be'),
             ('chars', gen('chars', n(2, 3)), V), ('mixed', gen('mixed', n(3, 4)), V), ('scal', gen('scal', n(3, 4)), V),
             ('quotes', gen('quotes', n(3, 4)), V), ('breaks', gen('breaks', n(3, 4)), V), ('docs', gen('docs', n(3, 3)), V),
             ('props', gen('props', n(2, 3)), V), ('esc', gen('esc', n(1, 2), 'escape'), V), ('blocks', block(LINES, n(2, 3), heads()), V),
             ('double', flow('double', 'double', n(2, 3)), V), ('blocktree', tree('block', n(4, 5), (2,)), V),
             ('ascii', gen('ascii', 1, *EVERYWHERE), CUT)]
            + [('t-mix', 'mix', n(2000, 20000), 'oe:some,ol:some,pe,pl'), ('t-long', 'long', n(12, 60), 'oe:whole,ol:whole,pe,pl'),
               ('t-soup', 'soup', n(1500, 20000), 'oe:some,ol:some,pe,pl'), ('t-keys', 'keys', n(24, 200), 'oe:whole,pe,pl')])
    if prop == 'C06':
        V = STD + ',ol:random'
        A = 'values,styles'
        return A, (
            [('double', flow('double', 'double', n(3, 4)), V), ('single', flow('single', 'single', n(3, 4)), V),
             ('escapes', flow('double', 'escapes', n(2, 2)), V), ('tight', flow('double', 'double', n(2, 3), TIGHT_CTX), V),
             ('tightsingle', flow('single', 'single', n(2, 3), TIGHT_CTX), V), ('quotes', gen('quotes', n(3, 4)), V),
             ('hex4', gen('hex4', n(4, 5), 'u'), MEM), ('hex2', gen('hex4', n(3, 4), 'x'), MEM), ('hex8', gen('hex8', n(3, 3), 'U'), MEM),
             ('esc', gen('esc', n(2, 3), 'escape'), MEM)]
            + places('few', n(2, 3), ['double', 'single'], MEM) + places('breaks', n(3, 4), ['double', 'single'], MEM)
            + places('marker', n(4, 5), ['double', 'single'], 'be,pe')
            + places('ascii', 1, QUOTEPLACES + ['x', 'u', 'U'], STD) + places('chars', 2, QUOTEPLACES, 'be')
            + places('quotes', n(2, 3), ['flow', 'keyed', 'nested', 'pair'], V)
            + much(['single', 'quotes', 'escapes', 'bsl', 'folds'], t)
            + [('t-quoted', 'quoted', n(2500, 25000), V)])
    if prop == 'C07':
        V = STD + ',ol:random'
        return 'values,styles', (
            [('plains', flow('plain', 'plain', n(3, 4)), V), ('odds', flow('plain', 'plainodd', n(3, 4), OUTSIDE), V),
             ('column', flow('plain', 'column', n(3, 4), ROOT_CTX), V), ('tight', flow('plain', 'plain', n(2, 3), TIGHT_CTX), V),
             ('plain', gen('plain', n(4, 5)), MEM), ('chars', gen('chars', n(2, 3)), MEM)]
            + places('plain', n(3, 4), ['entry', 'value', 'flow', 'pair', 'nested', 'keyed', 'after'], MEM)
            + places('few', n(2, 3), ['entry', 'value', 'flow', 'pair', 'nested', 'after'], MEM)
            + places('marker', n(4, 5), ['root', 'inflow'], 'be,pe')
            + places('ascii', 1, WORDPLACES, STD) + places('chars', 2, WORDPLACES, 'be') + places('few', 3, ['inword', 'inflow'], 'be')
            + much(['plain', 'words', 'lines', 'breaks', 'comment', 'blanks'], t)
            + [('t-plain', 'plain', n(2500, 25000), V), ('t-tree', 'tree', n(800, 10000), V)])
    if prop == 'C08':
        V = STD + ',ol:random'
        return 'values,styles', (
            [('lines', block(LINES, n(3, 4), heads()), n('be,bl,oe:random', V)), ('more', block(MORE_LINES, n(2, 3), heads('', True)), 'be,bl')]
            + [('explicit%s' % d, block(MORE_LINES, n(2, 3), heads(d, d == '2'), EXPLICIT_CTX[d]), 'be,bl,oe:random') for d in '129']
            + [('scal', gen('scal', n(4, 5)), MEM), ('block', gen('scal', n(3, 4), 'nested'), MEM), ('value', gen('scal', n(3, 4), 'value'), MEM)]
            + places('few', n(2, 3), ['literal', 'folded'], MEM) + places('breaks', n(3, 4), ['literal', 'folded'], MEM)
            + places('plain', n(3, 4), ['literal', 'folded'], MEM) + places('blank', n(5, 6), ['literal', 'folded'], MEM)
            + places('marker', n(4, 5), ['litline'], 'be,pe')
            + places('ascii', 1, BLOCKPLACES, STD) + places('chars', 2, BLOCKPLACES, 'be')
            + much(['literal', 'folded', 'line', 'keeps', 'indent'], t)
            + [('t-block', 'block', n(2500, 25000), V), ('t-tree', 'tree', n(500, 10000), V)])
    if prop == 'C09':
        V = STD
        return 'docs,tags,values', (
            [('one', docs(n(2, 3), 1), V), ('two', docs(1, 2), n('be,bl,oe:random', V)), ('three', docs(0, 3), MEM),
             ('gap', docs(1, n(1, 2), '# c\n'), V), ('crlf', docs(1, n(1, 2), '# é\n\n', '\r\n'), V),
             ('nel', docs(2, 1, '', '\u2029'), V), ('ends', docs(0, n(2, 3), ends=3), V), ('several', docs(1, n(1, 2), contents=SEVERAL, ends=2), V),
             ('manylines', docs(0, 2, '# c\n', contents=SEVERAL), V), ('manycrlf', docs(0, 2, '# é\n\n', '\r\n', contents=SEVERAL), MEM),
             ('docs', gen('docs', n(3, 4)), V), ('version', gen('version', n(3, 4)), MEM),
             ('directive', gen('version', n(3, 4), 'directive'), MEM), ('deftag', gen('tags', n(2, 3), 'deftag'), MEM),
             ('ascii', gen('ascii', 1, *DIRPLACES), V), ('vers', gen('vers', n(4, 5)), MEM), ('dirs', docs(n(3, 4), 1, contents=CONTENTS[1:3]), MEM),
             ('percent', gen('percent', n(3, 4), 'prefix', 'handle'), MEM)]
            + places('dirline', n(4, 5), DIRLINES, MEM) + places('marker', n(4, 5), ['ending', 'start'], 'be')
            + much(['docs', 'comment'], t)
            + [('t-tree', 'tree', n(2500, 20000), V), ('t-mut', 'mut', n(2000, 20000), V)])
    if prop == 'C10':
        V = STD
        return 'names,tags,kinds', (
            [('propstree', styled('props', n(4, 5), style(), style(3, end=True)), V), ('fpropstree', tree('fprops', n(5, 5), (2,)), n('be,bl,oe:random', V)),
             ('endtree', styled('fprops', n(4, 5), style(end=True, sep='\t'), style(1, end=True, nxt=True, head=True), style(tail=True, end=True)), V),
             ('props', gen('props', n(3, 4)), V), ('tags', gen('tags', n(3, 4)), MEM), ('deftag', gen('tags', n(2, 3), 'deftag'), MEM),
             ('one', docs(n(1, 2), 1), V), ('two', docs(1, n(1, 2)), MEM)]
            + places('few', n(2, 3), ['tag', 'anchor', 'alias', 'deftag'], MEM) + places('tags', n(3, 4), ['tag', 'anchor'], MEM)
            + places('props', n(2, 3), ['entry', 'value', 'flow', 'pair', 'nested', 'keyed'], MEM)
            + places('ascii', 1, TAGPLACES, V) + places('percent', n(3, 4), ['tag', 'verbatim', 'suffix', 'prefix'], MEM)
            + places('chars', 2, TAGPLACES, 'be')
            + much(['anchor', 'alias', 'tag', 'percent', 'verbatim'], t)
            + [('t-tree', 'tree', n(2000, 20000), V), ('t-mut', 'mut', n(1500, 20000), V)])
    if prop == 'C11':
        V = 'be,bl,pe,oe:random'
        return 'kinds,values,names,prefix', (
            [('limit', big(KEYS, [3, 100, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1100] + ([2048, 9000, 70000] if t else [9000])), 'be,bl,pe,pl,o:random,o:whole'),
             ('small', big(KEYS, [5, 12, 30], 300), V), ('atlimit', big(KEYS, [1024, 1025] if t else [1024], 1200 if t else 0), V),
             ('keys', gen('keys', n(4, 5)), n(MEM, V)), ('quoted', flow('double', 'double', n(2, 3)), V), ('plain', gen('plain', n(3, 4), 'keyed'), V),
             ('quotes', gen('quotes', n(3, 4), 'keyed'), MEM), ('pair', gen('keys', n(3, 4), 'pair'), V), ('nested', gen('keys', n(3, 4), 'nested'), V),
             ('ascii', gen('ascii', 1, 'keyed', 'inkey', 'flowmap', 'colon', 'fcolon', 'qcolon', 'query', 'fquery', 'pair'), 'be,bl,pe'),
             ('two', gen('chars', 2, 'inkey', 'flowmap', 'colon', 'fcolon', 'qcolon', 'keyed'), 'be'),
             ('t-keys', 'keys', n(60, 600), 'be,bl,pe,oe:whole'), ('t-mut', 'mut', n(1500, 15000), V), ('t-tree', 'tree', n(1000, 15000), V)])
    if prop == 'C12':
        V = 'be,bl,y,oe:some'
        return 'cats', (
            [('tokens', pipe('tokens', n(2, 3), True), 'be'), ('odd', pipe('odd', n(4, 99), True), 'be'),
             ('chars', gen('chars', n(2, 3)), V), ('quotes', gen('quotes', n(3, 4)), V), ('tags', gen('tags', n(3, 4)), MEM),
             ('version', gen('version', n(3, 4)), MEM), ('hex4', gen('hex4', n(3, 5), 'u'), MEM), ('hex8', gen('hex8', n(2, 3), 'U'), MEM),
             ('esc', gen('esc', n(2, 3), 'escape'), MEM), ('block', gen('block', n(3, 4)), V), ('flow', gen('flow', n(3, 4)), V),
             ('docs', gen('docs', n(3, 4)), V), ('props', gen('props', n(3, 4)), MEM), ('scal', gen('scal', n(3, 4)), V),
             ('ascii', gen('ascii', 1, *EVERYWHERE), 'be,bl,oe:random'), ('vers', gen('vers', n(3, 4)), MEM),
             ('percent', gen('percent', n(2, 3), 'tag', 'verbatim', 'prefix', 'handle'), MEM)]
            + [('t-faults', 'faults', n(3000, 30000), 'oe:some,ol:some,oe:bytes'), ('t-mut', 'mut', n(1500, 20000), STD), ('t-soup', 'soup', n(1500, 20000), STD)])
    if prop == 'C13':
        V = 'be,bl,ye,yl'
        return 'own,values,lz', (
            [('plains', flow('plain', 'plain', n(3, 4)), V), ('odds', flow('plain', 'plainodd', n(2, 3), OUTSIDE), V),
             ('double', flow('double', 'double', n(3, 4)), V), ('single', flow('single', 'single', n(3, 4)), V),
             ('lines', block(LINES, n(3, 4), heads()), MEM), ('explicit', block(MORE_LINES, 2, heads('2'), EXPLICIT_CTX['2']), V),
             ('propstree', tree('props', n(4, 5), (2,)), V), ('fpropstree', tree('fprops', n(4, 5), (2,)), V), ('tags', gen('tags', n(3, 4), 'tag'), V),
             ('quotes', gen('quotes', n(3, 4)), V), ('blocktree', tree('block', n(4, 5), (2,)), V), ('one', docs(2, 1), V),
             ('column', flow('plain', 'column', n(2, 3), ROOT_CTX), V), ('tight', flow('plain', 'plain', 2, TIGHT_CTX), V), ('layout', styled('layout', n(3, 4), *LAYOUTS), MEM),
             ('ascii', gen('ascii', 1, *EVERYWHERE), 'be,bl'), ('blank', gen('blank', n(4, 5), *BLOCKPLACES), 'be,bl'),
             ('percent', gen('percent', n(2, 3), *TAGPLACES), 'be,bl')]
            + much([k for k in MUCH if k not in ('column', 'incolumn', 'seqcolumn', 'entries', 'pairs', 'keysof', 'docs', 'dash', 'blanks')], t, MEM)
            + [('t-scalars', 'scalars', n(2000, 20000), V), ('t-tree', 'tree', n(1500, 20000), V)])
    if prop == 'C14':
        V = 'oe:some,ol:some,oe:whole'
        return 'reads', (
            [('tokens', pipe('tokens', n(3, 5), True), 'be'), ('odd', pipe('odd', n(99, 99), True), 'be'),
             ('blocktree', tree('block', n(4, 5), (2,)), 'be'), ]
            + [('t-tree', 'tree', n(3000, 30000), V), ('t-mut', 'mut', n(2000, 20000), V), ('t-scalars', 'scalars', n(1500, 20000), V),
               ('t-soup', 'soup', n(1500, 20000), V), ('t-faults', 'faults', n(1000, 20000), V)])
    if prop == 'C15':
        V = STD + ',ol:random,pl:far'
        return 'marks', (
            [('chars', gen('chars', n(2, 3)), V), ('mixed', gen('mixed', n(3, 4)), V), ('breaks', gen('breaks', n(4, 4)), MEM),
             ('blocktree', tree('block', n(4, 5), (1, 2)), V), ('flowtree', tree('flow', n(4, 6), (2,)), V),
             ('crlftree', tree('both', n(5, 6), (2,), '\r\n', ' # é'), V), ('propstree', tree('props', 4, (2,)), V),
             ('plains', flow('plain', 'plain', n(2, 3)), V), ('double', flow('double', 'double', n(2, 3)), V), ('lines', block(LINES, n(2, 3), heads()), V),
             ('two', docs(1, 2, '# é\n'), n(MEM, V)), ('scal', gen('scal', n(3, 4)), V), ('quotes', gen('quotes', n(3, 4)), V),
             ('ascii', gen('ascii', 1, *EVERYWHERE), 'be,bl,oe:random')]
            + [('t-tree', 'tree', n(1500, 20000), V), ('t-mut', 'mut', n(1500, 20000), V), ('t-scalars', 'scalars', n(1500, 20000), V),
               ('t-big', 'big', n(100, 2000), V)])
    if prop == 'C16':
        V = 'be,ber,bem,blr,blm,oer:random,olm:random,per'
        return 'kinds,values,marks', (
            [('small', caller('small', n(5, 6), 2), 'b,o:bytes'), ('wide', caller('wide', n(4, 5), 2), 'b,y,o:random'),
             ('blocktree', tree('block', n(4, 5), (2,)), V), ('flowtree', tree('flow', n(4, 6), (2,)), V), ('docs', gen('docs', n(3, 4)), V),
             ('mixed', gen('mixed', n(3, 4)), V), ('props', gen('props', n(3, 4)), V)]
            + [('t-tree', 'tree', n(1500, 20000), V), ('t-mut', 'mut', n(2000, 20000), V)])
    if prop == 'C17':
        V = 'be,bl,blif,blrf,blkv,bldf,beif,olif:random,olkf:some'
        return 'values,styles,lz', (
            [('small', caller('small', n(5, 6), 3, False), 'b,o:bytes'), ('wide', caller('wide', n(5, 6), 3), 'b,y,o:random'),
             ('quotes', gen('quotes', n(3, 4)), V), ('scal', gen('scal', n(3, 4)), V), ('plain', gen('plain', n(3, 4)), V),
             ('double', flow('double', 'double', n(2, 3)), V), ('esc', gen('esc', n(2, 3), 'escape'), V), ('lines', block(LINES, n(2, 3), heads()), V)]
            + [('t-scalars', 'scalars', n(2500, 25000), V), ('t-mut', 'mut', n(1000, 15000), V)])
    if prop == 'C18':
        V = 'oek:some,olk:some,oed:some,oldf:some,pek,pld:far'
        return 'values,styles,names,tags', (
            [('blocktree', tree('block', n(4, 5), (2,)), V), ('propstree', tree('props', n(4, 5), (2,)), V), ('fpropstree', tree('fprops', n(4, 5), (2,)), V),
             ('double', flow('double', 'double', n(2, 3)), V), ('plains', flow('plain', 'plain', n(2, 3)), V), ('lines', block(LINES, n(2, 3), heads()), V),
             ('two', docs(1, n(1, 2)), V), ('quotes', gen('quotes', n(3, 3)), V), ('scal', gen('scal', n(3, 3)), V)]
            + much(MUCH, t, 'pek,plk,ped,pldf,oek:random')
            + [('t-tree', 'tree', n(2000, 20000), V), ('t-long', 'long', n(12, 60), 'pek,pldf,oek:whole'), ('t-big', 'big', n(150, 2000), V),
               ('t-mut', 'mut', n(1500, 20000), V)])
    raise KeyError(prop)


PROPS = ['C%02d' % i for i in range(1, 19)]
