"""Workload generators: documents (well-formed, copying, malformed, arbitrary) built from a seeded PRNG."""
import os

BLANKS = [' ', '  ', '\t', '   ', ' \t ', '\u00a0', '\u3000', '\x0b', '\x0c', '\r', '\x1c', '\x1f', '\x85', '\u2028', '\u2029', '\u2003', '\u1680']
PLAIN_KEYS = ['a', 'b', 'c', 'key', 'A', 'a b', 'ä', '日本', 'k1', 'x.y', "it's", 'a>b', 'a#', 'a-b', 'a|b', 'a\\b', '0', 'None', 'a  b', '\U0001f600', 'mirror', 'type']
ODD_KEYS = ['a:b', '#x', '- y', '-', '--', '`', '``', 'a`b', '`a', 'a`', 'a<b', '<', '<<', '=', ':', 'a = b', '> c', '|', '\\', '# h', 'a: v', '``x`', "a``b", '.*', '(', '[a]', '\\d', '$', '^a', 'a{2}', '+', '?', '"', '<b>', '&amp;', '&']
if os.environ.get('VERIF_IMPL') == 'js':
    BLANKS = [b for b in BLANKS if b not in '\x1c\x1f\x85'] + ['\ufeff', '\u2002']
    PLAIN_KEYS = PLAIN_KEYS + ['\x85', 'a\x1cb', 'hasOwnProperty', '__proto__', 'constructor', 'toString', 'length', '1', '2']
VALUES_JS = ['\x1f', 'a\x85', '\U0001f600\U0001f601', 'a\ufeffb', '\u180e']
NEAR_KEYS = ['a', 'A', 'aa', 'a b', 'a  b', '\u00e9', 'e\u0301', '\uff41', '\u00df', 'ss', 'a1', 'a10', 'ab', 'b']     # easily taken for one another
VALUES = ['v', 'w', 'x y', '1', 'http://a:b@c=d<e', '- x', '`q`', '--', '-- a', '# a', '> c', '| p', '\\ s', ':', '=', '<', '< a', 'ä ö', '日本語', '\U0001f600', 'a\u00a0b', '<b>&"\'', 'tab\tin', '*', '\\', '|', 'a' * 40, 'true', '\u200b', '\ufeff', '{}', '%s', '.', 'a: b', '0']
if os.environ.get('VERIF_IMPL') == 'js':
    VALUES = [v for v in VALUES if v != '\ufeff'] + VALUES_JS
LONG_KEYS = ['k' * 16, 'k' * 17, 'a rather long key of several words', 'K' * 60, 'K' * 60 + '2', 'x' * 130, 'a']
HUGE = 0.004
LONG_VALUES = ['word ' * n + 'end' for n in (51, 60, 103, 205)] + ['x' * n for n in (256, 300, 513, 1025)] + ['<i>& ' * 300 + '.']
COMMENT_TEXTS = ['note', 'a longer note', '> nested', '- x', '# y', '日本', '<i>', ':', '`']


class Gen:
    def __init__(self, rng, odd=0.2, blanks=0.3):
        self.r = rng
        self.odd = odd
        self.pblank = blanks
        self.large = 0.06
        self.huge = rng.randrange(10) if rng.random() < HUGE else None      # so many counts later there is a really large one

    def few(self, *usual, most=9, huge=140):
        """A count: usually one of the given, sometimes much larger."""
        if self.huge is not None and huge:
            self.huge -= 1
            if self.huge < 0:
                self.huge = None
                return self.r.choice([self.r.randint(17, min(60, huge)), self.r.randint(17, huge), 33, min(101, huge), min(129, huge)])
        if self.r.random() < self.large:
            return self.r.randint(max(usual), most)
        return self.r.choice(usual)

    # --- pieces
    def ws(self, default=''):
        if self.r.random() < self.pblank:
            return self.r.choice(['', ' ', '  ', '\t'] + BLANKS)
        return default

    def key(self, pool=None):
        if pool:
            return self.r.choice(pool)
        k = self.r.random()
        return self.r.choice(ODD_KEYS if k < self.odd else LONG_KEYS if k > 0.985 else PLAIN_KEYS)

    def unterminated(self):
        """An escape that is never closed, of text that may occur elsewhere in the line."""
        r = self.r
        n = r.choice([1, 1, 2, 3])
        text = r.choice(['#', '##', ' ', '  ', '# ', ' #', '#\t', 'a', 'a a', 'a: a', '\t', '`' * (n - 1) + ' x', 'x ' + '`' * (n - 1)])
        return self.ws() + '#' * r.choice([0, 1, 1, 2, 3]) + self.ws() + '`' * n + text.lstrip('`' if n == 1 else '') + self.ws()

    def needs_escape(self, key, section=False):
        if section:
            return key[0] in '`<' or '<' in key
        return key[0] in '>#-`\\|:=<' or any(c in key for c in ':=<')

    def quote(self, key):
        n = 1
        while '`' * n in key:
            n += 1
        n += self.r.random() < 0.15
        pad = ' ' if key[0] == '`' or key[-1] == '`' else ''
        return '`' * n + (self.ws(pad) or pad) + key + (self.ws(pad) or pad) + '`' * n

    def keytext(self, key, section=False):
        if self.needs_escape(key, section) or self.r.random() < 0.12:
            return self.quote(key)
        return key

    def value(self):
        return self.r.choice(VALUES if self.r.random() > 0.0015 else LONG_VALUES)

    # --- lines
    def field(self, key, value):
        return f"{self.ws()}{self.keytext(key)}{self.ws()}:{self.ws(' ')}{value}{self.ws()}"

    def empty(self, key):
        return f"{self.ws()}{self.keytext(key)}{self.ws()}:{self.ws()}"

    def item(self, value):
        return f"{self.ws()}-{self.ws(' ') if not value.startswith('-') else ' '}{value}{self.ws()}"

    def entry(self, key, value):
        return f"{self.ws()}{self.keytext(key)}{self.ws()}={self.ws(' ')}{value}{self.ws()}"

    def cont(self, value=None, op=None):
        if value is None:
            value = self.value() if self.r.random() < 0.7 else ''
        return f"{self.ws()}{op or self.r.choice('|' + chr(92))}{self.ws(' ')}{value}{self.ws()}"

    def comment(self, text=None):
        if text is None:
            text = self.r.choice(COMMENT_TEXTS) if self.r.random() < 0.75 else ''
        return f"{' ' * self.r.choice([0, 0, 1, 2, 4]) + self.ws()}>{' ' * self.r.choice([0, 1, 1, 2, 3, 6])}{text}{self.ws()}"

    def blank(self):
        return self.ws() if self.r.random() < 0.4 else ''

    def copy(self, key, template):
        return f"{self.ws()}{self.keytext(key)}{self.ws(' ')}<{self.ws(' ')}{template}{self.ws()}"

    def section(self, depth, key, template=None, deep=False):
        text = self.keytext(key, True)
        line = f"{self.ws()}{'#' * depth}{self.ws(' ') if not text.startswith('#') else ' '}{text}{self.ws()}"
        if template is not None:
            line += f"{' ' if not self.needs_escape(key, True) else ''}{'<<' if deep else '<'}{self.ws(' ') if not template.startswith('<') else ' '}{template}{self.ws()}"
        return line

    def multiline(self, key, body=None):
        n = self.few(2, 2, 2, 3, 5)
        op = '-' * n
        gap = ' ' if key.startswith('-') else ''
        if body is None:
            body = [self.r.choice([self.value, self.blank, lambda: '-' * (n + 1) + ' ' + key, lambda: op, lambda: op + ' other ' + key,
                                   lambda: '  ' + self.value() + '  ', lambda: '> c', lambda: '# s', lambda: key + ': x', lambda: '-- nope',
                                   lambda: (op[:-1] if n > 2 else '-') + ' ' + key, lambda: op + ' ' + key + '.', lambda: op + key if key.startswith('-') else op])()
                    for _ in range(self.few(0, 0, 1, 1, 2, 3))]
            body = [b for b in body if not (b.strip().startswith(op) and not b.strip().startswith(op + '-') and b.strip()[n:].strip() == key)]
        return [f"{self.ws()}{op}{self.ws(' ') or gap}{key}{self.ws()}"] + body + [f"{self.ws()}{op}{self.ws(' ') or gap}{key}{self.ws()}"]

    # --- blocks
    def noise(self, out, comments=0.25, blanks=0.25):
        r = self.r
        if r.random() < blanks:
            out.extend(self.blank() for _ in range(self.few(1, 1, 2, 3)))
        if r.random() < comments:
            out.extend(self.comment() for _ in range(self.few(1, 1, 2, 3, 4)))
            if r.random() < 0.15:
                out.append(self.blank())
                if r.random() < 0.5:
                    out.append(self.comment())

    def conts(self, out, p=0.3):
        if self.r.random() < p:
            for _ in range(self.few(1, 1, 1, 2, 2, 3)):
                self.noise(out, 0.15, 0.15)
                out.append(self.cont())

    def element(self, out, pool=None, copies=()):
        r = self.r
        key = self.key(pool)
        kind = r.choice(['field', 'field', 'empty', 'list', 'fieldset', 'multi', 'copy' if copies else 'field'])
        if kind == 'field':
            out.append(self.field(key, self.value()))
            self.conts(out)
        elif kind == 'empty':
            out.append(self.empty(key))
            if r.random() < 0.25:
                self.conts(out, 0.9)
        elif kind == 'list':
            out.append(self.empty(key))
            self.items(out)
        elif kind == 'fieldset':
            out.append(self.empty(key))
            self.entries(out, pool)
        elif kind == 'multi':
            out.extend(self.multiline(key))
        else:
            out.append(self.copy(key, r.choice(copies)))

    def items(self, out, n=None):
        value = self.value()
        for _ in range(n if n is not None else self.few(1, 1, 2, 3)):
            self.noise(out, 0.15, 0.15)
            if self.r.random() > 0.25:
                value = self.value() if self.r.random() < 0.85 else ''
            out.append(self.item(value))
            self.conts(out, 0.2)

    def entries(self, out, pool=None, n=None):
        for _ in range(n if n is not None else self.few(1, 1, 2, 3)):
            self.noise(out, 0.15, 0.15)
            out.append(self.entry(self.key(pool), self.value() if self.r.random() < 0.85 else ''))
            self.conts(out, 0.2)

    # --- documents
    def finish(self, lines):
        text = '\n'.join(lines)
        if self.r.random() < 0.6:
            text += '\n'
        if self.r.random() < 0.1:
            text += self.r.choice(['\n', ' ', '\n\n', '\n  \n', '\t'])
        return text

    def plain(self, size=None, pool=None):
        """Well-formed document without copies."""
        r = self.r
        out = []
        depth = 0
        size = size if size is not None else self.few(1, 2, 3, 4, 6, 8, 12, most=30)
        psection, climb = r.choice([(0.28, 0.4), (0.28, 0.4), (0.8, 0.7)])
        for _ in range(size):
            self.noise(out)
            if r.random() < psection:
                if r.random() < climb:
                    depth = min(depth + 1, 12)
                else:
                    depth = r.choice([r.randint(1, depth + 1), max(depth, 1), max(depth - 1, 1)])
                out.append(self.section(depth, self.key(pool)))
            else:
                self.element(out, pool)
        self.noise(out, 0.15, 0.15)
        return self.finish(out)

    def copying(self, size=None, wild=0.12):
        """Copies among uniquely named non-section elements, in shuffled order, some in sections."""
        r = self.r
        n = size or self.few(2, 3, 3, 4, 5, 6, 8, most=12, huge=60)
        names = [f"n{i}" for i in range(n)] if n > 8 or r.random() < 0.85 else r.sample(NEAR_KEYS, n)
        chain = r.random() < 0.3
        kinds = {}
        blocks = []
        for i, name in enumerate(names):
            out = []
            self.noise(out, 0.3, 0.15)
            base = None
            if i and r.random() < 0.7:
                base = names[i - 1] if chain else r.choice(names[:i])
            if wild and r.random() < wild:
                base = r.choice(names + ['nowhere', name])
            if base is None:
                kind = r.choice(['field', 'empty', 'list', 'fieldset', 'multi', 'list', 'fieldset'])
                if kind == 'field':
                    out.append(self.field(name, self.value()))
                    self.conts(out)
                elif kind == 'multi':
                    out.extend(self.multiline(name))
                else:
                    out.append(self.empty(name))
                    if kind == 'list':
                        self.items(out)
                    elif kind == 'fieldset':
                        self.entries(out, ['a', 'b', 'c'])
                    elif r.random() < 0.2:
                        self.conts(out, 0.9)
                        kind = 'field'
            else:
                kind = kinds.get(base, 'empty')
                out.append(self.copy(name, base))
                grow = r.random()
                if wild and r.random() < wild:
                    kind = r.choice(['list', 'fieldset'])
                if kind == 'empty' and grow < 0.3:
                    kind = r.choice(['list', 'fieldset'])
                if kind == 'list' and grow < 0.6:
                    self.items(out)
                elif kind == 'fieldset' and grow < 0.6:
                    self.entries(out, ['a', 'b', 'c'])
            kinds[name] = kind
            blocks.append(out)
        order = r.choice(['given', 'shuffled', 'reversed'])
        if order == 'shuffled':
            r.shuffle(blocks)
        elif order == 'reversed':
            blocks.reverse()
        lines = []
        depth = 0
        for b in blocks:
            if r.random() < 0.3:
                depth = r.randint(1, depth + 1)
                lines.append(self.section(depth, r.choice(['s', 't', 'u'])))
            lines.extend(b)
        if wild and r.random() < wild:
            lines.extend(r.choice(blocks))
        return self.finish(lines)

    def sections(self, wild=0.1, comments=0.15):
        """Sections that copy each other shallowly or deeply, at several depths, in shuffled order."""
        r = self.r
        n = self.few(2, 2, 3, 3, 4, 5, most=8, huge=0)
        names = [f"S{i}" for i in range(n)] if r.random() < 0.85 else r.sample(NEAR_KEYS, n)
        chain = r.random() < 0.2
        counter = [0]
        nested = []
        elements = ['p', 'q', 'r']
        subs = ['x', 'y', 'z']
        selfnamed = r.random() < 0.12

        def body(depth, limit, allowed):
            out = []
            for _ in range(r.choice([0, 1, 1, 2, 2])):
                self.noise(out, comments, 0.1)
                k = r.random()
                key = r.choice(elements + subs[:1] if r.random() < 0.1 else elements)
                if k < 0.6:
                    counter[0] += 1
                    out.append(self.field(key, f"v{counter[0]}"))
                elif k < 0.75:
                    out.append(self.empty(key))
                elif k < 0.9:
                    out.append(self.empty(key))
                    self.items(out)
                else:
                    out.append(self.empty(key))
                    self.entries(out, ['a', 'b'])
            if depth < limit:
                for _ in range(r.choice([0, 1, 1, 2])):
                    self.noise(out, comments, 0.1)
                    name = r.choice(subs)
                    template, deep = None, False
                    if r.random() < 0.15:
                        counter[0] += 1
                        name = f"N{counter[0]}"
                        nested.append(name)
                    if selfnamed and r.random() < 0.4:
                        # copies the one section of the same name that copies nothing itself
                        name = r.choice(subs[:2])
                        template, deep = (name if r.random() < 0.6 else None), r.random() < 0.5
                    elif allowed and r.random() < 0.2:
                        template, deep = r.choice(allowed), r.random() < 0.6
                    out.append(self.section(depth + 1, name, template, deep))
                    out.extend(body(depth + 1, limit, allowed))
            return out

        blocks = []
        limit = r.choice([2, 3, 3, 4])
        for i, name in enumerate(names):
            out = []
            self.noise(out, comments, 0.1)
            template, deep = None, False
            allowed = names[:i] + list(nested)
            if allowed and r.random() < 0.75:
                template, deep = (names[i - 1] if chain and i else r.choice(allowed)), r.random() < 0.7
            if wild and r.random() < wild:
                template, deep = r.choice(names + nested + ['nowhere', 'x', name]), r.random() < 0.5
            out.append(self.section(1, name, template, deep))
            out.extend(body(1, limit, allowed if not wild or r.random() > wild else names + nested))
            blocks.append(out)
        order = r.choice(['given', 'shuffled', 'reversed'])
        if order == 'shuffled':
            r.shuffle(blocks)
        elif order == 'reversed':
            blocks.reverse()
        return self.finish([l for b in blocks for l in b])

    def mixed(self):
        """Well-formed lines with copies everywhere, small key pool (many duplicates)."""
        r = self.r
        pool = r.choice([['a', 'b', 'c'], ['a', 'b', 'c', 'd', 'e', 'f'], None, NEAR_KEYS] * 4 + [LONG_KEYS])
        out = []
        depth = 0
        for _ in range(self.few(2, 3, 4, 6, 9, most=14, huge=40)):
            self.noise(out, 0.15, 0.15)
            k = r.random()
            if k < 0.3:
                depth = r.randint(1, depth + 1)
                template = self.key(pool) if r.random() < 0.35 else None
                out.append(self.section(depth, self.key(pool), template, r.random() < 0.5))
            else:
                self.element(out, pool, copies=[self.key(pool)] if r.random() < 0.25 else ())
        return self.finish(out)

    def soup(self, n=None):
        """Any sequence of lines, well-formed or not."""
        r = self.r
        pool = r.choice([['a', 'b'], None] * 6 + [LONG_KEYS])
        out = []
        for _ in range(n or self.few(1, 2, 3, 4, 5, 7, most=14)):
            k = self.key(pool)
            out.append(r.choice([
                lambda: self.field(k, self.value()), lambda: self.empty(k), lambda: self.empty(k), lambda: self.item(self.value()),
                lambda: self.entry(k, self.value()), lambda: self.cont(), lambda: self.comment(), lambda: self.comment(''), self.blank,
                lambda: self.copy(k, self.key(pool)), lambda: self.section(r.randint(1, 4), k, self.key(pool) if r.random() < 0.3 else None, r.random() < 0.5),
                lambda: '\n'.join(self.multiline(k)), lambda: '-- ' + k, lambda: '`' + k, self.unterminated, lambda: '## `' + k, lambda: '`' + k + ' : v', lambda: k,
                lambda: self.quote(k), lambda: k + ' < ', lambda: '#', lambda: '--', lambda: '# ' + k + ' <', lambda: self.chars(6)])())
        return self.finish(out)

    def abstract(self, size=None):
        """(tree, text): a random tree in the form of checks.shape() and one way of writing it down."""
        r = self.r
        out = []

        steep = r.choice([0.3, 0.3, 0])

        def pieces(head):
            """Value continued over several lines; returns the value."""
            value = head or None
            gap = False
            for _ in range(self.few(0, 0, 0, 1, 2, 4)):
                self.noise(out, 0.15, 0.2)
                op = r.choice('|\\')
                text = self.value() if r.random() < 0.7 else ''
                out.append(self.cont(text, op))
                if text:
                    value = text if value is None else value + (' ' if op == '\\' or gap else '') + text
                    gap = False
                else:
                    gap = (gap or op == '\\') if value is not None else False
            return value

        def element():
            key = self.key()
            kind = r.choice(['field', 'field', 'empty', 'list', 'fieldset', 'multi'])
            if kind == 'field':
                v = self.value()
                out.append(self.field(key, v))
                return ['field', key, pieces(v)]
            out.append(self.empty(key)) if kind != 'multi' else None
            if kind == 'empty':
                return ['empty', key]
            if kind == 'list':
                items = []
                for _ in range(self.few(1, 2, 3)):
                    self.noise(out, 0.2, 0.2)
                    v = self.value() if r.random() < 0.85 else ''
                    out.append(self.item(v))
                    items.append(pieces(v))
                return ['list', key, items]
            if kind == 'fieldset':
                entries = []
                for _ in range(self.few(1, 2, 3)):
                    self.noise(out, 0.2, 0.2)
                    k, v = self.key(), self.value() if r.random() < 0.85 else ''
                    out.append(self.entry(k, v))
                    entries.append([k, pieces(v)])
                return ['fieldset', key, entries]
            lines = self.multiline(key)
            out.extend(lines)
            return ['field', key, '\n'.join(lines[1:-1]) if len(lines) > 2 else None]

        def section(depth):
            tree = []
            for _ in range(self.few(0, 1, 1, 2, 3)):
                self.noise(out)
                tree.append(element())
            while depth < 12 and r.random() < 0.45 / (1 + depth * steep):
                self.noise(out)
                key = self.key()
                out.append(self.section(depth + 1, key))
                tree.append(['section', key, section(depth + 1)])
            return tree

        tree = section(0)
        self.noise(out, 0.15, 0.15)
        return tree, self.finish(out)

    ALPHABET = list('ab`<:=#->|\\ \t') + ['\n', '\n', '\r', '\x00', '\x1b', '\u00a0', 'é', '\U0001f600', '\ud800', '\x85', '\u2028', '"', "'", '&', '%', '{', '\\']

    def chars(self, n=None):
        return ''.join(self.r.choice(self.ALPHABET) for _ in range(n if n is not None else self.r.randint(0, 24)))

    def unicode(self):
        r = self.r
        return ''.join(chr(r.choice([r.randrange(128), r.randrange(0x3000), r.randrange(0x110000)])) for _ in range(r.randint(0, 20)))

    def mutate(self, text):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random()
            if k < 0.35:
                lines = text.split('\n')
                i = r.randrange(len(lines))
                op = r.random()
                if op < 0.3:
                    del lines[i]
                elif op < 0.5:
                    lines.insert(i, r.choice(lines))
                elif op < 0.7:
                    j = r.randrange(len(lines))
                    lines[i], lines[j] = lines[j], lines[i]
                elif op < 0.9:
                    lines.insert(i, self.soup(1).rstrip('\n'))
                else:
                    lines[i:i + 2] = [''.join(lines[i:i + 2])]
                text = '\n'.join(lines)
            else:
                i = r.randint(0, len(text))
                op = r.random()
                if op < 0.4:
                    text = text[:i] + r.choice(self.ALPHABET) + text[i:]
                elif op < 0.7:
                    text = text[:i] + text[i + 1:]
                elif op < 0.9:
                    text = text[:i] + r.choice(self.ALPHABET) + text[i + 1:]
                else:
                    text = text[:i]
        return text

    def any(self):
        """A document of any flavour."""
        k = self.r.random()
        if k < 0.30:
            t = self.plain()
        elif k < 0.42:
            t = self.copying()
        elif k < 0.54:
            t = self.sections()
        elif k < 0.72:
            t = self.mixed()
        elif k < 0.90:
            t = self.soup()
        elif k < 0.96:
            t = self.chars()
        else:
            t = self.unicode()
        if self.r.random() < 0.2:
            t = self.mutate(t)
        return t

    def valid(self):
        """A document that is usually accepted."""
        k = self.r.random()
        if k < 0.55:
            return self.plain()
        if k < 0.75:
            return self.copying(wild=0)
        if k < 0.95:
            return self.sections(wild=0)
        return self.mixed()

    def malformed(self):
        k = self.r.random()
        if k < 0.06:
            return self.plain(size=self.r.choice([0, 1, 3])) + self.r.choice(['', '\n']) + self.unterminated() + self.r.choice(['', '\n', '\na: v'])
        if k < 0.4:
            return self.mutate(self.plain())
        if k < 0.5:
            return self.mutate(self.copying())
        if k < 0.6:
            return self.mutate(self.sections())
        return self.soup()
