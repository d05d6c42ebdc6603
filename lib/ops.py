"""Lock-step reference of the query API: the same history of calls is applied to enolib and to this model."""
import functools
import json
import os
import unicodedata
import model as M

KINDS = ('empty', 'field', 'fieldset', 'list', 'section')
MISSING = object()


class Res:
    """What a call must do: one of ok(value), obj, objs, err, type error, exception passed through."""

    def __init__(self, kind, value=None, also_type=False):
        self.kind, self.value, self.also_type = kind, value, also_type

    def __repr__(self):
        if self.kind == 'err':
            return f"error {self.value.text()!r} at {self.value.sel['from']}..{self.value.sel['to']}"
        if self.kind == 'obj':
            return self.value.label()
        if self.kind == 'objs':
            return '[' + ', '.join(m.label() for m in self.value) + ']'
        return f"{self.kind} {self.value!r}" if self.kind != 'ok' else repr(self.value)


NONE = Res('ok', None)


class Raise(Exception):
    def __init__(self, err, also_type=False):
        self.res = Res('err', err, also_type)


class Second(Exception):
    """Requested as a second kind."""


class Through(Exception):
    """A loader's own exception passes through."""

    def __init__(self, name):
        self.name = name


# --- loaders and messages, encoded by name so that histories are plain data ---
class Boom(KeyError):
    pass


class Callable:
    """A callable that is no function."""
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def method(self, *args):
        return self.f(*args)


FORMS = [lambda f: f, Callable, functools.partial, lambda f: Callable(f).method]


def load(name, value, calls):
    calls.append(value)
    if name == 'upper':
        return ['loaded', str(value).upper(), len(calls)]     # differs from call to call
    if name == 'none':
        return None
    if name == 'zero':
        return 0
    if name == 'fail':
        raise ValueError(f"bad {value}")
    if name == 'boom':
        raise Boom('boom')
    if name == 'typeerror':
        raise TypeError('loader type error')
    if name == 'decode':
        bytes([255]).decode('utf-8')       # UnicodeDecodeError is a ValueError
    if name == 'mute':
        raise ValueError()
    if name == 'two':
        raise ValueError('bad', value)
    if name == 'attribute':
        raise AttributeError('loader attribute error')
    if name == 'foreign':
        raise foreign()
    raise AssertionError(name)


@functools.cache
def _elsewhere():
    import real as R
    return R.enolib.parse('of: another document').field('of')


def foreign():
    """A validation error of another document, as raised by a loader that consults one."""
    return _elsewhere().value_error('raised for another document')


LOADERS = ['upper', 'upper', 'none', 'zero', 'fail', 'boom', 'typeerror', 'decode', 'mute', 'two', 'attribute', 'foreign']
if os.environ.get('VERIF_IMPL') == 'js':
    # a JavaScript loader may throw anything; what it throws becomes the message
    LOADERS = ['upper', 'upper', 'none', 'zero', 'fail', 'decode', 'mute', 'two']


def loader_failure(name, value):
    """(message of the ValueError, None) or (None, class name of what passes through) or None."""
    if name == 'fail':
        return f"bad {value}", None
    if name == 'mute':
        return '', None
    if name == 'two':
        return str(('bad', value)), None
    if name == 'decode':
        try:
            bytes([255]).decode('utf-8')
        except ValueError as e:
            return str(e), None
    if name == 'boom':
        return None, 'Boom'
    if name == 'typeerror':
        return None, 'TypeError'
    if name == 'attribute':
        return None, 'AttributeError'
    if name == 'foreign':
        return None, 'ValidationError'
    return None


# --- objects ----------------------------------------------------------------------------------------------------
class Obj:
    cls = None

    def __init__(self, env, el, parent):
        self.env, self.el, self.parent, self.touched = env, el, parent, False

    def label(self):
        where = 'document' if self.el.kind == M.DOCUMENT else f"line {self.el.line + 1}"
        return f"{self.cls}<{self.el.key!r} {where}>"

    @property
    def doc(self):
        return self.env.doc

    def key_text(self):
        if self.el.kind == M.DOCUMENT:
            return None
        return self.el.parent.key if self.el.kind == M.ITEM else self.el.key

    def load(self, name, value, factory):
        self.env.model_calls.append(value)
        f = loader_failure(name, value)
        if f:
            if f[0] is not None:
                raise Raise(factory(self.doc, self.el, f[0]))
            raise Through(f[1])
        return Res('ok', load(name, value, self.env.model_calls[:-1]))

    def comment(self, required, name=None):
        self.touched = True
        text = M.comment_text(self.el)
        if not text:
            if required:
                raise Raise(M.e_missing_comment(self.doc, self.el))
            return NONE
        return Res('ok', text) if name is None else self.load(name, text, M.e_comment)

    def value(self, required, name=None):
        self.touched = True
        v = M.value_of(self.doc, self.el)
        if v is None:
            if required:
                raise Raise(M.e_missing_value(self.doc, self.el))
            return NONE
        return Res('ok', v) if name is None else self.load(name, v, M.e_value)

    def message(self, m, value):
        if m[0] == 'plain':
            return m[1]
        self.env.model_calls.append(value)
        return m[1] + ':' + json.dumps(value)

    # base operations
    def string_key(self):
        self.touched = True
        return Res('ok', self.key_text())

    def key(self, name):
        self.touched = True
        return self.load(name, self.key_text(), M.e_key)

    def optional_string_comment(self):
        return self.comment(False)

    def required_string_comment(self):
        return self.comment(True)

    def optional_comment(self, name):
        return self.comment(False, name)

    def required_comment(self, name):
        return self.comment(True, name)

    def raw(self):
        return Res('ok', M.raw(self.doc, self.el))

    def error(self, m):
        return Res('returned', M.e_element(self.doc, self.el, self.message(m, M.raw(self.doc, self.el))))

    def key_error(self, m):
        return Res('returned', M.e_key(self.doc, self.el, self.message(m, self.key_text())))

    def comment_error(self, m):
        return Res('returned', M.e_comment(self.doc, self.el, self.message(m, M.comment_text(self.el))))

    def value_error(self, m):
        return Res('returned', M.e_value(self.doc, self.el, self.message(m, M.value_of(self.doc, self.el))))

    def repr(self):
        return Res('repr', representations(self))

    def touch(self):
        self.touched = True
        return NONE

    def get_parent(self):
        return Res('obj', self.parent) if self.parent is not None else NONE

    # values
    def optional_string_value(self):
        return self.value(False)

    def required_string_value(self):
        return self.value(True)

    def optional_value(self, name):
        return self.value(False, name)

    def required_value(self, name):
        return self.value(True, name)

    def unread(self):
        return [] if self.touched else [self.el]


class Empty(Obj):
    cls = 'Empty'


class Field(Obj):
    cls = 'Field'


class Entry(Obj):
    cls = 'FieldsetEntry'


class Item(Obj):
    cls = 'ListItem'


class List(Obj):
    cls = 'List'

    def __init__(self, env, el, parent):
        super().__init__(env, el, parent)
        self.all = [Item(env, i, self) for i in M.items_of(el)]

    def items(self):
        self.touched = True
        return Res('objs', self.all)

    def length(self):
        self.touched = True
        return Res('ok', len(self.all))

    def values(self, required, name=None):
        self.touched = True
        return Res('ok', [i.value(required, name).value for i in self.all])

    def optional_string_values(self):
        return self.values(False)

    def required_string_values(self):
        return self.values(True)

    def optional_values(self, name):
        return self.values(False, name)

    def required_values(self, name):
        return self.values(True, name)

    def touch(self):
        self.touched = True
        for i in self.all:
            i.touched = True
        return NONE

    def unread(self):
        return ([] if self.touched else [self.el]) + [i.el for i in self.all if not i.touched]


class Fieldset(Obj):
    cls = 'Fieldset'

    def __init__(self, env, el, parent):
        super().__init__(env, el, parent)
        self.all = [Entry(env, i, self) for i in M.entries_of(el)]
        self.required = parent.required if parent is not None else False

    def matching(self, key):
        return [e for e in self.all if key is None or e.el.key == key]

    def find(self, key, required):
        self.touched = True
        found = self.matching(key)
        if not found:
            if required or self.required:
                raise Raise(M.e_missing(self.doc, self.el, key, 'missing_fieldset_entry'))
            return Res('obj', Missing(self.env, 'fieldset_entry', key, self)) if required is None else NONE
        if len(found) > 1:
            raise Raise(M.e_multiple(self.doc, [e.el for e in found], key, 'expected_single_fieldset_entry'))
        return Res('obj', found[0])

    def entry(self, key):
        return self.find(key, None)

    def optional_entry(self, key):
        return self.find(key, False)

    def required_entry(self, key):
        return self.find(key, True)

    def entries(self, key):
        self.touched = True
        return Res('objs', self.matching(key))

    def all_entries_required(self, flag):
        self.required = flag
        return NONE

    def touch(self):
        self.touched = True
        for e in self.all:
            e.touched = True
        return NONE

    def unread(self):
        return ([] if self.touched else [self.el]) + [e.el for e in self.all if not e.touched]

    def assert_all_touched(self, m, only, skip):
        return assertion(self, [(e, [e.el] if not e.touched else []) for e in self.all], m, only, skip)


def assertion(owner, checked, m, only, skip):
    culprits = []
    for e, unread in checked:
        if (skip and e.el.key in skip) or (only and e.el.key not in only):
            continue
        culprits += unread
    if not culprits:
        return NONE
    options = []
    for el in culprits:
        if m is None:
            text = None
        elif m[0] == 'plain':
            text = m[1]
        else:
            text = m[1] + ':' + json.dumps(M.raw(owner.doc, el))
        options.append(M.e_unexpected(owner.doc, el, text))
    options[0].alternatives = options
    raise Raise(options[0])


class Section(Obj):
    cls = 'Section'

    def __init__(self, env, el, parent):
        super().__init__(env, el, parent)
        self.required = parent.required if parent is not None else False
        self._all = None

    @property
    def all(self):
        if self._all is None:
            self._all = [SectionElement(self.env, e, self) for e in M.effective(self.el)]
        return self._all

    def matching(self, key):
        return [e for e in self.all if key is None or e.el.key == key]

    def find(self, kind, key, required):
        self.touched = True
        found = self.matching(key)
        if not found:
            if required or self.required:
                raise Raise(M.e_missing(self.doc, self.el, key, 'missing_' + kind))
            return Res('obj', Missing(self.env, kind, key, self)) if required is None else NONE
        if len(found) > 1:
            raise Raise(M.e_multiple(self.doc, [e.el for e in found], key, 'expected_single_' + kind))
        if kind == 'element':
            return Res('obj', found[0])
        if not found[0].yields(kind):
            raise Raise(M.e_type(self.doc, found[0].el, key, 'expected_' + kind))
        return Res('obj', found[0].to(kind))

    def plural(self, kind, key):
        self.touched = True
        found = self.matching(key)
        if kind == 'element':
            return Res('objs', found)
        out = []
        for e in found:
            fresh = e.obj is None
            try:
                if not e.yields(kind):
                    raise Raise(M.e_type(self.doc, e.el, key, f"expected_{kind}s"))
                out.append(e.to(kind))
            except (Raise, Second):
                self.env.ambiguous = self.env.ambiguous or bool(out) or len(found) > 1
                raise
        return Res('objs', out)

    def all_elements_required(self, flag):
        self.required = flag
        for e in self.all:
            if e.kind == 'section':
                e.obj.all_elements_required(flag)
            elif e.kind == 'fieldset':
                e.obj.required = flag
        return NONE

    def touch(self):
        self.touched = True
        for e in self.all:
            e.touch()
        return NONE

    def unread(self):
        out = [] if self.touched else [self.el]
        for e in self.all:
            out += e.unread()
        return out

    def assert_all_touched(self, m, only, skip):
        return assertion(self, [(e, e.unread()) for e in self.all], m, only, skip)


def _section_queries():
    for kind in KINDS + ('element',):
        setattr(Section, kind, lambda self, key, kind=kind: self.find(kind, key, None))
        setattr(Section, 'optional_' + kind, lambda self, key, kind=kind: self.find(kind, key, False))
        setattr(Section, 'required_' + kind, lambda self, key, kind=kind: self.find(kind, key, True))
        if kind != 'empty':
            setattr(Section, kind + 's', lambda self, key, kind=kind: self.plural(kind, key))


_section_queries()


class SectionElement(Obj):
    cls = 'SectionElement'
    MAKE = {'empty': Empty, 'field': Field, 'fieldset': Fieldset, 'list': List, 'section': Section}

    def __init__(self, env, el, parent):
        super().__init__(env, el, parent)
        self.kind = self.obj = None
        self.touched_unyielded = False

    def yields(self, kind):
        k = M.kind_of(self.el)
        if k == M.EMPTY:
            return kind != 'section'
        return k == kind

    def to(self, kind):
        if self.kind == kind:
            return self.obj
        wrong = not self.yields(kind)
        if wrong:
            raise Raise(M.e_type(self.doc, self.el, None, 'expected_' + kind), also_type=self.kind is not None)
        if self.kind is not None:
            raise Second()
        self.kind = kind
        self.obj = self.MAKE[kind](self.env, self.el, self.parent)
        return self.obj

    def touch(self):
        if self.kind is None:
            k = M.kind_of(self.el)
            if k == M.EMPTY:
                self.touched_unyielded = True
                return NONE
            self.to(k)
        self.obj.touch()
        return NONE

    def unread(self):
        if self.touched_unyielded:
            return []
        if self.kind is None:
            return list(everything(self.env, self.el))
        return self.obj.unread()


def everything(env, el):
    """The element and everything it effectively contains."""
    yield el
    k = M.kind_of(el)
    group = M.effective(el) if k == M.SECTION else M.items_of(el) if k == M.LIST else M.entries_of(el) if k == M.FIELDSET else []
    for e in group:
        yield from everything(env, e)


def _element_methods():
    for kind in KINDS:
        setattr(SectionElement, 'to_' + kind, lambda self, kind=kind: Res('obj', self.to(kind)))
        setattr(SectionElement, 'yields_' + kind, lambda self, kind=kind: Res('ok', self.yields(kind)))


_element_methods()


class Missing:
    """Placeholder for something absent."""

    def __init__(self, env, kind, key, parent):
        self.env, self.kind, self.wanted, self.parent = env, kind, key, parent
        self.cls = 'Missing' + {'element': 'SectionElement', 'fieldset_entry': 'FieldsetEntry'}.get(kind, kind.title())

    def label(self):
        return f"{self.cls}<{self.wanted!r}>"

    def complain(self):
        top = self
        while isinstance(top.parent, Missing):
            top = top.parent
        raise Raise(M.e_missing(self.env.doc, top.parent.el, top.wanted, 'missing_' + top.kind))

    def call(self, name, args):
        kind = self.kind
        if name == 'repr':
            return Res('repr', representations(self))
        if name in ('raw', 'optional_string_comment', 'optional_comment'):
            return NONE
        if name in ('key', 'string_key', 'required_string_comment', 'required_comment'):
            self.complain()
        if kind == 'element':
            verb, _, what = name.partition('_')
            if verb == 'to':
                return Res('obj', Missing(self.env, what, self.wanted, self.parent))
            if verb == 'yields':
                return Res('ok', True)
        if kind in ('field', 'fieldset_entry'):
            if name.startswith('optional_'):
                return NONE
            self.complain()
        if kind == 'list':
            return Res('ok', 0 if name == 'length' else [])
        if kind in ('fieldset', 'section'):
            if name.startswith('optional_'):
                return NONE
            if name.startswith('required_'):
                self.complain()
            if name in ('entries',) or name in PLURALS:
                return Res('ok', [])
            return Res('obj', Missing(self.env, 'fieldset_entry' if name == 'entry' else name, args[0], self))
        raise AssertionError((kind, name))


JAVASCRIPT = os.environ.get('VERIF_IMPL') == 'js'
COUNTED = {'Section': 'elements', 'Fieldset': 'entries', 'List': 'items'}


def representations(m):
    """The debug representations allowed for an object, the usual one first; None where none is promised."""
    opening, closing, absent = ('[object ', ']', 'null') if JAVASCRIPT else ('<class ', '>', 'None')
    keys = lambda key: [f" key={key}", f' key="{key}"']
    if isinstance(m, Missing):
        if m.wanted == '':
            return None
        return [opening + m.cls + closing] if m.wanted is None else [opening + m.cls + key + closing for key in keys(m.wanted)]
    if m.cls == 'SectionElement' and JAVASCRIPT:
        return None
    rest = ['']
    if m.cls in COUNTED:
        rest = [f" {COUNTED[m.cls]}={len(m.all)}"]
    elif m.cls in ('Field', 'FieldsetEntry', 'ListItem'):
        v = M.value_of(m.doc, m.el)
        shown = absent if v is None else (v if len(v) <= 14 else v[:11] + '...').replace('\n', '\\n')
        rest = [f" value={shown}"] + ([f" value={absent}"] if v == '' else [])
    named = [''] if m.cls == 'ListItem' else [' document'] if m.el.kind == M.DOCUMENT else keys(m.el.key)
    return [opening + m.cls + n + x + closing for n in named for x in rest]


PLURALS = ('elements', 'fields', 'fieldsets', 'lists', 'sections')
BASE = ['string_key', 'key', 'optional_string_comment', 'required_string_comment', 'optional_comment', 'required_comment', 'raw', 'repr']
ERRORS = ['error', 'key_error', 'comment_error']
VALUE = ['optional_string_value', 'required_string_value', 'optional_value', 'required_value']
VALUES = ['items', 'length', 'optional_string_values', 'required_string_values', 'optional_values', 'required_values']
ENTRIES = ['entry', 'optional_entry', 'required_entry', 'entries']
SINGLES = [p + k for p in ('', 'optional_', 'required_') for k in KINDS + ('element',)]
CONVERT = ['to_' + k for k in KINDS] + ['yields_' + k for k in KINDS]
KEYED = set(SINGLES) | set(PLURALS) | set(ENTRIES)
LOADED = {'key', 'optional_comment', 'required_comment', 'optional_value', 'required_value', 'optional_values', 'required_values'}

METHODS = {
    'Section': SINGLES + list(PLURALS) + BASE + ERRORS + ['parent', 'touch', 'all_elements_required', 'assert_all_touched'],
    'SectionElement': CONVERT + BASE + ERRORS + ['touch'],
    'Empty': BASE + ERRORS + ['parent', 'touch'],
    'Field': BASE + ERRORS + VALUE + ['value_error', 'parent', 'touch'],
    'FieldsetEntry': BASE + ERRORS + VALUE + ['value_error', 'parent', 'touch'],
    'ListItem': BASE + ERRORS + VALUE + ['value_error', 'parent', 'touch'],
    'List': BASE + ERRORS + VALUES + ['parent', 'touch'],
    'Fieldset': BASE + ERRORS + ENTRIES + ['parent', 'touch', 'all_entries_required', 'assert_all_touched'],
    'MissingSection': SINGLES + list(PLURALS) + BASE,
    'MissingSectionElement': CONVERT + BASE,
    'MissingEmpty': BASE,
    'MissingField': BASE + VALUE,
    'MissingFieldsetEntry': BASE + VALUE,
    'MissingList': BASE + VALUES,
    'MissingFieldset': BASE + ENTRIES,
}


class Env:
    """One document under observation: model state, handles, recorded loader calls."""

    def __init__(self, doc, real, gone=1, keyless=1):
        self.gone, self.keyless = gone, keyless     # eighths of keyed queries for an absent key / without key
        self.doc = doc
        self.model_calls, self.real_calls = [], []
        self.loaded, self.thrown = [], None         # what the real loader calls returned, raised
        self.forms = 0
        self.during = None                          # called from within loaders and message functions
        self.ambiguous = False
        self.root = Section(self, doc.root, None)
        self.handles = [(real, self.root)]

    def adopt(self, real, m):
        for i, (_, other) in enumerate(self.handles):
            if other is m:
                self.handles[i] = (real, m)
                return
        if len(self.handles) < 60:
            self.handles.append((real, m))


def keys_for(m):
    if isinstance(m, (Section, Fieldset)):
        return sorted({e.el.key for e in m.all})
    return []


def near(m, k):
    """An absent key, often one that looks like a present one."""
    keys = keys_for(m)
    if keys and k % 3 == 0:
        key = keys[(k // 3) % len(keys)] or 'gone'
        options = [key.upper(), key.lower(), key + ' ', ' ' + key, key[:-1], key[1:], key + key, key + key[0], key.replace(' ', ''), unicodedata.normalize('NFD', key),
                   unicodedata.normalize('NFC', key), '`' + key + '`', key.title(), key + ':']
        option = options[(k // 7) % len(options)]
        if option and option not in keys:
            return option
    return ['gone', 'nope'][k % 2]


def resolve(env, op, weights):
    """Turns an encoded op (four integers) into (handle, method, args) for the current state."""
    h, n, k, x = op
    handles = env.handles
    # prefer recent handles half of the time
    real, m = handles[-1 - (h // 2) % min(4, len(handles))] if h % 2 else handles[(h // 2) % len(handles)]
    menu = weights.get(m.cls)
    if menu is None:
        menu = METHODS[m.cls]
    if not menu:
        return None
    name = menu[n % len(menu)]
    if name in KEYED:
        keys = keys_for(m)
        if k % 8 < env.gone or not keys:
            args = [near(m, k // 8)]
        elif k % 8 < env.gone + env.keyless:
            args = [None]
        else:
            args = [keys[(k // 8) % len(keys)]]
    elif name in LOADED:
        args = [LOADERS[x % len(LOADERS)] if x % 3 else 'upper']
        if name == 'key' and m.cls == 'Section' and m.el.kind == M.DOCUMENT:
            args = ['upper']
    elif name in ('error', 'key_error', 'comment_error', 'value_error'):
        args = [[['plain', 'computed'][x % 2], ['oops', 'a {b} %s <c>', 'ü'][(x // 2) % 3]]]
    elif name in ('all_elements_required', 'all_entries_required'):
        args = [x % 3 != 0]
    elif name == 'assert_all_touched':
        keys = keys_for(m) + [near(m, k)]
        pick = lambda s: [c for i, c in enumerate(keys) if (s >> i) & 1]
        args = [[None, ['plain', 'unread'], ['computed', 'unread']][x % 3],
                (pick(k) or None) if k % 5 in (0, 3) else None, (pick(k // 7) or None) if k % 5 in (1, 3) else None]
    else:
        args = []
    return real, m, name, args


def model_call(m, name, args):
    try:
        if isinstance(m, Missing):
            return m.call(name, args)
        return getattr(m, 'get_parent' if name == 'parent' else name)(*args)
    except Raise as e:
        return e.res
    except Second:
        return Res('second')
    except Through as e:
        return Res('through', e.name)


def real_message(env, m, raw=False):
    if m is None:
        return None
    if m[0] == 'plain':
        return m[1]

    def compute(value):
        if raw:
            value = value.raw()
        env.real_calls.append(value)
        if env.during:
            env.during()
        return m[1] + ':' + json.dumps(value)
    env.forms += 1
    return FORMS[env.forms % len(FORMS)](compute)


def real_thunk(env, obj, name, args):
    """The same call on the real object."""
    if name == 'repr':
        return lambda: repr(obj)
    f = getattr(obj, name)
    if name in LOADED:
        def loader(v):
            if env.during:
                env.during()
            try:
                env.loaded.append(load(args[0], v, env.real_calls))
            except Exception as e:
                env.thrown = e
                raise
            return env.loaded[-1]
        env.forms += 1
        return lambda: f(FORMS[env.forms % len(FORMS)](loader))
    if name in ('error', 'key_error', 'comment_error', 'value_error'):
        return lambda: f(real_message(env, args[0], name == 'error'))
    if name == 'assert_all_touched':
        def run():
            options = {}
            if args[1] is not None:
                options['only'] = args[1]
            if args[2] is not None:
                options['skip'] = args[2]
            message = args[0]
            if message and message[0] == 'computed':
                def compute(e):
                    if env.during:
                        env.during()
                    return message[1] + ':' + json.dumps(e.raw())
                return f(compute, **options)
            return f(*([message[1]] if message else []), **options)
        return run
    if name in KEYED and args == [None] and not name.startswith('optional_'):
        return lambda: f()
    return lambda: f(*args)


# --- comparing one step -----------------------------------------------------------------------------------------
def err_facets(env, e, err, source_rows=True):
    """Divergences between a raised/returned enolib error and a described one: [(facet, text)]."""
    import real as R
    options = err.alternatives
    best = None
    for option in options:
        out = []
        if type(e).__name__ != option.cls:
            out.append(('kind', f"error class {type(e).__name__}, expected {option.cls}"))
        if e.text != option.text():
            out.append(('text', f"text {e.text!r}, expected {option.text()!r}"))
        if e.selection != option.sel:
            out.append(('position', f"selection {e.selection}, expected {option.sel}"))
        if not out and not source_rows:
            return []
        try:
            rows = R.normal_rows(R.text_rows(e.snippet))
        except R.Malformed as m:
            out.append(('snippet', str(m)))
        else:
            marks = option.marks
            if getattr(option, 'cycle', None):
                # which of the lines on a cycle are pointed out is left open, but only such lines may be
                pointed = {r[0] for r in rows if r != '...' and r[1] == 'indicated'}
                if not pointed <= option.cycle:
                    out.append(('snippet', f"lines {sorted(l + 1 for l in pointed - option.cycle)} are indicated but not part of the cycle"))
                first = option.sel['from']['line']
                marks = {**{l: 'indicated' for l in pointed}, first: 'emphasized'}
            want = R.expected_rows(env.doc, marks)
            if rows != want:
                out.append(('snippet', f"snippet rows {rows}, expected {want}"))
        if not out:
            return []
        if best is None or len(out) < len(best):
            best = out
    return best


def object_facets(env, obj, m):
    out = []
    import real as R
    if obj is None:
        return [('object', f"returned None, expected {m.label()}")]
    lacking = [n for n in METHODS[m.cls] if n != 'repr' and not callable(getattr(obj, n, None))]
    if lacking:
        return [('object', f"returned {type(obj).__name__} lacking {lacking[:3]}, expected {m.label()}")]
    kind, raw = R.outcome(obj.raw)
    if isinstance(m, Missing):
        if kind == 'ok' and raw is not None:
            out.append(('object', f"returned an existing element {raw}, expected {m.label()}"))
        return out
    if kind == 'ok':
        if raw is None:
            return [('object', f"returned a placeholder, expected {m.label()}")]
        want = M.raw(env.doc, m.el)
        if raw.get('key') != want.get('key') or raw.get('type') != want.get('type'):
            return [('object', f"returned {raw}, expected {want}")]
    kind, e = R.outcome(lambda: obj.error('probe'))
    if kind == 'ok':
        line = max(m.el.line, 0)
        if e.selection['from']['line'] != line and e.snippet and m.el.kind != M.DOCUMENT:
            out.append(('object', f"returned the element of line {e.selection['from']['line'] + 1}, expected line {line + 1}"))
    return out


def compare(env, real, res):
    """Divergences of one observed outcome from the model's result."""
    import real as R
    kind, v = real
    if res.kind == 'second':
        if kind == 'other' and isinstance(v, TypeError):
            return []
        return [('second', f"{R.describe(real)}, expected a type error")]
    if res.kind == 'through':
        if v is env.thrown:
            return []
        return [('calls', f"{R.describe(real)}, expected the loader's {res.value} to pass through")]
    if kind == 'other':
        if res.also_type and isinstance(v, TypeError):
            return []
        return [('crash', R.describe(real))]
    if kind == 'parse':
        return [('kind', R.describe(real))]
    if res.kind == 'err':
        if kind != 'validation':
            return [('kind', f"{R.describe(real)}, expected {res}")]
        return err_facets(env, v, res.value)
    if kind == 'validation':
        return [('kind', f"{R.describe(real)}, expected {res}")]
    if res.kind == 'returned':
        if not isinstance(v, R.ValidationError):
            return [('kind', f"{R.describe(real)}, expected a returned validation error")]
        return err_facets(env, v, res.value)
    if res.kind == 'repr':
        if not isinstance(v, str):
            return [('crash', f"repr {v!r}")]
        return [] if res.value is None or v in res.value else [('repr', f"{v!r}, expected {res.value[0]!r}")]
    if res.kind == 'obj':
        return object_facets(env, v, res.value)
    if res.kind == 'objs':
        if not isinstance(v, (list, tuple)) or len(v) != len(res.value):
            return [('object', f"{R.describe(real)}, expected {res}")]
        out = []
        for o, m in zip(v, res.value):
            out += object_facets(env, o, m)
        return out
    if v != res.value or type(v) is not type(res.value):
        return [('value', f"returned {v!r}, expected {res.value!r}")]
    return []


class Step:
    __slots__ = ('label', 'name', 'args', 'm', 'res', 'real', 'facets', 'handle')


def perform(env, real, m, name, args):
    import real as R
    env.model_calls.clear()
    env.real_calls.clear()
    env.loaded.clear()
    env.thrown = None
    s = Step()
    s.handle, s.m, s.name, s.args = real, m, name, args
    s.label = f"{m.label()}.{name}({', '.join(map(repr, args))})"
    given = repr(args)
    s.real = R.outcome(real_thunk(env, real, name, args))
    if repr(args) != given:
        s.real = ('other', R.ArgumentChanged(f"the arguments {given} were turned into {args!r}"))
    if env.thrown is not None and s.real[1] is env.thrown:
        s.real = ('other', env.thrown)          # a loader's own exception, whatever its class
    s.res = model_call(m, name, args)
    s.facets = compare(env, s.real, s.res)
    if not s.facets and env.model_calls != env.real_calls:
        s.facets = [('calls', f"callback received {env.real_calls}, expected {env.model_calls}")]
    if not s.facets and s.real[0] == 'ok' and env.loaded:
        given = s.real[1] if name.endswith('_values') else [s.real[1]]
        given = [x for x in given if x is not None]
        if len(given) != len([x for x in env.loaded if x is not None]) or any(a is not b for a, b in zip(given, [x for x in env.loaded if x is not None])):
            s.facets = [('value', f"{R.describe(s.real)} is not the very object the loader returned")]
    return s


def diverged(env, s):
    """The two sides are no longer comparable."""
    return env.ambiguous or any(f in ('kind', 'object', 'crash', 'second') for f, _ in s.facets)


def run_history(doc, real_doc, ops, weights, observer, gone=1, keyless=1, begin=None):
    """Applies the history; observer(step, trace) is called after every step. Returns the number of steps taken."""
    env = Env(doc, real_doc, gone, keyless)
    if begin is not None:
        begin(env)
    trace = []
    for op in ops:
        resolved = resolve(env, op, weights)
        if resolved is None:
            continue
        s = perform(env, *resolved)
        trace.append(s.label)
        observer(s, trace)
        if diverged(env, s):
            break
        if s.res.kind == 'obj':
            env.adopt(s.real[1], s.res.value)
        elif s.res.kind == 'objs':
            for o, x in list(zip(s.real[1], s.res.value))[:5]:
                env.adopt(o, x)
    return len(trace)


def sweep(doc, real_doc, plan, observer, limit=400, deep=False):
    """Visits every reachable object once (through its natural kind) and performs plan(m) -> [(method, args)] on it;
    deep: only the way down at first, so that a limited sweep spends its calls on the innermost objects."""
    env = Env(doc, real_doc)
    todo = [(real_doc, env.root)]
    steps = 0

    def go(real, m, name, args):
        nonlocal steps
        s = perform(env, real, m, name, args)
        steps += 1
        observer(s, [s.label])
        env.ambiguous = False
        return None if diverged(env, s) else s

    todo_later = [] if deep else None
    while todo and steps < limit:
        real, m = todo.pop(-1 if deep else 0)
        if deep and isinstance(m, Section) and todo_later is not None:
            todo_later.append((real, m))
        else:
            for name, args in plan(m):
                go(real, m, name, args)
        follow = []
        if isinstance(m, Section):
            follow = [('elements', [None])]
            if not m.required:
                follow += [(kind, ['gone']) for kind in KINDS + ('element',)]
        elif isinstance(m, List):
            follow = [('items', [])]
        elif isinstance(m, Fieldset):
            follow = [('entries', [None])]
            if not m.required:
                follow.append(('entry', ['gone']))
        elif isinstance(m, SectionElement):
            k = M.kind_of(m.el)
            follow = [('to_' + ('empty' if k == M.EMPTY else k), [])]
        for name, args in follow:
            s = go(real, m, name, args)
            if s is None:
                continue
            if s.res.kind == 'obj':
                todo.append((s.real[1], s.res.value))
            elif s.res.kind == 'objs':
                todo += list(zip(s.real[1], s.res.value))
    for real, m in reversed(todo_later or []):
        if steps >= limit:
            break
        for name, args in plan(m):
            go(real, m, name, args)
    return steps


def full_plan(m, loaders=('upper', 'fail'), skip=(), most=4):
    """Every public method with representative arguments."""
    for name in METHODS[m.cls]:
        if name in skip:
            continue
        if name in KEYED:
            keys = keys_for(m)
            for key in ['gone', None] + keys[:most]:
                # asking for the wrong kind must not convert an empty element: conversions are exercised by histories
                if key != 'gone' and isinstance(m, Section) and name not in ('element', 'required_element', 'optional_element', 'elements'):
                    if any(e.kind is None and M.kind_of(e.el) == M.EMPTY for e in m.matching(key)):
                        continue
                yield name, [key]
        elif name in LOADED:
            for l in loaders:
                if name == 'key' and l != 'upper' and not isinstance(m, Missing) and m.el.kind == M.DOCUMENT:
                    continue
                yield name, [l]
        elif name in ('error', 'key_error', 'comment_error', 'value_error'):
            yield name, [['plain', 'oops']]
            yield name, [['computed', 'oops']]
        elif name in ('all_elements_required', 'all_entries_required'):
            yield name, [True]
            yield name, [False]
        elif name == 'assert_all_touched':
            yield name, [None, None, None]
            yield name, [['computed', 'unread'], None, None]
        elif name.startswith('to_'):
            if isinstance(m, Missing) or M.kind_of(m.el) != M.EMPTY:
                yield name, []
        else:
            yield name, []
