"""The JavaScript library behind the face of the Python one: enolib-like functions, classes and objects whose calls are
served by a node process running /repo/javascript (bridge.js). Only observation, no judgement, happens here."""
import json
import os
import re
import select
import subprocess
import weakref

HERE = os.path.dirname(os.path.abspath(__file__))
WAIT = 150                  # seconds without an answer of node


class Error(Exception):
    def __init__(self, d):
        super().__init__(d['message'])
        self.text, self.snippet, self.selection, self.message, self.cursor = d['text'], d['snippet'], d['selection'], d['message'], d['cursor']


class ParseError(Error):
    pass


class ValidationError(Error):
    pass


class Thrown(TypeError):
    """A value that is no error object was thrown (the library does so for requests that make no sense)."""


class Crash(Exception):
    """An error object of the JavaScript runtime was thrown."""


class Undefined:
    def __repr__(self):
        return 'undefined'

    def __bool__(self):
        return False


UNDEFINED = Undefined()
PROCEDURES = {'touch', 'all_elements_required', 'all_entries_required', 'assert_all_touched', 'register'}
TYPES = {'emptyElement': 'empty_element', 'fieldsetEntry': 'fieldset_entry', 'listItem': 'list_item'}


def camel(name):
    return re.sub('_([a-z])', lambda m: m.group(1).upper(), name)


def snake(name):
    return re.sub('[A-Z]', lambda m: '_' + m.group(0).lower(), name)


def snake_types(v):
    if isinstance(v, dict):
        return {k: TYPES.get(x, x) if k == 'type' and isinstance(x, str) else snake_types(x) for k, x in v.items()}
    if isinstance(v, list):
        return [snake_types(x) for x in v]
    return v


class Handle:
    """An object of the library; subclasses carry its class name."""
    _names = frozenset()

    def __init__(self, bridge, id):
        self._bridge, self._id = bridge, id

    def __getattr__(self, name):
        if name.startswith('_') or camel(name) not in self._names:
            raise AttributeError(f"{type(self).__name__} has no {name}")
        return Method(self, name)

    def __dir__(self):
        return [snake(n) for n in self._names]

    def __repr__(self):
        return self._bridge.call(self, 'toString', [])

    def __del__(self):
        self._bridge.released.add(self._id)


class Method:
    def __init__(self, owner, name):
        self.owner, self.name = owner, name

    def __call__(self, *args, **options):
        args = list(args)
        if options:
            # assert_all_touched(message, only=, skip=)
            args.append({{'skip': 'except'}.get(k, k): v for k, v in options.items()})
        v = self.owner._bridge.call(self.owner, camel(self.name), args)
        if self.name in PROCEDURES:
            return None if v is UNDEFINED else v
        return snake_types(v) if self.name == 'raw' else v


class Locale:
    def __init__(self, name, bridge=None):
        self.name, self.bridge = name, bridge

    def __getattr__(self, name):
        if self.bridge is None or name.startswith('_'):
            raise AttributeError(name)
        sizes = dict(self.bridge.request(op='messages', locale=self.name))
        if camel(name) not in sizes:
            raise AttributeError(name)
        if sizes[camel(name)] < 0:
            return self.bridge.request(op='message', locale=self.name, name=camel(name))
        return lambda *args: self.bridge.request(op='message', locale=self.name, name=camel(name), args=list(args))


class Reporter:
    def __init__(self, name):
        self.name = name


class Bridge:
    def __init__(self, repo):
        self.repo, self.pid, self.node = repo, None, None
        self.stack = 3900                               # kilobytes of stack for deeply nested documents
        self.mode, self.spent = 'cover', None           # what node keeps count of; CPU time of calls, when measured

    def start(self):
        self.pid = os.getpid()
        self.node = subprocess.Popen(['node', *([f"--stack-size={self.stack}"] if self.stack else []), '--expose-gc', os.path.join(HERE, 'bridge.js'), self.repo, self.mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.proxies, self.classes, self.opaque, self.callbacks = weakref.WeakValueDictionary(), {}, {}, {}
        self.released, self.count, self.depth, self.escaped, self.requests = set(), 0, 0, None, 0
        self.buffer = b''

    # --- transport
    def send(self, message):
        self.node.stdin.write(json.dumps(message).encode('ascii') + b'\n')
        self.node.stdin.flush()

    def receive(self):
        import real
        while b'\n' not in self.buffer:
            ready, _, _ = select.select([self.node.stdout], [], [], WAIT)
            if not ready:
                self.node.kill()
                self.pid = None
                raise real.Hang()
            chunk = os.read(self.node.stdout.fileno(), 1 << 20)
            if not chunk:
                self.pid = None
                raise RuntimeError('node ended')
            self.buffer += chunk
        line, _, self.buffer = self.buffer.partition(b'\n')
        return json.loads(real.units(line.decode('utf-8')))

    def request(self, **message):
        if self.pid != os.getpid():
            self.start()
        kept = set(self.callbacks)
        args = message.pop('args', [])
        release, self.released = sorted(self.released), set()
        self.depth += 1
        self.requests += 1
        try:
            if self.spent is not None:
                message['timed'] = True
            self.send(dict(message, args=[self.encode(a) for a in args], release=release))
            while True:
                answer = self.receive()
                if 'cb' not in answer:
                    break
                self.send(self.callback(answer))
        finally:
            self.depth -= 1
        if 'us' in answer:
            self.spent += answer['us'] / 1e6
        if message['op'] != 'register':
            for id in set(self.callbacks) - kept:
                del self.callbacks[id]
        if self.escaped is not None and not self.depth:
            e, self.escaped = self.escaped, None
            raise e
        if 'ok' in answer:
            v = self.decode(answer['ok'])
        else:
            raise self.thrown(answer['throw'])
        if not self.depth:
            self.opaque.clear()
        return v

    def callback(self, answer):
        try:
            return {'ok': self.result(self.callbacks[answer['cb']](*[self.decode(a) for a in answer['args']]))}
        except ValueError as e:
            return {'throw': str(e)}
        except BaseException as e:
            if self.escaped is None:
                self.escaped = e
            return {'throw': 'escaped'}

    def thrown(self, v):
        if 'e' in v:
            return self.decode(v)
        if 't' in v:
            return Thrown(v['t'])
        if v.get('x') == 'RangeError' and 'outside of the document' in v['text']:
            return IndexError(v['text'])
        if v.get('x') == 'RangeError' and 'call stack' in v['text']:
            return RecursionError(v['text'])
        return Crash(v.get('stack'))

    # --- values
    def encode(self, v):
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if isinstance(v, Handle):
            return {'h': v._id}
        if isinstance(v, Locale):
            return {'locale': v.name}
        if isinstance(v, Reporter):
            return {'reporter': v.name}
        if isinstance(v, dict):
            return {'o': [[k, self.encode(x)] for k, x in v.items()]}
        if v is UNDEFINED:
            return {'u': 1}
        self.count += 1
        if callable(v):
            self.callbacks[self.count] = v
            return {'cb': self.count, 'name': camel(getattr(v, '__name__', ''))}
        if isinstance(v, (list, tuple)):
            return {'a': [self.encode(x) for x in v]}
        raise AssertionError(v)

    def result(self, v):
        """What a callback returned: simple values as they are, everything else by identity."""
        if v is None or isinstance(v, (bool, int, str)):
            return v
        self.count += 1
        self.opaque[self.count] = v
        return {'p': self.count}

    def decode(self, v):
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if 'h' in v:
            if 'm' in v and v['c'] in self.classes:
                self.classes[v['c']]._names = frozenset(v['m'])          # described anew after registering
            proxy = self.proxies.get(v['h'])
            if proxy is None:
                self.released.discard(v['h'])          # in use again, before the release was sent
                if v['c'] not in self.classes:
                    self.classes[v['c']] = type(v['c'], (Handle,), {'_names': frozenset(v.get('m', ()))})
                proxy = self.proxies[v['h']] = self.classes[v['c']](self, v['h'])
            elif v['c'] not in self.classes:
                raise AssertionError
            return proxy
        if 'a' in v:
            return [self.decode(x) for x in v['a']]
        if 'o' in v:
            return {k: self.decode(x) for k, x in v['o']}
        if 'u' in v:
            return UNDEFINED
        if 'p' in v:
            return self.opaque[v['p']]
        if 'e' in v:
            d = v['e']
            if not d['eno']:
                return Crash(f"an error object of class {d['cls']} that is no EnoError")
            cls = {'parse': ParseError, 'validation': ValidationError, 'eno': Error}[d['kind']]
            return cls({k: self.decode(d[k]) for k in ('text', 'message', 'snippet', 'selection', 'cursor')})
        return Crash(f"a value of an unexpected kind: {v}")

    def call(self, owner, name, args):
        return self.request(op='call', h=owner._id, name=name, args=args)


class Module:
    """What `import enolib` gives, for the JavaScript library."""
    Error, ParseError, ValidationError = Error, ParseError, ValidationError

    def __init__(self, repo):
        self.bridge = Bridge(repo)

    def options(self, options):
        return [options] if options else []

    def parse(self, text, **options):
        return self.bridge.request(op='parse', args=[text] + self.options(options))

    def lookup(self, text, index=None, line=None, column=None, **options):
        at = {k: v for k, v in (('index', index), ('line', line), ('column', column)) if v is not None}
        v = self.bridge.request(op='lookup', args=[at, text] + self.options(options))
        if isinstance(v, dict) and isinstance(v.get('range'), str):
            v['range'] = snake(v['range'])
        return v

    def register(self, *definitions, **named):
        args = [{camel(k): f for k, f in d.items()} if isinstance(d, dict) else d for d in [*definitions] + ([named] if named else [])]
        self.bridge.request(op='register', args=args)
