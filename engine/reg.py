"""Registry of contracts.  A contract is a Python function f(S, p) that draws its inputs
from S, states its precondition with S.assume, calls the real code and states the
postcondition with S.check.  The same text is interpreted twice: symbolically (engine.symapi,
all inputs) and concretely on the unmodified code under the project's interpreter
(engine.concrete: replay of counterexamples, run-time contract evaluation)."""

SPECS = []


class Spec(object):
    def __init__(self, prop, fn, functions, params, bounded, known, opts):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.functions = functions
        self.params = params
        self.bounded = bounded        # reason string: never proved, concrete evaluation only
        self.known = known            # id in known_findings.json, or None
        self.opts = opts
        self.doc = ' '.join((fn.__doc__ or '').split())

    @property
    def id(self):
        return '%s.%s' % (self.prop, self.name)

    def param_list(self, tier):
        p = self.params
        if p is None:
            return [None]
        if callable(p):
            return list(p(tier))
        return list(p)


def spec(prop, functions=(), params=None, bounded=None, known=None, **opts):
    def deco(fn):
        SPECS.append(Spec(prop, fn, list(functions), params, bounded, known, opts))
        return fn
    return deco


def load(prop):
    """Import the spec module(s) of one property."""
    import importlib
    import os
    import sys
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
    if here not in sys.path:
        sys.path.insert(0, here)
    for f in sorted(os.listdir(here)):
        if f.endswith('.py') and f.lower().startswith(prop.lower() + '_'):
            importlib.import_module(f[:-3])
    return [s for s in SPECS if s.prop == prop]


def interface_change(sp, e):
    """Does this exception only say that the code no longer has a private function or attribute that the contract names,
    or asks a stand-in of the contract for something it does not model?  Such an instance decides nothing."""
    import re
    import traceback
    text = str(e)
    stand_ins = {c.__name__ for c in sp.fn.__globals__.values() if isinstance(c, type) and not c.__module__.startswith(('gerber', 'engine', 'builtins'))}
    for m in list(sp.fn.__globals__.values()):
        if getattr(m, '__name__', '') == 'cairo_stub':
            stand_ins |= {n for n, c in vars(m).items() if isinstance(c, type)}
    if isinstance(e, AttributeError):
        m = re.search(r"'(\w+)' object has no attribute|type object '(\w+)' has no attribute", text)
        if m and (m.group(1) or m.group(2)) in stand_ins:
            return True
    frames = traceback.extract_tb(e.__traceback__)
    if not frames or '/specs/' not in frames[-1][0].replace('\\', '/'):
        return False
    if isinstance(e, AttributeError):
        return re.search(r"has no attribute '_[a-zA-Z]\w*'", text) is not None
    return isinstance(e, TypeError) and re.search(r"\b_[a-zA-Z]\w*\(\) (missing|takes|got)", text) is not None
