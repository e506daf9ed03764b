# C13: import hooks under failing, nested and repeated imports.
import imp
import sys

import pyamf.adapters
from pyamf.util import imports

import core

NAMES = ['simm_a', 'simm_b', 'simm_c', 'simm_p', 'simm_p.x', 'simm_p.y',
         'simm_d']
PKG = 'simm_p'


class Boom(Exception):
    pass


FAILS = [('ImportError', ImportError), ('Boom', Boom),
         ('SyntaxError', SyntaxError)]


class World(object):
    """Simulated module store; sits behind the library's finder."""

    def __init__(self, sim):
        self.sim = sim
        self.plans = {}
        self.stack = []           # modules being executed
        self.loads = {}           # name -> module object of last good load
        self.started = {}
        self.regs = []            # [id, name, module or None, calls]
        self.n = 0
        self.depth = 0

    # -- meta_path protocol
    def find_module(self, name, path=None):
        if name in self.plans:
            return self
        return None

    def load_module(self, name):
        sim = self.sim
        mod = sys.modules.get(name)
        if mod is None:
            mod = sys.modules[name] = imp.new_module(name)
        mod.__file__ = '<sim>'
        mod.__loader__ = self
        if name == PKG:
            mod.__path__ = []
            mod.__package__ = name
        self.stack.append(name)
        sim.log('exec %s', name)
        try:
            try:
                self.body(name, mod)
            except:
                sys.modules.pop(name, None)
                raise
        finally:
            self.stack.pop()
        sim.log('done %s', name)
        mod.complete = True
        self.loads[name] = mod
        return mod

    def body(self, name, mod):
        plan = self.plans[name]
        attempt = self.started.get(name, 0)
        self.started[name] = attempt + 1
        for step in plan:
            kind = step[0]
            if kind == 'import':
                self.do_import(step[1], mod)
            elif kind == 'try':
                try:
                    self.do_import(step[1], mod)
                except (ImportError, Boom, SyntaxError):
                    self.sim.probe('nested-failure-swallowed')
            elif kind == 'fail':
                if attempt < step[2]:
                    self.sim.fault('module-fails')
                    raise FAILS[step[1]][1](name)
            elif kind == 'hook':
                self.register(step[1])
        mod.value = name

    # -- operations
    def do_import(self, name, mod=None):
        """an import statement, with everything it promises"""
        sim = self.sim
        self.depth += 1
        if self.depth > 12:
            self.depth -= 1
            return
        try:
            r = __import__(name, {'__name__': 'simm_main'}, {}, ['value'])
        finally:
            self.depth -= 1
        sim.check(r is sys.modules.get(name), 'module-object',
                  'import %s returned %r, sys.modules has %r', name, r,
                  sys.modules.get(name))
        if name not in self.stack:
            sim.check(getattr(r, 'complete', False), 'module-object',
                      'import %s returned a module that never completed',
                      name)
            self.settled(name)
        return r

    def settled(self, name):
        """every hook registered for this loaded module must have run"""
        for reg in self.regs:
            if reg['name'] == name and not reg['running'] and \
                    reg['calls'] == 0 and not reg['pending'] and \
                    not reg['excused']:
                self.sim.fail('hook-lost', 'module %s was imported but hook '
                              '%d did not run', name, reg['id'])

    def register(self, name):
        sim = self.sim
        self.n += 1
        reg = {'id': self.n, 'name': name, 'calls': 0, 'running': False,
               'pending': 0,
               'imports': None, 'raises': sim.chance(8), 'excused': False}
        if sim.chance(25):
            reg['imports'] = sim.pick(NAMES)
        # what a hook registered from inside its own half-executed module
        # sees first is not promised, only that it runs once
        in_progress = name in self.stack
        # (or while other hooks of that module are still running)
        reg['inside'] = in_progress or bool(
            [r for r in self.regs if r['name'] == name and r['running']])
        loaded = sys.modules.get(name) is not None and not in_progress
        self.regs.append(reg)
        sim.log('register hook %d for %s%s', reg['id'], name,
                ' (loaded)' if loaded else '')

        def hook(module):
            self.called(reg, module)
        # registering itself runs the hook: not lost while that is under way
        reg['pending'] += 1
        try:
            if sim.choose(2):
                imports.when_imported(name, hook)
            else:
                pyamf.adapters.register_adapter(name, hook)
        except Boom:
            sim.check((loaded or in_progress) and reg['calls'] == 1,
                      'hook-early', 'registering hook %d raised', reg['id'])
        reg['pending'] -= 1
        if loaded:
            sim.check(reg['calls'] == 1, 'hook-lost',
                      'hook %d for %s, already imported, ran %d times on '
                      'registration', reg['id'], name, reg['calls'])
        elif not in_progress:
            sim.check(reg['calls'] == 0, 'hook-early',
                      'hook %d ran although %s is not imported',
                      reg['id'], name)

    def called(self, reg, module):
        sim = self.sim
        name = reg['name']
        reg['calls'] += 1
        sim.log('hook %d called', reg['id'])
        sim.check(reg['calls'] == 1, 'hook-twice', 'hook %d for %s called '
                  '%d times', reg['id'], name, reg['calls'])
        sim.check(module is sys.modules.get(name), 'hook-argument',
                  'hook %d for %s got %r', reg['id'], name, module)
        if name not in self.stack:
            sim.check(getattr(module, 'complete', False), 'hook-early',
                      'hook %d called before %s was executed', reg['id'],
                      name)
        for other in self.regs:
            if reg['inside'] or other['inside']:
                continue
            if other['name'] == name and other['id'] < reg['id'] and \
                    not other['excused']:
                sim.check(other['calls'] == 1, 'hook-order', 'hook %d of %s '
                          'called before hook %d', reg['id'], name,
                          other['id'])
        if reg['imports']:
            reg['running'] = True
            self.busy = getattr(self, 'busy', 0) + 1
            try:
                if self.busy < 4:
                    # other hooks of this module are still to come
                    later = [r for r in self.regs if r['name'] == name and
                             r['calls'] == 0]
                    for r in later:
                        r['pending'] += 1
                    try:
                        self.do_import(reg['imports'])
                    except (ImportError, Boom, SyntaxError):
                        pass
                    for r in later:
                        r['pending'] -= 1
            finally:
                self.busy -= 1
                reg['running'] = False
        if reg['raises']:
            # what becomes of the hooks after it is not promised, only that
            # none runs twice
            sim.fault('hook-raises')
            for other in self.regs:
                if other['name'] == name and other['calls'] == 0:
                    other['excused'] = True
            raise Boom('hook %d' % reg['id'])


def run(sim):
    w = World(sim)
    for name in NAMES:
        plan = []
        for _ in range(sim.small(3)):
            k = sim.weighted([5, 3, 2])
            other = sim.pick([n for n in NAMES if n != name])
            plan.append((['import', 'try', 'hook'][k], other))
        if sim.chance(35):
            # fails for the first one or two attempts, or always
            plan.insert(sim.choose(len(plan) + 1),
                        ('fail', sim.choose(len(FAILS)),
                         sim.pick([1, 2, 1000])))
        if name == PKG:
            plan = [p for p in plan if p[1] not in ('simm_p.x', 'simm_p.y')]
        w.plans[name] = plan

    def clean():
        for n in list(sys.modules):
            if n.startswith('simm_'):
                del sys.modules[n]
        if w in sys.meta_path:
            sys.meta_path.remove(w)
    clean()
    sim.on_cleanup(clean)
    sys.meta_path.append(w)
    failures = nested = 0
    for i in range(4 + sim.small(12)):
        sim.steps += 1
        k = sim.weighted([30, 45, 10, 15])
        name = sim.pick(NAMES)
        if k == 0:
            w.register(name)
        elif k == 2:
            # development server: the module is thrown out of the process
            if name in sys.modules and name != PKG:
                sim.log('unload %s', name)
                sim.fault('module-unloaded')
                del sys.modules[name]
        else:
            sim.log('import %s', name)
            before = set(n for n in sys.modules if n.startswith('simm_'))
            try:
                w.do_import(name)
            except (ImportError, Boom, SyntaxError), e:
                failures += 1
                sim.log('failed: %s %s', type(e).__name__, e)
                sim.check(not (isinstance(e, ImportError) and
                               str(e) not in NAMES), 'import-broken',
                          'import %s raised %r, which no module raised',
                          name, e)
                for n in NAMES:
                    if n not in before and n in sys.modules:
                        sim.check(getattr(sys.modules[n], 'complete', False),
                                  'half-module', 'failed import left a '
                                  'half-executed %s', n)
            sim.check(not w.stack and not w.depth, 'stack', 'unbalanced')
        # at rest: every hook of every loaded module has run
        for n in NAMES:
            if sys.modules.get(n) is not None:
                w.settled(n)
    # faults stop: whatever still cannot be imported now can, hooks included
    for n in NAMES:
        w.plans[n] = [p for p in w.plans[n] if p[0] != 'fail']
    for n in NAMES:
        for attempt in range(50):
            try:
                w.do_import(n)
                break
            except Boom:
                # a hook: every one of them raises only once
                pass
        w.settled(n)
    for r in w.regs:
        sim.check(r['calls'] == 1 or r['excused'] and r['calls'] == 0,
                  'hook-lost', 'hook %d for %s ran %d times '
                  'in all', r['id'], r['name'], r['calls'])
    if failures and w.regs:
        sim.nontrivial = True
    sim.state((failures, len(w.regs), tuple(sorted(w.loads)),
               tuple((n, len(p)) for n, p in sorted(w.plans.items()))))
