# Prepares a worker process: blocks the (not buildable here) C extension,
# installs simulated locks, imports the real pyamf from the scratch copy,
# silences logging and snapshots its state.
import sys
import imp


class _NoCExt(object):
    # cpyamf cannot be built in this sandbox; failing the import up front only
    # saves Jython a slow directory search per codec construction.
    def find_module(self, name, path=None):
        if name == 'cpyamf' or name.startswith('cpyamf.'):
            raise ImportError('No module named %s' % (name,))
        return None


SCRATCH = None


def boot(scratch):
    global SCRATCH
    SCRATCH = scratch
    sys.meta_path.insert(0, _NoCExt())
    sys.path[:] = [p for p in sys.path if p.rstrip('/') != '/repo']
    sys.path.insert(1, scratch)
    import simlock
    simlock.install()
    import logging

    class Null(logging.Handler):
        def emit(self, record):
            # evaluate lazily formatted messages as a real handler would
            try:
                record.getMessage()
            except Exception:
                pass
    logging.getLogger().addHandler(Null())
    import pyamf
    # loaded lazily by the library; preload so every run starts alike
    import pyamf.amf0, pyamf.amf3, pyamf.sol, pyamf.xml  # noqa
    import pyamf.flex.messaging, pyamf.flex.data  # noqa
    import pyamf.remoting.amf0, pyamf.remoting.amf3  # noqa
    import pyamf.remoting.client  # noqa
    import pyamf.remoting.gateway.wsgi  # noqa
    import xml.etree.ElementTree as ET
    # settle the lazily discovered XML support
    pyamf.xml.is_xml(ET.fromstring('<a/>'))
    if not pyamf.__file__.startswith(scratch):
        raise RuntimeError('pyamf imported from %r' % (pyamf.__file__,))


class _Broken(object):
    def __init__(self, info):
        self.info = info

    def run(self, sim):
        # every run fails the way the set-up did
        raise self.info[0], self.info[1], self.info[2]


def load_prop(pid):
    import snapshot
    name = pid.lower()
    try:
        pkg = __import__('props.' + name)
        prop = getattr(pkg, name)
        if hasattr(prop, 'setup'):
            prop.setup()
    except Exception:
        # the code under test does not even let the simulation be set up
        import core
        if not core.library_frames(sys.exc_info()[2]):
            raise
        prop = _Broken(sys.exc_info())
    import pyamf  # noqa
    snapshot.take()
    return prop


class Hang(BaseException):
    pass


def arm_trace_budget(limit):
    """
    Deterministic hang detector used only to re-examine a seed that stalled:
    counts line events in pyamf code and fails the run past the limit.
    """
    import core
    count = [0]
    prefix = SCRATCH

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] > limit:
                raise core.Violation(
                    'no-progress', 'more than %d lines of library code '
                    'executed in one run (at %s:%d)' % (
                        limit, frame.f_code.co_filename[len(prefix):],
                        frame.f_lineno))
        return local

    def tr(frame, event, arg):
        if frame.f_code.co_filename.startswith(prefix):
            return local
        return None
    sys.settrace(tr)
    return count
