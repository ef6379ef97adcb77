"""Runs the waveform viewer in a directory it is given on the command line, again and again,
with a stand-in for matplotlib which records what is plotted. One job a line on stdin."""
import io, os, runpy, sys, types

home = sys.argv[1]
plots = []
shows = []


class Recorder:
    """Anything that could be plotted on"""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Recorder()

    def __call__(self, *a, **k):
        return Recorder()

    def __iter__(self):
        # `fig, ax = plt.subplots()`
        return iter((Recorder(), Recorder()))

    def plot(self, *a, **k):
        a = [v for v in a if not isinstance(v, str)]
        while len(a) >= 2:
            plots.append((floats(a[0]), floats(a[1])))
            a = a[2:]
        return [Recorder()]

    def show(self, *a, **k):
        shows.append(len(plots))


def floats(v):
    try:
        return [float(e) for e in v]
    except TypeError:
        return [float(v)]


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(Recorder(), name)


mpl = Module('matplotlib')
mpl.__path__ = []
mpl.pyplot = Module('matplotlib.pyplot')
sys.modules['matplotlib'] = mpl
sys.modules['matplotlib.pyplot'] = mpl.pyplot

sys.dont_write_bytecode = True
reply = sys.stdout
for job in sys.stdin:
    plots.clear()
    shows.clear()
    sys.argv = [home] + job.rstrip('\n').split('\x1f')[:-1]
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    status = '0'
    try:
        runpy.run_path(home, run_name='__main__')
    except SystemExit as e:
        status = '0' if e.code in (None, 0) else 'exit %s' % (e.code,)
    except BaseException as e:
        status = 'raised %s' % type(e).__name__
    # the next one is a new run
    for name, mod in list(sys.modules.items()):
        if str(getattr(mod, '__file__', None) or '').startswith(home):
            del sys.modules[name]
    sys.stdout = reply
    sys.stderr = sys.__stderr__
    print('status', status)
    for n in shows[:1]:
        for x, y in plots[:n]:
            print('plot', ' '.join(map(repr, x)) + '|' + ' '.join(map(repr, y)))
        print('shown')
    print('end', flush=True)
