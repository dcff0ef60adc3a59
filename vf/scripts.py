"""Runs an experiment script of the repository in a scratch directory, with given command line arguments."""
import ast
import contextlib
import io
import os
import runpy
import shutil
import sys
import tempfile
import numpy as np
import vf.env as env

FOLDERS = ['toy/results', 'sb/results', 'checkpoints', 'datasets', 'imgs/results_inpainting/imgs', 'imgs/results_inpainting/arrs',
           'imgs/results_supr/imgs', 'imgs/results_supr/arrs', 'tabulators/figs', 'sb_imgs/results', 'tmp_figs', 'figs']


class Result:
    """globals (and variables of main()) of the finished script, arrays it saved (by file name without suffix), printed text."""

    def __init__(self, g, saved, text):
        self.g, self.saved, self.text = g, saved, text

    def get(self, *names):
        """The first of the names the script defines, or None: pieces that are not exposed are not examined."""
        for n in names:
            if n in self.g:
                return self.g[n]
        return None


def configured(source, constants, numbers):
    """The source with constants assigned to names (first assignment of a literal) and integer literals replaced: what a user does who edits the
    configuration of a script without command line. Returns the source and the names that were found."""
    tree, found = ast.parse(source), set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Constant) and type(node.value) is int and node.value in numbers:
            found.add(node.value)
            node.value = numbers[node.value]
    for node in ast.walk(tree):
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name in constants and name not in found:
                try:
                    ast.literal_eval(node.value)
                except ValueError:
                    continue
                node.value = ast.parse(repr(constants[name]), mode='eval').body
                found.add(name)
    return ast.unparse(ast.fix_missing_locations(tree)), found


@contextlib.contextmanager
def locals_of_main(path):
    """Collects the local variables of functions without (or with one) argument which the module itself calls, such as main()."""
    mon, found = sys.monitoring, {}
    tool = next(i for i in (4, 3, 1, 0) if mon.get_tool(i) is None)

    def leave(code, offset, value):
        if code.co_filename != path:
            return mon.DISABLE
        f = sys._getframe(1)
        if f.f_code is not code or code.co_name.startswith('<') or code.co_argcount + code.co_kwonlyargcount > 1 or f.f_back is None or f.f_back.f_code.co_name != '<module>':
            return
        if f.f_back.f_code.co_filename == path and (code.co_argcount == 0 or 'main' in code.co_name):
            for k, v in f.f_locals.items():
                found.setdefault(k, v)
    mon.use_tool_id(tool, 'vf')
    try:
        mon.register_callback(tool, mon.events.PY_RETURN, leave)
        mon.set_events(tool, mon.events.PY_RETURN)
        yield found
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.PY_RETURN, None)
        mon.free_tool_id(tool)


@contextlib.contextmanager
def replaced_results(root):
    """Collects the results that a script replaces by other results of the same shape (an array filled step by step is not replaced)."""
    old, last, lost = {n: getattr(np, n) for n in ('save', 'savez', 'savez_compressed')}, {}, []

    def wrap(name, f):
        def saver(file, *a, **k):
            f(file, *a, **k)
            if isinstance(file, (str, os.PathLike)):
                ext = '.npy' if name == 'save' else '.npz'
                p = os.path.realpath(os.fspath(file))
                p = p if p.endswith(ext) else p + ext
                if p.startswith(os.path.realpath(root)) and os.path.exists(p):
                    with np.load(p, allow_pickle=False) if ext == '.npz' else contextlib.nullcontext(np.load(p, allow_pickle=False)) as v:
                        new = {q: v[q] for q in v.files} if ext == '.npz' else {'': v}
                    for q, x in last.get(p, {}).items():
                        y = new.get(q)
                        if y is not None and x.shape == y.shape and x.dtype.kind in 'fiu' and np.any((x != y) & np.isfinite(x) & (x != 0)):
                            lost.append(os.path.basename(p))
                    last[p] = new
        return saver
    for n, f in old.items():
        setattr(np, n, wrap(n, f))
    try:
        yield lost
    finally:
        for n, f in old.items():
            setattr(np, n, f)


def run(script, args, prepare=None, keep=('.npz', '.npy'), constants=None, numbers=None, collect=None):
    """script: path relative to experiments/. prepare(dir): puts input files into the scratch directory. constants, numbers: see `configured`;
    the result is None if the script does not assign the constants (or use the numbers). collect: directory to which new files are copied,
    with their paths."""
    path = os.path.join(env.REPO, 'experiments', script)
    d = tempfile.mkdtemp(prefix='vfs_')
    old_argv, old_cwd, old_path = sys.argv, os.getcwd(), list(sys.path)
    text = io.StringIO()
    try:
        cwd = os.path.join(d, 'experiments')
        for f in FOLDERS:
            os.makedirs(os.path.join(cwd, f))
        os.makedirs(os.path.join(d, 'datasets'))
        if prepare is not None:
            prepare(cwd)
        if constants or numbers:
            with open(path) as f:
                source, found = configured(f.read(), constants or {}, numbers or {})
            if found != set(constants or {}) | set(numbers or {}):
                return None
            path = os.path.join(d, os.path.basename(script))
            with open(path, 'w') as f:
                f.write(source)
        before = {os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs}
        os.chdir(cwd)
        sys.argv = [path] + [str(a) for a in args]
        with contextlib.redirect_stdout(text), locals_of_main(path) as inner, replaced_results(d) as lost:
            try:
                g = runpy.run_path(path, run_name='__main__')
            except SystemExit as e:
                raise RuntimeError(f'{script} exited with {e.code}')
        g = {**inner, **g}
        saved = {}
        for r, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                if p not in before and f.endswith(keep):
                    a = np.load(p)
                    saved[os.path.splitext(f)[0]] = {k: a[k] for k in a.files} if f.endswith('.npz') else a
                if p not in before and collect:
                    q = os.path.join(collect, os.path.relpath(p, cwd))
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    shutil.copyfile(p, q)
        images = {os.path.splitext(f)[0]: os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith('.png')}
        if images:
            import matplotlib.pyplot as plt
            images = {k: plt.imread(v) for k, v in images.items()}
    finally:
        sys.argv, sys.path[:] = old_argv, old_path
        os.chdir(old_cwd)
        shutil.rmtree(d)
        import jax
        jax.config.update('jax_enable_x64', False)
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')
    out = Result(g, saved, text.getvalue())
    out.images, out.lost = images, lost
    return out


@contextlib.contextmanager
def figures():
    """Collects the figures a script saves: (file name, figure)."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    out = []
    old = Figure.savefig, plt.show, matplotlib.rcParams.validate['text.usetex'], dict(matplotlib.rcParams)

    def savefig(self, fname, *a, **k):
        out.append((os.path.basename(str(fname)), self))
    Figure.savefig, plt.show = savefig, lambda *a, **k: None
    matplotlib.rcParams.validate['text.usetex'] = lambda s: False
    try:
        yield out
    finally:
        Figure.savefig, plt.show = old[0], old[1]
        matplotlib.rcParams.validate['text.usetex'] = old[2]
        matplotlib.rcParams.update(old[3])
