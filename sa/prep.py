"""Scratch copy of /repo's current package sources (templates rendered, generated C dropped)."""
import os, shutil, sys, tempfile, re, atexit

REPO = os.environ.get("SA_REPO", "/repo")


class Broken(Exception):
    """the analysis lost an anchor or cannot analyse the tree: an error of the check"""


class Ext(object):
    """stand-in for setuptools' Extension"""

    def __init__(self, name, sources=(), **kw):
        self.name, self.sources, self.kw = name, list(sources), kw


def scratch():
    d = tempfile.mkdtemp(prefix="sa_", dir=os.environ.get("SA_TMP") or None)
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    root = os.path.join(d, "w")
    pk = os.path.join(root, "randomgen")

    def ign(p, names):
        out = []
        for n in names:
            full = os.path.join(p, n)
            if n in ("__pycache__", "examples", ".git"):
                out.append(n)
            elif n.endswith((".so", ".html", ".pyc", ".o")):
                out.append(n)
            elif n.endswith(".c") and os.path.exists(full[:-2] + ".pyx"):
                out.append(n)
            elif os.path.basename(p) == "tests" and not n.endswith((".pyx", ".pxd", ".py")):
                out.append(n)
        return out
    shutil.copytree(os.path.join(REPO, "randomgen"), pk, ignore=ign)
    shutil.copy(os.path.join(REPO, "setup.py"), os.path.join(root, "setup.py"))
    render(pk)
    return root


def render(pk):
    from Cython import Tempita as tempita
    for n in os.listdir(pk):
        if n.endswith((".pxd.in", ".pyx.in")):
            with open(os.path.join(pk, n)) as f:
                t = tempita.Template(f.read())
            with open(os.path.join(pk, n[:-3]), "w") as f:
                f.write(t.substitute())


def extensions(root):
    """extension list of setup.py, obtained by evaluating setup.py with recording stand-ins
    for setup()/cythonize() (nothing is built): {name: Ext}"""
    import types, runpy, io, contextlib
    exts = []

    class Distribution(object):
        pass
    st = types.ModuleType("setuptools")
    st.Extension = Ext
    st.find_packages = st.find_namespace_packages = lambda *a, **k: []
    st.setup = lambda *a, **k: None
    st.Distribution = Distribution
    ste = types.ModuleType("setuptools.extension")
    ste.Extension = Ext
    std = types.ModuleType("setuptools.dist")
    std.Distribution = Distribution
    bld = types.ModuleType("Cython.Build")
    bld.cythonize = lambda e, *a, **k: (exts.extend(e), e)[1]
    mods = {"setuptools": st, "setuptools.extension": ste, "setuptools.dist": std, "Cython.Build": bld}
    saved = {k: sys.modules.get(k) for k in mods}
    cwd = os.getcwd()
    argv = sys.argv
    for k in ("RANDOMGEN_CYTHON_COVERAGE", "RANDOMGEN_DEBUG", "RANDOMGEN_NO_SSE2"):
        os.environ.pop(k, None)
    try:
        sys.modules.update(mods)
        os.chdir(root)
        open("README.md", "a").close()
        sys.argv = ["setup.py"]
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(root, "setup.py"), run_name="__main__")
    finally:
        os.chdir(cwd)
        sys.argv = argv
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    if len(exts) < 20:
        raise Broken("setup.py declares only %d extensions" % len(exts))
    return {e.name: e for e in exts}
