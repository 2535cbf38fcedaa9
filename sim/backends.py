"""
Backend switches under a simulated installation: plugin packages on disk, a stand-in
for cupy, and failing imports, look-ups and registry reads.

The simulated installation is a scratch directory at the end of sys.path. Failures are
injected where Python itself would produce them: sys.modules, sys.meta_path, module
attributes, the entry-point files on disk and importlib.metadata.
"""
import atexit
import importlib
import importlib.metadata
import os
import shutil
import sys
import tempfile
import types

NP_MODULES = dict(numpy="numpy", cupy="cupy", jax="jax.numpy")
SCIPY_MODULES = dict(numpy="scipy", cupy="cupyx.scipy", jax="jax.scipy")
OWN_XP = [f"gwpopulation.{m}" for m in (
    "hyperpe", "models.interped", "models.mass", "models.redshift", "models.spin", "utils", "vt",
    "experimental.cosmo_models")]
OWN_NAMES = ["gwpopulation_utils", "gwpopulation_mass", "gwpopulation_hyperpe"]
OWN_SCS = ["gwpopulation.models.mass", "gwpopulation.utils"]
FUNCTIONS = [
    "scipy.special.gammaln", "scipy.special.erf", "scipy.linalg.toeplitz", "scipy.linalg.cholesky",
    "scipy.linalg.solve_triangular", "scipy.stats.norm", "scipy.integrate.trapezoid", "scipy.signal.fftconvolve",
    "numpy.fft.rfft", "numpy.linalg.norm", "numpy.interp", "numpy.histogram", "math.hypot",
]
NUMPY_ONLY = ["scipy.interpolate.CubicSpline", "scipy.optimize.brentq"]
EXCEPTIONS = dict(ImportError=ImportError, ModuleNotFoundError=ModuleNotFoundError, OSError=OSError,
                  RuntimeError=RuntimeError, KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError,
                  SyntaxError=SyntaxError, AttributeError=AttributeError, ValueError=ValueError, KeyError=KeyError)

CUPY = {
    "cupy/__init__.py": "import numpy as _np\n\ndef __getattr__(name):\n    return getattr(_np, name)\n",
    "cupyx/__init__.py": "",
    "cupyx/scipy/__init__.py": "from . import special\n",
}
for _name in ("special", "linalg", "stats", "integrate", "signal"):
    CUPY[f"cupyx/scipy/{_name}.py"] = (
        f"import scipy.{_name} as _mod\n\ndef __getattr__(name):\n    return getattr(_mod, name)\n")
for _name in ("fft", "linalg"):
    CUPY[f"cupy/{_name}.py"] = (
        f"import numpy.{_name} as _mod\n\ndef __getattr__(name):\n    return getattr(_mod, name)\n")

CONTROL = "verif_plugin_control"


def plugin_spec(rng, group):
    """A JSON description of the plugin packages of one installation."""
    packages, counter = [], 0
    for p in range(rng.choice([0, 1, 1, 2, 3])):
        name = f"vp{group}_{'abc'[p]}"
        modules = []
        for m in range(rng.randint(1, 3)):
            module = dict(name=name if m == 0 else f"{name}.{'pqr'[m]}", xp=rng.random() < 0.7,
                          scs=rng.random() < 0.5, funcs=[], defaults=rng.random() < 0.8)
            for func in rng.sample(FUNCTIONS, rng.choice([0, 1, 2, 2, 3])):
                if all(func.split(".")[-1] != f.split(".")[-1] for f in module["funcs"]):
                    module["funcs"].append(func)
            if group == 5 and p == 0 and m == 0:
                module["funcs"].append(rng.choice(NUMPY_ONLY))
            if not (module["xp"] or module["scs"] or module["funcs"]):
                module["xp"] = True
            modules.append(module)
        counter += 1
        packages.append(dict(name=name, modules=modules, twice=rng.random() < 0.15, order=rng.random() < 0.5,
                             names=rng.choice(["unique", "common", "own"])))
    return packages


class Installation:
    """Plugin packages and the stand-in for cupy in a scratch directory."""

    def __init__(self, packages):
        self.packages = packages
        self.root = tempfile.mkdtemp(prefix="verif-plugins-")
        atexit.register(shutil.rmtree, self.root, True)
        for path, text in CUPY.items():
            self.write("cupy-root/" + path, text)
        for package in packages:
            for module in package["modules"]:
                lines = [f"import {CONTROL} as _control", "_control.loading(__name__)"]
                if module["defaults"]:
                    if module["xp"]:
                        lines.append("import numpy as xp")
                    if module["scs"]:
                        lines.append("import scipy.special as scs")
                    for func in module["funcs"]:
                        where, what = func.rsplit(".", 1)
                        lines.append(f"from {where} import {what}")
                lines.append("_control.loaded(__name__)")
                path = module["name"].replace(".", "/")
                path += "/__init__.py" if "." not in module["name"] else ".py"
                self.write("plugins/" + path, "\n".join(lines) + "\n")
            self.dist("plugins", package["name"], self.entries(package))
        self.extra = 0

    def entries(self, package):
        groups = {"xp": [], "scs": [], "other": []}
        for i, module in enumerate(package["modules"]):
            # entry names need not be unique across packages
            short = dict(unique=module["name"].replace(".", "_"), common=f"models{i}", own=OWN_NAMES[i])[package["names"]]
            if module["xp"]:
                groups["xp"].append(f"{short} = {module['name']}")
                if package["twice"]:
                    groups["xp"].append(f"{short}_again = {module['name']}")
            if module["scs"]:
                groups["scs"].append(f"{short} = {module['name']}")
            for func in module["funcs"]:
                groups["other"].append(f"{short}_{func.split('.')[-1]} = {module['name']}:{func}")
        if package["order"]:
            groups = {key: value[::-1] for key, value in groups.items()}
        return groups

    def write(self, path, text):
        path = os.path.join(self.root, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as ff:
            ff.write(text)

    def dist(self, where, name, groups):
        self.write(f"{where}/{name}-1.0.dist-info/METADATA", f"Metadata-Version: 2.1\nName: {name}\nVersion: 1.0\n")
        text = ""
        for group, lines in groups.items():
            if lines:
                text += f"[gwpopulation.{group}]\n" + "\n".join(lines) + "\n\n"
        self.write(f"{where}/{name}-1.0.dist-info/entry_points.txt", text)

    def bad_registry(self, lines):
        """A directory with one more distribution whose registration is wrong."""
        self.extra += 1
        where = f"bad{self.extra}"
        self.dist(where, f"vpbad{self.extra}", lines)
        return os.path.join(self.root, where)

    def paths(self):
        return [os.path.join(self.root, "plugins"), os.path.join(self.root, "cupy-root")]


class Control(types.ModuleType):
    """Told by plugin modules that they are being imported; may make that fail."""

    def __init__(self):
        super().__init__(CONTROL)
        self.failing = {}
        self.fired = 0

    def loading(self, name):
        if name in self.failing and not self.failing[name].startswith("late:"):
            self.fired += 1
            raise EXCEPTIONS[self.failing[name]](f"injected while loading {name}")

    def loaded(self, name):
        kind = self.failing.get(name, "")
        if kind.startswith("late:"):
            self.fired += 1
            raise EXCEPTIONS[kind[5:]](f"injected while loading {name}")


class RaisingFinder:
    def __init__(self):
        self.names = {}
        self.fired = 0

    def find_spec(self, name, path=None, target=None):
        if name in self.names:
            self.fired += 1
            raise EXCEPTIONS[self.names[name]](f"injected while importing {name}")
        return None


class Simulated:
    """One simulated process life: the installation, the active faults and the expected bindings."""

    def __init__(self, installation, cupy):
        self.installation, self.cupy = installation, cupy
        self.control = Control()
        self.finder = RaisingFinder()
        self.undo = []
        self.fired = 0
        sys.modules[CONTROL] = self.control
        sys.path.extend(installation.paths())
        sys.meta_path.insert(0, self.finder)
        self.active = "numpy"
        self.expected = {}
        if not cupy:
            for name in ("cupy", "cupyx", "cupyx.scipy"):
                self.finder.names[name] = "ModuleNotFoundError"

    def close(self):
        self.clear()
        for path in self.installation.paths():
            if path in sys.path:
                sys.path.remove(path)
        sys.meta_path.remove(self.finder)
        sys.modules.pop(CONTROL, None)
        for name in [n for n in sys.modules if n.split(".")[0] in ("cupy", "cupyx")]:
            del sys.modules[name]
        importlib.invalidate_caches()

    # ---- registry as the simulated installation defines it

    def registered(self):
        """{module: {attribute: function or None}}"""
        out = {}
        for name in OWN_XP:
            out.setdefault(name, {})["xp"] = None
        for name in OWN_SCS:
            out.setdefault(name, {})["scs"] = None
        for package in self.installation.packages:
            for module in package["modules"]:
                entry = out.setdefault(module["name"], {})
                if module["xp"]:
                    entry["xp"] = None
                if module["scs"]:
                    entry["scs"] = None
                for func in module["funcs"]:
                    entry[func.split(".")[-1]] = func
        return out

    def library(self, attribute, func, backend):
        """The object a registered attribute must be bound to; raises if the backend lacks it."""
        if func is None:
            if attribute == "xp":
                return importlib.import_module(NP_MODULES[backend])
            return importlib.import_module(SCIPY_MODULES[backend]).special
        where, what = func.rsplit(".", 1)
        head, dot, rest = where.partition(".")
        head = {"numpy": NP_MODULES, "scipy": SCIPY_MODULES}.get(head, {}).get(backend, head)
        return getattr(importlib.import_module(head + dot + rest), what)

    def resolve(self, backend):
        """{(module, attribute): object} or None if this installation cannot provide the backend."""
        try:
            return {(module, attr): self.library(attr, func, backend)
                    for module, attrs in self.registered().items() for attr, func in attrs.items()}
        except (ImportError, AttributeError):
            return None

    def bindings(self, modules=None):
        out = {}
        for module, attrs in self.registered().items():
            if module in sys.modules and sys.modules[module] is not None:
                for attr in attrs:
                    out[module, attr] = getattr(sys.modules[module], attr, None)
        return out

    # ---- faults

    def block(self, name, kind):
        """Importing a module fails, whether or not it was imported before."""
        saved = sys.modules.get(name)
        if kind == "None":
            sys.modules[name] = None
        else:
            sys.modules.pop(name, None)
            old = self.finder.names.get(name)
            self.finder.names[name] = kind

        def restore():
            if kind != "None":
                if old is None:
                    self.finder.names.pop(name, None)
                else:
                    self.finder.names[name] = old
            if saved is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = saved

        self.undo.append(restore)

    def remove_attribute(self, module, name):
        module = sys.modules.get(module)
        if module is None or name not in vars(module):
            return
        saved = vars(module)[name]
        delattr(module, name)
        self.undo.append(lambda: setattr(module, name, saved))

    def replace_module(self, name):
        """A broken installation: the module is there but empty."""
        saved = sys.modules.get(name)
        sys.modules[name] = types.ModuleType(name)

        def restore():
            if saved is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = saved

        self.undo.append(restore)

    def inject(self, fault, backend):
        kind = fault["kind"]
        modules = sorted({m["name"] for p in self.installation.packages for m in p["modules"]})
        own = [m for m in OWN_XP]
        pick = fault["pick"]
        if kind == "block-array-library":
            self.block(NP_MODULES[backend], fault["exc"])
        elif kind == "block-scipy":
            self.block(SCIPY_MODULES[backend], fault["exc"])
        elif kind == "broken-scipy":
            self.replace_module(SCIPY_MODULES[backend])
        elif kind == "block-plugin":
            if modules:
                self.block(modules[int(pick * len(modules))], fault["exc"])
        elif kind == "block-own":
            self.block(own[int(pick * len(own))], fault["exc"])
        elif kind == "plugin-raises":
            if modules:
                name = modules[int(pick * len(modules))]
                if name not in sys.modules:
                    exc = "RuntimeError" if fault["exc"] == "None" else fault["exc"]
                    self.control.failing[name] = ("late:" if fault["late"] else "") + exc
                    self.undo.append(lambda: self.control.failing.pop(name, None))
        elif kind in ("block-function-module", "missing-function"):
            funcs = sorted({f for p in self.installation.packages for m in p["modules"] for f in m["funcs"]})
            if funcs:
                func = funcs[int(pick * len(funcs))]
                where, what = func.rsplit(".", 1)
                head, dot, rest = where.partition(".")
                head = {"numpy": NP_MODULES, "scipy": SCIPY_MODULES}.get(head, {}).get(backend, head)
                if kind == "block-function-module" and rest and where != "scipy.special":
                    self.block(head + dot + rest, fault["exc"])
                elif kind == "missing-function" and backend == "jax":
                    self.remove_attribute(head + dot + rest, what)
        elif kind == "bad-registration":
            lines = {
                0: dict(other=["bad = nocolonhere"]),
                1: dict(xp=["bad = vp_no_such_module"]),
                2: dict(scs=["bad = gwpopulation.no_such_module"]),
                3: dict(other=["bad = gwpopulation.utils:scipy.linalg.no_such_function"]),
                4: dict(other=["bad = vp_no_such_module:scipy.linalg.toeplitz"]),
                5: dict(other=["bad = gwpopulation.utils:nodots"]),
            }[int(pick * 6)]
            path = self.installation.bad_registry(lines)
            sys.path.append(path)

            def restore():
                if path in sys.path:
                    sys.path.remove(path)
                shutil.rmtree(path, ignore_errors=True)

            self.undo.append(restore)
        elif kind == "registry-error":
            saved = importlib.metadata.entry_points
            count = [0]
            exc = EXCEPTIONS["OSError" if fault["exc"] in ("None", "ModuleNotFoundError") else fault["exc"]]

            def broken(*args, **kwargs):
                count[0] += 1
                if count[0] > int(pick * 3):
                    raise exc("injected while reading the registry")
                return saved(*args, **kwargs)

            importlib.metadata.entry_points = broken

            def restore():
                importlib.metadata.entry_points = saved

            self.undo.append(restore)
        elif kind == "jax-configuration":
            if backend == "jax":
                import jax

                def broken(*args, **kwargs):
                    raise RuntimeError("injected while configuring jax")

                config = jax.config
                if "update" in vars(config):
                    return
                config.update = broken

                def restore():
                    del config.update

                self.undo.append(restore)

    def clear(self):
        while self.undo:
            self.undo.pop()()


FAULTS = ["block-array-library", "block-scipy", "broken-scipy", "block-plugin", "block-own", "plugin-raises",
          "block-function-module", "missing-function", "bad-registration", "registry-error", "jax-configuration"]
_installations = {}


def installation(packages):
    """One installation per set of plugins and process."""
    key = repr(packages)
    if key not in _installations:
        _installations[key] = Installation(packages)
    return _installations[key]
