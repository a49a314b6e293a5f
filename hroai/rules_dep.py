"""Rules about the environment: optional packages, files, executed text."""
from .domain import File
from .rules import Rule, exc_name

IMPORT = ("ImportError", "ModuleNotFoundError")
LOST = ("NameError", "UnboundLocalError", "AttributeError")


class OptionalPackages(Rule):
    name = "optional-package"
    text = ("with every subset of the optional packages absent all modules "
            "import, no operation refers to a name bound only when one of "
            "them is there, and only the operations documented to need one "
            "raise - an import error")

    def begin(self, h, entry):
        self.loading = False
        self.absent = frozenset(
            "undeclared packages" if p == "*" else p for p in h.I.absent)
        self.oblige(1, f"{entry.name}: without "
                       f"{', '.join(sorted(self.absent)) or '-'}")

    def on_event(self, h, kind, node, data):
        if kind in ("import-error", "import-fails", "import-missing"):
            nm = data.get("module") or data.get("name")
            self.report(h, f"{nm}", f"{nm} cannot be imported without "
                        f"{', '.join(sorted(self.absent)) or 'further packages'}",
                        node, op="import")
        elif self.absent and h.cur is not None and h.phase == "call":
            # only names the analysis sees missing, not values it cannot type
            if kind == "unbound":
                self.seen.setdefault("NameError", node)
                self.seen.setdefault("AttributeError", node)
                self.seen.setdefault("UnboundLocalError", node)
            elif kind == "no-attr" and data.get("cls") is not None:
                self.seen.setdefault("AttributeError", node)

    seen = {}

    def before_call(self, h, rec):
        self.seen = {}

    def on_call(self, h, rec):
        if not self.absent:
            return
        needs = {t[6:] for t in rec.tags if t.startswith("needs:")}
        miss = needs & self.absent
        self.oblige(1, f"{rec.entry}: {rec.label} without "
                       f"{', '.join(sorted(self.absent))}")
        ex = {exc_name(h, k) for k in rec.exc if k != "*"}
        for e in sorted(ex & set(LOST) & set(self.seen)):
            self.report(h, e, f"{rec.label} raises {e} without "
                        f"{', '.join(sorted(self.absent))}", self.seen[e])
        bad = sorted(ex & set(IMPORT))
        if bad and not miss:
            self.report(h, bad[0], f"{rec.label} needs an optional package "
                        f"({', '.join(sorted(self.absent))})", None)
        if miss and rec.ret is None and not bad and not ex & set(LOST):
            self.report(h, "no import error",
                        f"{rec.label} fails without {', '.join(sorted(miss))}"
                        f" but not with an import error", None)


# ------------------------------------------------------------------ files
TOUCH = {"os." + x for x in (
    "remove", "unlink", "rename", "replace", "renames", "makedirs", "mkdir",
    "rmdir", "removedirs", "truncate", "link", "symlink", "chmod", "chdir",
    "utime", "mknod", "mkfifo")} | {"shutil." + x for x in (
        "rmtree", "move", "copy", "copy2", "copyfile", "copytree")} | {
    "numpy.save", "numpy.savez", "numpy.savez_compressed", "numpy.savetxt",
    "matplotlib.pyplot.savefig", "matplotlib.pyplot.imsave",
    "tempfile.NamedTemporaryFile", "tempfile.mkstemp", "tempfile.mkdtemp",
    "tempfile.TemporaryDirectory", "pickle.dump", "shelve.open"}
WRITERS = ("to_csv", "to_file")


def writer(rec):
    return any(w in rec.label.split("(")[0] for w in WRITERS)


class FileUse(Rule):
    name = "file-use"
    text = ("typestate of every opened file (open - closed) in the state of "
            "every normal and exceptional exit, with an exception possible "
            "at every call and file operation; modes and path provenance of "
            "every open; no other operation touches the file system")

    def before_call(self, h, rec):
        self.had = set(rec.pre.heap)
        self.nodes = {}
        self.imp = h.I.want_implicit
        h.I.want_implicit = 1
        self.paths = [v for v in list(rec.args) + list(rec.kw.values())
                      if "PATH" in h.I.deep_labels(v, h.st)]

    def on_event(self, h, kind, node, data):
        if h.phase != "call" or h.cur is None:
            return
        if kind == "open":
            self.opened(h, node, data)
        elif kind == "ext-call" and data["path"] in TOUCH:
            self.oblige()
            if writer(h.cur) and all(
                    "PATH" in v.lab or "unk" in v.prims
                    for v in data["args"].pos[:2]):
                return
            self.report(h, data["path"],
                        f"{h.cur.label} calls {data['path']}", node)

    def opened(self, h, node, data):
        cur = h.cur
        m = data["mode"]
        p = data["path"]
        if data.get("loc") is not None:
            self.nodes[data["loc"]] = node
        self.oblige(1, f"{cur.entry}: {cur.label} opens a file ({m})")
        if not self.paths:
            self.report(h, "opens", f"{cur.label} opens a file although it "
                        "was given no path", node)
            return
        if isinstance(m, str):
            if not writer(cur) and set(m) & set("wax+"):
                self.report(h, "mode", f"{cur.label} opens a file for "
                            f"writing ({m!r}) while it only reads", node)
            if writer(cur) and ("a" in m or m.startswith("r+")):
                self.report(h, "mode", f"{cur.label} does not replace the "
                            f"content of the file (mode {m!r})", node)
        if p.only_consts() or ("PATH" not in p.lab and "path" not in p.f
                               and "unk" not in p.prims and p.prims):
            self.report(h, "path", f"{cur.label} opens a file the caller "
                        "did not name", node)
            return
        got = p.f.get("path")
        if got is None:
            return
        want = [v.f["path"] for v in self.paths if "path" in v.f]
        if len(want) != len(self.paths):
            return
        if not any(self.fits(got, w) for w in want):
            self.report(h, "path", f"{cur.label} opens a file the caller "
                        "did not name", node)

    def fits(self, got, want):
        if got == want:
            return True
        return isinstance(got, tuple) and got[0] == "join" and \
            got[1] == ("dir", want)

    def on_call(self, h, rec):
        h.I.want_implicit = self.imp
        for how, st in [("when it returns", rec.post)] + [
                (f"when it raises {exc_name(h, k)}", s)
                for k, s in rec.exc.items()]:
            if st is None:
                continue
            for loc, hp in st.heap.items():
                if loc in self.had or not isinstance(hp, File):
                    continue
                if hp.managed:
                    continue
                self.oblige()
                if "open" in hp.status:
                    self.report(h, "left open",
                                f"{rec.label} leaves a file open {how}",
                                self.nodes.get(loc))


class Beside(FileUse):
    name = "files-beside"
    text = ("every file a writer opens for writing and every file a reader "
            "opens is the named one or lies in its directory")

    def before_call(self, h, rec):
        self.paths = [v for v in list(rec.args) + list(rec.kw.values())
                      if "PATH" in h.I.deep_labels(v, h.st)]

    def on_event(self, h, kind, node, data):
        if h.phase == "call" and h.cur is not None and kind == "open" and \
                h.cur.tags & {"rt-write", "rt-read"}:
            self.opened(h, node, dict(data, mode=None, loc=None))

    def on_call(self, h, rec):
        pass



# --------------------------------------------------------- executed text
RUN = {"pickle.load", "pickle.loads", "pickle.Unpickler", "marshal.load",
       "marshal.loads", "yaml.load", "yaml.unsafe_load", "os.system",
       "os.popen", "os.execv", "subprocess.run", "subprocess.call",
       "subprocess.Popen", "subprocess.check_output",
       "subprocess.check_call", "runpy.run_path", "runpy.run_module",
       "dill.load", "dill.loads", "joblib.load", "shelve.open",
       "pandas.read_pickle", "pandas.eval", "code.interact", "timeit.timeit",
       "sympy.sympify", "numexpr.evaluate", "jsonpickle.decode"}


class NothingExecuted(Rule):
    name = "executed-text"
    text = ("no text that is not a constant of the source reaches eval, "
            "exec, compile, a dynamic import, an unpickler or a shell")

    def on_event(self, h, kind, node, data):
        if h.phase != "call" or h.cur is None:
            return
        if kind == "exec":
            self.bad(h, node, data["what"], data["args"])
        elif kind == "ext-call":
            p = data["path"]
            if p in RUN:
                self.bad(h, node, p, data["args"])
            elif p == "numpy.load":
                a = data["args"].kw.get("allow_pickle")
                if a is not None and a.is_const() and a.const():
                    self.bad(h, node, p, data["args"])
            elif p.endswith("literal_eval"):
                self.oblige(1, f"{h.cur.entry}: literals only")

    def bad(self, h, node, what, args):
        self.oblige()
        vs = args.all()
        if vs and all(v.only_consts() for v in vs):
            return
        self.report(h, what, f"{h.cur.label}: {what} runs text that comes "
                    "from the input", node)

    def on_call(self, h, rec):
        self.oblige(1, f"{rec.entry}: {rec.label} executes no input")
