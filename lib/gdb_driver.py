"""Run inside gdb: at each stop, show every object of an array with the pretty
printers under test, and write what they give, one line per object."""
import gdb, gdb.printing, os

out = open(os.environ["P36_OUT"], "w")


def empty(t):
    t = t.strip_typedefs()
    if t.code != gdb.TYPE_CODE_ARRAY:
        return "?"
    lo, hi = t.range()
    return "{" + ",".join(empty(t.target()) for i in range(lo, hi + 1)) + "}"


def canon(v):
    t = v.type.strip_typedefs()
    if t.code == gdb.TYPE_CODE_ARRAY:
        lo, hi = t.range()
        if t.sizeof == 0:           # gdb does not subscript these
            return empty(t)
        return "{" + ",".join(canon(v[i]) for i in range(lo, hi + 1)) + "}"
    if t.code == gdb.TYPE_CODE_STRUCT:
        return "(" + ",".join(canon(v[f.name]) for f in t.fields()) + ")"
    if t.code == gdb.TYPE_CODE_FLT:
        return "%.17g" % float(v)
    if t.code == gdb.TYPE_CODE_PTR:
        return "pointer"
    return str(int(v))


def find(v):
    """The printer gdb uses for the object, or for the base class subobject of it that has one."""
    p = gdb.default_visualizer(v)
    if p is not None:
        return p
    t = v.type.strip_typedefs()
    if t.code == gdb.TYPE_CODE_STRUCT:
        for f in t.fields():
            if f.is_base_class:
                p = find(v.cast(f.type))
                if p is not None:
                    return p
    return None


def member(v, path):
    for m in path.split("."):
        if m:
            v = v[m]
    return v


def one(v):
    p = find(v)
    if p is None:
        return ["no printer", "", "", ""]
    head = str(p.to_string())
    view, names = [], []
    for n, c in p.children():
        if n == "gdb_view":
            view.insert(0, canon(c))
        elif n.isdigit():
            view.append(n + ":" + canon(c))
        else:
            names.append(n)
    text = v.format_string(max_elements=0, repeat_threshold=0, pretty_structs=False, symbols=False)
    return [head, ";".join(view), ",".join(names), text.replace(" ", "")]


def show(frame):
    objs = frame.read_var("objs")
    path = frame.read_var("path").string()
    for i in range(int(frame.read_var("n"))):
        try:
            r = one(member(objs[i].dereference(), path))
        except Exception as e:
            r = ["raised %s: %s" % (type(e).__name__, e), "", "", ""]
        out.write("\t".join(x.replace("\n", " ").replace("\t", " ") for x in r) + "\n")


try:
    for s in ("debuginfod enabled off", "startup-with-shell off", "disable-randomization off", "confirm off", "pagination off",
              "print elements 0", "print repeats 0", "python print-stack full"):
        try:
            gdb.execute("set " + s)
        except gdb.error:
            pass
    repo, script = os.environ["P36_REPO"], os.environ["P36_SCRIPT"]
    if os.environ.get("P36_AUTO"):          # as documented in developmentAids.rst
        gdb.execute("add-auto-load-safe-path " + repo)
        gdb.execute("directory " + repo, to_string=True)
        gdb.execute("file " + os.environ["P36_EXE"], to_string=True)
    else:
        gdb.execute("set auto-load python-scripts off")
        gdb.execute("file " + os.environ["P36_EXE"], to_string=True)
        gdb.execute("source " + os.path.join(repo, script))
    gdb.execute("handle SIGALRM SIGCHLD nostop noprint pass", to_string=True)
    gdb.Breakpoint("debuggeeStop")
    gdb.execute("run", to_string=True)
    while True:
        f = gdb.selected_frame()
        if f.name() is None or "debuggeeStop" not in f.name():
            break
        show(f.older())
        gdb.execute("continue", to_string=True)
        try:
            gdb.selected_frame()
        except gdb.error:
            break
    out.write("END\n")
except BaseException as e:
    out.write("DRIVER %s: %s\n" % (type(e).__name__, e))
out.close()
