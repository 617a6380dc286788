"""Replay driver for the Python interface: executes the calls of generated scenarios on the real extension module and
records what they return.  It contains no expectation about any result.
pydriver.py IN OUT TIMEOUT SHARD NSHARDS DIRECTORY-OF-THE-MODULE"""
import json, math, os, signal, sys

inf, outf, limit, shard, nsh, where = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
sys.path.insert(0, where)
sys.dont_write_bytecode = True
import nikfemm


def text(v):
    """JSON; floats always with a point or an exponent, integers never"""
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, float):
        if math.isnan(v): return "NaN"
        if math.isinf(v): return "Infinity" if v > 0 else "-Infinity"
        s = "%.17g" % v
        return s if "." in s or "e" in s else s + ".0"
    if isinstance(v, (int, str)): return json.dumps(v)
    if isinstance(v, (list, tuple)): return "[" + ",".join(text(x) for x in v) + "]"
    if isinstance(v, dict): return "{" + ",".join(json.dumps(k) + ":" + text(x) for k, x in v.items()) + "}"
    if v is None: return '"None"'
    return json.dumps("object of type " + type(v).__name__)


def arg(a, systems):
    k, v = a["k"], a.get("v")
    if k == "list": return [arg(x, systems) for x in v]
    if k == "tuple": return tuple(arg(x, systems) for x in v)
    if k == "none": return None
    if k == "system": return systems[v]
    if k == "float": return float(v)
    if k in ("int", "str", "bool"): return v
    if k == "dict": return {}
    raise LookupError(k)


def run(cmds, fd):
    signal.alarm(limit)
    dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
    sims, systems = {}, {}
    put = lambda s: [fd.write(s), fd.flush()]
    for c in cmds:
        put("\x01")
        n, f = c["n"], c["f"]
        try:
            a = [arg(x, systems) for x in c["args"]]
            if f == "new":
                sims[n] = nikfemm.MultiLayerCurrentDensitySimulation(*a); r = {"v": "made"}
            elif f == "System":
                systems["bare"] = nikfemm.System(*a); r = {"v": "made"}
            else:
                v = getattr(sims[n], f)(*a)
                if f == "generate_system":
                    systems[n] = v[0]; r = {"n": len(v), "tris": v[1], "pts": v[2]}
                elif f == "solve": r = {"n": len(v), "v": v[0], "tris": v[1], "p": v[2]}
                else: r = {"v": v}
        except Exception as e:
            r = {"exc": type(e).__name__ + ": " + str(e)}
        put(text(r) + "\x02")
    fd.close()


with open(outf, "w") as out:
    for k, line in enumerate(open(inf)):
        if k % nsh != shard: continue
        sc = json.loads(line)
        cmds = [c for c in sc["cmds"] if c["o"] == "py"]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try: run(cmds, os.fdopen(w, "w"))
            finally: os._exit(0)
        os.close(w)
        buf = os.fdopen(r).read()
        _, st = os.waitpid(pid, 0)
        replies = []
        for part in buf.split("\x01")[1:]:
            if part.endswith("\x02"): replies.append(part[:-1])
            else:
                how = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit"
                replies.append(json.dumps({"crash": how}))
        out.write(json.dumps({"id": sc["id"], "replies": replies}) + "\n")
