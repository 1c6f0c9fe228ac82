"""C26: third-party headers are unpacked only from the archive that was pinned."""
import os
import re

from sa import paths as X
from sa.harness import REPO, Vanished

R = {"verified": "on every path an archive is unpacked only after the SHA-1 of its whole current content was found equal to the pinned one",
     "present": "on every path the directory is returned only after files beneath it were found, nothing having changed since",
     "cleanup": "on every path, failures included, each temporary directory is removed before the call ends",
     "contained": "only temporary directories and paths beneath the install directory are removed, only files beneath the download directory written",
     "replaced": "on every path the install directory is removed before a new one is moved there",
     "reuse": "a path downloads only after no archive, or one that does not match, was found",
     "serial": "on every path archive and install directory are changed only under a lock that all calls share, and not at all by a call that waited while another one installed",
     "version": "on every path CUB's directory is returned only after its version string was found in a file beneath it",
     "retry": "after a failed call the next call does not take the headers for installed"}
PIN = re.compile(r"^[0-9a-f]{40}$")
DL = X.Sym(("dirs", "downloads_dir"))
ENTRY = (("africanus.util.trove", "trove_dir"), ("africanus.util.cub", "cub_dir"))


def base(p):
    while isinstance(p, X.Sym) and p[0] in ("join", "str") and len(p) > 1:
        p = p[1]
    return p


def beneath(p, root):
    while isinstance(p, X.Sym) and p[0] == "str" and len(p) > 1 and isinstance(p[1], X.Sym):
        p = p[1]
    return isinstance(p, X.Sym) and p[0] == "join" and (p[1] == root or beneath(p[1], root))


def whole(h, path, version, facts, parts={}):
    """h is the SHA-1 of all of this version of the file"""
    if not (isinstance(h, X.Sym) and h[0] == "hexdigest" and h[1] == "sha1"):
        return False
    if (path, version) in parts and h[2:] == parts[path, version]:
        return True
    n = facts.get(X.Sym(("size", path, version)))
    return h[2:] == (X.Sym(("content", path, version)),) or n is not None and h[2:] == tuple(X.Sym(("chunk", path, version, i)) for i in range(n))


def matched(facts, path, version, same, parts):
    """the content was compared, here or where it was moved from"""
    if (path, version) in same and matched(facts, *same[path, version], same, parts):
        return True
    for f, v in facts.items():
        if v is True and f[0] == "eq" and any(isinstance(a, str) and PIN.match(a) and whole(b, path, version, facts, parts) for a, b in (f[1:], f[2:0:-1])):
            return True
    return False


def source(t, d):
    """a line or the content of a file beneath d"""
    if isinstance(t, X.Sym):
        if t[0] in ("line", "content", "chunk", "text"):
            return beneath(t[1], d) or source(t[1], d)
        return any(source(x, d) for x in t[1:])
    return False


def check(p, out, start, bad):
    """rules for one call, events from start"""
    log = p.log[start:]
    gone = set()
    for e in log:
        if e[0] == "unlocked":
            bad("serial", e[-1], "%s without the lock" % e[1])
            continue
        if e[0] == "unpack" and not e[-2:] == ():
            # matched at any time before: the version names the content
            if not matched(p.facts, e[1], e[2], p.same, p.parts):
                bad("verified", e[-1], "unpacks %s without a matching hash" % (e[1],))
            if not (e[3] in p.temps or base(e[3]) in p.temps or beneath(e[3], X.Sym(("dirs", "include_dir")))):
                bad("contained", e[-1], "unpacks into %s" % (e[3],))
        elif e[0] in ("rmtree", "remove"):
            t = e[1]
            ok = t in p.temps or base(t) in p.temps or beneath(t, X.Sym(("dirs", "include_dir"))) or e[0] == "remove" and beneath(t, X.Sym(("dirs", "downloads_dir"))) \
                or base(t) == X.Sym(("dirs", "downloads_dir")) and beneath(t, X.Sym(("dirs", "downloads_dir")))
            if not ok:
                bad("contained", e[-1], "removes %s" % (t,))
            gone.add(t)
        elif e[0] == "write":
            if not (beneath(e[1], X.Sym(("dirs", "downloads_dir"))) or base(e[1]) in p.temps):
                bad("contained", e[-1], "writes %s" % (e[1],))
        elif e[0] == "move":
            if beneath(e[2], X.Sym(("dirs", "include_dir"))):
                absent = any(f[0] in ("exists", "isdir") and f[1] == e[2] and v is False for f, v in p.facts.items())
                if e[2] not in gone and not absent:
                    bad("replaced", e[-1], "moves onto %s, which may exist" % (e[2],))
                gone.discard(e[2])
    for t, alive in p.temps.items():
        if alive:
            bad("cleanup", next((e[-1] for e in log if e[0] == "mkdtemp" and e[1] == t), 0), "temporary directory left behind")
    if out[0] == "ret":
        d = out[1]
        seen = [f for f, v in p.facts.items() if v is True and f[0] in ("exists", "isfile") and beneath(f[1], d) and f[2] == p.epoch]
        if not seen:
            bad("present", 0, "returns %s, not seen to hold the headers" % (d,))
        if not any(v is True and f[0] == "contains" and isinstance(f[2], str) and "1.8.0" in f[2] and source(f[1], d) for f, v in p.facts.items()):
            bad("version", 0, "returns %s, the version not found there" % (d,))


def program(mod, fn, second):
    def run(p):
        env = p.load(mod)
        if fn not in env:
            raise Vanished("%s.%s" % (mod, fn))
        p.stack.append((env, env, set()))
        bad = []
        note = lambda rule, line, why: bad.append((rule, line, why))

        def once():
            try:
                return ("ret", p.call(env[fn], [], {}, None))
            except X.Raised as r:
                return ("exc", r.kind if isinstance(r.kind, str) else r.kind.name)

        def other(q):
            if once()[0] == "ret":
                q.mark = len(q.log)
        p.other, p.mark = other, None
        out = once()
        p.other = None
        if p.mark is not None:
            for e in p.log[p.mark:]:
                if e[0] in ("unpack", "move", "rmtree", "write"):
                    note("serial", e[-1], "%s although another call has installed meanwhile" % e[0])
        check(p, out, 0, note)
        # an archive is fetched only when none was found, or another one
        for k, e in enumerate(p.log):
            if e[0] == "fetch":
                why = any(v is False and (f[0] in ("exists", "isfile") and beneath(f[1], DL) or f[0] == "eq" and any(
                    isinstance(a, str) and PIN.match(a) and isinstance(b, X.Sym) and b[0] == "hexdigest" for a, b in (f[1:], f[2:0:-1]))) for f, v in p.facts.items())
                stale = any(v is True and f[0] == "eq" and any(isinstance(a, str) and PIN.match(a) and isinstance(b, X.Sym) and len(b) > 2 and isinstance(b[2], X.Sym)
                            and b[2][0] in ("chunk", "content") and b[2][2] == 0 for a, b in (f[1:], f[2:0:-1])) for f, v in p.facts.items())
                if stale or not why and not any(x[0] == "fault" for x in p.log[:k]):
                    note("reuse", e[-1], "downloads although the archive %s" % ("matches" if stale else "was not looked at"))
                break
        if out[0] == "exc":
            p.mute, p.faults, n = True, False, len(p.log)
            again = once()
            if again[0] == "ret":
                note("retry", 0, "the call after a failed one returns %s" % (again[1],))
        return out, bad
    return run


def run(ck):
    ck.rules = list(R.values())
    for mod, fn in ENTRY:
        rel = mod.replace(".", "/") + ".py"
        if not os.path.exists(os.path.join(REPO, rel)):
            raise Vanished(rel)

        def body(name, mod=mod, fn=fn, rel=rel):
            found, gave, n, done = {}, set(), 0, {"ret": 0, "exc": 0}
            version = False
            for p, (st, res) in X.explore(REPO, program(mod, fn, True)):
                n += 1
                if st == "giveup":
                    gave.add(res)
                    continue
                done[res[0][0]] += 1
                ck.covered.update("%s.%s" % x for x in p.seen)
                for rule, line, why in res[1]:
                    found.setdefault(rule, (line, why, [str(e) for e in p.log]))
            for rule in R:
                if rule == "version" and fn != "cub_dir":
                    continue
                if rule in found:
                    line, why, log = found[rule]
                    ck.ob("%s: %s" % (fn, rule), "violated", "%s\n      path: %s" % (why, "; ".join(log)[:900]), "%s:%s %s" % (rel, line, fn), R[rule])
                elif gave or not done["ret"] or not done["exc"]:
                    ck.ob("%s: %s" % (fn, rule), "unknown", "%s (%d paths)" % ("; ".join(sorted(gave)) or "no path ends", n), rel, R[rule])
                else:
                    ck.ob("%s: %s" % (fn, rule), "proved", "%d paths" % n, rel, R[rule])
            ck.note_paths = getattr(ck, "note_paths", 0) + n
        ck.timed(fn, body)
    return ck.finish("every path of both installers, each external call failing or not, first and second call", ["SHA-1 identifies the content", "reads and writes behave as documented"], 10)
