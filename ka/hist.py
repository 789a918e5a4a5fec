"""Histories: short sequences of operations on a container of known size whose elements are unknown, interpreted exactly and
compared, observation by observation, with a mathematical model of the container.  Complements the judgements on objects of
unknown size, where loops are summarised."""
import json, pickle, tempfile, time
from .scn import *


class HistSpec(ScnSpec):
    unroll = 256
    unroll_width = 64
    runaway = True
    max_recursion = 24
    max_states = 4000
    stop_outside = True

    def global_init(self, name):
        return True

    def inputs(self, eng, st, fn, names):
        raise NotImplementedError

    def recursive_call(self, eng, st, ins, fn, args):
        eng.finding(st, "endless", ins, "the recursion of %s does not end" % fn["d"][:80])
        eng.drop(st)
        return []


V = ("R", -20, "v")


def el(i):
    """the i-th value of the source"""
    return A(("op", "val", 64, add(A(V), C(8 * i))))


def run_chunk(mod, spec, fname, seqs, pid):
    ck = Checker.__new__(Checker)
    ck.rep, ck.m, ck.only, ck.first = Report(pid), mod, None, True
    want = {l: w for l, a, w in seqs}
    nsrc = 24

    def pre(eng):
        for label, args, w in seqs:
            st = State()
            st.mem[V] = Region("input", C(8 * nsrc), {"name": "v"})
            yield label, st, [x if isinstance(x, Lin) else C(x) for x in args] + [A(V)]

    def post(eng, label, s, v):
        out = list(spec.leftovers(s))
        saw = s.x.get("saw", ())
        exp = want[label]
        for i, e in enumerate(exp):
            if i >= len(saw):
                return out + [("result", "only %d observations, expected %d" % (len(saw), len(exp)))]
            t, g = saw[i][0], saw[i][-1]
            if t != e[0]:
                return out + [("result", "observation %d is of kind %s (%s), expected kind %s (%s)" % (i, t, show(g), e[0], show(e[1])))]
            x = C(e[1]) if isinstance(e[1], int) else e[1]
            if e[1] is None or g == x:
                continue
            if isinstance(g, Undef):
                return out + [("result", "observation %d (kind %s) was never set" % (i, t))]
            return out + [("result", "observation %d (kind %s) is %s, expected %s" % (i, t, show(g), show(x)))]
        if len(saw) > len(exp):
            out.append(("result", "%d observations, expected %d" % (len(saw), len(exp))))
        for a in range(nsrc):
            u = add(A(V), C(8 * a))
            if spec.value_of(s, u) != el(a):
                out.append(("modified", "a value that still belongs to the caller is changed or moved from"))
                break
        return out
    ck.obligation("history", spec, fname, pre, post)
    r = ck.rep
    return r.functions, r.callsites, r.states, [(v["rule"], v["text"]) for v in r.viol], r.obl


def histories(rep, mod, spec, fname, groups, jobs=None, run=None):
    """groups: name -> [(label, constant arguments, expected observations)]; every group is an obligation"""
    work, step = [], 24 if run is None else 4
    for name, seqs in groups.items():
        for k in range(0, len(seqs), step):
            work.append((name, seqs[k:k + step]))
    jobs = jobs or min(8, os.cpu_count() or 1)
    parts = [work[i::jobs] for i in range(jobs)]
    files, pids = [], []
    for part in parts:
        if not part:
            continue
        fd, path = tempfile.mkstemp(prefix="ka_")
        os.close(fd)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                spec.deadline = time.time() + (200 if os.environ.get("VERIF_TIER", "quick") == "quick" else 700)
                res, hit = [], {}
                for n, seqs in part:
                    if n in hit or len(hit) > 5:
                        # the group already failed, or enough of them did
                        res.append((n, (set(), 0, 0, [], [("rest", "undecided", "not followed after other violations")])))
                        continue
                    r = (run or run_chunk)(mod, spec, fname, seqs, rep.pid)
                    if r[3]:
                        hit[n] = True
                    res.append((n, r))
                with open(path, "wb") as f:
                    pickle.dump(res, f)
                code = 0
            finally:
                os._exit(code)
        pids.append(pid)
        files.append(path)
    got = {}
    lost = False
    for pid, path in zip(pids, files):
        _, rc = os.waitpid(pid, 0)
        if rc:
            lost = True
        else:
            with open(path, "rb") as f:
                for n, r in pickle.load(f):
                    got.setdefault(n, []).append(r)
        os.unlink(path)
    for name, seqs in groups.items():
        rs = got.get(name, [])
        bad, und = [], None
        for fs, cs, ss, viol, obl in rs:
            rep.functions |= fs
            rep.callsites += cs
            rep.states += ss
            bad += viol
            for o in obl:
                if o[1] == "undecided":
                    und = o[2]
        if bad:
            rep.failed(name)
            seen = set()
            for rule, text in bad[:40]:
                if rule in seen:
                    continue
                seen.add(rule)
                rep.violation(name, rule, text, key=(name, rule))
        elif und or lost:
            rep.undecided(name, und or "the analysis of a part ended early")
        else:
            rep.ok(name, "%d histories" % len(seqs))
