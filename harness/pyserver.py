"""Runs histories with the Python theory class; one request after the other.

Request: lines "conf KEY VALUE", "arg ARG", "cap N", "how MODE"
(callback, async, yield or async-yield), then the history (program
text, "== ground PART", "== ATOM true|false|free|released", "== solve LITS")
and "== end".  The reply is line based as well and ends with "end".
"""
import sys
import clingo
from clingo import ast
from clingo.control import Control
from clingo.symbol import parse_term
import clingolpx

out = sys.stdout


def reply(*x):
    out.write("\t".join(str(y) for y in x) + "\n")


def one(s):
    return str(s).replace("\\", "\\\\").replace("\n", "\\n")


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


class Runner:
    def __init__(self, conf, args, cap, how):
        self.how = how
        self.thy = clingolpx.ClingoLPXTheory()
        for k, v in conf:
            self.thy.configure(k, v)
        self.thy.validate_options()
        self.ctl = Control(["0"] + args, lambda c, m: None, 1000)
        self.thy.register(self.ctl)
        self.cap = cap
        self.bad = None

    def add(self, text):
        with ast.ProgramBuilder(self.ctl) as bld:
            ast.parse_string(text, lambda stm: self.thy.rewrite_ast(stm, bld.add), logger=lambda c, m: None, message_limit=1000)

    def on_model(self, m):
        try:
            return self.model(m)
        except Bad as e:
            self.bad = str(e)
            return False

    def model(self, m):
        thy = self.thy
        self.early = not getattr(self, "early", False)
        before = {k: v.string for k, v in thy.assignment(m.thread_id)} if self.early else None
        thy.on_model(m)
        vals = {}
        obj = None
        for s in m.symbols(theory=True):
            if s.match("__lpx", 2):
                vals[s.arguments[0]] = s.arguments[1].string
            elif s.match("__lpx_objective", 2):
                obj = (s.arguments[0].string, s.arguments[1].number)
        reply("model", m.thread_id)
        for s in m.symbols(shown=True):
            reply("atom", s)
        for k, v in vals.items():
            reply("val", k, v)
        if obj:
            reply("obj", *obj)
        # the interface functions agree with the model
        asg = list(thy.assignment(m.thread_id))
        need(before is None or before == vals, "values read before passing the model to the theory differ from those added to it")
        need(len(asg) == len(set(k for k, _ in asg)), "assignment visits a symbol twice")
        need(set(k for k, _ in asg) == set(vals), "assignment has %s, the model %s" % ([str(k) for k, _ in asg], [str(k) for k in vals]))
        for k, v in asg:
            need(isinstance(v, clingo.Symbol) and v.type == clingo.SymbolType.String, "value %r of %s is not a string" % (v, k))
            need(v.string == vals[k], "assignment gives %s=%s, the model %s" % (k, v, vals[k]))
            i = thy.lookup_symbol(k)
            need(i is not None, "lookup of %s fails" % k)
            need(thy.get_symbol(i) == k, "symbol of index %d is not %s" % (i, k))
            need(thy.has_value(m.thread_id, i), "no value for %s" % k)
            need(thy.get_value(m.thread_id, i) == v, "get_value of %s differs" % k)
        need(thy.lookup_symbol(clingo.Function("no_such_variable", [clingo.Number(77)])) is None, "lookup of an unknown symbol succeeds")
        self.n += 1
        return self.n < self.cap

    def on_statistics(self, step, accu):
        self.thy.on_statistics(step, accu)

    def literals(self, lits):
        """Program literals; clingo's own conversion passes literal -1 for unknown atoms."""
        r = []
        for sym, pos in lits:
            atom = self.ctl.symbolic_atoms[sym]
            if atom is not None:
                r.append(atom.literal if pos else -atom.literal)
            elif pos:
                with self.ctl.backend() as b:
                    r.append(b.add_atom())
        return r

    def solve(self, lits):
        self.n = 0
        lits = self.literals(lits)
        reply("solve")
        if self.how == "callback":
            r = self.ctl.solve(assumptions=lits, on_model=self.on_model, on_statistics=self.on_statistics)
        elif self.how == "async":
            with self.ctl.solve(assumptions=lits, on_model=self.on_model, on_statistics=self.on_statistics, async_=True) as h:
                r = h.get()
        else:
            with self.ctl.solve(assumptions=lits, on_statistics=self.on_statistics, yield_=True, async_=self.how == "async-yield") as h:
                for m in h:
                    if not self.on_model(m):
                        h.cancel()
                        break
                r = h.get()
        if self.bad:
            raise Bad(self.bad)
        reply("result", int(bool(r.satisfiable)), int(bool(r.unsatisfiable)), int(bool(r.exhausted)))
        st = self.ctl.statistics
        for root in ("user_step", "user_accu"):
            if root in st and "Simplex" in st[root]:
                x = st[root]["Simplex"]
                reply("stat", root, x["Pivots"], x["Bounds propagated"])


def handle(lines):
    conf, args, cap, how = [], [], 100000, "callback"
    i = 0
    while i < len(lines):
        w = lines[i].split(" ", 2)
        if w[0] == "conf":
            conf.append((w[1], w[2]))
        elif w[0] == "arg":
            args.append(lines[i][4:])
        elif w[0] == "cap":
            cap = int(w[1])
        elif w[0] == "how":
            how = w[1]
        else:
            break
        i += 1
    r = None
    try:
        r = Runner(conf, args, cap, how)
        text = ""
        for l in lines[i:]:
            if not l.startswith("== "):
                text += l + "\n"
                continue
            w = l[3:].split(" ")
            if w[0] == "ground":
                r.add(text)
                text = ""
                r.ctl.ground([(w[1], [])])
                r.thy.prepare(r.ctl)
            elif w[0] == "solve":
                lits, j = [], 1
                while j < len(w):
                    neg = w[j] == "not"
                    j += neg
                    lits.append((parse_term(w[j]), not neg))
                    j += 1
                r.solve(lits)
            elif w[1] == "released":
                r.ctl.release_external(parse_term(w[0]))
            else:
                r.ctl.assign_external(parse_term(w[0]), {"true": True, "false": False, "free": None}[w[1]])
    except Bad as e:
        reply("bad", one(e))
    except RuntimeError as e:
        reply("error", one(e))
    except Exception as e:
        reply("bad", one("unexpected exception %s: %s" % (type(e).__name__, e)))
    if r is not None:
        ctl, thy = r.ctl, r.thy
        r.ctl = r.thy = None
        del ctl
        del thy


def main():
    buf = []
    reply("version", *clingolpx.ClingoLPXTheory().version())
    out.flush()
    for line in sys.stdin:
        line = line[:-1]
        if line == "== end":
            handle(buf)
            buf = []
            reply("end")
            out.flush()
        else:
            buf.append(line)


main()
