"""A small symbolic executor for Python functions: integers are z3 terms, branches on them fork (by re-execution)."""
import sys
sys.dont_write_bytecode = True # nothing is left in the repository
import time

import z3


class Infeasible(BaseException):
    pass


class Violation(BaseException):
    def __init__(self, msg, model):
        self.msg, self.model = msg, model


class NoAnswer(BaseException):
    pass


class Engine:
    def __init__(self):
        self.solver = z3.Solver()
        self.queries = self.sat = self.unsat = self.paths = self.checks = self.proved = 0
        self.solver_s = 0.0
        self.inputs = []

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.sat:
            self.sat += 1
        elif r == z3.unsat:
            self.unsat += 1
        else:
            raise NoAnswer("solver gave no answer")
        return r == z3.sat

    def explore(self, f, deadline):
        """Runs f once per feasible path; returns whether every path was explored."""
        todo = [[]]
        while todo:
            if time.time() > deadline:
                return False
            self.prefix, self.taken, self.n = todo.pop(), [], 0
            self.inputs = []
            self.solver.push()
            try:
                f(self)
                self.paths += 1
            except Infeasible:
                pass
            finally:
                self.solver.pop()
            for i in range(len(self.prefix), len(self.taken)):
                d, other = self.taken[i]
                if other:
                    todo.append([x for x, _ in self.taken[:i]] + [not d])
        return True

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            d, other = self.prefix[i], False
        else:
            t, e = self.check(c), self.check(z3.Not(c))
            if not t and not e:
                raise Infeasible()
            d, other = t, t and e
        self.taken.append((d, other))
        self.solver.add(c if d else z3.Not(c))
        return d

    def int(self, name, lo, hi):
        self.n += 1
        v = z3.Int("%s#%d" % (name, self.n))
        self.solver.add(v >= lo, v <= hi)
        self.inputs.append((name, v))
        if not self.check():
            raise Infeasible()
        return SymInt(self, v)

    def pick(self, name, n):
        return self.int(name, 0, n - 1).__index__()

    def require(self, c, msg):
        """The property: c (a bool or a term) holds for every value on this path."""
        self.checks += 1
        if isinstance(c, SymBool):
            c = c.t
        if c is True or (not isinstance(c, bool) and z3.is_true(z3.simplify(c))):
            self.proved += 1
            return
        bad = z3.BoolVal(True) if isinstance(c, bool) else z3.Not(c)
        if self.check(bad):
            m = self.solver.model()
            raise Violation(msg, [(n, m.eval(v, model_completion=True).as_long()) for n, v in self.inputs])
        self.proved += 1


def term(x):
    return x.t if isinstance(x, SymInt) else z3.IntVal(int(x))


class SymBool:
    def __init__(self, e, t):
        self.e, self.t = e, t

    def __bool__(self):
        return self.e.branch(self.t)


class SymInt:
    def __init__(self, e, t):
        self.e, self.t = e, t

    def __add__(self, o): return SymInt(self.e, self.t + term(o))
    def __radd__(self, o): return SymInt(self.e, term(o) + self.t)
    def __sub__(self, o): return SymInt(self.e, self.t - term(o))
    def __rsub__(self, o): return SymInt(self.e, term(o) - self.t)
    def __neg__(self): return SymInt(self.e, -self.t)
    def __mul__(self, o):
        if not isinstance(o, (int, SymInt)):
            return o * self.__index__()
        return SymInt(self.e, self.t * term(o))
    __rmul__ = __mul__
    def __floordiv__(self, o): return self.__index__() // int(o)
    def __rfloordiv__(self, o): return o // self.__index__()
    def __mod__(self, o): return self.__index__() % int(o)
    def __lt__(self, o): return SymBool(self.e, self.t < term(o))
    def __le__(self, o): return SymBool(self.e, self.t <= term(o))
    def __gt__(self, o): return SymBool(self.e, self.t > term(o))
    def __ge__(self, o): return SymBool(self.e, self.t >= term(o))
    def __eq__(self, o):
        return SymBool(self.e, self.t == term(o)) if isinstance(o, (int, SymInt)) else NotImplemented
    def __ne__(self, o):
        return SymBool(self.e, self.t != term(o)) if isinstance(o, (int, SymInt)) else NotImplemented
    def __bool__(self): return self.e.branch(self.t != 0)
    def __hash__(self): return hash(self.__index__())
    def __int__(self): return self.__index__()

    def __index__(self): # one path per value
        t = z3.simplify(self.t)
        while not z3.is_int_value(t):
            if not self.e.prefix[len(self.e.taken):]:
                if not self.e.check():
                    raise Infeasible()
                v = self.e.solver.model().eval(t, model_completion=True).as_long()
                self.e.memo[tuple(d for d, _ in self.e.taken)] = v
            else:
                v = self.e.memo[tuple(d for d, _ in self.e.taken)]
            if self.e.branch(t == v):
                return v
        return t.as_long()

    def __repr__(self): return str(self.__index__())
    __str__ = __repr__


class ArbitrarySet(set):
    """A set iterated in an arbitrary order (the same for equal contents, as long as the program runs)."""
    engine = None

    def __iter__(self):
        e = ArbitrarySet.engine
        key = frozenset(set.__iter__(self))
        if key not in e.orders:
            left, order = sorted(key), []
            while left:
                order.append(left.pop(e.pick("order of a set", len(left))))
            e.orders[key] = order
        return iter(e.orders[key])
