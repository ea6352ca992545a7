import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big

V = ["a", "b", "c", "d"]


def elem(rng):
    k = rng.random()
    if k < 0.6:
        return str(rng.randint(0, 9))
    if k < 0.75:
        return "(list %s)" % " ".join(str(rng.randint(0, 9)) for _ in range(rng.randint(0, 3)))
    if k < 0.85:
        return rng.choice(V)
    return wl.value(rng, 1)


def lst(rng):
    k = rng.random()
    if k < 0.45:
        return rng.choice(V)
    if k < 0.6:
        return "(list %s)" % " ".join(elem(rng) for _ in range(rng.choice([0, 1, 2, 3, 5])))
    if k < 0.7:
        return "'(%s)" % " ".join(wl.datum(rng, 2) for _ in range(rng.choice([0, 1, 2, 3, 5])))
    if k < 0.75:
        return "(nth %d (list %s %s))" % (rng.randint(0, 1), rng.choice(V), rng.choice(V))
    return fresh(rng)


def fresh(rng):
    k = rng.randint(0, 8)
    v = lambda: rng.choice(V)
    if k == 0:
        return "(append %s)" % " ".join(lst(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 4])))
    if k == 1:
        return "(reverse %s)" % v()
    if k == 2:
        return "(%s %s)" % (rng.choice(["rest", "cdr"]), v())
    if k == 3:
        return "(cons %s %s)" % (elem(rng), rng.choice([v(), v(), elem(rng)]))
    if k == 4:
        return "(map (lambda (x) %s) %s)" % (rng.choice(["x", "(list x)", "(+ 1 1)", "(list x x)"]), v())
    if k == 5:
        return "(+ %s %s)" % (v(), v())
    if k == 6:
        return "(reduce (lambda (x acc) (cons x acc)) %s (list))" % v()
    if k == 7:
        return "(list %s %s)" % (v(), v())
    return "(eval (cons 'list %s))" % v() if rng.random() < 0.2 else "(apply list %s)" % v()


def idx(rng):
    return rng.choice(["0", "0", "1", "2", "3", "-1", "9", "(- (len a) 1)", "(len b)"])


def op(rng):
    v = rng.choice(V)
    k = rng.randint(0, 21)
    if k <= 2:
        return "(def %s %s)" % (v, lst(rng))
    if k == 3:
        return "(setf %s %s)" % (v, lst(rng))
    if k in (4, 5):
        return "(println (push %s %s%s))" % (elem(rng), v, rng.choice(["", " " + idx(rng)]))
    if k in (6, 7):
        return "(println (pop %s%s))" % (v, rng.choice(["", " " + idx(rng)]))
    if k == 8:
        return "(setf (nth %s %s) %s)" % (idx(rng), v, elem(rng))
    if k == 9:
        return "(setf (%s %s) %s)" % (rng.choice(["first", "last", "car"]), v, elem(rng))
    if k == 10:
        return "(println (%s %s))" % (rng.choice(["first", "last", "car", "len", "rest", "cdr", "reverse"]), v)
    if k == 11:
        return "(println (nth %s %s))" % (idx(rng), v)
    if k == 12:
        return "(println (search %s %s) (search %s %s))" % (elem(rng), v, wl.value(rng, 1), v)
    if k == 13:
        return "(println %s)" % fresh(rng)
    if k == 14:
        return "(println (reduce + (map (lambda (x) (len (str x))) %s) 0))" % v
    if k == 15:
        return "(println (reduce (lambda (x acc) (string acc \"|\" x)) %s \"\"))" % v
    if k == 16:
        return "(defn m (l) (do (%s) (def l (list 77)) (push 78 l) (rval l))) (println (m %s))" % (rng.choice(["push 5 l", "pop l", "setf (first l) 9", "nop"]), v)
    if k == 17:
        # the result of an operation is a new list: changing it changes nothing else
        return "(def t %s) (push 99 t) (if (> (len t) 0) (setf (first t) 98)) (pop t 1)" % fresh(rng)
    if k == 18:
        return "(def n 0) (while (< n %d) (do (setf n (+ n 1)) (%s)))" % (rng.choice([3, 10, 40]), rng.choice(["push n %s" % v, "setf %s (append %s (list n))" % (v, v) , "setf %s (cons n %s)" % (v, v), "pop %s" % v, "push n %s (- (len %s) 1)" % (v, v)]))
    if k == 19:
        w = rng.choice(V)
        if w == v:
            return "(println (== %s %s))" % (v, w)
        return "(println (== %s %s) (len %s))" % (v, w, w)
    if k == 20:
        # element which is a list, changed through a reference
        return "(def e (list 1 2)) (setf %s (cons e %s)) (push 3 e) (println e %s)" % (v, v, v)
    return "(setf (nth 0 (first (list %s))) %s)" % (v, elem(rng))


ALL = "(println (list %s) (map len (list %s)))" % (" ".join(V), " ".join(V))


def selfcontained(codes):
    return codes


def make(rng, i):
    codes = ["(def a (list 1 2 3)) (def b a) (def c (list)) (def d '(1 (2 3) \"x\" nil))"]
    for _ in range(rng.randint(4, 14)):
        codes.append(" ".join([op(rng) for _ in range(rng.randint(1, 3))] + [ALL]))
    return Case(codes)


def cyclic(ref):
    return False


def go():
    c = Check("P12", rule="histories of up to 40 operations on four list variables with aliases, nested and quoted lists, positions inside and outside; all variables printed after each step; compared with the model of shared sequences")
    c.compare(generate(make, c.n(3000), c.label("lists")), kind="list")
    c.compare(generate(big.lists, c.n(250), c.label("big lists")), kind="big")
    c.compare(generate(big.nested, c.n(60), c.label("big nested")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
