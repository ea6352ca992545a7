import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl
import big

KEYS = ["1", "1.0", "2", "-1", "0", "0.5", "\"a\"", "\"b\"", "\"1\"", "\"\"", "\"A\"", "\"ab\"", "'a", "'b", "#t", "#f", "nil", "'(1)", "'(1 2)", "'()", "\"nil\"", "\"#t\"", "100", "99", "\"(1)\"", "2147483647", "2.0", "-0.5", "'(1 \"a\")"]
D = ["d", "e", "g"]


def key(rng, few):
    return rng.choice(few) if rng.random() < 0.85 else rng.choice(KEYS + ["(string \"k\" %d)" % rng.randint(0, 9), "(+ 1 %d)" % rng.randint(0, 5)])


def v(rng):
    return rng.choice([wl.value(rng, 2), str(rng.randint(0, 5)), "(list 1 2)", "'sym", "\"x\"", "nil"])


def op(rng, few):
    d = rng.choice(D)
    k = rng.randint(0, 19)
    if k <= 5:
        return "(println (dict-set %s %s %s))" % (d, key(rng, few), v(rng))
    if k <= 8:
        return "(println (dict-get %s %s))" % (d, key(rng, few))
    if k <= 10:
        return "(println (dict-remove %s %s))" % (d, key(rng, few))
    if k == 11:
        return "(println (dict-contains-key %s %s) (dict-contains-value %s %s))" % (d, key(rng, few), d, v(rng))
    if k == 12:
        return rng.choice(["(dict-clear %s)" % d, "(println (len %s))" % d])
    if k == 13:
        return "(def %s %s)" % (d, rng.choice(["(make-dict)"] + D))
    if k == 14:
        return "(defn put (x k) (dict-set x k (list k))) (put %s %s)" % (d, key(rng, few))
    if k == 15:
        return "(def ks (dict-keys %s)) (push 1 ks) (pop ks) (println (map (lambda (k) (dict-get %s k)) (dict-keys %s)))" % (d, d, d)
    if k == 16:
        return "(def n 0) (while (< n %d) (do (setf n (+ n 1)) (dict-set %s %s n)))" % (rng.choice([3, 20, 60]), d, rng.choice(["n", "(string n)", "(mod n 7)", "(list n)", "(* n 0.5)"]))
    if k == 17:
        return "(dict-set %s %s (list 1)) (push 2 (dict-get %s %s)) (println (dict-get %s %s))" % (d, few[0], d, few[0], d, few[0])
    if k == 18:
        return "(map (lambda (k) (dict-remove %s k)) (dict-keys %s))" % (d, d)
    return rng.choice(["(println (dict-get %s))" % d, "(dict-set %s 1)" % d, "(dict-get 5 1)", "(dict-keys nil)", "(dict-remove '(1) 1)", "(dict-set %s (no-fn) 1)" % d, "(println (typestr %s) (type %s))" % (d, d)])


ALL = "(println d e g (map len (list d e g)) (dict-keys d) (dict-keys e) (dict-keys g))"


def make(rng, i):
    few = rng.sample(KEYS, rng.choice([2, 3, 5, 8]))
    codes = ["(def d (make-dict)) (def e d) (def g (make-dict))"]
    for _ in range(rng.randint(4, 14)):
        codes.append(" ".join([op(rng, few) for _ in range(rng.randint(1, 4))] + [ALL]))
    return Case(codes)


def go():
    c = Check("P13", rule="histories of up to 56 dictionary operations over three variables (two sharing a dictionary at first), few keys of all kinds so that they meet again, values of all kinds; entries, sizes and key lists printed after each step; compared with the model of maps")
    c.compare(generate(make, c.n(3000), c.label("dict")), kind="dict")
    c.compare(generate(big.dicts, c.n(100), c.label("big dicts")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
