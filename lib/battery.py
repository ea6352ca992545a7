"""Short programs which together use every builtin function and facility of the language, and programs of the other checks.

For workloads which need many different parts of the interpreter to meet (threads, several environments)."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
import chk

NUM = ["%", "mod", "*", "+", "-", "/", "add", "sub", "mul", "div", "&", "|", "^", "<<", ">>"]
CMP = ["!=", "<", "<=", "=", "==", ">", ">=", "equal"]
MATH = "Abs Acos Asin Atan Ceiling Cos Cosh Exp Floor Log Log10 Round Sin Sinh Sqrt Tan Tanh Truncate".split()

BATTERY = ["(%s 7 3)" % x for x in NUM] + ["(%s 7.5 0.5)" % x for x in NUM[:10]] + ["(%s 7 3 2 1)" % x for x in ["*", "+", "-", "/", "add", "sub", "mul", "div"]]
BATTERY += ["(list (%s 1 2) (%s 2.5 2) (%s \"a\" \"b\") (%s 3 3))" % (x, x, x, x) for x in CMP] + ["(list (%s '(1 (2 \"x\")) '(1 (2 \"x\"))) (%s nil '()) (%s 'a 'b) (%s #t #f))" % (x, x, x, x) for x in ["=", "==", "!=", "equal"]]
BATTERY += ["(list (Math-%s 0.5) (Math-%s 1))" % (x, x) for x in MATH] + ["(Math-Pow 2 0.5)", "(Math-Pi)", "(Math-Sqrt \"x\")"]
BATTERY += [
    "(! #t)", "(not 0)", "(~ 5)", "(and #t 1)", "(&& #t #f)", "(or #f 2)", "(|| #f #f)", "(list (if #t 1 2) (if #f 1 2) (if #f 1))",
    "(File-Exists \"t.txt\")", "(File-ReadAllText \"t.txt\")", "(File-Exists \"nothing\")", "(File-ReadAllText \"nothing\")", "(File-WriteAllText \"no/such/dir\" \"x\")",
    "(append '(1 2) '(3) '())", "(apply + '(1 2 3))", "(apply (lambda (a b) (list b a)) '(1 2))", "(do (defn va (a) (list a (args) (argscount) (arg 0) (arg 1) _additionalArgs)) (va 1 2 3))", "(arg 5)", "(begin 1 (+ 1 2))",
    "(car '(1 2))", "(cdr '(1 2))", "(cons 1 '(2))", "(cons 1 2)", "(first \"abc\")", "(rest '(1 2 3))", "(rest \"abc\")", "(last '(1 2 3))", "(last \"abc\")", "(nth 1 '(1 2 3))", "(nth 1 \"abc\")", "(nth 9 '(1))", "(list 1 \"a\" 2.5 nil #t 'b '(1 2))",
    "(copyright)", "(fuel)", "(version)", "(platform)", "(nop)", "(need-l-value)", "(date-time)", "(tickcount)", "(sleep 1)", "(flush)", "(break)", "(help)", "(htmldoc)", "(doc)", "(doc 'first)", "(doc \"Math-\")", "(searchdoc \"list\")", "(vars)",
    "(do (def v1 5) (def v2 v1) (gdef v3 6) (list v1 v2 v3 (delvar 'v1) (delvar 'v1)))", "(do (defn f1 (a) (* a 2)) (gdefn f2 (a b) (f1 (+ a b))) (f2 1 2))",
    "(do (define-macro-eval q1 (a b) (list b a a)) (q1 1 (+ 1 2)))", "(define-macro-expand q2 (a b) (list 'list 'b 'a '(+ a 1)))", "(q2 (+ 1 2) 5)", "(q2 (q2 1 2) (q2 3 4))", "(define-macro q3 (a) (list a (list a 1)))", "(q3 7)", "(define-macro-expand q4 (a) `(list ,(+ 1 2) a))", "(q4 1)", "(q1 1)",
    "(do (def dd (make-dict)) (dict-set dd 1 \"one\") (dict-set dd \"k\" '(1 2)) (dict-set dd 2.5 (make-dict)) (println dd) (list (dict-get dd 1) (dict-get dd \"none\") (dict-keys dd) (dict-contains-key dd 1) (dict-contains-value dd \"one\") (dict-remove dd 1) (len (dict-keys dd)) (dict-clear dd) (dict-keys dd)))",
    "(eval '(+ 1 2))", "(eval (list '* 2 3))", "(evalstr \"(+ 1 (* 2 3))\")", "(evalstr \"(def es 5) (list es \\\"t\\\")\")", "(evalstr \"(\")", "(float \"2.5\")", "(float 2)", "(int 2.7)", "(int \"12\")", "(int \"x\")", "(parse-float \"1e3\")", "(parse-integer \"42\")", "(parse-integer \"4x\")",
    "(fn (a) (list a))", "(typestr (lambda (a) a))", "(str (lambda (a) a))", "(format \"{0,6}|{1,-6}|{2}\" 1 2.5 \"t\")", "(format \"{1} {0}\" '(1 2) (make-dict))", "(format \"{3}\" 1)", "(trace #t)", "(println \"traced\" 1)", "(gettrace)", "(trace #f)",
    "(import \"m.fuel\")", "(mf 1)", "(import \"no-file\")", "(import \"bad.fuel\")", "(import fuellib)", "(import \"fuellib\")", "(len '(1 2 3))", "(len \"abc\")", "(len 5)", "(lower-case \"ABC\")", "(upper-case \"abc\")", "(trim \"  a b  \")", "(replace \"abcabc\" \"b\" \"--\")", "(reverse '(1 2 3))", "(reverse \"abc\")", "(search \"b\" \"abcabc\")", "(search \"b\" \"abcabc\" 2)", "(search \"b\" \"abcabc\" 2 1)", "(search 2 '(1 2 3))", "(search 9 '(1))", "(slice \"abcdef\" 1 3)", "(slice \"abcdef\" -2 2)", "(slice \"abc\" 1)",
    "(map (lambda (a) (* a a)) '(1 2 3))", "(map str '(1 2.5 \"x\"))", "(reduce + '(1 2 3) 0)", "(reduce (lambda (a b) (list a b)) '(1 2 3) nil)", "(do (def pl (list 1 2 3)) (push 0 pl) (push 9 pl 2) (list (pop pl) (pop pl 1) pl))", "(print 1 \"a\" 2.5)", "(println)", "(println \"a\\tb\" '(1 \"x\" (2)) #t nil 'sym)",
    "(quote (a (b 1) \"s\"))", "'x", "(quasiquote (a (unquote (+ 1 2)) (unquotesplicing (list 1 2))))", "`(1 ,(+ 1 2) ,@(list 4 5) (6 ,(* 2 3)))", "(do (def sl '(7 8)) `(a ,sl ,@sl))", "(do (defn rr (a) (do (while #t (if (> a 3) (return a) (setf a (+ a 1)))) (list 0))) (rr 1))", "(readline)", "(rval 5)", "(rval pl)",
    "(do (def sf '(1 2 (3 4))) (setf (nth 0 sf) 9) (setf (first sf) 8) (setf (last (rval (nth 2 sf))) 7) (setf sf (list sf)) (list sf))", "(setf unknown-name 1)", "(setf (nth 9 '(1)) 1)", "(str 1.5)", "(string 1 \"a\" '(2))", "(sym \"abc\")", "(type 1)", "(map typestr (list 1 2.5 \"s\" 'a '(1) nil #t first (make-dict)))",
    "(do (def wn 0) (while (< wn 5) (setf wn (+ wn 1))) (list wn))", "(no-such-function 1 2)", "(first)", "(/ 1 0)", "(do (def cl (map (lambda (n) (lambda (m) (setf n (+ n m)))) '(1 2 3))) (map (lambda (f) (list (f 1) (f 2))) cl))", "(do (defn fac (n) (if (< n 2) 1 (* n (fac (- n 1))))) (list (fac 10) (fac 5.0)))",
    "(def commented 1) ; text\n; documentation of me\n(defn me-too (a b) ; inner\n a)\n(doc 'me-too)", "(println \"\\\"q\\\" \\\\ \\n\")", "(list 1e10 -0.5 1.0e-5 2147483647 -2147483648 0.1 100000000000)", "(str '(a \"b\\\"c\" (nil #t)))", "(\"text\" 1)", "((1 2) 3)", "(", ")", "'", "\"open", "(if)", "(def)", "(lambda)", "(list 'a 'b) ; end", "(dotimes (di 3) (println di))", "(foreach '(1 2) (lambda (x) (println x)))", "(defstruct pt px py)", "(list (make-pt 1 2) (is-pt-p 1))", "(setq sq 5)",
    "(quoted-macro-args)", "(unquote (list 1 2))", "(list (unquotesplicing (list 1 2)))", "(_unquote (list 1 2))", "(list (_unquotesplicing (list 1 2)))", "(def uq ',@(list 1 2))", "(do (def nested (list 1 (list 2 (list 3 (list \"x\" nil))))) (println nested (str nested) (== nested nested)) (append nested nested))", "(> \"b\" \"a\")", "(< 1 \"a\")", "(+ \"a\" 1 2.5)", "(+ '(1) 2)", "(do (def ma (map (lambda (i) (list i (* i 1.5) (str i))) '(1 2 3 4 5 6))) (reverse ma))",
]

FOREIGN = [("p08", "make"), ("p09", "make"), ("p10", "make"), ("p11", "make"), ("p12", "make"), ("p13", "make"), ("p14", "make"), ("p14", "names"), ("p15", "builtin_case"), ("p15", "user_case"), ("p16", "make"), ("p17", "make"), ("p18", "make"), ("p19", "odd"), ("p27", "make"), ("p31", "make"), ("p32", "make"), ("p33", "make"), ("p34", "make"), ("p37", "odd"), ("p38", "make"), ("p41", "make")]


def foreign(rng, most=3000):
    """(flags, code) of a history of another check which ends within a known number of steps, without files"""
    while True:
        m, f = rng.choice(FOREIGN)
        x = getattr(importlib.import_module(m), f)(rng, rng.randint(0, 5000))
        for x in x if isinstance(x, list) else [x]:
            if x is None or x.files or sum(len(t) for t in x.codes) > 2 * most:
                continue
            chk._predict(x)
            if x.err is None and x.steps < most:
                return ["".join(c for c in x.flags if c in "tx")] * len(x.codes), x.codes, x.inp


def some(rng, n):
    """n pieces of the battery, in random order"""
    return [rng.choice(BATTERY) for _ in range(n)]
