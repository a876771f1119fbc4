SPECIFICATION Spec
CONSTANTS Things = {t1, t2, t3} Funcs = {f1, f2} Requests = {r1, r2}
INVARIANTS NothingLeft Bounded
CHECK_DEADLOCK FALSE
