; for natural numbers with a > 0 and M = q*a + r, 0 <= r < a (so q = M / a):  a*b > M  iff  b > M / a
(set-logic ALL)
(declare-const a Int)(declare-const b Int)(declare-const q Int)(declare-const r Int)(declare-const M Int)
(assert (and (> a 0) (>= b 0) (>= M 0) (>= r 0) (< r a) (= M (+ (* q a) r))))
(assert (not (= (> (* a b) M) (> b q))))
(check-sat)
