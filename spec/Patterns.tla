------------------------------ MODULE Patterns ------------------------------
(***************************************************************************)
(* Families of arrangements used to drive the implementation: each is a    *)
(* shape known to select a particular path of some sorting algorithm.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
P1 == 46337

(* A stateless hash: three rounds of multiply-square-add in the field Z_P1 *)
Mix(s, i) ==
  LET a == ((s % P1) * 7919 + (i % P1) * 6151 + 17) % P1
      b == (a * a + 12289 * 3 + s + i) % P1
      c == (b * ((a + 11) % P1) + 4099) % P1
      d == (c * c + b) % P1
  IN (d * 31 + a) % P1
Rnd(s, i, k) == ((Mix(s, i) * 11) + Mix(s + 101, i + 57) \div 7) % k
RECURSIVE Isqrt0(_, _)
Isqrt0(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE Isqrt0(n, r + 1)
Isqrt(n) == IF n <= 0 THEN 0 ELSE Isqrt0(n, 0)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE BitRev(_, _, _)
BitRev(x, bits, acc) == IF bits = 0 THEN acc ELSE BitRev(x \div 2, bits - 1, (acc * 2) + (x % 2))

RECURSIVE Log2Of(_, _)
Log2Of(x, acc) == IF x <= 1 THEN acc ELSE Log2Of(x \div 2, acc + 1)
RECURSIVE Fib(_, _, _)
Fib(a, b, x) == IF a + b > x THEN b ELSE Fib(b, a + b, x)       \* the largest Fibonacci-like number up to x

NFamilies == 50
Pattern(f, n, s) ==
  LET q == Max2(1, Isqrt(n))
      h == n \div 2
      r == 1 + (Mix(s, n) % (q + 2))          \* a run length
      u == 1 + (Mix(s + 3, n) % Max2(1, n))   \* a position
      t == 1 + (Mix(s + 5, n) % Max2(1, Min2(33, h)))   \* a short tail
  IN CASE f = 1  -> [i \in 1..n |-> Rnd(s, i, 30011)]
       [] f = 2  -> [i \in 1..n |-> Rnd(s, i, 2)]
       [] f = 3  -> [i \in 1..n |-> Rnd(s, i, 3)]
       [] f = 4  -> [i \in 1..n |-> i]
       [] f = 5  -> [i \in 1..n |-> n - i]
       [] f = 6  -> [i \in 1..n |-> 5]
       [] f = 7  -> [i \in 1..n |-> i \div (1 + (s % 5))]
       [] f = 8  -> [i \in 1..n |-> (n - i) \div (1 + (s % 5))]
       [] f = 9  -> [i \in 1..n |-> IF i <= h THEN i ELSE n - i]
       [] f = 10 -> [i \in 1..n |-> IF i <= h THEN h - i ELSE i - h]
       [] f = 11 -> [i \in 1..n |-> IF i = n THEN 0 ELSE i]
       [] f = 12 -> [i \in 1..n |-> IF i = n THEN u ELSE IF i >= u THEN i + 1 ELSE i]
       [] f = 13 -> [i \in 1..n |-> i % 2]
       [] f = 14 -> [i \in 1..n |-> i % r]
       [] f = 15 -> [i \in 1..n |-> (n - i) % r]
       [] f = 16 -> [i \in 1..n |-> (i % r) * ((n \div r) + 1) + (i \div r)]
       [] f = 17 -> [i \in 1..n |-> LET b == i \div (2 + r) IN
                        IF Mix(s, b) % 2 = 0 THEN Rnd(s, b, n + 1) + i ELSE Rnd(s, b, n + 1) - i + n]
       [] f = 18 -> [i \in 1..n |-> IF Mix(s, i) % (q + 1) = 0 THEN Rnd(s, i, n + 1) ELSE i]
       [] f = 19 -> [i \in 1..n |-> IF Mix(s, i) % 16 = 0 THEN Rnd(s, i, n + 1) ELSE i \div 2]
       [] f = 20 -> [i \in 1..n |-> ((n - i) \div (q + 1)) * (q + 2) + (i % (q + 1))]
       [] f = 21 -> [i \in 1..n |-> (i * 7 + s) % 16]
       [] f = 22 -> [i \in 1..n |-> IF i <= h THEN (i \div r) * 2 * r + i ELSE ((i - h) \div r) * 2 * r + r + (i - h)]
       [] f = 23 -> [i \in 1..n |-> IF i <= h THEN Rnd(s, i, 4) ELSE Rnd(s, i, 30011)]
       [] f = 24 -> [i \in 1..n |-> IF i > n - r THEN 1 ELSE IF i <= r THEN 3 ELSE 2]
       [] f = 25 -> [i \in 1..n |-> IF i <= h THEN (IF i % 2 = 1 THEN i ELSE h + i - 1) ELSE 2 * (i - h)]
       [] f = 26 -> [i \in 1..n |-> IF Rnd(s, i, n + 1) < u THEN 0 ELSE 1]
       [] f = 27 -> [i \in 1..n |-> (i + u) % n]
       [] f = 28 -> [i \in 1..n |-> IF i <= u THEN (i * 3) \div 2 ELSE ((i - u) * 3) \div (1 + (s % 3))]
       [] f = 29 -> [i \in 1..n |-> Rnd(s, i, q + 1)]
       [] f = 30 -> [i \in 1..n |-> BitRev(i, 13, 0)]
       [] f = 31 -> [i \in 1..n |-> IF i % (r + 1) = 0 THEN n - i ELSE i]
       [] f = 32 -> [i \in 1..n |-> Rnd(s, i \div (r + 1), q + 2)]
       [] f = 33 -> [i \in 1..n |-> -(Rnd(s, i, 2 * n + 1)) + n]
       [] f = 34 -> [i \in 1..n |-> IF i = u THEN 2 * n ELSE IF i = n + 1 - u THEN -1 ELSE i]
       [] f = 35 -> [i \in 1..n |-> LET b == i \div Max2(8, n \div 6) IN Rnd(s, b, 3) * 5 + (IF b % 2 = 0 THEN i \div 3 ELSE n - i \div 3)]
       [] f = 36 -> [i \in 1..n |-> IF i < n - q THEN i ELSE Rnd(s, i, n + 1)]
       [] f = 37 -> [i \in 1..n |-> IF i <= n - t THEN i \div 4 ELSE Rnd(s, i, n + 1) \div 4]
       [] f = 38 -> [i \in 1..n |-> IF i <= n - h /\ i > n - h - t THEN Rnd(s, i, n + 1) \div 3 ELSE i \div 3]
       [] f = 39 -> [i \in 1..n |-> IF i <= n - t THEN n - i ELSE Rnd(s, i, n + 1)]
       [] f = 40 -> [i \in 1..n |-> IF i <= h THEN (i \div 16) * 16 ELSE ((i - h) \div 20) * 16 + (s % 2) * 8]
       [] f = 41 -> [i \in 1..n |-> LET b == Fib(1, 2, i) IN (i - b) * 3 + (b % 3)]
       [] f = 42 -> [i \in 1..n |-> LET j == n + 1 - i b == Log2Of(j, 0) IN ((2 ^ b) * 2 - j) * 2 + (b % 2)]
       [] f = 43 -> [i \in 1..n |-> ((i % q) * 5) \div (q + 1) + (IF Mix(s, i) % 31 = 0 THEN 1 ELSE 0)]
       [] f = 44 -> [i \in 1..n |-> (IF i <= h THEN i ELSE n - i) \div 3 + (IF Mix(s, i) % 13 = 0 THEN Rnd(s, i, q + 1) ELSE 0)]
       [] f = 45 -> [i \in 1..n |-> IF i > n - (s % 9) - 1 THEN Rnd(s, i, 9) ELSE 4]
       [] f = 46 -> [i \in 1..n |-> IF i <= t THEN n - i ELSE IF i > n - t THEN t - (n - i) ELSE i]
       [] f = 47 -> [i \in 1..n |-> IF i <= h THEN n - (i \div 5) ELSE (i \div 5) + (IF Mix(s, i) % 50 = 0 THEN n ELSE 0)]
       [] f = 48 -> [i \in 1..n |-> IF i <= n - h - t THEN n - i ELSE IF i <= n - h THEN n - (i \div 2) ELSE (n - i) \div 4]
       \* long runs, up or down, with a few strays between them
       [] f = 49 -> LET L == Max2(4, n \div (2 + (s % 5))) IN
                    [i \in 1..n |-> LET b == (i - 1) \div L  o == (i - 1) % L  w == Mix(s + 9, b) % 4 IN
                        IF o >= L - w THEN Rnd(s, i, 3 * n) ELSE Rnd(s, b, 2 * n) + (IF Mix(s + 7, b) % 2 = 0 THEN o ELSE L - o)]
       [] f = 50 -> LET L == Max2(4, n \div (2 + (s % 4))) IN
                    [i \in 1..n |-> LET b == (i - 1) \div L  o == (i - 1) % L IN
                        IF o = L - 1 THEN Rnd(s, b, n) ELSE (Rnd(s, b, 3) * L) + (IF (b + s) % 2 = 0 THEN o ELSE L - o)]
=============================================================================
