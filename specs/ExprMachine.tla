---------------------------- MODULE ExprMachine ----------------------------
(***************************************************************************)
(* Random expressions, argument lists, dictionaries and evaluation points. *)
(***************************************************************************)
EXTENDS Expr, Json
CONSTANTS Depth, Fancy
Names == <<"a", "b", "c", "d", "e">>
Consts == <<"1", "2", "-1", "1/2", "-3/4", "3", "5/4", "0">>
Points == <<"1/2", "-1/2", "1", "-1", "3/4", "-5/4", "3/2", "2", "1/8", "-3/8", "0">>
\* everything is drawn from one random number r: a branch k of it is Rnd(r, k)
Mix(a) == (a * (a % 8191) + 75 * a + 74) % 65537
Rnd(r, k) == Mix((Mix(r % 65537) + k * 8121 + 28411) % 65537)
One(S, r) == S[1 + ((r \div 7) % Len(S))]
Num(v) == [k |-> "num", v |-> v, a |-> <<>>]
Sym(v) == [k |-> "sym", v |-> v, a |-> <<>>]
Node(k, v, a) == [k |-> k, v |-> v, a |-> a]
RECURSIVE Tree(_, _)
Squared(t) == Node("pow", 2, <<t>>)
OnePlus(t) == Node("add", "", <<Num("1"), Squared(t)>>)
Kinds == <<"add", "mul", "add3", "mul3", "sq", "cube", "quot">>
         \o IF Fancy THEN <<"ite", "exp", "log", "sin", "cos", "tanh", "sqrt", "abs">> ELSE <<>>
Tree(d, r) ==
  IF d = 0 THEN (IF r % 4 = 1 THEN Num(One(Consts, r)) ELSE Sym(One(Names, r)))
  ELSE LET k == One(Kinds, r)
           t(i) == Tree(d - 1, Rnd(r, i))
           l(i) == Tree(0, Rnd(r, i))
       IN CASE k = "add" -> Node("add", "", <<t(1), t(2)>>)
            [] k = "mul" -> Node("mul", "", <<t(1), t(2)>>)
            [] k = "add3" -> Node("add", "", <<t(1), l(2), l(3)>>)
            [] k = "mul3" -> Node("mul", "", <<t(1), l(2), Num(One(SubSeq(Consts, 1, 7), Rnd(r, 3)))>>)
            [] k = "sq" -> Squared(t(1))
            [] k = "cube" -> Node("pow", 3, <<t(1)>>)
            [] k = "quot" -> Node("mul", "", <<t(1), Node("pow", 0 - 1, <<OnePlus(t(2))>>)>>)
            [] k = "ite" -> Node("ite", "", <<Node(One(<<"lt", "le", "gt", "ge">>, Rnd(r, 9)), "", <<l(3), l(4)>>), t(1),
                                               Node("true", "", <<>>), t(2)>>)
            [] k = "log" -> Node("log", "", <<OnePlus(t(1))>>)
            [] k = "sqrt" -> Node("sqrt", "", <<OnePlus(t(1))>>)
            [] k = "exp" -> Node("exp", "", <<Node("tanh", "", <<t(1)>>)>>)
            [] OTHER -> Node(k, "", <<t(1)>>)

Rot(p, k) == [i \in 1..5 |-> p[1 + ((i + k) % 5)]]
Swap(p, k) == [p EXCEPT ![1] = p[1 + (k % 5)], ![1 + (k % 5)] = p[1]]
Perm(r) == Swap(Rot(Swap(Names, Rnd(r, 1)), Rnd(r, 2)), Rnd(r, 3))
Shapes == <<<<0, 1, 1>>, <<1, 1, 1>>, <<1, 2, 1>>, <<1, 3, 1>>, <<2, 2, 2>>, <<2, 1, 2>>, <<2, 3, 1>>, <<2, 2, 3>>>>
Letters == {"a", "b", "c", "d", "e"}
Index(x) == CHOOSE i \in 1..5 : Names[i] = x
VARIABLES ph, job
vars == <<ph, job>>
Init == ph = 0 /\ job = <<>>
Make(r) == LET s == One(Shapes, r)  p == Perm(Rnd(r, 40))  n == One(<<2, 3, 4, 5>>, Rnd(r, 41))
               at(q) == [x \in Letters |-> One(Points, Rnd(Rnd(r, 50 + q), Index(x)))] IN
        [d |-> s[1], e |-> [i \in 1..s[2] |-> [j \in 1..s[3] |-> Tree(Rnd(r, 60 + i + 5 * j) % (Depth + 1), Rnd(r, 7 * i + j))]],
         args |-> [i \in 1..n |-> p[i]], subs |-> [i \in 1..(5 - n) |-> p[n + i]],
         pts |-> [q \in 1..3 |-> at(q)], vals |-> at(4), vec |-> TRUE]
Next == ph < 1 /\ ph' = ph + 1 /\ \E r \in {RandomElement(1..65536)} : job' = TLCEval(Make(r))
\* the value is compositional: sums, products and their order
Env(j, q) == [x \in Letters |-> IF \E i \in 1..Len(j.args) : j.args[i] = x THEN j.pts[q][x] ELSE j.vals[x]]
Rev(t) == [t EXCEPT !.a = [i \in 1..Len(t.a) |-> t.a[Len(t.a) + 1 - i]]]
Laws == ph = 1 => \A i \in 1..Len(job.e) : \A j \in 1..Len(job.e[i]) :
          LET t == job.e[i][j]  env == Env(job, 1) IN
          Sound(t, env) => /\ (t.k \in {"add", "mul"} => Val(Rev(t), env) = Val(t, env))
                           /\ Near(Val(t, env), t, env)
                           /\ RLe(RAbs(Val(t, env)), RMul(Mag(t, env), "1000001/1000000"))
                           /\ Val(Node("add", "", <<t, Node("mul", "", <<Num("-1"), t>>)>>), env) = "0"
                           /\ Val(Squared(t), env) = Val(Node("mul", "", <<t, t>>), env)
Emit == ph = 1 => PrintT("GEN " \o ToJson(job))
=============================================================================
