----------------------------- MODULE Trace_Record -----------------------------
(* Several record objects (handles); each says what its source and fields     *)
(* say (MKDecode), whatever was done before to it or to another.              *)
EXTENDS MKTrace, MKDecode
\* case: base, a sequence of [src, f, id, good]; state: the base of every handle and the handles whose values were changed
As(x) == IF x.k = "d" THEN [k |-> "d", v |-> {x.v[i] : i \in 1..Len(x.v)}] ELSE x
MyInit(c) == [base |-> c.base, of |-> [i \in 1..Len(c.base) |-> i], spoiled |-> {}]
B(s, h) == s.base[s.of[h]]
See(s, h, k) == View(B(s, h).src, B(s, h).f, k)
Stays(s, bad) == [st |-> s, bad |-> bad]
TagsOf(b) == [i \in 1..Len(b.f) |-> b.f[i].t]
SameAt(b, i, v) == Same(As(v), View(b.src, b.f, b.f[i].t))
Wide == [v |-> "any"]
MyStep(s, e) ==
  CASE e.op = "copy" -> [st |-> [s EXCEPT !.of = Append(@, s.of[e.h])], bad |-> {}]
    [] e.op = "change" -> [st |-> [s EXCEPT !.spoiled = @ \cup {e.h}], bad |-> {}]
    [] e.op \notin {"same"} /\ e.h \in s.spoiled -> Stays(s, {})
    [] e.op \in {"index", "get", "sub"} -> Stays(s, Failing({<<"value by " \o e.op, Same(As(e.v), See(s, e.h, e.key))>>}))
    [] e.op = "has" -> Stays(s, Failing({<<"membership", e.has = There(See(s, e.h, e.key))>>}))
    [] e.op = "raw" ->
         LET b == B(s, e.h)
             t == IF Has(b.f, e.key) THEN e.key ELSE IF TagOf(b.src, e.key) # "" THEN TagOf(b.src, e.key) ELSE NameOf(b.src, e.key)
         IN Stays(s, Failing({<<"raw access", e.v = (IF Has(b.f, t) THEN Raw(b.f, t) ELSE <<>>)>>}))
    [] e.op = "iter" -> Stays(s, Failing({<<"iteration gives the stored tags in order", e.tags = TagsOf(B(s, e.h))>>, <<"length", e.n = Len(B(s, e.h).f)>>,
                                          <<"keys", e.ks = TagsOf(B(s, e.h))>>}))
    [] e.op = "items" -> LET b == B(s, e.h) IN
         Stays(s, Failing({<<"items give the stored tags in order", e.tags = TagsOf(b)>>,
                           <<"items give the values", Len(e.vs) = Len(b.f) /\ \A i \in 1..Len(b.f) : SameAt(b, i, e.vs[i])>>,
                           <<"raw items", e.rtags = TagsOf(b) /\ e.rvs = [i \in 1..Len(b.f) |-> b.f[i].v]>>}))
    [] e.op = "values" -> LET b == B(s, e.h) IN
         Stays(s, Failing({<<"values", Len(e.vs) = Len(b.f) /\ \A i \in 1..Len(b.f) : SameAt(b, i, e.vs[i])>>,
                           <<"raw values", e.rvs = [i \in 1..Len(b.f) |-> b.f[i].v]>>}))
    [] e.op = "same" ->
         \* objects h and g
         LET a == B(s, e.h) b == B(s, e.g) eq == a.src = b.src /\ a.id = b.id
         IN IF s.of[e.h] = s.of[e.g] THEN Stays(s, Failing({<<"a record equals itself and its copies", e.eq /\ ~e.ne /\ e.hash>>}))
            ELSE IF ~a.good \/ ~b.good THEN Stays(s, Failing({<<"not equal in the one way and unequal in the other", e.eq # e.ne>>}))
            ELSE Stays(s, Failing({<<"equal exactly when the IDs agree", e.eq = eq /\ e.ne = ~eq>>,
                                   <<"hash alike when the IDs agree", a.src = b.src => (e.hash = eq)>>}))
===============================================================================
