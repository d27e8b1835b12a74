---------------------------- MODULE Trace_Glimpse ----------------------------
EXTENDS MKTrace, MKGlimpse
(* Each event is one printed summary: what was asked and the lines. *)
MyInit(case) == case
Col(s, j) == [title |-> s.cols[j].title, vals |-> SeqRange(s.cols[j].vals)]
Heads(s, e, w) ==
    LET second == ToString(s.n) \o " Records from " \o Upto(s.name, 30)
        first == s.type \o " glimpse made at: "
    IN IF ~e.compact THEN {<<"heading", Len(e.lines) >= 2 /\ StartsWith(e.lines[1], first) /\ e.lines[2] = second>>}
       ELSE {<<"heading", Len(e.lines) >= 3 /\ StartsWith(e.lines[1], "+" \o first) /\ e.lines[2] = "|" \o LeftIn(second, w - 2, "+") \o "|">>,
             <<"heading: description", IF Len(Long) > w - 2 THEN Len(e.lines) >= 4 /\ e.lines[3] = "|" \o LeftIn(About, w - 2, "+") \o "|" /\ e.lines[4] = "|" \o LeftIn(About2, w - 2, "+") \o "|"
                                       ELSE e.lines[3] = "|" \o LeftIn(Long, w - 2, "+") \o "|">>}
Compact(s, e, w, h) ==
    LET k == Len(s.cols)
        top == IF Len(Long) > w - 2 THEN 5 ELSE 4
        m == Rows(w, h)
        W == [j \in 1..k |-> ColWidth(w, k, j)]
        from == [j \in 1..k |-> 1 + SumSeq([i \in 1..j |-> IF i = j THEN 1 ELSE W[i] + 1])]
        cell(i, j) == SubSeq(e.lines[i], from[j], from[j] + W[j] - 1)
        shape == Len(e.lines) = top + m /\ \A i \in 1..Len(e.lines) : Len(e.lines[i]) = w
        bars(i, sep) == \A j \in 1..k : SubSeq(e.lines[i], from[j] - 1, from[j] - 1) = (IF j = 1 THEN "|" ELSE sep)
    IN {<<"table: size", shape>>,
        <<"table: titles", shape => bars(top, "+") /\ \A j \in 1..k : cell(top, j) = Heading(s.cols[j].title, W[j])>>,
        <<"table: bars", shape => \A i \in (top + 1)..(top + m) : bars(i, "|") /\ SubSeq(e.lines[i], w, w) = "|">>}
       \cup (IF shape THEN UNION {LET c == Col(s, j)  q == Shown(c, m) IN
              {<<"table: values", Good(c, [i \in 1..q |-> cell(top + i, j)], m, LAMBDA t, r : Cell(t, r, W[j]))>>,
               <<"table: nothing more", \A i \in (q + 1)..m : cell(top + i, j) = Cell("NA", 0 - 1, W[j])>>} : j \in 1..k} ELSE {})
List(s, e, w, h) ==
    LET k == Len(s.cols)
        m == Rows(w, h) \div 2
        q == [j \in 1..k |-> Shown(Col(s, j), m)]
        from == [j \in 1..k |-> 3 + SumSeq([i \in 1..j |-> IF i = j THEN 0 ELSE q[i] + 2])]
        shape == Len(e.lines) = 2 + SumSeq([j \in 1..k |-> q[j] + 2])
    IN {<<"list: number of lines", shape>>, <<"list: width", \A i \in 1..Len(e.lines) : Len(e.lines[i]) <= w>>}
       \cup (IF shape THEN UNION {{<<"list: titles", e.lines[from[j]] = "" /\ e.lines[from[j] + 1] = s.cols[j].title>>,
              <<"list: values", Good(Col(s, j), [i \in 1..q[j] |-> e.lines[from[j] + 1 + i]], m, LAMBDA t, r : Plain(t, r, w))>>} : j \in 1..k} ELSE {})
MyStep(s, e) == LET w == Width(e.w)  h == Height(w, e.h) IN
    [st |-> s, bad |-> Failing(Heads(s, e, w) \cup (IF e.compact THEN Compact(s, e, w, h) ELSE List(s, e, w, h)))]
=============================================================================
