-------------------------------- MODULE Glob --------------------------------
\* Matching of scopes: strings are sequences of one-character strings.
\* A pattern is a glob (star: any characters, plus: one or more characters,
\* question mark: one character) or, between slashes, a regular expression
\* (subset: ^ $ . and postfix star, plus), which matches anywhere in the string.
\* A glob matches the whole string (MatchAll); as the code has it, the scope of
\* a resource matches any end of the string (Match: known finding of C40).  An
\* empty pattern matches everything.
EXTENDS Integers, Sequences
Elem(kind, c) == [kind |-> kind, c |-> c]
RECURSIVE GlobRe(_), ReRe(_), Here(_, _), Many(_, _, _)
\* a pattern as a sequence of elements: kind "one" (c, or "" for any), "many", "some", "end"
GlobRe(p) == IF p = <<>> THEN <<>>
             ELSE <<CASE Head(p) = "*" -> Elem("many", "") [] Head(p) = "?" -> Elem("one", "") [] Head(p) = "+" -> Elem("some", "")
                      [] OTHER -> Elem("one", Head(p))>> \o GlobRe(Tail(p))
Atom(c) == IF c = "." THEN "" ELSE c
ReRe(p) == IF p = <<>> THEN <<>>
           ELSE LET esc == Head(p) = "\\" /\ Len(p) > 1
                    n == IF esc THEN 2 ELSE 1
                    c == IF esc THEN p[2] ELSE Atom(Head(p))
                    post == IF Len(p) > n THEN p[n + 1] ELSE ""
                    rest(k) == ReRe(SubSeq(p, n + k + 1, Len(p)))
                IN IF post = "*" THEN <<Elem("many", c)>> \o rest(1)
                   ELSE IF post = "+" THEN <<Elem("some", c)>> \o rest(1)
                   ELSE IF Head(p) = "$" /\ Len(p) = 1 THEN <<Elem("end", "")>>
                   ELSE <<Elem("one", c)>> \o rest(0)
Fits(el, c) == el.c = "" \/ el.c = c
Here(r, s) == IF r = <<>> THEN TRUE
              ELSE CASE Head(r).kind = "end" -> s = <<>> /\ Len(r) = 1
                     [] Head(r).kind = "many" -> Many(r, s, 0)
                     [] Head(r).kind = "some" -> s # <<>> /\ Fits(Head(r), Head(s)) /\ Many(r, Tail(s), 0)
                     [] OTHER -> s # <<>> /\ Fits(Head(r), Head(s)) /\ Here(Tail(r), Tail(s))
Many(r, s, x) == Here(Tail(r), s) \/ (s # <<>> /\ Fits(Head(r), Head(s)) /\ Many(r, Tail(s), x))
Anywhere(r, s) == \E i \in 0 .. Len(s) : Here(r, SubSeq(s, i + 1, Len(s)))
IsRe(p) == Len(p) > 1 /\ p[1] = "/" /\ p[Len(p)] = "/"
MatchRe(p, s) == LET b == SubSeq(p, 2, Len(p) - 1) IN
                 IF b # <<>> /\ b[1] = "^" THEN Here(ReRe(Tail(b)), s) ELSE Anywhere(ReRe(b), s)
Whole(p) == GlobRe(p) \o <<Elem("end", "")>>
Match(p, s) == IF IsRe(p) THEN MatchRe(p, s) ELSE p = <<>> \/ Anywhere(Whole(p), s)
MatchAll(p, s) == IF IsRe(p) THEN MatchRe(p, s) ELSE p = <<>> \/ Here(Whole(p), s)
=============================================================================
