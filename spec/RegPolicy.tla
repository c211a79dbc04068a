----------------------------- MODULE RegPolicy -----------------------------
(* What the predefined access policies of a register field do to one bit.   *)
(* Values are sequences of bits, least significant first.                   *)
EXTENDS Naturals, Sequences
Policies == {"RO", "RW", "RC", "RS", "WRC", "WRS", "WC", "WS", "WSRC", "WCRS", "W1C", "W1S", "W1T", "W0C", "W0S", "W0T",
             "W1SRC", "W1CRS", "W0SRC", "W0CRS", "WO", "WOC", "WOS", "W1", "WO1"}
\* the bit after writing w over c
BitW(acc, c, w, written) ==
    CASE acc \in {"RO", "RC", "RS", "NOACCESS"} -> c
      [] acc \in {"WC", "WCRS", "WOC"} -> 0
      [] acc \in {"WS", "WSRC", "WOS"} -> 1
      [] acc \in {"W1C", "W1CRS"} -> IF w = 1 THEN 0 ELSE c
      [] acc \in {"W1S", "W1SRC"} -> IF w = 1 THEN 1 ELSE c
      [] acc = "W1T" -> IF w = 1 THEN 1 - c ELSE c
      [] acc \in {"W0C", "W0CRS"} -> IF w = 0 THEN 0 ELSE c
      [] acc \in {"W0S", "W0SRC"} -> IF w = 0 THEN 1 ELSE c
      [] acc = "W0T" -> IF w = 0 THEN 1 - c ELSE c
      [] acc \in {"W1", "WO1"} -> IF written THEN c ELSE w
      [] OTHER -> w
\* the predicted bit after v was seen in a read, c being the bit predicted before
BitR(acc, c, v) ==
    CASE acc \in {"RC", "WRC", "WSRC", "W1SRC", "W0SRC"} -> 0
      [] acc \in {"RS", "WRS", "WCRS", "W1CRS", "W0CRS"} -> 1
      [] acc \in {"WO", "WOC", "WOS", "WO1", "NOACCESS"} -> c
      [] OTHER -> v
\* the bit to write so that m becomes d
BitU(acc, d, m) ==
    CASE acc \in {"W1C", "W1CRS", "W0S", "W0SRC"} -> 1 - d
      [] acc = "W1T" -> IF d = m THEN 0 ELSE 1
      [] acc = "W0T" -> IF d = m THEN 1 ELSE 0
      [] OTHER -> d
Readable(acc) == acc \notin {"WO", "WOC", "WOS", "WO1", "NOACCESS"}
\* the policy seen through a map that restricts the register
Through(acc, rights) ==
    CASE rights = "RO" -> (CASE acc \in {"RW", "RO", "WC", "WS", "W1C", "W1S", "W1T", "W0C", "W0S", "W0T", "W1"} -> "RO"
                             [] acc \in {"RC", "WRC", "W1SRC", "W0SRC", "WSRC"} -> "RC"
                             [] acc \in {"RS", "WRS", "W1CRS", "W0CRS", "WCRS"} -> "RS"
                             [] acc \in {"WO", "WOC", "WOS", "WO1"} -> "NOACCESS"
                             [] OTHER -> acc)
      [] rights = "WO" -> IF acc \in {"RW", "WO"} THEN "WO" ELSE "NOACCESS"
      [] OTHER -> acc
W(acc, c, w, written) == [i \in DOMAIN c |-> BitW(acc, c[i], w[i], written)]
R(acc, c, v) == [i \in DOMAIN c |-> BitR(acc, c[i], v[i])]
U(acc, d, m) == [i \in DOMAIN d |-> BitU(acc, d[i], m[i])]
Fit(v, n) == [i \in 1 .. n |-> IF i <= Len(v) THEN v[i] ELSE 0]
=============================================================================
