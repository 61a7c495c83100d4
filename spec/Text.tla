-------------------------------- MODULE Text --------------------------------
(* The text a vector or matrix is printed as.                                *)
EXTENDS Num, TLC
RECURSIVE Digits(_, _)   \* decimals of r / d, d a power of two
Digits(r, d) == IF r = 0 THEN "" ELSE ToString((r * 10) \div d) \o Digits((r * 10) % d, d)
Dec(n, d) == LET a == IAbs(n) w == a \div d r == a % d IN
             (IF n < 0 THEN "-" ELSE "") \o ToString(w) \o (IF r = 0 THEN "" ELSE "." \o Digits(r, d))
Show(x, cx) == IF cx THEN "(" \o Dec(x[1], x[3]) \o "," \o Dec(x[2], x[3]) \o ")" ELSE Dec(x[1], x[3])
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Join(Tail(ss))
Row(r, cx) == Join([j \in 1..Len(r) |-> Show(r[j], cx) \o " "])
VecText(c, cx) == "[ " \o Row(c, cx) \o "]"
MatText(c, cx) == "[ " \o Join([i \in 1..Len(c) |-> Row(c[i], cx) \o (IF i = Len(c) THEN "" ELSE "| ")]) \o "]"
Item(i, j, x, cx) == IF IsZero(x) THEN "" ELSE "(" \o ToString(i - 1) \o ", " \o ToString(j - 1) \o "; " \o Show(x, cx) \o ") "
SparseText(c, cx) == "[ " \o Join([i \in 1..Len(c) |-> Join([j \in 1..Len(c[i]) |-> Item(i, j, c[i][j], cx)])]) \o "]"
\* the stored entries <<row, column, value>> in order
ItemsText(c, cx) == "[ " \o Join([k \in 1..Len(c) |-> Item(c[k][1] + 1, c[k][2] + 1, c[k][3], cx)]) \o "]"
TextOf(kind, c, cx) == IF kind = "vec" THEN VecText(c, cx) ELSE IF kind = "mat" THEN MatText(c, cx) ELSE SparseText(c, cx)
=============================================================================
