----------------------------- MODULE FileIdDefs -----------------------------
(***************************************************************************)
(* Files, what is done to them and what is asked of them.                  *)
(* A content is a sequence of runs <<byte, count>>; the same bytes can be  *)
(* given in several ways.  A time is the number of seconds since 1970.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* runs without empty ones and without neighbours of the same byte
Canon(s) ==
    LET f[i \in 0..Len(s)] ==
        IF i = 0 THEN <<>>
        ELSE LET p == f[i - 1] n == Len(p) IN
             IF s[i][2] = 0 THEN p
             ELSE IF n > 0 /\ p[n][1] = s[i][1] THEN [p EXCEPT ![n] = <<s[i][1], p[n][2] + s[i][2]>>]
             ELSE Append(p, <<s[i][1], s[i][2]>>)
    IN f[Len(s)]
Bytes(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i][2] IN f[Len(s)]

(* RFC 1321, A.5                                                           *)
Vectors == <<
    <<<<>>, "d41d8cd98f00b204e9800998ecf8427e">>,
    <<<<<<97, 1>>>>, "0cc175b9c0f1b6a831c399e269772661">>,
    <<<<<<97, 1>>, <<98, 1>>, <<99, 1>>>>, "900150983cd24fb0d6963f7d28e17f72">>>>
DigestOf(c, dig) == \A i \in 1..Len(Vectors) : Vectors[i][1] = c => dig = Vectors[i][2]

(* The calendar: days since 1 March of the year 0, in eras of 400 years    *)
Floor(a, b) == a \div b
Date(t) ==
    LET day == Floor(t, 86400)
        sec == t - 86400 * day
        z == day + 719468
        era == Floor(z, 146097)
        doe == z - era * 146097
        yoe == Floor(doe - Floor(doe, 1460) + Floor(doe, 36524) - Floor(doe, 146096), 365)
        doy == doe - (365 * yoe + Floor(yoe, 4) - Floor(yoe, 100))
        mp == Floor(5 * doy + 2, 153)
        d == doy - Floor(153 * mp + 2, 5) + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN <<y, m, d, Floor(sec, 3600), Floor(sec % 3600, 60), sec % 60>>
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Days == <<"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed">>
Weekday(t) == Days[(Floor(t, 86400) % 7) + 1]

(* A table read back: rows after the lines that are left out, as a flat    *)
(* sequence, with the dimensions of more than one entry.                   *)
RowsFrom(rows, h, skip) == IF skip <= h THEN rows ELSE SubSeq(rows, skip - h + 1, Len(rows))
Flat(rows) == LET f[i \in 0..Len(rows)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o rows[i] IN f[Len(rows)]
Shape(rows) == LET r == Len(rows) c == Len(rows[1]) IN
    (IF r > 1 THEN <<r>> ELSE <<>>) \o (IF c > 1 THEN <<c>> ELSE <<>>)
=============================================================================
